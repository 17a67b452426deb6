//! C02: justification and finality
use eccheck::{steps::*, *};

fn tune(src: &mut Src, sp: &Spec, s: &mut State) {
    if src.chance(3, 4) {
        // equal balances make exact two-thirds totals reachable
        if src.chance(1, 2) {
            for v in s.validators.iter_mut() {
                v.effective_balance = 32 * GWEI;
            }
        }
        let p = gen::supermajority(src, sp, s, sp.prev(s)).0;
        let c = gen::supermajority(src, sp, s, sp.cur(s)).0;
        gen::set_targets(sp, s, [&p, &c]);
    }
    // checkpoints a history could hold: the four finalising patterns are common
    let e = sp.cur(s);
    if src.chance(3, 4) && e >= 3 {
        let pj = e - *src.pick(&[2, 3, 1, 4]).min(&e);
        let cj = (e - *src.pick(&[1, 2, 3]).min(&e)).max(pj);
        s.previous_justified_checkpoint.epoch = pj;
        s.current_justified_checkpoint.epoch = cj;
        if pj == cj {
            s.current_justified_checkpoint = s.previous_justified_checkpoint;
        }
        s.finalized_checkpoint.epoch = s.finalized_checkpoint.epoch.min(pj);
        s.justification_bits = Bits((0..4u64).map(|i| src.chance(3, 4) || e - 1 - i.min(e - 1) == cj).collect());
    }
}
fn view(_: &Spec, s: &State) -> String {
    format!("bits {:?} previous {:?} current {:?} finalized {:?}", s.justification_bits, s.previous_justified_checkpoint, s.current_justified_checkpoint, s.finalized_checkpoint)
}
fn step(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Justification, src, obs, tune)
}
fn epoch(src: &mut Src, obs: &mut Obs) -> CaseResult {
    epoch_view("justification", src, obs, tune, view)
}
/// several epochs, each with its own attesting set, through the slot advance
fn history(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg_odds(src, 10 * gen::MAINNET);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::Shape { lo: 8, hi: 40, ..gen::EPOCH_END });
    let ctx = context(&c);
    let n = src.range(3, 8);
    let mut log = vec![];
    let mut moved = 0;
    for _ in 0..n {
        let (p, a) = gen::supermajority(src, &sp, &s, sp.prev(&s));
        let (q, b) = gen::supermajority(src, &sp, &s, sp.cur(&s));
        gen::set_targets(&sp, &mut s, [&p, &q]);
        log.push(format!("{a}/{b}"));
        let to = s.slot + sp.c.k.SLOTS_PER_EPOCH;
        let want = model(|| {
            let mut m = s.clone();
            sp.process_slots(&mut m, to)?;
            Ok(m)
        });
        let got = all_forks!(f, spec => on_state::<spec::BeaconState>(fp, &s, |x| spec::process_slots(x, to, &ctx)))?;
        let (w, g) = match (want, got) {
            (Ok(w), Got::Ok(g)) => (w, g),
            _ => break,
        };
        ensure!(view(&sp, &w) == view(&sp, &g), format!("history-{}", f.name()), "{} after attesting sets {:?}: got {} expected {}", brief(&sp, &s), log, view(&sp, &g), view(&sp, &w));
        ensure!(g.finalized_checkpoint.epoch >= s.finalized_checkpoint.epoch || g.finalized_checkpoint == w.finalized_checkpoint, "finality-reverts", "finalized checkpoint went back");
        if w.finalized_checkpoint != s.finalized_checkpoint {
            moved += 1;
        }
        s = w;
    }
    obs.label(format!("{} finalized {moved} times", f.name()));
    if moved > 0 {
        obs.hit(format!("{f:?} {} {log:?}", s.slot).as_bytes());
    }
    obs.sample(|| format!("{}; attesting sets (previous/current) {}", brief(&sp, &s), log.join(", ")));
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C02",
        rule: "A case is a fork, a configuration and a state at the end of an epoch with attesting sets near two thirds (parts step, epoch) or a run of 3 to 8 epochs (part history). Non-trivial: the step changes the checkpoints or bits, or the history finalizes something; distinct by fork, slot and content.",
        assumptions: &[],
        subs: vec![
            Sub { name: "step", quick: 24000, thorough: 300000, f: step },
            Sub { name: "epoch", quick: 12000, thorough: 150000, f: epoch },
            Sub { name: "history", quick: 2100, thorough: 25000, f: history },
        ],
    })
}
