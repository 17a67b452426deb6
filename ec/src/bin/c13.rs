//! C13: execution-triggered requests
use eccheck::{ops::*, *};
fn withdrawal(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Withdrawal, src, obs)
}
fn receipt(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Receipt, src, obs)
}
fn consolidation(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Consolidation, src, obs)
}
fn body(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::Withdrawal, Kind::Receipt, Kind::Consolidation], src, obs)
}
/// charging a sequence of amounts: no epoch may take more than its limit
fn churn(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut c = gen::cfg(src);
    if src.bool() {
        c.CHURN_LIMIT_QUOTIENT = src.range(1, 6);
    }
    let sp = Spec::new(&c, Electra);
    let fp = sp.fp();
    let s = gen::state(src, &sp, gen::OPS);
    let ctx = context(&c);
    let exits = src.bool();
    let limit = if exits { sp.activation_exit_churn_limit(&s) } else { sp.consolidation_churn_limit(&s) };
    let mut amounts: Vec<u64> = vec![];
    for _ in 0..src.range(1, 8) {
        amounts.push(match src.weighted(&[3, 2, 1, 1]) {
            0 => 32 * GWEI,
            1 => src.range(1, 200 * GWEI),
            2 => limit.max(1),
            _ => s.exit_balance_to_consume.max(1) + src.below(2),
        });
    }
    let want = model(|| {
        let mut m = s.clone();
        let mut out = vec![];
        for a in &amounts {
            out.push(if exits { sp.exit_epoch_update_churn(&mut m, *a) } else { sp.consolidation_epoch_update_churn(&mut m, *a)? });
        }
        Ok((out, m))
    });
    let Ok((want, m)) = want else { return Ok(()) };
    electra_on!(Electra, spec => {
    let mut st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
    let got = run(|| {
        let mut out = vec![];
        for a in &amounts {
            out.push(if exits { spec::compute_exit_epoch_and_update_churn(&mut st, *a, &ctx)? } else { spec::compute_consolidation_epoch_and_update_churn(&mut st, *a, &ctx)? });
        }
        Ok::<_, ethereum_consensus::Error>(out)
    });
    let what = if exits { "exit" } else { "consolidation" };
    let input = || format!("{}; {what} amounts {amounts:?}, limit {limit}", brief(&sp, &s));
    obs.hit(format!("{} {what} {amounts:?}", s.slot).as_bytes());
    obs.label(what);
    obs.sample(input);
    match got {
        Got::Ok(g) => {
            ensure!(g == want, format!("churn-{what}-epochs"), "{}: epochs {g:?}, expected {want:?}", input());
            let g: State = from_repo(fp, "BeaconState", &st);
            ensure!(g == m, format!("churn-{what}-state"), "{}: {}", input(), state_diff(fp, &g, &m));
            Ok(())
        }
        g => fail(format!("churn-{what}"), format!("{}: {}", input(), g.kind())),
    }
    })
}
fn main() {
    pbt::main(Check {
        property: "C13",
        rule: "A case is an Electra configuration, state and one request, a body of requests, or a sequence of churn charges; operations are valid, changed in a leaf or two, or their validator's record is moved across a boundary. Non-trivial: the code under test was run on it; distinct by content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "withdrawal", quick: 60000, thorough: 600000, f: withdrawal },
            Sub { name: "receipt", quick: 36000, thorough: 360000, f: receipt },
            Sub { name: "consolidation", quick: 60000, thorough: 600000, f: consolidation },
            Sub { name: "body", quick: 18000, thorough: 180000, f: body },
            Sub { name: "churn", quick: 30000, thorough: 300000, f: churn },
        ],
    })
}
