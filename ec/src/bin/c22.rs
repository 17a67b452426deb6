//! C22: the clock
use ec::clock::{self, Clock, TimeProvider};
use eccheck::*;
use std::{
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc, Mutex,
    },
    time::{Duration, SystemTime, UNIX_EPOCH},
};
use tokio_stream::StreamExt;

const NS: u128 = 1_000_000_000;
#[derive(Clone)]
struct Fixed(Arc<Mutex<u128>>);
impl TimeProvider for Fixed {
    fn get_current_time(&self) -> u128 {
        *self.0.lock().unwrap()
    }
}
/// the latest second that 64-bit nanoseconds can name
const LAST: u64 = u64::MAX / 1_000_000_000;

fn dur(ns: u128) -> Duration {
    Duration::new((ns / NS) as u64, (ns % NS) as u32)
}
fn instants(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let sps = match src.below(5) {
        0 => 12,
        1 => 6,
        2 => src.range(1, 30),
        3 => src.range(1, 100_000),
        _ => src.range(1, 1 << 33),
    };
    let spe = *src.pick(&[32u64, 8, 1, 2, 3, 7, 64, 1000]);
    let g = match src.below(5) {
        0 => 0,
        1 => 1606824023,
        2 => src.below(100),
        3 => src.below(1 << 31),
        _ => src.below(LAST),
    };
    let last_slot = (LAST - g) / sps;
    let slot = match src.below(4) {
        0 => src.below(4).min(last_slot),
        1 => src.below(last_slot + 1),
        2 => (spe * src.below(100) + src.below(3)).saturating_sub(1).min(last_slot),
        _ => src.below((1 << 20).min(last_slot + 1)),
    };
    let start = g as u128 * NS + slot as u128 * sps as u128 * NS;
    let now = match src.below(8) {
        0 => start,
        1 => start.saturating_sub(1),
        2 => start + 1,
        3 => start + sps as u128 * NS - 1,
        4 => start + src.below(sps * 1_000_000_000u64.min(u64::MAX / sps)) as u128 % (sps as u128 * NS),
        5 => (g as u128 * NS).saturating_sub(1 + src.below(1_000_000_000) as u128),
        6 => src.below(g.max(1)) as u128 * NS,
        _ => start + src.below(1_000_000_000) as u128,
    };
    let fixed = Fixed(Arc::new(Mutex::new(now)));
    let c = Clock::new(g, sps, spe, fixed.clone());
    let who = format!("genesis {g}, {sps} seconds per slot, {spe} slots per epoch, now {now} ns");
    obs.hit(who.as_bytes());
    obs.label(if now < g as u128 * NS {
        "before genesis"
    } else if now == start {
        "slot start"
    } else {
        "within a slot"
    });
    obs.sample(|| who.clone());
    let want = (now >= g as u128 * NS).then(|| ((now - g as u128 * NS) / (sps as u128 * NS)) as u64);
    let r = guard(|| -> CaseResult {
        ensure_eq!(c.before_genesis(), want.is_none(), "before-genesis", "{who}");
        ensure_eq!(c.current_slot(), want, "current-slot", "{who}");
        ensure_eq!(c.slot_at_time(now), want, "slot-at-time", "{who}");
        ensure_eq!(c.current_epoch(), want.map(|s| s / spe), "current-epoch", "{who}");
        ensure_eq!(c.epoch_for(slot), slot / spe, "epoch-for", "{who}: slot {slot}");
        ensure_eq!(c.timestamp_at_slot(slot), g + slot * sps, "timestamp-at-slot", "{who}: slot {slot}");
        ensure_eq!(clock::convert_slot_to_timestamp(slot, sps as u128 * NS, g as u128 * NS), g + slot * sps, "slot-to-timestamp", "{who}: slot {slot}");
        ensure_eq!(clock::convert_timestamp_nanos_to_slot(now, g as u128 * NS, sps as u128 * NS), want, "nanos-to-slot", "{who}");
        let secs = (now / NS) as u64;
        ensure_eq!(clock::convert_timestamp_to_slot(secs, g, sps), secs.checked_sub(g).map(|d| d / sps), "secs-to-slot", "{who}: second {secs}");
        // waiting times
        let next = match want {
            None => g as u128 * NS - now,
            Some(s) => g as u128 * NS + (s as u128 + 1) * sps as u128 * NS - now,
        };
        if next <= u64::MAX as u128 {
            ensure_eq!(c.duration_until_next_slot(), dur(next), "until-next", "{who}");
            // agreement: waiting that long is the first instant of the next slot, and no earlier one
            let at = now + next;
            ensure_eq!(c.slot_at_time(at), Some(want.map_or(0, |s| s + 1)), "until-next-agrees", "{who}");
            ensure_eq!(c.slot_at_time(at - 1), want, "until-next-agrees", "{who}, one nanosecond earlier");
        }
        for s in [slot, slot.saturating_sub(1), slot + 1, src.below(last_slot + 1), 0] {
            let t = g as u128 * NS + s as u128 * sps as u128 * NS;
            let d = t.saturating_sub(now);
            if d <= u64::MAX as u128 {
                ensure_eq!(c.duration_until_slot(s), dur(d), "until-slot", "{who}: until slot {s}");
            }
        }
        // moving the time moves the slot
        let step = src.below(4 * sps.min(1 << 20)) as u128 * NS + src.below(1_000_000_000) as u128;
        *fixed.0.lock().unwrap() += step;
        let later = c.clone().current_slot();
        let wl = (now + step >= g as u128 * NS).then(|| ((now + step - g as u128 * NS) / (sps as u128 * NS)) as u64);
        ensure_eq!(later, wl, "current-slot", "{who} and {step} ns later");
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => fail("panic", format!("{who}: panic {p}")),
    }
}
/// the clocks of the networks and of the system
fn system(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let spe = 32;
    let (name, c, g, sps, spe) = match src.below(6) {
        0 => ("mainnet", clock::for_mainnet(), 1606824023, 12, spe),
        1 => ("goerli", clock::for_goerli(), 1616508000, 12, spe),
        2 => ("sepolia", clock::for_sepolia(), 1655733600, 12, spe),
        3 => ("holesky", clock::for_holesky(), 1695902400, 12, spe),
        4 => ("hoodi", ec::state_transition::Context::for_hoodi().clock().unwrap(), 1742213400, 12, spe),
        _ => {
            let g = src.range(1, 1 << 32);
            let sps = src.range(1, 100);
            let spe = src.range(1, 64);
            ("of the system", clock::from_system_time(g, sps, spe), g, sps, spe)
        }
    };
    let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos();
    let slot = |t: u128| t.checked_sub(g as u128 * NS).map(|d| (d / (sps as u128 * NS)) as u64);
    obs.hit(format!("{name} {g} {sps} {spe}").as_bytes());
    obs.label(name);
    obs.sample(|| format!("clock {name}, genesis {g}"));
    let who = format!("clock {name}, genesis {g}, {sps} seconds per slot");
    let a = now();
    let s = c.current_slot();
    let e = c.current_epoch();
    let until = c.duration_until_next_slot().as_nanos();
    let unix = clock::get_current_unix_time_in_nanos();
    let since = clock::duration_since_unix_epoch().as_nanos();
    let ts = (a / NS) as u64 + src.below(100);
    let du = clock::duration_until(ts).as_nanos();
    let b = now();
    ensure!(slot(a) <= s && s <= slot(b), "system-slot", "{who}: slot {s:?} between {:?} and {:?}", slot(a), slot(b));
    ensure!(slot(a).map(|x| x / spe) <= e && e <= slot(b).map(|x| x / spe), "system-epoch", "{who}: epoch {e:?}");
    let next = |t: u128| g as u128 * NS + slot(t).map_or(0, |s| s as u128 + 1) * sps as u128 * NS;
    ensure!(a + until <= next(b) && b + until >= next(a), "system-until", "{who}: the next slot in {until} ns, at {a}..{b}");
    ensure!(a <= unix && unix <= b && a <= since && since <= b, "unix-time", "unix time {unix} {since} between {a} and {b}");
    let want = |t: u128| (ts as u128 * NS).saturating_sub(t);
    ensure!(want(b) <= du && du <= want(a), "duration-until", "duration until {ts}: {du}, at {a}..{b}");
    Ok(())
}

#[derive(Clone)]
struct Virtual {
    base: u128,
    start: tokio::time::Instant,
    /// every reading of the time takes that long
    jitter: u64,
    reads: Arc<AtomicU64>,
}
impl Virtual {
    fn now(&self) -> u128 {
        self.base + self.start.elapsed().as_nanos() + (self.jitter * self.reads.load(Relaxed)) as u128
    }
}
impl TimeProvider for Virtual {
    fn get_current_time(&self) -> u128 {
        self.reads.fetch_add(1, Relaxed);
        self.now()
    }
}
/// a consumer of the slots
fn stream(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let sps = src.range(1, 15);
        let g = src.range(100, 1 << 31);
        let off = match src.below(4) {
            0 => -(src.below(30 * 1_000_000_000) as i128),
            1 => src.below(sps * 1_000_000_000) as i128,
            2 => (src.below(50) * sps * 1_000_000_000) as i128,
            _ => (src.below(1000) * sps * 1_000_000_000) as i128 - 1 - src.below(1000) as i128,
        };
        let base = (g as i128 * NS as i128 + off) as u128;
        let jitter = if src.chance(1, 3) { *src.pick(&[1, 1000, 999_999, 20_000_000]) } else { 0 };
        let tp = Virtual { base, start: tokio::time::Instant::now(), jitter, reads: Default::default() };
        let c = Clock::new(g, sps, 32, tp.clone());
        let slot_at = |t: u128| t.checked_sub(g as u128 * NS).map(|d| (d / (sps as u128 * NS)) as u64);
        let made = tp.now();
        let mut s = c.clone().into_stream();
        let made_after = tp.now();
        let who = format!("genesis {g}, {sps} seconds per slot, made at {off} ns from genesis, a reading takes {jitter} ns");
        let n = src.range(2, 12);
        let mut last: Option<u64> = None;
        let mut log = vec![];
        let mut lazy = false;
        // the first item is the slot at the time the stream was made
        for i in 0..n {
            match src.below(6) {
                0 => {
                    lazy = true;
                    let w = src.below(3 * sps * 1000);
                    tokio::time::sleep(Duration::from_millis(w)).await;
                    log.push(format!("wait {w} ms"));
                }
                1 => {
                    // gives up waiting, and waits again
                    let w = src.below(sps * 1000 / 2 + 1);
                    let before = tp.now();
                    if let Ok(x) = tokio::time::timeout(Duration::from_millis(w), s.next()).await {
                        log.push(format!("got {x:?} before {w} ms"));
                        check(&who, &log, x, &mut last, jitter, slot_at(before), slot_at(tp.now()), (i, slot_at(made), slot_at(made_after)))?;
                        continue;
                    }
                    log.push(format!("gave up after {w} ms"));
                }
                _ => {}
            }
            let before = tp.now();
            let x = s.next().await;
            log.push(format!("got {x:?}"));
            check(&who, &log, x, &mut last, jitter, slot_at(before), slot_at(tp.now()), (i, slot_at(made), slot_at(made_after)))?;
            // promptly: a waiting consumer has it within the granularity of the timer
            let after = tp.now();
            if jitter == 0 {
                let t = g as u128 * NS + x.unwrap_or(0) as u128 * sps as u128 * NS;
                ensure!(after < before.max(t) + 3_000_000, "late", "{who}: slot {x:?} delivered {} ns late ({log:?})", after - before.max(t));
            }
        }
        obs.hit(format!("{who} {log:?}").as_bytes());
        obs.label(format!("{}{}{}", if off < 0 { "made before genesis" } else { "made after genesis" }, if lazy { ", slow consumer" } else { "" }, if jitter > 0 { ", slow readings" } else { "" }));
        obs.sample(|| format!("{who}: {}", log.join(", ")));
        Ok(())
    })
}
#[allow(clippy::too_many_arguments)]
fn check(who: &str, log: &[String], x: Option<u64>, last: &mut Option<u64>, jitter: u64, before: Option<u64>, after: Option<u64>, (i, made, made_after): (u64, Option<u64>, Option<u64>)) -> CaseResult {
    let Some(x) = x else { return fail("stream-ends", format!("{who}: the stream of slots ended ({log:?})")) };
    let _ = i;
    match *last {
        None if made.is_some() => ensure!(made <= Some(x) && Some(x) <= made_after, "first-slot", "{who}: the first slot {x} is not the current one {made:?} ({log:?})"),
        // exactly at genesis the reading may fall on either side
        None if jitter > 0 && made_after.is_some() => ensure!(Some(x) <= after, "first-slot", "{who}: the first slot {x} has not come ({log:?})"),
        None => ensure!(before.or(Some(0)) <= Some(x) && Some(x) <= after, "first-slot", "{who}: the first slot {x}, at the time of {before:?} to {after:?} ({log:?})"),
        Some(l) => {
            ensure!(x >= l, "backwards", "{who}: slot {x} after slot {l} ({log:?})");
            ensure!(jitter > 0 || x > l, "repeated", "{who}: slot {x} again ({log:?})");
            ensure!(before <= Some(x) && Some(x) <= after, "wrong-slot", "{who}: slot {x} delivered, at the time of {before:?} to {after:?} ({log:?})");
        }
    }
    *last = Some(x);
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C22",
        rule: "A case is a clock with any genesis time, slot duration and epoch length and an instant at or around a slot boundary, before genesis or within a slot; or a clock of a network against the system's time; or a consumer of the slot stream on virtual time, prompt, slow, or giving up and waiting again. Every case is non-trivial: it reaches the comparison. Distinct by content.",
        assumptions: &["times that 64-bit nanoseconds since 1970 can carry (until the year 2554)", "the timer of tokio (real, on its virtual time)"],
        subs: vec![
            Sub { name: "instants", quick: 12000000, thorough: 120000000, f: instants },
            Sub { name: "system", quick: 80000, thorough: 800000, f: system },
            Sub { name: "stream", quick: 1200000, thorough: 12000000, f: stream },
        ],
    })
}
