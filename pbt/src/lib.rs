//! Small property-based testing engine: every generated case is a sequence of recorded choices, so a
//! failure shrinks by editing that sequence and replays from it. A run is a pure function of the code
//! under test and VERIF_SEED; the amount of work is a fixed number of cases, never a time budget.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Source of choices.
pub struct Src {
    seed: u64,
    ctr: u64,
    rec: Vec<u64>,
    replay: Option<Vec<u64>>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { seed, ctr: 0, rec: vec![], replay: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { seed: 0, ctr: 0, rec: vec![], replay: Some(v) }
    }
    fn raw(&mut self) -> u64 {
        self.ctr += 1;
        mix(self.seed ^ mix(self.ctr))
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0) % n,
            None => {
                if n == 1 {
                    0
                } else {
                    self.raw() % n
                }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0),
            None => self.raw(),
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, shrinking towards lo
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        if hi - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// index by weight; shrinks to the first
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// n bytes derived from one choice
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let s = self.u64();
        expand(s, n)
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let v = self.bytes(N);
        let mut a = [0u8; N];
        a.copy_from_slice(&v);
        a
    }
    /// numbers biased to boundaries
    pub fn edgy(&mut self) -> u64 {
        match self.weighted(&[3, 2, 2, 2, 1]) {
            0 => self.below(300),
            1 => {
                let k = self.below(64);
                let base = 1u64 << k;
                let d = self.below(3);
                base.wrapping_add(d).wrapping_sub(1)
            }
            2 => u64::MAX - self.below(300),
            3 => self.u64(),
            _ => {
                let sh = self.below(64);
                self.u64() >> sh
            }
        }
    }
    pub fn len(&self) -> usize {
        self.rec.len()
    }
}

/// bytes determined by a seed (0 gives zeros, so choices shrink to zero bytes)
pub fn expand(s: u64, n: usize) -> Vec<u8> {
    if s == 0 {
        return vec![0; n];
    }
    let mut out = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while out.len() < n {
        out.extend_from_slice(&mix(s ^ mix(i)).to_le_bytes());
        i += 1;
    }
    out.truncate(n);
    out
}

/// A failed case. `sig` identifies what is broken (used for shrinking and known findings).
#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub detail: String,
}
pub type CaseResult = Result<(), Failure>;
pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::fail($sig, format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::fail($sig, format!("got {:?}, expected {:?}", a, b)); }
    }};
    ($a:expr, $b:expr, $sig:expr, $($x:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::fail($sig, format!("got {:?}, expected {:?}; {}", a, b, format!($($x)*))); }
    }};
}

/// Per-case observations.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub sample: Option<String>,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    /// mark the case non-trivial, distinct by the given key
    pub fn hit(&mut self, key: &[u8]) {
        self.nontrivial = true;
        self.fingerprint = mix(self.fingerprint ^ hash_bytes(key));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Obs) -> CaseResult,
}

pub struct Check {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Run code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_sub: BTreeMap<String, u64>,
    known_hits: BTreeMap<String, u64>,
}

struct Found {
    sub: usize,
    index: u64,
    failure: Failure,
    choices: Vec<u64>,
}

fn run_case(sub: &Sub, src: &mut Src) -> (Obs, Result<CaseResult, String>) {
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| (sub.f)(src, &mut obs)));
    // a case without a result: what it drives handed back something that cannot even be looked at
    let r = r.or_else(|_| Ok(Err(Failure { sig: "panic".into(), detail: LAST.with(|l| l.borrow().clone()) })));
    (obs, r)
}

/// what each thread is running, for the cases that never end and those that take the process down
mod watch {
    use std::{
        cell::Cell,
        fmt::Write,
        sync::{
            atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
            OnceLock,
        },
        time::Instant,
    };
    extern "C" {
        fn signal(n: i32, f: usize) -> usize;
        fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(n: i32) -> !;
        fn setrlimit(n: i32, r: *const [u64; 2]) -> i32;
    }
    pub const SLOTS: usize = 64;
    /// seconds since START + 1 at which the thread's case began; 0 when idle
    static BEGAN: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
    static SRC: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
    static CASE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
    static SUB: AtomicUsize = AtomicUsize::new(0);
    static NAMES: OnceLock<(String, String, Vec<&'static str>, u64)> = OnceLock::new();
    static START: OnceLock<Instant> = OnceLock::new();
    thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
    fn now() -> u64 {
        START.get().map(|s| s.elapsed().as_secs()).unwrap_or(0) + 1
    }
    pub fn begin(sub: usize, thread: usize, case: u64, src: u64) {
        let t = thread % SLOTS;
        SUB.store(sub, SeqCst);
        SRC[t].store(src, SeqCst);
        CASE[t].store(case, SeqCst);
        BEGAN[t].store(now(), SeqCst);
        ME.with(|m| m.set(t));
    }
    pub fn end() {
        let t = ME.with(|m| m.replace(usize::MAX));
        if t < SLOTS {
            BEGAN[t].store(0, SeqCst);
        }
    }
    static REPORTING: AtomicUsize = AtomicUsize::new(0);
    static mut A: Buf = Buf([0; 1200], 0);
    static mut B: Buf = Buf([0; 1200], 0);
    static mut C: Buf = Buf([0; 1200], 0);
    struct Buf([u8; 1200], usize);
    impl Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                if self.1 < self.0.len() {
                    self.0[self.1] = b;
                    self.1 += 1;
                }
            }
            Ok(())
        }
    }
    /// reports the case of a thread and ends the process; allocates nothing
    fn report(t: usize, sig: &str, detail: &str) -> ! {
        let Some((property, dir, subs, seed)) = NAMES.get() else { unsafe { _exit(2) } };
        let sub = subs.get(SUB.load(SeqCst)).copied().unwrap_or("");
        if REPORTING.swap(1, SeqCst) != 0 {
            // another thread is at it
            loop {
                std::hint::spin_loop();
            }
        }
        // statics: the stack of a handler is small
        let (path, b, o) = unsafe { (&mut *(&raw mut A), &mut *(&raw mut B), &mut *(&raw mut C)) };
        let _ = write!(path, "{dir}/evidence/replays/{property}-{sub}-{sig}.json");
        let n = path.1;
        let _ = path.write_str("\0");
        let _ = writeln!(
            b,
            "{{\"property\":\"{property}\",\"sub\":\"{sub}\",\"signature\":\"{sig}\",\"detail\":\"{detail}\",\"seed\":{seed},\"case\":{},\"source\":{},\"choices\":[]}}",
            CASE[t].load(SeqCst),
            SRC[t].load(SeqCst)
        );
        let _ = writeln!(o, "counterexample {sig}: {detail}\nVIOLATION property={property} replay={}", std::str::from_utf8(&path.0[..n]).unwrap_or(""));
        unsafe {
            let fd = open(path.0.as_ptr().cast(), 0o1 | 0o100 | 0o1000, 0o644u32);
            if fd >= 0 {
                write(fd, b.0.as_ptr().cast(), b.1);
            }
            write(1, o.0.as_ptr().cast(), o.1);
            _exit(1)
        }
    }
    extern "C" fn on_abort(_: i32) {
        let t = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if t < SLOTS {
            report(t, "crash", "the case ends the process (stack overflow, memory exhausted or abort)");
        }
        unsafe { _exit(134) }
    }
    pub fn install(property: &str, dir: String, subs: Vec<&'static str>, seed: u64, limit: u64) {
        let _ = std::fs::create_dir_all(format!("{dir}/evidence/replays"));
        let _ = NAMES.set((property.into(), dir, subs, seed));
        let _ = START.set(Instant::now());
        unsafe {
            signal(6, on_abort as *const () as usize);
            // an allocation that never ends fails here, before it takes the machine's memory
            setrlimit(9, &[24 << 30, 24 << 30]);
        }
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for t in 0..SLOTS {
                let b = BEGAN[t].load(SeqCst);
                if b > 0 && now() > b + limit {
                    report(t, "hang", "the case does not come to an end");
                }
            }
        });
    }
}

fn shrink(sub: &Sub, start: Vec<u64>, sig: &str, mut detail: String) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = start;
    let evals = std::cell::Cell::new(0u32);
    let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, detail: &mut String| -> bool {
        if evals.get() > 3000 || t0.elapsed().as_secs() > 40 {
            return false;
        }
        evals.set(evals.get() + 1);
        let mut s = Src::replay(cand);
        let (_, r) = run_case(sub, &mut s);
        if let Ok(Err(f)) = r {
            if f.sig == sig {
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
                if better {
                    *best = rec;
                    *detail = f.detail;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !try_it(c, &mut best, &mut detail) {
                    let mut c = best.clone();
                    let end = (i + size).min(c.len());
                    let mut ch = false;
                    for x in &mut c[i.min(end)..end] {
                        if *x != 0 {
                            *x = 0;
                            ch = true;
                        }
                    }
                    if !ch || !try_it(c, &mut best, &mut detail) {
                        i += size;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let v = best[i];
            for cand in [0, 1, v / 2, v.saturating_sub(1), v & 0xff] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    try_it(c, &mut best, &mut detail);
                }
            }
        }
        if best == before || evals.get() > 3000 || t0.elapsed().as_secs() > 40 {
            break;
        }
    }
    (best, detail)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// known findings of a property: (signature, description)
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known-findings.txt", verif_dir());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let mut out = vec![];
    for l in t.lines() {
        // finding: property=C01 sig=<sig> :: description
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let Some((head, desc)) = rest.split_once(" :: ") else { continue };
        let mut id = "";
        let mut sig = "";
        if let Some((a, b)) = head.split_once(" sig=") {
            id = a.trim_start_matches("property=");
            sig = b;
        }
        if id == prop {
            out.push((sig.to_string(), desc.to_string()));
        }
    }
    out
}

static PROPERTY: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
/// the property being checked
pub fn property() -> &'static str {
    PROPERTY.get().copied().unwrap_or("")
}
pub fn main(check: Check) {
    install_hook();
    let _ = PROPERTY.set(check.property);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let args: Vec<String> = std::env::args().collect();
    let mut only: Option<String> = None;
    let mut scale = 1.0f64;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay(&check, &args[i + 1]);
            }
            "--sub" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "--scale" => {
                scale = args[i + 1].parse().unwrap();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let known = known_findings(check.property);
    let limit_s: u64 = if tier == "quick" { 780 } else { 24 * 3600 };
    let done = std::sync::Arc::new(AtomicBool::new(false));
    {
        let done = done.clone();
        std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed().as_secs() < limit_s {
                std::thread::sleep(std::time::Duration::from_millis(500));
                if done.load(Ordering::SeqCst) {
                    return;
                }
            }
            eprintln!("error: run did not finish within {limit_s} s");
            std::process::exit(3);
        });
    }
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    });
    watch::install(check.property, verif_dir(), check.subs.iter().map(|s| s.name).collect(), seed, if tier == "quick" { 150 } else { 900 });
    let stats = Mutex::new(Stats {
        evals: 0,
        distinct: HashSet::new(),
        nontrivial: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        per_sub: BTreeMap::new(),
        known_hits: BTreeMap::new(),
    });
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    for (si, sub) in check.subs.iter().enumerate() {
        if let Some(o) = &only {
            if !o.split(',').any(|x| x == sub.name) {
                continue;
            }
        }
        let total = ((if tier == "quick" { sub.quick } else { sub.thorough }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let base = mix(seed) ^ hash_bytes(sub.name.as_bytes());
        let ts = Instant::now();
        std::thread::scope(|sc| {
            for ti in 0..threads {
                let (next, stop, stats, found, harness_err, known) = (&next, &stop, &stats, &found, &harness_err, &known);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut evals = 0u64;
                        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                        let mut fps = vec![];
                        let mut nontrivial = 0u64;
                        let mut samples: Vec<(u64, String)> = vec![];
                        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
                        loop {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let ix = next.fetch_add(1, Ordering::SeqCst);
                            if ix >= total {
                                break;
                            }
                            let mut src = Src::fresh(mix(base ^ mix(ix)));
                            watch::begin(si, ti, ix, mix(base ^ mix(ix)));
                            let (obs, r) = run_case(sub, &mut src);
                            watch::end();
                            evals += 1;
                            for l in obs.labels {
                                *labels.entry(format!("{}: {}", sub.name, l)).or_default() += 1;
                            }
                            if obs.nontrivial {
                                nontrivial += 1;
                                fps.push(mix(obs.fingerprint ^ si as u64));
                            }
                            if let Some(s) = obs.sample {
                                if samples.len() < 2 {
                                    samples.push((ix, s));
                                }
                            }
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(f)) => {
                                    if let Some((s, _)) = known.iter().find(|(s, _)| *s == f.sig) {
                                        *known_hits.entry(s.clone()).or_default() += 1;
                                    } else {
                                        let mut g = found.lock().unwrap();
                                        g.push(Found { sub: si, index: ix, failure: f, choices: src.rec });
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                Err(p) => {
                                    *harness_err.lock().unwrap() =
                                        Some(format!("sub {} case {}: {}", sub.name, ix, p));
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evals += evals;
                        g.nontrivial += nontrivial;
                        *g.per_sub.entry(sub.name.to_string()).or_default() += evals;
                        for (k, v) in labels {
                            *g.labels.entry(k).or_default() += v;
                        }
                        g.distinct.extend(fps);
                        for (k, v) in known_hits {
                            *g.known_hits.entry(k).or_default() += v;
                        }
                        samples.sort();
                        for (ix, s) in samples {
                            if ix < 40 {
                                g.samples.push(format!("{} #{}: {}", sub.name, ix, s));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        eprintln!("  {} {}: {} cases in {:.1}s", check.property, sub.name, total, ts.elapsed().as_secs_f64());
        if harness_err.lock().unwrap().is_some() {
            break;
        }
        // a sub that failed stops; the others still run so that every distinct violation is seen
        if !found.lock().unwrap().is_empty() && std::env::var("VERIF_ALL").is_err() {
            break;
        }
    }
    if let Some(e) = harness_err.into_inner().unwrap() {
        eprintln!("error: the harness itself failed: {e}");
        std::process::exit(2);
    }
    let mut st = stats.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(12);
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.sub, f.index));
    let mut seen = HashSet::new();
    found.retain(|f| seen.insert((f.sub, f.failure.sig.clone())));
    let dir = verif_dir();
    let mut n_viol = 0;
    for f in found.iter() {
        let sub = &check.subs[f.sub];
        let (choices, detail) = if std::env::var("VERIF_NOSHRINK").is_ok() {
            (f.choices.clone(), f.failure.detail.clone())
        } else {
            watch::begin(f.sub, 0, f.index, mix((mix(seed) ^ hash_bytes(sub.name.as_bytes())) ^ mix(f.index)));
            let r = shrink(sub, f.choices.clone(), &f.failure.sig, f.failure.detail.clone());
            watch::end();
            r
        };
        let _ = std::fs::create_dir_all(format!("{dir}/evidence/replays"));
        let clean: String =
            f.failure.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
        let path = format!("{dir}/evidence/replays/{}-{}-{}.json", check.property, sub.name, clean);
        let body = format!(
            "{{\"property\":{},\"sub\":{},\"signature\":{},\"detail\":{},\"seed\":{},\"case\":{},\"choices\":[{}]}}\n",
            json_str(check.property),
            json_str(sub.name),
            json_str(&f.failure.sig),
            json_str(&detail),
            seed,
            f.index,
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
        );
        let _ = std::fs::write(&path, body);
        let short: String = detail.chars().take(3000).collect();
        println!("counterexample ({} choices) {}: {}", choices.len(), f.failure.sig, short);
        println!("VIOLATION property={} replay={}", check.property, path);
        n_viol += 1;
    }
    for (sig, desc) in &known {
        println!("KNOWN-FINDING: property={} {} (met {} times in this run; {})", check.property, desc, st.known_hits.get(sig).copied().unwrap_or(0), sig);
    }
    // evidence
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", json_str(check.property), json_str(tier), seed);
    let _ = write!(o, " \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n", st.evals, st.distinct.len(), json_str(check.rule));
    let _ = write!(o, "  \"cases_per_part\": {{{}}},\n", st.per_sub.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "  \"labels\": {{\n{}\n  }},\n", st.labels.iter().map(|(k, v)| format!("    {}: {}", json_str(k), v)).collect::<Vec<_>>().join(",\n"));
    let _ = write!(o, "  \"samples\": [\n{}\n  ]\n }},\n", st.samples.iter().map(|s| format!("    {}", json_str(s))).collect::<Vec<_>>().join(",\n"));
    let _ = write!(o, " \"assumptions\": [{}],\n", check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, " \"wall_s\": {:.2}, \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), n_viol);
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let ev = format!("{dir}/evidence/{}.json", check.property);
    if only.is_none() {
        if let Err(e) = std::fs::write(&ev, o) {
            eprintln!("error: cannot write {ev}: {e}");
            std::process::exit(2);
        }
    }
    done.store(true, Ordering::SeqCst);
    eprintln!(
        "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
        check.property,
        tier,
        st.evals,
        st.distinct.len(),
        n_viol,
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if n_viol > 0 { 1 } else { 0 });
}

fn replay(check: &Check, path: &str) -> ! {
    let t = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let p = format!("\"{k}\":\"");
        let i = t.find(&p).expect(k) + p.len();
        t[i..].chars().take_while(|c| *c != '"').collect()
    };
    let sub = field("sub");
    let i = t.find("\"choices\":[").unwrap() + 11;
    let list: String = t[i..].chars().take_while(|c| *c != ']').collect();
    let choices: Vec<u64> = list.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let sub = check.subs.iter().find(|s| s.name == sub).expect("sub");
    let mut src = match t.find("\"source\":") {
        // a case that never ended, from its beginning
        Some(i) => Src::fresh(t[i + 9..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()),
        None => Src::replay(choices),
    };
    let si = check.subs.iter().position(|s| s.name == sub.name).unwrap();
    watch::install(check.property, verif_dir(), check.subs.iter().map(|s| s.name).collect(), 0, 150);
    watch::begin(si, 0, 0, src.seed);
    let (obs, r) = run_case(sub, &mut src);
    watch::end();
    println!("labels {:?} sample {:?}", obs.labels, obs.sample);
    match r {
        Ok(Ok(())) => {
            println!("replay: the property holds on this case");
            std::process::exit(0)
        }
        Ok(Err(f)) => {
            println!("replay: {}: {}", f.sig, f.detail);
            println!("VIOLATION property={} replay={}", check.property, path);
            std::process::exit(1)
        }
        Err(p) => {
            println!("replay: harness failure {p}");
            std::process::exit(2)
        }
    }
}
