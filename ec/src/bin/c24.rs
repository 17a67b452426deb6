//! C24: text forms
use ec::{
    serde as text,
    ssz::prelude::{ByteList, ByteVector, List, Vector},
    Fork as F,
};
use eccheck::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::{self, Debug, Display};

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(bound(serialize = "T: AsRef<[u8]>", deserialize = "T: Hexed"))]
struct Hex<T>(#[serde(serialize_with = "ser_hex", deserialize_with = "de_hex")] T);
fn ser_hex<T: AsRef<[u8]>, S: serde::Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
    text::as_hex::serialize(t, s)
}
fn de_hex<'de, T: Hexed, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
    T::read(d)
}
trait Hexed: AsRef<[u8]> + Debug + PartialEq + Clone {
    fn read<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
    /// number of bytes it takes
    fn fits(n: usize) -> bool;
}
macro_rules! hexed {
    ($($t:ty, |$n:ident| $e:expr;)*) => { $( impl Hexed for $t {
        fn read<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { text::as_hex::deserialize(d) }
        fn fits($n: usize) -> bool { $e }
    } )* }
}
hexed! {
    [u8; 4], |n| n == 4;
    [u8; 32], |n| n == 32;
    Vec<u8>, |n| n < usize::MAX;
    ByteVector<20>, |n| n == 20;
    ByteVector<48>, |n| n == 48;
    ByteList<32>, |n| n <= 32;
    List<u8, 16>, |n| n <= 16;
}
struct Shown(Vec<u8>);
impl Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        text::write_bytes_to_lower_hex(f, &self.0)
    }
}
fn digits(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
/// what a hex text says, when it says anything; and whether it carries the prefix
fn reads(s: &str) -> (Option<Vec<u8>>, bool) {
    let (t, p) = match s.strip_prefix("0x") {
        Some(t) => (t, true),
        None => (s, false),
    };
    if t.len() % 2 == 1 || !t.bytes().all(|c| c.is_ascii_hexdigit()) {
        return (None, p);
    }
    let nib = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    (Some(t.as_bytes().chunks(2).map(|c| nib(c[0]) << 4 | nib(c[1])).collect()), p)
}
fn one_hex<T: Hexed>(name: &str, s: &str) -> CaseResult {
    let (want, prefixed) = reads(s);
    let want = want.filter(|b| T::fits(b.len()));
    let who = format!("{name} from text {s:?}");
    let got = [run(|| serde_json::from_str::<Hex<T>>(&quote(s)).map_err(|e| e.to_string())), run(|| {
        serde_json::from_value::<Hex<T>>(serde_json::Value::String(s.into())).map_err(|e| e.to_string())
    })];
    for got in got {
        match (got, &want) {
            (Got::Ok(x), Some(b)) => {
                ensure_eq!(x.0.as_ref(), b.as_slice(), "hex-value", "{who}");
                ensure_eq!(serde_json::to_string(&x).unwrap(), format!("\"0x{}\"", digits(b)), "hex-print", "{who}");
            }
            (Got::Err(_), None) => (),
            // the prefix may or may not be asked for
            (Got::Err(_), Some(_)) if !prefixed => (),
            (x, _) => return fail("hex-read", format!("{who}: {}", x.kind())),
        }
    }
    Ok(())
}
fn hex_text(src: &mut Src) -> String {
    let n = match src.below(4) {
        0 => src.below(6) as usize,
        _ => *src.pick(&[4, 16, 17, 20, 32, 33, 48, 3, 31, 0]),
    };
    let mut s: Vec<char> = format!("0x{}", digits(&src.bytes(n))).chars().collect();
    for _ in 0..src.below(3) {
        let i = if s.is_empty() { 0 } else { src.idx(s.len()) };
        match src.below(8) {
            0 => s = s.iter().map(|c| c.to_ascii_uppercase()).collect(),
            1 => s = s.iter().enumerate().map(|(i, c)| if i >= 2 { c.to_ascii_uppercase() } else { *c }).collect(),
            2 if !s.is_empty() => drop(s.remove(i)),
            3 => s.insert(i, *src.pick(&['0', 'f', 'g', ' ', '\n', 'é', '_', 'x', '\0', '/', ':', '@', 'G', '`'])),
            4 if !s.is_empty() => s[i] = *src.pick(&['0', 'A', 'g', 'G', ' ', '"', '/', ':', '@', '`', '\u{ff11}']),
            5 => drop(s.drain(..s.len().min(2))),
            6 => {
                s.insert(0, 'x');
                s.insert(0, '0');
            }
            _ => s.truncate(i),
        }
    }
    s.into_iter().collect()
}
fn hex(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = hex_text(src);
    obs.hit(s.as_bytes());
    let (want, prefixed) = reads(&s);
    obs.label(match (&want, prefixed) {
        (Some(_), true) => "hex text",
        (Some(_), false) => "hex text without prefix",
        _ => "no hex text",
    });
    obs.sample(|| format!("text {s:?}"));
    match (run(|| text::try_bytes_from_hex_str(&s)), &want) {
        (Got::Ok(b), Some(w)) => ensure_eq!(&b, w, "hex-value", "text {s:?}"),
        (Got::Err(_), None) => (),
        (Got::Err(_), Some(_)) if !prefixed => (),
        (x, _) => return fail("hex-read", format!("text {s:?}: {}", x.kind())),
    }
    one_hex::<[u8; 4]>("four bytes", &s)?;
    one_hex::<[u8; 32]>("32 bytes", &s)?;
    one_hex::<Vec<u8>>("bytes", &s)?;
    one_hex::<ByteVector<20>>("byte vector of 20", &s)?;
    one_hex::<ByteVector<48>>("byte vector of 48", &s)?;
    one_hex::<ByteList<32>>("byte list up to 32", &s)?;
    one_hex::<List<u8, 16>>("list up to 16", &s)?;
    if let Some(b) = want {
        ensure_eq!(Shown(b.clone()).to_string(), format!("0x{}", digits(&b)), "hex-write", "bytes {b:?}");
        if b.len() <= 32 {
            let l = ByteList::<32>::try_from(b.as_slice()).unwrap();
            ensure_eq!(format!("{l:?}"), format!("0x{}", digits(&b)), "hex-debug", "bytes {b:?}");
        }
        if b.len() == 20 {
            let l = ByteVector::<20>::try_from(b.as_slice()).unwrap();
            ensure_eq!(format!("{l:?}"), format!("0x{}", digits(&b)), "hex-debug", "bytes {b:?}");
        }
        // the short form shown to people
        let short = match b.len() {
            0..=3 => format!("0x{}", digits(&b)),
            n => format!("0x{}…{}", digits(&b[..2]), digits(&b[n - 2..])),
        };
        if let Ok(l) = ByteList::<64>::try_from(b.as_slice()) {
            ensure_eq!(l.to_string(), short, "hex-display", "bytes {b:?}");
        }
        if let Ok(l) = ByteVector::<32>::try_from(b.as_slice()) {
            ensure_eq!(l.to_string(), short, "hex-display", "bytes {b:?}");
        }
        let j = serde_json::to_string(&Hex(b.clone())).unwrap();
        ensure_eq!(j, format!("\"0x{}\"", digits(&b)), "hex-print", "bytes {b:?}");
    }
    Ok(())
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(bound(serialize = "T: Display", deserialize = "T: Num"))]
struct Str<T>(#[serde(serialize_with = "ser_str", deserialize_with = "de_str")] T);
fn ser_str<T: Display, S: serde::Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
    text::as_str::serialize(t, s)
}
fn de_str<'de, T: Num, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
    T::read(d)
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(bound(serialize = "T: Display", deserialize = "T: Num"))]
struct Seq<T>(#[serde(serialize_with = "ser_seq", deserialize_with = "de_seq")] Vec<T>);
fn ser_seq<T: Display, S: serde::Serializer>(t: &Vec<T>, s: S) -> Result<S::Ok, S::Error> {
    text::seq_of_str::serialize(t, s)
}
fn de_seq<'de, T: Num, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<T>, D::Error> {
    T::read_seq(d)
}
trait Num: Display + Debug + PartialEq + Clone {
    const BITS: usize;
    fn read<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
    fn read_seq<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<Self>, D::Error>;
}
macro_rules! nums {
    ($($t:ty, $n:expr;)*) => { $( impl Num for $t {
        const BITS: usize = $n;
        fn read<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { text::as_str::deserialize(d) }
        fn read_seq<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<Self>, D::Error> { text::seq_of_str::deserialize(d) }
    } )* }
}
nums! { u8, 8; u64, 64; usize, 64; ec::ssz::prelude::U256, 256; }
fn dec(limbs: &[u8]) -> String {
    // big-endian bytes to decimal
    let mut d = vec![0u8];
    for b in limbs {
        let mut c = *b as u32;
        for x in d.iter_mut() {
            c += *x as u32 * 256;
            *x = (c % 10) as u8;
            c /= 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    }
    while d.len() > 1 && d[d.len() - 1] == 0 {
        d.pop();
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
/// is the decimal text (no leading zeros) at most the text of 2^bits - 1?
fn in_range(s: &str, bits: usize) -> bool {
    let m = dec(&vec![0xff; bits / 8]);
    s.len() < m.len() || s.len() == m.len() && s <= m.as_str()
}
enum Verdict {
    /// the canonical text of a number in range
    Is(String),
    /// not canonical, but with a value one may read
    May(String),
    No,
}
fn number(s: &str, bits: usize) -> Verdict {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
        return Verdict::No;
    }
    let z = t.trim_start_matches('0');
    let z = if z.is_empty() { "0" } else { z };
    match (in_range(z, bits), z == s) {
        (false, _) => Verdict::No,
        (true, true) => Verdict::Is(z.into()),
        (true, false) => Verdict::May(z.into()),
    }
}
fn num_text(src: &mut Src) -> String {
    let mut s: Vec<char> = match src.below(6) {
        0 => src.u64().to_string(),
        1 => src.below(300).to_string(),
        2 => {
            // around a power of 256
            let n = *src.pick(&[1usize, 8, 32]);
            let mut b = vec![0xff; n];
            match src.below(3) {
                0 => (),
                1 => b[n - 1] = 0xfe,
                _ => {
                    b = vec![0; n];
                    b.insert(0, 1)
                }
            }
            dec(&b)
        }
        3 => {
            let n = src.idx(34);
            dec(&src.bytes(n))
        }
        _ => src.edgy().to_string(),
    }
    .chars()
    .collect();
    if src.bool() {
        let i = src.idx(s.len());
        match src.below(8) {
            0 => s.insert(0, '0'),
            1 => s.insert(0, *src.pick(&['-', '+', ' '])),
            2 => s.insert(i, *src.pick(&['a', '.', ' ', '_', ',', '/', ':', 'e', 'x', '\u{661}'])),
            3 => s.push(*src.pick(&[' ', '\n', '0', 'u', '.'])),
            4 => s.clear(),
            5 => {
                s.insert(0, 'x');
                s.insert(0, '0')
            }
            6 => s[i] = *src.pick(&['a', '٣', ':', '/', '9']),
            _ => s.push((b'0' + src.below(10) as u8) as char),
        }
    }
    s.into_iter().collect()
}
fn one_num<T: Num>(name: &str, s: &str) -> CaseResult {
    let who = format!("{name} from text {s:?}");
    let got = run(|| serde_json::from_str::<Str<T>>(&quote(s)).map_err(|e| e.to_string()));
    // U256's own reader (a dependency) takes other radixes after a prefix, underscores, and nothing for zero
    let odd = T::BITS == 256 && (s.is_empty() || s.contains('_') || s.starts_with('0') && s.len() > 1);
    match (got, number(s, T::BITS)) {
        (Got::Ok(x), Verdict::Is(z) | Verdict::May(z)) => ensure_eq!(serde_json::to_string(&x).unwrap(), format!("\"{z}\""), "number-print", "{who}"),
        (Got::Err(_), Verdict::No | Verdict::May(_)) => (),
        (Got::Ok(_), _) if odd => (),
        (x, _) => return fail("number-read", format!("{who}: {}", x.kind())),
    }
    Ok(())
}
fn numbers(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = num_text(src);
    obs.hit(s.as_bytes());
    obs.label(match number(&s, 64) {
        Verdict::Is(_) => "64-bit number",
        Verdict::May(_) => "number with zeros or sign in front",
        Verdict::No => match number(&s, 256) {
            Verdict::No => "no number",
            _ => "longer number",
        },
    });
    obs.sample(|| format!("text {s:?}"));
    one_num::<u8>("u8", &s)?;
    one_num::<u64>("u64", &s)?;
    one_num::<usize>("usize", &s)?;
    one_num::<ec::ssz::prelude::U256>("U256", &s)
}
fn one_seq<T: Num>(name: &str, v: &[String]) -> CaseResult {
    let who = format!("list of {name} from {v:?}");
    let j = serde_json::to_string(v).unwrap();
    let mut may = false;
    let mut want = Some(vec![]);
    for s in v {
        match number(s, T::BITS) {
            Verdict::Is(z) => drop(want.as_mut().map(|w| w.push(z))),
            Verdict::May(z) => {
                may = true;
                want.as_mut().map(|w| w.push(z));
            }
            Verdict::No => {
                want = None;
                break;
            }
        }
    }
    match (run(|| serde_json::from_str::<Seq<T>>(&j).map_err(|e| e.to_string())), want) {
        (Got::Ok(x), Some(w)) => ensure_eq!(serde_json::to_string(&x).unwrap(), serde_json::to_string(&w).unwrap(), "list-print", "{who}"),
        (Got::Err(_), None) => (),
        (Got::Err(_), _) if may => (),
        (x, _) => return fail("list-read", format!("{who}: {}", x.kind())),
    }
    Ok(())
}
#[derive(Serialize, Deserialize)]
struct Bounded(#[serde(with = "text::seq_of_str")] List<u64, 5>);
#[derive(Serialize, Deserialize)]
struct Exact(#[serde(with = "text::seq_of_str")] Vector<u64, 5>);
fn sequences(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.below(8) as usize;
    let clean = src.bool();
    let v: Vec<String> = (0..n)
        .map(|_| if clean { if src.bool() { src.below(256).to_string() } else { src.edgy().to_string() } } else { num_text(src) })
        .collect();
    obs.hit(format!("{v:?}").as_bytes());
    obs.label(&format!("{n} {}", if clean { "numbers" } else { "texts" }));
    obs.sample(|| format!("{v:?}"));
    one_seq::<u8>("u8", &v)?;
    one_seq::<u64>("u64", &v)?;
    one_seq::<usize>("usize", &v)?;
    if clean {
        let j = serde_json::to_string(&v).unwrap();
        let who = format!("list {j}");
        match (run(|| serde_json::from_str::<Bounded>(&j).map_err(|e| e.to_string())), n <= 5) {
            (Got::Ok(x), true) => ensure_eq!(serde_json::to_string(&x).unwrap(), j, "list-print", "{who}"),
            (Got::Err(_), false) => (),
            (x, _) => return fail("list-limit", format!("{who} for a list of up to five: {}", x.kind())),
        }
        match (run(|| serde_json::from_str::<Exact>(&j).map_err(|e| e.to_string())), n == 5) {
            (Got::Ok(x), true) => ensure_eq!(serde_json::to_string(&x).unwrap(), j, "list-print", "{who}"),
            (Got::Err(_), false) => (),
            (x, _) => return fail("list-limit", format!("{who} for a vector of five: {}", x.kind())),
        }
    }
    Ok(())
}
const NAMES: [(F, &str); 6] = [
    (F::Phase0, "phase0"),
    (F::Altair, "altair"),
    (F::Bellatrix, "bellatrix"),
    (F::Capella, "capella"),
    (F::Deneb, "deneb"),
    (F::Electra, "electra"),
];
fn read_fork<T: DeserializeOwned>(s: &str) -> [Got<T>; 2] {
    [run(|| serde_json::from_str::<T>(&quote(s)).map_err(|e| e.to_string())), run(|| {
        serde_json::from_value::<T>(serde_json::Value::String(s.into())).map_err(|e| e.to_string())
    })]
}
fn forks(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (f, name) = NAMES[src.idx(6)];
    obs.label(name);
    ensure_eq!(f.to_string(), name, "fork-display", "{f:?}");
    ensure_eq!(serde_json::to_string(&f).unwrap(), quote(name), "fork-json", "{f:?}");
    let mut s: Vec<char> = name.chars().collect();
    for _ in 0..src.below(3) {
        if s.is_empty() {
            break;
        }
        let i = src.idx(s.len());
        match src.below(6) {
            0 => s[i] = s[i].to_ascii_uppercase(),
            1 => drop(s.remove(i)),
            2 => s.insert(i, (b'a' + src.below(26) as u8) as char),
            3 => s.push(*src.pick(&[' ', '0', '1', 's'])),
            4 => s.truncate(i),
            _ => s = NAMES[src.idx(6)].1.chars().collect(),
        }
    }
    let s: String = s.into_iter().collect();
    obs.hit(s.as_bytes());
    obs.sample(|| format!("fork name {s:?}"));
    let want = NAMES.iter().find(|n| n.1 == s).map(|n| n.0);
    for got in read_fork::<F>(&s) {
        match (got, want) {
            (Got::Ok(g), Some(w)) => ensure!(g == w, "fork-read", "{s:?} reads as {g:?}"),
            (Got::Err(_), None) => (),
            (x, _) => return fail("fork-read", format!("fork name {s:?}: {}", x.kind())),
        }
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C24",
        rule: "A case is a text near the form of hex bytes, a decimal number, a list of numbers or a fork's name (upper and lower case, wrong digits, signs, spaces, prefixes, other alphabets, lengths and values around every limit), read as every type that has the form and printed again. It counts once per distinct text.",
        assumptions: &["a missing 0x prefix, a plus sign, leading zeros, and the other radixes of 256-bit numbers may be read or refused"],
        subs: vec![
            Sub { name: "hex", quick: 1200000, thorough: 12000000, f: hex },
            Sub { name: "numbers", quick: 1600000, thorough: 16000000, f: numbers },
            Sub { name: "sequences", quick: 800000, thorough: 8000000, f: sequences },
            Sub { name: "forks", quick: 400000, thorough: 4000000, f: forks },
        ],
    })
}
