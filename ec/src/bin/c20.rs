//! C20: JSON form of every container
use eccheck::{containers::Codec, ssz::Ty, *};
use serde_json::{json, Value as Json};
use std::sync::OnceLock;
#[path = "../tree.rs"]
mod tree;
use tree::*;

fn all() -> &'static [Codec] {
    static C: OnceLock<Vec<Codec>> = OnceLock::new();
    C.get_or_init(|| containers::all().into_iter().filter(|c| c.to_json.is_some()).collect())
}
fn pick(src: &mut Src) -> (&'static Codec, Ty) {
    let v = all();
    let c = &v[src.idx(v.len())];
    let c = if c.preset == Mainnet && ["BeaconState", "BlobSidecar"].contains(&c.name) && !src.chance(1, 60) { v.iter().find(|d| d.preset == Minimal && d.fork == c.fork && d.name == c.name).unwrap() } else { c };
    (c, schema::ty(c.preset, c.fork, c.name))
}
fn told(c: &Codec) -> String {
    format!("{} of {} ({:?})", c.name, c.fork.name(), c.preset)
}
/// the draft's two names for one field
fn rename(v: &mut Json) {
    match v {
        Json::Object(m) => {
            if m.contains_key("validator_pubkey") && m.contains_key("source_address") {
                let x = m.remove("validator_pubkey").unwrap();
                m.insert("pubkey".into(), x);
            }
            m.values_mut().for_each(rename);
        }
        Json::Array(a) => a.iter_mut().for_each(rename),
        _ => {}
    }
}
/// the same JSON with members in another order, blanks between tokens and escaped characters
fn restyle(src: &mut Src, v: &Json, escape: bool, out: &mut String) {
    let blank = |src: &mut Src, out: &mut String| out.push_str(*src.pick(&["", "", " ", "\n", "\t ", "\r\n"]));
    blank(src, out);
    match v {
        Json::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            for i in (1..k.len()).rev() {
                k.swap(i, src.idx(i + 1));
            }
            out.push('{');
            for (i, (n, x)) in k.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                restyle(src, &json!(n), escape, out);
                out.push(':');
                restyle(src, x, escape, out);
            }
            out.push('}');
        }
        Json::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                restyle(src, x, escape, out);
            }
            out.push(']');
        }
        Json::String(s) if escape && !s.is_empty() && s.len() < 200 && src.chance(1, 3) => {
            let k = src.idx(s.len());
            out.push('"');
            for (i, c) in s.chars().enumerate() {
                if i == k {
                    out.push_str(&format!("\\u{:04x}", c as u32));
                } else {
                    out.push(c);
                }
            }
            out.push('"');
        }
        x => out.push_str(&x.to_string()),
    }
    blank(src, out);
}
fn some(src: &mut Src, t: &Ty) -> Value {
    let mut budget = *src.pick(&[40, 120, 300]);
    gen::value(src, t, &mut budget)
}
fn forms(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, t) = pick(src);
    let v = some(src, &t);
    let b = ssz::encode(&v, &t);
    obs.hit(&b);
    obs.label(c.name);
    let want = tree(&v, &t);
    let who = || told(c);
    let sig = |k: &str| format!("{k}-{}-{}", c.fork.name(), c.name);
    let text = match (c.to_json.unwrap())(&b) {
        Got::Ok(s) => s,
        g => return fail(sig("write"), format!("{}: not written: {}", who(), g.kind())),
    };
    obs.sample(|| format!("{}: {}", who(), cut(&text)));
    let mut got: Json = match serde_json::from_str(&text) {
        Ok(x) => x,
        Err(e) => return fail(sig("write"), format!("{}: what is written is no JSON: {e}", who())),
    };
    rename(&mut got);
    let mut pubkey = want.clone();
    rename(&mut pubkey);
    if let Some(d) = differ(&got, &pubkey, c.name) {
        return fail(sig("form"), format!("{}: {d}", who()));
    }
    let got: Json = serde_json::from_str(&text).unwrap();
    let mut texts = vec![("its own text", text.clone())];
    let mut s = String::new();
    restyle(src, &got, false, &mut s);
    texts.push(("reordered text", s));
    if src.chance(1, 2) {
        let mut s = String::new();
        restyle(src, &got, true, &mut s);
        texts.push(("escaped text", s));
    }
    for (how, s) in texts {
        match (c.from_json.unwrap())(&s) {
            Got::Ok(x) => ensure!(x == b, sig("read"), "{}: {how} reads back as another value", who()),
            g => return fail(sig(if how == "escaped text" { "read-escaped" } else { "read" }), format!("{}: {how} is not read back: {}: {}", who(), g.kind(), cut(&s))),
        }
    }
    match (c.from_tree.unwrap())(got) {
        Got::Ok(x) => ensure!(x == b, sig("tree"), "{}: its tree reads back as another value", who()),
        g => return fail(sig("tree"), format!("{}: the parsed tree is not read back: {}", who(), g.kind())),
    }
    Ok(())
}
/// every place of a tree by path
fn places<'a>(t: &'a Ty, v: &'a Value, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, &'a Ty)>) {
    out.push((path.clone(), t));
    match (v, t) {
        (Value::Seq(x), _) => {
            for (i, x) in x.iter().enumerate().take(3) {
                path.push(i);
                places(t.elem(), x, path, out);
                path.pop();
            }
        }
        (Value::Cont(x), Ty::Cont(c)) => {
            for (i, x) in x.iter().enumerate() {
                path.push(i);
                places(&c.fields[i].1, x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(j: &'a mut Json, t: &Ty, path: &[usize]) -> &'a mut Json {
    let Some((i, rest)) = path.split_first() else { return j };
    match (j, t) {
        (Json::Object(m), Ty::Cont(c)) => {
            let (n, t) = &c.fields[*i];
            let n = if c.name == "ExecutionLayerWithdrawalRequest" && n == "validator_pubkey" && m.contains_key("pubkey") { "pubkey" } else { n };
            at(m.get_mut(n).unwrap_or_else(|| panic!("{n}")), t, rest)
        }
        (Json::Array(a), t) => at(&mut a[*i], t.elem(), rest),
        _ => unreachable!(),
    }
}
fn broken(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, t) = pick(src);
    let v = some(src, &t);
    let b = ssz::encode(&v, &t);
    let Got::Ok(text) = (c.to_json.unwrap())(&b) else { return Ok(()) };
    let mut j: Json = serde_json::from_str(&text).unwrap();
    let mut out = vec![];
    places(&t, &v, &mut vec![], &mut out);
    let (path, ty) = out[src.idx(out.len())].clone();
    let how;
    {
        let here = at(&mut j, &t, &path);
        let was = here.clone();
        let other = |src: &mut Src| src.pick(&[json!(null), json!({}), json!([[]]), json!(1.5), json!("nothing"), json!(-1)]).clone();
        match ty {
            _ if src.chance(1, 6) => {
                how = "another kind of value";
                *here = other(src);
                if *here == was || matches!(ty, Ty::Cont(c) if c.fields.is_empty()) {
                    return Ok(());
                }
            }
            Ty::Bool => {
                how = "a boolean as something else";
                *here = src.pick(&[json!("yes"), json!(2), json!("")]).clone();
            }
            // the reader of 256-bit integers is the library's
            Ty::U256 => {
                how = "a number for a 256-bit integer";
                *here = json!("x1");
            }
            Ty::U8 | Ty::U64 => {
                how = "a bad integer";
                let s = was.as_str().unwrap_or("").to_string();
                *here = match src.below(6) {
                    0 => json!(format!("{s}x")),
                    1 => json!(""),
                    2 => json!(format!("-{s}1")),
                    3 => json!(match ty {
                        Ty::U8 => "256".to_string(),
                        _ => "18446744073709551616".to_string(),
                    }),
                    4 => json!(format!("{s}.0")),
                    _ => json!(format!(" {s}")),
                };
            }
            Ty::Bytes(_) | Ty::ByteList(_) | Ty::Bitvector(_) | Ty::Bitlist(_) => {
                let s = was.as_str().unwrap_or("0x").to_string();
                let mut kinds = vec![0, 1, 5];
                match ty {
                    Ty::Bytes(_) | Ty::Bitvector(_) => kinds.extend([2, 3]),
                    _ => {}
                }
                match ty {
                    Ty::ByteList(n) | Ty::Bitlist(n) if *n <= 4096 => kinds.push(4),
                    Ty::Bitvector(n) if n % 8 != 0 => kinds.push(6),
                    Ty::Bitlist(_) => kinds.push(7),
                    _ => {}
                }
                let k = *src.pick(&kinds);
                how = ["a bad digit", "half a byte", "a byte too many", "a byte too few", "a byte list or bitfield over its limit", "a number for bytes", "a bit past the end", "no end mark"][k as usize];
                *here = match k {
                    0 => {
                        let mut x = s.into_bytes();
                        let i = if x.len() > 2 { 2 + src.idx(x.len() - 2) } else { x.push(b'0'); x.push(b'0'); 2 };
                        x[i] = *src.pick(&[b'g', b' ', b'x', b'"', b'/', b':']);
                        json!(String::from_utf8(x).unwrap())
                    }
                    1 => json!(format!("{s}a")),
                    2 => json!(format!("{s}00")),
                    3 => json!(s[..s.len() - 2].to_string()),
                    4 => {
                        let over = match ty {
                            Ty::Bitlist(n) => ssz::encode(&Value::Bits(vec![true; n + 1]), &Ty::Bitlist(n + 1)),
                            Ty::ByteList(n) => vec![3; n + 1],
                            _ => unreachable!(),
                        };
                        json!(ssz::hex(&over))
                    }
                    5 => json!(7),
                    6 => json!(format!("{}ff", &s[..s.len() - 2])),
                    _ => json!(src.pick(&["0x", "0x00", "0x0100"])),
                };
            }
            Ty::Vector(_, _) => {
                let a = here.as_array_mut().unwrap();
                if src.bool() {
                    how = "an element too few";
                    a.pop();
                } else {
                    how = "an element too many";
                    let x = a[0].clone();
                    a.push(x);
                }
            }
            Ty::List(e, n) => {
                let a = here.as_array_mut().unwrap();
                if *n <= 2048 {
                    how = "a list over its limit";
                    let x = a.first().cloned().unwrap_or_else(|| {
                        let z = ssz::zero(e);
                        let mut x = tree(&z, e);
                        // the text of this tree must be of the code's own naming
                        if let Json::Object(m) = &mut x {
                            if let Some(y) = m.get("pubkey").cloned() {
                                m.insert("validator_pubkey".into(), y);
                            }
                        }
                        x
                    });
                    a.resize(n + 1, x);
                } else {
                    how = "an object for a list";
                    *here = json!({"0": 1});
                }
            }
            Ty::Cont(_) => {
                let m = here.as_object_mut().unwrap();
                let k: Vec<String> = m.keys().cloned().collect();
                let k = &k[src.idx(k.len())];
                let x = m.remove(k).unwrap();
                if src.chance(1, 4) {
                    how = "a misnamed field";
                    m.insert(format!("{k}_"), x);
                } else {
                    how = "a missing field";
                }
            }
        }
    }
    let tree = src.bool();
    let s = j.to_string();
    obs.hit(s.as_bytes());
    obs.label(how);
    obs.sample(|| format!("{}: {how} at {path:?}", told(c)));
    let got = if tree { (c.from_tree.unwrap())(j) } else { (c.from_json.unwrap())(&s) };
    match got {
        Got::Err(_) => Ok(()),
        g => fail(format!("{}-{}-{}", if matches!(g, Got::Ok(_)) { "admitted" } else { "panic" }, c.fork.name(), c.name), format!("{}: JSON with {how} at {path:?}: {}: {}", told(c), g.kind(), cut(&s))),
    }
}
fn main() {
    pbt::main(Check {
        property: "C20",
        rule: "A case is a container of a fork and preset and a value of it, written and read back in several spellings (part forms), or its JSON broken in one place (part broken). Every case is non-trivial; distinct by the encoding or the JSON.",
        assumptions: &["lists, vectors and bitfields take their JSON form from a stand-in for the ssz_rs crate, which is not present offline; the containers, their field names and the forms of integers, bytes and keys are /repo's", "the public key field of an execution layer withdrawal request may bear either name the drafts gave it"],
        subs: vec![Sub { name: "forms", quick: 20000, thorough: 1000000, f: forms }, Sub { name: "broken", quick: 30000, thorough: 1500000, f: broken }],
    })
}
