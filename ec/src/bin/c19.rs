//! C19: SSZ form and root of every container
use eccheck::{containers::Codec, *};
use std::sync::OnceLock;

fn all() -> &'static [Codec] {
    static C: OnceLock<Vec<Codec>> = OnceLock::new();
    C.get_or_init(containers::all)
}
fn pick(src: &mut Src) -> (&'static Codec, ssz::Ty) {
    let v = all();
    let c = &v[src.idx(v.len())];
    // the mainnet state has megabytes of vectors
    let c = if c.preset == Mainnet && ["BeaconState", "BlobSidecar"].contains(&c.name) && !src.chance(1, 40) { v.iter().find(|d| d.preset == Minimal && d.fork == c.fork && d.name == c.name).unwrap() } else { c };
    (c, schema::ty(c.preset, c.fork, c.name))
}
fn told(c: &Codec) -> String {
    format!("{} of {} ({:?})", c.name, c.fork.name(), c.preset)
}
/// lists of a value that can be filled to their limit, by a path of child numbers
fn lists(v: &Value, t: &ssz::Ty, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    use ssz::Ty;
    match (v, t) {
        (Value::Cont(x), Ty::Cont(c)) => {
            for (i, (a, (_, t))) in x.iter().zip(&c.fields).enumerate() {
                path.push(i);
                lists(a, t, path, out);
                path.pop();
            }
        }
        (Value::Seq(x), Ty::List(e, n)) => {
            if *n <= 2048 {
                out.push(path.clone());
            }
            for (i, a) in x.iter().enumerate().take(3) {
                path.push(i);
                lists(a, e, path, out);
                path.pop();
            }
        }
        (Value::Seq(x), Ty::Vector(e, n)) if *n <= 64 => {
            for (i, a) in x.iter().enumerate().take(3) {
                path.push(i);
                lists(a, e, path, out);
                path.pop();
            }
        }
        (_, Ty::Bitlist(n) | Ty::ByteList(n)) if *n <= 4096 => out.push(path.clone()),
        _ => {}
    }
}
/// make the list at a path `extra` longer than its limit (or exactly as long)
fn fill(v: &mut Value, t: &ssz::Ty, path: &[usize], extra: usize) {
    use ssz::Ty;
    if let Some((i, rest)) = path.split_first() {
        match (v, t) {
            (Value::Cont(x), Ty::Cont(c)) => fill(&mut x[*i], &c.fields[*i].1, rest, extra),
            (Value::Seq(x), Ty::List(e, _) | Ty::Vector(e, _)) => fill(&mut x[*i], e, rest, extra),
            _ => unreachable!(),
        }
        return;
    }
    match (v, t) {
        (Value::Seq(x), Ty::List(e, n)) => {
            let z = x.first().cloned().unwrap_or_else(|| ssz::zero(e));
            x.resize(*n + extra, z);
        }
        (Value::Bits(x), Ty::Bitlist(n)) => x.resize(*n + extra, true),
        (Value::Bytes(x), Ty::ByteList(n)) => x.resize(*n + extra, 7),
        _ => unreachable!(),
    }
}
/// the outcome on some bytes against the model's
fn check(c: &Codec, t: &ssz::Ty, b: &[u8], obs: &mut Obs, how: &str) -> CaseResult {
    let want = ssz::decode(b, t);
    let got = (c.ssz)(b);
    let who = || format!("{} {how}", told(c));
    match (want, got) {
        (Ok(v), Got::Ok((back, root))) => {
            obs.label("accepted");
            let canon = ssz::encode(&v, t);
            ensure!(canon == b, "model", "the model is not canonical on {}", who());
            if back != b {
                let i = back.iter().zip(b).position(|(x, y)| x != y).unwrap_or(back.len().min(b.len()));
                return fail(format!("reencode-{}-{}", c.fork.name(), c.name), format!("{}: written again as {} bytes rather than {}, first difference at {i}", who(), back.len(), b.len()));
            }
            let r = ssz::htr(&v, t);
            if root != r {
                return fail(format!("root-{}-{}", c.fork.name(), c.name), format!("{}: root {} rather than {}", who(), ssz::hex(&root), ssz::hex(&r)));
            }
            Ok(())
        }
        (Ok(_), g) => fail(format!("refused-{}-{}", c.fork.name(), c.name), format!("{}: a valid encoding of {} bytes is refused: {}", who(), b.len(), match g { Got::Err(e) | Got::Panic(e) => cut(&e), _ => unreachable!() })),
        (Err(e), Got::Ok(_)) => fail(format!("admitted-{}-{}", c.fork.name(), c.name), format!("{}: bytes that are no encoding ({e:?}) are accepted: {}", who(), cut(&ssz::hex(b)))),
        (Err(e), Got::Panic(p)) => fail(format!("panic-{}-{}", c.fork.name(), c.name), format!("{}: bytes that are no encoding ({e:?}) make it panic: {}", who(), cut(&p))),
        (Err(_), Got::Err(_)) => {
            obs.label("rejected");
            Ok(())
        }
    }
}
fn valid(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, t) = pick(src);
    if src.chance(1, 60) {
        // the default is the zero value of the specification
        let want = ssz::encode(&ssz::zero(&t), &t);
        obs.label("default");
        obs.hit(told(c).as_bytes());
        return match (c.zero)() {
            Got::Ok(b) if b == want => check(c, &t, &b, obs, "default"),
            g => fail(format!("default-{}-{}", c.fork.name(), c.name), format!("{}: default {}", told(c), g.kind())),
        };
    }
    let mut budget = *src.pick(&[60, 200, 600]);
    let mut v = gen::value(src, &t, &mut budget);
    let mut how = String::from("any value");
    if src.chance(1, 5) {
        let mut out = vec![];
        lists(&v, &t, &mut vec![], &mut out);
        if !out.is_empty() {
            let p = out[src.idx(out.len())].clone();
            let extra = src.below(2) as usize;
            fill(&mut v, &t, &p, extra);
            how = format!("list at {p:?} {}", if extra == 0 { "full" } else { "over full" });
            obs.label(if extra == 0 { "full list" } else { "over-full list" });
        }
    }
    let b = ssz::encode(&v, &t);
    obs.hit(&b);
    obs.label(c.name);
    obs.sample(|| format!("{} {how}: {} bytes", told(c), b.len()));
    check(c, &t, &b, obs, &how)
}
fn hostile(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, t) = pick(src);
    let mut budget = *src.pick(&[20, 60, 200]);
    let v = gen::value(src, &t, &mut budget);
    let mut b = ssz::encode(&v, &t);
    let mut how = vec![];
    for _ in 0..src.range(1, 3) {
        let n = b.len();
        match src.below(8) {
            0 if n > 0 => {
                let k = src.idx(n + 1);
                b.truncate(k);
                how.push(format!("cut to {k}"));
            }
            1 => {
                let k = src.usize(1, 40);
                let x = src.bytes(k);
                b.extend(x);
                how.push(format!("{k} bytes appended"));
            }
            2 if n > 0 => {
                let i = src.idx(n);
                b[i] ^= 1 << src.below(8);
                how.push(format!("bit of byte {i}"));
            }
            3 if n > 0 => {
                // near the front, where offsets are
                let i = src.idx(n.min(700));
                b[i] = b[i].wrapping_add(*src.pick(&[1, 255, 4, 252, 128]));
                how.push(format!("byte {i}"));
            }
            4 if n >= 4 => {
                // a word that may be an offset becomes another position
                let w: Vec<usize> = (0..n - 3).filter(|i| i % 4 == 0 && (u32::from_le_bytes(b[*i..*i + 4].try_into().unwrap()) as usize) <= n).take(400).collect();
                if let Some(i) = w.get(src.idx(w.len().max(1))) {
                    let x = u32::from_le_bytes(b[*i..*i + 4].try_into().unwrap());
                    let y = match src.below(5) {
                        0 => x + 1,
                        1 => x.saturating_sub(1),
                        2 => n as u32,
                        3 => src.below(n as u64 + 3) as u32,
                        _ => src.u64() as u32,
                    };
                    b[*i..*i + 4].copy_from_slice(&y.to_le_bytes());
                    how.push(format!("word {i} from {x} to {y}"));
                }
            }
            5 if n > 0 => {
                // the last byte carries the end mark of a bitlist
                b[n - 1] = *src.pick(&[0, 1, 2, 0x80, 0xff]);
                how.push("last byte".into());
            }
            6 if n > 1 => {
                let i = src.idx(n);
                let k = src.usize(1, (n - i).min(64));
                b.drain(i..i + k);
                how.push(format!("{k} bytes removed at {i}"));
            }
            _ => {
                let i = src.idx(n + 1);
                let k = src.usize(1, 8);
                let x = src.bytes(k);
                b.splice(i..i, x);
                how.push(format!("{k} bytes put in at {i}"));
            }
        }
    }
    if src.chance(1, 30) {
        let k = src.usize(0, 300);
        b = src.bytes(k);
        how = vec![format!("{k} bytes of noise")];
    }
    obs.hit(&b);
    obs.sample(|| format!("{} {how:?}: {} bytes", told(c), b.len()));
    check(c, &t, &b, obs, &format!("{how:?}"))
}
fn main() {
    pbt::main(Check {
        property: "C19",
        rule: "A case is a container of a fork and preset and a value of it, perhaps with a list at or over its limit, or its encoding with bytes changed, cut, moved or added. Every case is non-trivial; distinct by bytes.",
        assumptions: &["the SSZ primitives (integers, lists, bitfields, merkleization) are those of a stand-in for the ssz_rs crate, which is not present offline; the containers, their fields, types and limits are /repo's", "mainnet states and blob sidecars appear in one case out of forty of those that pick them"],
        subs: vec![Sub { name: "valid", quick: 120000, thorough: 3000000, f: valid }, Sub { name: "hostile", quick: 240000, thorough: 6000000, f: hostile }],
    })
}
