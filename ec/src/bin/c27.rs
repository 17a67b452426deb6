//! C27: fork-agnostic containers
use eccheck::{
    containers::Codec,
    wrapped::{Shown, Wrap, WRAPS},
    *,
};
use std::sync::OnceLock;

const ALL: [Fork; 5] = [Phase0, Altair, Bellatrix, Capella, Deneb];
fn codec(p: Preset, f: Fork, name: &str) -> &'static Codec {
    static C: OnceLock<Vec<Codec>> = OnceLock::new();
    C.get_or_init(containers::all).iter().find(|c| c.preset == p && c.fork == f && c.name == name).unwrap()
}
fn pick(src: &mut Src) -> (&'static Wrap, Fork) {
    let w = &WRAPS[src.idx(WRAPS.len())];
    let v: Vec<Fork> = ALL.iter().copied().filter(|f| *f >= w.from).collect();
    (w, *src.pick(&v))
}
fn json_of(p: Preset, f: Fork, name: &str, b: &[u8]) -> Option<serde_json::Value> {
    match (codec(p, f, name).to_json?)(b) {
        Got::Ok(s) => serde_json::from_str(&s).ok(),
        _ => None,
    }
}
fn views(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (w, f) = pick(src);
    let t = schema::ty(Minimal, f, w.name);
    let mut budget = *src.pick(&[40, 120, 300]);
    let v = gen::value(src, &t, &mut budget);
    let b = ssz::encode(&v, &t);
    // a field of any fork, so that it may be absent here
    let newest = schema::ty(Minimal, Deneb, w.name);
    let mut names: Vec<(String, ssz::Ty)> = t.cont().fields.clone();
    for g in ALL.iter().filter(|g| **g >= w.from) {
        for (n, t) in &schema::ty(Minimal, *g, w.name).cont().fields {
            if !names.iter().any(|x| &x.0 == n) {
                names.push((n.clone(), t.clone()));
            }
        }
    }
    let _ = newest;
    let (field, fty) = names[src.idx(names.len())].clone();
    let here = t.field(&field).map(|x| x.0);
    let mut budget = 60;
    let new = gen::value(src, &fty, &mut budget);
    let nb = ssz::encode(&new, &fty);
    obs.hit(&b);
    obs.hit(field.as_bytes());
    obs.label(format!("{} of {}", w.name, f.name()));
    obs.sample(|| format!("{} of {}, {} bytes, writing {field}", w.name, f.name(), b.len()));
    let who = format!("{} around a value of {}", w.name, f.name());
    let sig = |k: &str| format!("{k}-{}-{}", w.name, f.name());
    let r = match (w.run)(f, &b, &field, &nb) {
        Got::Ok(r) => r,
        g => return fail(sig("run"), format!("{who}: {}", g.kind())),
    };
    let name = format!("{f:?}");
    for (view, x) in &r.version {
        ensure!(*x == name, sig("version"), "{who}: the {view} reports {x}");
    }
    let root = ssz::htr(&v, &t);
    for (view, x) in &r.root {
        ensure!(*x == root, sig("root"), "{who}: root of the {view} is {} rather than {}", ssz::hex(x), ssz::hex(&root));
    }
    let Value::Cont(parts) = &v else { unreachable!() };
    for (view, n, got) in &r.reads {
        match (t.field(n), got) {
            (None, Shown::Absent) => {}
            (Some((i, ft)), Shown::Bytes(x)) => {
                ensure!(*x == ssz::encode(&parts[i], ft), sig("read"), "{who}: {n} of the {view} is {} rather than {}", cut(&ssz::hex(x)), cut(&ssz::hex(&ssz::encode(&parts[i], ft))));
            }
            (Some((i, ft)), Shown::View(vn, x, h)) => {
                ensure!(*vn == name, sig("read"), "{who}: {n} of the {view} reports {vn}");
                ensure!(*x == ssz::encode(&parts[i], ft), sig("read"), "{who}: {n} of the {view} is another value");
                ensure!(*h == ssz::htr(&parts[i], ft), sig("read"), "{who}: {n} of the {view} has another root");
            }
            (None, _) => return fail(sig("read"), format!("{who}: {n} of the {view} reads as present")),
            (Some(_), Shown::Absent) => return fail(sig("read"), format!("{who}: {n} of the {view} reads as absent")),
        }
    }
    // conversions: to this fork in every view, to no other
    for (view, g, x) in &r.conversions {
        ensure!(*g == f.name(), sig("conversion"), "{who}: the {view} converts to {g}");
        ensure!(*x == b, sig("conversion"), "{who}: the {view} converts to another value");
    }
    let want = r.version.len() + 1;
    ensure!(r.conversions.len() == want, sig("conversion"), "{who}: {} of {want} conversions to {} succeed", r.conversions.len(), f.name());
    ensure!(r.ssz == b, sig("serialize"), "{who}: serialized to {} bytes rather than the value's {}", r.ssz.len(), b.len());
    let j: serde_json::Value = serde_json::from_str(&r.json).unwrap_or_default();
    if let Some(x) = json_of(Minimal, f, w.name, &b) {
        ensure!(j == x, sig("json"), "{who}: JSON {} rather than {}", cut(&j.to_string()), cut(&x.to_string()));
    }
    for x in &r.back {
        match x {
            Ok((g, x)) => ensure!(*g == name && *x == b, sig("json-back"), "{who}: its JSON reads back as {g}, {}", if *x == b { "the same value" } else { "another value" }),
            Err(e) => return fail(sig("json-back"), format!("{who}: its JSON is not read back: {}", cut(e))),
        }
    }
    let after = match here {
        Some(i) => {
            let mut p = parts.clone();
            // the type of the field here may differ from that of the fork it was taken from
            p[i] = new;
            ssz::encode(&Value::Cont(p), &t)
        }
        None => b.clone(),
    };
    obs.label(if here.is_some() { "write" } else { "write to an absent field" });
    for (view, there, x) in &r.writes {
        ensure!(*there == here.is_some(), sig("write"), "{who}: {field} of the {view} can{} be written", if *there { "" } else { "not" });
        ensure!(*x == after, sig("write"), "{who}: writing {field} through the {view} gave another value than the field's change");
    }
    Ok(())
}
fn large(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (w, f) = pick(src);
    if w.name == "BeaconState" && !src.chance(1, 20) {
        return views(src, obs);
    }
    let t = schema::ty(Mainnet, f, w.name);
    let mut budget = 100;
    let v = gen::value(src, &t, &mut budget);
    let b = ssz::encode(&v, &t);
    obs.hit(&b);
    obs.label(format!("mainnet {} of {}", w.name, f.name()));
    let who = format!("mainnet {} around a value of {}", w.name, f.name());
    let sig = |k: &str| format!("large-{k}-{}-{}", w.name, f.name());
    match (w.large)(f, &b) {
        Got::Ok((g, x, h, j, (bg, bx))) => {
            ensure!(g == format!("{f:?}") && x == b && h == ssz::htr(&v, &t), sig("form"), "{who}: fork {g}, same bytes {}, root {}", x == b, ssz::hex(&h));
            let j: serde_json::Value = serde_json::from_str(&j).unwrap_or_default();
            if let Some(x) = json_of(Mainnet, f, w.name, &b) {
                ensure!(j == x, sig("json"), "{who}: JSON {} rather than {}", cut(&j.to_string()), cut(&x.to_string()));
            }
            ensure!(bg == format!("{f:?}") && bx == b, sig("json-back"), "{who}: its JSON reads back as {bg}, same value {}", bx == b);
            Ok(())
        }
        g => fail(sig("run"), format!("{who}: {}", g.kind())),
    }
}
fn main() {
    pbt::main(Check {
        property: "C27",
        rule: "A case is a fork-agnostic container, a fork, a value of that fork and a field of any fork to write; the value, its shared and its exclusive views are read, written and converted in every way (part views), or the mainnet form is written and read back (part large). Every case is non-trivial; distinct by value and field.",
        assumptions: &["the fork values' own SSZ and JSON forms are the subject of C19 and C20", "the derived hash and serialization of the enums come from a stand-in for the ssz_rs derive macros"],
        subs: vec![Sub { name: "views", quick: 20000, thorough: 1000000, f: views }, Sub { name: "large", quick: 3000, thorough: 200000, f: large }],
    })
}
