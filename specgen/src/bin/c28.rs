//! C28: the spec generator
#[path = "../tree.rs"]
mod tree;
#[path = "../types.rs"]
mod types;
use pbt::*;
use std::{
    collections::BTreeSet,
    fs,
    path::{Path, PathBuf},
    process::Command,
    sync::OnceLock,
};
use syn::{Item, ItemFn};
use tree::*;

fn unpack(name: &str, to: &Path) {
    let f = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("specgen/fixture").join(name);
    assert!(Command::new("tar").arg("xzf").arg(f).arg("-C").arg(to).status().unwrap().success());
}
thread_local! {
    static REAL: Tree = {
        let s = Scratch::new();
        unpack("src.tar.gz", &s.0);
        read(&s.0)
    };
}
fn check(root: &Path, envs: &[Env]) -> CaseResult {
    for (fork, env) in envs.iter().enumerate() {
        compare(fork, &load(&spec_file(root, fork))?, env)?;
    }
    Ok(())
}
/// generates twice, the second time over the output of the first
fn twice(root: &Path) -> CaseResult {
    let texts = |root: &Path| (0..6).map(|f| fs::read(spec_file(root, f)).unwrap_or_default()).collect::<Vec<_>>();
    generate(root, "forks")?;
    let first = texts(root);
    generate(root, "forks")?;
    ensure!(first == texts(root), "not-deterministic", "a second run of the generator writes other text");
    Ok(())
}
/// the sources the repository was published with, and their published modules
fn golden(_: &mut Src, obs: &mut Obs) -> CaseResult {
    obs.hit(b"golden");
    obs.sample(|| "sources and generated modules of the repository".into());
    let (s, e) = (Scratch::new(), Scratch::new());
    unpack("src.tar.gz", &s.0);
    unpack("expected.tar.gz", &e.0);
    twice(&s.0)?;
    generate(&s.0, "types")?;
    let mut files: Vec<String> = FORKS.iter().map(|f| format!("{ROOT}/{f}/spec/mod.rs")).collect();
    for f in fs::read_dir(e.0.join(ROOT).join("types")).unwrap() {
        files.push(format!("{ROOT}/types/{}", f.unwrap().file_name().to_string_lossy()));
    }
    ensure!(files.len() == 15, "golden", "{} files", files.len());
    for f in files {
        let (got, want) = (bag(&load(&s.0.join(&f))?), bag(&load(&e.0.join(&f))?));
        let cut = |x: &str| x.chars().take(300).collect::<String>();
        let lost = want.iter().find(|i| !got.contains(i)).map(|i| cut(i));
        let extra = got.iter().find(|i| !want.contains(i)).map(|i| cut(i));
        ensure!(got == want, "golden", "{f} is generated differently: lost {lost:?}, extra {extra:?}");
    }
    let t = REAL.with(|t| t.clone());
    types::check(&s.0, &t)?;
    check(&s.0, &model(&t))
}
/// the types over all forks, of changed sources
fn all_forks(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut t = REAL.with(|t| t.clone());
    let mut what = vec![];
    types::mutate(src, &mut t, &mut what);
    obs.hit(what.join(";").as_bytes());
    obs.label(format!("{} edits", what.len()));
    obs.sample(|| what.join("; "));
    let s = Scratch::new();
    write(&t, &s.0);
    generate(&s.0, "types")?;
    types::check(&s.0, &t)
}
const CONTEXT: &str = "crate";
fn parse<T: syn::parse::Parse>(s: &str) -> T {
    syn::parse_str(s).unwrap_or_else(|e| panic!("{e}: {s}"))
}
fn pick_name(src: &mut Src, env: &Env, f: impl Fn(&Def) -> bool) -> Option<String> {
    let v: Vec<&String> = env.iter().filter(|(_, d)| f(d)).map(|(n, _)| n).collect();
    (!v.is_empty()).then(|| v[src.idx(v.len())].clone())
}
fn place(src: &mut Src, fork: usize) -> String {
    MODULES[fork][src.idx(MODULES[fork].len())].to_string()
}
/// a function over containers of the environment
fn new_fn(src: &mut Src, env: &Env, name: &str) -> ItemFn {
    let (mut args, mut params) = (vec![], BTreeSet::new());
    let mut out = "u64".to_string();
    let mut out_params = vec![];
    for i in 0..src.below(4) {
        let Some(c) = pick_name(src, env, |d| matches!(d.item, Item::Struct(_))) else { break };
        let p = consts(generics(&env[&c].item).unwrap());
        let t = if p.is_empty() { c } else { format!("{c}<{}>", p.join(", ")) };
        let t = match src.below(7) {
            0 => format!("&mut {t}"),
            1 => format!("&[{t}]"),
            2 => format!("Option<&{t}>"),
            3 => format!("({t}, u64)"),
            4 => {
                out = format!("Option<{t}>");
                out_params = p;
                continue;
            }
            _ => format!("&{t}"),
        };
        params.extend(p);
        args.push(format!("x{i}: {t}"));
    }
    params.extend(out_params);
    if src.chance(1, 4) {
        params.insert("WIDTH".into());
        args.push("w: [u8; WIDTH]".into());
    }
    let mut generics = vec![];
    match src.below(6) {
        0 => {
            generics.push("'a".to_string());
            args.push("l: &'a [u64]".into());
        }
        1 => {
            generics.extend(["'a".to_string(), "'b".to_string()]);
            args.push("l: (&'a u8, &'b u8)".into());
        }
        _ => (),
    }
    generics.extend(params.iter().map(|p| format!("const {p}: usize")));
    match src.below(8) {
        0 => {
            generics.push("Q: Fn(u64) -> u64".into());
            args.push("g: Q".into());
        }
        1 => {
            generics.extend(["Q: Copy".to_string(), "Z: Copy".into()]);
            args.push("g: (Q, Z)".into());
        }
        _ => (),
    }
    let body = *src.pick(&["unimplemented!()", "let s: &'static str = \"\"; let v: u64 = 1; panic!(\"{s}{v}\")", "loop {}"]);
    let doc = *src.pick(&["", "/// text\n", "#[inline]\n"]);
    parse(&format!("{doc}pub fn {name}<{}>({}) -> {out} {{ {body} }}", generics.join(", "), args.join(", ")))
}
/// the repository's sources with some items moved, redefined, hidden, added
fn real(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut t = REAL.with(|t| t.clone());
    let mut what = vec![];
    for k in 0..src.range(1, 8) {
        let envs = model(&t);
        let fork = src.idx(6);
        let env = &envs[fork];
        let module = place(src, fork);
        let inherited = |d: &Def| d.fork < fork;
        match src.below(9) {
            0 | 1 => {
                let Some(n) = pick_name(src, env, |d| inherited(d) && matches!(d.item, Item::Fn(_))) else { continue };
                let Item::Fn(mut f) = env[&n].item.clone() else { continue };
                *f.block = parse("{ unimplemented!() }");
                what.push(format!("redefine {n} in {}", FORKS[fork]));
                t[fork].get_mut(&module).unwrap().push(Item::Fn(f));
            }
            2 => {
                let Some(n) = pick_name(src, env, |d| d.fork == fork) else { continue };
                what.push(format!("remove {n} from {}", FORKS[fork]));
                t[fork].values_mut().for_each(|m| m.retain(|i| public(i).as_ref() != Some(&n)));
            }
            3 => {
                let Some(n) = pick_name(src, env, |d| d.fork == fork) else { continue };
                what.push(format!("hide {n} of {}", FORKS[fork]));
                let vis: syn::Visibility = if src.bool() { syn::Visibility::Inherited } else { parse("pub(crate)") };
                for i in t[fork].values_mut().flatten().filter(|i| public(i).as_ref() == Some(&n)) {
                    match i {
                        Item::Const(x) => x.vis = vis.clone(),
                        Item::Struct(x) => x.vis = vis.clone(),
                        Item::Fn(x) => x.vis = vis.clone(),
                        Item::Type(x) => x.vis = vis.clone(),
                        Item::Trait(x) => x.vis = vis.clone(),
                        _ => (),
                    }
                }
            }
            4 => {
                let Some(n) = pick_name(src, env, |d| inherited(d) && matches!(d.item, Item::Struct(_))) else { continue };
                let Item::Struct(mut s) = env[&n].item.clone() else { continue };
                if !consts(&s.generics).is_empty() && src.bool() {
                    s.generics.params.push(parse(&format!("const EXTRA_{k}: usize")));
                }
                what.push(format!("redefine {n} in {}", FORKS[fork]));
                t[fork].get_mut(&module).unwrap().push(Item::Struct(s));
            }
            5 => {
                let kind = |d: &Def| matches!(d.item, Item::Const(_) | Item::Type(_) | Item::Trait(_));
                let Some(n) = pick_name(src, env, |d| inherited(d) && kind(d)) else { continue };
                what.push(format!("redefine {n} in {}", FORKS[fork]));
                let i = env[&n].item.clone();
                t[fork].get_mut(&module).unwrap().push(i);
            }
            6 => {
                let i: Item = match src.below(6) {
                    0 => parse(&format!("pub const NEW_{k}: u64 = {k};")),
                    1 => parse(&format!("pub type New{k} = u64;")),
                    2 => parse(&format!("pub trait New{k} {{ fn f(&self); }}")),
                    3 => parse(&format!("pub struct New{k} {{ pub x: u64 }}")),
                    4 => parse(&format!("fn new_{k}() {{}}")),
                    _ => parse(&format!("impl {CONTEXT}::X {{ pub fn new_{k}() {{}} }}")),
                };
                what.push(format!("add {} to {}", public(&i).unwrap_or("a hidden item".into()), FORKS[fork]));
                t[fork].get_mut(&module).unwrap().push(i);
            }
            _ => {
                let f = new_fn(src, env, &format!("new_{k}"));
                what.push(format!("add {} to {}", norm(&f.sig), FORKS[fork]));
                t[fork].get_mut(&module).unwrap().push(Item::Fn(f));
            }
        }
    }
    obs.hit(what.join(";").as_bytes());
    obs.label(format!("{} edits", what.len()));
    obs.sample(|| what.join("; "));
    let s = Scratch::new();
    write(&t, &s.0);
    twice(&s.0)?;
    check(&s.0, &model(&t))
}

/// a small tree that compiles
fn synthetic(src: &mut Src) -> Tree {
    const P: [&str; 6] = ["A", "B", "C", "D", "E", "F"];
    let mut t = empty();
    let nc = src.usize(1, 4);
    let nf = src.usize(1, 7);
    for fork in 0..6 {
        let rate = if fork == 0 { 2 } else { 1 };
        let mut add = |src: &mut Src, i: Item| {
            let m = place(src, fork);
            t[fork].get_mut(&m).unwrap().push(i);
        };
        for c in 0..nc {
            if src.chance(rate, 3) {
                let mut p: Vec<&str> = P.iter().filter(|_| src.chance(1, 2)).copied().collect();
                if p.is_empty() {
                    p.push(P[src.idx(6)]);
                }
                if src.chance(1, 4) {
                    p.reverse();
                }
                if c == 0 && !p.contains(&"A") {
                    p.push("A");
                }
                let g: Vec<String> = p.iter().map(|p| format!("const {p}: usize")).collect();
                let f: Vec<String> = p.iter().map(|p| format!("pub {}: Vec<[u8; {p}]>", p.to_lowercase())).collect();
                add(src, parse(&format!("pub struct Ct{c}<{}> {{ {}, pub tag: u64 }}", g.join(", "), f.join(", "))));
                if src.bool() {
                    add(src, parse(&format!("impl<{}> Ct{c}<{}> {{ pub fn tag(&self) -> u64 {{ self.tag }} }}", g.join(", "), p.join(", "))));
                }
            }
        }
        for k in 0..3 {
            if src.chance(rate, 4) {
                add(src, parse(&format!("pub const K{k}: u64 = {fork};")));
            }
            if src.chance(rate, 4) {
                let ty = *src.pick(&["u64", "u32", "Vec<u8>"]);
                add(src, parse(&format!("pub type Al{k} = {ty};")));
            }
        }
        if src.chance(rate, 4) {
            add(src, parse("pub trait Tr<const A: usize> { fn go(&self, x: &[u8; A]) -> u64; }"));
        }
        if src.chance(1, 3) {
            add(src, parse(&format!("fn hidden{fork}() {{}}")));
            add(src, parse(&format!("pub(crate) const HIDDEN{fork}: u64 = 1;")));
            add(src, parse(&format!("struct Hidden{fork};")));
            add(src, parse(&format!("mod inner{fork} {{ pub fn f() {{}} }}")));
        }
    }
    // functions over what their fork knows
    for fork in 0..6 {
        let env = &model(&t)[fork];
        for k in 0..nf {
            if src.chance(if fork == 0 { 2 } else { 1 }, if fork == 0 { 3 } else { 7 }) {
                let f = new_fn_checked(src, env, k, fork);
                let m = place(src, fork);
                t[fork].get_mut(&m).unwrap().push(Item::Fn(f));
            }
        }
        if fork == 0 && src.chance(1, 2) {
            let n = *src.pick(&DROPPED);
            let mut f = new_fn_checked(src, env, 0, fork);
            f.sig.ident = parse(n);
            t[0].get_mut("helpers").unwrap().push(Item::Fn(f));
        }
    }
    t
}
fn new_fn_checked(src: &mut Src, env: &Env, k: usize, fork: usize) -> ItemFn {
    let mut f = new_fn(src, env, &format!("fn{k}"));
    let ct0 = env.get("Ct0").map(|d| consts(generics(&d.item).unwrap()));
    let mut stmts = format!("let _ = \"fn{k} of fork {fork}\";");
    if let (Some(p), true, true) = (ct0, env.contains_key("Tr"), src.chance(1, 3)) {
        // with an engine
        let g: Vec<String> = p.iter().map(|p| format!("const {p}: usize")).collect();
        f = parse(&format!(
            "pub fn fn{k}<{}, Y: Tr<A>>(state: &Ct0<{}>, engine: &Y) -> u64 {{ state.tag + engine.go(&state.a[0]) }}",
            g.join(", "),
            p.join(", ")
        ));
    }
    for i in 0..3 {
        if env.contains_key(&format!("K{i}")) && src.chance(1, 3) {
            stmts += &format!("let _: u64 = K{i};");
        }
        if env.contains_key(&format!("Al{i}")) && src.chance(1, 3) {
            stmts += &format!("let _: Option<Al{i}> = None;");
        }
    }
    // turbofish of the first container in the signature
    for m in mentions(&f) {
        if let (Some(Def { item: Item::Struct(s), .. }), true) = (env.get(&m), src.chance(1, 3)) {
            stmts += &format!("let _ = Vec::<{m}<{}>>::new();", consts(&s.generics).join(", "));
            break;
        }
    }
    let b: syn::Block = parse(&format!("{{ {stmts} }}"));
    f.block.stmts.splice(0..0, b.stmts);
    f
}
fn describe(t: &Tree) -> String {
    let mut s = String::new();
    for (f, ms) in t.iter().enumerate() {
        for i in ms.values().flatten() {
            if let Some(n) = public(i) {
                let g = generics(i).map(|g| norm(g)).unwrap_or_default().replace("const ", "").replace(" : usize", "");
                s += &format!("{}:{n}{g} ", &FORKS[f][..3]);
            }
        }
    }
    s
}
fn small(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let t = synthetic(src);
    let d = describe(&t);
    obs.hit(d.as_bytes());
    obs.sample(|| d.clone());
    let s = Scratch::new();
    write(&t, &s.0);
    twice(&s.0)?;
    let envs = model(&t);
    let copies = envs.iter().flat_map(|e| e.values()).filter(|d| d.form != Form::Own).count();
    obs.label(if copies > 0 { "with copies" } else { "imports only" });
    check(&s.0, &envs)
}
fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--cap-lints", "allow"]);
    c
}
fn integer_sqrt() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let d = std::env::current_exe().unwrap().with_file_name("c28-integer-sqrt");
        fs::create_dir_all(&d).unwrap();
        fs::write(d.join("lib.rs"), "pub trait IntegerSquareRoot {}").unwrap();
        let o = d.join("libinteger_sqrt.rmeta");
        assert!(rustc().args(["--crate-name", "integer_sqrt"]).arg(d.join("lib.rs")).arg("-o").arg(&o).status().unwrap().success());
        o
    })
}
/// the generated modules compile, offer every item, and take the fork's own types
fn compile(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let t = synthetic(src);
    let d = describe(&t);
    obs.hit(d.as_bytes());
    obs.sample(|| d.clone());
    let s = Scratch::new();
    write(&t, &s.0);
    generate(&s.0, "forks")?;
    let envs = model(&t);
    let root = s.0.join(ROOT);
    let mut lib = String::from(
        "#![allow(warnings)]\npub mod primitives {}\npub mod signing {}\npub mod error {}\n\
         pub mod state_transition { pub type Result<T> = std::result::Result<T, ()>; pub struct Context; pub struct Validation; }\n\
         pub mod ssz { pub mod prelude {} }\n\
         pub mod crypto { pub fn hash() {} pub fn fast_aggregate_verify() {} pub fn eth_aggregate_public_keys() {} pub fn eth_fast_aggregate_verify() {} }\n",
    );
    let mut probes = 0;
    for (f, name) in FORKS.iter().enumerate() {
        lib += &format!("pub mod {name} {{ pub mod spec; pub mod fork {{ pub fn upgrade_to_{name}() {{}} }}");
        for m in MODULES[f] {
            lib += &format!(" pub mod {m};");
            let p = root.join(name).join(format!("{m}.rs"));
            let text = fs::read_to_string(&p).unwrap();
            fs::write(&p, format!("use crate::{name}::spec::*;\n{text}")).unwrap();
        }
        lib += " }\n";
        lib += &format!("pub mod probe_{name} {{ use crate::{name}::spec as spec;\n");
        for (n, d) in &envs[f] {
            match &d.item {
                Item::Fn(i) => {
                    // called with the types of this fork
                    let mut i = match &d.form {
                        Form::Own => i.clone(),
                        Form::Copy(_) => i.clone(),
                    };
                    let args: Vec<String> = i
                        .sig
                        .inputs
                        .iter()
                        .map(|a| match a {
                            syn::FnArg::Typed(p) => norm(&p.pat),
                            _ => String::new(),
                        })
                        .collect();
                    let body = if d.fork == f || d.form == Form::Copy(f) {
                        probes += 1;
                        format!("{{ spec::{n}({}) }}", args.join(", "))
                    } else {
                        "{ loop {} }".into()
                    };
                    let _ = std::mem::replace(&mut *i.block, parse(&body));
                    let own = d.fork == f || d.form == Form::Copy(f);
                    if own {
                        i.attrs.clear();
                        lib += &format!("pub mod p_{n} {{ use super::spec; use super::spec::*; {} }}\n", norm(&i).replace(&format!("fn {n}"), "fn probe"));
                    } else {
                        lib += &format!("pub use spec::{n};\n");
                    }
                }
                Item::Const(_) => lib += &format!("pub const P_{n}: u64 = spec::{n};\n"),
                _ => lib += &format!("pub use spec::{n};\n"),
            }
        }
        lib += "}\n";
    }
    obs.label(if probes > 0 { "with calls" } else { "no calls" });
    fs::write(root.join("lib.rs"), lib).unwrap();
    let o = rustc()
        .args(["--crate-name", "tree"])
        .arg("--extern")
        .arg(format!("integer_sqrt={}", integer_sqrt().display()))
        .arg(root.join("lib.rs"))
        .arg("-o")
        .arg(s.0.join("libtree.rmeta"))
        .output()
        .unwrap();
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let e: String = e.chars().take(1500).collect();
        return fail("does-not-compile", format!("{e}\n{d}"));
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C28",
        rule: "A case is the repository's sources with some items redefined, moved, hidden, removed or added, a small tree of six forks (with the generated modules compiled and called, or compared item by item), or block and state types with fields and parameters changed. It counts once per distinct tree.",
        assumptions: &["the published sources and modules are a fixture", "a redefined container keeps having parameters", "functions have no where clause and every type parameter has a single bound"],
        subs: vec![
            Sub { name: "golden", quick: 1, thorough: 1, f: golden },
            Sub { name: "real", quick: 60, thorough: 2500, f: real },
            Sub { name: "small", quick: 1500, thorough: 60000, f: small },
            Sub { name: "compile", quick: 250, thorough: 10000, f: compile },
            Sub { name: "types", quick: 60, thorough: 2500, f: all_forks },
        ],
    });
}
