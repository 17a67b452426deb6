//! Source trees, what their generated modules must contain, and what they do contain
use pbt::*;
use quote::ToTokens;
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
};
use syn::{visit::Visit, visit_mut::VisitMut, Item};

pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
pub const ROOT: &str = "ethereum-consensus/src";
/// the modules a fork's specification is made of
pub const MODULES: [&[&str]; 6] = [
    &[
        "beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "operations",
        "slot_processing", "state_transition", "validator",
    ],
    &[
        "beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "light_client", "sync",
        "validator",
    ],
    &[
        "beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "epoch_processing", "execution_payload", "fork_choice",
        "genesis", "helpers", "state_transition",
    ],
    &[
        "beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "bls_to_execution_change", "epoch_processing",
        "execution_payload", "genesis", "helpers", "light_client", "withdrawal",
    ],
    &[
        "beacon_block", "beacon_state", "blinded_beacon_block", "blob_sidecar", "block_processing", "epoch_processing", "execution_engine",
        "execution_payload", "genesis", "helpers", "light_client",
    ],
    &[
        "beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "execution_engine", "execution_payload",
        "genesis", "helpers", "operations",
    ],
];
/// phase0 functions altair has no use for
pub const DROPPED: [&str; 13] = [
    "get_unslashed_attesting_indices",
    "get_matching_source_attestations",
    "get_matching_target_attestations",
    "get_matching_head_attestations",
    "get_source_deltas",
    "get_target_deltas",
    "get_head_deltas",
    "get_inclusion_delay_deltas",
    "get_inactivity_penalty_deltas",
    "get_attestation_deltas",
    "get_attestation_component_deltas",
    "get_attesting_balance",
    "process_participation_record_updates",
];

/// scratch directory, removed when dropped
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("c28-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).unwrap();
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
pub type Tree = Vec<BTreeMap<String, Vec<Item>>>;
pub fn empty() -> Tree {
    MODULES.iter().map(|m| m.iter().map(|n| (n.to_string(), vec![])).collect()).collect()
}
pub fn read(root: &Path) -> Tree {
    let mut t = empty();
    for (f, modules) in t.iter_mut().enumerate() {
        for (m, items) in modules {
            let s = fs::read_to_string(root.join(ROOT).join(FORKS[f]).join(format!("{m}.rs"))).unwrap();
            *items = syn::parse_file(&s).unwrap().items;
        }
    }
    t
}
pub fn write(t: &Tree, root: &Path) {
    for (f, modules) in t.iter().enumerate() {
        let d = root.join(ROOT).join(FORKS[f]);
        fs::create_dir_all(&d).unwrap();
        for (m, items) in modules {
            let s: Vec<String> = items.iter().map(|i| i.to_token_stream().to_string()).collect();
            fs::write(d.join(format!("{m}.rs")), s.join("\n")).unwrap();
        }
    }
    fs::create_dir_all(root.join(ROOT).join("types")).unwrap();
}
pub fn generate(root: &Path, what: &str) -> Result<(), Failure> {
    let bin = std::env::current_exe().unwrap().with_file_name("spec-gen");
    let o = std::process::Command::new(bin).arg(what).current_dir(root).output().unwrap();
    if o.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&o.stderr);
    let e = e.lines().find(|l| l.contains("panicked")).map_or("", |_| e.trim());
    fail("generator-fails", format!("spec-gen {what} fails: {}", &e[..e.len().min(400)]))
}
pub fn spec_file(root: &Path, fork: usize) -> PathBuf {
    root.join(ROOT).join(FORKS[fork]).join("spec/mod.rs")
}
pub fn load(p: &Path) -> Result<syn::File, Failure> {
    let s = match fs::read_to_string(p) {
        Ok(s) => s,
        Err(e) => return fail("output", format!("{p:?}: {e}")),
    };
    match syn::parse_file(&s) {
        Ok(f) => Ok(f),
        Err(e) => fail("output", format!("{p:?} is no Rust: {e}")),
    }
}
pub fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
/// tokens without white space and without the commas that only close a list
pub fn key(t: &impl ToTokens) -> String {
    let mut s: String = t.to_token_stream().to_string().split_whitespace().collect();
    for (a, b) in [(",>", ">"), (",)", ")"), (",]", "]"), (",}", "}"), ("<>", "")] {
        s = s.replace(a, b);
    }
    s
}
pub fn paths(u: &syn::UseTree, pre: &str, out: &mut Vec<String>) {
    match u {
        syn::UseTree::Path(p) => paths(&p.tree, &format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) if n.ident == "self" => out.push(pre.trim_end_matches("::").to_string()),
        syn::UseTree::Name(n) => out.push(format!("{pre}{}", n.ident)),
        syn::UseTree::Rename(r) => {
            let p = if r.ident == "self" { pre.trim_end_matches("::").to_string() } else { format!("{pre}{}", r.ident) };
            out.push(if r.rename == r.ident { p } else { format!("{p} as {}", r.rename) })
        }
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| paths(t, pre, out)),
    }
}
pub fn is_pub(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

#[derive(Clone, PartialEq, Debug)]
pub enum Form {
    /// the item where it is defined
    Own,
    /// a copy of a function, made for the fork
    Copy(usize),
}
#[derive(Clone)]
pub struct Def {
    pub fork: usize,
    pub module: String,
    pub item: Item,
    pub form: Form,
}
pub type Env = BTreeMap<String, Def>;
pub fn public(i: &Item) -> Option<String> {
    let (v, n) = match i {
        Item::Const(x) => (&x.vis, &x.ident),
        Item::Struct(x) => (&x.vis, &x.ident),
        Item::Fn(x) => (&x.vis, &x.sig.ident),
        Item::Type(x) => (&x.vis, &x.ident),
        Item::Trait(x) => (&x.vis, &x.ident),
        _ => return None,
    };
    is_pub(v).then(|| n.to_string())
}
pub fn generics(i: &Item) -> Option<&syn::Generics> {
    Some(match i {
        Item::Struct(x) => &x.generics,
        Item::Trait(x) => &x.generics,
        Item::Fn(x) => &x.sig.generics,
        _ => return None,
    })
}
pub fn consts(g: &syn::Generics) -> Vec<String> {
    g.const_params().map(|c| c.ident.to_string()).collect()
}
#[derive(Default)]
struct Segments(Vec<String>);
impl<'a> Visit<'a> for Segments {
    fn visit_path_segment(&mut self, i: &'a syn::PathSegment) {
        self.0.push(i.ident.to_string());
        syn::visit::visit_path_segment(self, i);
    }
}
/// names of types in the parameters, results and typed patterns of a function
#[derive(Default)]
struct Mentions(Segments);
impl<'a> Visit<'a> for Mentions {
    fn visit_pat_type(&mut self, i: &'a syn::PatType) {
        self.0.visit_type(&i.ty);
    }
    fn visit_return_type(&mut self, i: &'a syn::ReturnType) {
        if let syn::ReturnType::Type(_, t) = i {
            self.0.visit_type(t);
        }
    }
}
pub fn mentions(f: &syn::ItemFn) -> Vec<String> {
    let mut m = Mentions::default();
    m.visit_item_fn(f);
    m.0 .0
}
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a syn::Ident) {
        self.0.insert(i.to_string());
    }
}
struct Edit<'a>(&'a BTreeMap<String, Vec<String>>);
impl VisitMut for Edit<'_> {
    fn visit_path_segment_mut(&mut self, i: &mut syn::PathSegment) {
        syn::visit_mut::visit_path_segment_mut(self, i);
        if let (Some(p), syn::PathArguments::AngleBracketed(a)) = (self.0.get(&i.ident.to_string()), &mut i.arguments) {
            let p = p.iter().map(|p| syn::parse_str::<syn::GenericArgument>(p).unwrap());
            a.args = p.collect();
        }
    }
}
/// the function for the types of the environment, those in `own` being new
fn specialise(f: &syn::ItemFn, env: &Env, own: &BTreeSet<String>) -> syn::ItemFn {
    let mut f = f.clone();
    let edits: BTreeMap<String, Vec<String>> = mentions(&f)
        .into_iter()
        .filter_map(|n| match env.get(&n) {
            Some(Def { item: Item::Struct(s), .. }) if own.contains(&n) => Some((n, consts(&s.generics))),
            _ => None,
        })
        .collect();
    let traits: BTreeMap<String, Vec<String>> = env
        .iter()
        .filter_map(|(n, d)| match &d.item {
            Item::Trait(t) => Some((n.clone(), consts(&t.generics))),
            _ => None,
        })
        .collect();
    let old: Vec<String> = consts(&f.sig.generics);
    let types: Vec<syn::TypeParam> = f
        .sig
        .generics
        .type_params()
        .map(|t| {
            let mut t = t.clone();
            Edit(&traits).visit_type_param_mut(&mut t);
            t
        })
        .collect();
    let lifetimes: Vec<syn::LifetimeDef> = f.sig.generics.lifetimes().cloned().collect();
    f.sig.generics = Default::default();
    Edit(&edits).visit_item_fn_mut(&mut f);
    let mut used = Idents(Default::default());
    used.visit_item_fn(&f);
    types.iter().for_each(|t| used.visit_type_param(t));
    let mut params: BTreeSet<String> = edits.into_values().flatten().collect();
    params.extend(old.into_iter().filter(|p| used.0.contains(p)));
    let g = &mut f.sig.generics;
    g.params.extend(lifetimes.into_iter().map(syn::GenericParam::Lifetime));
    g.params.extend(params.iter().map(|p| syn::parse_str::<syn::GenericParam>(&format!("const {p}: usize")).unwrap()));
    g.params.extend(types.into_iter().map(syn::GenericParam::Type));
    f
}
/// the public items of every fork's specification
pub fn model(t: &Tree) -> Vec<Env> {
    let mut all: Vec<Env> = vec![];
    for (fork, modules) in t.iter().enumerate() {
        let mut env = Env::new();
        for (module, items) in modules {
            for item in items {
                if let Some(n) = public(item) {
                    env.insert(n, Def { fork, module: module.clone(), item: item.clone(), form: Form::Own });
                }
            }
        }
        let own: BTreeSet<String> = env.keys().cloned().collect();
        if let Some(prev) = all.last() {
            let fns = |d: &Def| matches!(d.item, Item::Fn(_));
            for (n, d) in prev.iter().filter(|(n, d)| !own.contains(*n) && !fns(d)) {
                env.insert(n.clone(), d.clone());
            }
            for (n, d) in prev.iter().filter(|(n, d)| !own.contains(*n) && fns(d)) {
                if fork == 1 && DROPPED.contains(&n.as_str()) {
                    continue;
                }
                let Item::Fn(f) = &d.item else { unreachable!() };
                let newer = |m: &String| own.contains(m) && matches!(env[m].item, Item::Struct(_));
                let mut d = d.clone();
                if mentions(f).iter().any(newer) {
                    d.item = Item::Fn(specialise(f, &env, &own));
                    d.form = Form::Copy(fork);
                }
                env.insert(n.clone(), d);
            }
        }
        all.push(env);
    }
    all
}
fn parts(f: &syn::ItemFn) -> (String, BTreeSet<String>) {
    let mut g: BTreeSet<String> = f.sig.generics.params.iter().map(key).collect();
    g.extend(f.sig.generics.where_clause.iter().map(key));
    let mut f = f.clone();
    f.sig.generics = Default::default();
    // as the printer lays it out, which may add or drop a semicolon
    let text = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] });
    (key(&syn::parse_file(&text).unwrap()), g)
}
/// compares a generated module with what it must contain
pub fn compare(fork: usize, file: &syn::File, env: &Env) -> CaseResult {
    let name = FORKS[fork];
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    let mut uses = vec![];
    for i in &file.items {
        match i {
            Item::Use(u) => {
                if is_pub(&u.vis) {
                    paths(&u.tree, "", &mut uses);
                }
            }
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                let Some((k, d)) = env.get_key_value(&n) else {
                    return fail("extra-item", format!("{name} has a function {n}"));
                };
                *seen.entry(k).or_default() += 1;
                let Item::Fn(want) = &d.item else { return fail("kind", format!("{name}::{n} is no function")) };
                ensure!(d.form != Form::Own, "copied", "{name} copies {n} of {} that mentions none of its types", FORKS[d.fork]);
                let ((a, ga), (b, gb)) = (parts(f), parts(want));
                if a != b {
                    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                    let cut = |s: &str| s.chars().skip(i.saturating_sub(60)).take(160).collect::<String>();
                    return fail("copy", format!("{name} has a copy of {n} with `{}` instead of `{}`", cut(&a), cut(&b)));
                }
                ensure!(ga == gb, "copy-generics", "{name}::{n} has parameters {ga:?} instead of {gb:?}");
            }
            i => return fail("extra-item", format!("{name} contains {}", key(i))),
        }
    }
    let mut header: BTreeSet<String> = [
        "crate::primitives::*",
        "crate::signing::*",
        "crate::error::*",
        "crate::state_transition::Result",
        "crate::state_transition::Context",
        "crate::state_transition::Validation",
    ]
    .map(String::from)
    .into();
    if fork > 0 {
        header.insert(format!("crate::{name}::fork::upgrade_to_{name}"));
    }
    for u in uses {
        if header.remove(&u) {
            continue;
        }
        let p: Vec<&str> = u.split("::").collect();
        let n = *p.last().unwrap();
        let Some((k, d)) = env.get_key_value(n) else { return fail("extra-item", format!("{name} imports {u}")) };
        *seen.entry(k).or_default() += 1;
        let ok = match d.form {
            Form::Own => u == format!("crate::{}::{}::{n}", FORKS[d.fork], d.module),
            Form::Copy(at) => at != fork && u == format!("crate::{}::spec::{n}", FORKS[at]),
        };
        ensure!(ok, "import", "{name} imports {u}, but {n} is {:?} of {}::{}", d.form, FORKS[d.fork], d.module);
    }
    ensure!(header.is_empty(), "header", "{name} lacks {header:?}");
    for n in env.keys() {
        let k = seen.get(n.as_str()).copied().unwrap_or(0);
        ensure!(k == 1, if k == 0 { "missing-item" } else { "double-item" }, "{name} has {n} {k} times");
    }
    Ok(())
}
/// an implementation whose lifetimes that are mentioned only once have no name
fn elide(m: &syn::ItemImpl) -> syn::ItemImpl {
    struct Rename(String, usize);
    impl VisitMut for Rename {
        fn visit_lifetime_mut(&mut self, i: &mut syn::Lifetime) {
            if i.ident == self.0 {
                self.1 += 1;
                i.ident = syn::Ident::new("_", i.ident.span());
            }
        }
    }
    let mut m = m.clone();
    let names: Vec<String> = m.generics.lifetimes().map(|l| l.lifetime.ident.to_string()).collect();
    for n in names {
        let mut out = m.clone();
        let keep = |p: &syn::GenericParam| !matches!(p, syn::GenericParam::Lifetime(l) if l.lifetime.ident == n);
        out.generics.params = out.generics.params.into_iter().filter(keep).collect();
        let mut r = Rename(n.clone(), 0);
        r.visit_item_impl_mut(&mut out);
        if r.1 == 1 {
            m = out;
        }
    }
    m
}
/// match arms without the braces around a single expression
pub struct Arms;
impl VisitMut for Arms {
    fn visit_arm_mut(&mut self, i: &mut syn::Arm) {
        syn::visit_mut::visit_arm_mut(self, i);
        if let syn::Expr::Block(syn::ExprBlock { attrs, label: None, block }) = &*i.body {
            if let (true, [syn::Stmt::Expr(e)]) = (attrs.is_empty(), &block.stmts[..]) {
                *i.body = e.clone();
            }
        }
        i.comma = Some(Default::default());
    }
}
/// items of a file in a form that ignores their order, layout and the grouping of imports
pub fn bag(f: &syn::File) -> Vec<String> {
    let mut out = vec![];
    let mut f = f.clone();
    Arms.visit_file_mut(&mut f);
    for i in &f.items {
        if let Item::Use(u) = i {
            let mut p = vec![];
            paths(&u.tree, "", &mut p);
            out.extend(p.into_iter().map(|p| format!("{} use {p}", key(&u.vis))));
        } else if let Item::Impl(m) = i {
            out.push(key(&elide(m)));
        } else {
            out.push(key(i));
        }
    }
    out.sort();
    out
}
