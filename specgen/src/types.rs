//! The block and state types over all forks
use crate::tree::*;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::{visit::Visit, visit_mut::VisitMut, Item};

pub struct Kind {
    pub name: &'static str,
    pub module: &'static str,
    pub file: &'static str,
    /// has types that refer to any of its forks
    pub refs: bool,
    /// a field that is itself a type over all forks, and that type
    pub inner: Option<(&'static str, &'static str)>,
}
pub const KINDS: [Kind; 9] = [
    Kind { name: "BeaconBlockBody", module: "beacon_block", file: "beacon_block_body", refs: true, inner: Some(("execution_payload", "ExecutionPayload")) },
    Kind { name: "BeaconBlock", module: "beacon_block", file: "beacon_block", refs: true, inner: Some(("body", "BeaconBlockBody")) },
    Kind { name: "SignedBeaconBlock", module: "beacon_block", file: "signed_beacon_block", refs: false, inner: Some(("message", "BeaconBlock")) },
    Kind {
        name: "BlindedBeaconBlockBody",
        module: "blinded_beacon_block",
        file: "blinded_beacon_block_body",
        refs: true,
        inner: Some(("execution_payload_header", "ExecutionPayloadHeader")),
    },
    Kind { name: "BlindedBeaconBlock", module: "blinded_beacon_block", file: "blinded_beacon_block", refs: true, inner: Some(("body", "BlindedBeaconBlockBody")) },
    Kind {
        name: "SignedBlindedBeaconBlock",
        module: "blinded_beacon_block",
        file: "signed_blinded_beacon_block",
        refs: false,
        inner: Some(("message", "BlindedBeaconBlock")),
    },
    Kind { name: "ExecutionPayload", module: "execution_payload", file: "execution_payload", refs: true, inner: None },
    Kind { name: "ExecutionPayloadHeader", module: "execution_payload", file: "execution_payload_header", refs: true, inner: None },
    Kind { name: "BeaconState", module: "beacon_state", file: "beacon_state", refs: true, inner: Some(("latest_execution_payload_header", "ExecutionPayloadHeader")) },
];
const COPY: [&str; 5] = ["Root", "Slot", "ValidatorIndex", "WithdrawalIndex", "u64"];
/// fields only the first fork's state has
const GONE: [&str; 2] = ["previous_epoch_attestations", "current_epoch_attestations"];
/// the types are made up to this fork
const LAST: usize = 4;

fn title(f: usize) -> String {
    let n = FORKS[f];
    format!("{}{}", n[..1].to_uppercase(), &n[1..])
}
fn defns<'a>(t: &'a Tree, k: &Kind) -> Vec<(usize, &'a syn::ItemStruct)> {
    (0..=LAST)
        .filter_map(|f| {
            let i = t[f].get(k.module)?.iter().find_map(|i| match i {
                Item::Struct(s) if s.ident == k.name => Some(s),
                _ => None,
            })?;
            Some((f, i))
        })
        .collect()
}
/// what a generated enumeration is
#[derive(Default, Debug, PartialEq)]
pub struct Shape {
    generics: BTreeSet<String>,
    /// variant, and what it holds
    variants: Vec<(String, String)>,
    /// method: its parameters, result and what it returns for every variant
    methods: BTreeMap<String, (String, BTreeMap<String, String>)>,
    /// type that converts into it: the variant
    from: BTreeMap<String, String>,
    /// the order the variants are tried in when it is read from text
    reading: Vec<String>,
}
fn angle(v: &[String]) -> String {
    format!("<{}>", v.join(","))
}
/// the shapes of a type and of its references, by name
pub fn expected(t: &Tree, k: &Kind) -> BTreeMap<String, Shape> {
    let d = defns(t, k);
    let first = d[0].0;
    let mut out = BTreeMap::new();
    // fields in order of appearance, with their first fork and newest type
    let mut fields: BTreeMap<String, (usize, syn::Type)> = BTreeMap::new();
    for (f, s) in &d {
        for x in &s.fields {
            let n = x.ident.as_ref().unwrap().to_string();
            let since = fields.get(&n).map_or(*f, |x| x.0);
            fields.insert(n, (since, x.ty.clone()));
        }
    }
    let flavours: &[(&str, &str)] = if k.refs { &[("", ""), ("Ref", "&'a"), ("RefMut", "&'amut")] } else { &[("", "")] };
    for (suffix, by) in flavours {
        let mut s = Shape::default();
        for (f, st) in &d {
            let p = consts(&st.generics);
            let inner = format!("{}::{}{}", FORKS[*f], k.name, angle(&p)).replace("<>", "");
            s.generics.extend(p.iter().map(|p| format!("const{p}:usize")));
            s.variants.push((title(*f), format!("{by}{inner}")));
            if !by.is_empty() {
                s.from.insert(format!("{by}{inner}"), title(*f));
            }
            let of = |me: String| {
                d.iter().map(|(g, _)| (title(*g), if g == f { me.clone() } else { "None".into() })).collect::<BTreeMap<_, _>>()
            };
            s.methods.insert(FORKS[*f].into(), (format!("&self->Option<&{inner}>"), of("Some(inner)".into())));
            if *suffix != "Ref" {
                s.methods.insert(format!("{}_mut", FORKS[*f]), (format!("&mutself->Option<&mut{inner}>"), of("Some(inner)".into())));
            }
        }
        if by.is_empty() {
            s.reading = d.iter().rev().map(|(f, _)| title(*f)).collect();
        } else {
            s.generics.insert("'a".into());
        }
        s.methods.insert("version".into(), ("&self->Version".into(), d.iter().map(|(f, _)| (title(*f), format!("Version::{}", title(*f)))).collect()));
        for (n, (since, ty)) in &fields {
            let gone = k.name == "BeaconState" && GONE.contains(&n.as_str());
            let optional = gone || *since != first;
            let wrap = |x: String, w: &str| if optional { format!("{w}{}{x}{}", if w == "Option" { "<" } else { "(" }, if w == "Option" { ">" } else { ")" }) } else { x };
            let poly = k.inner.filter(|i| i.0 == n);
            let args = match ty {
                syn::Type::Path(p) => key(&p.path.segments.last().unwrap().arguments),
                _ => String::new(),
            };
            let plain = COPY.iter().any(|c| key(ty) == *c);
            for mutable in [false, true] {
                if mutable && *suffix == "Ref" {
                    continue;
                }
                let (m, name) = if mutable { ("mut", format!("{n}_mut")) } else { ("", n.clone()) };
                let (ty, value) = match poly {
                    Some((_, inner)) => (
                        format!("{inner}Ref{}{args}", if mutable { "Mut" } else { "" }),
                        format!("From::from(&{m}inner.{n})"),
                    ),
                    None if plain && !mutable => (key(ty), format!("inner.{n}")),
                    None => (format!("&{m}{}", key(ty)), format!("&{m}inner.{n}")),
                };
                let arms = d
                    .iter()
                    .map(|(f, _)| {
                        let absent = f < since || gone && *f > 0;
                        (title(*f), if absent { "None".into() } else { wrap(value.clone(), "Some") })
                    })
                    .collect();
                s.methods.insert(name, (format!("&{m}self->{}", wrap(ty, "Option")), arms));
            }
        }
        out.insert(format!("{}{suffix}", k.name), s);
    }
    out
}
/// variants named by `Self::V`, in order
#[derive(Default)]
struct Variants(Vec<String>);
impl<'a> Visit<'a> for Variants {
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() == 2 && p.segments[0].ident == "Self" && p.segments[1].ident.to_string().starts_with(char::is_uppercase) {
            self.0.push(p.segments[1].ident.to_string());
        }
        syn::visit::visit_path(self, p);
    }
}
fn arms(f: &syn::ImplItemMethod, variants: &[(String, String)]) -> Option<BTreeMap<String, String>> {
    let [syn::Stmt::Expr(syn::Expr::Match(m))] = &f.block.stmts[..] else { return None };
    let mut out = BTreeMap::new();
    for a in &m.arms {
        let mut v = Variants::default();
        v.visit_pat(&a.pat);
        let named = if key(&a.pat) == "_" { variants.iter().map(|v| v.0.clone()).collect() } else { v.0 };
        for v in named {
            out.entry(v).or_insert(key(&a.body));
        }
    }
    Some(out)
}
pub fn found(file: &syn::File) -> Result<BTreeMap<String, Shape>, Failure> {
    let mut file = file.clone();
    Arms.visit_file_mut(&mut file);
    let mut out: BTreeMap<String, Shape> = BTreeMap::new();
    for i in &file.items {
        if let Item::Enum(e) = i {
            let mut s = Shape { generics: e.generics.params.iter().map(key).collect(), ..Default::default() };
            for v in &e.variants {
                s.variants.push((v.ident.to_string(), v.fields.iter().map(|f| key(&f.ty)).collect()));
            }
            if out.insert(e.ident.to_string(), s).is_some() {
                return fail("type-twice", format!("{} is there twice", e.ident));
            }
        }
    }
    for i in &file.items {
        let Item::Impl(m) = i else { continue };
        let syn::Type::Path(p) = &*m.self_ty else { return fail("implementation", key(m)) };
        let name = p.path.segments[0].ident.to_string();
        let Some(s) = out.get_mut(&name) else { return fail("implementation", format!("implements {name}")) };
        let mut g: BTreeSet<String> = m.generics.params.iter().map(key).collect();
        let trait_ = m.trait_.as_ref().map(|t| t.1.segments.last().unwrap());
        let mut want = s.generics.clone();
        match trait_ {
            // the name of the lifetime may be left out
            None => {
                want.remove("'a");
                g.remove("'a");
            }
            Some(t) if t.ident == "Deserialize" => {
                want.insert("'de".into());
            }
            _ => (),
        }
        ensure!(g == want, "implementation-generics", "an implementation of {name} has {g:?} instead of {want:?}");
        for f in &m.items {
            let syn::ImplItem::Method(f) = f else { continue };
            let n = f.sig.ident.to_string();
            match trait_ {
                None => {
                    let Some(arms) = arms(f, &s.variants) else { return fail("method", format!("{name}::{n} is {}", key(f))) };
                    let sig = format!("{}{}", f.sig.inputs.iter().map(key).collect::<Vec<_>>().join(","), key(&f.sig.output));
                    ensure!(is_pub(&f.vis), "method", "{name}::{n} is private");
                    ensure!(s.methods.insert(n.clone(), (sig, arms)).is_none(), "method-twice", "{name} has {n} twice");
                }
                Some(t) if t.ident == "From" => {
                    let syn::FnArg::Typed(a) = &f.sig.inputs[0] else { return fail("conversion", key(f)) };
                    let mut v = Variants::default();
                    v.visit_block(&f.block);
                    s.from.insert(key(&a.ty), v.0.join(","));
                }
                Some(t) if t.ident == "Deserialize" => {
                    let mut v = Variants::default();
                    v.visit_block(&f.block);
                    s.reading = v.0;
                }
                Some(t) => return fail("implementation", format!("{name} has {}", key(t))),
            }
        }
    }
    Ok(out)
}
pub fn check(root: &std::path::Path, t: &Tree) -> CaseResult {
    for k in &KINDS {
        let got = found(&load(&root.join(ROOT).join("types").join(format!("{}.rs", k.file)))?)?;
        let want = expected(t, k);
        ensure!(got.keys().eq(want.keys()), "type-names", "{} defines {:?}", k.file, got.keys());
        for (n, w) in &want {
            let g = &got[n];
            ensure!(g.generics == w.generics, "type-generics", "{n} has parameters {:?} instead of {:?}", g.generics, w.generics);
            ensure!(g.variants == w.variants, "variants", "{n} has variants {:?} instead of {:?}", g.variants, w.variants);
            ensure!(g.from == w.from, "conversion", "{n} converts from {:?} instead of {:?}", g.from, w.from);
            ensure!(g.reading == w.reading, "reading", "{n} is read as {:?} instead of {:?}", g.reading, w.reading);
            for (m, want) in &w.methods {
                let Some(got) = g.methods.get(m) else { return fail("no-method", format!("{n} lacks {m}")) };
                ensure!(got.0 == want.0, "method-signature", "{n}::{m} is {} instead of {}", got.0, want.0);
                ensure!(got.1 == want.1, "method-value", "{n}::{m} gives {:?} instead of {:?}", got.1, want.1);
            }
            let extra = g.methods.keys().find(|m| !w.methods.contains_key(*m));
            ensure!(extra.is_none(), "extra-method", "{n} has {extra:?}");
        }
    }
    Ok(())
}
/// the repository's block and state types with fields and parameters changed from some fork on
pub fn mutate(src: &mut Src, t: &mut Tree, what: &mut Vec<String>) {
    for i in 0..src.range(1, 8) {
        let k = &KINDS[src.idx(KINDS.len())];
        let forks: Vec<usize> = defns(t, k).iter().map(|d| d.0).collect();
        let since = forks[src.idx(forks.len())];
        let sort = src.below(4);
        let param = format!("P_{i}");
        let plain = ["u64", "Root", "Slot", "ValidatorIndex", "WithdrawalIndex", "Gwei", "bool", "Bytes32", "Vec<u64>", "List<Root, 8>", "(Root, u64)", "[u8; 4]"];
        let with = src.chance(1, 3);
        let ty = if with { format!("{}<{}, {param}>", src.pick(&["List", "Vector"]), src.pick(&plain)) } else { src.pick(&plain).to_string() };
        let at = src.u64();
        let field = {
            let d = defns(t, k);
            let s = d.iter().find(|d| d.0 == since).unwrap().1;
            let n: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
            n[at as usize % n.len()].clone()
        };
        let special = k.inner.is_some_and(|x| x.0 == field) || GONE.contains(&field.as_str());
        if sort == 1 && special {
            continue;
        }
        what.push(match sort {
            0 => format!("{} gets new_{i}: {ty} from {} on", k.name, FORKS[since]),
            1 => format!("{field} of {} is {ty} from {} on", k.name, FORKS[since]),
            2 => format!("{} gets the parameter {param} from {} on", k.name, FORKS[since]),
            _ => format!("the fields of {} are in another order from {} on", k.name, FORKS[since]),
        });
        for f in forks.into_iter().filter(|f| *f >= since) {
            let s = t[f].get_mut(k.module).unwrap().iter_mut().find_map(|i| match i {
                Item::Struct(s) if s.ident == k.name => Some(s),
                _ => None,
            });
            let s = s.unwrap();
            if sort == 2 || with && sort < 2 {
                let p: syn::GenericParam = syn::parse_str(&format!("const {param}: usize")).unwrap();
                let at = at as usize % (s.generics.params.len() + 1);
                s.generics.params.insert(at, p);
                if s.generics.lt_token.is_none() {
                    s.generics.lt_token = Some(Default::default());
                    s.generics.gt_token = Some(Default::default());
                }
            }
            let syn::Fields::Named(n) = &mut s.fields else { panic!() };
            match sort {
                0 => {
                    use syn::parse::Parser;
                    let x = syn::Field::parse_named.parse_str(&format!("pub new_{i}: {ty}")).unwrap();
                    let at = at as usize % (n.named.len() + 1);
                    n.named.insert(at, x);
                }
                1 => n.named.iter_mut().filter(|x| *x.ident.as_ref().unwrap() == field).for_each(|x| x.ty = syn::parse_str(&ty).unwrap()),
                2 => (),
                _ => {
                    let v: Vec<syn::Field> = n.named.iter().cloned().collect();
                    let by = at as usize % v.len();
                    n.named = v[by..].iter().chain(&v[..by]).cloned().collect();
                }
            }
        }
    }
}
