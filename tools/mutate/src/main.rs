//! mutate ROOT LIST DISABLED OUT: rewrites the files listed (one "path switch-function" per line) under ROOT in place,
//! skipping the mutants whose numbers are in DISABLED, and writes OUT: number, file, function, description
use proc_macro2::TokenStream as TS;
use quote::{quote, ToTokens};
use std::{collections::HashSet, fmt::Write as _, fs};
use syn::{parse_quote, visit_mut::*, *};

struct M {
    file: String,
    call: TS,
    fun: Vec<String>,
    next: u32,
    off: HashSet<u32>,
    list: String,
    depth: u32,
}
impl M {
    /// the switch of a new mutant
    fn new_mutant(&mut self, what: String) -> Option<TS> {
        let n = self.next;
        self.next += 1;
        if self.off.contains(&n) {
            return None;
        }
        let f = self.fun.join("::");
        let what = what.split_whitespace().collect::<Vec<_>>().join(" ");
        writeln!(self.list, "{n}\t{}\t{f}\t{}", self.file, what.chars().take(160).collect::<String>()).unwrap();
        let c = &self.call;
        Some(quote!(#c(#n)))
    }
    fn swap(&mut self, e: &mut Expr, to: Expr) {
        let what = format!("{}  =>  {}", e.to_token_stream(), to.to_token_stream());
        if let Some(c) = self.new_mutant(what) {
            let old = e.clone();
            *e = parse_quote!((if #c { #to } else { #old }));
        }
    }
    fn condition(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Let(_)) || e.to_token_stream().to_string().contains("let ") {
            return;
        }
        for v in [quote!(true), quote!(false)] {
            let old = e.clone();
            let shown = original(&old);
            if let Some(c) = self.new_mutant(format!("if {shown}  =>  if {v}")) {
                *e = parse_quote!((if #c { #v } else { #old }));
            }
        }
    }
}
fn original(e: &Expr) -> String {
    e.to_token_stream().to_string()
}
fn binop(op: &BinOp) -> Vec<BinOp> {
    use BinOp::*;
    let p = |s: &str| parse_str::<BinOp>(s).unwrap();
    match op {
        Lt(_) => vec![p("<="), p(">=")],
        Le(_) => vec![p("<"), p(">")],
        Gt(_) => vec![p(">="), p("<=")],
        Ge(_) => vec![p(">"), p("<")],
        Eq(_) => vec![p("!=")],
        Ne(_) => vec![p("==")],
        And(_) => vec![p("||")],
        Or(_) => vec![p("&&")],
        Add(_) => vec![p("-")],
        Sub(_) => vec![p("+")],
        Mul(_) => vec![p("/")],
        Div(_) => vec![p("*")],
        Rem(_) => vec![p("/")],
        Shl(_) => vec![p(">>")],
        Shr(_) => vec![p("<<")],
        BitAnd(_) => vec![p("|")],
        BitOr(_) => vec![p("&")],
        BitXor(_) => vec![p("|")],
        AddEq(_) => vec![p("-=")],
        SubEq(_) => vec![p("+=")],
        _ => vec![],
    }
}
const PAIRS: &[(&str, &str)] = &[
    ("get_current_epoch", "get_previous_epoch"),
    ("source", "target"),
    ("previous_justified_checkpoint", "current_justified_checkpoint"),
    ("previous_epoch_participation", "current_epoch_participation"),
    ("previous_epoch_attestations", "current_epoch_attestations"),
    ("exit_epoch", "withdrawable_epoch"),
    ("activation_epoch", "activation_eligibility_epoch"),
    ("min", "max"),
    ("any", "all"),
    ("current_sync_committee", "next_sync_committee"),
    ("block_roots", "state_roots"),
    ("current_version", "previous_version"),
    ("effective_balance", "activation_epoch"),
    ("parent_root", "state_root"),
    ("attestation_1", "attestation_2"),
    ("source_index", "target_index"),
    ("skip", "take"),
    ("saturating_sub", "saturating_add"),
    ("is_some", "is_none"),
    ("is_ok", "is_err"),
];
fn other(id: &Ident) -> Option<Ident> {
    let s = id.to_string();
    PAIRS.iter().find_map(|(a, b)| if s == *a { Some(b) } else if s == *b { Some(a) } else { None }).map(|o| Ident::new(o, id.span()))
}
impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Const(_) | Item::Static(_) | Item::Macro(_) => {}
            Item::Mod(m) if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) => {}
            Item::Mod(m) => {
                self.fun.push(m.ident.to_string());
                visit_item_mod_mut(self, m);
                self.fun.pop();
            }
            Item::Fn(f) if f.sig.constness.is_some() || f.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) => {}
            Item::Fn(f) => {
                self.fun.push(f.sig.ident.to_string());
                self.depth += 1;
                visit_block_mut(self, &mut f.block);
                self.depth -= 1;
                self.fun.pop();
            }
            Item::Impl(x) => {
                let t = x.self_ty.to_token_stream().to_string().replace(' ', "");
                self.fun.push(t.split('<').next().unwrap().to_string());
                visit_item_impl_mut(self, x);
                self.fun.pop();
            }
            Item::Trait(x) => {
                self.fun.push(x.ident.to_string());
                visit_item_trait_mut(self, x);
                self.fun.pop();
            }
            _ => {}
        }
    }
    fn visit_impl_item_mut(&mut self, i: &mut ImplItem) {
        if let ImplItem::Method(f) = i {
            if f.sig.constness.is_some() {
                return;
            }
            self.fun.push(f.sig.ident.to_string());
            self.depth += 1;
            visit_block_mut(self, &mut f.block);
            self.depth -= 1;
            self.fun.pop();
        }
    }
    fn visit_trait_item_mut(&mut self, i: &mut TraitItem) {
        if let TraitItem::Method(f) = i {
            if let Some(b) = &mut f.default {
                self.fun.push(f.sig.ident.to_string());
                self.depth += 1;
                visit_block_mut(self, b);
                self.depth -= 1;
                self.fun.pop();
            }
        }
    }
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_path_mut(&mut self, _: &mut Path) {}
    fn visit_generic_method_argument_mut(&mut self, _: &mut GenericMethodArgument) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Item(i) = s {
            return self.visit_item_mut(i);
        }
        let before = s.to_token_stream().to_string();
        visit_stmt_mut(self, s);
        if let Stmt::Semi(e, _) = s {
            if !matches!(e, Expr::Macro(_)) {
                let plain_return = matches!(e, Expr::Return(_));
                if let Some(c) = self.new_mutant(format!("removed: {before}")) {
                    let e = e.clone();
                    if plain_return || matches!(e, Expr::Break(_) | Expr::Continue(_)) {
                        *s = Stmt::Semi(parse_quote!(if !#c { #e }), Default::default());
                    } else {
                        *s = Stmt::Semi(parse_quote!(if !#c { #e; }), Default::default());
                    }
                }
            }
        } else if let Stmt::Expr(e @ (Expr::If(_) | Expr::ForLoop(_))) = s {
            // a block that is a statement and not the value
            let is_for = matches!(e, Expr::ForLoop(_));
            if is_for {
                if let Some(c) = self.new_mutant(format!("removed: {before}")) {
                    let e = e.clone();
                    *s = Stmt::Expr(parse_quote!(if !#c { #e }));
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let before = e.clone();
        match e {
            Expr::If(x) => {
                let mut cond = (*x.cond).clone();
                let islet = cond.to_token_stream().to_string().contains("let ");
                if !islet {
                    let shown = cond.clone();
                    self.visit_expr_mut(&mut cond);
                    // force the condition either way
                    for v in [quote!(true), quote!(false)] {
                        if let Some(c) = self.new_mutant(format!("if {}  =>  if {v}", shown.to_token_stream())) {
                            let old = cond.clone();
                            cond = parse_quote!((if #c { #v } else { #old }));
                        }
                    }
                    x.cond = Box::new(cond);
                }
                self.visit_block_mut(&mut x.then_branch);
                if let Some((_, b)) = &mut x.else_branch {
                    self.visit_expr_mut(b);
                }
                return;
            }
            Expr::Repeat(x) => {
                self.visit_expr_mut(&mut x.expr);
                return;
            }
            Expr::Closure(x) => {
                self.visit_expr_mut(&mut x.body);
                return;
            }
            Expr::Match(x) => {
                self.visit_expr_mut(&mut x.expr);
                for a in &mut x.arms {
                    if let Some((_, g)) = &mut a.guard {
                        if !g.to_token_stream().to_string().contains("let ") {
                            let mut gg = (**g).clone();
                            self.condition(&mut gg);
                            *g = Box::new(gg);
                        }
                    }
                    self.visit_expr_mut(&mut a.body);
                }
                return;
            }
            Expr::Lit(l) => {
                if let Lit::Int(i) = &l.lit {
                    let v: u128 = i.base10_parse().unwrap_or(0);
                    let suffix = i.suffix();
                    let up = LitInt::new(&format!("{}{suffix}", v + 1), i.span());
                    self.swap(e, parse_quote!(#up));
                }
                return;
            }
            Expr::Macro(_) | Expr::Path(_) | Expr::Let(_) => return,
            Expr::AssignOp(_) | Expr::Assign(_) | Expr::Reference(_) | Expr::Binary(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Range(_) | Expr::Unary(_) => {}
            _ => {
                visit_expr_mut(self, e);
                return;
            }
        }
        // children first, then this node, each alternative over the plain original
        match e {
            Expr::Field(f) => {
                // places: never behind a switch, as they may be assigned or borrowed
                self.visit_expr_mut(&mut f.base);
                if let (Expr::Field(b), Member::Named(id)) = (&before, &f.member) {
                    if let Some(o) = other(id) {
                        let mut alt = b.clone();
                        alt.member = Member::Named(o);
                        let what = format!("{}  =>  {}", before.to_token_stream(), alt.to_token_stream());
                        if let Some(c) = self.new_mutant(what) {
                            let old = e.clone();
                            *e = parse_quote!((*(if #c { &#alt } else { &#old })));
                        }
                    }
                }
                return;
            }
            Expr::Assign(a) => {
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => return,
            Expr::AssignOp(a) => {
                self.visit_expr_mut(&mut a.right);
                let b = match &before {
                    Expr::AssignOp(b) => b.clone(),
                    _ => unreachable!(),
                };
                for op in binop(&a.op) {
                    let mut alt = b.clone();
                    alt.op = op;
                    self.swap(e, Expr::AssignOp(alt));
                    break;
                }
                return;
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let (Expr::Call(b), Expr::Path(p)) = (&before, &*c.func) {
                    if let Some(o) = other(&p.path.segments.last().unwrap().ident) {
                        let mut alt = b.clone();
                        if let Expr::Path(p) = &mut *alt.func {
                            p.path.segments.last_mut().unwrap().ident = o;
                        }
                        self.swap(e, Expr::Call(alt));
                    }
                }
                return;
            }
            Expr::MethodCall(c) => {
                self.visit_expr_mut(&mut c.receiver);
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let b = match &before {
                    Expr::MethodCall(b) => b.clone(),
                    _ => unreachable!(),
                };
                let name = b.method.to_string();
                if let Some(o) = other(&b.method) {
                    let mut alt = b.clone();
                    alt.method = o;
                    self.swap(e, Expr::MethodCall(alt));
                }
                if ["filter", "rev", "take", "skip", "take_while", "skip_while", "step_by", "chain"].contains(&name.as_str()) {
                    let r = b.receiver.clone();
                    // both branches have their own types: through a vector
                    let what = format!("{}  =>  without {name}", before.to_token_stream());
                    if let Some(c) = self.new_mutant(what) {
                        let old = e.clone();
                        *e = parse_quote!((if #c { (#r).collect::<Vec<_>>().into_iter() } else { (#old).collect::<Vec<_>>().into_iter() }));
                    }
                }
                return;
            }
            Expr::Unary(u) => {
                self.visit_expr_mut(&mut u.expr);
                if let (UnOp::Not(_), Expr::Unary(b)) = (&u.op, &before) {
                    let inner = (*b.expr).clone();
                    self.swap(e, inner);
                }
                return;
            }
            Expr::Range(r) => {
                if let Some(to) = &mut r.to {
                    self.visit_expr_mut(to);
                    if !matches!(**to, Expr::Lit(_)) {
                        let t = (**to).clone();
                        let b = t.clone();
                        let what = format!("range to {}  =>  one less", original(&b));
                        if let Some(c) = self.new_mutant(what) {
                            **to = parse_quote!((if #c { (#b) - 1 } else { #t }));
                        }
                    }
                }
                if let Some(f) = &mut r.from {
                    self.visit_expr_mut(f);
                }
                return;
            }
            Expr::Binary(x) => {
                self.visit_expr_mut(&mut x.left);
                self.visit_expr_mut(&mut x.right);
                let b = match &before {
                    Expr::Binary(b) => b.clone(),
                    _ => unreachable!(),
                };
                let op = x.op.clone();
                for o in binop(&op) {
                    let mut alt = b.clone();
                    alt.op = o;
                    self.swap(e, Expr::Binary(alt));
                }
                if matches!(op, BinOp::And(_) | BinOp::Or(_)) {
                    for side in [(*b.left).clone(), (*b.right).clone()] {
                        self.swap(e, side);
                    }
                }
                // pairs of fields and context constants
                return;
            }
            _ => visit_expr_mut(self, e),
        }
    }
}
fn print(t: TS, o: &mut String) {
    use proc_macro2::{Delimiter::*, Spacing, TokenTree::*};
    for t in t {
        match t {
            Group(g) => {
                let (a, b) = match g.delimiter() {
                    Brace => ("{\n", "\n}\n"),
                    Bracket => ("[", "]"),
                    Parenthesis => ("(", ")"),
                    None => ("", ""),
                };
                o.push_str(a);
                print(g.stream(), o);
                o.push_str(b);
            }
            Punct(p) => {
                o.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    o.push(if p.as_char() == ';' { '\n' } else { ' ' });
                }
            }
            t => {
                o.push_str(&t.to_string());
                o.push(' ');
            }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let off = fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut m = M { file: String::new(), call: quote!(), fun: vec![], next: 1, off, list: String::new(), depth: 0 };
    for l in fs::read_to_string(&a[2]).unwrap().lines() {
        let (file, call) = l.split_once(' ').unwrap();
        m.file = file.into();
        m.call = call.parse().unwrap();
        let p = format!("{}/{file}", a[1]);
        let mut f = parse_file(&fs::read_to_string(&p).unwrap()).unwrap();
        for i in &mut f.items {
            m.visit_item_mut(i);
        }
        fs::write(&p, { let mut o = String::new(); print(f.to_token_stream(), &mut o); o }).unwrap();
    }
    fs::write(&a[4], m.list).unwrap();
}
