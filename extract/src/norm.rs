//! Normalisations before the desugarings: helper functions without a contract are inlined where they are called
//! (so that a caller is verified against what its helper does), and a few spellings of loops are brought to one.
//! On a tree whose functions all have contracts nothing is inlined.
use crate::xform::{pat_idents, strip_refs};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}
#[derive(Default)]
pub struct Helpers {
    pub free: BTreeMap<String, Helper>,
    pub methods: BTreeMap<String, Vec<Helper>>, // by method name
    pub taken: BTreeSet<String>,                // method names that functions with contracts also have
    pub used: BTreeSet<String>,
    pub n: usize,
}

fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        _ => None,
    }
}
struct Exits(bool);
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => {}, _ => visit_mut::visit_expr_mut(self, e) }
    }
}
fn exits_e(e: &Expr) -> bool { let mut x = Exits(false); x.visit_expr_mut(&mut e.clone()); x.0 }
fn exits_s(s: &Stmt) -> bool { let mut x = Exits(false); x.visit_stmt_mut(&mut s.clone()); x.0 }
pub fn words(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => words(g.stream(), out), _ => {} } }
}
fn bound_at_top(stmts: &[Stmt]) -> BTreeSet<String> {
    let mut v = vec![];
    for s in stmts { if let Stmt::Local(l) = s { pat_idents(&l.pat, &mut v); } }
    v.into_iter().map(|i| i.to_string()).collect()
}
fn seal(mut stmts: Vec<Stmt>, rest: &[Stmt]) -> Option<Vec<Stmt>> {
    if rest.is_empty() { return Some(stmts); }
    if !rest.is_empty() {
        let b = bound_at_top(&stmts);
        let mut w = BTreeSet::new();
        for r in rest { words(r.to_token_stream(), &mut w); }
        if b.iter().any(|x| w.contains(x)) { return None; }
    }
    if let Some(Stmt::Expr(e, semi)) = stmts.last_mut() { if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Return(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) { *semi = Some(Default::default()); } }
    stmts.extend(rest.iter().cloned());
    Some(stmts)
}
fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        Expr::Unsafe(b) => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn eblk(stmts: Vec<Stmt>) -> Expr {
    if stmts.len() == 1 { if let Stmt::Expr(e, None) = &stmts[0] { return e.clone(); } }
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(stmts) })
}
/// brings every `return` (and `?`) of a body into tail position, so that the body is an expression
fn tail(stmts: &[Stmt], opt: bool) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        if !exits_s(s) { out.push(s.clone()); continue; }
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr { Some(e) => { let t = tail(&as_stmts(e), opt)?; out.push(Stmt::Expr(eblk(t), None)); } None => {} }
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if exits_e(&f.cond) { return None; }
                let mut f = f.clone();
                f.then_branch = blk(tail(&seal(f.then_branch.stmts.clone(), rest)?, opt)?);
                let els = match &f.else_branch { Some((_, e)) => as_stmts(e), None => vec![] };
                let els = tail(&seal(els, rest)?, opt)?;
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(els) }))));
                out.push(Stmt::Expr(Expr::If(f), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if exits_e(&m.expr) { return None; }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |g| exits_e(&g.1)) { return None; }
                    a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(tail(&seal(as_stmts(&a.body), rest)?, opt)?) }));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(_), _) | Stmt::Expr(Expr::Unsafe(_), _) => {
                let e = if let Stmt::Expr(e, _) = s { e } else { unreachable!() };
                let t = tail(&seal(as_stmts(e), rest)?, opt)?;
                out.extend(t);
                return Some(out);
            }
            Stmt::Expr(Expr::Try(t), semi) => {
                let e = &t.expr;
                if exits_e(e) { return None; }
                let body = if semi.is_some() { blk(tail(rest, opt)?) } else { parse_quote!({ vp_t }) };
                let x: Expr = if opt { parse_quote!(match #e { Some(vp_t) => #body, None => None }) } else { parse_quote!(match #e { Ok(vp_t) => #body, Err(vp_e) => Err(vp_e) }) };
                out.push(Stmt::Expr(x, None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    if exits_e(&init.expr) { return None; }
                    let (e, d, r) = (&init.expr, eblk(tail(&as_stmts(d), opt)?), blk(tail(rest, opt)?));
                    let x: Expr = parse_quote!(match #e { #pat => #r, _ => #d });
                    out.push(Stmt::Expr(x, None));
                    return Some(out);
                }
                let x = leaf(&init.expr, pat, rest, opt)?;
                out.push(Stmt::Expr(x, None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
/// `let pat = e; rest` with the exits of e in tail position
fn leaf(e: &Expr, pat: &Pat, rest: &[Stmt], opt: bool) -> Option<Expr> {
    if !exits_e(e) {
        let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
        v.extend(tail(rest, opt)?);
        return Some(eblk(v));
    }
    match e {
        Expr::Return(r) => Some(match &r.expr { Some(x) => eblk(tail(&as_stmts(x), opt)?), None => parse_quote!(()) }),
        Expr::Paren(p) => leaf(&p.expr, pat, rest, opt),
        Expr::Try(t) => {
            let e = &t.expr;
            if exits_e(e) { return None; }
            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = vp_t;)];
            v.extend(tail(rest, opt)?);
            let b = blk(v);
            Some(if opt { parse_quote!(match #e { Some(vp_t) => #b, None => None }) } else { parse_quote!(match #e { Ok(vp_t) => #b, Err(vp_e) => Err(vp_e) }) })
        }
        Expr::If(f) => {
            if exits_e(&f.cond) { return None; }
            let mut f = f.clone();
            f.then_branch = blk(vec![Stmt::Expr(leaf_block(&f.then_branch.stmts, pat, rest, opt)?, None)]);
            let (_, els) = f.else_branch.as_ref()?;
            let x = leaf_block(&as_stmts(els), pat, rest, opt)?;
            f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(vec![Stmt::Expr(x, None)]) }))));
            Some(Expr::If(f))
        }
        Expr::Match(m) => {
            if exits_e(&m.expr) { return None; }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let x = leaf_block(&as_stmts(&a.body), pat, rest, opt)?;
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(vec![Stmt::Expr(x, None)]) }));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        Expr::Block(_) | Expr::Unsafe(_) => leaf_block(&as_stmts(e), pat, rest, opt),
        _ => None,
    }
}
fn leaf_block(stmts: &[Stmt], pat: &Pat, rest: &[Stmt], opt: bool) -> Option<Expr> {
    let (last, pre) = stmts.split_last()?;
    if pre.iter().any(exits_s) { return None; }
    let b = bound_at_top(pre);
    let mut w = BTreeSet::new();
    for r in rest { words(r.to_token_stream(), &mut w); }
    if b.iter().any(|x| w.contains(x)) { return None; }
    let e = match last { Stmt::Expr(e, None) => e.clone(), Stmt::Expr(Expr::Return(r), Some(_)) => Expr::Return(r.clone()), _ => return None };
    let mut v = pre.to_vec();
    v.push(Stmt::Expr(leaf(&e, pat, rest, opt)?, None));
    Some(eblk(v))
}

/// renames the locals and parameters of an inlined body; parameters bound to places are substituted
struct Rename { map: HashMap<String, String>, subst: HashMap<String, (Expr, Expr)>, slf: Option<Expr>, self_ty: Option<String> }
impl Rename {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut dot = false;
        for t in ts {
            let nd = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
            match t {
                TokenTree::Ident(i) if !dot => {
                    if let Some(n) = self.map.get(&i.to_string()) { out.extend(ident(n).to_token_stream()); }
                    else if let Some((_, b)) = self.subst.get(&i.to_string()) { out.extend(quote::quote!((#b))); }
                    else { out.extend(i.to_token_stream()); }
                }
                TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); out.extend(TokenTree::Group(n).to_token_stream()); }
                t => out.extend(t.to_token_stream()),
            }
            dot = nd;
        }
        out
    }
    fn place(&self, e: &Expr) -> Option<Expr> { path_ident(e).and_then(|n| self.subst.get(&n).map(|x| x.0.clone())) }
}
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `*p`, `p.f`, `p.m()`, `p[i]` for a substituted reference p
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => if let Some(x) = self.place(expr) { *e = x; return; },
            Expr::Field(f) => if let Some(x) = self.place(&f.base) { f.base = Box::new(x); return; },
            Expr::Index(f) => if let Some(x) = self.place(&f.expr) { f.expr = Box::new(x); self.visit_expr_mut(&mut f.index); return; },
            Expr::MethodCall(f) => if let Some(x) = self.place(&f.receiver) { f.receiver = Box::new(x); for a in f.args.iter_mut() { self.visit_expr_mut(a); } return; },
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if n == "self" { if let Some(s) = &self.slf { *e = s.clone(); } return; }
                if let Some(m) = self.map.get(&n) { p.path.segments[0].ident = ident(m); return; }
                if let Some((_, b)) = self.subst.get(&n) { *e = b.clone(); return; }
            }
            Expr::Macro(m) => { m.mac.tokens = self.tokens(m.mac.tokens.clone()); return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_macro_mut(&mut self, m: &mut StmtMacro) { m.mac.tokens = self.tokens(m.mac.tokens.clone()); }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_pat_mut(&mut f.pat); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if let Some(m) = self.map.get(&p.ident.to_string()) { p.ident = ident(m); } if let Some((_, s)) = &mut p.subpat { self.visit_pat_mut(s); } }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let (Some(t), Some(s)) = (&self.self_ty, p.segments.first_mut()) { if s.ident == "Self" { s.ident = ident(t); } }
        visit_mut::visit_path_mut(self, p);
    }
}
/// top-level `let`s that re-bind a parameter get a name of their own, so that the contract's mention of the parameter
/// keeps its meaning throughout the body
pub fn unshadow(b: &mut Block, params: &[String]) {
    let mut map: HashMap<String, String> = HashMap::new();
    for s in b.stmts.iter_mut() {
        if let Stmt::Local(l) = s {
            let mut r = Rename { map: map.clone(), subst: HashMap::new(), slf: None, self_ty: None };
            if let Some(i) = &mut l.init { r.visit_expr_mut(&mut i.expr); if let Some((_, d)) = &mut i.diverge { r.visit_expr_mut(d); } }
            let mut v = vec![];
            pat_idents(&l.pat, &mut v);
            for x in v { let x = x.to_string(); if params.contains(&x) { map.insert(x.clone(), format!("{x}__b")); } }
            let mut r = Rename { map: map.clone(), subst: HashMap::new(), slf: None, self_ty: None };
            r.visit_pat_mut(&mut l.pat);
        } else if !map.is_empty() {
            let mut r = Rename { map: map.clone(), subst: HashMap::new(), slf: None, self_ty: None };
            r.visit_stmt_mut(s);
        }
    }
}
struct Locals(Vec<Ident>);
impl VisitMut for Locals { fn visit_pat_mut(&mut self, p: &mut Pat) { pat_idents(p, &mut self.0); visit_mut::visit_pat_mut(self, p); } }

fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(p) => p.qself.is_none() && p.path.segments.len() == 1, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), _ => false }
}
fn fn_param(gen: &HashMap<String, bool>, t: &Type) -> bool {
    if gen.contains_key(&t.to_token_stream().to_string()) { return true; }
    match t { Type::Reference(r) => fn_param(gen, &r.elem), Type::ImplTrait(i) => i.to_token_stream().to_string().contains("Fn"), _ => false }
}
pub fn inlinable(h: &Helper) -> bool {
    let opt = ret_is(&h.sig, "Option");
    if h.sig.asyncness.is_some() { return false; }
    let mut w = BTreeSet::new(); words(h.block.to_token_stream(), &mut w);
    if w.contains(&h.sig.ident.to_string()) { return false; }
    tail(&h.block.stmts, opt).is_some()
}
fn ret_is(s: &Signature, n: &str) -> bool { if let ReturnType::Type(_, t) = &s.output { crate::xform::type_name(t).starts_with(n) } else { false } }

pub struct Norm<'a> { pub hs: &'a mut Helpers, pub self_ty: Option<String>, pub stack: Vec<String>, pub calls: BTreeSet<String> }
impl<'a> Norm<'a> {
    fn inline(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.stack.len() > 6 || self.stack.contains(&h.key) || !inlinable(h) { return None; }
        let opt = ret_is(&h.sig, "Option");
        let mut body = tail(&h.block.stmts, opt)?;
        self.hs.n += 1;
        let n = self.hs.n;
        let gen = crate::fn_generics(&h.sig.generics);
        let tps: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut map: HashMap<String, String> = HashMap::new();
        let mut subst = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut slf = None;
        let mut ai = args.into_iter();
        let mut pats: Vec<Ident> = vec![];
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let v = match &recv { Some(v) => v.clone(), None => ai.next()? };
                    let v = match (&v, r.reference.is_some()) { (Expr::Reference(x), true) if is_place(&x.expr) => (*x.expr).clone(), _ => v };
                    if !is_place(&v) { return None; }
                    slf = Some(v);
                }
                FnArg::Typed(t) => {
                    let v = ai.next()?;
                    let name = if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None };
                    if fn_param(&gen, &t.ty) {
                        let name = name?;
                        let base = match &v { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                        match &base {
                            Expr::Closure(_) => { let m = format!("{name}__h{n}"); map.insert(name, m.clone()); let id = ident(&m); lets.push(parse_quote!(let #id = #base;)); }
                            b if path_ident(b).is_some() || matches!(b, Expr::Path(_)) => { subst.insert(name, (base.clone(), base)); }
                            _ => return None,
                        }
                        continue;
                    }
                    if let (Some(name), Expr::Reference(r)) = (&name, &v) {
                        if is_place(&r.expr) { subst.insert(name.clone(), ((*r.expr).clone(), v.clone())); continue; }
                    }
                    let mut ids = vec![]; pat_idents(&t.pat, &mut ids);
                    for i in &ids { map.insert(i.to_string(), format!("{i}__h{n}")); }
                    pats.extend(ids);
                    let mut tw = BTreeSet::new(); words(t.ty.to_token_stream(), &mut tw);
                    let mut p = (*t.pat).clone();
                    let mut rn = Rename { map: map.clone(), subst: HashMap::new(), slf: None, self_ty: None };
                    rn.visit_pat_mut(&mut p);
                    let ty = &t.ty;
                    if tw.contains("impl") || tw.contains("Self") || tw.iter().any(|x| tps.contains(x)) || ty.to_token_stream().to_string().contains('&') { lets.push(parse_quote!(let #p = #v;)); }
                    else { lets.push(parse_quote!(let #p: #ty = #v;)); }
                }
            }
        }
        if ai.next().is_some() { return None; }
        let mut loc = Locals(vec![]);
        let mut bb = blk(body.clone());
        loc.visit_block_mut(&mut bb);
        for i in loc.0 { let s = i.to_string(); if !s.starts_with(|c: char| c.is_uppercase()) && !subst.contains_key(&s) { map.entry(s.clone()).or_insert(format!("{s}__h{n}")); } else if subst.contains_key(&s) { return None; } }
        let mut rn = Rename { map, subst, slf, self_ty: h.self_ty.clone() };
        for s in body.iter_mut() { rn.visit_stmt_mut(s); }
        lets.extend(body);
        let mut b = blk(lets);
        self.hs.used.insert(h.key.clone());
        self.stack.push(h.key.clone());
        self.visit_block_mut(&mut b);
        self.stack.pop();
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
    fn method(&self, name: &str, recv: &Expr) -> Option<Helper> {
        let v = self.hs.methods.get(name)?;
        if path_ident(recv).as_deref() == Some("self") {
            if let Some(t) = &self.self_ty { if let Some(h) = v.iter().find(|h| h.self_ty.as_ref() == Some(t)) { return Some(h.clone()); } }
        }
        if v.len() == 1 && !self.hs.taken.contains(name) { Some(v[0].clone()) } else { None }
    }
    fn assoc(&self, p: &syn::Path) -> Option<Helper> {
        let n = p.segments.len();
        let name = p.segments[n - 1].ident.to_string();
        if n >= 2 {
            let t = p.segments[n - 2].ident.to_string();
            let t = if t == "Self" { self.self_ty.clone()? } else { t };
            if t.starts_with(|c: char| c.is_uppercase()) { return self.hs.methods.get(&name)?.iter().find(|h| h.self_ty.as_ref() == Some(&t)).cloned(); }
        }
        self.hs.free.get(&name).cloned()
    }
    /// `loop` whose only way out is the end of an iterator
    fn loops(&mut self, l: &ExprLoop) -> Option<Expr> {
        let is_next = |e: &Expr| matches!(e, Expr::MethodCall(m) if m.method == "next" && m.args.is_empty());
        let is_break = |e: &Expr| match e {
            Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
            Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.label.is_none() && x.expr.is_none()),
            _ => false,
        };
        let some_none = |m: &ExprMatch| -> Option<(Pat, Expr, Expr)> {
            if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) { return None; }
            let mut some = None; let mut none = None;
            for a in &m.arms {
                match &a.pat {
                    Pat::TupleStruct(t) if t.path.segments.last()?.ident == "Some" && t.elems.len() == 1 => some = Some((t.elems[0].clone(), (*a.body).clone())),
                    Pat::Ident(i) if i.ident == "None" => none = Some((*a.body).clone()),
                    Pat::Path(p) if p.path.segments.last()?.ident == "None" => none = Some((*a.body).clone()),
                    Pat::Wild(_) => none = Some((*a.body).clone()),
                    _ => return None,
                }
            }
            let (p, b) = some?;
            Some((p, b, none?))
        };
        let st = &l.body.stmts;
        let label = &l.label;
        let first = st.first()?;
        match first {
            Stmt::Local(loc) => {
                let init = loc.init.as_ref()?;
                let rest = &st[1..];
                let pat = &loc.pat;
                if let Some((_, d)) = &init.diverge {
                    if is_next(&init.expr) && is_break(d) { let e = &init.expr; return Some(parse_quote!(#label while let #pat = #e { #(#rest)* })); }
                    return None;
                }
                if let Expr::Match(m) = &*init.expr {
                    let (p, b, n) = some_none(m)?;
                    if is_next(&m.expr) && is_break(&n) {
                        let e = &m.expr;
                        if let (Pat::Ident(i), Some(x)) = (&p, path_ident(&b)) { if i.ident == x { return Some(parse_quote!(#label while let Some(#pat) = #e { #(#rest)* })); } }
                    }
                }
                None
            }
            Stmt::Expr(Expr::Match(m), _) if st.len() == 1 => {
                let (p, b, n) = some_none(m)?;
                if is_next(&m.expr) && is_break(&n) { let e = &m.expr; let b = as_stmts(&b); return Some(parse_quote!(#label while let Some(#p) = #e { #(#b)* })); }
                // the end of the iterator returns, and nothing else leaves the loop for what follows it
                let ret = match &n { Expr::Return(_) => Some(n.clone()), Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(x @ Expr::Return(_), _) => Some(x.clone()), _ => None }, _ => None };
                if let (true, Some(r), true) = (is_next(&m.expr), ret, label.is_none()) {
                    if !breaks(&b) { let e = &m.expr; let b = as_stmts(&b); return Some(parse_quote!({ while let Some(#p) = #e { #(#b)* } #r })); }
                }
                None
            }
            Stmt::Expr(Expr::If(f), _) if st.len() == 1 => {
                if let (Expr::Let(l), Some((_, e))) = (&*f.cond, &f.else_branch) {
                    if is_next(&l.expr) && is_break(e) { let (p, x, b) = (&l.pat, &l.expr, &f.then_branch.stmts); return Some(parse_quote!(#label while let #p = #x { #(#b)* })); }
                }
                None
            }
            _ => None,
        }
    }
    fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e { if c.inputs.len() == 1 && !exits_e(&c.body) { return Some((c.inputs[0].clone(), (*c.body).clone())); } }
        None
    }
    pub fn body(&mut self, b: &mut Block) {
        // `it.try_for_each(|c| e)` as the value of the function
        if let Some(Stmt::Expr(Expr::MethodCall(m), None)) = b.stmts.last() {
            if m.method == "try_for_each" && m.args.len() == 1 {
                if let Some((p, e)) = Self::closure1(&m.args[0]) {
                    let r = &m.receiver;
                    let v: Vec<Stmt> = vec![parse_quote!(for #p in #r { #e?; }), Stmt::Expr(parse_quote!(Ok(())), None)];
                    b.stmts.pop();
                    b.stmts.extend(v);
                }
            }
        }
        self.visit_block_mut(b);
    }
}
/// every use of the index `i` is `x[i]`, read only; these become `y`
struct ByElement<'a> { i: &'a str, x: &'a str, y: Ident, ok: bool }
impl<'a> ByElement<'a> {
    fn elem(&self, e: &Expr) -> bool { matches!(e, Expr::Index(ix) if path_ident(&ix.expr).as_deref() == Some(self.x) && path_ident(&ix.index).as_deref() == Some(self.i)) }
}
impl<'a> VisitMut for ByElement<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.elem(e) { let y = &self.y; *e = parse_quote!((*#y)); return; }
        match e {
            Expr::Path(_) if path_ident(e).map_or(false, |n| n == self.i || n == self.x) => self.ok = false,
            Expr::Assign(a) if self.elem(&a.left) => self.ok = false,
            Expr::Binary(b) if self.elem(&b.left) && matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)) => self.ok = false,
            Expr::Reference(r) if r.mutability.is_some() && self.elem(&r.expr) => self.ok = false,
            Expr::Continue(_) => { self.ok = false; }
            Expr::Macro(m) => { let mut w = BTreeSet::new(); words(m.mac.tokens.clone(), &mut w); if w.contains(self.i) || w.contains(self.x) { self.ok = false; } }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { let mut w = BTreeSet::new(); words(m.tokens.clone(), &mut w); if w.contains(self.i) || w.contains(self.x) { self.ok = false; } }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.i || p.ident == self.x { self.ok = false; } }
}
/// uses of a name for a place become the place itself, if it is only used as the receiver of calls and for indexing
struct Alias { n: String, place: Expr, ok: bool }
impl VisitMut for Alias {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) if path_ident(&m.receiver).as_deref() == Some(&self.n) => { *m.receiver = self.place.clone(); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
            Expr::Path(_) if path_ident(e).as_deref() == Some(&self.n) => self.ok = false,
            Expr::Macro(m) => { let mut w = BTreeSet::new(); words(m.mac.tokens.clone(), &mut w); if w.contains(&self.n) { self.ok = false; } }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { let mut w = BTreeSet::new(); words(m.tokens.clone(), &mut w); if w.contains(&self.n) { self.ok = false; } }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.n { self.ok = false; } }
}
/// whether a statement assigns to something that mentions one of the words
fn assigns(s: &Stmt, w: &BTreeSet<String>) -> bool {
    struct A<'a>(&'a BTreeSet<String>, bool);
    impl<'a> VisitMut for A<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let l = match &*e { Expr::Assign(a) => Some(&a.left), Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) => Some(&b.left), _ => None };
            if let Some(l) = l { let mut x = BTreeSet::new(); words(l.to_token_stream(), &mut x); x.remove("self"); if x.iter().any(|i| self.0.contains(i)) { self.1 = true; } }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut a = A(w, false);
    a.visit_stmt_mut(&mut s.clone());
    a.1
}
/// a `break` that leaves this loop
fn breaks(e: &Expr) -> bool {
    struct B(bool, usize);
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(b) => { if self.1 == 0 || b.label.is_some() { self.0 = true; } }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.1 += 1; visit_mut::visit_expr_mut(self, e); self.1 -= 1; }
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut b = B(false, 0);
    b.visit_expr_mut(&mut e.clone());
    b.0
}
/// the slice `x` in `x.len()`
fn len_of(e: &Expr) -> Option<String> { if let Expr::MethodCall(m) = e { if m.method == "len" && m.args.is_empty() { return path_ident(&m.receiver); } } None }
/// `let mut i = 0; while i < x.len() { .. x[i] ..; i += 1; }` and `for i in 0..x.len() { .. x[i] .. }` over a local slice
fn by_element(i: &str, x: &str, body: &Block, n: usize) -> Option<Expr> {
    if i == x { return None; }
    let mut b = body.clone();
    let y = ident(&format!("{x}__e{n}"));
    let mut v = ByElement { i, x, y: y.clone(), ok: true };
    v.visit_block_mut(&mut b);
    let x = ident(x);
    v.ok.then(|| parse_quote!(for #y in #x.iter() #b))
}
impl<'a> VisitMut for Norm<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            let found = (|| {
                let Stmt::Local(l) = &b.stmts[k] else { return None };
                let Pat::Ident(pi) = &l.pat else { return None };
                let i = pi.ident.to_string();
                let Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) = &*l.init.as_ref()?.expr else { return None };
                if z.base10_digits() != "0" { return None; }
                let w = match &b.stmts[k + 1] { Stmt::Expr(Expr::While(w), _) if w.label.is_none() => w, _ => return None };
                let Expr::Binary(c) = &*w.cond else { return None };
                if !matches!(c.op, BinOp::Lt(_)) || path_ident(&c.left)? != i { return None; }
                let x = len_of(&c.right)?;
                let mut body = w.body.clone();
                let step = body.stmts.pop()?;
                let Stmt::Expr(Expr::Binary(st), _) = &step else { return None };
                if !matches!(st.op, BinOp::AddAssign(_)) || path_ident(&st.left)? != i { return None; }
                let Expr::Lit(ExprLit { lit: Lit::Int(o), .. }) = &*st.right else { return None };
                if o.base10_digits() != "1" { return None; }
                let mut later = BTreeSet::new();
                for s in &b.stmts[k + 2..] { words(s.to_token_stream(), &mut later); }
                if later.contains(&i) { return None; }
                by_element(&i, &x, &body, k)
            })();
            if let Some(e) = found { b.stmts.splice(k..k + 2, [Stmt::Expr(e, None)]); }
            // `let (_, p) = v.split_at_mut(a);`
            if let Some(Stmt::Local(l)) = b.stmts.get_mut(k) {
                let half = (|| {
                    let Pat::Tuple(t) = &l.pat else { return None };
                    let Expr::MethodCall(m) = &*l.init.as_ref()?.expr else { return None };
                    if (m.method != "split_at_mut" && m.method != "split_at") || m.args.len() != 1 || t.elems.len() != 2 { return None; }
                    let (v, a) = (&m.receiver, &m.args[0]);
                    let mu = (m.method == "split_at_mut").then(|| quote::quote!(mut));
                    match (&t.elems[0], &t.elems[1]) {
                        (Pat::Wild(_), q) => Some((q.clone(), parse_quote!(& #mu #v[#a..]))),
                        (q, Pat::Wild(_)) => Some((q.clone(), parse_quote!(& #mu #v[..#a]))),
                        _ => None,
                    }
                })();
                if let Some((q, e)) = half { let e: Expr = e; l.pat = q; *l.init.as_mut().unwrap().expr = e; }
            }
            // `let p = &mut v[a..]; .. p.sort_by_key(..);`: a name for a part of a vector
            let alias = (|| {
                let Stmt::Local(l) = b.stmts.get(k)? else { return None };
                let Pat::Ident(pi) = &l.pat else { return None };
                let Expr::Reference(r) = &*l.init.as_ref()?.expr else { return None };
                let Expr::Index(ix) = &*r.expr else { return None };
                if r.mutability.is_none() || !matches!(&*ix.index, Expr::Range(_)) { return None; }
                let mut rest = b.stmts[k + 1..].to_vec();
                let mut v = Alias { n: pi.ident.to_string(), place: (*r.expr).clone(), ok: true };
                for s in &mut rest { v.visit_stmt_mut(s); }
                // what the bounds of the part mention is not assigned while the name lives
                let mut w = BTreeSet::new();
                words(ix.index.to_token_stream(), &mut w);
                for s in &rest { if assigns(s, &w) { return None; } }
                v.ok.then_some(rest)
            })();
            if let Some(rest) = alias { b.stmts.truncate(k); b.stmts.extend(rest); continue; }
            k += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Loop(l) => { if let Some(x) = self.loops(&l.clone()) { *e = x; } }
            Expr::ForLoop(f) => {
                if let (Pat::Ident(i), Expr::Range(ExprRange { start: Some(a), limits: RangeLimits::HalfOpen(_), end: Some(b), .. }), None) = (&*f.pat, &*f.expr, &f.label) {
                    if matches!(&**a, Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) if z.base10_digits() == "0") {
                        if let Some(x) = len_of(b) { if let Some(n) = by_element(&i.ident.to_string(), &x, &f.body, 0) { *e = n; return; } }
                    }
                }
                // `for (i, x) in (a..b).enumerate()`
                if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                    let inner = { let mut r = &*m.receiver; while let Expr::Paren(q) = r { r = &q.expr; } r.clone() };
                    let known = match &inner { Expr::Range(r) => matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some(), Expr::MethodCall(i) => i.method == "iter" && i.args.is_empty(), _ => false };
                    if m.method == "enumerate" && t.elems.len() == 2 && known && f.label.is_none() {
                        let (i, x) = (&t.elems[0], &t.elems[1]);
                        let c = ident("vp_n");
                        let body = &f.body.stmts;
                        *e = parse_quote!({ let mut #c: usize = 0; for #x in #inner { let #i = #c; #c += 1; #(#body)* } });
                        return;
                    }
                }
                // `for p in s.iter().copied()`
                if let Expr::MethodCall(m) = &*f.expr {
                    if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() {
                        if let Expr::MethodCall(i) = &*m.receiver { if i.method == "iter" { let p = &f.pat; f.pat = Box::new(parse_quote!(&#p)); f.expr = m.receiver.clone(); } }
                    }
                }
            }
            // `if let Some(p) = v.get_mut(a..) { .. }`
            Expr::If(f) => {
                if let (Expr::Let(l), None) = (&*f.cond, &f.else_branch) {
                    if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                        if t.path.segments.last().map_or(false, |s| s.ident == "Some") && t.elems.len() == 1 && m.method == "get_mut" && m.args.len() == 1 {
                            if let Expr::Range(r) = &m.args[0] {
                                if let (Some(a), None) = (&r.start, &r.end) {
                                    let (p, v, b) = (&t.elems[0], &m.receiver, &f.then_branch.stmts);
                                    let mut x: Expr = parse_quote!(if #a <= #v.len() { let #p = &mut #v[#a..]; #(#b)* });
                                    self.visit_expr_mut(&mut x);
                                    *e = x;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_none() {
                        if let Some(h) = self.assoc(&p.path) { if let Some(x) = self.inline(&h, None, c.args.iter().cloned().collect()) { *e = x; return; } }
                        let n = p.path.segments.len();
                        if n == 2 && p.path.segments[1].ident == "from" && c.args.len() == 1 {
                            let t = p.path.segments[0].ident.to_string();
                            if ["u8", "u16", "u32", "u64", "usize"].contains(&t.as_str()) { let (t, a) = (ident(&t), &c.args[0]); *e = parse_quote!(crate::vp::VpInto::<#t>::vp_into(#a)); return; }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "for_each" && m.args.len() == 1 {
                    if let Some((p, b)) = Self::closure1(&m.args[0]) { let r = &m.receiver; let mut x: Expr = parse_quote!({ for #p in #r { #b; } }); self.visit_expr_mut(&mut x); *e = x; return; }
                    if let Expr::Path(f) = &m.args[0] { let r = &m.receiver; let mut x: Expr = parse_quote!({ for vp_e in #r { #f(vp_e); } }); self.visit_expr_mut(&mut x); *e = x; return; }
                }
                if (name == "sort_by" || name == "sort_unstable_by") && m.args.len() == 1 { if let Some(k) = sort_key(&m.args[0]) { m.method = ident(if name == "sort_by" { "sort_by_key" } else { "sort_unstable_by_key" }); m.args[0] = k; return; } }
                if name == "is_ascii" && m.args.is_empty() { m.method = ident("vp_is_ascii"); return; }
                // a helper in the place of a closure: `x.map(helper)`
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        if let Some(h) = self.assoc(&p.path) {
                            if h.sig.inputs.len() <= 1 && matches!(name.as_str(), "map" | "and_then" | "or_else" | "unwrap_or_else" | "is_some_and" | "map_or" | "map_or_else") {
                                let x: Expr = if h.sig.inputs.is_empty() { parse_quote!(|| #p()) } else { parse_quote!(|vp_a| #p(vp_a)) };
                                let mut x = x;
                                self.visit_expr_mut(&mut x);
                                *a = x;
                            }
                        }
                    }
                }
                if let Some(h) = self.method(&name, &m.receiver) {
                    if h.sig.receiver().is_some() { if let Some(x) = self.inline(&h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()) { *e = x; return; } }
                }
            }
            _ => {}
        }
    }
}
/// `|a, b| key(a).cmp(&key(b))`: the key function
fn sort_key(e: &Expr) -> Option<Expr> {
    let c = match e { Expr::Closure(c) if c.inputs.len() == 2 => c, _ => return None };
    let name = |p: &Pat| match p { Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()), _ => None };
    let (a, b) = (name(&c.inputs[0])?, name(&c.inputs[1])?);
    let m = match &*c.body { Expr::MethodCall(m) if m.method == "cmp" && m.args.len() == 1 => m, _ => return None };
    let y = match &m.args[0] { Expr::Reference(r) => (*r.expr).clone(), _ => return None };
    fn swap(t: TokenStream, a: &Ident, b: &Ident) -> TokenStream {
        t.into_iter().map(|x| match x {
            TokenTree::Ident(i) if i == *a => TokenTree::Ident(b.clone()),
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), swap(g.stream(), a, b))),
            x => x,
        }).collect()
    }
    let x = &m.receiver;
    if swap(x.to_token_stream(), &a, &b).to_string() != y.to_token_stream().to_string() { return None; }
    Some(parse_quote!(|#a| #x))
}
#[allow(dead_code)]
fn unused(p: &mut Pat) { strip_refs(p, &mut vec![]); }
