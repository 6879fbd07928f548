//! The desugarings.
use crate::contracts::{FnC, LoopC};
use crate::{cfg_true, fn_generics, FnReport, Global};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn slice_const(c: &ItemConst) -> Option<(Type, usize)> {
    if let Type::Reference(r) = &*c.ty {
        if let Type::Slice(s) = &*r.elem {
            if let Expr::Reference(e) = &*c.expr {
                if let Expr::Array(a) = &*e.expr { return Some(((*s.elem).clone(), a.elems.len())); }
            }
        }
    }
    None
}
fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn toks(s: &str) -> TokenStream { s.parse().unwrap_or_else(|e| panic!("contract text does not lex: {e}: {s}")) }
fn last_ident(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
fn expr_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => expr_ident(&p.expr),
        Expr::Group(p) => expr_ident(&p.expr),
        _ => None,
    }
}
pub fn type_name(t: &Type) -> String {
    match t {
        Type::Reference(r) => type_name(&r.elem),
        Type::Path(p) => last_ident(&p.path),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

/// paths and types: core/std/alloc -> crate::vp::vcore, TinyVec -> Vec, ArrayVec<[T;N]> -> ArrayVec<T, N>
struct Paths;
fn arr_arg(a: &PathArguments) -> Option<(Type, Expr)> {
    if let PathArguments::AngleBracketed(g) = a {
        if let Some(GenericArgument::Type(Type::Array(t))) = g.args.first() { return Some(((*t.elem).clone(), t.len.clone())); }
    }
    None
}
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if f == "core" || f == "std" || f == "alloc" {
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                let lead: syn::Path = parse_quote!(crate::vp::vcore);
                p.leading_colon = None;
                let mut segs = lead.segments.clone();
                for r in rest { segs.push(r); }
                p.segments = segs;
            } else if f == "char" && p.leading_colon.is_none() && p.segments.len() == 2 && (p.segments[1].ident == "from_u32" || p.segments[1].ident == "from_u32_unchecked") {
                let n = p.segments[1].ident.clone();
                *p = parse_quote!(crate::vp::#n);
            } else if f == "tinyvec" {
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                p.segments = rest.into_iter().collect();
            }
        }
        for s in p.segments.iter_mut() {
            if s.ident == "TinyVec" {
                s.ident = ident("Vec");
                if let Some((t, _)) = arr_arg(&s.arguments) {
                    let c = matches!(&s.arguments, PathArguments::AngleBracketed(a) if a.colon2_token.is_some());
                    s.arguments = if c { PathArguments::AngleBracketed(parse_quote!(::<#t>)) } else { PathArguments::AngleBracketed(parse_quote!(<#t>)) };
                }
            } else if s.ident == "ArrayVec" {
                if let Some((t, n)) = arr_arg(&s.arguments) {
                    let c = matches!(&s.arguments, PathArguments::AngleBracketed(a) if a.colon2_token.is_some());
                    let _ = n;
                    s.ident = ident("Vec");
                    s.arguments = if c { PathArguments::AngleBracketed(parse_quote!(::<#t>)) } else { PathArguments::AngleBracketed(parse_quote!(<#t>)) };
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

#[derive(Clone)]
enum Callable { Path(Expr), Closure(ExprClosure) }

struct X<'a> {
    g: &'a mut Global,
    module: String,
    fname: String,
    fc: FnC,
    params: Vec<String>,
    has_self: bool,
    sinks: BTreeSet<String>,
    callables: HashMap<String, Callable>,
    closures: HashMap<String, ExprClosure>,
    arrayvecs: HashMap<String, (Type, Expr)>,
    n: usize,
    depth: usize,
    used_loops: BTreeSet<usize>,
    lost: Vec<String>,
    calls: BTreeSet<String>,
    need_nodec: bool,
    counter: Option<(String, String)>,
    /// counters and changed locals of the loop being built
    aux: (Vec<String>, BTreeSet<String>),
    unfit: Vec<String>,
    self_ty: Option<String>,
    vars: Vec<(String, String)>,
}

fn subst(text: &str, params: &[String], m: &[(&str, String)]) -> String {
    let mut s = text.to_string();
    let mut m: Vec<_> = m.to_vec();
    m.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    for (k, v) in m { s = s.replace(k, &v); }
    s = s.replace("$r", "vp_r");
    for (i, p) in params.iter().enumerate() { s = s.replace(&format!("${i}"), p); }
    s
}
pub fn pat_idents(p: &Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Ident(i) => { out.push(i.ident.clone()); if let Some((_, s)) = &i.subpat { pat_idents(s, out); } }
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::Struct(s) => s.fields.iter().for_each(|f| pat_idents(&f.pat, out)),
        Pat::Paren(x) => pat_idents(&x.pat, out),
        Pat::Reference(x) => pat_idents(&x.pat, out),
        Pat::Type(x) => pat_idents(&x.pat, out),
        Pat::Or(o) => if let Some(f) = o.cases.first() { pat_idents(f, out) },
        Pat::Slice(s) => s.elems.iter().for_each(|e| pat_idents(e, out)),
        _ => {}
    }
}
/// `&p` -> `p` (default binding modes), with `let x = *x;` for what p binds
pub fn strip_refs(p: &mut Pat, derefs: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            strip_refs(&mut inner, derefs);
            // a wildcard or binding that is an upper-case path is not a binding
            let mut ids = vec![];
            pat_idents(&inner, &mut ids);
            for i in ids { if !i.to_string().starts_with(|c: char| c.is_uppercase()) { derefs.push(i); } }
            *p = inner;
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| strip_refs(e, derefs)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| strip_refs(e, derefs)),
        Pat::Struct(s) => s.fields.iter_mut().for_each(|f| strip_refs(&mut f.pat, derefs)),
        Pat::Paren(x) => strip_refs(&mut x.pat, derefs),
        Pat::Or(o) => o.cases.iter_mut().for_each(|e| strip_refs(e, derefs)),
        Pat::Type(x) => strip_refs(&mut x.pat, derefs),
        _ => {}
    }
}
fn derefs_tokens(d: &[Ident]) -> TokenStream { let mut t = TokenStream::new(); for i in d { t.extend(quote!(let #i = *#i;)); } t }

struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => {}, _ => visit_mut::visit_expr_mut(self, e) }
    }
}

/// a contract names locals of the function by what they hold; here they get the names the code gives them
fn rename_words(ts: TokenStream, vars: &[(String, String)]) -> TokenStream {
    if vars.is_empty() { return ts; }
    ts.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) => { let s = i.to_string(); proc_macro2::TokenTree::Ident(vars.iter().find(|v| v.0 == s).map(|v| ident(&v.1)).unwrap_or(i)) }
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_words(g.stream(), vars))),
        t => t,
    }).collect()
}
/// `@vars`: lines `name = hint | hint`; the local whose declaration has one of the hints, if none has the name itself
fn find_vars(spec: &str, b: &Block, lost: &mut Vec<String>) -> Vec<(String, String)> {
    let mut decls: Vec<(String, String)> = vec![];
    struct V<'a>(&'a mut Vec<(String, String)>);
    impl<'a> VisitMut for V<'a> {
        fn visit_local_mut(&mut self, l: &mut Local) {
            let mut ids = vec![]; pat_idents(&l.pat, &mut ids);
            let m = match &l.pat { Pat::Ident(i) => i.mutability.is_some(), Pat::Type(t) => matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some()), _ => false };
            if m && ids.len() == 1 { self.0.push((ids[0].to_string(), l.to_token_stream().to_string())); }
            visit_mut::visit_local_mut(self, l);
        }
    }
    V(&mut decls).visit_block_mut(&mut b.clone());
    let want: Vec<(String, Vec<String>)> = spec.lines().filter_map(|l| { let (n, h) = l.split_once('=')?; Some((n.trim().to_string(), h.split('|').map(|x| x.trim().to_string()).collect())) }).collect();
    let mut r = vec![];
    let mut free: Vec<_> = decls.iter().filter(|d| !want.iter().any(|w| w.0 == d.0)).cloned().collect();
    for (n, hints) in &want {
        if decls.iter().any(|d| &d.0 == n) { continue; }
        match free.iter().position(|d| hints.iter().any(|h| d.1.contains(h.as_str()))) {
            Some(k) => { let d = free.remove(k); r.push((n.clone(), d.0)); }
            None => lost.push(format!("no local plays the part of `{n}`")),
        }
    }
    r
}

impl<'a> X<'a> {
    fn fresh(&mut self) -> usize { self.n += 1; self.n }
    fn lost(&mut self, s: impl Into<String>) { self.lost.push(s.into()); }

    fn hint(&self, text: &str, m: &[(&str, String)]) -> TokenStream {
        if text.trim().is_empty() { return TokenStream::new(); }
        let mut ps = self.params.clone();
        rename_words(toks(&subst(text, &ps, m)), &self.vars)
    }

    fn pick_loop(&mut self, kind: &str) -> LoopC {
        let d = self.depth;
        let counting = kind == "while" && self.counter.is_some();
        let mut found = None;
        for (i, l) in self.fc.loops.iter().enumerate() {
            let ok = l.sel.split('|').any(|s| {
                let s = s.trim();
                s == kind || (s == "range" && counting) || (kind != "sink" && (s == "any" || s == format!("d{d}") || s == format!("d{d}.{kind}")))
            });
            if ok { found = Some(i); break; }
        }
        match found {
            Some(i) => { self.used_loops.insert(i); self.fc.loops[i].clone() }
            None => { self.lost(format!("{kind} loop at depth {d} has no invariant in the contract")); LoopC::default() }
        }
    }

    /// assembles `{ pre; loop inv { start match next { None => break, Some(x) => { body end } } } after }`
    fn build_loop(&mut self, kind: &str, label: &Option<Label>, setup: TokenStream, itname: Option<Ident>, next: TokenStream, pat: Pat, body: TokenStream) -> Expr {
        let lc = self.pick_loop(kind);
        let id = self.fresh();
        let x = format_ident!("vp_x{}", id);
        let (p, s) = (format_ident!("vp_p{}", id), format_ident!("vp_s{}", id));
        let all = format!("{}{}{}{}{}", lc.pre, lc.inv, lc.start, lc.end, lc.after);
        let mut m = vec![("$x", x.to_string()), ("$p", p.to_string()), ("$s", s.to_string())];
        if let Some(i) = &itname { m.push(("$it", i.to_string())); }
        let pre_snap = if all.contains("$p") { quote!(let ghost #p = *self;) } else { quote!() };
        let it_snap = if let (Some(i), true) = (&itname, all.contains("$it0")) { let z = format_ident!("{}_0", i); m.push(("$it0", z.to_string())); quote!(let ghost #z = #i;) } else { quote!() };
        let s_snap = if all.contains("$s") { quote!(let ghost #s = *self;) } else { quote!() };
        let mut inv = self.hint(&lc.inv, &m);
        let (aux, changed) = std::mem::take(&mut self.aux);
        let mut it_snap = it_snap;
        let mut fit = vec![];
        if let (Some(i), Some(f)) = (&itname, match kind { "range" => Some("cur"), "sink" => Some("pos"), _ => None }) {
            for j in &aux {
                let (z, y, f, j) = (format_ident!("vp_c{}_{}", id, j), format_ident!("vp_i{}_{}", id, j), ident(f), ident(j));
                it_snap.extend(quote!(let ghost #z = #j; let ghost #y = #i.#f;));
                fit.push(quote!((#j as int) - (#z as int) == (#i.#f as int) - (#y as int)));
            }
            inv = with_aux(inv, &fit);
        }
        self.check_fit(kind, &inv, &changed);
        if !lc.inv.contains("decreases") { self.need_nodec = true; }
        let pre = self.hint(&lc.pre, &m);
        let (start, end, after) = (self.hint(&lc.start, &m), self.hint(&lc.end, &m), self.hint(&lc.after, &m));
        let wrap = |t: TokenStream| if t.is_empty() { quote!() } else { quote!(proof { #t }) };
        let (start, end, after) = (wrap(start), wrap(end), wrap(after));
        let mut pat = pat;
        let mut dr = vec![];
        strip_refs(&mut pat, &mut dr);
        let dr = derefs_tokens(&dr);
        Expr::Verbatim(quote!({ #setup #pre_snap #it_snap #pre #label loop #inv { #s_snap match #next { None => break, Some(#x) => { #start let #pat = #x; #dr #body; #end } } } #after }))
    }

    fn into_iter(&mut self, e: &Expr) -> TokenStream {
        match e {
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => quote!(crate::vp::RangeIter::new(#a, #b)),
            Expr::Paren(p) => self.into_iter(&p.expr),
            _ => quote!(crate::vp::vp_into_iter(#e)),
        }
    }

    fn closure_apply(&mut self, c: &ExprClosure, args: Vec<TokenStream>) -> TokenStream {
        let mut c = c.clone();
        let mut hr = HasReturn(false);
        hr.visit_expr_mut(&mut c.body);
        if hr.0 { self.lost("closure with return"); }
        let mut t = TokenStream::new();
        for (p, a) in c.inputs.iter_mut().zip(args) {
            let mut d = vec![];
            let ty = if let Pat::Type(pt) = p { let ty = pt.ty.clone(); let pat = (*pt.pat).clone(); *p = pat; Some(ty) } else { None };
            strip_refs(p, &mut d);
            let d = derefs_tokens(&d);
            let ty = ty.map(|t| quote!(: #t));
            t.extend(quote!(let #p #ty = #a; #d));
        }
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        quote!({ #t #body })
    }

    fn callable_of(&mut self, e: &Expr) -> Callable {
        match e {
            Expr::Closure(c) => Callable::Closure(c.clone()),
            Expr::Reference(r) => self.callable_of(&r.expr),
            _ => {
                if let Some(i) = expr_ident(e) {
                    if let Some(c) = self.closures.get(&i) { return Callable::Closure(c.clone()); }
                    if let Some(c) = self.callables.get(&i) { return c.clone(); }
                    if let Some(h) = self.g.helpers.free.get(&i).cloned() {
                        let ps: Vec<Ident> = (0..h.sig.inputs.len()).map(|k| format_ident!("vp_a{}", k)).collect();
                        let mut x: Expr = parse_quote!(|#(#ps),*| #e(#(#ps),*));
                        let st = self.self_ty.clone();
                        let mut n = crate::norm::Norm { hs: &mut self.g.helpers, self_ty: st, stack: vec![], calls: Default::default() };
                        n.visit_expr_mut(&mut x);
                        if let Expr::Closure(c) = &x { if !matches!(&*c.body, Expr::Call(_)) { return Callable::Closure(c.clone()); } }
                    }
                }
                Callable::Path(e.clone())
            }
        }
    }
    fn apply(&mut self, c: &Callable, args: Vec<TokenStream>) -> TokenStream {
        match c {
            Callable::Path(p) => { if let Expr::Path(pp) = p { self.calls.insert(last_ident(&pp.path)); } quote!(#p(#(#args),*)) }
            Callable::Closure(c) => self.closure_apply(c, args),
        }
    }

    /// a reference to e, with range indexing turned into slice calls handled by vstd
    fn visit_call(&mut self, c: &mut ExprCall) -> Option<Expr> {
        let name = match &*c.func { Expr::Path(p) => last_ident(&p.path), Expr::Paren(p) => expr_ident(&p.expr).unwrap_or_default(), _ => String::new() };
        let single = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1) || matches!(&*c.func, Expr::Paren(_));
        // a call of the sink parameter
        if single && self.sinks.contains(&name) && c.args.len() == 1 {
            self.visit_expr_mut(&mut c.args[0]);
            let a = &c.args[0];
            let f = ident(&name);
            return Some(Expr::Verbatim(quote!(#f.push(#a))));
        }
        if single {
            if let Some(cl) = self.callables.get(&name).cloned().or_else(|| self.closures.get(&name).cloned().map(Callable::Closure)) {
                let mut args = vec![];
                for a in c.args.iter_mut() { self.visit_expr_mut(a); args.push(a.to_token_stream()); }
                let t = self.apply(&cl, args);
                return Some(Expr::Verbatim(t));
            }
        }
        let (sink_params, call_params, spec) = match self.g.fns.get(&name) {
            Some(f) if f.sink_params.iter().chain(&f.call_params).all(|i| *i < c.args.len()) => (f.sink_params.clone(), f.call_params.clone(), f.specialize),
            _ => return None,
        };
        if sink_params.is_empty() && !spec { return None; }
        // specialise
        let mut drop_args: BTreeSet<usize> = BTreeSet::new();
        let mut func = (*c.func).clone();
        if spec {
            let (m, item) = self.g.fns[&name].item.clone().unwrap();
            let mut names = vec![];
            for a in &item.sig.inputs { if let FnArg::Typed(t) = a { let mut v = vec![]; pat_idents(&t.pat, &mut v); names.push(v.first().map(|x| x.to_string()).unwrap_or_default()); } }
            let mut cs = HashMap::new();
            for &i in &call_params { let cl = self.callable_of(&c.args[i]); cs.insert(names[i].clone(), cl); drop_args.insert(i); }
            let mut inst = format!("{}__{}", name, self.fname);
            while !self.g.inst_names.insert(inst.clone()) { inst.push_str("_b"); }
            let mut it = item.clone();
            it.sig.ident = ident(&inst);
            let key = format!("{m}::{inst}");
            let text = emit_fn(self.g, &m, &key, true, it.sig, Some(*it.block), &cs, false, true);
            self.g.instances.entry(m.clone()).or_default().push((inst.clone(), text));
            let mi: syn::Path = parse_str(&m).unwrap();
            let ii = ident(&inst);
            func = if m == "lib" { parse_quote!(crate::#ii) } else { parse_quote!(crate::#mi::#ii) };
            self.calls.insert(inst);
        } else { self.calls.insert(name.clone()); }
        // sink arguments
        let mut pre = TokenStream::new();
        let mut post: Option<(Ident, ExprClosure)> = None;
        let mut args: Vec<TokenStream> = vec![];
        for (i, a) in c.args.iter_mut().enumerate() {
            if drop_args.contains(&i) { continue; }
            if sink_params.contains(&i) {
                let base = match &*a { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                if let Some(n) = expr_ident(&base) {
                    if self.sinks.contains(&n) { let n = ident(&n); args.push(quote!(#n)); continue; }
                }
                let cl = match &base {
                    Expr::Closure(cl) => Some(cl.clone()),
                    b => expr_ident(b).and_then(|n| self.closures.get(&n).cloned()),
                };
                match cl {
                    Some(cl) => {
                        let s = format_ident!("vp_sink{}", self.fresh());
                        pre.extend(quote!(let mut #s: Vec<char> = Vec::new();));
                        args.push(quote!(&mut #s));
                        post = Some((s, cl));
                    }
                    None => { self.lost("sink argument is not a closure"); args.push(a.to_token_stream()); }
                }
                continue;
            }
            self.visit_expr_mut(a);
            args.push(a.to_token_stream());
        }
        self.visit_expr_mut(&mut func);
        let call = quote!(#func(#(#args),*));
        match post {
            None => Some(Expr::Verbatim(call)),
            Some((s, cl)) => {
                let it = format_ident!("vp_it{}", self.fresh());
                let px = format_ident!("vp_d{}", self.fresh());
                let body = self.closure_apply(&cl, vec![quote!(#px)]);
                let setup = quote!(#pre #call; let mut #it = crate::vp::VecIter::new(#s););
                self.aux = { let x = (*cl.body).clone(); loop_locals(&match x { Expr::Block(b) => b.block, x => parse_quote!({ #x; }) }) };
                Some(self.build_loop("sink", &None, setup, Some(it.clone()), quote!(#it.next()), parse_quote!(#px), body))
            }
        }
    }

    fn option_comb(&mut self, m: &mut ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let lit = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
        let n = m.args.len();
        let r = match (name.as_str(), n) {
            ("or_else", 1) | ("map", 1) | ("and_then", 1) | ("unwrap_or_else", 1) | ("is_some_and", 1) | ("filter", 1) | ("is_none_or", 1) if lit(&m.args[0]) => 1,
            ("map_or", 2) if lit(&m.args[1]) => 2,
            ("map_or_else", 2) if lit(&m.args[0]) && lit(&m.args[1]) => 3,
            ("unwrap_or", 1) | ("or", 1) | ("unwrap_or_default", 0) => 4,
            _ => return None,
        };
        let _ = r;
        let mut recv = (*m.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let v = format_ident!("vp_o{}", self.fresh());
        let cal: Vec<Callable> = m.args.iter().map(|a| self.callable_of(a)).collect();
        let t = match name.as_str() {
            "or_else" => { let e = self.apply(&cal[0], vec![]); quote!(match #recv { Some(#v) => Some(#v), None => #e }) }
            "map" => { let e = self.apply(&cal[0], vec![quote!(#v)]); quote!(match #recv { Some(#v) => Some(#e), None => None }) }
            "and_then" => { let e = self.apply(&cal[0], vec![quote!(#v)]); quote!(match #recv { Some(#v) => #e, None => None }) }
            "unwrap_or_else" => { let e = self.apply(&cal[0], vec![]); quote!(match #recv { Some(#v) => #v, None => #e }) }
            "is_some_and" => { let e = self.apply(&cal[0], vec![quote!(#v)]); quote!(match #recv { Some(#v) => #e, None => false }) }
            "is_none_or" => { let e = self.apply(&cal[0], vec![quote!(#v)]); quote!(match #recv { Some(#v) => #e, None => true }) }
            "filter" => { let e = self.apply(&cal[0], vec![quote!((&#v))]); quote!(match #recv { Some(#v) => if #e { Some(#v) } else { None }, None => None }) }
            "map_or" => { let mut d = m.args[0].clone(); self.visit_expr_mut(&mut d); let e = self.apply(&cal[1], vec![quote!(#v)]); quote!(match #recv { Some(#v) => #e, None => #d }) }
            "map_or_else" => { let d = self.apply(&cal[0], vec![]); let e = self.apply(&cal[1], vec![quote!(#v)]); quote!(match #recv { Some(#v) => #e, None => #d }) }
            "unwrap_or" => { let mut d = m.args[0].clone(); self.visit_expr_mut(&mut d); quote!(match #recv { Some(#v) => #v, None => #d }) }
            "or" => { let mut d = m.args[0].clone(); self.visit_expr_mut(&mut d); quote!(match #recv { Some(#v) => Some(#v), None => #d }) }
            _ => quote!(match #recv { Some(#v) => #v, None => Default::default() }),
        };
        Some(Expr::Verbatim(quote!((#t))))
    }

    fn visit_method(&mut self, m: &mut ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        self.calls.insert(name.clone());
        // stable sorts: the key function is handed to the specification as a mathematical function
        if (name == "sort_by_key" || name == "sort_unstable_by_key" || name == "sort_by_cached_key") && m.args.len() == 1 {
            let stable = name != "sort_unstable_by_key";
            if let Callable::Closure(cl) = self.callable_of(&m.args[0]) {
                let (mut base, range) = match &*m.receiver {
                    Expr::Index(ix) => match &*ix.index { Expr::Range(r) => ((*ix.expr).clone(), Some(r.clone())), _ => ((*m.receiver).clone(), None) },
                    e => (e.clone(), None),
                };
                self.visit_expr_mut(&mut base);
                let (mut a, mut b): (Expr, Option<Expr>) = (parse_quote!(0), None);
                if let Some(r) = range {
                    if let Some(s) = r.start { a = *s; }
                    if let Some(e) = r.end { b = Some(*e); if matches!(r.limits, RangeLimits::Closed(_)) { self.lost("inclusive range"); } }
                }
                self.visit_expr_mut(&mut a);
                if let Some(x) = &mut b { self.visit_expr_mut(x); }
                let mut p = cl.inputs[0].clone();
                if let Pat::Type(pt) = &p { p = (*pt.pat).clone(); }
                let mut d = vec![]; strip_refs(&mut p, &mut d);
                let body = &cl.body;
                let f = ident(match (stable, b.is_some()) { (true, false) => "sort_suffix_by_key", (true, true) => "sort_range_by_key", (false, false) => "sort_unstable_suffix_by_key", (false, true) => "sort_unstable_range_by_key" });
                let b = b.map(|x| quote!(#x,));
                let q = format_ident!("vp_k{}", self.fresh());
                return Some(Expr::Verbatim(quote!(crate::vp::#f(&mut #base, #a, #b Ghost(|#q: (u8, char)| { let #p = #q; (#body) as int })))));
            }
            self.lost("sort key is not a closure");
            return None;
        }
        if (name == "drain" && m.args.len() == 1) || (name == "copy_within" && m.args.len() == 2) {
            if let Expr::Range(r) = &m.args[0] {
                if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    let mut base = (*m.receiver).clone();
                    self.visit_expr_mut(&mut base);
                    let mut a: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                    let mut b: Expr = r.end.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| { let q = &m.receiver; parse_quote!(#q.len()) });
                    self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                    if name == "drain" { return Some(Expr::Verbatim(quote!({ let (vp_a, vp_b) = (#a, #b); crate::vp::drain_range(&mut #base, vp_a, vp_b) }))); }
                    let mut d = m.args[1].clone(); self.visit_expr_mut(&mut d);
                    return Some(Expr::Verbatim(quote!({ let (vp_a, vp_b, vp_d) = (#a, #b, #d); crate::vp::copy_within(&mut #base, vp_a, vp_b, vp_d) })));
                }
            }
        }
        if let Some(e) = self.option_comb(m) { return Some(e); }
        if name == "push" && m.args.len() == 1 {
            if let Some(i) = expr_ident(&m.receiver) {
                if let Some((t, n)) = self.arrayvecs.get(&i).cloned() {
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    let r = &m.receiver;
                    return Some(Expr::Verbatim(quote!(crate::vp::arrayvec_push::<#t, {#n}>(&mut #r, #a))));
                }
            }
        }
        if name == "swap" && m.args.len() == 2 {
            let mut v = (*m.receiver).clone();
            self.visit_expr_mut(&mut v);
            let (mut a, mut b) = (m.args[0].clone(), m.args[1].clone());
            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
            return Some(Expr::Verbatim(quote!({ let (vp_a, vp_b) = (#a, #b); crate::vp::vec_swap(&mut #v, vp_a, vp_b) })));
        }
        if m.args.is_empty() {
            let to = match name.as_str() { "into" => "vp_into", "clone" => "vp_clone", "chars" => "vp_chars", "is_empty" => "vp_is_empty", "len_utf8" => "vp_len_utf8", "is_ascii" => "vp_is_ascii", "into_iter" | "iter" => "vp_into_iter", _ => "" };
            if !to.is_empty() { m.method = ident(if name == "iter" { "vp_iter" } else { to }); }
        }
        None
    }

    /// a local that a loop changes, and of which its invariant says nothing: the annotations do not fit
    fn check_fit(&mut self, kind: &str, inv: &TokenStream, changed: &BTreeSet<String>) {
        if inv.is_empty() { return; }
        let mut w = BTreeSet::new();
        crate::norm::words(inv.clone(), &mut w);
        for c in changed { if !w.contains(c) { self.unfit.push(format!("the invariant of the {kind} loop does not speak of `{c}`, which the loop changes")); } }
    }

    fn loop_body(&mut self, b: &mut Block) -> TokenStream {
        self.depth += 1;
        self.visit_block_mut(b);
        self.depth -= 1;
        b.to_token_stream()
    }

    fn plain_loop(&mut self, kind: &str, label: &Option<Label>, head: TokenStream, mut body: Block, is_tail_diverging: bool) -> Expr {
        let lc = self.pick_loop(kind);
        let id = self.fresh();
        let (p, s) = (format_ident!("vp_p{}", id), format_ident!("vp_s{}", id));
        let all = format!("{}{}{}{}{}", lc.pre, lc.inv, lc.start, lc.end, lc.after);
        let mut m = vec![("$p", p.to_string()), ("$s", s.to_string())];
        let mut c_snap = quote!();
        let mut the_counter = None;
        if let (true, Some((i, n))) = (kind == "while", self.counter.take()) {
            the_counter = Some(i.clone());
            if all.contains("$it0.cur") { let (z, c) = (format_ident!("vp_c{}", id), ident(&i)); c_snap = quote!(let ghost #z = #c;); m.push(("$it0.cur", z.to_string())); }
            m.push(("$it.cur", i)); m.push(("$it.end", format!("({n})"))); m.push(("$it0.end", format!("({n})")));
        }
        let s_snap = if all.contains("$s") { quote!(let ghost #s = *self;) } else { quote!() };
        if !lc.inv.contains("decreases") { self.need_nodec = true; }
        let wrap = |t: TokenStream| if t.is_empty() { quote!() } else { quote!(proof { #t }) };
        let mut inv = self.hint(&lc.inv, &m);
        let (aux, changed) = loop_locals(&body);
        if let Some(c) = &the_counter {
            let mut fit = vec![];
            if aux.contains(c) {
                let i = ident(c);
                for j in aux.iter().filter(|j| *j != c) {
                    let (z, y, j) = (format_ident!("vp_c{}_{}", id, j), format_ident!("vp_i{}_{}", id, j), ident(j));
                    c_snap.extend(quote!(let ghost #z = #j; let ghost #y = #i;));
                    fit.push(quote!((#j as int) - (#z as int) == (#i as int) - (#y as int)));
                }
            }
            inv = with_aux(inv, &fit);
        }
        self.check_fit(kind, &inv, &changed);
        let pre_snap = if all.contains("$p") { quote!(let ghost #p = *self; #c_snap) } else { c_snap };
        let pre = self.hint(&lc.pre, &m);
        let (start, end, after) = (wrap(self.hint(&lc.start, &m)), wrap(self.hint(&lc.end, &m)), wrap(self.hint(&lc.after, &m)));
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        // a trailing expression of type () becomes a statement
        let stmts = &body.stmts;
        let st = body_stmts(stmts);
        let l = quote!(#label #head #inv { #s_snap #start #st #end });
        if pre_snap.is_empty() && pre.is_empty() && after.is_empty() { return Expr::Verbatim(l); }
        if is_tail_diverging { return Expr::Verbatim(quote!({ #pre_snap #pre #l })); }
        Expr::Verbatim(quote!({ #pre_snap #pre #l #after }))
    }
}
/// adds to the invariants of a loop
fn with_aux(inv: TokenStream, fit: &[TokenStream]) -> TokenStream {
    if fit.is_empty() { return inv; }
    let mut it = inv.clone().into_iter();
    match it.next() {
        Some(proc_macro2::TokenTree::Ident(i)) if i == "invariant" => { let rest: TokenStream = it.collect(); quote!(invariant #(#fit),*, #rest) }
        _ => inv,
    }
}
/// the locals of the surroundings that a loop body changes; those that every iteration increments by one
fn loop_locals(b: &Block) -> (Vec<String>, BTreeSet<String>) {
    #[derive(Default)]
    struct L { hits: Vec<String>, own: BTreeSet<String>, cont: bool }
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match &*e {
                Expr::Assign(a) => { if let Some(i) = expr_ident(&a.left) { self.hits.push(i); } if let Expr::Tuple(t) = &*a.left { for x in &t.elems { if let Some(i) = expr_ident(x) { self.hits.push(i); } } } }
                Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) => { if let Some(i) = expr_ident(&b.left) { self.hits.push(i); } }
                Expr::Reference(r) if r.mutability.is_some() => { if let Some(i) = expr_ident(&r.expr) { self.hits.push(i); } }
                Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "push" | "pop" | "clear" | "truncate" | "take" | "insert" | "replace" | "get_or_insert" | "extend" | "swap" | "remove") => { if let Some(i) = expr_ident(&m.receiver) { self.hits.push(i); } }
                Expr::Continue(_) => self.cont = true,
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.own.insert(p.ident.to_string()); }
    }
    let mut l = L::default();
    let mut c = b.clone();
    l.visit_block_mut(&mut c);
    let changed: BTreeSet<String> = l.hits.iter().filter(|h| !l.own.contains(*h) && *h != "self").cloned().collect();
    let mut aux = vec![];
    let mut early = true;
    for s in &b.stmts {
        if let Stmt::Expr(Expr::Binary(x), _) = s {
            if let (BinOp::AddAssign(_), Some(i), Expr::Lit(ExprLit { lit: Lit::Int(o), .. })) = (&x.op, expr_ident(&x.left), &*x.right) {
                if o.base10_digits() == "1" && changed.contains(&i) && l.hits.iter().filter(|h| **h == i).count() == 1 && (early || !l.cont) { aux.push(i); }
            }
        }
        // before anything that may skip the rest of the iteration
        if !matches!(s, Stmt::Local(_)) && !matches!(s, Stmt::Expr(Expr::Binary(_), _)) { early = false; }
    }
    (aux, changed)
}
fn body_stmts(stmts: &[Stmt]) -> TokenStream {
    let mut t = TokenStream::new();
    for (i, s) in stmts.iter().enumerate() {
        s.to_tokens(&mut t);
        if i + 1 == stmts.len() { if let Stmt::Expr(_, None) = s { t.extend(quote!(;)); } }
    }
    t
}
struct HasBreak(bool, usize);
impl VisitMut for HasBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) => { if self.1 == 0 || b.label.is_some() { self.0 = true; } }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.1 += 1; visit_mut::visit_expr_mut(self, e); self.1 -= 1; }
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

impl<'a> VisitMut for X<'a> {
    fn visit_item_mut(&mut self, _i: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        let pid = match &l.pat { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None }, _ => None };
                        if let (Some(n), Expr::Closure(c)) = (&pid, &*init.expr) { self.closures.insert(n.clone(), c.clone()); continue; }
                        // ArrayVec locals
                        if let Some(n) = &pid {
                            let t = init.expr.to_token_stream().to_string();
                            if t.contains("ArrayVec") {
                                let mut got = None;
                                if let Expr::Call(c) = &*init.expr { if let Expr::Path(p) = &*c.func { for sg in &p.path.segments { if sg.ident == "ArrayVec" { got = arr_arg(&sg.arguments); } } } }
                                if got.is_none() { if let Pat::Type(pt) = &l.pat { if let Type::Path(tp) = &*pt.ty { got = arr_arg(&tp.path.segments.last().unwrap().arguments); } } }
                                match got { Some(x) => { self.arrayvecs.insert(n.clone(), x); } None => self.lost("ArrayVec of unknown capacity") }
                            }
                        }
                        if let Some((_, d)) = init.diverge.take() {
                            let mut e = (*init.expr).clone(); let mut d = (*d).clone();
                            self.visit_expr_mut(&mut e); self.visit_expr_mut(&mut d);
                            let mut p = l.pat.clone(); let mut dr = vec![]; strip_refs(&mut p, &mut dr);
                            let mut ids = vec![]; pat_idents(&p, &mut ids);
                            let dr = derefs_tokens(&dr);
                            let st: TokenStream = quote!(let (#(#ids),*) = match #e { #p => { #dr (#(#ids),*) } _ => #d };);
                            out.push(Stmt::Expr(Expr::Verbatim(st), None));
                            continue;
                        }
                    }
                    let mut dr = vec![];
                    strip_refs(&mut l.pat, &mut dr);
                    if let Pat::Type(t) = &mut l.pat { Paths.visit_type_mut(&mut t.ty); }
                    if let Some(init) = &mut l.init { self.visit_expr_mut(&mut init.expr); }
                    let attrs = std::mem::take(&mut l.attrs); let _ = attrs;
                    out.push(s);
                    for i in dr { out.push(parse_quote!(let #i = *#i;)); }
                }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let semi = m.semi_token;
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Expr(e, _) => { self.visit_expr_mut(e); out.push(s); }
                Stmt::Item(Item::Use(u)) => { Paths.visit_item_use_mut(u); out.push(s); }
                Stmt::Item(i) => { let n = i.to_token_stream().to_string(); if let Item::Const(c) = i { c.attrs.clear(); out.push(s); } else { self.lost(format!("nested item {}", &n[..n.len().min(40)])); out.push(s); } }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // desugarings that look at the children before they are transformed
        match e {
            Expr::Paren(p) => { self.visit_expr_mut(&mut p.expr); return; }
            Expr::ForLoop(f) => {
                let label = f.label.clone();
                let kind; let setup; let next; let mut itn = None;
                let mut direct = None;
                match &*f.expr {
                    Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => direct = Some((*m.receiver).clone()),
                    Expr::Reference(r) if r.mutability.is_some() => direct = Some((*r.expr).clone()),
                    _ => {}
                }
                if let Some(mut d) = direct {
                    self.visit_expr_mut(&mut d);
                    kind = "iter"; setup = quote!(); next = quote!(#d.next());
                } else {
                    kind = if matches!(&*f.expr, Expr::Range(_)) { "range" } else { "iter" };
                    let mut ex = (*f.expr).clone();
                    if let Expr::Range(r) = &mut ex { if let Some(a) = &mut r.start { self.visit_expr_mut(a); } if let Some(b) = &mut r.end { self.visit_expr_mut(b); } }
                    else { self.visit_expr_mut(&mut ex); }
                    let it = format_ident!("vp_it{}", self.fresh());
                    let init = self.into_iter(&ex);
                    setup = quote!(let mut #it = #init;); next = quote!(#it.next()); itn = Some(it);
                }
                let mut body = f.body.clone();
                let b = self.loop_body(&mut body);
                self.aux = loop_locals(&f.body);
                *e = self.build_loop(kind, &label, setup, itn, next, (*f.pat).clone(), b);
                return;
            }
            Expr::While(w) => {
                let label = w.label.clone();
                if let Expr::Let(l) = &*w.cond {
                    // while let Some(p) = E { B }
                    if let Pat::TupleStruct(ts) = &*l.pat {
                        if last_ident(&ts.path) == "Some" && ts.elems.len() == 1 {
                            let mut ex = (*l.expr).clone();
                            self.visit_expr_mut(&mut ex);
                            let mut irrefutable = true;
                            if let Pat::Lit(_) | Pat::TupleStruct(_) | Pat::Range(_) | Pat::Path(_) | Pat::Or(_) = &ts.elems[0] { irrefutable = false; }
                            if irrefutable {
                                let mut body = w.body.clone();
                                let b = self.loop_body(&mut body);
                                self.aux = loop_locals(&w.body);
                                let itn = if let Expr::MethodCall(m) = &*l.expr { if m.method == "next" { expr_ident(&m.receiver).map(|s| ident(&s)) } else { None } } else { None };
                                *e = self.build_loop("iter", &label, quote!(), itn, ex.to_token_stream(), ts.elems[0].clone(), b);
                                return;
                            }
                        }
                    }
                    let (mut pat, mut ex, mut body) = ((*l.pat).clone(), (*l.expr).clone(), w.body.clone());
                    let mut dr = vec![]; strip_refs(&mut pat, &mut dr); let dr = derefs_tokens(&dr);
                    let _ = &mut ex;
                    let nb: Block = { let st = std::mem::take(&mut body.stmts); parse_quote!({ if let #pat = #ex { #dr #(#st)* } else { break; } }) };
                    *e = self.plain_loop("while", &label, quote!(loop), nb, false);
                    return;
                }
                let mut cond = (*w.cond).clone();
                // `while i < n`: the contract of a counting loop speaks of it
                self.counter = match &cond { Expr::Binary(b) if matches!(b.op, BinOp::Lt(_)) => expr_ident(&b.left).map(|i| (i, b.right.to_token_stream().to_string())), Expr::Binary(b) if matches!(b.op, BinOp::Gt(_)) => expr_ident(&b.right).map(|i| (i, b.left.to_token_stream().to_string())), _ => None };
                self.visit_expr_mut(&mut cond);
                let body = w.body.clone();
                *e = self.plain_loop("while", &label, quote!(while #cond), body, false);
                return;
            }
            Expr::Loop(l) => {
                let mut hb = HasBreak(false, 0);
                let mut b2 = l.body.clone();
                hb.visit_block_mut(&mut b2);
                let (label, body) = (l.label.clone(), l.body.clone());
                *e = self.plain_loop("loop", &label, quote!(loop), body, !hb.0);
                return;
            }
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::Call(c) => { if let Some(r) = self.visit_call(c) { *e = r; return; } }
            Expr::MethodCall(m) => { if let Some(r) = self.visit_method(m) { *e = r; return; } }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr { self.visit_expr_mut(x); }
                if !self.fc.exit.trim().is_empty() {
                    let h = self.hint(&self.fc.exit.clone(), &[]);
                    let x = r.expr.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(()));
                    *e = Expr::Verbatim(quote!({ let vp_r = #x; proof { #h } return vp_r; }));
                }
                return;
            }
            Expr::Macro(m) => {
                let n = last_ident(&m.mac.path);
                let ts = m.mac.tokens.clone();
                match n.as_str() {
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                                let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                                let _ = i.parse::<Token![,]>();
                                Ok(M(e, p, g))
                            }
                        }
                        if let Ok(M(x, p, g)) = syn::parse2::<M>(ts) {
                            let g = g.map(|g| quote!(if #g));
                            let mut n: Expr = parse_quote!(match #x { #p #g => true, _ => false });
                            self.visit_expr_mut(&mut n);
                            *e = n;
                        }
                    }
                    "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                        let parser = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        if let Ok(a) = syn::parse::Parser::parse2(parser, ts) {
                            if n.starts_with("debug") && !self.g.debug { *e = parse_quote!(()); return; }
                            let mut c: Expr = if n.ends_with("eq") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x == #y) } else if n.ends_with("ne") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x != #y) } else { a[0].clone() };
                            self.visit_expr_mut(&mut c);
                            *e = parse_quote!(crate::vp::runtime_assert(#c));
                        }
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => { *e = parse_quote!(crate::vp::runtime_panic()); }
                    _ => self.lost(format!("macro {n}!")),
                }
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    let mut dr = vec![];
                    strip_refs(&mut a.pat, &mut dr);
                    Paths.visit_pat_mut(&mut a.pat);
                    self.visit_expr_mut(&mut a.body);
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    if !dr.is_empty() {
                        let d = derefs_tokens(&dr);
                        let b = &a.body;
                        a.body = Box::new(Expr::Verbatim(quote!({ #d #b })));
                        a.comma = Some(Default::default());
                        if let Some((_, g)) = &mut a.guard { let gg = g.clone(); **g = Expr::Verbatim(quote!({ #d #gg })); }
                    }
                    if a.comma.is_none() { a.comma = Some(Default::default()); }
                }
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut dr = vec![];
                    strip_refs(&mut l.pat, &mut dr);
                    Paths.visit_pat_mut(&mut l.pat);
                    self.visit_expr_mut(&mut l.expr);
                    self.visit_block_mut(&mut i.then_branch);
                    for d in dr.into_iter().rev() { i.then_branch.stmts.insert(0, parse_quote!(let #d = *#d;)); }
                    if let Some((_, b)) = &mut i.else_branch { self.visit_expr_mut(b); }
                    return;
                }
            }
            Expr::Closure(_) => { self.lost("closure value"); }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => {
                if p.qself.is_none() {
                    let n = last_ident(&p.path);
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "char" {
                        if n == "MAX" { *e = parse_quote!('\u{10FFFF}'); return; }
                        if n == "REPLACEMENT_CHARACTER" { *e = parse_quote!('\u{FFFD}'); return; }
                    }
                    if self.g.tables.contains_key(&n) { *e = Expr::Verbatim(quote!(crate::vp::arr(&#p))); }
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if ["u8", "u16", "u32", "i32", "usize"].contains(&t.as_str()) { *e = Expr::Verbatim(quote!((#[verifier::truncate] (#c)))); }
            }
            Expr::Call(c) => { if let Expr::Path(p) = &*c.func { let n = last_ident(&p.path); self.calls.insert(n); } }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) { Paths.visit_path_mut(p); }
    fn visit_type_mut(&mut self, t: &mut Type) { Paths.visit_type_mut(t); }
}

fn emit_fn(g: &mut Global, module: &str, key: &str, vis: bool, mut sig: Signature, block: Option<Block>, cs: &HashMap<String, Callable>, in_trait: bool, instance: bool) -> String {
    let fc = g.contracts.fns.get(key).cloned();
    let contract = fc.is_some();
    let fc = fc.unwrap_or_default();
    let line = sig.ident.span().start().line;
    let fg = fn_generics(&sig.generics);
    sig.unsafety = None;
    sig.abi = None;
    let mut lost = vec![];
    let mut unused = vec![];
    // parameters
    let mut params = vec![]; let mut sinks = BTreeSet::new(); let mut lets = TokenStream::new();
    let mut inputs: Vec<FnArg> = vec![];
    let mut removed: BTreeSet<String> = BTreeSet::new();
    let mut has_self = false;
    let mut mutp: Vec<Ident> = vec![];
    for (i, a) in sig.inputs.iter().cloned().enumerate() {
        match a {
            FnArg::Receiver(r) => { has_self = true; let mut r = r; r.attrs.clear(); inputs.push(FnArg::Receiver(r)); }
            FnArg::Typed(mut t) => {
                t.attrs.clear();
                let name = match &*t.pat { Pat::Ident(p) => p.ident.to_string(), _ => format!("vp_arg{i}") };
                let tn = t.ty.to_token_stream().to_string();
                match fg.get(&tn) {
                    Some(true) => { sinks.insert(name.clone()); let id = ident(&name); removed.insert(tn); inputs.push(parse_quote!(#id: &mut Vec<char>)); params.push(name); continue; }
                    Some(false) if cs.contains_key(&name) => { removed.insert(tn); continue; }
                    _ => {}
                }
                let id = ident(&name);
                match &*t.pat {
                    Pat::Ident(p) if p.mutability.is_some() => mutp.push(id.clone()),
                    Pat::Ident(_) => {}
                    other => { let mut o = other.clone(); let mut d = vec![]; strip_refs(&mut o, &mut d); let d = derefs_tokens(&d); lets.extend(quote!(let #o = #id; #d)); }
                }
                let mut ty = (*t.ty).clone();
                Paths.visit_type_mut(&mut ty);
                inputs.push(parse_quote!(#id: #ty));
                params.push(name);
            }
        }
    }
    sig.inputs = inputs.into_iter().collect();
    // generics
    let gp: Vec<GenericParam> = sig.generics.params.iter().filter(|p| match p { GenericParam::Type(t) => !removed.contains(&t.ident.to_string()), _ => true }).cloned().collect();
    sig.generics.params = gp.into_iter().collect();
    if let Some(w) = &mut sig.generics.where_clause {
        let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| match p { WherePredicate::Type(t) => !removed.contains(&t.bounded_ty.to_token_stream().to_string()), _ => true }).cloned().collect();
        w.predicates = keep.into_iter().collect();
        if w.predicates.is_empty() { sig.generics.where_clause = None; }
    }
    if sig.generics.params.is_empty() { sig.generics.lt_token = None; sig.generics.gt_token = None; }
    Paths.visit_generics_mut(&mut sig.generics);
    if let ReturnType::Type(_, t) = &mut sig.output { Paths.visit_type_mut(t); }
    let ret = match &sig.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
    if let Some(t) = &ret { if contract || in_trait { sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((vp_r: #t))))); } }

    let external = g.external.contains(key);
    let mut out = String::new();
    let mut calls = BTreeSet::new();
    let fname = key.rsplit("::").next().unwrap().to_string();
    let mut nodec = false;
    let body = block.map(|mut b| {
        let st = key.split("::").map(|s| s.to_string()).collect::<Vec<_>>();
        let self_ty = st.iter().skip(1).find(|s| s.starts_with(|c: char| c.is_uppercase())).cloned();
        crate::norm::Norm { hs: &mut g.helpers, self_ty: self_ty.clone(), stack: vec![key.to_string()], calls: BTreeSet::new() }.body(&mut b);
        for id in mutp.iter().rev() { b.stmts.insert(0, parse_quote!(let mut #id = #id;)); }
        crate::norm::unshadow(&mut b, &params.iter().filter(|p| !sinks.contains(*p)).cloned().collect::<Vec<_>>());
        let vars = find_vars(&fc.vars, &b, &mut lost);
        let mut x = X { g, counter: None, aux: Default::default(), unfit: vec![], self_ty, vars, module: module.to_string(), fname, fc: fc.clone(), params: params.clone(), has_self, sinks, callables: cs.clone(), closures: HashMap::new(), arrayvecs: HashMap::new(), n: 0, depth: 0, used_loops: BTreeSet::new(), lost: vec![], calls: BTreeSet::new(), need_nodec: false };
        let diverging_tail = match b.stmts.last() { Some(Stmt::Expr(Expr::Loop(l), None)) => { let mut hb = HasBreak(false, 0); let mut bb = l.body.clone(); hb.visit_block_mut(&mut bb); !hb.0 } Some(Stmt::Expr(Expr::Return(_), _)) => true, _ => false };
        x.visit_block_mut(&mut b);
        let _ = (&x.module, x.has_self);
        let entry = x.hint(&fc.entry, &[]);
        let mut entry = if entry.is_empty() { quote!() } else { quote!(#entry) };
        let mut exit = x.hint(&fc.exit, &[]);
        // the canaries: a contract that can be met only where false holds says nothing
        if x.g.canary == "entry" { entry = quote!(#entry proof { assert(false); }); }
        if x.g.canary == "exit" { if diverging_tail { entry = quote!(#entry proof { assert(false); }); } else { exit = quote!(#exit assert(false);); } }
        unused.extend(x.unfit.clone());
        for (i, l) in x.fc.loops.clone().iter().enumerate() { if !x.used_loops.contains(&i) { unused.push(format!("no loop matches `{}`", l.sel)); } }
        lost.extend(x.lost.clone());
        calls = x.calls.clone();
        nodec = x.need_nodec;
        let mut stmts = b.stmts;
        let body = if exit.is_empty() || diverging_tail {
            quote!(#lets #entry #(#stmts)*)
        } else {
            match stmts.pop() {
                Some(Stmt::Expr(e, None)) if ret.is_some() => quote!(#lets #entry #(#stmts)* let vp_r = #e; proof { #exit } vp_r),
                Some(Stmt::Expr(e, None)) => quote!(#lets #entry #(#stmts)* #e; proof { #exit }),
                Some(s) => quote!(#lets #entry #(#stmts)* #s proof { #exit }),
                None => quote!(#lets #entry proof { #exit }),
            }
        };
        body
    });
    if body.is_some() {
        if external { out.push_str("#[verifier::external_body]\n"); }
        if nodec && !fc.attr.contains("no_decreases") { out.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    }
    if !fc.attr.trim().is_empty() { out.push_str(fc.attr.trim()); out.push('\n'); }
    if vis { out.push_str("pub "); }
    out.push_str(&crate::print::print(sig.to_token_stream()));
    out.push('\n');
    if contract { out.push_str(&subst(&fc.spec, &params, &[])); }
    match body {
        Some(b) => { if external { out.push_str("{ unimplemented!() }\n"); } else { out.push_str(&crate::print::print(quote!({ #b }))); } }
        None => out.push_str(";\n"),
    }
    let name = key.rsplit("::").next().unwrap().to_string();
    // Clone is under the contract of its trait: the copy equals the original
    let has_contract = contract || key.ends_with("::Clone::vp_clone");
    if !(in_trait && out.ends_with(";\n")) {
        g.report.push(FnReport { key: key.to_string(), module: module.to_string(), contract: has_contract, external, lost, unused, calls, line: if instance { 0 } else { line }, name });
    }
    format!("// VP-FN {key}\n{out}// VP-END\n")
}

fn fix_use(t: &UseTree) -> Option<String> {
    let s = t.to_token_stream().to_string();
    let first = match t { UseTree::Path(p) => p.ident.to_string(), UseTree::Name(n) => n.ident.to_string(), _ => String::new() };
    match first.as_str() {
        "tinyvec" => None,
        "core" | "std" | "alloc" => if let UseTree::Path(p) = t { Some(format!("crate::vp::vcore::{}", p.tree.to_token_stream())) } else { None },
        _ => Some(s),
    }
}

pub fn module(g: &mut Global, m: &str, items: Vec<Item>, all: &[String]) -> String {
    let mut o = String::new();
    o.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp::*;\n#[allow(unused_imports)] use crate::spec::*;\n#[allow(unused_imports)] use crate::data::*;\n#[allow(unused_imports)] use crate::lem::*;\n#[allow(unused_imports)] use crate::chf::*;\n");
    for x in all { if x != m && x != "lib" && x != "char" { o.push_str(&format!("#[allow(unused_imports)] use crate::{x}::*;\n")); } }
    let mut head = String::new();
    let mut body = String::new();
    let mut inherent_done: BTreeSet<String> = BTreeSet::new();
    // Clone implementations written by hand
    let clones: HashMap<String, (Signature, Block)> = items.iter().filter_map(|i| match i {
        Item::Impl(im) if im.trait_.as_ref().map_or(false, |t| last_ident(&t.1) == "Clone") =>
            im.items.iter().find_map(|x| match x { ImplItem::Fn(f) if f.sig.ident == "clone" => Some((type_name(&im.self_ty), (f.sig.clone(), f.block.clone()))), _ => None }),
        _ => None,
    }).collect();
    for it in items {
        if !cfg_true(g, crate::item_attrs(&it)) { continue; }
        match it {
            Item::ExternCrate(_) => {}
            Item::Use(u) => {
                if let Some(s) = fix_use(&u.tree) {
                    let p = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
                    head.push_str(&format!("#[allow(unused_imports)] {p}use {s};\n"));
                }
            }
            Item::Mod(md) => { head.push_str(&format!("pub mod {};\n", md.ident)); }
            Item::Const(c) => {
                let n = &c.ident;
                if let Some((t, len)) = slice_const(&c) {
                    if let Expr::Reference(r) = &*c.expr { let e = &r.expr; if let Expr::Array(a) = &**e { if m == "tables" && twin(g, &n.to_string(), a) { body.push_str("#[verifier::external_body]\n"); } } body.push_str(&format!("pub const {}: [{}; {}] = {};\n", n, t.to_token_stream(), len, e.to_token_stream())); }
                } else {
                    let (mut t, mut e) = ((*c.ty).clone(), (*c.expr).clone());
                    Paths.visit_type_mut(&mut t); Paths.visit_expr_mut(&mut e);
                    body.push_str(&format!("pub const {}: {} = {};\n", n, t.to_token_stream(), e.to_token_stream()));
                }
            }
            Item::Struct(mut s) => {
                let der = derives(&s.attrs);
                s.attrs.clear();
                Paths.visit_item_struct_mut(&mut s);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                s.vis = parse_quote!(pub);
                body.push_str(&crate::print::print(s.to_token_stream()));
                body.push('\n');
                clone_impl(g, m, &mut body, &der, &s.ident, &s.generics, Shape::Struct(s.fields.clone()));
            }
            Item::Enum(mut s) => {
                let der = derives(&s.attrs);
                s.attrs.clear();
                for v in s.variants.iter_mut() { v.attrs.clear(); v.fields.iter_mut().for_each(|f| f.attrs.clear()); }
                Paths.visit_item_enum_mut(&mut s);
                s.vis = parse_quote!(pub);
                if der.contains("PartialEq") && s.variants.iter().all(|v| v.fields.is_empty()) { body.push_str("#[derive(PartialEq, Eq, Structural)]\n"); }
                body.push_str(&crate::print::print(s.to_token_stream()));
                body.push('\n');
                clone_impl(g, m, &mut body, &der, &s.ident, &s.generics, Shape::Enum(s.variants.iter().cloned().collect()));
            }
            Item::Type(mut t) => { t.attrs.clear(); Paths.visit_item_type_mut(&mut t); t.vis = parse_quote!(pub); body.push_str(&crate::print::print(t.to_token_stream())); }
            Item::Fn(f) => {
                let info = g.fns.get(&f.sig.ident.to_string()).map(|x| x.specialize).unwrap_or(false);
                if info { continue; }
                let key = format!("{}::{}", m, f.sig.ident);
                let t = emit_fn(g, m, &key, true, f.sig, Some(*f.block), &HashMap::new(), false, false);
                body.push_str(&t);
            }
            Item::Impl(mut im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| last_ident(&t.1));
                let base = match &tr { Some(t) => format!("{m}::{ty}::{t}"), None => format!("{m}::{ty}") };
                Paths.visit_generics_mut(&mut im.generics);
                Paths.visit_type_mut(&mut im.self_ty);
                let (ig, _, wc) = im.generics.split_for_impl();
                let st = &im.self_ty;
                let h = match &mut im.trait_ {
                    Some((_, p, _)) => { Paths.visit_path_mut(p); quote!(impl #ig #p for #st #wc) }
                    None => quote!(impl #ig #st #wc),
                };
                body.push_str(&crate::print::print(h));
                body.push_str(" {\n");
                if let Some(x) = g.contracts.impls.get(&base) {
                    if tr.is_some() || inherent_done.insert(base.clone()) { body.push_str(x); }
                }
                // copies of methods under a second contract (of reading no more than needed)
                let mut lazy = String::new();
                let item_ty = im.items.iter().find_map(|i| match i { ImplItem::Type(t) if t.ident == "Item" => { let mut x = t.ty.clone(); Paths.visit_type_mut(&mut x); Some(x) } _ => None });
                for ii in im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            if !cfg_true(g, &f.attrs) { continue; }
                            let name = f.sig.ident.to_string();
                            for copy in ["lazy", "both"] {
                            let lkey = format!("{m}::{ty}::{copy}::{name}");
                            if tr.is_some() && g.contracts.fns.contains_key(&lkey) {
                                let mut sig = f.sig.clone();
                                sig.ident = ident(&format!("{copy}__{name}"));
                                struct ItemTy(Option<Type>);
                                impl VisitMut for ItemTy { fn visit_type_mut(&mut self, t: &mut Type) { if t.to_token_stream().to_string().replace(' ', "") == "Self::Item" { if let Some(x) = &self.0 { *t = x.clone(); return; } } syn::visit_mut::visit_type_mut(self, t); } }
                                ItemTy(item_ty.clone()).visit_signature_mut(&mut sig);
                                let mut blk = f.block.clone();
                                ItemTy(item_ty.clone()).visit_block_mut(&mut blk);
                                let t = emit_fn(g, m, &lkey, true, sig, Some(blk), &HashMap::new(), false, false);
                                // the NFC iterator draws on the NFD iterator, whose promise about its source it needs
                                lazy.push_str(&if m == "recompose" { t.replace("self . iter . next ( )", "self . iter . both__next ( )") } else { t });
                            }
                            }
                            let name = if tr.as_deref() == Some("Clone") && name == "clone" { "vp_clone".to_string() } else { name };
                            let mut sig = f.sig; sig.ident = ident(&name);
                            let key = format!("{base}::{name}");
                            let t = emit_fn(g, m, &key, tr.is_none(), sig, Some(f.block), &HashMap::new(), tr.is_some(), false);
                            body.push_str(&if tr.as_deref() == Some("Display") && g.contracts.fns.contains_key(&format!("{m}::{ty}::same::clone")) { t.replace("self . vp_clone ( )", "self . same__clone ( )") } else { t });
                        }
                        ImplItem::Type(mut t) => { t.attrs.clear(); Paths.visit_type_mut(&mut t.ty); body.push_str(&crate::print::print(t.to_token_stream())); body.push('\n'); }
                        ImplItem::Const(mut c) => { c.attrs.clear(); c.vis = if tr.is_none() { parse_quote!(pub) } else { Visibility::Inherited }; body.push_str(&crate::print::print(c.to_token_stream())); body.push('\n'); }
                        x => g.notes.push(format!("impl item dropped in {base}: {}", x.to_token_stream())),
                    }
                }
                body.push_str("}\n");
                // what formatting needs of cloning: the same text to come
                let skey = format!("{m}::{ty}::same::clone");
                if tr.as_deref() == Some("Display") && g.contracts.fns.contains_key(&skey) {
                    let (mut sig, blk) = clones.get(&ty).cloned().unwrap_or_else(|| (parse_quote!(fn clone(&self) -> Self), parse_quote!({ self.clone() })));
                    sig.ident = ident("same__clone");
                    lazy.push_str(&emit_fn(g, m, &skey, true, sig, Some(blk), &HashMap::new(), false, false));
                }
                if !lazy.is_empty() { body.push_str(&crate::print::print(quote!(impl #ig #st #wc))); body.push_str(" {\n"); body.push_str(&lazy); body.push_str("}\n"); }
            }
            Item::Trait(t) => {
                let base = format!("{m}::{}", t.ident);
                let mut h = t.clone();
                h.attrs.clear(); h.items.clear(); h.vis = parse_quote!(pub);
                Paths.visit_generics_mut(&mut h.generics);
                let hs = crate::print::print(h.to_token_stream());
                let hs = hs.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
                body.push_str(&hs);
                // Self is moved into the results: methods with a `self` receiver need a sized Self
                if !hs.contains("Sized") { body.push_str(if h.supertraits.is_empty() { ": Sized" } else { " + Sized" }); }
                body.push_str(" {\n");
                if let Some(x) = g.contracts.traits.get(&base) { body.push_str(x); }
                for ti in t.items {
                    match ti {
                        TraitItem::Fn(f) => {
                            if !cfg_true(g, &f.attrs) { continue; }
                            let key = format!("{base}::{}", f.sig.ident);
                            let txt = emit_fn(g, m, &key, false, f.sig, f.default, &HashMap::new(), true, false);
                            body.push_str(&txt);
                        }
                        x => { body.push_str(&crate::print::print(x.to_token_stream())); body.push('\n'); }
                    }
                }
                body.push_str("}\n");
            }
            Item::Macro(mm) => g.notes.push(format!("macro item in {m}: {}", mm.mac.path.to_token_stream())),
            x => g.notes.push(format!("item dropped in {m}: {}", x.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
    o.push_str(&head);
    o.push_str("verus! {\n");
    o.push_str(&body);
    let _: BTreeMap<(), ()> = BTreeMap::new();
    o
}
/// the leaves of a literal element, with the path to each
fn leaves(e: &Expr, path: &str, sel: &str, out: &mut Vec<(String, String, u128)>) -> bool {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => match i.base10_parse::<u128>() { Ok(v) => { out.push((path.to_string(), sel.to_string(), v)); true } Err(_) => false },
            Lit::Char(c) => { out.push((path.to_string(), sel.to_string(), c.value() as u128)); true }
            Lit::Byte(c) => { out.push((path.to_string(), sel.to_string(), c.value() as u128)); true }
            _ => false,
        },
        Expr::Paren(p) => leaves(&p.expr, path, sel, out),
        Expr::Group(p) => leaves(&p.expr, path, sel, out),
        Expr::Tuple(t) => t.elems.iter().enumerate().all(|(i, x)| leaves(x, &format!("{path}_{i}"), &format!("{sel}.{i}"), out)),
        _ => false,
    }
}
/// For a big literal array X: index trees `T_X...(i)` (small spec functions, cheap to evaluate) printed from the same
/// tokens as X, and the axiom that they agree with X.  X itself becomes opaque to the solver.
fn twin(g: &mut Global, name: &str, a: &ExprArray) -> bool {
    let n = a.elems.len();
    if n < 48 { return false; }
    let mut rows: Vec<Vec<(String, String, u128)>> = vec![];
    for e in &a.elems {
        let mut v = vec![];
        if !leaves(e, "", "", &mut v) || (!rows.is_empty() && rows[0].len() != v.len()) { return false; }
        rows.push(v);
    }
    fn level(o: &mut String, fname: &str, lo: usize, hi: usize, val: &dyn Fn(usize) -> u128) {
        const F: usize = 12;
        let mut step = 1; while step * F < hi - lo { step *= F; }
        let cuts: Vec<usize> = (lo..hi).step_by(step).collect();
        for (k, &c) in cuts.iter().enumerate() { if step > 1 { level(o, &format!("{fname}_{k}"), c, (c + step).min(hi), val); } }
        fn rec(cuts: &[usize], a: usize, b: usize, leaf: &dyn Fn(usize) -> String) -> String {
            if b - a == 1 { return leaf(a); }
            let m = (a + b) / 2;
            format!("if i < {} {{ {} }} else {{ {} }}", cuts[m], rec(cuts, a, m, leaf), rec(cuts, m, b, leaf))
        }
        let body = rec(&cuts, 0, cuts.len(), &|k| if step > 1 { format!("{fname}_{k}(i)") } else { format!("0x{:x}", val(cuts[k])) });
        o.push_str(&format!("pub open spec fn {fname}(i: int) -> int {{ {body} }}\n"));
    }
    let mut o = String::new();
    let mut ens = vec![];
    for j in 0..rows[0].len() {
        // several elements per 128-bit literal
        let f = format!("T_{name}{}", rows[0][j].0);
        let max = rows.iter().map(|r| r[j].2).max().unwrap();
        let bits = if max < 1 << 8 { 8 } else if max < 1 << 16 { 16 } else if max < 1 << 21 { 21 } else if max < 1 << 32 { 32 } else { 64 };
        let per = 128 / bits;
        level(&mut o, &format!("{f}_p"), 0, (n + per - 1) / per, &|i| (0..per).filter(|k| i * per + k < n).map(|k| rows[i * per + k][j].2 << (bits * k)).sum());
        o.push_str(&format!("pub open spec fn {f}(i: int) -> int {{ unpack{bits}({f}_p(i / {per}), i % {per}) }}\n"));
        ens.push(format!("{name}@[i]{} as int == {f}(i)", rows[0][j].1));
    }
    o.push_str(&format!("pub open spec fn N_{name}() -> int {{ {n} }}\npub axiom fn ax_{name}(i: int) requires 0 <= i < {n} ensures {};\n", ens.join(", ")));
    g.tabs.push_str(&o);
    true
}
fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { r.insert(last_ident(&m.path)); Ok(()) });
        }
    }
    r
}
/// a derived Clone, written out as rustc does (field by field)
fn clone_impl(g: &mut Global, m: &str, out: &mut String, der: &BTreeSet<String>, id: &Ident, gen: &Generics, shape: Shape) {
    if !der.contains("Clone") { return; }
    let mut gs = gen.clone();
    for p in gs.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds.push(parse_quote!(crate::vp::Clone)); } }
    let (ig, tg, wc) = gs.split_for_impl();
    out.push_str(&crate::print::print(quote!(impl #ig crate::vp::Clone for #id #tg #wc)));
    let names = |f: &Fields| -> Vec<Ident> { f.iter().enumerate().map(|(i, x)| x.ident.clone().unwrap_or_else(|| ident(&format!("vp_f{i}")))).collect() };
    let body: Block = match shape {
        Shape::Struct(f) => {
            let v: Vec<TokenStream> = f.iter().enumerate().map(|(i, x)| match &x.ident { Some(n) => quote!(#n: self.#n.clone()), None => { let k = Index::from(i); quote!(#k: self.#k.clone()) } }).collect();
            parse_quote!({ #id { #(#v),* } })
        }
        Shape::Enum(vs) => {
            let arms: Vec<TokenStream> = vs.iter().map(|v| {
                let (n, ns) = (&v.ident, names(&v.fields));
                match &v.fields {
                    Fields::Unit => quote!(#id::#n => #id::#n),
                    Fields::Unnamed(_) => quote!(#id::#n(#(#ns),*) => #id::#n(#(#ns.clone()),*)),
                    Fields::Named(_) => quote!(#id::#n { #(#ns),* } => #id::#n { #(#ns: #ns.clone()),* }),
                }
            }).collect();
            parse_quote!({ match self { #(#arms),* } })
        }
    };
    let sig: Signature = parse_quote!(fn vp_clone(&self) -> Self);
    out.push_str(" {\n");
    out.push_str(&emit_fn(g, m, &format!("{m}::{id}::Clone::vp_clone"), false, sig, Some(body), &HashMap::new(), true, false));
    out.push_str("}\n");
}
enum Shape { Struct(Fields), Enum(Vec<Variant>) }
