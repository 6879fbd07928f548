//! `macro_rules!` macros of the crate are expanded before anything else is read (by example, as the language does it).
//! A macro that binds local names of its own inside an expression is left alone: names in such a binding are hygienic.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit_mut::VisitMut;

type Rule = (Vec<TokenTree>, Vec<TokenTree>);
#[derive(Clone)]
enum B { One(TokenStream), Many(Vec<B>) }
type Bind = BTreeMap<String, B>;

fn list(t: TokenStream) -> Vec<TokenTree> { t.into_iter().collect() }
fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn ident(t: Option<&TokenTree>) -> Option<String> { if let Some(TokenTree::Ident(i)) = t { Some(i.to_string()) } else { None } }

fn rules(t: TokenStream) -> Option<Vec<Rule>> {
    let v = list(t);
    let (mut i, mut out) = (0, vec![]);
    while i < v.len() {
        let TokenTree::Group(p) = &v[i] else { return None };
        if !(punct(v.get(i + 1), '=') && punct(v.get(i + 2), '>')) { return None; }
        let Some(TokenTree::Group(b)) = v.get(i + 3) else { return None };
        out.push((list(p.stream()), list(b.stream())));
        i += 4;
        if punct(v.get(i), ';') { i += 1; }
    }
    Some(out)
}

fn prefix<T>(v: &[TokenTree], f: impl Fn(ParseStream) -> syn::Result<T>) -> Option<usize> {
    let ts: TokenStream = v.iter().cloned().collect();
    let rest = (|p: ParseStream| { f(p)?; p.parse::<TokenStream>() }).parse2(ts).ok()?;
    Some(v.len() - rest.into_iter().count())
}
/// how many tokens the fragment takes, and what stands for it
fn fragment(kind: &str, v: &[TokenTree]) -> Option<(usize, TokenStream)> {
    let plain = |n: usize| -> TokenStream { v[..n].iter().cloned().collect() };
    let n = match kind {
        "ident" => { ident(v.first())?; 1 }
        "tt" => { v.first()?; 1 }
        "lifetime" => prefix(v, syn::Lifetime::parse)?,
        "literal" => prefix(v, |p| { if p.peek(syn::Token![-]) { p.parse::<syn::Token![-]>()?; } syn::Lit::parse(p) })?,
        "ty" => prefix(v, syn::Type::parse)?,
        "path" => prefix(v, syn::Path::parse)?,
        "vis" => prefix(v, syn::Visibility::parse)?,
        "block" => prefix(v, syn::Block::parse)?,
        "item" => prefix(v, syn::Item::parse)?,
        "pat" | "pat_param" => prefix(v, syn::Pat::parse_multi_with_leading_vert)?,
        "meta" => prefix(v, syn::Meta::parse)?,
        "expr" => {
            let n = prefix(v, syn::Expr::parse)?;
            let t = plain(n);
            let e: syn::Expr = syn::parse2(t.clone()).ok()?;
            let t = if matches!(e, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Paren(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) | syn::Expr::Field(_) | syn::Expr::Index(_) | syn::Expr::Closure(_) | syn::Expr::Array(_) | syn::Expr::Tuple(_)) { t } else { TokenTree::Group(Group::new(Delimiter::Parenthesis, t)).into() };
            return Some((n, t));
        }
        _ => return None,
    };
    if n == 0 && kind != "vis" { return None; }
    Some((n, plain(n)))
}
fn names(p: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        match t {
            TokenTree::Group(g) => names(&list(g.stream()), out),
            TokenTree::Ident(x) if i > 0 && punct(p.get(i - 1), '$') => out.push(x.to_string()),
            _ => {}
        }
    }
}
/// `$( .. ) sep op` at i: the inside, the separator, the operator, the next position
fn repeat(p: &[TokenTree], i: usize) -> Option<(Vec<TokenTree>, Option<TokenTree>, char, usize)> {
    let TokenTree::Group(g) = p.get(i + 1)? else { return None };
    if g.delimiter() != Delimiter::Parenthesis { return None; }
    let op = |t: Option<&TokenTree>| if let Some(TokenTree::Punct(p)) = t { if "*+?".contains(p.as_char()) { Some(p.as_char()) } else { None } } else { None };
    if let Some(o) = op(p.get(i + 2)) { return Some((list(g.stream()), None, o, i + 3)); }
    let o = op(p.get(i + 3))?;
    Some((list(g.stream()), p.get(i + 2).cloned(), o, i + 4))
}
fn matches(p: &[TokenTree], v: &[TokenTree]) -> Option<(Bind, usize)> {
    let (mut b, mut i, mut j) = (Bind::new(), 0, 0);
    while i < p.len() {
        if punct(p.get(i), '$') {
            if let (Some(n), true) = (ident(p.get(i + 1)), punct(p.get(i + 2), ':')) {
                let (k, t) = fragment(&ident(p.get(i + 3))?, &v[j..])?;
                b.insert(n, B::One(t)); j += k; i += 4; continue;
            }
            let (inner, sep, op, next) = repeat(p, i)?;
            let mut vars = vec![]; names(&inner, &mut vars);
            let mut all: BTreeMap<String, Vec<B>> = vars.iter().map(|n| (n.clone(), vec![])).collect();
            let mut count = 0;
            loop {
                if op == '?' && count == 1 { break; }
                let mut k = j;
                if count > 0 { if let Some(s) = &sep { match v.get(k) { Some(t) if t.to_string() == s.to_string() => k += 1, _ => break } } }
                let Some((x, used)) = matches(&inner, &v[k..]) else { break };
                if used == 0 { break; }
                for (n, y) in x { if let Some(l) = all.get_mut(&n) { l.push(y); } }
                j = k + used; count += 1;
            }
            if op == '+' && count == 0 { return None; }
            for (n, l) in all { b.insert(n, B::Many(l)); }
            i = next; continue;
        }
        match (&p[i], v.get(j)?) {
            (TokenTree::Group(a), TokenTree::Group(c)) if a.delimiter() == c.delimiter() => {
                let w = list(c.stream());
                let (x, used) = matches(&list(a.stream()), &w)?;
                if used != w.len() { return None; }
                b.extend(x);
            }
            (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => return None,
            (a, c) => if a.to_string() != c.to_string() { return None; },
        }
        i += 1; j += 1;
    }
    Some((b, j))
}
fn write(t: &[TokenTree], b: &Bind) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < t.len() {
        if punct(t.get(i), '$') {
            if let Some(n) = ident(t.get(i + 1)) {
                match b.get(&n) { Some(B::One(x)) => out.extend(x.clone()), Some(B::Many(_)) => return None, None if n == "crate" => out.extend([t[i + 1].clone()]), None => return None }
                i += 2; continue;
            }
            let (inner, sep, _, next) = repeat(t, i)?;
            let mut vars = vec![]; names(&inner, &mut vars);
            let many: Vec<(&String, &Vec<B>)> = vars.iter().filter_map(|n| match b.get(n) { Some(B::Many(l)) => Some((n, l)), _ => None }).collect();
            let n = many.first()?.1.len();
            if many.iter().any(|(_, l)| l.len() != n) { return None; }
            for k in 0..n {
                if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                let mut c = b.clone();
                for (name, l) in &many { c.insert((*name).clone(), l[k].clone()); }
                out.extend(write(&inner, &c)?);
            }
            i = next; continue;
        }
        match &t[i] {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), write(&list(g.stream()), b)?); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); }
            x => out.extend([x.clone()]),
        }
        i += 1;
    }
    Some(out)
}
/// does the macro's own text bind local names?
fn binds(t: &[TokenTree]) -> bool {
    t.iter().enumerate().any(|(i, x)| match x {
        TokenTree::Group(g) => binds(&list(g.stream())),
        TokenTree::Ident(d) => (d == "let" || d == "for") && !punct(t.get(i + 1), '$') || d == "match",
        TokenTree::Punct(p) => p.as_char() == '|' && !punct(t.get(i + 1), '|') && !(i > 0 && punct(t.get(i - 1), '|')),
        _ => false,
    })
}

#[derive(Default)]
pub struct Macros { pub rules: BTreeMap<String, Option<(String, Vec<Rule>)>>, pub used: Vec<String> }
impl Macros {
    fn define(&mut self, m: &syn::ItemMacro) -> bool {
        if !m.mac.path.is_ident("macro_rules") { return false; }
        let Some(n) = &m.ident else { return false };
        let t = m.mac.tokens.to_string();
        let r = rules(m.mac.tokens.clone()).map(|r| (t.clone(), r));
        let e = self.rules.entry(n.to_string()).or_insert_with(|| r.clone());
        // two macros of one name: neither is expanded
        if e.as_ref().map(|x| &x.0) != Some(&t) { *e = None; }
        true
    }
    fn expand(&self, m: &syn::Macro, items: bool) -> Option<TokenStream> {
        let n = m.path.segments.last()?.ident.to_string();
        let (_, rs) = self.rules.get(&n)?.as_ref()?;
        let v = list(m.tokens.clone());
        for (p, b) in rs {
            if let Some((x, used)) = matches(p, &v) {
                if used != v.len() { continue; }
                if !items && binds(b) { return None; }
                return write(b, &x);
            }
        }
        None
    }
    pub fn run(&mut self, mods: &mut Vec<(String, Vec<syn::Item>)>) {
        struct Collect<'a>(&'a mut Macros);
        impl<'a> VisitMut for Collect<'a> { fn visit_item_macro_mut(&mut self, m: &mut syn::ItemMacro) { self.0.define(m); } }
        for (_, items) in mods.iter_mut() { for i in items.iter_mut() { Collect(self).visit_item_mut(i); } }
        if self.rules.is_empty() { return; }
        for (_, items) in mods.iter_mut() {
            for _ in 0..16 {
                let mut again = false;
                let mut out = vec![];
                for i in std::mem::take(items) {
                    if let syn::Item::Macro(m) = &i {
                        if m.mac.path.is_ident("macro_rules") { continue; }
                        if let Some(f) = self.expand(&m.mac, true).and_then(|t| syn::parse2::<syn::File>(t).ok()) { self.used.push(m.mac.path.to_token_stream().to_string()); out.extend(f.items); again = true; continue; }
                    }
                    out.push(i);
                }
                *items = out;
                if !again { break; }
            }
            for i in items.iter_mut() { Uses(self, 0).visit_item_mut(i); }
        }
    }
}
struct Uses<'a>(&'a mut Macros, usize);
impl<'a> VisitMut for Uses<'a> {
    fn visit_item_impl_mut(&mut self, im: &mut syn::ItemImpl) {
        let mut out = vec![];
        for i in std::mem::take(&mut im.items) {
            if let syn::ImplItem::Macro(m) = &i {
                if let Some(t) = self.0.expand(&m.mac, true) {
                    if let Ok(x) = syn::parse2::<syn::ItemImpl>(quote::quote!(impl VpX { #t })) { self.0.used.push(m.mac.path.to_token_stream().to_string()); out.extend(x.items); continue; }
                }
            }
            out.push(i);
        }
        im.items = out;
        syn::visit_mut::visit_item_impl_mut(self, im);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                syn::Stmt::Item(syn::Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => continue,
                syn::Stmt::Macro(m) => if let Some(mut x) = self.0.expand(&m.mac, false).and_then(|t| syn::Block::parse_within.parse2(t).ok()) {
                    self.0.used.push(m.mac.path.to_token_stream().to_string());
                    if m.semi_token.is_some() { if let Some(syn::Stmt::Expr(_, semi @ None)) = x.last_mut() { *semi = Some(Default::default()); } }
                    out.extend(x); continue;
                },
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        self.1 += 1;
        if self.1 < 64 { syn::visit_mut::visit_block_mut(self, b); }
        self.1 -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        for _ in 0..16 {
            let syn::Expr::Macro(m) = &*e else { break };
            let Some(t) = self.0.expand(&m.mac, false) else { break };
            let x: syn::Expr = match syn::parse2(t.clone()) { Ok(x) => x, Err(_) => break };
            self.0.used.push(m.mac.path.to_token_stream().to_string());
            *e = if matches!(x, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Call(_) | syn::Expr::MethodCall(_) | syn::Expr::Block(_) | syn::Expr::If(_)) { x } else { syn::Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }) };
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
