//! Private names that were changed: types, enum variants, fields and functions the contracts speak about, when they are
//! gone under their old name and something of the same shape is there under a new one, get the old name back. This is a
//! consistent renaming of identifiers, one to one (an old name that is still in use for anything else is not given out).
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;

pub type Mods = Vec<(String, Vec<syn::Item>)>;

fn toks(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                out.push(o.into()); toks(g.stream(), out); out.push(c.into());
            }
            x => out.push(x.to_string()),
        }
    }
}
fn text<T: ToTokens>(t: &T) -> String { let mut v = vec![]; toks(t.to_token_stream(), &mut v); v.join(" ") }

/// what is declared: (kind, module, owner, name) -> parts
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Item { kind: String, module: String, owner: String, name: String, sig: String, body: String }

impl Item { pub fn in_tables(&self) -> bool { self.module == "tables" && self.body.len() > 4000 } }
fn sig_of(s: &syn::Signature) -> String {
    let ins: Vec<String> = s.inputs.iter().map(|a| match a { syn::FnArg::Receiver(r) => text(r), syn::FnArg::Typed(t) => text(&t.ty) }).collect();
    format!("({}) {}", ins.join(","), text(&s.output))
}

pub fn shapes(mods: &Mods) -> Vec<Item> {
    let mut v = vec![];
    let mut add = |kind: &str, module: &str, owner: &str, name: String, sig: String, body: String| v.push(Item { kind: kind.into(), module: module.into(), owner: owner.into(), name, sig, body });
    for (m, items) in mods {
        for it in items {
            match it {
                syn::Item::Struct(s) => {
                    let fs: Vec<String> = s.fields.iter().map(|f| text(&f.ty)).collect();
                    add("type", m, "", s.ident.to_string(), format!("struct {}", fs.join(" ; ")), String::new());
                    for f in &s.fields { if let Some(i) = &f.ident { add("field", m, &s.ident.to_string(), i.to_string(), text(&f.ty), String::new()) } }
                }
                syn::Item::Enum(s) => {
                    let fs: Vec<String> = s.variants.iter().map(|f| text(&f.fields)).collect();
                    add("type", m, "", s.ident.to_string(), format!("enum {}", fs.join(" ; ")), String::new());
                    for f in &s.variants { add("variant", m, &s.ident.to_string(), f.ident.to_string(), text(&f.fields), String::new()) }
                }
                syn::Item::Fn(f) => add("fn", m, "", f.sig.ident.to_string(), sig_of(&f.sig), text(&f.block)),
                syn::Item::Impl(im) if im.trait_.is_none() => {
                    let ty = crate::xform::type_name(&im.self_ty);
                    for i in &im.items { if let syn::ImplItem::Fn(f) = i { add("fn", m, &ty, f.sig.ident.to_string(), sig_of(&f.sig), text(&f.block)) } }
                }
                _ => {}
            }
        }
    }
    v
}
pub fn dump(v: &[Item]) -> String { v.iter().map(|i| format!("{}\t{}\t{}\t{}\t{}\t{}\n", i.kind, i.module, i.owner, i.name, i.sig, i.body)).collect() }
pub fn parse(s: &str) -> Vec<Item> {
    s.lines().filter_map(|l| { let p: Vec<&str> = l.split('\t').collect(); if p.len() != 6 { return None; } let g = |i: usize| p[i].to_string(); Some(Item { kind: g(0), module: g(1), owner: g(2), name: g(3), sig: g(4), body: g(5) }) }).collect()
}

struct Global { from: String, to: String }
impl Global {
    fn stream(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Ident(i) if i == self.from.as_str() => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(&self.to, i.span())),
            proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), self.stream(g.stream())); n.set_span(g.span()); proc_macro2::TokenTree::Group(n) }
            x => x,
        }).collect()
    }
}
impl VisitMut for Global {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) { if i == self.from.as_str() { *i = proc_macro2::Ident::new(&self.to, i.span()); } }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.stream(std::mem::take(&mut m.tokens)); syn::visit_mut::visit_macro_mut(self, m); }
}
/// members only
struct Members { from: String, to: String }
impl Members {
    fn fix(&self, m: &mut syn::Member) -> bool { if let syn::Member::Named(i) = m { if i == self.from.as_str() { *i = proc_macro2::Ident::new(&self.to, i.span()); return true; } } false }
    fn stream(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let v: Vec<_> = t.into_iter().collect();
        let dot = |i: usize| i > 0 && matches!(&v[i - 1], proc_macro2::TokenTree::Punct(p) if p.as_char() == '.') && !(i > 1 && matches!(&v[i - 2], proc_macro2::TokenTree::Punct(p) if p.as_char() == '.'));
        let call = |i: usize| matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
        v.iter().enumerate().map(|(i, x)| match x {
            proc_macro2::TokenTree::Ident(id) if *id == self.from.as_str() && dot(i) && !call(i) => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(&self.to, id.span())),
            proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), self.stream(g.stream())); n.set_span(g.span()); proc_macro2::TokenTree::Group(n) }
            x => x.clone(),
        }).collect()
    }
}
impl VisitMut for Members {
    fn visit_member_mut(&mut self, m: &mut syn::Member) { self.fix(m); }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) { if self.fix(&mut f.member) && f.colon_token.is_none() { f.colon_token = Some(Default::default()); } syn::visit_mut::visit_expr_mut(self, &mut f.expr); }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) { if self.fix(&mut f.member) && f.colon_token.is_none() { f.colon_token = Some(Default::default()); } syn::visit_mut::visit_pat_mut(self, &mut f.pat); }
    fn visit_field_mut(&mut self, f: &mut syn::Field) { if let Some(i) = &mut f.ident { if i == self.from.as_str() { *i = proc_macro2::Ident::new(&self.to, i.span()); } } }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.stream(std::mem::take(&mut m.tokens)); }
}

fn idents(mods: &Mods) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for (m, items) in mods { s.insert(m.rsplit("::").next().unwrap().to_string()); for i in items { let mut v = vec![]; toks(i.to_token_stream(), &mut v); s.extend(v); } }
    s
}
/// is `.name` used, as a member or in a struct expression, in these items?
fn member_used(items: &[syn::Item], name: &str) -> bool {
    struct F<'a>(&'a str, bool);
    impl<'a> VisitMut for F<'a> {
        fn visit_member_mut(&mut self, m: &mut syn::Member) { if let syn::Member::Named(i) = m { if i == self.0 { self.1 = true; } } }
        fn visit_field_mut(&mut self, f: &mut syn::Field) { if let Some(i) = &f.ident { if i == self.0 { self.1 = true; } } }
    }
    let mut f = F(name, false);
    for i in items { let mut i = i.clone(); f.visit_item_mut(&mut i); }
    f.1
}
fn alike(a: &str, b: &str) -> f64 {
    fn bag(s: &str) -> HashMap<&str, i32> { let mut h = HashMap::new(); for t in s.split(' ') { *h.entry(t).or_insert(0) += 1; } h }
    let (x, y) = (bag(a), bag(b));
    let common: i32 = x.iter().map(|(k, n)| (*n).min(*y.get(k).unwrap_or(&0))).sum();
    let total: i32 = x.iter().map(|(k, n)| (*n).max(*y.get(k).unwrap_or(&0))).sum::<i32>() + y.iter().filter(|(k, _)| !x.contains_key(*k)).map(|(_, n)| *n).sum::<i32>();
    common as f64 / total.max(1) as f64
}
const COMMON: [&str; 29] = ["next", "push", "pop", "len", "get", "clone", "clear", "take", "map", "insert", "truncate", "is_empty", "iter", "first", "last", "start", "end", "new", "from", "into", "default", "eq", "cmp", "fmt", "size_hint", "chars", "self", "Self", "swap"];

pub fn restore(mods: &mut Mods, old: &[Item], notes: &mut Vec<String>) {
    for kind in ["type", "variant", "fn", "field"] {
        for round in 0..2 {
            // a second round: functions compared once the others have their names back
            if round == 1 && kind != "fn" { continue; }
            let now = shapes(mods);
            let same = |a: &Item, b: &Item| a.kind == b.kind && a.module == b.module && a.owner == b.owner && a.name == b.name;
            // a type of the same shape that moved elsewhere is left alone
            let gone: Vec<&Item> = old.iter().filter(|o| o.kind == kind && !now.iter().any(|n| same(o, n) || (n.kind == kind && n.name == o.name && kind != "field"))).collect();
            let fresh: Vec<&Item> = now.iter().filter(|n| n.kind == kind && !old.iter().any(|o| same(o, n)) && if kind == "field" { n.name != "start" && n.name != "end" } else { !COMMON.contains(&n.name.as_str()) }).collect();
            // pairs in order of likeness
            let mut pairs: Vec<(f64, usize, usize)> = vec![];
            for (i, o) in gone.iter().enumerate() {
                for (j, n) in fresh.iter().enumerate() {
                    if o.module != n.module || o.owner != n.owner || o.sig != n.sig { continue; }
                    let like = if kind == "fn" { alike(&o.body, &n.body) } else { 1.0 };
                    if like >= 0.6 { pairs.push((like, i, j)); }
                }
            }
            pairs.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap().then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
            let (mut di, mut dj) = (BTreeSet::new(), BTreeSet::new());
            let mut plan: BTreeMap<(String, String, String), String> = BTreeMap::new();
            for (_, i, j) in pairs {
                if di.contains(&i) || dj.contains(&j) { continue; }
                di.insert(i); dj.insert(j);
                plan.insert((fresh[j].name.clone(), fresh[j].module.clone(), fresh[j].owner.clone()), gone[i].name.clone());
            }
            for ((new, module, owner), name) in plan {
                if kind == "field" {
                    let here = |m: &str| m == module;
                    let others = now.iter().filter(|n| n.kind == "field" && n.name == new && n.owner != owner).count();
                    let inside: Vec<usize> = (0..mods.len()).filter(|k| here(&mods[*k].0)).collect();
                    if inside.iter().any(|k| member_used(&mods[*k].1, &name)) || now.iter().any(|n| n.kind == "field" && n.name == new && n.owner != owner && n.module == module) { continue; }
                    let wide = others == 0 && !mods.iter().any(|(_, its)| member_used(its, &name));
                    for (m, items) in mods.iter_mut() { if wide || *m == module { for i in items.iter_mut() { Members { from: new.clone(), to: name.clone() }.visit_item_mut(i); } } }
                } else {
                    if idents(mods).contains(&name) { continue; }
                    for (_, items) in mods.iter_mut() { for i in items.iter_mut() { Global { from: new.clone(), to: name.clone() }.visit_item_mut(i); } }
                }
                notes.push(format!("renamed: {kind} {module}::{}{new} is read under its former name {name}", if owner.is_empty() { String::new() } else { format!("{owner}::") }));
            }
        }
    }
}
