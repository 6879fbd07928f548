//! vx: mechanical extraction of /repo/src into a Verus crate.
//!
//!   vx <repo/src> <contracts dir> <out dir> [--features std] [--release] [--external key,key..]
//!
//! Every function of the crate is re-emitted from its own syntax tree.  The only changes are the
//! desugarings listed in DESIGN.md ("What the extraction does"); contracts, loop invariants and proof
//! hints are woven in from the contract files.  Anything the tool cannot express is reported in
//! report.json, never silently dropped.
mod contracts;
mod mac;
mod norm;
mod rename;
mod print;
mod xform;

use contracts::Contracts;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

pub struct FnInfo {
    pub sink_params: Vec<usize>,
    pub call_params: Vec<usize>,
    pub specialize: bool,
    pub item: Option<(String, syn::ItemFn)>, // module, item
}
pub struct Global {
    pub contracts: Contracts,
    pub features: Vec<String>,
    pub debug: bool,
    pub tables: BTreeMap<String, usize>,
    pub tabs: String, // twin index trees of the big constant arrays
    pub fns: HashMap<String, FnInfo>,
    pub external: BTreeSet<String>,
    pub canary: String,
    pub report: Vec<FnReport>,
    pub notes: Vec<String>,
    pub instances: BTreeMap<String, Vec<(String, String)>>, // module -> (name, text)
    pub inst_names: BTreeSet<String>,
    pub helpers: norm::Helpers,
}
#[derive(Default, Clone)]
pub struct FnReport {
    pub key: String,
    pub module: String,
    pub contract: bool,
    pub external: bool,
    pub lost: Vec<String>,
    pub unused: Vec<String>,
    pub calls: BTreeSet<String>,
    pub line: usize,
    pub name: String,
}

pub fn cfg_true(g: &Global, attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<syn::Meta>() { Ok(m) => eval(g, &m), Err(_) => true }
        } else { true }
    })
}
fn eval(g: &Global, m: &syn::Meta) -> bool {
    let list = |l: &syn::MetaList| -> Vec<syn::Meta> {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
    };
    match m {
        syn::Meta::Path(p) => if p.is_ident("debug_assertions") { g.debug } else { false },
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value { return g.features.contains(&s.value()); }
            }
            if nv.path.is_ident("target_pointer_width") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value { return s.value() == "64"; }
            }
            false
        }
        syn::Meta::List(l) => {
            let v = list(l);
            if l.path.is_ident("not") { !v.iter().all(|x| eval(g, x)) }
            else if l.path.is_ident("any") { v.iter().any(|x| eval(g, x)) }
            else { v.iter().all(|x| eval(g, x)) }
        }
    }
}
struct CfgMacro<'a>(&'a Global);
impl<'a> VisitMut for CfgMacro<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(meta) = m.mac.parse_body::<syn::Meta>() {
                    let b = eval(self.0, &meta);
                    *e = syn::parse_quote!(#b);
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let g = self.0;
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => cfg_true(g, &l.attrs),
            syn::Stmt::Item(i) => cfg_true(g, item_attrs(i)),
            syn::Stmt::Expr(e, _) => cfg_true(g, expr_attrs(e)),
            syn::Stmt::Macro(m) => cfg_true(g, &m.attrs),
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let g = self.0;
        m.arms.retain(|a| cfg_true(g, &a.attrs));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
}
pub fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs, If(x) => &x.attrs, Match(x) => &x.attrs, Call(x) => &x.attrs, MethodCall(x) => &x.attrs,
        Assign(x) => &x.attrs, Macro(x) => &x.attrs, Return(x) => &x.attrs, Unsafe(x) => &x.attrs, Loop(x) => &x.attrs,
        While(x) => &x.attrs, ForLoop(x) => &x.attrs, Binary(x) => &x.attrs, Path(x) => &x.attrs, _ => &[],
    }
}
pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs, Enum(x) => &x.attrs, ExternCrate(x) => &x.attrs, Fn(x) => &x.attrs, Impl(x) => &x.attrs,
        Macro(x) => &x.attrs, Mod(x) => &x.attrs, Static(x) => &x.attrs, Struct(x) => &x.attrs, Trait(x) => &x.attrs,
        Type(x) => &x.attrs, Use(x) => &x.attrs, _ => &[],
    }
}

fn load(dir: &Path, module: &str, items: Vec<syn::Item>, g: &Global, out: &mut Vec<(String, Vec<syn::Item>)>) {
    // module: "lib" for the root
    let mut own = vec![];
    for it in items {
        if !cfg_true(g, item_attrs(&it)) { continue; }
        match it {
            syn::Item::Mod(mut m) => {
                let name = m.ident.to_string();
                if name == "__test_api" { continue; } // glue for the tests only
                let full = if module == "lib" { name.clone() } else { format!("{module}::{name}") };
                if m.content.is_none() {
                    let sub = if module == "lib" { dir.to_path_buf() } else { dir.join(module.replace("::", "/")) };
                    let mut p: PathBuf = sub.join(format!("{name}.rs"));
                    for a in &m.attrs { if a.path().is_ident("path") { if let syn::Meta::NameValue(nv) = &a.meta { if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value { p = sub.join(s.value()); } } } }
                    if !p.exists() { p = sub.join(&name).join("mod.rs"); }
                    let src = std::fs::read_to_string(&p).unwrap_or_else(|e| { eprintln!("vx: {}: {}", p.display(), e); std::process::exit(3) });
                    let f = syn::parse_file(&src).unwrap_or_else(|e| { eprintln!("vx: {}: {}", p.display(), e); std::process::exit(3) });
                    let mut f = f;
                    CfgMacro(g).visit_file_mut(&mut f);
                    load(dir, &full, f.items, g, out);
                    m.content = None;
                    own.push(syn::Item::Mod(m));
                } else {
                    let (_, its) = m.content.take().unwrap();
                    load(dir, &full, its, g, out);
                    own.push(syn::Item::Mod(m));
                }
            }
            x => own.push(x),
        }
    }
    out.push((module.to_string(), own));
}

/// classifies generic parameters with Fn bounds: name -> is_sink
pub fn fn_generics(gen: &syn::Generics) -> HashMap<String, bool> {
    let mut r = HashMap::new();
    let mut look = |name: String, bounds: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>| {
        for b in bounds {
            if let syn::TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap();
                let id = s.ident.to_string();
                if id == "FnMut" || id == "Fn" || id == "FnOnce" {
                    if let syn::PathArguments::Parenthesized(p) = &s.arguments {
                        r.insert(name.clone(), id != "Fn" && matches!(p.output, syn::ReturnType::Default));
                    }
                }
            }
        }
    };
    for p in gen.type_params() { look(p.ident.to_string(), &p.bounds); }
    if let Some(w) = &gen.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p { look(t.bounded_ty.to_token_stream().to_string(), &t.bounds); }
        }
    }
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, cdir, out) = (Path::new(&a[1]), Path::new(&a[2]), Path::new(&a[3]));
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or_default();
    let split = |s: String| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
    let mut g = Global {
        contracts: contracts::load(cdir),
        features: split(opt("--features")),
        debug: !a.iter().any(|x| x == "--release"),
        tables: BTreeMap::new(), tabs: String::new(), fns: HashMap::new(),
        external: split(opt("--external")).into_iter().collect(),
        canary: opt("--canary"),
        report: vec![], notes: vec![], instances: BTreeMap::new(), inst_names: BTreeSet::new(), helpers: Default::default(),
    };
    let root = std::fs::read_to_string(src.join("lib.rs")).expect("lib.rs");
    let mut file = match syn::parse_file(&root) { Ok(f) => f, Err(e) => { eprintln!("vx: lib.rs: {e}"); std::process::exit(3) } };
    CfgMacro(&g).visit_file_mut(&mut file);
    let mut mods = vec![];
    load(src, "lib", file.items, &g, &mut mods);

    let mut macros = mac::Macros::default();
    macros.run(&mut mods);
    for n in macros.used { g.notes.push(format!("expanded: {n}!")); }
    if a.iter().any(|x| x == "--shapes") { print!("{}", rename::dump(&rename::shapes(&mods).into_iter().filter(|i| !i.in_tables()).collect::<Vec<_>>())); return; }
    if let Ok(t) = std::fs::read_to_string(cdir.join("shapes.txt")) { let mut notes = vec![]; rename::restore(&mut mods, &rename::parse(&t), &mut notes); g.notes.extend(notes); }

    // functions declared inside functions see nothing of them: they are moved out
    for (_, items) in mods.iter_mut() {
        let mut names: BTreeSet<String> = items.iter().filter_map(|i| if let syn::Item::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect();
        let mut out: Vec<syn::Item> = vec![];
        let mut hoist = |b: &mut syn::Block| b.stmts.retain(|s| match s {
            syn::Stmt::Item(syn::Item::Fn(f)) if names.insert(f.sig.ident.to_string()) => { out.push(syn::Item::Fn(f.clone())); false }
            _ => true,
        });
        for it in items.iter_mut() {
            match it {
                syn::Item::Fn(f) => hoist(&mut f.block),
                syn::Item::Impl(im) => for i in im.items.iter_mut() { if let syn::ImplItem::Fn(f) = i { hoist(&mut f.block) } },
                _ => {}
            }
        }
        items.extend(out);
    }
    // index: slice constants and functions taking functions
    for (m, items) in &mods {
        for it in items {
            match it {
                syn::Item::Const(c) => if let Some((_, n)) = xform::slice_const(c) { g.tables.insert(c.ident.to_string(), n); },
                syn::Item::Static(c) => { g.notes.push(format!("static {} in {}", c.ident, m)); }
                syn::Item::Fn(f) => {
                    let fg = fn_generics(&f.sig.generics);
                    let (mut s, mut c) = (vec![], vec![]);
                    for (i, p) in f.sig.inputs.iter().enumerate() {
                        if let syn::FnArg::Typed(t) = p {
                            match fg.get(&t.ty.to_token_stream().to_string()) { Some(true) => s.push(i), Some(false) => c.push(i), None => {} }
                        }
                    }
                    let key = format!("{}::{}", m, f.sig.ident);
                    let specialize = g.contracts.specialize.contains(&key) || (!c.is_empty() && !g.contracts.fns.contains_key(&key));
                    g.fns.insert(f.sig.ident.to_string(), FnInfo { specialize, item: if specialize { Some((m.clone(), f.clone())) } else { None }, sink_params: s, call_params: c });
                }
                _ => {}
            }
        }
    }
    // functions and methods without a contract: inlined where they are called
    for k in g.contracts.fns.keys() { g.helpers.taken.insert(k.rsplit("::").next().unwrap().to_string()); }
    for n in ["next", "push", "pop", "len", "get", "clone", "clear", "take", "map", "insert", "truncate", "is_empty", "iter", "first", "last"] { g.helpers.taken.insert(n.into()); }
    for (m, items) in &mods {
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    let key = format!("{}::{}", m, f.sig.ident);
                    let name = f.sig.ident.to_string();
                    let copies = format!("{key}__");
                    if g.contracts.fns.contains_key(&key) || g.contracts.specialize.contains(&key) || g.contracts.fns.keys().any(|k| k.starts_with(&copies)) { continue; }
                    let h = norm::Helper { key, self_ty: None, sig: f.sig.clone(), block: (*f.block).clone() };
                    if norm::inlinable(&h) { g.helpers.free.insert(name, h); }
                }
                syn::Item::Impl(im) if im.trait_.is_none() => {
                    let ty = xform::type_name(&im.self_ty);
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            if !cfg_true(&g, &f.attrs) { continue; }
                            let key = format!("{m}::{ty}::{}", f.sig.ident);
                            if g.contracts.fns.contains_key(&key) { continue; }
                            let h = norm::Helper { key, self_ty: Some(ty.clone()), sig: f.sig.clone(), block: f.block.clone() };
                            if norm::inlinable(&h) { g.helpers.methods.entry(f.sig.ident.to_string()).or_default().push(h); }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mod_names: Vec<String> = mods.iter().map(|m| m.0.clone()).collect();
    let mut texts: Vec<(String, String)> = vec![];
    for (m, items) in mods {
        let t = xform::module(&mut g, &m, items, &mod_names);
        texts.push((m, t));
    }
    std::fs::create_dir_all(out).unwrap();
    let mut inst = std::mem::take(&mut g.instances);
    // helpers inlined everywhere are not emitted on their own
    for (m, t) in texts.iter_mut() { for (name, text) in inst.remove(m).unwrap_or_default() { t.push_str(&format!("// specialised copy {name}\n{text}\n")); } }
    let mut inlined: Vec<String> = vec![];
    loop {
        let mut drop = None;
        for k in &g.helpers.used {
            if inlined.contains(k) { continue; }
            let head = format!("// VP-FN {k}\n");
            let name = k.rsplit("::").next().unwrap();
            let word = |s: &str| { let b = s.as_bytes(); let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_'; s.match_indices(name).any(|(i, _)| (i == 0 || !w(b[i - 1])) && (i + name.len() >= b.len() || !w(b[i + name.len()]))) };
            let other = texts.iter().any(|(_, t)| match t.find(&head) { Some(i) => { let j = i + t[i..].find("// VP-END\n").unwrap(); word(&t[..i]) || word(&t[j..]) } None => word(t) });
            if !other { drop = Some(k.clone()); break; }
        }
        match drop {
            Some(k) => {
                let head = format!("// VP-FN {k}\n");
                for (_, t) in texts.iter_mut() { if let Some(i) = t.find(&head) { let j = i + t[i..].find("// VP-END\n").unwrap() + 10; t.replace_range(i..j, ""); } }
                g.report.retain(|r| r.key != k);
                g.notes.push(format!("inlined: {k}"));
                inlined.push(k);
            }
            None => break,
        }
    }
    for (m, mut t) in texts {
        if let Some(extra) = g.contracts.modules.get(&m) { t.push_str("// ---- specification text\n"); t.push_str(extra); }
        t.push_str("\n} // verus!\n");
        let f = if m == "lib" { out.join("main_body.rs") } else { out.join(format!("{}.rs", m.replace("::", "/"))) };
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, t).unwrap();
    }
    std::fs::write(out.join("tabs.rs"), format!("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::tables::*;\n#[allow(unused_imports)] use crate::ucd::*;\nverus! {{\n{}\n}} // verus!\n", g.tabs)).unwrap();
    // contracts that found no function
    let seen: BTreeSet<String> = g.report.iter().map(|r| r.key.clone()).collect();
    let missing: Vec<String> = g.contracts.fns.keys().filter(|k| !seen.contains(*k)).cloned().collect();
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let arr = |v: Vec<String>| format!("[{}]", v.join(","));
    let fns = g.report.iter().map(|r| format!("{{\"key\":{},\"name\":{},\"module\":{},\"contract\":{},\"external\":{},\"lost\":{},\"unused\":{},\"calls\":{},\"line\":{}}}",
        q(&r.key), q(&r.name), q(&r.module), r.contract, r.external, arr(r.lost.iter().map(|x| q(x)).collect()), arr(r.unused.iter().map(|x| q(x)).collect()), arr(r.calls.iter().map(|x| q(x)).collect()), r.line)).collect();
    let j = format!("{{\"functions\":{},\"missing\":{},\"notes\":{}}}\n", arr(fns), arr(missing.iter().map(|x| q(x)).collect()), arr(g.notes.iter().map(|x| q(x)).collect()));
    std::fs::write(out.join("report.json"), j).unwrap();
    let _ = quote!();
}
