//! Contract files: sections start with `@@`, subsections with `@`.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct LoopC { pub sel: String, pub inv: String, pub pre: String, pub start: String, pub end: String, pub after: String }
#[derive(Default, Clone, Debug)]
pub struct FnC { pub spec: String, pub entry: String, pub exit: String, pub attr: String, pub vars: String, pub loops: Vec<LoopC>, pub calls: Vec<(String, String)> }
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,
    pub impls: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub modules: BTreeMap<String, String>,
    pub specialize: BTreeSet<String>,
}
pub fn load(dir: &Path) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).expect("contracts dir").filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut kind = String::new();
        let mut key = String::new();
        let mut sub = String::new();
        for line in text.lines() {
            if let Some(h) = line.strip_prefix("@@") {
                let mut p = h.splitn(2, ' ');
                kind = p.next().unwrap().to_string();
                key = p.next().unwrap_or("").trim().to_string();
                sub.clear();
                if kind == "specialize" { c.specialize.insert(key.clone()); }
                if kind == "fn" { assert!(!c.fns.contains_key(&key), "duplicate contract {key}"); c.fns.insert(key.clone(), FnC::default()); sub = "spec".into(); }
                continue;
            }
            if line.starts_with("//#") { continue; }
            match kind.as_str() {
                "fn" => {
                    let fc = c.fns.get_mut(&key).unwrap();
                    if let Some(h) = line.strip_prefix('@') {
                        sub = h.trim().to_string();
                        if let Some(sel) = sub.strip_prefix("loop ") { fc.loops.push(LoopC { sel: sel.trim().to_string(), ..Default::default() }); sub = "inv".into(); }
                        if let Some(sel) = sub.strip_prefix("after_call ") { fc.calls.push((sel.trim().to_string(), String::new())); sub = "after_call".into(); }
                        continue;
                    }
                    let t = match sub.as_str() {
                        "spec" => &mut fc.spec, "entry" => &mut fc.entry, "exit" => &mut fc.exit, "attr" => &mut fc.attr, "vars" => &mut fc.vars,
                        "inv" => &mut fc.loops.last_mut().unwrap().inv,
                        "pre" => &mut fc.loops.last_mut().unwrap().pre,
                        "start" => &mut fc.loops.last_mut().unwrap().start,
                        "end" => &mut fc.loops.last_mut().unwrap().end,
                        "after" => &mut fc.loops.last_mut().unwrap().after,
                        "after_call" => &mut fc.calls.last_mut().unwrap().1,
                        x => panic!("unknown subsection {x} in {key}"),
                    };
                    t.push_str(line); t.push('\n');
                }
                "impl" => { let t = c.impls.entry(key.clone()).or_default(); t.push_str(line); t.push('\n'); }
                "trait" => { let t = c.traits.entry(key.clone()).or_default(); t.push_str(line); t.push('\n'); }
                "module" => { let t = c.modules.entry(key.clone()).or_default(); t.push_str(line); t.push('\n'); }
                _ => {}
            }
        }
    }
    c
}
