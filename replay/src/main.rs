//! Looks for concrete inputs on which the real crate breaks a property.  The deciding step of the checks is the
//! deductive verifier; this finds the failing input of a failed obligation, and stands in (bounded, labelled so) for
//! functions that have been brought out of the verifier's reach.
mod gen;
mod refr;
mod watch;
use gen::{Pools, Rng};
use refr::Ucd;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};
use unicode_normalization as un;
use un::char as uc;
use un::{IsNormalized, UnicodeNormalization};

type R = Result<(), String>;
fn hex(s: &[char]) -> String { s.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" ") }
fn show(s: &[char]) -> String { if s.len() > 60 { format!("{} ... ({} chars)", hex(&s[..60]), s.len()) } else { hex(s) } }
fn diff(what: &str, got: &[char], want: &[char]) -> R {
    if got == want { return Ok(()); }
    Err(format!("{what}: got [{}] expected [{}]", show(got), show(want)))
}
fn valid(s: &[char]) -> bool { s.iter().all(|c| char::from_u32(*c as u32).is_some()) }
const FORMS: [&str; 4] = ["nfd", "nfkd", "nfc", "nfkc"];
fn cap(n: usize) -> usize { n * 19 + 64 }
/// drain by next(), bounded
fn drain<I: Iterator<Item = char>>(mut it: I, n: usize) -> Result<Vec<char>, String> {
    let mut v = vec![];
    while let Some(c) = it.next() { v.push(c); if v.len() > cap(n) { return Err(format!("does not end: {} characters from {n}", v.len())); } }
    Ok(v)
}
fn real(f: usize, s: &[char]) -> Result<Vec<char>, String> {
    let it = s.iter().copied();
    match f { 0 => drain(it.nfd(), s.len()), 1 => drain(it.nfkd(), s.len()), 2 => drain(it.nfc(), s.len()), _ => drain(it.nfkc(), s.len()) }
}
fn bulk(f: usize, s: &[char]) -> Vec<char> {
    let it = s.iter().copied();
    let n = cap(s.len());
    match f { 0 => it.nfd().take(n).collect(), 1 => it.nfkd().take(n).collect(), 2 => it.nfc().take(n).collect(), _ => it.nfkc().take(n).collect() }
}
fn string(s: &[char]) -> String { s.iter().collect() }

// ---- sources
/// counts what is taken from it; after its end it can start again (not fused)
struct Src { s: Vec<char>, pos: usize, reads: Rc<Cell<usize>>, nones: Rc<Cell<usize>>, refill: bool, hint: u8 }
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.pos < self.s.len() { self.pos += 1; self.reads.set(self.reads.get() + 1); return Some(self.s[self.pos - 1]); }
        if self.pos == self.s.len() || !self.refill { self.pos += 1; self.nones.set(self.nones.get() + 1); return None; }
        self.pos += 1; self.reads.set(self.reads.get() + 1); self.nones.set(self.nones.get() + 1);
        if self.pos % 5 == 0 { None } else { Some(['x', '\u{301}', 'e', '\u{1161}'][self.pos % 4]) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.s.len().saturating_sub(self.pos);
        match self.hint { 0 => (n, Some(n)), 1 => (0, None), 2 => (n, None), 3 => (0, Some(n)), 4 => (n / 2, Some(n + 7)), _ => (n, Some(usize::MAX)) }
    }
}
fn src(s: &[char], refill: bool, hint: u8) -> (Src, Rc<Cell<usize>>, Rc<Cell<usize>>) {
    let (r, n) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    (Src { s: s.to_vec(), pos: 0, reads: r.clone(), nones: n.clone(), refill, hint }, r, n)
}

struct Ctx { u: Ucd, p: Pools }
fn forms_of(prop: &str) -> &'static [usize] { match prop { "C01" => &[0, 1], "C02" => &[2, 3], _ => &[0, 1, 2, 3] } }

fn c_forms(x: &Ctx, prop: &str, s: &[char]) -> R {
    for &f in forms_of(prop) {
        let want = x.u.form(f, s);
        diff(FORMS[f], &real(f, s)?, &want)?;
        diff(&format!("{} collected", FORMS[f]), &bulk(f, s), &want)?;
    }
    // every intermediate point: a clone taken there yields the rest
    if s.len() <= 40 {
        macro_rules! mid { ($m:ident, $f:expr) => { if forms_of(prop).contains(&$f) {
            let want = x.u.form($f, s);
            let mut it = s.iter().copied().$m();
            for k in 0..=want.len() {
                let rest: Vec<char> = it.clone().take(cap(s.len())).collect();
                diff(&format!("{} after {k} characters", FORMS[$f]), &rest, &want[k..])?;
                let _ = it.next();
            }
        } } }
        mid!(nfd, 0); mid!(nfkd, 1); mid!(nfc, 2); mid!(nfkc, 3);
    }
    Ok(())
}
fn c03(x: &Ctx, s: &[char]) -> R {
    let r: Vec<Vec<char>> = (0..4).map(|f| real(f, s)).collect::<Result<_, _>>()?;
    for f in 0..4 { diff(&format!("{0}({0}(s))", FORMS[f]), &real(f, &r[f])?, &r[f])?; }
    for f in 0..4 { for g in 0..4 {
        // g(f(s)): compatibility if either is, composed iff g is
        let h = if f % 2 == 1 || g % 2 == 1 { 1 + (g / 2) * 2 } else { (g / 2) * 2 };
        diff(&format!("{}({}(s)) against {}(s)", FORMS[g], FORMS[f], FORMS[h]), &real(g, &r[f])?, &r[h])?;
    } }
    // equivalent texts have the same forms: reorder marks that may be exchanged
    let d = x.u.nfd(false, s);
    let mut t = s.to_vec();
    let mut changed = false;
    for i in 1..t.len() { let (a, b) = (x.u.ccc(t[i - 1]), x.u.ccc(t[i])); if a != 0 && b != 0 && a != b { t.swap(i - 1, i); changed = true; } }
    if changed && x.u.nfd(false, &t) == d { for f in 0..4 { diff(&format!("{} of a canonically equivalent text [{}]", FORMS[f], show(&t)), &real(f, &t)?, &r[f])?; } }
    if (real(0, &d)? == r[0]) != (real(2, &d)? == r[2]) { return Err("NFD and NFC disagree on equivalence".into()); }
    Ok(())
}
fn quick(f: usize, s: &[char]) -> IsNormalized {
    let it = s.iter().copied();
    match f { 0 => un::is_nfd_quick(it), 1 => un::is_nfkd_quick(it), 2 => un::is_nfc_quick(it), _ => un::is_nfkc_quick(it) }
}
fn exact(f: usize, t: &str) -> bool { match f { 0 => un::is_nfd(t), 1 => un::is_nfkd(t), 2 => un::is_nfc(t), _ => un::is_nfkc(t) } }
fn near(x: &Ctx, s: &[char]) -> Vec<Vec<char>> { let mut v = vec![s.to_vec()]; for f in 0..4 { v.push(x.u.form(f, s)); } v.dedup(); v }
fn c04(x: &Ctx, s: &[char]) -> R {
    for t in near(x, s) { for f in 0..4 {
        let is = x.u.form(f, &t) == t;
        match quick(f, &t) {
            IsNormalized::Yes => if !is { return Err(format!("is_{}_quick([{}]) is Yes, but the text is not in that form", FORMS[f], show(&t))); },
            IsNormalized::No => if is { return Err(format!("is_{}_quick([{}]) is No, but the text is in that form", FORMS[f], show(&t))); },
            IsNormalized::Maybe => if f < 2 { return Err(format!("is_{}_quick([{}]) is Maybe", FORMS[f], show(&t))); },
        }
    } }
    Ok(())
}
fn c05(x: &Ctx, s: &[char]) -> R {
    for t in near(x, s) { let st = string(&t); for f in 0..4 {
        let is = x.u.form(f, &t) == t;
        if exact(f, &st) != is { return Err(format!("is_{}([{}]) is {}, expected {}", FORMS[f], show(&t), !is, is)); }
    } }
    Ok(())
}
fn c06(x: &Ctx, s: &[char]) -> R {
    let want = x.u.stream_safe(s);
    let got = drain(s.iter().copied().stream_safe(), s.len())?;
    diff("stream_safe", &got, &want)?;
    let got2: Vec<char> = s.iter().copied().stream_safe().take(cap(s.len())).collect();
    diff("stream_safe collected", &got2, &want)?;
    if !x.u.safe(&got) { return Err("the output is not stream-safe".into()); }
    diff("stream_safe(stream_safe(s))", &drain(got.iter().copied().stream_safe(), got.len())?, &got)
}
fn c07(x: &Ctx, s: &[char]) -> R {
    let mut v = near(x, s);
    let ss = x.u.stream_safe(s);
    v.extend(near(x, &ss));
    for t in v { let st = string(&t); for f in [0, 2] {
        let want = x.u.form(f, &t) == t && x.u.safe(&t);
        let (n, e, q) = if f == 0 { ("nfd", un::is_nfd_stream_safe(&st), un::is_nfd_stream_safe_quick(t.iter().copied())) } else { ("nfc", un::is_nfc_stream_safe(&st), un::is_nfc_stream_safe_quick(t.iter().copied())) };
        if e != want { return Err(format!("is_{n}_stream_safe([{}]) is {e}, expected {want}", show(&t))); }
        if q == IsNormalized::Yes && !want || q == IsNormalized::No && want { return Err(format!("is_{n}_stream_safe_quick([{}]) is {q:?}, exact answer {want}", show(&t))); }
    } }
    Ok(())
}
fn c08(x: &Ctx, s: &[char]) -> R {
    let mut v = vec![];
    if x.u.safe(s) { v.push(s.to_vec()); } else { v.push(x.u.stream_safe(s)); }
    v.push(drain(s.iter().copied().stream_safe(), s.len())?);
    for t in v { for f in 0..4 {
        let r = real(f, &t)?;
        if !x.u.safe(&r) { return Err(format!("{} of the stream-safe text [{}] is not stream-safe: [{}]", FORMS[f], show(&t), show(&r))); }
    } }
    // stream-safe, then normalized: both
    for f in 0..4 {
        let r = match f { 0 => drain(s.iter().copied().stream_safe().nfd(), s.len() * 2), 1 => drain(s.iter().copied().stream_safe().nfkd(), s.len() * 2), 2 => drain(s.iter().copied().stream_safe().nfc(), s.len() * 2), _ => drain(s.iter().copied().stream_safe().nfkc(), s.len() * 2) }?;
        if x.u.form(f, &r) != r { return Err(format!("{} after stream_safe is not normalized: [{}]", FORMS[f], show(&r))); }
    }
    Ok(())
}
fn c13(x: &Ctx, s: &[char]) -> R {
    let want = x.u.variants(s);
    diff("cjk_compat_variants", &drain(s.iter().copied().cjk_compat_variants(), s.len())?, &want)?;
    diff("cjk_compat_variants collected", &s.iter().copied().cjk_compat_variants().take(cap(s.len())).collect::<Vec<_>>(), &want)?;
    if s.len() <= 40 {
        let mut it = s.iter().copied().cjk_compat_variants();
        for k in 0..=want.len() {
            diff(&format!("cjk_compat_variants after {k} characters"), &it.clone().take(cap(s.len())).collect::<Vec<_>>(), &want[k..])?;
            let _ = it.next();
        }
    }
    for &c in s {
        let mut v = vec![]; uc::decompose_cjk_compat_variants(c, |d| v.push(d));
        diff(&format!("decompose_cjk_compat_variants({:04X})", c as u32), &v, &x.u.variant(c))?;
        // no canonical normalization loses the selector
        if v.len() == 2 { for f in [0, 2] {
            let mut t: Vec<char> = s.to_vec(); t.retain(|z| *z != c);
            let at = t.len() / 2; t.splice(at..at, v.iter().copied());
            let r = real(f, &t)?;
            let i = r.iter().position(|z| *z == v[0]);
            if !i.map_or(false, |_| r.windows(2).any(|w| w == &v[..])) { return Err(format!("{} of [{}] loses the variation sequence", FORMS[f], show(&t))); }
        } }
    }
    Ok(())
}
/// how many characters of the source have to be read for each call, the last entry being the call that answers None
fn need(x: &Ctx, f: usize, s: &[char]) -> Vec<usize> {
    // D[i]: the source characters after which item i of the decomposition is known
    let mut known: Vec<usize> = vec![];
    let mut len = 0;
    for (i, &c) in s.iter().enumerate() {
        let mut d = vec![]; x.u.dec(f % 2 == 1, c, &mut d);
        for z in d { len += 1; if x.u.ccc(z) == 0 { while known.len() < len { known.push(i + 1); } } }
    }
    let end = s.len() + 1;
    while known.len() < len { known.push(end); }
    if f < 2 { known.push(end); return known; }
    let d = x.u.nfd(f % 2 == 1, s);
    let mut out: Vec<usize> = vec![];
    let mut comp: Option<char> = None;
    let (mut pend, mut last): (usize, Option<u8>) = (0, None);
    for (m, &c) in d.iter().enumerate() {
        let k = x.u.ccc(c);
        match comp {
            None => if k != 0 { out.push(known[m]); } else { comp = Some(c); },
            Some(a) => {
                let free = match last { None => true, Some(l) => l < k };
                if free { if let Some(p) = x.u.compose(a, c) { comp = Some(p); continue; } }
                if k == 0 { for _ in 0..1 + pend { out.push(known[m]); } pend = 0; last = None; comp = Some(c); }
                else { pend += 1; last = Some(k); }
            }
        }
    }
    if comp.is_some() { for _ in 0..1 + pend { out.push(end); } }
    out.push(end);
    out
}
fn c14(x: &Ctx, s: &[char]) -> R {
    macro_rules! lazy { ($m:ident, $f:expr) => {{
        let nd = need(x, $f, s);
        let (it, reads, nones) = src(s, false, 1);
        let mut it = it.$m();
        if reads.get() + nones.get() > 0 { return Err(format!("{} reads its source before next()", FORMS[$f])); }
        for (k, &n) in nd.iter().enumerate() {
            let r = it.next();
            let used = reads.get() + nones.get().min(1);
            if used > n { return Err(format!("{}: call {} has read {} of the source, {} determine its answer", FORMS[$f], k + 1, used, n)); }
            if r.is_none() { break; }
        }
    }} }
    lazy!(nfd, 0); lazy!(nfkd, 1); lazy!(nfc, 2); lazy!(nfkc, 3);
    macro_rules! one { ($m:ident, $n:expr) => {{
        let (it, reads, nones) = src(s, false, 1);
        let mut it = it.$m();
        let mut k = 0;
        loop {
            let before = reads.get() + nones.get();
            let r = it.next();
            let used = reads.get() + nones.get() - before;
            if used > 1 { return Err(format!("{}: one call reads {} characters", $n, used)); }
            k += 1;
            if r.is_none() || k > cap(s.len()) { break; }
        }
    }} }
    one!(stream_safe, "stream_safe"); one!(cjk_compat_variants, "cjk_compat_variants");
    // and per call no further than the character being put out
    let (it, reads, _) = src(s, false, 1);
    let mut it = it.stream_safe();
    let mut at = 0;
    for &c in &x.u.stream_safe(s) { let _ = it.next(); if !(c == '\u{34F}' && s.get(at) != Some(&c)) { at += 1; } if reads.get() > at.max(1) + 1 || reads.get() > at + 1 { return Err(format!("stream_safe reads {} characters for {at}", reads.get())); } }
    let (it, reads, _) = src(s, false, 1);
    let mut it = it.cjk_compat_variants();
    for (i, &c) in s.iter().enumerate() { for _ in x.u.variant(c) { let _ = it.next(); if reads.get() > i + 1 { return Err(format!("cjk_compat_variants reads {} characters for {}", reads.get(), i + 1)); } } }
    Ok(())
}
fn c15(x: &Ctx, s: &[char]) -> R {
    if s.len() < 60 && s.iter().any(|c| c.is_ascii()) { endless(s)?; }
    macro_rules! fused { ($m:ident, $f:expr) => {{
        let (it, _reads, nones) = src(s, true, 1);
        let mut it = it.$m();
        let mut out = vec![];
        let mut seen = 0;
        for _ in 0..cap(s.len()) {
            match it.next() { Some(c) => { if seen > 0 { return Err(format!("{}: a character after None", FORMS[$f])); } out.push(c); } None => { seen += 1; if seen > 6 { break; } } }
            if nones.get() > 1 { return Err(format!("{}: the source is polled again after its None", FORMS[$f])); }
        }
        diff(&format!("{} of a source that starts again after None", FORMS[$f]), &out, &real($f, s)?)?;
    }} }
    fused!(nfd, 0); fused!(nfkd, 1); fused!(nfc, 2); fused!(nfkc, 3);
    let mut r = Rng(s.len() as u64 * 77 + 12345);
    macro_rules! hints { ($m:ident, $n:expr) => {
        for h in 0..6u8 {
            let (it, _, _) = src(s, false, h);
            let total = drain(src(s, false, h).0.$m(), s.len() * 2)?.len();
            let mut it = it.$m();
            for k in 0..=total {
                if total < 50 || r.below(20) == 0 || k == total {
                    let (lo, hi) = it.size_hint();
                    let left = total - k;
                    if lo > left || hi.map_or(false, |z| z < left) { return Err(format!("{}: size_hint {:?} with {} characters to come (after {k}, source hint kind {h})", $n, (lo, hi), left)); }
                }
                let _ = it.next();
            }
            for _ in 0..3 { let (lo, _) = it.size_hint(); if lo > 0 { return Err(format!("{}: size_hint {lo} after the end", $n)); } }
        }
    } }
    if s.len() < 200 {
        hints!(nfd, "nfd"); hints!(nfkd, "nfkd"); hints!(nfc, "nfc"); hints!(nfkc, "nfkc"); hints!(stream_safe, "stream_safe"); hints!(cjk_compat_variants, "cjk_compat_variants");
    }
    // the provided methods agree with next()
    if s.len() < 60 {
        macro_rules! prov { ($m:ident, $n:expr) => {{
            let all = drain(s.iter().copied().$m(), s.len() * 2)?;
            let n = s.iter().copied().$m().take(cap(s.len())).count();
            if n != all.len() { return Err(format!("{}: count() {n}, {} characters", $n, all.len())); }
            let mut fo = vec![]; s.iter().copied().$m().for_each(|c| fo.push(c));
            diff(&format!("{}: for_each", $n), &fo, &all)?;
            for k in 0..=all.len() { if s.iter().copied().$m().nth(k) != all.get(k).copied() { return Err(format!("{}: nth({k})", $n)); } }
            if s.iter().copied().$m().last() != all.last().copied() { return Err(format!("{}: last()", $n)); }
        }} }
        prov!(nfd, "nfd"); prov!(nfkd, "nfkd"); prov!(nfc, "nfc"); prov!(nfkc, "nfkc"); prov!(stream_safe, "stream_safe"); prov!(cjk_compat_variants, "cjk_compat_variants");
    }
    let _ = x;
    Ok(())
}
fn c16(_x: &Ctx, s: &[char]) -> R {
    let st = string(s);
    let n = s.len() * 2;
    macro_rules! same { ($m:ident, $ctor:path, $nm:expr) => {{
        let a = drain(st.as_str().$m(), n)?;
        diff(&format!("{} of a char iterator against the str", $nm), &drain(s.iter().copied().$m(), n)?, &a)?;
        diff(&format!("{} of a filtered iterator against the str", $nm), &drain(st.chars().filter(|_| true).$m(), n)?, &a)?;
        diff(&format!("{} against its constructor", $nm), &drain($ctor(st.chars()), n)?, &a)?;
        if s.len() == 1 { diff(&format!("{} of the char against the str", $nm), &drain(s[0].$m(), n)?, &a)?; }
        a
    }} }
    let d = same!(nfd, un::Decompositions::new_canonical, "nfd");
    let kd = same!(nfkd, un::Decompositions::new_compatible, "nfkd");
    let c = same!(nfc, un::Recompositions::new_canonical, "nfc");
    let kc = same!(nfkc, un::Recompositions::new_compatible, "nfkc");
    let _ = same!(cjk_compat_variants, un::Replacements::new_cjk_compat_variants, "cjk_compat_variants");
    let _ = same!(stream_safe, un::StreamSafe::new, "stream_safe");
    // the exported checks against the forms they are named after, as the crate itself computes them
    for (f, r) in [(0, &d), (1, &kd), (2, &c), (3, &kc)] { let _ = (f, r); }
    Ok(())
}
/// each name runs what it says, on texts where the forms differ
fn c16_names(x: &Ctx) -> Result<(), (Vec<char>, String)> {
    let ts: Vec<Vec<char>> = ["\u{e9}", "e\u{301}", "\u{fb01}", "\u{fb01}\u{e9}", "\u{fb01}e\u{301}", "\u{f900}", "\u{ac00}", "\u{1100}\u{1161}", "\u{b2}", "\u{212b}", "a\u{315}\u{300}", "abc", ""].iter().map(|t| t.chars().collect()).chain([std::iter::once('a').chain(std::iter::repeat('\u{300}').take(40)).collect::<Vec<char>>()]).collect();
    for t in ts {
        let e = |m: String| (t.clone(), m);
        let st = string(&t);
        macro_rules! say { ($m:ident, $w:expr, $n:expr) => {{
            let w: Vec<char> = $w;
            diff(&format!("str {}", $n), &drain(st.as_str().$m(), 99).map_err(e)?, &w).map_err(e)?;
            diff(&format!("iterator {}", $n), &drain(t.iter().copied().$m(), 99).map_err(e)?, &w).map_err(e)?;
            if t.len() == 1 { diff(&format!("char {}", $n), &drain(t[0].$m(), 99).map_err(e)?, &w).map_err(e)?; }
        }} }
        say!(nfd, x.u.form(0, &t), "nfd"); say!(nfkd, x.u.form(1, &t), "nfkd"); say!(nfc, x.u.form(2, &t), "nfc"); say!(nfkc, x.u.form(3, &t), "nfkc");
        say!(cjk_compat_variants, x.u.variants(&t), "cjk_compat_variants"); say!(stream_safe, x.u.stream_safe(&t), "stream_safe");
        diff("Decompositions::new_canonical", &drain(un::Decompositions::new_canonical(st.chars()), 99).map_err(e)?, &x.u.form(0, &t)).map_err(e)?;
        diff("Decompositions::new_compatible", &drain(un::Decompositions::new_compatible(st.chars()), 99).map_err(e)?, &x.u.form(1, &t)).map_err(e)?;
        diff("Recompositions::new_canonical", &drain(un::Recompositions::new_canonical(st.chars()), 99).map_err(e)?, &x.u.form(2, &t)).map_err(e)?;
        diff("Recompositions::new_compatible", &drain(un::Recompositions::new_compatible(st.chars()), 99).map_err(e)?, &x.u.form(3, &t)).map_err(e)?;
        for f in 0..4 {
            let is = x.u.form(f, &t) == t;
            if exact(f, &st) != is { return Err(e(format!("is_{} is {}", FORMS[f], !is))); }
            let q = quick(f, &t);
            if q == IsNormalized::Yes && !is || q == IsNormalized::No && is { return Err(e(format!("is_{}_quick is {q:?}", FORMS[f]))); }
        }
        let sf = x.u.safe(&t);
        if un::is_nfc_stream_safe(&st) != (sf && x.u.form(2, &t) == t) { return Err(e("is_nfc_stream_safe".into())); }
        if un::is_nfd_stream_safe(&st) != (sf && x.u.form(0, &t) == t) { return Err(e("is_nfd_stream_safe".into())); }
    }
    Ok(())
}
struct Full { left: usize, got: String, after: usize }
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() { if self.left == 0 { self.after += 1; return Err(std::fmt::Error); } self.left -= 1; self.got.push(c); }
        Ok(())
    }
}
/// sources without an end: a lower bound at the limit of usize, no upper bound
fn endless(s: &[char]) -> R {
    macro_rules! e { ($m:ident, $n:expr) => {{
        let mut it = s.iter().copied().cycle().$m();
        for k in 0..2 * s.len() + 4 {
            if let (_, Some(u)) = it.size_hint() { return Err(format!("{}: after {k} characters of an endless text size_hint has the upper bound {u}", $n)); }
            if it.next().is_none() { return Err(format!("{}: an endless text ends after {k} characters", $n)); }
        }
    }} }
    e!(nfd, "nfd"); e!(nfkd, "nfkd"); e!(nfc, "nfc"); e!(nfkc, "nfkc"); e!(stream_safe, "stream_safe"); e!(cjk_compat_variants, "cjk_compat_variants");
    Ok(())
}
fn c17(_x: &Ctx, s: &[char]) -> R {
    let mut r = Rng(s.len() as u64 * 991 + 7);
    macro_rules! disp { ($m:ident, $n:expr) => {{
        let mut it = s.iter().copied().$m();
        let all: Vec<char> = s.iter().copied().$m().take(cap(s.len())).collect();
        let mut k = 0;
        loop {
            if s.len() < 40 || r.below(12) == 0 {
                let rest: String = all.iter().skip(k).collect();
                let text = match r.below(8) { 0 => format!("{:#}", it), 1 => format!("{:40}", it), 2 => format!("{:.1}", it), 3 => format!("{:>+09.3}", it), _ => format!("{}", it) };
                if text != rest { return Err(format!("{}: Display after {k} characters writes [{}], iterating yields [{}]", $n, show(&text.chars().collect::<Vec<_>>()), show(&rest.chars().collect::<Vec<_>>()))); }
                for _ in 0..2 {
                    let n = rest.chars().count();
                    let lim = r.below(n + 2);
                    let mut w = Full { left: lim, got: String::new(), after: 0 };
                    let ok = write!(w, "{}", it).is_ok();
                    let want: String = rest.chars().take(lim).collect();
                    if ok != (lim >= n) { return Err(format!("{}: Display to a writer that takes {lim} of {n} characters answers {}", $n, if ok { "Ok" } else { "Err" })); }
                    if w.got != want { return Err(format!("{}: Display wrote [{}] to a writer that takes {lim}", $n, show(&w.got.chars().collect::<Vec<_>>()))); }
                    if w.after > 1 { return Err(format!("{}: Display goes on after a write error", $n)); }
                }
            }
            let c = it.next();
            if c != all.get(k).copied() { return Err(format!("{}: after formatting, character {k} is {:?} and not {:?}", $n, c, all.get(k))); }
            if c.is_none() || k > cap(s.len()) { break; }
            k += 1;
        }
    }} }
    disp!(nfd, "nfd"); disp!(nfkd, "nfkd"); disp!(nfc, "nfc"); disp!(nfkc, "nfkc"); disp!(cjk_compat_variants, "cjk_compat_variants");
    Ok(())
}
fn c18(_x: &Ctx, s: &[char]) -> R {
    for f in 0..4 { let v = real(f, s)?; if !valid(&v) { return Err(format!("{} makes an invalid char", FORMS[f])); } let _ = quick(f, s); let _ = exact(f, &string(s)); }
    let st = string(s);
    let v = drain(s.iter().copied().stream_safe(), s.len())?;
    let _ = drain(v.iter().copied().nfc(), v.len())?;
    let w = drain(s.iter().copied().cjk_compat_variants(), s.len())?;
    if !valid(&w) { return Err("cjk_compat_variants makes an invalid char".into()); }
    let _ = (un::is_nfc_stream_safe(&st), un::is_nfd_stream_safe(&st));
    for hint in [0u8, 5] {
        let it = src(s, true, hint).0; let mut a = it.nfc(); for _ in 0..s.len() + 4 { let _ = a.size_hint(); let _ = a.next(); } let _ = a.next();
        let it = src(s, true, hint).0; let mut a = it.nfd(); for _ in 0..s.len() + 4 { let _ = a.size_hint(); let _ = a.next(); }
        let it = src(s, true, hint).0; let mut a = it.stream_safe(); for _ in 0..s.len() + 4 { let _ = a.size_hint(); let _ = a.next(); }
        let it = src(s, true, hint).0; let mut a = it.cjk_compat_variants(); for _ in 0..s.len() + 4 { let _ = a.size_hint(); let _ = a.next(); }
    }
    if s.len() < 60 && s.iter().any(|c| c.is_ascii()) { endless(s)?; }
    let mut it = s.iter().copied().nfkc();
    for _ in 0..s.len() / 2 { let _ = it.next(); }
    let _ = format!("{}", it);
    for &c in s { if let Some(p) = uc::compose(s[0], c) { if char::from_u32(p as u32).is_none() { return Err("compose makes an invalid char".into()); } } }
    Ok(())
}
fn text_check(x: &Ctx, prop: &str, s: &[char]) -> R {
    let w = watch::enter(s);
    let r = catch_unwind(AssertUnwindSafe(|| match prop {
        "C01" | "C02" => c_forms(x, prop, s), "C03" => c03(x, s), "C04" => c04(x, s), "C05" => c05(x, s), "C06" => c06(x, s), "C07" => c07(x, s), "C08" => c08(x, s),
        "C13" => c13(x, s), "C14" => c14(x, s), "C15" => c15(x, s), "C16" => c16(x, s), "C17" => c17(x, s), "C18" => c18(x, s), _ => Ok(()),
    }));
    watch::leave(w);
    match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn char_check(x: &Ctx, prop: &str, c: char) -> R {
    let one = [c];
    let w = watch::enter(&one);
    let r = catch_unwind(AssertUnwindSafe(|| -> R {
        match prop {
            "C09" => {
                let (g, w) = (uc::canonical_combining_class(c), x.u.ccc(c));
                if g != w { return Err(format!("canonical_combining_class is {g}, expected {w}")); }
                let (g, w) = (uc::is_combining_mark(c), x.u.mark[c as usize]);
                if g != w { return Err(format!("is_combining_mark is {g}, expected {w}")); }
            }
            "C10" => for kk in [false, true] {
                let mut v = vec![];
                if kk { uc::decompose_compatible(c, |d| v.push(d)) } else { uc::decompose_canonical(c, |d| v.push(d)) }
                let mut w = vec![]; x.u.dec(kk, c, &mut w);
                diff(if kk { "decompose_compatible" } else { "decompose_canonical" }, &v, &w)?;
            },
            "C12" => { let (g, w) = (uc::is_public_assigned(c), x.u.asg[c as usize]); if g != w { return Err(format!("is_public_assigned is {g}, expected {w}")); } }
            _ => {}
        }
        Ok(())
    }));
    watch::leave(w);
    match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn pair_check(x: &Ctx, a: char, b: char) -> R {
    let two = [a, b];
    let w = watch::enter(&two);
    let r = pair_check1(x, a, b);
    watch::leave(w);
    r
}
fn pair_check1(x: &Ctx, a: char, b: char) -> R {
    let g = catch_unwind(AssertUnwindSafe(|| uc::compose(a, b)));
    match g {
        Err(_) => Err("compose panics".into()),
        Ok(g) => {
            let w = x.u.compose(a, b);
            if g != w { return Err(format!("compose is {:?}, expected {:?}", g.map(|c| format!("{:04X}", c as u32)), w.map(|c| format!("{:04X}", c as u32)))); }
            if let Some(p) = g {
                let (mut l, mut r) = (vec![], vec![]);
                let _ = catch_unwind(AssertUnwindSafe(|| { uc::decompose_canonical(p, |d| l.push(d)); uc::decompose_canonical(a, |d| r.push(d)); uc::decompose_canonical(b, |d| r.push(d)); }));
                diff("decomposition of the composite", &l, &r)?;
            }
            Ok(())
        }
    }
}
fn all_chars() -> impl Iterator<Item = char> { (0..0x110000u32).filter_map(char::from_u32) }

/// the texts every text property is tried on first
fn fixed_texts(x: &Ctx) -> Vec<Vec<char>> {
    let p = &x.p;
    let mut v: Vec<Vec<char>> = vec![vec![]];
    v.extend(p.odd.iter().map(|&c| vec![c]));
    for &a in &p.odd { for &b in &p.odd { v.push(vec![a, b]); } }
    for &(a, b, c) in &p.comps {
        v.push(vec![a, b]); v.push(vec![c]); v.push(vec!['a', b, a, b]); v.push(vec![a, b, '\u{323}', 'z']); v.push(vec![a, '\u{327}', b]); v.push(vec![a, '\u{302}', b]); v.push(vec![a, '\u{334}', b]); v.push(vec![a, 'x', b]);
        v.push(vec![a, '\u{34f}', b]); v.push(vec![c, '\u{327}']); v.push(vec![a, a, b, b]); v.push(vec![b, a, c]); v.push(vec![c, b]); v.push(vec![c, c]);
    }
    for &c in p.decs.iter().chain(&p.kdecs) { v.push(vec!['a', '\u{301}', c, '\u{323}', '\u{327}', 'b']); v.push(vec!['\u{e0}', c]); v.push(vec![c, '\u{301}']); }
    for &c in p.lead.iter().chain(&p.all_ns).chain(&p.trail).chain(&p.multi) {
        for n in 26..34 {
            let mut t = vec!['a']; t.extend(std::iter::repeat('\u{300}').take(n)); t.push(c); t.extend(std::iter::repeat('\u{300}').take(3)); v.push(t);
            let mut t = vec![c]; t.extend(std::iter::repeat('\u{323}').take(n)); v.push(t);
            let mut t = vec![]; t.extend(std::iter::repeat('\u{300}').take(n)); t.push(c); t.push(c); v.push(t);
        }
    }
    for n in [5usize, 8, 9, 16, 17, 31, 32, 33, 255, 256, 257, 600] {
        v.push(std::iter::once('a').chain((0..n).map(|i| p.by_ccc[(n * 7 - i) % p.by_ccc.len()][0])).chain("b\u{301}".chars()).collect());
        v.push(std::iter::once('e').chain(std::iter::repeat('\u{316}').take(n)).chain("\u{301}b".chars()).collect());
        v.push(std::iter::repeat('\u{301}').take(n).chain(std::iter::once('b')).collect());
        v.push(std::iter::once('e').chain(std::iter::repeat('\u{301}').take(n)).chain(std::iter::repeat('\u{316}').take(n)).collect());
        v.push(std::iter::repeat('\u{f73}').take(n).collect());
        v.push(std::iter::repeat('\u{ac01}').take(n).collect());
        v.push(std::iter::repeat("\u{1100}\u{1161}\u{11a8}").take(n).flat_map(|t| t.chars()).collect());
        v.push(std::iter::repeat('x').take(n).chain(std::iter::repeat('\u{300}').take(33)).collect());
    }
    v
}
fn big_texts() -> Vec<Vec<char>> {
    let n = 66000;
    vec![
        std::iter::once('e').chain(std::iter::repeat('\u{316}').take(n)).chain("\u{301}b".chars()).collect(),
        (0..n).map(|i| if i % 2 == 0 { '\u{301}' } else { '\u{316}' }).chain("a\u{301}".chars()).collect(),
        std::iter::repeat("a\u{327}\u{301}\u{ac00}\u{11a8}").take(n / 5).flat_map(|t| t.chars()).collect(),
        std::iter::repeat('\u{f73}').take(n / 2).collect(),
    ]
}
/// lengths and classes a form handles specially are all small; the large texts are for counters
struct Found { input: Vec<char>, what: String }
fn shrink(x: &Ctx, prop: &str, s: &[char], what: String) -> Found {
    let (mut best, mut msg) = (s.to_vec(), what);
    let t0 = Instant::now();
    let mut step = (best.len() / 2).max(1);
    loop {
        let mut i = 0; let mut any = false;
        while i < best.len() && t0.elapsed() < Duration::from_secs(5) {
            let mut t = best.clone();
            t.drain(i..(i + step).min(t.len()));
            match text_check(x, prop, &t) { Err(m) => { best = t; msg = m; any = true; } Ok(()) => i += step }
        }
        if t0.elapsed() >= Duration::from_secs(5) { break; }
        if step > 1 { step /= 2; } else if !any { break; }
    }
    Found { input: best, what: msg }
}
fn fnv(h: u64, s: &[char]) -> u64 { let mut h = h ^ 0xff; for &c in s { h = (h ^ c as u64).wrapping_mul(0x100000001b3); } h }
fn observe(s: &[char]) -> u64 {
    let st = string(s);
    let mut h = 0xcbf29ce484222325;
    for f in 0..4 { h = fnv(h, &real(f, s).unwrap_or_default()); h = fnv(h, &[match quick(f, s) { IsNormalized::Yes => 'y', IsNormalized::No => 'n', _ => 'm' }, if exact(f, &st) { '1' } else { '0' }]); }
    h = fnv(h, &drain(s.iter().copied().stream_safe(), s.len()).unwrap_or_default());
    h = fnv(h, &drain(s.iter().copied().cjk_compat_variants(), s.len()).unwrap_or_default());
    h = fnv(h, &[if un::is_nfc_stream_safe(&st) { '1' } else { '0' }, if un::is_nfd_stream_safe(&st) { '1' } else { '0' }]);
    let mut it = s.iter().copied().nfc(); let _ = it.next();
    h = fnv(h, &format!("{} {:?} {:?}", it, it.size_hint(), s.iter().copied().nfkd().size_hint()).chars().collect::<Vec<_>>());
    for &c in s.iter().take(12) { let mut v = vec![]; uc::decompose_canonical(c, |d| v.push(d)); uc::decompose_compatible(c, |d| v.push(d)); uc::decompose_cjk_compat_variants(c, |d| v.push(d)); h = fnv(h, &v);
        h = fnv(h, &[uc::canonical_combining_class(c) as char, if uc::is_combining_mark(c) { '1' } else { '0' }, if uc::is_public_assigned(c) { '1' } else { '0' }, uc::compose(s[0], c).unwrap_or('\0')]); }
    let mut k: Vec<u8> = vec![]; for it in [0u8, 1] { let (sr, reads, _) = src(s, false, it); let mut a = sr.nfkc(); for _ in 0..4 { let _ = a.next(); k.push(reads.get() as u8); } }
    fnv(h, &k.iter().map(|x| *x as char).collect::<Vec<_>>())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: u64| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, ms, threads) = (opt("--seed", 1), opt("--ms", 5000), opt("--threads", 4));
    std::panic::set_hook(Box::new(|i| if std::env::var("VP_PANICS").is_ok() { eprintln!("{i}") }));
    let x = Ctx { u: Ucd::load(), p: Pools::new(&Ucd::load()) };
    let prop = a[1].clone();
    if prop != "dump" { watch::start(if prop == "one" { &a[2] } else { &prop }); }
    if prop == "one" {
        // replay one case: one <property> <code points>
        let s: Vec<char> = a[3..].iter().take_while(|t| !t.starts_with("--")).map(|t| char::from_u32(u32::from_str_radix(t, 16).unwrap()).unwrap()).collect();
        let p = a[2].as_str();
        let r = match p { "C09" | "C10" | "C12" => char_check(&x, p, s[0]), "C11" => pair_check(&x, s[0], s[1]), _ => text_check(&x, p, &s) };
        match r { Ok(()) => println!("HOLDS {p} on [{}]", show(&s)), Err(m) => { println!("FAIL {p} input=[{}] {m}", hex(&s)); std::process::exit(1) } }
        return;
    }
    let evals = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: std::sync::Mutex<Option<Found>> = std::sync::Mutex::new(None);
    let put = |f: Found| { let mut g = found.lock().unwrap(); if g.is_none() || g.as_ref().unwrap().input.len() > f.input.len() { *g = Some(f); } stop.store(true, Ordering::SeqCst); };
    let t0 = Instant::now();
    let limit = Duration::from_millis(ms);
    let n = threads as usize;
    if prop == "dump" {
        // one line per text: what all the public functions make of it (compared between feature settings)
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        let mut texts = fixed_texts(&x);
        texts.extend(x.p.decs.iter().chain(&x.p.kdecs).chain(&x.p.compat).chain(&x.p.marks).map(|&c| vec![c]));
        for _ in 0..opt("--n", 20000) { texts.push(x.p.text(&mut r)); }
        let mut out = String::new();
        for s in &texts { let h = catch_unwind(AssertUnwindSafe(|| observe(s))).unwrap_or(0xdead); let _ = writeln!(out, "{h:016x} {}", hex(s)); }
        // every character, in blocks
        for b in (0..0x110000u32).step_by(64) { let s: Vec<char> = (b..b + 64).filter_map(char::from_u32).collect(); let mut h = 0u64; for c in &s { h = h.wrapping_mul(31) ^ catch_unwind(AssertUnwindSafe(|| observe(&[*c]))).unwrap_or(0xdead); } let _ = writeln!(out, "{h:016x} block {b:04X}"); }
        print!("{out}");
        return;
    }
    let char_prop = matches!(prop.as_str(), "C09" | "C10" | "C12");
    if (char_prop || prop == "C11") && un::UNICODE_VERSION != (16, 0, 0) {
        put(Found { input: vec![], what: format!("UNICODE_VERSION is {:?}, the data is that of 16.0.0", un::UNICODE_VERSION) });
    }
    let mut samples: Vec<String> = vec![];
    if char_prop {
        for c in all_chars() {
            evals.fetch_add(1, Ordering::Relaxed);
            if let Err(m) = char_check(&x, &prop, c) { put(Found { input: vec![c], what: m }); break; }
            if x.u.ccc(c) != 0 || x.u.asg[c as usize] { nontrivial.fetch_add(1, Ordering::Relaxed); }
        }
        samples.push("every Unicode scalar value".into());
    } else if prop == "C11" {
        // all firsts against every character, every character against all seconds, Hangul, and random pairs
        let mut seconds = x.p.seconds.clone(); seconds.extend((0x1161..0x1177u32).chain(0x11A7..0x11C4).filter_map(char::from_u32)); seconds.extend(x.p.odd.iter());
        let mut firsts = x.p.firsts.clone(); firsts.extend((0x1100..0x1114u32).chain([0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3]).filter_map(char::from_u32)); firsts.extend(x.p.odd.iter());
        let all: Vec<char> = all_chars().collect();
        let deadline = limit.max(Duration::from_millis(1000));
        std::thread::scope(|sc| for k in 0..n {
            let (x, all, firsts, seconds, stop, put, evals, nontrivial) = (&x, &all, &firsts, &seconds, &stop, &put, &evals, &nontrivial);
            sc.spawn(move || {
                let go = |a: char, b: char| -> bool { if let Err(m) = pair_check(x, a, b) { put(Found { input: vec![a, b], what: m }); return false; } true };
                for (i, &(p, q, _)) in x.p.comps.iter().enumerate() { if i % n == k && !go(p, q) { return; } }
                // near misses: both characters swapped, moved to other planes, with one bit changed
                for (i, &(p, q, _)) in x.p.comps.iter().enumerate() {
                    if i % n != k { continue; }
                    if !go(q, p) { return; }
                    let alt = |c: char| (0..17u32).map(move |j| (c as u32 & 0xFFFF) | j << 16).chain((0..21).map(move |j| c as u32 ^ 1 << j)).filter_map(char::from_u32).collect::<Vec<_>>();
                    let (v, w) = (alt(p), alt(q));
                    for &a in &v { for &b in &w { if !go(a, b) { return; } } }
                    evals.fetch_add((v.len() * w.len()) as u64, Ordering::Relaxed);
                }
                for (i, &c) in all.iter().enumerate() {
                    if i % n != k { continue; }
                    if stop.load(Ordering::Relaxed) { return; }
                    for &s in seconds { if !go(c, s) { return; } }
                    evals.fetch_add(seconds.len() as u64, Ordering::Relaxed); nontrivial.fetch_add(1, Ordering::Relaxed);
                    if c as u32 >= 0x30000 && i % 97 != k { continue; }
                    if t0.elapsed() < deadline { for &f in firsts { if !go(f, c) { return; } } evals.fetch_add(firsts.len() as u64, Ordering::Relaxed); }
                }
                let mut r = Rng((seed + k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
                while t0.elapsed() < deadline && !stop.load(Ordering::Relaxed) { for _ in 0..4096 { let (a, b) = (x.p.one(&mut r, 0), x.p.one(&mut r, 0)); if !go(a, b) { return; } } evals.fetch_add(4096, Ordering::Relaxed); }
            });
        });
        samples.push("(every character, every second of a composite)".into());
    } else {
        if prop == "C16" { if let Err((s, m)) = catch_unwind(AssertUnwindSafe(|| c16_names(&x))).unwrap_or_else(|_| Err((vec![], "panic".into()))) { put(Found { input: s, what: m }); } }
        let fixed = fixed_texts(&x);
        let all: Vec<char> = all_chars().collect();
        let sample = std::sync::Mutex::new(RefCell::new(vec![]));
        std::thread::scope(|sc| for k in 0..n {
            let (x, fixed, all, stop, put, evals, nontrivial, prop, sample) = (&x, &fixed, &all, &stop, &put, &evals, &nontrivial, prop.as_str(), &sample);
            sc.spawn(move || {
                let go = |s: &[char]| -> bool {
                    evals.fetch_add(1, Ordering::Relaxed);
                    if s.iter().any(|&c| c as u32 > 0xBF) && s.len() > 1 { nontrivial.fetch_add(1, Ordering::Relaxed); }
                    if let Err(m) = text_check(x, prop, s) { put(shrink(x, prop, s, m)); return false; }
                    !stop.load(Ordering::Relaxed)
                };
                for (i, s) in fixed.iter().enumerate() { if i % n == k && !go(s) { return; } }
                for (i, &c) in all.iter().enumerate() {
                    if i % n != k || (c as u32 >= 0x30000 && i % 61 != k) { continue; }
                    if (0x4E00..0x9FFF).contains(&(c as u32)) && i % 7 != k % 7 { continue; }
                    if (0xAC00..0xD7A4).contains(&(c as u32)) && i % 5 != k % 5 { continue; }
                    if (0xE000..0xF900).contains(&(c as u32)) && i % 31 != k % 31 { continue; }
                    if !go(&[c]) { return; }
                    if t0.elapsed() > limit { break; }
                }
                for (i, s) in big_texts().iter().enumerate() { if i % n == k && prop != "C17" && prop != "C15" && !go(s) { return; } }
                let mut r = Rng((seed.wrapping_mul(1000) + k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
                let mut done = 0;
                while t0.elapsed() < limit {
                    let s = x.p.text(&mut r);
                    if done < 3 && k == 0 { sample.lock().unwrap().borrow_mut().push(show(&s)); }
                    done += 1;
                    if !go(&s) { return; }
                }
            });
        });
        samples = sample.into_inner().unwrap().into_inner();
    }
    let f = found.into_inner().unwrap();
    println!("STATS evaluations={} nontrivial={} ms={}", evals.load(Ordering::SeqCst), nontrivial.load(Ordering::SeqCst), t0.elapsed().as_millis());
    for s in samples { println!("SAMPLE {s}"); }
    if let Some(f) = f { println!("FAIL {prop} input=[{}] {}", hex(&f.input), f.what); std::process::exit(1); }
    println!("HOLDS {prop}");
}
