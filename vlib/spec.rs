//! The specification: UAX #15 over the Unicode 16 reference data.  Definitions only.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::data::*;
verus! {
// ---------------------------------------------------------------- UAX #15: decomposition and canonical ordering
/// decomposition of a text, before reordering
pub open spec fn decs(k: Kind, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { dec(k, s[0]) + decs(k, s.drop_first()) }
}
/// canonical ordering: insert c into an ordered text
pub open spec fn ins(t: Seq<char>, c: char) -> Seq<char> decreases t.len() {
    if ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c) { t.push(c) }
    else { ins(t.drop_last(), c).push(t.last()) }
}
pub open spec fn cordf(t: Seq<char>, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { t } else { cordf(ins(t, s[0]), s.drop_first()) }
}
pub open spec fn cord(s: Seq<char>) -> Seq<char> { cordf(Seq::empty(), s) }
/// NFD (C) / NFKD (K)
pub open spec fn nfd(k: Kind, s: Seq<char>) -> Seq<char> { cord(decs(k, s)) }

// ---------------------------------------------------------------- UAX #15: composition (D115, D117)
/// position of the last starter, -1 if there is none
pub open spec fn last_starter(t: Seq<char>) -> int decreases t.len() {
    if t.len() == 0 { -1 } else if ccc(t.last()) == 0 { t.len() - 1 } else { last_starter(t.drop_last()) }
}
/// D115: c, standing after t, is blocked from the starter at l
pub open spec fn blocked(t: Seq<char>, l: int, c: char) -> bool {
    exists|j: int| l < j < t.len() && (ccc(#[trigger] t[j]) == 0 || ccc(t[j]) >= ccc(c))
}
/// D117, one character
pub open spec fn cstep(t: Seq<char>, c: char) -> Seq<char> {
    let l = last_starter(t);
    if l < 0 || blocked(t, l, c) { t.push(c) }
    else { match comp(t[l], c) { Some(p) => t.update(l, p), None => t.push(c) } }
}
pub open spec fn compf(t: Seq<char>, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { t } else { compf(cstep(t, s[0]), s.drop_first()) }
}
/// NFC (C) / NFKC (K)
pub open spec fn nfc(k: Kind, s: Seq<char>) -> Seq<char> { compf(Seq::empty(), nfd(k, s)) }

// ---------------------------------------------------------------- Stream-Safe Text Process (UAX #15, section 13)
/// nonstarters at the start / at the end of a text
pub open spec fn lead(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || ccc(s[0]) == 0 { 0 } else { 1 + lead(s.drop_first()) } }
pub open spec fn trail(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || ccc(s.last()) == 0 { 0 } else { 1 + trail(s.drop_last()) } }

/// count of nonstarters at the end, after a character with decomposition d
pub open spec fn ss_count(n: int, d: Seq<char>) -> int { if lead(d) == d.len() { n + d.len() } else { trail(d) } }
pub open spec fn CGJ() -> char { '\u{034F}' }
/// UAX15-D4, with n nonstarters before s
pub open spec fn ssf(n: int, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let d = dec(Kind::K, s[0]);
        if n + lead(d) > 30 { seq![CGJ(), s[0]] + ssf(ss_count(0, d), s.drop_first()) }
        else { seq![s[0]] + ssf(ss_count(n, d), s.drop_first()) }
    }
}
/// the Stream-Safe Text Process
pub open spec fn ssafe(s: Seq<char>) -> Seq<char> { ssf(0, s) }
/// no run of more than 30 nonstarters in NFKD (canonical ordering moves no starter, so NFKD has the runs of its unordered form)
pub open spec fn short_runs(s: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i <= j <= s.len() && (forall|t: int| i <= t < j ==> ccc(#[trigger] s[t]) != 0) ==> #[trigger] in_run(i, j) ==> j - i <= 30 }
pub open spec fn in_run(i: int, j: int) -> bool { true }
pub open spec fn stream_safe_text(s: Seq<char>) -> bool { short_runs(nfd(Kind::K, s)) }

/// CJK compatibility ideographs replaced by their standardized variation sequences
pub open spec fn variants(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { variant(s[0]) + variants(s.drop_first()) }
}

// ---------------------------------------------------------------- stable sort, as the reordering uses it
pub open spec fn sins<T>(t: Seq<T>, x: T, key: spec_fn(T) -> int) -> Seq<T> decreases t.len() {
    if t.len() == 0 || key(t.last()) <= key(x) { t.push(x) } else { sins(t.drop_last(), x, key).push(t.last()) }
}
/// the stable sort of s by key (insertion sort as its definition)
pub open spec fn ssort<T>(s: Seq<T>, key: spec_fn(T) -> int) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { sins(ssort(s.drop_last(), key), s.last(), key) }
}
} // verus!
