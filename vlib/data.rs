//! Character data: the reference tables (ucd.rs) as functions of a char, and what the texts about them rely on.
//! The functions on chars are closed: outside this module only the facts stated here are known.
#![allow(unused_imports, dead_code, nonstandard_style)]
use vstd::prelude::*;
use crate::ucd::*;
verus! {
#[derive(PartialEq, Eq, Structural)]
pub enum Kind { C, K }

pub open spec fn SB() -> int { 0xAC00 }
pub open spec fn LB() -> int { 0x1100 }
pub open spec fn VB() -> int { 0x1161 }
pub open spec fn TB() -> int { 0x11A7 }
pub open spec fn scalar(x: int) -> bool { 0 <= x <= 0xD7FF || 0xE000 <= x <= 0x10FFFF }
/// the char with a given scalar value
pub uninterp spec fn chr(x: int) -> char;
/// trusted: the chars are exactly the scalar values
pub axiom fn ax_chr(x: int) requires scalar(x) ensures chr(x) as int == x;
pub axiom fn ax_scalar(c: char) ensures scalar(c as int);
pub broadcast proof fn chr_int(c: char) ensures #[trigger] chr(c as int) == c { ax_scalar(c); ax_chr(c as int); }

// ---------------------------------------------------------------- on code points
pub open spec fn hang_i(x: int) -> bool { 0xAC00 <= x < 0xAC00 + 11172 }
pub open spec fn jamo_i(x: int) -> bool { 0x1100 <= x < 0x1200 }
pub open spec fn has_i(kk: bool, x: int) -> bool { (kk && U_kec_find(x) >= 0) || U_dec_find(x) >= 0 }
/// where the decomposition of x is listed: position * 32 + length, 0 if nowhere
pub open spec fn loc(kk: bool, x: int) -> int {
    let f = if kk { U_kec_find(x) } else { -1 };
    if f >= 0 { U_kec_v(f) } else { let g = U_dec_find(x); if g >= 0 { U_dec_v(g) } else { 0 } }
}
pub open spec fn len_i(kk: bool, x: int) -> int { let l = loc(kk, x); if l == 0 { 1 } else { l % 32 } }
pub open spec fn at_i(kk: bool, x: int, t: int) -> int { let l = loc(kk, x); if l == 0 { x } else { U_codes(l / 32 + t) } }
pub open spec fn ccc_i(x: int) -> int { let f = U_ccc_find(x); if f < 0 { 0 } else { U_ccc_v(f) } }
pub open spec fn mark_i(x: int) -> bool { U_mark_find(x) >= 0 }
pub open spec fn comp_i(a: int, b: int) -> int { let f = U_comp_find(a * 0x110000 + b); if f < 0 { -1 } else { U_comp_v(f) } }
pub open spec fn sec_i(x: int) -> bool { U_sec_find(x) >= 0 || (VB() <= x < VB() + 21) || (TB() < x < TB() + 28) }
pub open spec fn vloc(x: int) -> int { let g = U_var_find(x); if g >= 0 { U_var_v(g) } else { 0 } }

// ---------------------------------------------------------------- on chars
/// Canonical_Combining_Class
pub closed spec fn ccc(c: char) -> u8 { ccc_i(c as int) as u8 }
/// General_Category = Mark
pub closed spec fn is_mark(c: char) -> bool { mark_i(c as int) }
/// assigned and not private use
pub closed spec fn public_assigned(c: char) -> bool { asg_tree(c as int) == 1 }
pub open spec fn hangul(c: char) -> bool { hang_i(c as int) }
pub open spec fn hangul_dec(c: char) -> Seq<char> {
    let s = c as int - SB();
    let lv = seq![chr(LB() + s / 588), chr(VB() + (s % 588) / 28)];
    if s % 28 == 0 { lv } else { lv.push(chr(TB() + s % 28)) }
}
/// is there a decomposition in the tables (Hangul syllables are decomposed by arithmetic)
pub closed spec fn has_dec(k: Kind, c: char) -> bool { has_i(k == Kind::K, c as int) }
/// full canonical (C) / compatibility (K) decomposition of one character
pub closed spec fn dec(k: Kind, c: char) -> Seq<char> {
    if hangul(c) { hangul_dec(c) } else { Seq::new(len_i(k == Kind::K, c as int) as nat, |t: int| chr(at_i(k == Kind::K, c as int, t))) }
}
/// standardized variation sequence of a CJK compatibility ideograph
pub closed spec fn has_variant(c: char) -> bool { vloc(c as int) != 0 }
pub closed spec fn variant(c: char) -> Seq<char> {
    let l = vloc(c as int);
    if l == 0 { seq![c] } else { Seq::new((l % 32) as nat, |t: int| chr(U_codes(l / 32 + t))) }
}
/// primary composite of a pair
pub open spec fn hangul_comp(a: char, b: char) -> Option<char> {
    let (x, y) = (a as int, b as int);
    if LB() <= x < LB() + 19 && VB() <= y < VB() + 21 { Some(chr(SB() + ((x - LB()) * 21 + (y - VB())) * 28)) }
    else if hangul(a) && (x - SB()) % 28 == 0 && TB() < y < TB() + 28 { Some(chr(x + (y - TB()))) }
    else { None }
}
pub closed spec fn table_comp(a: char, b: char) -> Option<char> {
    let p = comp_i(a as int, b as int);
    if p < 0 { None } else { Some(chr(p)) }
}
#[verifier::opaque]
pub open spec fn comp(a: char, b: char) -> Option<char> {
    match hangul_comp(a, b) { Some(p) => Some(p), None => table_comp(a, b) }
}
/// can be the second of a composing pair
pub closed spec fn second(c: char) -> bool { sec_i(c as int) }

/// quick-check value: 0 Yes, 1 No, 2 Maybe (comp: NFC/NFKC, otherwise NFD/NFKD)
pub closed spec fn qc(k: Kind, comp: bool, c: char) -> int {
    let x = c as int;
    if comp { if k == Kind::C { qt_nfc(x) } else { qt_nfkc(x) } } else { if k == Kind::C { qt_nfd(x) } else { qt_nfkd(x) } }
}

// ---------------------------------------------------------------- the bridge between the two
pub proof fn b_ccc(c: char) ensures ccc(c) as int == ccc_i(c as int), (ccc(c) != 0) == (U_ccc_find(c as int) >= 0), hangul(c) || jamo_i(c as int) ==> ccc(c) == 0
{ all_ccc(c as int); }
pub proof fn b_mark(c: char) ensures is_mark(c) == mark_i(c as int) {}
pub proof fn b_assigned(c: char) ensures public_assigned(c) == (asg_tree(c as int) == 1) {}
pub proof fn b_qc(c: char)
    ensures qc(Kind::C, true, c) == qt_nfc(c as int), qc(Kind::K, true, c) == qt_nfkc(c as int), qc(Kind::C, false, c) == qt_nfd(c as int), qc(Kind::K, false, c) == qt_nfkd(c as int)
{}
pub proof fn b_has(k: Kind, c: char) ensures has_dec(k, c) == has_i(k == Kind::K, c as int) {}
pub proof fn b_dec(k: Kind, c: char)
    requires !hangul(c)
    ensures 1 <= dec(k, c).len() <= 18, dec(k, c).len() == len_i(k == Kind::K, c as int),
        forall|t: int| 0 <= t < dec(k, c).len() ==> (#[trigger] dec(k, c)[t]) as int == at_i(k == Kind::K, c as int, t),
        jamo_i(c as int) ==> !has_dec(k, c)
{
    let kk = k == Kind::K;
    let x = c as int;
    ax_scalar(c);
    fact_dec(kk, x);
    assert forall|t: int| 0 <= t < dec(k, c).len() implies (#[trigger] dec(k, c)[t]) as int == at_i(kk, x, t) by { ax_chr(at_i(kk, x, t)); }
}
pub proof fn b_dec_none(k: Kind, c: char) requires !hangul(c), !has_dec(k, c) ensures dec(k, c) == seq![c], dec(Kind::C, c) == seq![c]
{ broadcast use chr_int; assert(dec(k, c) =~= seq![c]); assert(dec(Kind::C, c) =~= seq![c]); }
pub proof fn b_dec_hangul(k: Kind, c: char) requires hangul(c) ensures dec(k, c) == hangul_dec(c) {}
pub proof fn b_comp(a: char, b: char) ensures table_comp(a, b) is Some == (comp_i(a as int, b as int) >= 0),
    table_comp(a, b) is Some ==> table_comp(a, b)->0 as int == comp_i(a as int, b as int) && !hangul(a) && !hangul(b) && !hangul(table_comp(a, b)->0)
{ ax_scalar(a); ax_scalar(b); if comp_i(a as int, b as int) >= 0 { fact_comp(a as int, b as int); ax_chr(comp_i(a as int, b as int)); } }
pub proof fn b_second(c: char) ensures second(c) == sec_i(c as int) {}
pub proof fn b_variant(c: char) ensures has_variant(c) == (vloc(c as int) != 0), !has_variant(c) ==> variant(c) == seq![c],
    has_variant(c) ==> !hangul(c) && variant(c).len() == 2 && vloc(c as int) % 32 == 2
        && variant(c)[0] as int == U_codes(vloc(c as int) / 32) && variant(c)[1] as int == U_codes(vloc(c as int) / 32 + 1)
{ if has_variant(c) { fact_var(c as int); ax_chr(U_codes(vloc(c as int) / 32)); ax_chr(U_codes(vloc(c as int) / 32 + 1)); } }

// ---------------------------------------------------------------- facts on code points, evaluated entry by entry
pub open spec fn codes_ok(kk: bool, l: int, t: int, n: int) -> bool decreases n - t {
    if t >= n { true } else {
        let d = U_codes(l / 32 + t);
        scalar(d) && !has_i(kk, d) && !hang_i(d) && codes_ok(kk, l, t + 1, n)
    }
}
pub open spec fn codes_at(kk: bool, l: int, t: int) -> bool { let d = U_codes(l / 32 + t); scalar(d) && !has_i(kk, d) && !hang_i(d) }
pub proof fn codes_ok_at(kk: bool, l: int, t: int, n: int, j: int) requires codes_ok(kk, l, t, n), t <= j < n ensures codes_at(kk, l, j) decreases n - t
{ if t < j { codes_ok_at(kk, l, t + 1, n, j); } }

pub open spec fn one_ccc(i: int) -> bool { 0 < U_ccc_v(i) < 256 && (U_ccc_e(i) < 0x1100 || 0x1200 <= U_ccc_k(i)) && (U_ccc_e(i) < 0xAC00 || 0xAC00 + 11172 <= U_ccc_k(i)) }
pub proof fn all_ccc(x: int) ensures 0 <= ccc_i(x) < 256, (ccc_i(x) != 0) == (U_ccc_find(x) >= 0), hang_i(x) || jamo_i(x) ==> ccc_i(x) == 0
{ if U_ccc_find(x) >= 0 { crate::evals::ccc::all(U_ccc_find(x)); } }
pub open spec fn one_dec(i: int) -> bool {
    let l = U_dec_v(i); let x = U_dec_k(i);
    1 <= l % 32 <= 18 && 0 <= l && !hang_i(x) && !jamo_i(x) && codes_ok(false, l, 0, l % 32) && (U_kec_find(x) >= 0 || codes_ok(true, l, 0, l % 32))
}
pub open spec fn one_kec(i: int) -> bool {
    let l = U_kec_v(i); let x = U_kec_k(i);
    1 <= l % 32 <= 18 && 0 < l && !hang_i(x) && !jamo_i(x) && codes_ok(true, l, 0, l % 32)
}
pub open spec fn one_var(i: int) -> bool {
    let l = U_var_v(i); let x = U_var_k(i);
    l % 32 == 2 && 0 < l && !hang_i(x) && scalar(U_codes(l / 32)) && scalar(U_codes(l / 32 + 1))
      && plain_i(U_codes(l / 32)) && plain_i(U_codes(l / 32 + 1)) && sel_i(U_codes(l / 32 + 1))
}
/// variation selectors
pub open spec fn sel_i(x: int) -> bool { 0xFE00 <= x <= 0xFE0F }
/// a starter that nothing before it takes in, and that has no decomposition
pub open spec fn plain_i(x: int) -> bool { ccc_i(x) == 0 && !has_i(false, x) && !hang_i(x) && !sec_i(x) }

/// fold the pairs of a list from the left: does it compose back to p
pub open spec fn fold_i(a: int, l: int, t: int, n: int) -> int decreases n - t {
    if t >= n { a } else { let p = comp_i(a, U_codes(l / 32 + t)); if p < 0 { -1 } else { fold_i(p, l, t + 1, n) } }
}
/// dec(kk, p) == dec(kk, a) + dec(kk, b) from position t on
pub open spec fn cat_eq(kk: bool, p: int, a: int, b: int, t: int, n: int) -> bool decreases n - t {
    if t >= n { true } else {
        let la = len_i(kk, a);
        at_i(kk, p, t) == (if t < la { at_i(kk, a, t) } else { at_i(kk, b, t - la) }) && cat_eq(kk, p, a, b, t + 1, n)
    }
}
pub open spec fn one_comp(i: int) -> bool {
    let k = U_comp_k(i); let a = k / 0x110000; let b = k % 0x110000; let p = U_comp_v(i);
    scalar(p) && 0 <= a && !hang_i(a) && !jamo_i(a) && !sel_i(a) && !hang_i(b) && !hang_i(p) && ccc_i(a) == 0 && ccc_i(p) == 0 && U_sec_find(b) >= 0
      && !has_i(true, b) && has_i(false, p)
      && ((a < 0x10000 && b < 0x10000) || comp_ast(a, b) == p)
      && len_i(false, p) == len_i(false, a) + 1 && cat_eq(false, p, a, b, 0, len_i(false, p))
      && len_i(true, p) == len_i(true, a) + 1 && cat_eq(true, p, a, b, 0, len_i(true, p))
      && qt_nfc(p) != 1 && (qt_nfkc(p) != 1 || U_kec_find(p) >= 0)
}

/// nonstarters at the start / the end of the compatibility decomposition
pub open spec fn lead_i(x: int, t: int, n: int) -> int decreases n - t { if t >= n { 0 } else if ccc_i(at_i(true, x, t)) == 0 { 0 } else { 1 + lead_i(x, t + 1, n) } }
pub open spec fn trail_i(x: int, n: int) -> int decreases n { if n <= 0 { 0 } else if ccc_i(at_i(true, x, n - 1)) == 0 { 0 } else { 1 + trail_i(x, n - 1) } }
pub open spec fn lead_ok(x: int) -> bool { lead_tree(x) == lead_i(x, 0, len_i(true, x)) }
/// decs(K, dec(C, x)) == dec(K, x), walking both
pub open spec fn kcat(x: int, l: int, t: int, n: int, at: int) -> bool decreases n - t {
    if t >= n { at == len_i(true, x) } else { let d = U_codes(l / 32 + t); kcat1(x, d, at, 0, len_i(true, d)) && kcat(x, l, t + 1, n, at + len_i(true, d)) }
}
pub open spec fn kcat1(x: int, d: int, at: int, t: int, n: int) -> bool decreases n - t {
    if t >= n { true } else { at_i(true, x, at + t) == at_i(true, d, t) && kcat1(x, d, at, t + 1, n) }
}
/// a canonical decomposition is in canonical order
pub open spec fn ord_i(l: int, t: int, n: int) -> bool decreases n - t {
    if t + 1 >= n { true } else { let b = ccc_i(U_codes(l / 32 + t + 1)); (b == 0 || ccc_i(U_codes(l / 32 + t)) <= b) && ord_i(l, t + 1, n) }
}
pub open spec fn one_ld(i: int) -> bool {
    let x = U_dec_k(i); let l = U_dec_v(i);
    lead_ok(x) && kcat(x, l, 0, l % 32, 0) && ord_i(l, 0, l % 32)
}
pub open spec fn one_lk(i: int) -> bool {
    let x = U_kec_k(i); let l = U_kec_v(i);
    lead_ok(x) && ord_i(l, 0, l % 32) && (U_dec_find(x) >= 0 || ccc_i(x) == 0) && kdiff(x, 0, l % 32)
}
/// the compatibility decomposition is not the canonical one
pub open spec fn kdiff(x: int, t: int, n: int) -> bool decreases n - t {
    if n != len_i(false, x) { true } else if t >= n { false } else { at_i(true, x, t) != at_i(false, x, t) || kdiff(x, t + 1, n) }
}
/// what a Yes answer means for a character that decomposes: it composes back, and nothing before it can swallow its first character
pub open spec fn one_yes(i: int) -> bool {
    let x = U_dec_k(i); let l = U_dec_v(i);
    (qt_nfc(x) == 0 ==> fold_i(U_codes(l / 32), l, 1, l % 32) == x && !sec_i(U_codes(l / 32)) && ccc_i(x) == 0)
      && qt_nfd(x) == 1 && qt_nfkd(x) == 1 && (U_kec_find(x) >= 0 ==> qt_nfkc(x) != 0)
      && (qt_nfkc(x) == 0 ==> qt_nfc(x) == 0)
}
pub open spec fn one_yesk(i: int) -> bool { let x = U_kec_k(i); qt_nfkd(x) == 1 && qt_nfkc(x) != 0 }
pub open spec fn one_sec(i: int) -> bool { let x = U_sec_k(i); qt_nfc(x) != 0 && qt_nfkc(x) != 0 && !jamo_i(x) }
/// every character of the range [lo, hi) has a decomposition
pub open spec fn has_all(kk: bool, lo: int, hi: int) -> bool decreases hi - lo { if lo >= hi { true } else { has_i(kk, lo) && has_all(kk, lo + 1, hi) } }
pub proof fn has_all_at(kk: bool, lo: int, hi: int, x: int) requires has_all(kk, lo, hi), lo <= x < hi ensures has_i(kk, x) decreases hi - lo { if lo < x { has_all_at(kk, lo + 1, hi, x); } }
pub proof fn fact_dec(kk: bool, x: int)
    requires !hang_i(x), scalar(x)
    ensures 1 <= len_i(kk, x) <= 18, forall|t: int| 0 <= t < len_i(kk, x) ==> scalar(#[trigger] at_i(kk, x, t)),
        has_i(kk, x) ==> forall|t: int| 0 <= t < len_i(kk, x) ==> !has_i(kk, #[trigger] at_i(kk, x, t)) && !hang_i(at_i(kk, x, t)),
        (loc(kk, x) != 0) == has_i(kk, x), jamo_i(x) ==> !has_i(kk, x),
{
    let f = U_kec_find(x); let g = U_dec_find(x); let l = loc(kk, x);
    if kk && f >= 0 { crate::evals::kec::all(f); }
    if g >= 0 { crate::evals::dec::all(g); }
    assert forall|t: int| 0 <= t < len_i(kk, x) && l != 0 implies codes_at(kk, l, t) by { codes_ok_at(kk, l, 0, l % 32, t); }
    assert forall|t: int| 0 <= t < len_i(kk, x) implies scalar(#[trigger] at_i(kk, x, t)) && (has_i(kk, x) ==> !has_i(kk, at_i(kk, x, t)) && !hang_i(at_i(kk, x, t))) by {
        if l != 0 { assert(codes_at(kk, l, t)); }
    }
}
pub proof fn fact_var(x: int)
    requires vloc(x) != 0
    ensures !hang_i(x), vloc(x) % 32 == 2, scalar(U_codes(vloc(x) / 32)), scalar(U_codes(vloc(x) / 32 + 1))
{ crate::evals::var::all(U_var_find(x)); }
pub proof fn fact_var_some(x: int) requires U_var_find(x) >= 0 ensures vloc(x) != 0, vloc(x) > 0, !hang_i(x), vloc(x) % 32 == 2, scalar(U_codes(vloc(x) / 32)), scalar(U_codes(vloc(x) / 32 + 1))
{ crate::evals::var::all(U_var_find(x)); }
pub proof fn fact_var_plain(x: int)
    requires vloc(x) != 0
    ensures plain_i(U_codes(vloc(x) / 32)), plain_i(U_codes(vloc(x) / 32 + 1)), sel_i(U_codes(vloc(x) / 32 + 1))
{ crate::evals::var::all(U_var_find(x)); }
pub proof fn cat_at(kk: bool, p: int, a: int, b: int, t: int, n: int, j: int)
    requires cat_eq(kk, p, a, b, t, n), t <= j < n
    ensures at_i(kk, p, j) == (if j < len_i(kk, a) { at_i(kk, a, j) } else { at_i(kk, b, j - len_i(kk, a)) })
    decreases n - t
{ if t < j { cat_at(kk, p, a, b, t + 1, n, j); } }
pub proof fn fact_comp(a: int, b: int)
    requires scalar(a), scalar(b), comp_i(a, b) >= 0
    ensures ({ let p = comp_i(a, b);
        scalar(p) && !hang_i(a) && !jamo_i(a) && !sel_i(a) && !hang_i(b) && !hang_i(p) && ccc_i(a) == 0 && ccc_i(p) == 0 && U_sec_find(b) >= 0 && !has_i(true, b) && has_i(false, p)
          && ((a < 0x10000 && b < 0x10000) || comp_ast(a, b) == p) && len_i(true, p) == len_i(true, a) + 1 && len_i(false, p) == len_i(false, a) + 1 })
{
    let f = U_comp_find(a * 0x110000 + b);
    crate::evals::comp::all(f);
    comp_key(a, b, U_comp_k(f));
}
proof fn comp_key(a: int, b: int, k: int) requires k == a * 0x110000 + b, 0 <= b < 0x110000 ensures k / 0x110000 == a, k % 0x110000 == b
{ assert(k / 0x110000 == a && k % 0x110000 == b) by (nonlinear_arith) requires k == a * 0x110000 + b, 0 <= b < 0x110000; }
pub proof fn fact_comp_at(a: int, b: int, kk: bool, t: int)
    requires scalar(a), scalar(b), comp_i(a, b) >= 0, 0 <= t < len_i(kk, comp_i(a, b))
    ensures at_i(kk, comp_i(a, b), t) == (if t < len_i(kk, a) { at_i(kk, a, t) } else { b })
{
    let f = U_comp_find(a * 0x110000 + b);
    crate::evals::comp::all(f);
    comp_key(a, b, U_comp_k(f));
    let p = comp_i(a, b);
    if kk { cat_at(true, p, a, b, 0, len_i(true, p), t); } else { cat_at(false, p, a, b, 0, len_i(false, p), t); }
    assert(!has_i(true, b) && loc(kk, b) == 0);
}
pub proof fn fact_comp_qt(a: int, b: int) requires scalar(a), scalar(b), comp_i(a, b) >= 0 ensures qt_nfc(comp_i(a, b)) != 1, qt_nfkc(comp_i(a, b)) == 1 ==> U_kec_find(comp_i(a, b)) >= 0
{ crate::evals::comp::all(U_comp_find(a * 0x110000 + b)); }
/// nothing is listed for the ASCII characters
pub open spec fn plain_all(x: int, hi: int) -> bool decreases hi - x { if x >= hi { true } else { ccc_i(x) == 0 && !has_i(true, x) && vloc(x) == 0 && qt_nfc(x) == 0 && qt_nfkc(x) == 0 && qt_nfd(x) == 0 && qt_nfkd(x) == 0 && plain_all(x + 1, hi) } }
proof fn plain_at(x: int, hi: int, y: int) requires plain_all(x, hi), x <= y < hi ensures ccc_i(y) == 0, !has_i(true, y), vloc(y) == 0, qt_nfc(y) == 0, qt_nfkc(y) == 0, qt_nfd(y) == 0, qt_nfkd(y) == 0 decreases hi - x { if x < y { plain_at(x + 1, hi, y); } }
#[verifier::spinoff_prover] proof fn plain_ascii() ensures plain_all(0, 0x80) { assert(plain_all(0, 0x80)) by (compute_only); }
pub proof fn b_ascii(c: char) requires c as int <= 0x7f ensures ccc(c) == 0, !has_dec(Kind::K, c), !has_dec(Kind::C, c), !has_variant(c)
{ plain_ascii(); plain_at(0, 0x80, c as int); }
pub proof fn b_ascii_qc(k: Kind, comp: bool, c: char) requires c as int <= 0x7f ensures qc(k, comp, c) == 0 { plain_ascii(); plain_at(0, 0x80, c as int); }
} // verus!
