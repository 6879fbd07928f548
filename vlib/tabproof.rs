//! The tables of the code against the reference data: every entry of the reference is found by the code's hash lookup,
//! and every entry the code's tables hold is in the reference.  Both directions are evaluated entry by entry on the
//! index trees the extractor prints from the tables (tabs.rs).
#![allow(unused_imports, dead_code, nonstandard_style)]
use vstd::prelude::*;
use crate::ucd::*;
use crate::data::*;
use crate::tabs::*;
use crate::hash::*;
use crate::spec::*;
verus! {
// ---- canonical combining class
pub open spec fn sl_ccc(x: int) -> int { slot(x, T_CANONICAL_COMBINING_CLASS_SALT(slot(x, 0, N_CANONICAL_COMBINING_CLASS_SALT())), N_CANONICAL_COMBINING_CLASS_SALT()) }
pub open spec fn in_ccc(x: int, e: int) -> bool decreases e - x + 1 { if x > e { true } else { T_CANONICAL_COMBINING_CLASS_KV(sl_ccc(x)) / 256 == x && in_ccc(x + 1, e) } }
pub proof fn in_ccc_at(x: int, e: int, y: int) requires in_ccc(x, e), x <= y <= e ensures T_CANONICAL_COMBINING_CLASS_KV(sl_ccc(y)) / 256 == y decreases e - x + 1 { if x < y { in_ccc_at(x + 1, e, y); } }
pub open spec fn one_cccA(i: int) -> bool { in_ccc(U_ccc_k(i), U_ccc_e(i)) }
pub open spec fn one_cccB(j: int) -> bool { let v = T_CANONICAL_COMBINING_CLASS_KV(j); v % 256 != 0 && ccc_i(v / 256) == v % 256 }
// ---- combining marks
pub open spec fn sl_mark(x: int) -> int { slot(x, T_COMBINING_MARK_SALT(slot(x, 0, N_COMBINING_MARK_SALT())), N_COMBINING_MARK_SALT()) }
pub open spec fn in_mark(x: int, e: int) -> bool decreases e - x + 1 { if x > e { true } else { T_COMBINING_MARK_KV(sl_mark(x)) == x && in_mark(x + 1, e) } }
pub proof fn in_mark_at(x: int, e: int, y: int) requires in_mark(x, e), x <= y <= e ensures T_COMBINING_MARK_KV(sl_mark(y)) == y decreases e - x + 1 { if x < y { in_mark_at(x + 1, e, y); } }
pub open spec fn one_markA(i: int) -> bool { in_mark(U_mark_k(i), U_mark_e(i)) }
pub open spec fn one_markB(j: int) -> bool { mark_i(T_COMBINING_MARK_KV(j)) }
// ---- decompositions
pub open spec fn sl_canon(x: int) -> int { slot(x, T_CANONICAL_DECOMPOSED_SALT(slot(x, 0, N_CANONICAL_DECOMPOSED_SALT())), N_CANONICAL_DECOMPOSED_SALT()) }
pub open spec fn one_canonA(i: int) -> bool { T_CANONICAL_DECOMPOSED_KV_0(sl_canon(U_dec_k(i))) == U_dec_k(i) }
pub open spec fn same_canon(o: int, p: int, n: int) -> bool decreases n { if n <= 0 { true } else { T_CANONICAL_DECOMPOSED_CHARS(o + n - 1) == U_codes(p + n - 1) && same_canon(o, p, n - 1) } }
pub proof fn same_canon_at(o: int, p: int, n: int, t: int) requires same_canon(o, p, n), 0 <= t < n ensures T_CANONICAL_DECOMPOSED_CHARS(o + t) == U_codes(p + t) decreases n { if t < n - 1 { same_canon_at(o, p, n - 1, t); } }
pub open spec fn one_canonB(j: int) -> bool {
    let g = U_dec_find(T_CANONICAL_DECOMPOSED_KV_0(j)); let l = U_dec_v(g);
    g >= 0 && T_CANONICAL_DECOMPOSED_KV_1_1(j) == l % 32 && T_CANONICAL_DECOMPOSED_KV_1_0(j) + l % 32 <= N_CANONICAL_DECOMPOSED_CHARS() && same_canon(T_CANONICAL_DECOMPOSED_KV_1_0(j), l / 32, l % 32)
}
/// the entry the lookup finds: its key is the character iff the reference lists it, and then the characters agree
pub proof fn raw_canon(x: int, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::CANONICAL_DECOMPOSED_SALT@, kv == crate::tables::CANONICAL_DECOMPOSED_KV@, chars == crate::tables::CANONICAL_DECOMPOSED_CHARS@, 0 <= x < 0x110000, chars.len() == N_CANONICAL_DECOMPOSED_CHARS()
    ensures ({ let e = kv[look(x, salt)]; let g = U_dec_find(x); let l = U_dec_v(g);
        (e.0 as int == x) == (g >= 0) && (g >= 0 ==> e.1.1 as int == l % 32 && e.1.0 as int + l % 32 <= chars.len()
            && forall|t: int| 0 <= t < l % 32 ==> (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t)) }),
{
    let n = N_CANONICAL_DECOMPOSED_SALT();
    slot_range(x, 0, n);
    ax_CANONICAL_DECOMPOSED_SALT(slot(x, 0, n));
    let s = T_CANONICAL_DECOMPOSED_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_CANONICAL_DECOMPOSED_KV(j);
    crate::tevals::canonB::all(j);
    let g = U_dec_find(x); let l = U_dec_v(g); let e = kv[look(x, salt)];
    if g >= 0 {
        crate::tevals::canonA::all(g);
        assert forall|t: int| 0 <= t < l % 32 implies (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t) by {
            same_canon_at(e.1.0 as int, l / 32, l % 32, t); ax_CANONICAL_DECOMPOSED_CHARS(e.1.0 as int + t);
        }
    }
}
pub open spec fn sl_compat(x: int) -> int { slot(x, T_COMPATIBILITY_DECOMPOSED_SALT(slot(x, 0, N_COMPATIBILITY_DECOMPOSED_SALT())), N_COMPATIBILITY_DECOMPOSED_SALT()) }
pub open spec fn one_compatA(i: int) -> bool { T_COMPATIBILITY_DECOMPOSED_KV_0(sl_compat(U_kec_k(i))) == U_kec_k(i) }
pub open spec fn same_compat(o: int, p: int, n: int) -> bool decreases n { if n <= 0 { true } else { T_COMPATIBILITY_DECOMPOSED_CHARS(o + n - 1) == U_codes(p + n - 1) && same_compat(o, p, n - 1) } }
pub proof fn same_compat_at(o: int, p: int, n: int, t: int) requires same_compat(o, p, n), 0 <= t < n ensures T_COMPATIBILITY_DECOMPOSED_CHARS(o + t) == U_codes(p + t) decreases n { if t < n - 1 { same_compat_at(o, p, n - 1, t); } }
pub open spec fn one_compatB(j: int) -> bool {
    let g = U_kec_find(T_COMPATIBILITY_DECOMPOSED_KV_0(j)); let l = U_kec_v(g);
    g >= 0 && T_COMPATIBILITY_DECOMPOSED_KV_1_1(j) == l % 32 && T_COMPATIBILITY_DECOMPOSED_KV_1_0(j) + l % 32 <= N_COMPATIBILITY_DECOMPOSED_CHARS() && same_compat(T_COMPATIBILITY_DECOMPOSED_KV_1_0(j), l / 32, l % 32)
}
/// the entry the lookup finds: its key is the character iff the reference lists it, and then the characters agree
pub proof fn raw_compat(x: int, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::COMPATIBILITY_DECOMPOSED_SALT@, kv == crate::tables::COMPATIBILITY_DECOMPOSED_KV@, chars == crate::tables::COMPATIBILITY_DECOMPOSED_CHARS@, 0 <= x < 0x110000, chars.len() == N_COMPATIBILITY_DECOMPOSED_CHARS()
    ensures ({ let e = kv[look(x, salt)]; let g = U_kec_find(x); let l = U_kec_v(g);
        (e.0 as int == x) == (g >= 0) && (g >= 0 ==> e.1.1 as int == l % 32 && e.1.0 as int + l % 32 <= chars.len()
            && forall|t: int| 0 <= t < l % 32 ==> (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t)) }),
{
    let n = N_COMPATIBILITY_DECOMPOSED_SALT();
    slot_range(x, 0, n);
    ax_COMPATIBILITY_DECOMPOSED_SALT(slot(x, 0, n));
    let s = T_COMPATIBILITY_DECOMPOSED_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_COMPATIBILITY_DECOMPOSED_KV(j);
    crate::tevals::compatB::all(j);
    let g = U_kec_find(x); let l = U_kec_v(g); let e = kv[look(x, salt)];
    if g >= 0 {
        crate::tevals::compatA::all(g);
        assert forall|t: int| 0 <= t < l % 32 implies (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t) by {
            same_compat_at(e.1.0 as int, l / 32, l % 32, t); ax_COMPATIBILITY_DECOMPOSED_CHARS(e.1.0 as int + t);
        }
    }
}
pub open spec fn sl_cjk(x: int) -> int { slot(x, T_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT(slot(x, 0, N_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT())), N_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT()) }
pub open spec fn one_cjkA(i: int) -> bool { T_CJK_COMPAT_VARIANTS_DECOMPOSED_KV_0(sl_cjk(U_var_k(i))) == U_var_k(i) }
pub open spec fn same_cjk(o: int, p: int, n: int) -> bool decreases n { if n <= 0 { true } else { T_CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS(o + n - 1) == U_codes(p + n - 1) && same_cjk(o, p, n - 1) } }
pub proof fn same_cjk_at(o: int, p: int, n: int, t: int) requires same_cjk(o, p, n), 0 <= t < n ensures T_CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS(o + t) == U_codes(p + t) decreases n { if t < n - 1 { same_cjk_at(o, p, n - 1, t); } }
pub open spec fn one_cjkB(j: int) -> bool {
    let g = U_var_find(T_CJK_COMPAT_VARIANTS_DECOMPOSED_KV_0(j)); let l = U_var_v(g);
    g >= 0 && T_CJK_COMPAT_VARIANTS_DECOMPOSED_KV_1_1(j) == l % 32 && T_CJK_COMPAT_VARIANTS_DECOMPOSED_KV_1_0(j) + l % 32 <= N_CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS() && same_cjk(T_CJK_COMPAT_VARIANTS_DECOMPOSED_KV_1_0(j), l / 32, l % 32)
}
/// the entry the lookup finds: its key is the character iff the reference lists it, and then the characters agree
pub proof fn raw_cjk(x: int, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_SALT@, kv == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_KV@, chars == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS@, 0 <= x < 0x110000, chars.len() == N_CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS()
    ensures ({ let e = kv[look(x, salt)]; let g = U_var_find(x); let l = U_var_v(g);
        (e.0 as int == x) == (g >= 0) && (g >= 0 ==> e.1.1 as int == l % 32 && e.1.0 as int + l % 32 <= chars.len()
            && forall|t: int| 0 <= t < l % 32 ==> (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t)) }),
{
    let n = N_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT();
    slot_range(x, 0, n);
    ax_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT(slot(x, 0, n));
    let s = T_CJK_COMPAT_VARIANTS_DECOMPOSED_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_CJK_COMPAT_VARIANTS_DECOMPOSED_KV(j);
    crate::tevals::cjkB::all(j);
    let g = U_var_find(x); let l = U_var_v(g); let e = kv[look(x, salt)];
    if g >= 0 {
        crate::tevals::cjkA::all(g);
        assert forall|t: int| 0 <= t < l % 32 implies (#[trigger] chars[e.1.0 as int + t]) as int == U_codes(l / 32 + t) by {
            same_cjk_at(e.1.0 as int, l / 32, l % 32, t); ax_CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS(e.1.0 as int + t);
        }
    }
}
// ---- composition
pub open spec fn sl_comp(x: int) -> int { slot(x, T_COMPOSITION_TABLE_SALT(slot(x, 0, N_COMPOSITION_TABLE_SALT())), N_COMPOSITION_TABLE_SALT()) }
pub open spec fn one_compA(i: int) -> bool {
    let a = U_comp_k(i) / 0x110000; let b = U_comp_k(i) % 0x110000; let k = a * 65536 + b;
    a >= 65536 || b >= 65536 || T_COMPOSITION_TABLE_KV_0(sl_comp(k)) == k
}
pub open spec fn one_compB(j: int) -> bool { let k = T_COMPOSITION_TABLE_KV_0(j); comp_i(k / 65536, k % 65536) == T_COMPOSITION_TABLE_KV_1(j) && T_COMPOSITION_TABLE_KV_1(j) > 0 }
// ---- trailing nonstarters
pub open spec fn sl_trail(x: int) -> int { slot(x, T_TRAILING_NONSTARTERS_SALT(slot(x, 0, N_TRAILING_NONSTARTERS_SALT())), N_TRAILING_NONSTARTERS_SALT()) }
pub open spec fn lk_trail(x: int) -> int { let v = T_TRAILING_NONSTARTERS_KV(sl_trail(x)); if v / 256 == x { v % 256 } else { 0 } }
pub open spec fn one_trailA(i: int) -> bool { let x = U_dec_k(i); U_kec_find(x) >= 0 || lk_trail(x) == trail_i(x, len_i(true, x)) }
pub open spec fn one_trailB(i: int) -> bool { let x = U_kec_k(i); lk_trail(x) == trail_i(x, len_i(true, x)) }

// ---------------------------------------------------------------- what the lookups answer, for every character
pub proof fn tab_ccc(c: char, salt: Seq<u16>, kv: Seq<u32>)
    requires salt == crate::tables::CANONICAL_COMBINING_CLASS_SALT@, kv == crate::tables::CANONICAL_COMBINING_CLASS_KV@
    ensures ({ let e = kv[look(c as int, salt)]; ccc(c) as int == (if e as int / 256 == c as int { e as int % 256 } else { 0 }) }),
{
    let x = c as int;
    ax_scalar(c);
    b_ccc(c);
    let n = N_CANONICAL_COMBINING_CLASS_SALT();
    slot_range(x, 0, n);
    ax_CANONICAL_COMBINING_CLASS_SALT(slot(x, 0, n));
    let s = T_CANONICAL_COMBINING_CLASS_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_CANONICAL_COMBINING_CLASS_KV(j);
    crate::tevals::cccB::all(j);
    let f = U_ccc_find(x);
    if f >= 0 { crate::tevals::cccA::all(f); in_ccc_at(U_ccc_k(f), U_ccc_e(f), x); }
}
pub proof fn tab_mark(c: char, salt: Seq<u16>, kv: Seq<u32>)
    requires salt == crate::tables::COMBINING_MARK_SALT@, kv == crate::tables::COMBINING_MARK_KV@
    ensures ({ let e = kv[look(c as int, salt)]; is_mark(c) == (e as int == c as int) }),
{
    let x = c as int;
    ax_scalar(c);
    b_mark(c);
    let n = N_COMBINING_MARK_SALT();
    slot_range(x, 0, n);
    ax_COMBINING_MARK_SALT(slot(x, 0, n));
    let s = T_COMBINING_MARK_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_COMBINING_MARK_KV(j);
    crate::tevals::markB::all(j);
    let f = U_mark_find(x);
    if f >= 0 { crate::tevals::markA::all(f); in_mark_at(U_mark_k(f), U_mark_e(f), x); }
}
/// canonical table: listed iff the character has a canonical decomposition, and then it is that
pub proof fn tab_canon(c: char, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::CANONICAL_DECOMPOSED_SALT@, kv == crate::tables::CANONICAL_DECOMPOSED_KV@, chars == crate::tables::CANONICAL_DECOMPOSED_CHARS@
    ensures ({ let e = kv[look(c as int, salt)];
        (e.0 as int == c as int) == has_dec(Kind::C, c)
          && (has_dec(Kind::C, c) ==> !hangul(c) && e.1.0 + e.1.1 <= chars.len() && chars.subrange(e.1.0 as int, e.1.0 + e.1.1) == dec(Kind::C, c)) }),
{
    let x = c as int;
    ax_scalar(c);
    b_has(Kind::C, c);
    raw_canon(x, salt, kv, chars);
    let e = kv[look(x, salt)];
    if has_dec(Kind::C, c) {
        crate::evals::dec::all(U_dec_find(x));
        b_dec(Kind::C, c);
        assert forall|t: int| 0 <= t < e.1.1 implies #[trigger] chars.subrange(e.1.0 as int, e.1.0 + e.1.1)[t] == dec(Kind::C, c)[t] by { let _ = chars[e.1.0 as int + t]; }
        assert(chars.subrange(e.1.0 as int, e.1.0 + e.1.1) =~= dec(Kind::C, c));
    }
}
/// compatibility table: found or not, together with the canonical one it gives the compatibility decomposition
pub proof fn tab_compat(c: char, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::COMPATIBILITY_DECOMPOSED_SALT@, kv == crate::tables::COMPATIBILITY_DECOMPOSED_KV@, chars == crate::tables::COMPATIBILITY_DECOMPOSED_CHARS@
    ensures ({ let e = kv[look(c as int, salt)];
        (e.0 as int == c as int ==> has_dec(Kind::K, c) && !hangul(c) && e.1.0 + e.1.1 <= chars.len() && chars.subrange(e.1.0 as int, e.1.0 + e.1.1) == dec(Kind::K, c))
          && (e.0 as int != c as int ==> has_dec(Kind::K, c) == has_dec(Kind::C, c) && dec(Kind::K, c) == dec(Kind::C, c)) }),
{
    let x = c as int;
    ax_scalar(c);
    b_has(Kind::C, c); b_has(Kind::K, c);
    raw_compat(x, salt, kv, chars);
    let e = kv[look(x, salt)];
    if e.0 as int == x {
        crate::evals::kec::all(U_kec_find(x));
        b_dec(Kind::K, c);
        assert forall|t: int| 0 <= t < e.1.1 implies #[trigger] chars.subrange(e.1.0 as int, e.1.0 + e.1.1)[t] == dec(Kind::K, c)[t] by { let _ = chars[e.1.0 as int + t]; }
        assert(chars.subrange(e.1.0 as int, e.1.0 + e.1.1) =~= dec(Kind::K, c));
    } else if hangul(c) { b_dec_hangul(Kind::C, c); b_dec_hangul(Kind::K, c); }
    else {
        b_dec(Kind::C, c); b_dec(Kind::K, c);
        assert(dec(Kind::K, c) =~= dec(Kind::C, c));
    }
}
#[verifier::rlimit(80)]
pub proof fn tab_cjk(c: char, salt: Seq<u16>, kv: Seq<(u32, (u16, u16))>, chars: Seq<char>)
    requires salt == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_SALT@, kv == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_KV@, chars == crate::tables::CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS@
    ensures ({ let e = kv[look(c as int, salt)];
        (e.0 as int == c as int) == has_variant(c)
          && (has_variant(c) ==> e.1.0 + e.1.1 <= chars.len() && chars.subrange(e.1.0 as int, e.1.0 + e.1.1) == variant(c)) }),
{
    let x = c as int;
    ax_scalar(c);
    b_variant(c);
    raw_cjk(x, salt, kv, chars);
    let e = kv[look(x, salt)];
    if U_var_find(x) >= 0 {
        fact_var_some(x);
        assert forall|t: int| 0 <= t < e.1.1 implies #[trigger] chars.subrange(e.1.0 as int, e.1.0 + e.1.1)[t] == variant(c)[t] by { let _ = chars[e.1.0 as int + t]; }
        assert(chars.subrange(e.1.0 as int, e.1.0 + e.1.1) =~= variant(c));
    }
}
pub proof fn tab_trail(c: char, salt: Seq<u16>, kv: Seq<u32>)
    requires salt == crate::tables::TRAILING_NONSTARTERS_SALT@, kv == crate::tables::TRAILING_NONSTARTERS_KV@, has_dec(Kind::K, c)
    ensures ({ let e = kv[look(c as int, salt)]; trail_i(c as int, len_i(true, c as int)) == (if e as int / 256 == c as int { e as int % 256 } else { 0 }) }),
{
    let x = c as int;
    ax_scalar(c);
    b_has(Kind::K, c);
    let n = N_TRAILING_NONSTARTERS_SALT();
    slot_range(x, 0, n);
    ax_TRAILING_NONSTARTERS_SALT(slot(x, 0, n));
    let s = T_TRAILING_NONSTARTERS_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_TRAILING_NONSTARTERS_KV(j);
    if U_kec_find(x) >= 0 { crate::tevals::trailB::all(U_kec_find(x)); } else { crate::tevals::trailA::all(U_dec_find(x)); }
}
pub proof fn tab_comp(a: char, b: char, salt: Seq<u16>, kv: Seq<(u32, char)>)
    requires salt == crate::tables::COMPOSITION_TABLE_SALT@, kv == crate::tables::COMPOSITION_TABLE_KV@, (a as int) < 0x10000, (b as int) < 0x10000
    ensures ({ let x = a as int * 65536 + b as int; let e = kv[look(x, salt)];
        table_comp(a, b) == (if e.0 as int == x { Some(e.1) } else { None::<char> }) }),
{
    ax_scalar(a); ax_scalar(b);
    b_comp(a, b);
    let x = a as int * 65536 + b as int;
    let n = N_COMPOSITION_TABLE_SALT();
    slot_range(x, 0, n);
    ax_COMPOSITION_TABLE_SALT(slot(x, 0, n));
    let s = T_COMPOSITION_TABLE_SALT(slot(x, 0, n));
    slot_range(x, s, n);
    let j = slot(x, s, n);
    ax_COMPOSITION_TABLE_KV(j);
    crate::tevals::compB::all(j);
    assert(x / 65536 == a as int && x % 65536 == b as int);
    let f = U_comp_find(a as int * 0x110000 + b as int);
    if f >= 0 { crate::tevals::compA::all(f); assert(U_comp_k(f) == a as int * 0x110000 + b as int); assert(U_comp_k(f) / 0x110000 == a as int && U_comp_k(f) % 0x110000 == b as int); }
}
pub proof fn tab_comp_astral(a: char, b: char)
    requires a as int >= 0x10000 || b as int >= 0x10000
    ensures match table_comp(a, b) { Some(p) => p as int == comp_ast(a as int, b as int) && p as int >= 0, None => comp_ast(a as int, b as int) < 0 }
{
    ax_scalar(a); ax_scalar(b);
    b_comp(a, b);
    if comp_ast(a as int, b as int) >= 0 { crate::walks::ast_listed(a as int, b as int); }
    if comp_i(a as int, b as int) >= 0 { fact_comp(a as int, b as int); }
}
/// leading and trailing nonstarters on chars
pub proof fn lead_eq(c: char, t: int)
    requires !hangul(c), 0 <= t <= dec(Kind::K, c).len()
    ensures lead(dec(Kind::K, c).skip(t)) == lead_i(c as int, t, len_i(true, c as int))
    decreases dec(Kind::K, c).len() - t
{
    let d = dec(Kind::K, c);
    b_dec(Kind::K, c);
    if t < d.len() { b_ccc(d[t]); assert(d.skip(t)[0] == d[t]); assert(d.skip(t).drop_first() =~= d.skip(t + 1)); lead_eq(c, t + 1); }
}
pub proof fn trail_eq(c: char, n: int)
    requires !hangul(c), 0 <= n <= dec(Kind::K, c).len()
    ensures trail(dec(Kind::K, c).take(n)) == trail_i(c as int, n)
    decreases n
{
    let d = dec(Kind::K, c);
    b_dec(Kind::K, c);
    if n > 0 { b_ccc(d[n - 1]); assert(d.take(n).last() == d[n - 1]); assert(d.take(n).drop_last() =~= d.take(n - 1)); trail_eq(c, n - 1); }
}
pub proof fn counts(c: char)
    requires !hangul(c), has_dec(Kind::K, c)
    ensures lead_tree(c as int) == lead(dec(Kind::K, c)), trail_i(c as int, len_i(true, c as int)) == trail(dec(Kind::K, c))
{
    let d = dec(Kind::K, c); let x = c as int;
    b_dec(Kind::K, c); b_has(Kind::K, c);
    lead_eq(c, 0); trail_eq(c, d.len() as int);
    assert(d.skip(0) =~= d); assert(d.take(d.len() as int) =~= d);
    if U_kec_find(x) >= 0 { crate::evals::lk::all(U_kec_find(x)); } else { crate::evals::ld::all(U_dec_find(x)); }
}
/// the version the crate advertises is that of the reference data
pub proof fn version() ensures crate::UNICODE_VERSION == (16u8, 0u8, 0u8) {}
} // verus!
