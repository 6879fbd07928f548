//! Facts about the Unicode data, on chars: what the theorems about texts (str.rs) rest on.
#![allow(unused_imports, dead_code, nonstandard_style)]
use vstd::prelude::*;
use crate::ucd::*;
use crate::data::*;
use crate::spec::*;
use crate::chf::*;
use crate::lem::*;
verus! {
/// c is its own decomposition
pub open spec fn fixed(k: Kind, c: char) -> bool { dec(k, c) == seq![c] }
pub open spec fn all_fixed(k: Kind, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> fixed(k, #[trigger] s[i]) }

pub proof fn fixed_iff(k: Kind, c: char) ensures fixed(k, c) == (!hangul(c) && !has_dec(k, c))
{
    b_has(k, c); ax_scalar(c);
    if hangul(c) { b_dec_hangul(k, c); hangul_parts(c); }
    else if has_dec(k, c) {
        b_dec(k, c);
        fact_dec(k == Kind::K, c as int);
        if fixed(k, c) { assert(dec(k, c)[0] == c); assert(at_i(k == Kind::K, c as int, 0) == c as int); assert(false); }
    } else { b_dec_none(k, c); }
}
pub proof fn k_c_fixed(c: char) ensures fixed(Kind::K, c) ==> fixed(Kind::C, c)
{ fixed_iff(Kind::K, c); fixed_iff(Kind::C, c); b_has(Kind::K, c); b_has(Kind::C, c); }

/// D1: the characters of a decomposition do not decompose further
pub proof fn d_closed(k: Kind, c: char) ensures all_fixed(k, dec(k, c))
{
    let kk = k == Kind::K;
    let d = dec(k, c);
    assert forall|i: int| 0 <= i < d.len() implies fixed(k, #[trigger] d[i]) by {
        if hangul(c) { b_dec_hangul(k, c); hangul_parts(c); jamo_plain(d[i]); }
        else {
            b_dec(k, c); b_has(k, c); ax_scalar(c);
            fact_dec(kk, c as int);
            if has_dec(k, c) { assert(d[i] as int == at_i(kk, c as int, i)); fixed_iff(k, d[i]); b_has(k, d[i]); }
            else { b_dec_none(k, c); }
        }
    }
}
proof fn ord_at(l: int, t: int, n: int, i: int)
    requires ord_i(l, t, n), t < i < n
    ensures ccc_i(U_codes(l / 32 + i)) == 0 || ccc_i(U_codes(l / 32 + i - 1)) <= ccc_i(U_codes(l / 32 + i))
    decreases n - t
{ if t + 1 < i { ord_at(l, t + 1, n, i); } else { assert(l / 32 + t + 1 == l / 32 + i); } }
/// D2: a canonical decomposition is in canonical order
proof fn ord_char(c: char, i: int)
    requires !hangul(c), has_dec(Kind::C, c), 0 < i < dec(Kind::C, c).len()
    ensures ccc(dec(Kind::C, c)[i]) == 0 || ccc(dec(Kind::C, c)[i - 1]) <= ccc(dec(Kind::C, c)[i])
{
    let d = dec(Kind::C, c); let x = c as int; let g = U_dec_find(x);
    b_has(Kind::C, c); b_dec(Kind::C, c);
    crate::evals::ld::all(g); crate::evals::dec::all(g);
    let l = U_dec_v(g);
    ord_at(l, 0, l % 32, i);
    assert(d[i] as int == at_i(false, x, i));
    assert(d[i - 1] as int == at_i(false, x, i - 1));
    assert(l / 32 + i - 1 == l / 32 + (i - 1));
    b_ccc(d[i]); b_ccc(d[i - 1]);
}
pub proof fn d_ordered(c: char) ensures ordered(dec(Kind::C, c))
{ reveal(ordered);
    let d = dec(Kind::C, c);
    if hangul(c) {
        b_dec_hangul(Kind::C, c); hangul_parts(c);
        assert forall|i: int| 0 < i < d.len() && ccc(#[trigger] d[i]) != 0 implies ccc(d[i - 1]) <= ccc(d[i]) by { jamo_plain(d[i]); }
    } else if has_dec(Kind::C, c) {
        assert forall|i: int| 0 < i < d.len() && ccc(#[trigger] d[i]) != 0 implies ccc(d[i - 1]) <= ccc(d[i]) by { ord_char(c, i); }
    } else { b_dec_none(Kind::C, c); }
}
proof fn kcat1_at(x: int, d: int, at: int, t: int, n: int, j: int)
    requires kcat1(x, d, at, t, n), t <= j < n
    ensures at_i(true, x, at + j) == at_i(true, d, j)
    decreases n - t
{ if t < j { kcat1_at(x, d, at, t + 1, n, j); } }
/// one step: the decomposition of the t-th character lies at `at` in that of c
proof fn kcat_step(c: char, y: char, yi: int, at: int, m: int)
    requires yi == y as int, m == len_i(true, yi), kcat1(c as int, yi, at, 0, m), !hang_i(yi), !hangul(c), 0 <= at, at + m <= dec(Kind::K, c).len()
    ensures dec(Kind::K, y) + dec(Kind::K, c).skip(at + m) == dec(Kind::K, c).skip(at)
{
    let x = c as int;
    let e = dec(Kind::K, c); let f = dec(Kind::K, y);
    ax_scalar(c); ax_scalar(y);
    b_dec(Kind::K, c); b_dec(Kind::K, y);
    assert forall|j: int| 0 <= j < m implies f[j] == #[trigger] e.skip(at)[j] by {
        kcat1_at(x, yi, at, 0, m, j);
        assert(e[at + j] as int == at_i(true, x, at + j));
        assert(f[j] as int == at_i(true, yi, j));
        chr_int(f[j]); chr_int(e[at + j]);
    }
    assert(f + e.skip(at + m) =~= e.skip(at));
}
proof fn fact_y(x: int, l: int, t: int)
    requires scalar(x), !hang_i(x), l == loc(false, x), l != 0, 0 <= t < l % 32
    ensures !hang_i(U_codes(l / 32 + t))
{ fact_dec(false, x); assert(at_i(false, x, t) == U_codes(l / 32 + t)); assert(has_i(false, x)); }
proof fn kcat_decs(c: char, l: int, t: int, n: int, at: int)
    requires !hangul(c), n == dec(Kind::C, c).len(), 0 <= t <= n, 0 <= at, l != 0, l == loc(false, c as int), n == l % 32,
        kcat(c as int, l, t, n, at)
    ensures at <= dec(Kind::K, c).len(), decs(Kind::K, dec(Kind::C, c).skip(t)) == dec(Kind::K, c).skip(at)
    decreases n - t
{
    let x = c as int;
    let d = dec(Kind::C, c); let e = dec(Kind::K, c);
    ax_scalar(c);
    b_dec(Kind::C, c); b_dec(Kind::K, c);
    if t >= n { assert(d.skip(t) =~= Seq::empty()); assert(e.skip(at) =~= Seq::empty()); }
    else {
        let y = d[t];
        let yi = U_codes(l / 32 + t);
        assert(y as int == yi);
        fact_y(x, l, t);
        b_dec(Kind::K, y);
        let m = len_i(true, yi);
        kcat_decs(c, l, t + 1, n, at + m);
        assert(d.skip(t)[0] == y);
        assert(d.skip(t).drop_first() =~= d.skip(t + 1));
        kcat_step(c, y, yi, at, m);
        assert(decs(Kind::K, d.skip(t)) == dec(Kind::K, y) + decs(Kind::K, d.skip(t + 1)));
    }
}
/// D3: the compatibility decomposition goes through the canonical one
pub proof fn d_compat(c: char) ensures decs(Kind::K, dec(Kind::C, c)) == dec(Kind::K, c)
{
    broadcast use seq_simpl;
    let d = dec(Kind::C, c);
    reveal_with_fuel(decs, 4);
    if hangul(c) {
        b_dec_hangul(Kind::C, c); b_dec_hangul(Kind::K, c); hangul_parts(c);
        jamo_plain(d[0]); jamo_plain(d[1]); if d.len() == 3 { jamo_plain(d[2]); }
        assert(decs(Kind::K, d) =~= d);
    } else {
        b_has(Kind::C, c);
        if has_dec(Kind::C, c) {
            let x = c as int; let g = U_dec_find(x);
            crate::evals::ld::all(g); crate::evals::dec::all(g);
            b_dec(Kind::C, c);
            ax_scalar(c); fact_dec(false, x);
            kcat_decs(c, loc(false, x), 0, loc(false, x) % 32, 0);
        } else { b_dec_none(Kind::C, c); assert(seq![c].drop_first() =~= Seq::empty()); assert(seq![c][0] == c); }
    }
}
/// D4: a nonstarter without canonical decomposition has no compatibility decomposition
pub proof fn d_mark(c: char) ensures ccc(c) != 0 && fixed(Kind::C, c) ==> fixed(Kind::K, c)
{
    fixed_iff(Kind::K, c); fixed_iff(Kind::C, c); b_has(Kind::K, c); b_has(Kind::C, c); b_ccc(c);
    let f = U_kec_find(c as int);
    if f >= 0 { crate::evals::lk::all(f); }
}
/// facts of a composition from the table, on chars
proof fn table_fact(a: char, b: char)
    requires table_comp(a, b) is Some
    ensures ({ let p = table_comp(a, b)->0; let (x, y, z) = (a as int, b as int, p as int);
        &&& !hangul(a) && !hangul(b) && !hangul(p) && !jamo(a) && !sel_i(x) && z == comp_i(x, y) && hangul_comp(a, b) is None
        &&& ccc(a) == 0 && ccc(p) == 0 && second(b) && !has_dec(Kind::K, b) && !has_dec(Kind::C, b) && has_dec(Kind::C, p)
        &&& len_i(true, z) == len_i(true, x) + 1 && len_i(false, z) == len_i(false, x) + 1 })
{
    ax_scalar(a); ax_scalar(b); b_comp(a, b); fact_comp(a as int, b as int);
    let p = table_comp(a, b)->0;
    b_ccc(a); b_ccc(p); b_second(b); b_has(Kind::K, b); b_has(Kind::C, b); b_has(Kind::C, p);
    hangul_comp_char(a, b);
}
proof fn table_cat(a: char, b: char, kk: bool, t: int)
    requires table_comp(a, b) is Some, 0 <= t < len_i(kk, table_comp(a, b)->0 as int)
    ensures at_i(kk, table_comp(a, b)->0 as int, t) == (if t < len_i(kk, a as int) { at_i(kk, a as int, t) } else { b as int })
{
    ax_scalar(a); ax_scalar(b); b_comp(a, b); fact_comp_at(a as int, b as int, kk, t);
}
proof fn table_dec(k: Kind, a: char, b: char)
    requires table_comp(a, b) is Some
    ensures dec(k, table_comp(a, b)->0) == dec(k, a).push(b)
{
    let p = table_comp(a, b)->0; let kk = k == Kind::K;
    table_fact(a, b);
    b_dec(k, p); b_dec(k, a);
    let q = dec(k, a).push(b); let d = dec(k, p);
    assert(d.len() == q.len()) by { if kk {} }
    assert forall|i: int| 0 <= i < d.len() implies d[i] == q[i] by {
        table_cat(a, b, kk, i);
        assert(d[i] as int == at_i(kk, p as int, i));
        if i < dec(k, a).len() { assert(dec(k, a)[i] as int == at_i(kk, a as int, i)); }
        chr_int(d[i]); chr_int(q[i]);
    }
    assert(d =~= q);
}
proof fn hangul_cat(k: Kind, a: char, b: char)
    requires hangul_comp(a, b) is Some
    ensures dec(k, hangul_comp(a, b)->0) == dec(k, a).push(b)
{
    hangul_comp_char(a, b);
    let p = hangul_comp(a, b)->0;
    jamo_plain(b);
    b_dec_hangul(k, p); hangul_parts(p);
    if jamo(a) { jamo_plain(a); } else { b_dec_hangul(k, a); hangul_parts(a); }
    let q = dec(k, a).push(b); let d = dec(k, p);
    assert(q.len() == d.len());
    assert(d[0] as int == q[0] as int);
    assert(d[1] as int == q[1] as int);
    if d.len() == 3 { assert(d[2] as int == q[2] as int); }
    assert forall|i: int| 0 <= i < d.len() implies d[i] == q[i] by { chr_int(d[i]); chr_int(q[i]); }
    assert(d =~= q);
}
/// D5: a composite decomposes to its parts
pub proof fn d_comp(k: Kind, a: char, b: char)
    requires comp(a, b) is Some
    ensures ({ let p = comp(a, b)->0; dec(k, p) == dec(k, a).push(b) && fixed(Kind::K, b) && fixed(Kind::C, b) && second(b) && ccc(a) == 0 && ccc(p) == 0 })
{
    reveal(comp);
    fixed_iff(Kind::K, b); fixed_iff(Kind::C, b);
    if hangul_comp(a, b) is Some {
        hangul_comp_char(a, b); hangul_cat(k, a, b); jamo_plain(b); b_second(b);
    } else { table_fact(a, b); table_dec(k, a, b); }
}
pub proof fn d_second(a: char, b: char) ensures !second(b) ==> comp(a, b) is None
{ if comp(a, b) is Some { d_comp(Kind::C, a, b); } }

// ---------------------------------------------------------------- quick-check values
proof fn qt_jamo(x: int) requires jamo_i(x), sec_i(x) ensures qt_nfc(x) != 0, qt_nfkc(x) != 0
{
    if U_sec_find(x) >= 0 { crate::evals::sec::all(U_sec_find(x)); }
    assert(qt_all(0x1161, 0x1176)) by (compute_only);
    assert(qt_all(0x11A8, 0x11C3)) by (compute_only);
    if x < 0x1176 { qt_all_at(0x1161, 0x1176, x); } else { qt_all_at(0x11A8, 0x11C3, x); }
}
spec fn qt_all(lo: int, hi: int) -> bool decreases hi - lo { if lo >= hi { true } else { qt_nfc(lo) != 0 && qt_nfkc(lo) != 0 && qt_all(lo + 1, hi) } }
proof fn qt_all_at(lo: int, hi: int, x: int) requires qt_all(lo, hi), lo <= x < hi ensures qt_nfc(x) != 0, qt_nfkc(x) != 0 decreases hi - lo { if lo < x { qt_all_at(lo + 1, hi, x); } }

/// D6a: NFD and NFKD answers are definite, and Yes exactly for the characters that do not decompose
pub proof fn d_qc_d(k: Kind, c: char) ensures qc(k, false, c) != 2, (qc(k, false, c) == 0) == fixed(k, c), (qc(k, false, c) == 1) == !fixed(k, c)
{
    fixed_iff(k, c); b_qc(c); ax_scalar(c); b_has(k, c);
    let x = c as int;
    if hang_i(x) { crate::walks::hang_qt(x); }
    if U_dec_find(x) >= 0 { crate::evals::yes::all(U_dec_find(x)); }
    if U_kec_find(x) >= 0 { crate::evals::yesk::all(U_kec_find(x)); }
    crate::walks::two_nfd(x); crate::walks::two_nfkd(x);
    if qt_nfd(x) == 1 { crate::walks::no_nfd(x); }
    if qt_nfkd(x) == 1 { crate::walks::no_nfkd(x); }
}
/// the image of composition
pub open spec fn composite(p: char) -> bool { exists|a: char, b: char| comp(a, b) == Some(p) }
proof fn kdiff_ne(c: char, t: int)
    requires !hangul(c), kdiff(c as int, t, dec(Kind::K, c).len() as int), 0 <= t <= dec(Kind::K, c).len()
    ensures dec(Kind::K, c) != dec(Kind::C, c)
    decreases dec(Kind::K, c).len() - t
{
    b_dec(Kind::K, c); b_dec(Kind::C, c);
    let n = dec(Kind::K, c).len() as int;
    if n == dec(Kind::C, c).len() {
        if t < n {
            assert(dec(Kind::K, c)[t] as int == at_i(true, c as int, t));
            assert(dec(Kind::C, c)[t] as int == at_i(false, c as int, t));
            if at_i(true, c as int, t) == at_i(false, c as int, t) { kdiff_ne(c, t + 1); }
        }
    }
}
/// D7: a character with a compatibility mapping anywhere in its decomposition has two different decompositions
proof fn d_kdiff(c: char) requires U_kec_find(c as int) >= 0 ensures dec(Kind::K, c) != dec(Kind::C, c)
{
    let f = U_kec_find(c as int);
    crate::evals::lk::all(f); crate::evals::kec::all(f);
    b_dec(Kind::K, c);
    kdiff_ne(c, 0);
}
/// D6b: No
proof fn no_has(k: Kind, c: char) requires qc(k, true, c) == 1 ensures hangul(c) || has_dec(k, c)
{
    b_qc(c); ax_scalar(c); b_has(k, c);
    if k == Kind::C { crate::walks::no_nfc(c as int); } else { crate::walks::no_nfkc(c as int); }
}
proof fn no_table(k: Kind, a: char, b: char)
    requires table_comp(a, b) is Some, qc(k, true, table_comp(a, b)->0) == 1
    ensures k == Kind::K && U_kec_find(table_comp(a, b)->0 as int) >= 0
{
    ax_scalar(a); ax_scalar(b); b_comp(a, b);
    let p = table_comp(a, b)->0;
    b_qc(p);
    fact_comp_qt(a as int, b as int);
}
pub proof fn d_qc_no(k: Kind, c: char)
    requires qc(k, true, c) == 1
    ensures !fixed(k, c), composite(c) ==> k == Kind::K && dec(Kind::K, c) != dec(Kind::C, c)
{
    no_has(k, c); fixed_iff(k, c);
    if composite(c) {
        let (a, b) = choose|a: char, b: char| comp(a, b) == Some(c);
        reveal(comp);
        if hangul_comp(a, b) is Some { hangul_comp_char(a, b); hang_no(k, c); }
        else { no_table(k, a, b); d_kdiff(c); }
    }
}
proof fn hang_no(k: Kind, c: char) requires hangul(c) ensures qc(k, true, c) != 1
{
    b_qc(c); crate::walks::hang_qt(c as int); }
/// what Yes means
pub open spec fn yes(c: char) -> bool {
    &&& !second(c)
    &&& fixed(Kind::C, c) || (ccc(c) == 0 && ccc(dec(Kind::C, c)[0]) == 0 && !second(dec(Kind::C, c)[0]) && dec(Kind::C, c).len() > 0 && compf(seq![dec(Kind::C, c)[0]], dec(Kind::C, c).skip(1)) == seq![c])
}
proof fn cstep_one(a: char, b: char) requires comp(a, b) is Some ensures cstep(seq![a], b) == seq![comp(a, b)->0]
{
    c_comp_ccc(a, b);
    lemma_last_starter_is(seq![a], 0);
    assert(seq![a].update(0, comp(a, b)->0) =~= seq![comp(a, b)->0]);
}
proof fn fold_next(c: char, a: char, l: int, t: int)
    requires !hangul(c), l != 0, l == loc(false, c as int), l % 32 == dec(Kind::C, c).len(), 0 <= t < l % 32, fold_i(a as int, l, t, l % 32) == c as int
    ensures comp(a, dec(Kind::C, c)[t]) is Some, fold_i(comp(a, dec(Kind::C, c)[t])->0 as int, l, t + 1, l % 32) == c as int
{
    let y = dec(Kind::C, c)[t];
    fold_char(c, l, t);
    b_comp(a, y);
    ax_scalar(c);
    assert(comp_i(a as int, y as int) >= 0);
    table_fact(a, y);
    assert(comp(a, y) == table_comp(a, y)) by { reveal(comp); }
}
proof fn foldback(c: char, a: char, l: int, t: int)
    requires !hangul(c), l != 0, l == loc(false, c as int), l % 32 == dec(Kind::C, c).len(), 0 <= t <= l % 32, fold_i(a as int, l, t, l % 32) == c as int
    ensures compf(seq![a], dec(Kind::C, c).skip(t)) == seq![c]
    decreases l % 32 - t
{
    let d = dec(Kind::C, c);
    if t >= l % 32 {
        assert(d.skip(t) =~= Seq::empty());
        chr_int(a); chr_int(c);
    } else {
        fold_next(c, a, l, t);
        let q = comp(a, d[t])->0;
        foldback(c, q, l, t + 1);
        fold_compf(a, d, t);
    }
}
proof fn fold_compf(a: char, d: Seq<char>, t: int)
    requires 0 <= t < d.len(), comp(a, d[t]) is Some
    ensures compf(seq![a], d.skip(t)) == compf(seq![comp(a, d[t])->0], d.skip(t + 1))
{
    cstep_one(a, d[t]);
    assert(d.skip(t)[0] == d[t]);
    assert(d.skip(t).drop_first() =~= d.skip(t + 1));
}
proof fn fold_char(c: char, l: int, t: int)
    requires !hangul(c), l != 0, l == loc(false, c as int), 0 <= t < dec(Kind::C, c).len()
    ensures dec(Kind::C, c)[t] as int == U_codes(l / 32 + t)
{
    b_dec(Kind::C, c); assert(dec(Kind::C, c)[t] as int == at_i(false, c as int, t)); }
proof fn hangul_fold(c: char)
    requires hangul(c)
    ensures compf(seq![dec(Kind::C, c)[0]], dec(Kind::C, c).skip(1)) == seq![c], dec(Kind::C, c).len() >= 2, jamo(dec(Kind::C, c)[0]), !sec_i(dec(Kind::C, c)[0] as int)
{
    broadcast use chr_int;
    b_dec_hangul(Kind::C, c); hangul_parts(c);
    let d = dec(Kind::C, c);
    reveal(comp);
    hangul_comp_char(d[0], d[1]);
    assert(hangul_comp(d[0], d[1]) is Some);
    let lv = comp(d[0], d[1])->0;
    cstep_one(d[0], d[1]);
    reveal_with_fuel(compf, 4);
    assert(d.skip(1)[0] == d[1]);
    if U_sec_find(d[0] as int) >= 0 { crate::evals::sec::all(U_sec_find(d[0] as int)); }
    if d.len() == 2 {
        assert(d.skip(1).drop_first() =~= Seq::empty());
        assert(chr(lv as int) == lv && chr(c as int) == c);
    } else {
        hangul_comp_char(lv, d[2]);
        assert(hangul_comp(lv, d[2]) is Some);
        let s = comp(lv, d[2])->0;
        cstep_one(lv, d[2]);
        assert(d.skip(1).drop_first()[0] == d[2]);
        assert(d.skip(1).drop_first().drop_first() =~= Seq::empty());
        assert(chr(s as int) == s && chr(c as int) == c);
    }
}
/// D6c: Yes
pub proof fn d_qc_yes(k: Kind, c: char)
    requires qc(k, true, c) == 0
    ensures yes(c), dec(k, c) == dec(Kind::C, c)
{
    b_qc(c); ax_scalar(c); b_second(c); b_has(Kind::C, c); b_has(Kind::K, c); fixed_iff(Kind::C, c);
    b_ccc(c);
    let x = c as int;
    let d = dec(Kind::C, c);
    if U_sec_find(x) >= 0 { crate::evals::sec::all(U_sec_find(x)); }
    if sec_i(x) && U_sec_find(x) < 0 { qt_jamo(x); }
    if hangul(c) {
        hangul_fold(c); b_dec_hangul(Kind::C, c); b_dec_hangul(Kind::K, c);
        jamo_plain(d[0]); b_second(d[0]);
    } else {
        if U_kec_find(x) >= 0 { crate::evals::yesk::all(U_kec_find(x)); }
        assert(dec(k, c) == dec(Kind::C, c)) by {
            if k == Kind::K {
                b_dec(Kind::C, c); b_dec(Kind::K, c);
                broadcast use chr_int;
                assert(loc(true, x) == loc(false, x));
                assert(dec(Kind::K, c) =~= d) by {
                    assert forall|i: int| 0 <= i < d.len() implies dec(Kind::K, c)[i] == d[i] by {
                        assert(dec(Kind::K, c)[i] as int == at_i(true, x, i)); assert(d[i] as int == at_i(false, x, i));
                        assert(chr(d[i] as int) == d[i]); assert(chr(dec(Kind::K, c)[i] as int) == dec(Kind::K, c)[i]);
                    }
                }
            }
        }
        if has_dec(Kind::C, c) {
            let g = U_dec_find(x);
            crate::evals::yes::all(g); crate::evals::dec::all(g);
            b_dec(Kind::C, c);
            fact_dec(false, x);
            let l = loc(false, x);
            let a = d[0];
            assert(a as int == at_i(false, x, 0));
            assert(U_codes(l / 32) == U_codes(l / 32 + 0));
            b_second(a);
            foldback(c, a, l, 1);
            if d.len() == 1 { assert(fold_i(a as int, l, 1, 1) == a as int); assert(false); }
            assert(d.skip(1)[0] == d[1]);
            assert(d[1] as int == at_i(false, x, 1));
            ax_scalar(a); ax_scalar(d[1]);
            b_ccc(a);
            fact_comp(a as int, d[1] as int);
        }
    }
}
/// the combining grapheme joiner
pub proof fn d_cgj() ensures fixed(Kind::K, CGJ()), fixed(Kind::C, CGJ()), ccc(CGJ()) == 0
{
    fixed_iff(Kind::K, CGJ()); fixed_iff(Kind::C, CGJ()); b_has(Kind::K, CGJ()); b_has(Kind::C, CGJ()); b_ccc(CGJ());
    assert(CGJ() as int == 0x34F);
    assert(!has_i(true, 0x34F) && !has_i(false, 0x34F) && ccc_i(0x34F) == 0) by (compute_only);
}
/// a variation sequence: two starters that no normalization touches
pub proof fn d_variant(c: char)
    ensures has_variant(c) ==> variant(c).len() == 2 && (forall|i: int| 0 <= i < 2 ==> fixed(Kind::C, #[trigger] variant(c)[i]) && ccc(variant(c)[i]) == 0 && !second(variant(c)[i]))
        && 0xFE00 <= variant(c)[1] as int && variant(c)[1] as int <= 0xFE0F,
        !has_variant(c) ==> variant(c) == seq![c]
{
    b_variant(c);
    if has_variant(c) {
        fact_var(c as int); fact_var_plain(c as int);
        let v = variant(c);
        assert forall|i: int| 0 <= i < 2 implies fixed(Kind::C, #[trigger] v[i]) && ccc(v[i]) == 0 && !second(v[i]) by {
            fixed_iff(Kind::C, v[i]); b_has(Kind::C, v[i]); b_ccc(v[i]); b_second(v[i]);
            if i == 1 {}
        }
    }
}
/// nothing composes with a variation selector before it
pub proof fn d_selector(v: char, b: char) requires 0xFE00 <= v as int, v as int <= 0xFE0F ensures comp(v, b) is None
{
    reveal(comp);
    ax_scalar(v); ax_scalar(b);
    b_comp(v, b);
    hangul_comp_char(v, b);
    if comp_i(v as int, b as int) >= 0 { fact_comp(v as int, b as int); }
}
} // verus!
