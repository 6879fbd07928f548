//! Theorems about texts: idempotence and agreement of the forms, stream-safety, and what the quick checks may conclude.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::data::*;
use crate::spec::*;
use crate::chf::*;
use crate::lem::*;
use crate::dfacts::*;
verus! {
// ---------------------------------------------------------------- decomposition of texts
pub proof fn decs_append(k: Kind, a: Seq<char>, b: Seq<char>) ensures decs(k, a + b) == decs(k, a) + decs(k, b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(decs(k, a) + decs(k, b) =~= decs(k, b)); }
    else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        decs_append(k, a.drop_first(), b);
        assert(dec(k, a[0]) + (decs(k, a.drop_first()) + decs(k, b)) =~= (dec(k, a[0]) + decs(k, a.drop_first())) + decs(k, b));
    }
}
pub proof fn decs_one(k: Kind, c: char) ensures decs(k, seq![c]) == dec(k, c)
{ assert(seq![c].drop_first() =~= Seq::empty()); assert(decs(k, Seq::empty()) =~= Seq::empty()); assert(dec(k, c) + Seq::empty() =~= dec(k, c)); }
pub proof fn decs_push(k: Kind, s: Seq<char>, c: char) ensures decs(k, s.push(c)) == decs(k, s) + dec(k, c)
{ assert(s.push(c) =~= s + seq![c]); decs_append(k, s, seq![c]); decs_one(k, c); }
pub proof fn decs_fixed(k: Kind, s: Seq<char>) requires all_fixed(k, s) ensures decs(k, s) == s decreases s.len()
{
    if s.len() > 0 {
        assert(fixed(k, s[0]));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies fixed(k, #[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        decs_fixed(k, s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn decs_all_fixed(k: Kind, s: Seq<char>) ensures all_fixed(k, decs(k, s)) decreases s.len()
{
    if s.len() > 0 {
        d_closed(k, s[0]);
        decs_all_fixed(k, s.drop_first());
        let (a, b) = (dec(k, s[0]), decs(k, s.drop_first()));
        assert forall|i: int| 0 <= i < (a + b).len() implies fixed(k, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
}
pub proof fn ins_fixed(k: Kind, t: Seq<char>, c: char) requires all_fixed(k, t), fixed(k, c) ensures all_fixed(k, ins(t, c)) decreases t.len()
{
    if ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c) {
        assert forall|i: int| 0 <= i < t.push(c).len() implies fixed(k, #[trigger] t.push(c)[i]) by { if i < t.len() { assert(t.push(c)[i] == t[i]); } }
    } else {
        let d = t.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies fixed(k, #[trigger] d[i]) by { assert(d[i] == t[i]); }
        ins_fixed(k, d, c);
        let q = ins(d, c);
        assert(fixed(k, t[t.len() - 1]));
        assert forall|i: int| 0 <= i < q.push(t.last()).len() implies fixed(k, #[trigger] q.push(t.last())[i]) by { if i < q.len() { assert(q.push(t.last())[i] == q[i]); } }
    }
}
pub proof fn cordf_fixed(k: Kind, t: Seq<char>, s: Seq<char>) requires all_fixed(k, t), all_fixed(k, s) ensures all_fixed(k, cordf(t, s)) decreases s.len()
{
    if s.len() > 0 {
        assert(fixed(k, s[0]));
        ins_fixed(k, t, s[0]);
        assert forall|i: int| 0 <= i < s.drop_first().len() implies fixed(k, #[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        cordf_fixed(k, ins(t, s[0]), s.drop_first());
    }
}
/// normalized text does not decompose further
pub proof fn nfd_fixed(k: Kind, s: Seq<char>) ensures all_fixed(k, nfd(k, s))
{ decs_all_fixed(k, s); cordf_fixed(k, Seq::empty(), decs(k, s)); }
/// ordered text is its own canonical ordering
pub proof fn cordf_id(t: Seq<char>, s: Seq<char>) requires ordered(t + s) ensures cordf(t, s) == t + s decreases s.len()
{ reveal(ordered);
    if s.len() == 0 { assert(t + s =~= t); }
    else {
        let u = t + s;
        assert(u[t.len() as int] == s[0]);
        if t.len() > 0 { assert(u[t.len() - 1] == t.last()); }
        assert(ins(t, s[0]) == t.push(s[0]));
        assert(t.push(s[0]) + s.drop_first() =~= u);
        cordf_id(t.push(s[0]), s.drop_first());
    }
}
pub proof fn cord_id(s: Seq<char>) requires ordered(s) ensures cord(s) == s
{ assert(Seq::<char>::empty() + s =~= s); cordf_id(Seq::empty(), s); }
/// ordered text without decompositions is its own decomposed form
pub proof fn nfd_id(k: Kind, s: Seq<char>) requires ordered(s), all_fixed(k, s) ensures nfd(k, s) == s
{ decs_fixed(k, s); cord_id(s); }
pub proof fn nfd_idem(k: Kind, s: Seq<char>) ensures nfd(k, nfd(k, s)) == nfd(k, s)
{ nfd_fixed(k, s); lemma_nfd_ordered(k, s); nfd_id(k, nfd(k, s)); }
/// marks of different classes may be swapped
pub proof fn ins_comm(t: Seq<char>, c: char, m: char)
    requires 0 < ccc(c) < ccc(m)
    ensures ins(ins(t, m), c) == ins(ins(t, c), m)
    decreases t.len()
{
    if t.len() == 0 || ccc(t.last()) <= ccc(c) {
        assert(t.push(m).drop_last() =~= t);
        assert(ins(t.push(m), c) == ins(t, c).push(m));
    } else {
        let d = t.drop_last(); let l = t.last();
        assert(ins(t, c) == ins(d, c).push(l));
        if ccc(l) <= ccc(m) { assert(t.push(m).drop_last() =~= t); }
        else {
            ins_comm(d, c, m);
            assert(ins(d, m).push(l).drop_last() =~= ins(d, m));
            assert(ins(d, c).push(l).drop_last() =~= ins(d, c));
        }
    }
}
pub proof fn cord_push(a: Seq<char>, c: char) ensures cord(a.push(c)) == ins(cord(a), c)
{ lemma_cordf_push(Seq::empty(), a, c); }
pub proof fn cord_swap(a: Seq<char>, x: char, y: char)
    requires ccc(x) != 0, ccc(y) != 0, ccc(x) != ccc(y)
    ensures cord(a.push(x).push(y)) == cord(a.push(y).push(x))
{
    cord_push(a, x); cord_push(a, y); cord_push(a.push(x), y); cord_push(a.push(y), x);
    if ccc(x) < ccc(y) { ins_comm(cord(a), x, y); } else { ins_comm(cord(a), y, x); }
}
/// a mark moves over marks of other classes
pub proof fn cord_move(a: Seq<char>, m: Seq<char>, c: char)
    requires nonst(m), ccc(c) != 0, forall|i: int| 0 <= i < m.len() ==> ccc(#[trigger] m[i]) != ccc(c)
    ensures cord(a + m.push(c)) == cord(a.push(c) + m)
    decreases m.len()
{
    if m.len() == 0 { assert(a + m.push(c) =~= a.push(c) + m); }
    else {
        let d = m.drop_last(); let l = m.last();
        assert(m[m.len() - 1] == l);
        assert forall|i: int| 0 <= i < d.len() implies ccc(#[trigger] d[i]) != 0 && ccc(d[i]) != ccc(c) by { assert(d[i] == m[i]); }
        cord_move(a, d, c);
        assert(a + m.push(c) =~= (a + d).push(l).push(c));
        cord_swap(a + d, l, c);
        assert((a + d).push(c) =~= a + d.push(c));
        cord_push(a + d.push(c), l);
        cord_push(a.push(c) + d, l);
        assert((a.push(c) + d).push(l) =~= a.push(c) + m);
    }
}
pub proof fn cord_append(a: Seq<char>, b: Seq<char>) ensures cord(a + b) == cordf(cord(a), b)
{ lemma_cordf_append(Seq::empty(), a, b); }

// ---------------------------------------------------------------- NFKD of NFD
proof fn ck_ins(t: Seq<char>, c: char)
    requires all_fixed(Kind::C, t), fixed(Kind::C, c)
    ensures cord(decs(Kind::K, ins(t, c))) == cord(decs(Kind::K, t) + dec(Kind::K, c))
    decreases t.len()
{
    if ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c) { decs_push(Kind::K, t, c); }
    else {
        let d = t.drop_last(); let l = t.last();
        assert(fixed(Kind::C, t[t.len() - 1]));
        assert forall|i: int| 0 <= i < d.len() implies fixed(Kind::C, #[trigger] d[i]) by { assert(d[i] == t[i]); }
        d_mark(l); d_mark(c);
        ck_ins(d, c);
        decs_push(Kind::K, ins(d, c), l);
        let x = decs(Kind::K, d);
        assert(decs(Kind::K, ins(d, c)) + seq![l] =~= decs(Kind::K, ins(d, c)).push(l));
        cord_push(decs(Kind::K, ins(d, c)), l);
        assert(x + seq![c] =~= x.push(c));
        cord_push(x.push(c), l);
        cord_swap(x, c, l);
        assert(d.push(l) =~= t);
        decs_push(Kind::K, d, l);
        assert(x + seq![l] + seq![c] =~= x.push(l).push(c));
    }
}
proof fn ck_cordf(t: Seq<char>, s: Seq<char>)
    requires all_fixed(Kind::C, t), all_fixed(Kind::C, s)
    ensures cord(decs(Kind::K, cordf(t, s))) == cord(decs(Kind::K, t) + decs(Kind::K, s))
    decreases s.len()
{
    let k = Kind::K;
    if s.len() == 0 { assert(decs(k, t) + decs(k, s) =~= decs(k, t)); }
    else {
        let r = s.drop_first();
        assert(fixed(Kind::C, s[0]));
        assert forall|i: int| 0 <= i < r.len() implies fixed(Kind::C, #[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        ins_fixed(Kind::C, t, s[0]);
        ck_cordf(ins(t, s[0]), r);
        ck_ins(t, s[0]);
        cord_append(decs(k, ins(t, s[0])), decs(k, r));
        cord_append(decs(k, t) + dec(k, s[0]), decs(k, r));
        assert((decs(k, t) + dec(k, s[0])) + decs(k, r) =~= decs(k, t) + (dec(k, s[0]) + decs(k, r)));
    }
}
proof fn decs_ck(s: Seq<char>) ensures decs(Kind::K, decs(Kind::C, s)) == decs(Kind::K, s) decreases s.len()
{
    if s.len() > 0 { d_compat(s[0]); decs_ck(s.drop_first()); decs_append(Kind::K, dec(Kind::C, s[0]), decs(Kind::C, s.drop_first())); }
}
pub proof fn nfkd_nfd(s: Seq<char>) ensures nfd(Kind::K, nfd(Kind::C, s)) == nfd(Kind::K, s)
{
    decs_all_fixed(Kind::C, s);
    ck_cordf(Seq::empty(), decs(Kind::C, s));
    decs_ck(s);
    assert(decs(Kind::K, Seq::empty()) + decs(Kind::K, s) =~= decs(Kind::K, s));
}
pub proof fn nfd_nfkd(s: Seq<char>) ensures nfd(Kind::C, nfd(Kind::K, s)) == nfd(Kind::K, s)
{
    let t = nfd(Kind::K, s);
    nfd_fixed(Kind::K, s); lemma_nfd_ordered(Kind::K, s);
    assert forall|i: int| 0 <= i < t.len() implies fixed(Kind::C, #[trigger] t[i]) by { assert(fixed(Kind::K, t[i])); k_c_fixed(t[i]); }
    nfd_id(Kind::C, t);
}

// ---------------------------------------------------------------- decomposing composed text
pub open spec fn ns_fixed(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() && ccc(#[trigger] t[i]) != 0 ==> fixed(Kind::K, t[i]) }
proof fn cstep_eq(k: Kind, t: Seq<char>, c: char)
    requires ns_fixed(t), ccc(c) != 0 ==> fixed(Kind::K, c)
    ensures cord(decs(k, cstep(t, c))) == cord(decs(k, t) + dec(k, c)), ns_fixed(cstep(t, c))
{
    let l = last_starter(t);
    lemma_last_starter(t);
    decs_push(k, t, c);
    if l < 0 || blocked(t, l, c) || comp(t[l], c) is None {
        assert(cstep(t, c) == t.push(c));
        assert forall|i: int| 0 <= i < t.push(c).len() && ccc(#[trigger] t.push(c)[i]) != 0 implies fixed(Kind::K, t.push(c)[i]) by { if i < t.len() { assert(t.push(c)[i] == t[i]); } }
    } else {
        let p = comp(t[l], c)->0;
        d_comp(k, t[l], c);
        let u = t.take(l); let m = t.skip(l + 1); let a = t[l];
        let n = t.update(l, p);
        assert(cstep(t, c) == n);
        assert forall|i: int| 0 <= i < n.len() && ccc(#[trigger] n[i]) != 0 implies fixed(Kind::K, n[i]) by { assert(i != l); assert(n[i] == t[i]); }
        assert forall|i: int| 0 <= i < m.len() implies ccc(#[trigger] m[i]) != 0 && ccc(m[i]) < ccc(c) && fixed(k, m[i]) by {
            assert(m[i] == t[l + 1 + i]); assert(l < l + 1 + i < t.len()); assert(!(ccc(t[l + 1 + i]) == 0 || ccc(t[l + 1 + i]) >= ccc(c)));
            k_c_fixed(m[i]);
        }
        decs_fixed(k, m);
        assert(t =~= u.push(a) + m);
        assert(n =~= u.push(p) + m);
        decs_append(k, u.push(a), m); decs_append(k, u.push(p), m);
        decs_push(k, u, a); decs_push(k, u, p);
        let x = decs(k, u) + dec(k, a);
        assert(decs(k, u) + dec(k, a).push(c) =~= x.push(c));
        k_c_fixed(c);
        assert(dec(k, c) == seq![c]);
        assert((x + m) + seq![c] =~= x + m.push(c));
        if m.len() > 0 { assert(ccc(m[0]) < ccc(c)); cord_move(x, m, c); }
        else { assert(x + m.push(c) =~= x.push(c) + m); }
    }
}
proof fn compf_eq(k: Kind, t: Seq<char>, s: Seq<char>)
    requires ns_fixed(t), ns_fixed(s)
    ensures cord(decs(k, compf(t, s))) == cord(decs(k, t) + decs(k, s))
    decreases s.len()
{
    if s.len() == 0 { assert(decs(k, t) + decs(k, s) =~= decs(k, t)); }
    else {
        let r = s.drop_first();
        assert(ccc(s[0]) != 0 ==> fixed(Kind::K, s[0]));
        assert forall|i: int| 0 <= i < r.len() && ccc(#[trigger] r[i]) != 0 implies fixed(Kind::K, r[i]) by { assert(r[i] == s[i + 1]); }
        cstep_eq(k, t, s[0]);
        compf_eq(k, cstep(t, s[0]), r);
        cord_append(decs(k, cstep(t, s[0])), decs(k, r));
        cord_append(decs(k, t) + dec(k, s[0]), decs(k, r));
        assert((decs(k, t) + dec(k, s[0])) + decs(k, r) =~= decs(k, t) + (dec(k, s[0]) + decs(k, r)));
    }
}
proof fn nfd_nfc(k1: Kind, k2: Kind, s: Seq<char>) ensures nfd(k1, nfc(k2, s)) == nfd(k1, nfd(k2, s))
{
    let t = nfd(k2, s);
    nfd_fixed(k2, s);
    assert forall|i: int| 0 <= i < t.len() && ccc(#[trigger] t[i]) != 0 implies fixed(Kind::K, t[i]) by { assert(fixed(k2, t[i])); d_mark(t[i]); }
    compf_eq(k1, Seq::empty(), t);
    assert(decs(k1, Seq::empty()) + decs(k1, t) =~= decs(k1, t));
}
pub open spec fn join(a: Kind, b: Kind) -> Kind { if a == Kind::K { Kind::K } else { b } }
pub open spec fn form(k: Kind, composed: bool, s: Seq<char>) -> Seq<char> { if composed { nfc(k, s) } else { nfd(k, s) } }
/// C03: a form of a form of s is the form of s that is compatibility if one of them is, composed if the outer one is
pub proof fn th_forms(k1: Kind, c1: bool, k2: Kind, c2: bool, s: Seq<char>)
    ensures form(k1, c1, form(k2, c2, s)) == form(join(k1, k2), c1, s)
{
    if c2 { nfd_nfc(k1, k2, s); }
    if k1 == k2 { nfd_idem(k1, s); } else if k1 == Kind::K { nfkd_nfd(s); } else { nfd_nfkd(s); }
    assert(nfd(k1, form(k2, c2, s)) == nfd(join(k1, k2), s));
}
pub proof fn th_idem(k: Kind, c: bool, s: Seq<char>) ensures form(k, c, form(k, c, s)) == form(k, c, s)
{ th_forms(k, c, k, c, s); }
/// C03: equivalence can be decided by any of the forms
pub proof fn th_equiv(k: Kind, s: Seq<char>, t: Seq<char>) ensures (nfc(k, s) == nfc(k, t)) == (nfd(k, s) == nfd(k, t))
{ th_forms(k, false, k, true, s); th_forms(k, false, k, true, t); }

// ---------------------------------------------------------------- shape of composed text
pub proof fn cstep_ordered(t: Seq<char>, c: char, r: Seq<char>)
    requires ordered(t.push(c) + r)
    ensures ordered(cstep(t, c) + r)
{ reveal(ordered);
    let l = last_starter(t);
    lemma_last_starter(t);
    if !(l < 0 || blocked(t, l, c) || comp(t[l], c) is None) {
        let p = comp(t[l], c)->0;
        comp_starter(t[l], c);
        let n = t.update(l, p);
        let y = n + r; let x = t.push(c) + r;
        assert forall|i: int| 0 < i < y.len() && ccc(#[trigger] y[i]) != 0 implies ccc(y[i - 1]) <= ccc(y[i]) by {
            if i < t.len() {
                assert(y[i] == n[i]); assert(y[i - 1] == n[i - 1]); assert(x[i] == t[i]); assert(x[i - 1] == t[i - 1]);
            } else if i == t.len() {
                assert(y[i] == r[0]); assert(x[i + 1] == r[0]); assert(x[i + 1 - 1] == c); assert(x[i] == c);
                assert(y[i - 1] == n[i - 1]); assert(x[i - 1] == t[i - 1]);
                if l < i - 1 { assert(!(ccc(t[i - 1]) == 0 || ccc(t[i - 1]) >= ccc(c))); }
            } else { assert(y[i] == x[i + 1]); assert(y[i - 1] == x[i + 1 - 1]); }
        }
    }
}
pub proof fn compf_ordered(t: Seq<char>, s: Seq<char>) requires ordered(t + s) ensures ordered(compf(t, s)) decreases s.len()
{
    if s.len() == 0 { assert(t + s =~= t); }
    else {
        assert(t + s =~= t.push(s[0]) + s.drop_first());
        cstep_ordered(t, s[0], s.drop_first());
        compf_ordered(cstep(t, s[0]), s.drop_first());
    }
}
pub proof fn form_ordered(k: Kind, c: bool, s: Seq<char>) ensures ordered(form(k, c, s))
{
    lemma_nfd_ordered(k, s);
    assert(Seq::<char>::empty() + nfd(k, s) =~= nfd(k, s));
    compf_ordered(Seq::empty(), nfd(k, s));
}
/// what the characters of composed text are
pub open spec fn good(k: Kind, x: char) -> bool { (fixed(k, x) || composite(x)) && dec(k, x) == dec(Kind::C, x) }
pub open spec fn all_good(k: Kind, t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> good(k, #[trigger] t[i]) }
pub proof fn compf_good(k: Kind, t: Seq<char>, s: Seq<char>) requires all_good(k, t), all_good(k, s) ensures all_good(k, compf(t, s)) decreases s.len()
{
    if s.len() > 0 {
        let c = s[0]; let l = last_starter(t); let n = cstep(t, c); let r = s.drop_first();
        lemma_last_starter(t);
        assert(good(k, s[0]));
        if l >= 0 && comp(t[l], c) is Some {
            let p = comp(t[l], c)->0;
            assert(good(k, t[l]));
            assert(comp(t[l], c) == Some(p));
            assert(composite(p));
            d_comp(k, t[l], c); d_comp(Kind::C, t[l], c);
            assert(good(k, p));
        }
        assert forall|i: int| 0 <= i < n.len() implies good(k, #[trigger] n[i]) by { if i < t.len() { assert(good(k, t[i])); } }
        assert forall|i: int| 0 <= i < r.len() implies good(k, #[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        compf_good(k, n, r);
    }
}
pub proof fn nfc_good(k: Kind, s: Seq<char>) ensures all_good(k, nfc(k, s))
{
    let t = nfd(k, s);
    nfd_fixed(k, s);
    assert forall|i: int| 0 <= i < t.len() implies good(k, #[trigger] t[i]) by { assert(fixed(k, t[i])); k_c_fixed(t[i]); }
    compf_good(k, Seq::empty(), t);
}

// ---------------------------------------------------------------- quick checks
pub open spec fn bad_order(s: Seq<char>, i: int) -> bool { 0 < i && ccc(s[i]) != 0 && ccc(s[i - 1]) > ccc(s[i]) }
/// nonstarters at the end of the compatibility decomposition of s
pub open spec fn cnt(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ss_count(cnt(s.drop_last()), dec(Kind::K, s.last())) } }
pub open spec fn bad_run(s: Seq<char>, i: int) -> bool { cnt(s.take(i)) + lead(dec(Kind::K, s[i])) > 30 }
pub open spec fn bad(k: Kind, composed: bool, ss: bool, s: Seq<char>, i: int) -> bool { bad_order(s, i) || qc(k, composed, s[i]) == 1 || (ss && bad_run(s, i)) }
/// there is a reason to answer No
pub open spec fn q_no(k: Kind, composed: bool, ss: bool, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] bad(k, composed, ss, s, i) }
/// there is none, and no character is undecided
pub open spec fn q_yes(k: Kind, composed: bool, ss: bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] bad(k, composed, ss, s, i)) && qc(k, composed, s[i]) == 0 }
/// no reason to answer No and nothing undecided in the first n characters
#[verifier::opaque]
pub open spec fn q_upto(k: Kind, composed: bool, ss: bool, s: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !(#[trigger] bad(k, composed, ss, s, i)) && qc(k, composed, s[i]) == 0 }
pub proof fn q_upto_ends(k: Kind, composed: bool, ss: bool, s: Seq<char>) ensures q_upto(k, composed, ss, s, 0), q_upto(k, composed, ss, s, s.len() as int) == q_yes(k, composed, ss, s)
{ reveal(q_upto); }
/// class of the last character
pub open spec fn last_ccc(s: Seq<char>) -> u8 { if s.len() == 0 { 0 } else { ccc(s.last()) } }
proof fn q_upto_step(k: Kind, composed: bool, ss: bool, s: Seq<char>, n: int)
    requires 0 <= n < s.len()
    ensures q_upto(k, composed, ss, s, n + 1) == (q_upto(k, composed, ss, s, n) && !bad(k, composed, ss, s, n) && qc(k, composed, s[n]) == 0)
{
    reveal(q_upto);
    if q_upto(k, composed, ss, s, n) && !bad(k, composed, ss, s, n) && qc(k, composed, s[n]) == 0 {
        assert forall|i: int| 0 <= i < n + 1 implies !(#[trigger] bad(k, composed, ss, s, i)) && qc(k, composed, s[i]) == 0 by { if i < n { assert(!bad(k, composed, ss, s, i)); } else { assert(i == n); } }
    }
    if q_upto(k, composed, ss, s, n + 1) {
        assert(!bad(k, composed, ss, s, n));
        assert forall|i: int| 0 <= i < n implies !(#[trigger] bad(k, composed, ss, s, i)) && qc(k, composed, s[i]) == 0 by { assert(!bad(k, composed, ss, s, i)); }
    }
}
/// one character further
pub proof fn qc_step(k: Kind, composed: bool, ss: bool, s: Seq<char>, n: int)
    requires 0 <= n < s.len()
    ensures
        last_ccc(s.take(n + 1)) == ccc(s[n]), s.skip(n)[0] == s[n], s.skip(n).skip(1) == s.skip(n + 1), s.skip(n).drop_first() == s.skip(n + 1), s.skip(n).len() == s.len() - n,
        cnt(s.take(n + 1)) == ss_count(cnt(s.take(n)), dec(Kind::K, s[n])),
        bad(k, composed, ss, s, n) == ((ccc(s[n]) != 0 && last_ccc(s.take(n)) > ccc(s[n])) || qc(k, composed, s[n]) == 1 || (ss && cnt(s.take(n)) + lead(dec(Kind::K, s[n])) > 30)),
        q_upto(k, composed, ss, s, n + 1) == (q_upto(k, composed, ss, s, n) && !bad(k, composed, ss, s, n) && qc(k, composed, s[n]) == 0),
        bad(k, composed, ss, s, n) ==> q_no(k, composed, ss, s),
        s[n] as int <= 0x7f ==> ccc(s[n]) == 0 && qc(k, composed, s[n]) == 0 && dec(Kind::K, s[n]) == seq![s[n]] && lead(dec(Kind::K, s[n])) == 0 && ss_count(cnt(s.take(n)), dec(Kind::K, s[n])) == 0,
{
    let a = s.take(n + 1); let c = s[n];
    q_upto_step(k, composed, ss, s, n);
    assert(a.drop_last() =~= s.take(n)); assert(a.last() == c);
    assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(s.skip(n).drop_first() =~= s.skip(n + 1));
    if n > 0 { assert(s.take(n).last() == s[n - 1]); }
    if c as int <= 0x7f { b_ascii(c); b_ascii_qc(k, composed, c); ascii(c); dec_counts(Kind::K, c); reveal_with_fuel(lead, 3); reveal_with_fuel(trail, 3); }
}
pub open spec fn q_maybe(k: Kind, composed: bool, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] qc(k, composed, s[i]) == 2 }

pub proof fn q_ordered(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> !#[trigger] bad_order(s, i) ensures ordered(s)
{ reveal(ordered); assert forall|i: int| 0 < i < s.len() && ccc(#[trigger] s[i]) != 0 implies ccc(s[i - 1]) <= ccc(s[i]) by { assert(!bad_order(s, i)); } }
/// a violation of the order, or a character answered No, does not occur in normalized text
pub proof fn no_sound(k: Kind, composed: bool, s: Seq<char>, i: int)
    requires 0 <= i < s.len(), bad_order(s, i) || qc(k, composed, s[i]) == 1
    ensures form(k, composed, s) != s
{ reveal(ordered);
    form_ordered(k, composed, s);
    if form(k, composed, s) == s {
        if bad_order(s, i) { assert(ccc(s[i - 1]) <= ccc(s[i])); }
        else if composed { nfc_good(k, s); assert(good(k, s[i])); d_qc_no(k, s[i]); }
        else { nfd_fixed(k, s); assert(fixed(k, s[i])); d_qc_d(k, s[i]); }
    }
}
// ---- Yes for NFC
pub open spec fn ins_pos(t: Seq<char>, c: char) -> int decreases t.len() { if ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c) { t.len() as int } else { ins_pos(t.drop_last(), c) } }
proof fn ins_split(t: Seq<char>, c: char)
    ensures ({ let j = ins_pos(t, c); 0 <= j <= t.len() && ins(t, c) == t.take(j).push(c) + t.skip(j) && forall|i: int| j <= i < t.len() ==> ccc(#[trigger] t[i]) > ccc(c) })
    decreases t.len()
{
    let j = ins_pos(t, c);
    if ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c) {
        assert(t.take(j) =~= t); assert(t.skip(j) =~= Seq::empty()); assert(t.push(c) + t.skip(j) =~= t.push(c));
    } else {
        let d = t.drop_last();
        ins_split(d, c);
        assert(d.take(j) =~= t.take(j));
        assert((d.take(j).push(c) + d.skip(j)).push(t.last()) =~= t.take(j).push(c) + t.skip(j));
        assert forall|i: int| j <= i < t.len() implies ccc(#[trigger] t[i]) > ccc(c) by { if i < d.len() { assert(d[i] == t[i]); } }
    }
}
/// once a mark above c is kept, a mark above c stays last
proof fn stays_last(t: Seq<char>, b: Seq<char>, m: u8)
    requires t.len() > 0, ccc(t.last()) > m, forall|i: int| 0 <= i < b.len() ==> ccc(#[trigger] b[i]) > m
    ensures compf(t, b).len() > 0, ccc(compf(t, b).last()) > m
    decreases b.len()
{
    if b.len() > 0 {
        let l = last_starter(t); lemma_last_starter(t);
        let n = cstep(t, b[0]); let r = b.drop_first();
        assert(ccc(b[0]) > m);
        assert(l != t.len() - 1);
        assert(ccc(n.last()) > m);
        assert forall|i: int| 0 <= i < r.len() implies ccc(#[trigger] r[i]) > m by { assert(r[i] == b[i + 1]); }
        stays_last(n, r, m);
    }
}
/// marks that are all taken in are taken in over a lower mark as well
proof fn absorb(t: Seq<char>, c: char, b: Seq<char>)
    requires ccc(c) != 0, forall|i: int| 0 <= i < b.len() ==> ccc(#[trigger] b[i]) > ccc(c),
        compf(t, b).len() > 0 ==> ccc(compf(t, b).last()) <= ccc(c),
    ensures compf(t.push(c), b) == compf(t, b).push(c)
    decreases b.len()
{
    if b.len() > 0 {
        let x = b[0]; let r = b.drop_first(); let l = last_starter(t);
        lemma_last_starter(t);
        assert(ccc(x) > ccc(c));
        assert forall|i: int| 0 <= i < r.len() implies ccc(#[trigger] r[i]) > ccc(c) by { assert(r[i] == b[i + 1]); }
        if l < 0 || blocked(t, l, x) || comp(t[l], x) is None {
            assert(cstep(t, x) == t.push(x));
            stays_last(t.push(x), r, ccc(c));
            assert(compf(t, b) == compf(t.push(x), r));
            assert(false);
        } else {
            let p = comp(t[l], x)->0;
            let u = t.push(c);
            lemma_last_starter_is(u, l);
            assert(!blocked(u, l, x)) by {
                if blocked(u, l, x) {
                    let j = choose|j: int| l < j < u.len() && (ccc(#[trigger] u[j]) == 0 || ccc(u[j]) >= ccc(x));
                    if j < t.len() { assert(u[j] == t[j]); assert(blocked(t, l, x)); }
                }
            }
            assert(u.update(l, p) =~= t.update(l, p).push(c));
            absorb(t.update(l, p), c, r);
        }
    }
}
proof fn compf_append(t: Seq<char>, a: Seq<char>, b: Seq<char>) ensures compf(t, a + b) == compf(compf(t, a), b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); compf_append(cstep(t, a[0]), a.drop_first(), b); }
}
proof fn cstep_plain(t: Seq<char>, c: char) requires !second(c) ensures cstep(t, c) == t.push(c)
{ let l = last_starter(t); lemma_last_starter(t); if l >= 0 { d_second(t[l], c); } }
pub open spec fn all_yes(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> yes(#[trigger] s[i]) }
proof fn yes_starter(u: Seq<char>, c: char)
    requires nfc(Kind::C, u) == u, yes(c), ccc(c) == 0
    ensures nfc(Kind::C, u.push(c)) == u.push(c)
{
    let k = Kind::C; let e = Seq::<char>::empty();
    let n = nfd(k, u); let d = dec(k, c);
    decs_push(k, u, c);
    dec_nonempty(k, c);
    if fixed(k, c) { assert(d[0] == c); assert(d.skip(1) =~= e); assert(compf(seq![c], e) == seq![c]); }
    let x = d[0]; let r = d.skip(1);
    assert(ccc(x) == 0 && !second(x) && compf(seq![x], r) == seq![c]);
    assert(d =~= seq![x] + r);
    d_ordered(c);
    lemma_cord_starter(decs(k, u), x, r);
    lemma_ordered_idx(r, d, 1);
    cord_id(r);
    assert(n + seq![x] + r =~= n.push(x) + r);
    assert(nfd(k, u.push(c)) == n.push(x) + r);
    compf_append(e, n.push(x), r);
    push_plain(n, x);
    assert(u.push(x) =~= u + seq![x]);
    lemma_compf_frozen(u, seq![x], r);
    assert(u + seq![c] =~= u.push(c));
}
proof fn yes_mark(u: Seq<char>, c: char)
    requires nfc(Kind::C, u) == u, yes(c), ccc(c) != 0, u.len() > 0 ==> ccc(u.last()) <= ccc(c)
    ensures nfc(Kind::C, u.push(c)) == u.push(c)
{
    let k = Kind::C; let e = Seq::<char>::empty();
    let n = nfd(k, u); let d = dec(k, c);
    decs_push(k, u, c);
    assert(d == seq![c]);
    assert(decs(k, u) + d =~= decs(k, u).push(c));
    cord_push(decs(k, u), c);
    ins_split(n, c);
    let j = ins_pos(n, c);
    let a = n.take(j); let b = n.skip(j);
    assert(n =~= a + b);
    compf_append(e, a, b);
    compf_append(e, a.push(c), b);
    push_plain(a, c);
    assert forall|i: int| 0 <= i < b.len() implies ccc(#[trigger] b[i]) > ccc(c) by { assert(b[i] == n[j + i]); }
    absorb(compf(e, a), c, b);
}
/// composing an ordered text of Yes characters gives it back
pub proof fn yes_nfc(s: Seq<char>)
    requires ordered(s), all_yes(s)
    ensures nfc(Kind::C, s) == s
    decreases s.len()
{ reveal(ordered);
    if s.len() == 0 { assert(s =~= Seq::empty()); }
    else {
        let u = s.drop_last(); let c = s.last();
        assert(s =~= u.push(c));
        assert(yes(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < u.len() implies yes(#[trigger] u[i]) by { assert(u[i] == s[i]); }
        lemma_ordered_idx(u, s, 0);
        yes_nfc(u);
        if ccc(c) == 0 { yes_starter(u, c); }
        else {
            if u.len() > 0 { assert(s[s.len() - 1] == c); assert(s[s.len() - 2] == u.last()); assert(ccc(s[s.len() - 1 - 1]) <= ccc(s[s.len() - 1])); }
            yes_mark(u, c);
        }
    }
}
pub proof fn decs_same(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> dec(Kind::K, #[trigger] s[i]) == dec(Kind::C, s[i]) ensures decs(Kind::K, s) == decs(Kind::C, s) decreases s.len()
{
    if s.len() > 0 {
        assert(dec(Kind::K, s[0]) == dec(Kind::C, s[0]));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies dec(Kind::K, #[trigger] s.drop_first()[i]) == dec(Kind::C, s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        decs_same(s.drop_first());
    }
}
/// C04: Yes
pub proof fn yes_sound(k: Kind, composed: bool, s: Seq<char>)
    requires q_yes(k, composed, false, s)
    ensures form(k, composed, s) == s
{
    assert forall|i: int| 0 <= i < s.len() implies !#[trigger] bad_order(s, i) by { assert(!bad(k, composed, false, s, i)); }
    q_ordered(s);
    if composed {
        assert forall|i: int| 0 <= i < s.len() implies yes(#[trigger] s[i]) && dec(k, s[i]) == dec(Kind::C, s[i]) by { assert(!bad(k, composed, false, s, i)); d_qc_yes(k, s[i]); }
        yes_nfc(s);
        if k == Kind::K { decs_same(s); }
    } else {
        assert forall|i: int| 0 <= i < s.len() implies fixed(k, #[trigger] s[i]) by { assert(!bad(k, composed, false, s, i)); d_qc_d(k, s[i]); }
        nfd_id(k, s);
    }
}
/// C04: No
pub proof fn q_no_sound(k: Kind, composed: bool, s: Seq<char>) requires q_no(k, composed, false, s) ensures form(k, composed, s) != s
{ let i = choose|i: int| 0 <= i < s.len() && #[trigger] bad(k, composed, false, s, i); no_sound(k, composed, s, i); }
/// C04: NFD and NFKD are never undecided
pub proof fn never_maybe(k: Kind, s: Seq<char>) ensures !q_maybe(k, false, s)
{ if q_maybe(k, false, s) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] qc(k, false, s[i]) == 2; d_qc_d(k, s[i]); } }

// ---------------------------------------------------------------- stream-safe text
proof fn lead_props(s: Seq<char>)
    ensures 0 <= lead(s) <= s.len(), forall|i: int| 0 <= i < lead(s) ==> ccc(#[trigger] s[i]) != 0, lead(s) < s.len() ==> ccc(s[lead(s)]) == 0
    decreases s.len()
{
    if s.len() > 0 && ccc(s[0]) != 0 {
        let d = s.drop_first();
        lead_props(d);
        assert forall|i: int| 0 <= i < lead(s) implies ccc(#[trigger] s[i]) != 0 by { if i > 0 { assert(d[i - 1] == s[i]); } }
        if lead(s) < s.len() { assert(d[lead(d)] == s[lead(s)]); }
    }
}
proof fn trail_props(s: Seq<char>)
    ensures 0 <= trail(s) <= s.len(), forall|i: int| s.len() - trail(s) <= i < s.len() ==> ccc(#[trigger] s[i]) != 0, trail(s) < s.len() ==> ccc(s[s.len() - trail(s) - 1]) == 0
    decreases s.len()
{
    if s.len() > 0 && ccc(s.last()) != 0 {
        let d = s.drop_last();
        trail_props(d);
        assert forall|i: int| s.len() - trail(s) <= i < s.len() implies ccc(#[trigger] s[i]) != 0 by { if i < s.len() - 1 { assert(d[i] == s[i]); } }
        if trail(s) < s.len() { assert(d[d.len() - trail(d) - 1] == s[s.len() - trail(s) - 1]); }
    }
}
proof fn lead_all(s: Seq<char>) ensures (lead(s) == s.len()) == nonst(s)
{ lead_props(s); if nonst(s) && lead(s) < s.len() { assert(ccc(s[lead(s)]) != 0); } }
pub proof fn trail_append(a: Seq<char>, d: Seq<char>) ensures trail(a + d) == ss_count(trail(a), d) decreases d.len()
{
    if d.len() == 0 { assert(a + d =~= a); }
    else {
        let e = d.drop_last(); let x = d.last(); let s = a + d;
        assert(s.last() == x);
        assert(s.drop_last() =~= a + e);
        lead_all(d); lead_all(e);
        assert(d[d.len() - 1] == x);
        if ccc(x) != 0 {
            trail_append(a, e);
            if nonst(e) { assert forall|i: int| 0 <= i < d.len() implies ccc(#[trigger] d[i]) != 0 by { if i < e.len() { assert(e[i] == d[i]); } } }
            if nonst(d) { assert forall|i: int| 0 <= i < e.len() implies ccc(#[trigger] e[i]) != 0 by { assert(e[i] == d[i]); } }
        }
    }
}
pub open spec fn run_at(s: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && forall|t: int| i <= t < j ==> ccc(#[trigger] s[t]) != 0 }
proof fn short_at(s: Seq<char>, i: int, j: int) requires short_runs(s), run_at(s, i, j) ensures j - i <= 30 { assert(in_run(i, j)); }
proof fn runs_join(p: Seq<char>, d: Seq<char>)
    requires short_runs(p), short_runs(d), trail(p) + lead(d) <= 30
    ensures short_runs(p + d)
{
    let s = p + d; let n = p.len();
    lead_props(d); trail_props(p);
    assert forall|i: int, j: int| 0 <= i <= j <= s.len() && (forall|t: int| i <= t < j ==> ccc(#[trigger] s[t]) != 0) implies #[trigger] in_run(i, j) ==> j - i <= 30 by {
        if j <= n {
            assert forall|t: int| i <= t < j implies ccc(#[trigger] p[t]) != 0 by { assert(s[t] == p[t]); }
            short_at(p, i, j);
        } else if i >= n {
            assert forall|t: int| i - n <= t < j - n implies ccc(#[trigger] d[t]) != 0 by { assert(s[t + n] == d[t]); }
            short_at(d, i - n, j - n);
        } else {
            if n - i > trail(p) { assert(s[n - trail(p) - 1] == p[n - trail(p) - 1]); }
            if j - n > lead(d) { assert(s[n + lead(d)] == d[lead(d)]); }
        }
    }
}
proof fn runs_prefix(p: Seq<char>, d: Seq<char>) requires short_runs(p + d) ensures short_runs(p), trail(p) + lead(d) <= 30
{
    let s = p + d; let n = p.len();
    assert forall|i: int, j: int| 0 <= i <= j <= p.len() && (forall|t: int| i <= t < j ==> ccc(#[trigger] p[t]) != 0) implies #[trigger] in_run(i, j) ==> j - i <= 30 by {
        assert forall|t: int| i <= t < j implies ccc(#[trigger] s[t]) != 0 by { assert(s[t] == p[t]); }
        short_at(s, i, j);
    }
    lead_props(d); trail_props(p);
    assert forall|t: int| n - trail(p) <= t < n + lead(d) implies ccc(#[trigger] s[t]) != 0 by { if t < n { assert(s[t] == p[t]); } else { assert(s[t] == d[t - n]); } }
    short_at(s, n - trail(p), n + lead(d));
}
proof fn short_short(d: Seq<char>) requires d.len() <= 30 ensures short_runs(d) {}
/// starters stay where they are
proof fn ins_pattern(t: Seq<char>, c: char)
    ensures ins(t, c).len() == t.len() + 1, forall|i: int| 0 <= i <= t.len() ==> (ccc(#[trigger] ins(t, c)[i]) == 0) == (ccc(t.push(c)[i]) == 0)
    decreases t.len()
{
    if !(ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c)) {
        let d = t.drop_last();
        ins_pattern(d, c);
        assert forall|i: int| 0 <= i <= t.len() implies (ccc(#[trigger] ins(t, c)[i]) == 0) == (ccc(t.push(c)[i]) == 0) by {
            if i < t.len() { assert(ins(t, c)[i] == ins(d, c)[i]); if i < d.len() { assert(d.push(c)[i] == t.push(c)[i]); } }
        }
    }
}
proof fn cordf_pattern(t: Seq<char>, s: Seq<char>)
    ensures cordf(t, s).len() == t.len() + s.len(), forall|i: int| 0 <= i < t.len() + s.len() ==> (ccc(#[trigger] cordf(t, s)[i]) == 0) == (ccc((t + s)[i]) == 0)
    decreases s.len()
{
    if s.len() > 0 {
        let n = ins(t, s[0]); let r = s.drop_first();
        ins_pattern(t, s[0]);
        cordf_pattern(n, r);
        assert forall|i: int| 0 <= i < t.len() + s.len() implies (ccc(#[trigger] cordf(t, s)[i]) == 0) == (ccc((t + s)[i]) == 0) by {
            assert(cordf(t, s) == cordf(n, r));
            if i <= t.len() { assert((n + r)[i] == n[i]); assert((t + s)[i] == t.push(s[0])[i]); } else { assert((n + r)[i] == (t + s)[i]); }
        }
    }
}
proof fn runs_pattern(a: Seq<char>, b: Seq<char>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (ccc(#[trigger] a[i]) == 0) == (ccc(b[i]) == 0), short_runs(b)
    ensures short_runs(a)
{
    assert forall|i: int, j: int| 0 <= i <= j <= a.len() && (forall|t: int| i <= t < j ==> ccc(#[trigger] a[t]) != 0) implies #[trigger] in_run(i, j) ==> j - i <= 30 by {
        assert forall|t: int| i <= t < j implies ccc(#[trigger] b[t]) != 0 by { assert(ccc(a[t]) != 0); }
        short_at(b, i, j);
    }
}
/// reordering does not change the runs
pub proof fn safe_iff(s: Seq<char>) ensures stream_safe_text(s) == short_runs(decs(Kind::K, s))
{
    let d = decs(Kind::K, s); let c = cord(d);
    cordf_pattern(Seq::empty(), d);
    assert(Seq::<char>::empty() + d =~= d);
    if short_runs(d) { runs_pattern(c, d); }
    if short_runs(c) {
        assert forall|i: int| 0 <= i < d.len() implies (ccc(#[trigger] d[i]) == 0) == (ccc(c[i]) == 0) by { let _ = c[i]; assert((ccc(cordf(Seq::empty(), d)[i]) == 0) == (ccc((Seq::<char>::empty() + d)[i]) == 0)); }
        runs_pattern(d, c);
    }
}
pub proof fn cnt_trail(s: Seq<char>) ensures cnt(s) == trail(decs(Kind::K, s)) decreases s.len()
{
    if s.len() > 0 {
        cnt_trail(s.drop_last());
        assert(s =~= s.drop_last().push(s.last()));
        decs_push(Kind::K, s.drop_last(), s.last());
        trail_append(decs(Kind::K, s.drop_last()), dec(Kind::K, s.last()));
    }
}
/// C07: an overlong run
pub proof fn bad_run_sound(s: Seq<char>, i: int) requires 0 <= i < s.len(), bad_run(s, i) ensures !stream_safe_text(s)
{
    let k = Kind::K;
    safe_iff(s);
    if short_runs(decs(k, s)) {
        let p = s.take(i); let r = s.skip(i + 1);
        assert(s =~= p.push(s[i]) + r);
        decs_append(k, p.push(s[i]), r); decs_push(k, p, s[i]);
        runs_prefix(decs(k, p) + dec(k, s[i]), decs(k, r));
        runs_prefix(decs(k, p), dec(k, s[i]));
        cnt_trail(p);
    }
}
proof fn runs_upto(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> !#[trigger] bad_run(s, i)
    ensures short_runs(decs(Kind::K, s.take(n)))
    decreases n
{
    let k = Kind::K;
    if n > 0 {
        runs_upto(s, n - 1);
        let p = s.take(n - 1); let c = s[n - 1];
        assert(s.take(n) =~= p.push(c));
        decs_push(k, p, c);
        dec_counts(k, c);
        short_short(dec(k, c));
        cnt_trail(p);
        assert(!bad_run(s, n - 1));
        runs_join(decs(k, p), dec(k, c));
    }
}
/// C07: no overlong run
pub proof fn runs_sound(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> !#[trigger] bad_run(s, i) ensures stream_safe_text(s)
{ runs_upto(s, s.len() as int); assert(s.take(s.len() as int) =~= s); safe_iff(s); }
/// the Stream-Safe Text Process bounds the runs
proof fn ssf_runs(a: Seq<char>, n: int, s: Seq<char>)
    requires short_runs(a), trail(a) == n, 0 <= n <= 30
    ensures short_runs(a + decs(Kind::K, ssf(n, s)))
    decreases s.len()
{
    let k = Kind::K;
    if s.len() == 0 { assert(a + decs(k, ssf(n, s)) =~= a); }
    else {
        let c = s[0]; let d = dec(k, c); let r = s.drop_first();
        dec_counts(k, c);
        short_short(d);
        lead_all(d); trail_props(d);
        if n + lead(d) > 30 {
            d_cgj();
            let o = ssf(ss_count(0, d), r);
            let b = a.push(CGJ());
            assert(b.last() == CGJ());
            assert(trail(b) == 0);
            assert(b =~= a + seq![CGJ()]);
            short_short(seq![CGJ()]);
            runs_join(a, seq![CGJ()]);
            runs_join(b, d);
            trail_append(b, d);
            ssf_runs(b + d, ss_count(0, d), r);
            decs_append(k, seq![CGJ(), c], o);
            assert(seq![CGJ(), c] =~= seq![CGJ()].push(c));
            decs_push(k, seq![CGJ()], c); decs_one(k, CGJ());
            assert((b + d) + decs(k, o) =~= a + (seq![CGJ()] + d + decs(k, o)));
        } else {
            let o = ssf(ss_count(n, d), r);
            runs_join(a, d);
            trail_append(a, d);
            ssf_runs(a + d, ss_count(n, d), r);
            decs_append(k, seq![c], o);
            decs_one(k, c);
            assert((a + d) + decs(k, o) =~= a + (d + decs(k, o)));
        }
    }
}
/// C06: the output of the process is stream-safe
pub proof fn th_ssafe(s: Seq<char>) ensures stream_safe_text(ssafe(s))
{
    let e = Seq::<char>::empty();
    ssf_runs(e, 0, s);
    assert(e + decs(Kind::K, ssafe(s)) =~= decs(Kind::K, ssafe(s)));
    safe_iff(ssafe(s));
}
proof fn ssf_id(a: Seq<char>, n: int, s: Seq<char>)
    requires short_runs(a + decs(Kind::K, s)), trail(a) == n
    ensures ssf(n, s) == s
    decreases s.len()
{
    let k = Kind::K;
    if s.len() == 0 { assert(s =~= Seq::empty()); }
    else {
        let c = s[0]; let d = dec(k, c); let r = s.drop_first();
        assert(a + decs(k, s) =~= (a + d) + decs(k, r));
        runs_prefix(a + d, decs(k, r));
        runs_prefix(a, d);
        trail_append(a, d);
        ssf_id(a + d, ss_count(n, d), r);
        assert(seq![c] + r =~= s);
    }
}
/// C06: stream-safe text is left alone
pub proof fn th_ssafe_id(s: Seq<char>) requires stream_safe_text(s) ensures ssafe(s) == s
{
    let e = Seq::<char>::empty();
    safe_iff(s);
    assert(e + decs(Kind::K, s) =~= decs(Kind::K, s));
    ssf_id(e, 0, s);
}
pub proof fn th_ssafe_idem(s: Seq<char>) ensures ssafe(ssafe(s)) == ssafe(s)
{ th_ssafe(s); th_ssafe_id(ssafe(s)); }
/// C08: the forms of a stream-safe text are stream-safe
pub proof fn th_safe_form(k: Kind, c: bool, s: Seq<char>) ensures stream_safe_text(form(k, c, s)) == stream_safe_text(s)
{ th_forms(Kind::K, false, k, c, s); }
pub proof fn th_safe_then_form(k: Kind, c: bool, s: Seq<char>)
    ensures stream_safe_text(form(k, c, ssafe(s))), form(k, c, form(k, c, ssafe(s))) == form(k, c, ssafe(s))
{ th_ssafe(s); th_safe_form(k, c, ssafe(s)); th_idem(k, c, ssafe(s)); }
/// C07: the exact checks, by the text they compare with
pub proof fn th_safe_check(k: Kind, c: bool, s: Seq<char>)
    ensures (s == form(k, c, ssafe(s))) == (s == form(k, c, s) && stream_safe_text(s))
{
    if s == form(k, c, ssafe(s)) { th_safe_then_form(k, c, s); th_idem(k, c, ssafe(s)); }
    if stream_safe_text(s) { th_ssafe_id(s); }
}
/// C07: quick answers
pub proof fn yes_sound_ss(k: Kind, composed: bool, s: Seq<char>) requires q_yes(k, composed, true, s) ensures form(k, composed, s) == s, stream_safe_text(s)
{
    assert forall|i: int| 0 <= i < s.len() implies !#[trigger] bad_run(s, i) by { assert(!bad(k, composed, true, s, i)); }
    runs_sound(s);
    assert forall|i: int| 0 <= i < s.len() implies !#[trigger] bad(k, composed, false, s, i) && qc(k, composed, s[i]) == 0 by { assert(!bad(k, composed, true, s, i)); }
    yes_sound(k, composed, s);
}
pub proof fn no_sound_ss(k: Kind, composed: bool, s: Seq<char>) requires q_no(k, composed, true, s) ensures form(k, composed, s) != s || !stream_safe_text(s)
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] bad(k, composed, true, s, i);
    if bad_run(s, i) { bad_run_sound(s, i); } else { no_sound(k, composed, s, i); }
}

// ---------------------------------------------------------------- variation sequences
proof fn cstep_sel(v: char, t: Seq<char>, c: char)
    requires 0xFE00 <= v as int, v as int <= 0xFE0F, ccc(v) == 0
    ensures cstep(seq![v] + t, c) == seq![v] + cstep(t, c)
{
    let w = seq![v] + t;
    lemma_last_starter(t); lemma_last_starter(w);
    let l = last_starter(t);
    assert(w.push(c) =~= seq![v] + t.push(c));
    if l >= 0 { lemma_cstep_frozen_sel(v, t, c); }
    else {
        assert(w[0] == v);
        assert forall|j: int| 0 < j < w.len() implies ccc(#[trigger] w[j]) != 0 by { assert(w[j] == t[j - 1]); }
        lemma_last_starter_is(w, 0);
        d_selector(v, c);
    }
}
proof fn lemma_cstep_frozen_sel(v: char, t: Seq<char>, c: char)
    requires last_starter(t) >= 0
    ensures cstep(seq![v] + t, c) == seq![v] + cstep(t, c)
{
    let w = seq![v] + t; let l = last_starter(t);
    lemma_last_starter(t);
    assert(w[l + 1] == t[l]);
    assert forall|j: int| l + 1 < j < w.len() implies ccc(#[trigger] w[j]) != 0 by { assert(w[j] == t[j - 1]); }
    lemma_last_starter_is(w, l + 1);
    assert(w.push(c) =~= seq![v] + t.push(c));
    if blocked(t, l, c) { let j = choose|j: int| l < j < t.len() && (ccc(#[trigger] t[j]) == 0 || ccc(t[j]) >= ccc(c)); assert(w[j + 1] == t[j]); }
    if blocked(w, l + 1, c) { let j = choose|j: int| l + 1 < j < w.len() && (ccc(#[trigger] w[j]) == 0 || ccc(w[j]) >= ccc(c)); assert(t[j - 1] == w[j]); }
    if comp(t[l], c) is Some { assert(w.update(l + 1, comp(t[l], c)->0) =~= seq![v] + t.update(l, comp(t[l], c)->0)); }
}
proof fn compf_sel(v: char, t: Seq<char>, s: Seq<char>)
    requires 0xFE00 <= v as int, v as int <= 0xFE0F, ccc(v) == 0
    ensures compf(seq![v] + t, s) == seq![v] + compf(t, s)
    decreases s.len()
{ if s.len() > 0 { cstep_sel(v, t, s[0]); compf_sel(v, cstep(t, s[0]), s.drop_first()); } }
/// C13: canonical normalization keeps a variation sequence as it is, whatever stands around it
pub proof fn th_variant_kept(c: char, a: Seq<char>, b: Seq<char>)
    requires has_variant(c)
    ensures nfd(Kind::C, a + variant(c) + b) == nfd(Kind::C, a) + variant(c) + nfd(Kind::C, b),
        nfc(Kind::C, a + variant(c) + b) == nfc(Kind::C, a) + variant(c) + nfc(Kind::C, b)
{
    let k = Kind::C; let e = Seq::<char>::empty();
    let v = variant(c); let (x, y) = (v[0], v[1]);
    d_variant(c);
    assert(fixed(k, v[0]) && fixed(k, v[1]));
    assert(v =~= seq![x] + seq![y]);
    let (p, q) = (decs(k, a), decs(k, b));
    decs_append(k, a + v, b); decs_append(k, a, v);
    decs_fixed(k, v);
    assert((p + v) + q =~= p + (seq![x] + (seq![y] + q)));
    lemma_cord_starter(p, x, seq![y] + q);
    lemma_cord_starter(e, y, q);
    assert(e + (seq![y] + q) =~= seq![y] + q);
    assert(cord(e) + seq![y] =~= seq![y]);
    let (m, n) = (nfd(k, a), nfd(k, b));
    assert(nfd(k, a + v + b) == m + seq![x] + (seq![y] + n));
    assert(m + seq![x] + (seq![y] + n) =~= m + v + n);
    // composition
    assert(m + v + n =~= m.push(x).push(y) + n);
    compf_append(e, m.push(x).push(y), n);
    push_plain(m, x); push_plain(m.push(x), y);
    let t = nfc(k, a);
    assert(t.push(x).push(y) =~= t.push(x) + (seq![y] + e));
    lemma_compf_frozen(t.push(x), seq![y] + e, n);
    compf_sel(y, e, n);
    assert(t.push(x) + (seq![y] + compf(e, n)) =~= t + v + nfc(k, b));
}
proof fn push_plain(m: Seq<char>, x: char) requires !second(x) ensures compf(Seq::empty(), m.push(x)) == compf(Seq::empty(), m).push(x)
{
    let e = Seq::<char>::empty();
    assert(m.push(x) =~= m + seq![x]);
    compf_append(e, m, seq![x]);
    assert(seq![x].drop_first() =~= e);
    cstep_plain(compf(e, m), x);
    assert(compf(compf(e, m), seq![x]) == compf(cstep(compf(e, m), x), e));
}
} // verus!
