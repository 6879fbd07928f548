//! Lemmas about the specification, used by the contracts of the iterators.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::data::*;
use crate::spec::*;
use crate::chf::*;
verus! {

pub proof fn comp_starter(a: char, b: char) ensures comp(a, b) is Some ==> ccc(a) == 0 && ccc(comp(a, b)->0) == 0
{ c_comp_ccc(a, b); }
pub broadcast proof fn ss_take_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast proof fn ss_take_0<T>(s: Seq<T>) ensures #[trigger] s.take(0) == Seq::<T>::empty() { assert(s.take(0) =~= Seq::empty()); }
pub broadcast proof fn ss_skip_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.skip(n) == Seq::<T>::empty() { assert(s.skip(n) =~= Seq::empty()); }
pub broadcast proof fn ss_skip_0<T>(s: Seq<T>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn ss_sub_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn ss_sub_empty<T>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.subrange(n, n) == Seq::<T>::empty() { assert(s.subrange(n, n) =~= Seq::empty()); }
pub broadcast proof fn ss_empty_l<T>(s: Seq<T>, e: Seq<T>) requires e.len() == 0 ensures #[trigger] (e + s) == s { assert(e + s =~= s); }
pub broadcast proof fn ss_empty_r<T>(s: Seq<T>, e: Seq<T>) requires e.len() == 0 ensures #[trigger] (s + e) == s { assert(s + e =~= s); }
pub broadcast proof fn ss_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn ss_single_first<T>(x: T, s: Seq<T>) ensures #[trigger] (seq![x] + s).drop_first() == s { assert((seq![x] + s).drop_first() =~= s); }
pub broadcast group seq_simpl { ss_single_first, ss_take_all, ss_take_0, ss_skip_all, ss_skip_0, ss_sub_all, ss_sub_empty, ss_empty_l, ss_empty_r, ss_assoc }
#[verifier::opaque]
pub open spec fn ordered(s: Seq<char>) -> bool {
  forall|i: int| 0 < i < s.len() && ccc(#[trigger] s[i]) != 0 ==> ccc(s[i - 1]) <= ccc(s[i])
}
pub open spec fn nonst(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ccc(#[trigger] s[i]) != 0 }
pub proof fn lemma_last_starter(t: Seq<char>)
  ensures -1 <= last_starter(t) < t.len(), last_starter(t) >= 0 ==> ccc(t[last_starter(t)]) == 0,
    forall|j: int| last_starter(t) < j < t.len() ==> ccc(#[trigger] t[j]) != 0
  decreases t.len()
{
  if t.len() > 0 && ccc(t.last()) != 0 { lemma_last_starter(t.drop_last());
    assert forall|j: int| last_starter(t) < j < t.len() implies ccc(#[trigger] t[j]) != 0 by { if j < t.len() - 1 { assert(t.drop_last()[j] == t[j]); } } }
}
pub proof fn lemma_last_starter_is(t: Seq<char>, l: int)
  requires -1 <= l < t.len(), l >= 0 ==> ccc(t[l]) == 0, forall|j: int| l < j < t.len() ==> ccc(#[trigger] t[j]) != 0
  ensures last_starter(t) == l
{ lemma_last_starter(t); }
pub open spec fn frozen(u: Seq<char>, t: Seq<char>) -> bool { nonst(u) || (t.len() > 0 && ccc(t[0]) == 0) }
pub proof fn lemma_cstep_frozen(u: Seq<char>, t: Seq<char>, c: char)
  requires frozen(u, t) ensures cstep(u + t, c) == u + cstep(t, c), frozen(u, cstep(t, c))
{
  lemma_last_starter(t); lemma_last_starter(u + t);
  let l = last_starter(t); 
  if l >= 0 {
    assert forall|j: int| l + u.len() < j < (u + t).len() implies ccc(#[trigger] (u + t)[j]) != 0 by { assert((u + t)[j] == t[j - u.len()]); }
    assert((u + t)[l + u.len()] == t[l]);
    lemma_last_starter_is(u + t, l + u.len());
    if blocked(t, l, c) { let j = choose|j: int| l < j < t.len() && (ccc(#[trigger] t[j]) == 0 || ccc(t[j]) >= ccc(c)); assert((u + t)[j + u.len()] == t[j]); }
    if blocked(u + t, l + u.len(), c) { let j = choose|j: int| l + u.len() < j < (u + t).len() && (ccc(#[trigger] (u + t)[j]) == 0 || ccc((u + t)[j]) >= ccc(c)); assert(t[j - u.len()] == (u + t)[j]); }
    assert((u + t).push(c) =~= u + t.push(c));
    if comp(t[l], c) is Some { assert((u + t).update(l + u.len(), comp(t[l], c)->0) =~= u + t.update(l, comp(t[l], c)->0)); comp_starter(t[l], c); }
  } else {
    assert forall|j: int| 0 <= j < (u + t).len() implies ccc(#[trigger] (u + t)[j]) != 0 by { if j < u.len() { assert((u+t)[j] == u[j]); } else { assert((u + t)[j] == t[j - u.len()]); } }
    lemma_last_starter_is(u + t, -1);
    assert((u + t).push(c) =~= u + t.push(c));
  }
}
pub proof fn lemma_compf_frozen(u: Seq<char>, t: Seq<char>, s: Seq<char>)
  requires frozen(u, t) ensures compf(u + t, s) == u + compf(t, s) decreases s.len()
{ if s.len() > 0 { lemma_cstep_frozen(u, t, s[0]); lemma_compf_frozen(u, cstep(t, s[0]), s.drop_first()); } }
pub open spec fn opt(o: Option<char>) -> Seq<char> { match o { Some(c) => seq![c], None => Seq::empty() } }
pub open spec fn held(k: Option<char>, b: Seq<char>) -> bool {
  &&& k is Some ==> ccc(k->0) == 0
  &&& k is None ==> b.len() == 0
  &&& nonst(b)
  &&& forall|i: int| 0 < i < b.len() ==> ccc(b[i-1]) <= ccc(#[trigger] b[i])
}
pub proof fn lemma_held_last(k: Option<char>, b: Seq<char>, i: int)
  requires held(k, b), 0 <= i < b.len() ensures ccc(b[i]) <= ccc(b.last()) decreases b.len() - i
{ if i < b.len() - 1 { lemma_held_last(k, b, i + 1); assert(ccc(b[i+1-1]) <= ccc(b[i+1])); } }
#[verifier::opaque]
pub open spec fn rinv(k: Option<char>, b: Seq<char>, r: Seq<char>) -> bool { held(k, b) && ordered(b + r) }
#[verifier::opaque]
pub open spec fn rfut(k: Option<char>, b: Seq<char>, r: Seq<char>) -> Seq<char> { compf(opt(k) + b, r) }
pub open spec fn lastc(b: Seq<char>) -> Option<u8> { if b.len() == 0 { None } else { Some(ccc(b.last())) } }
pub proof fn lemma_rend(k: Option<char>, b: Seq<char>, r: Seq<char>)
  requires r.len() == 0 ensures rfut(k, b, r) == opt(k) + b, rinv(k, b, r) && k is None ==> b.len() == 0
{ reveal(rfut); reveal(rinv); }
pub proof fn lemma_rempty(b: Seq<char>)
  requires b.len() == 0 ensures b == Seq::<char>::empty(), lastc(b) is None
{ assert(b =~= Seq::empty()); }
pub proof fn lemma_ordered_idx(s: Seq<char>, t: Seq<char>, d: int)
  requires ordered(t), 0 <= d, s.len() + d <= t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[i + d]
  ensures ordered(s)
{ reveal(ordered);
  assert forall|i: int| 0 < i < s.len() && ccc(#[trigger] s[i]) != 0 implies ccc(s[i-1]) <= ccc(s[i]) by { assert(s[i] == t[i + d]); assert(s[i-1] == t[i - 1 + d]); }
}
proof fn ord_at(t: Seq<char>, i: int)
  requires ordered(t), 0 < i < t.len(), ccc(t[i]) != 0 ensures ccc(t[i - 1]) <= ccc(t[i])
{ reveal(ordered);}
proof fn lemma_ordered_remove_at(b: Seq<char>, c: char, r: Seq<char>, x: Seq<char>, y: Seq<char>, i: int)
  requires x == b + (seq![c] + r), y == b + r, ordered(x), b.len() == 0 || ccc(c) != 0, 0 < i < y.len(), ccc(y[i]) != 0
  ensures ccc(y[i - 1]) <= ccc(y[i])
{
  if i < b.len() { assert(x[i] == y[i]); assert(x[i-1] == y[i-1]); ord_at(x, i); }
  else {
    assert(x[i + 1] == y[i]);
    if i == b.len() { assert(x[i] == c); assert(x[i-1] == y[i-1]); ord_at(x, i); ord_at(x, i + 1); }
    else { assert(x[i] == y[i-1]); ord_at(x, i + 1); }
  }
}
pub proof fn lemma_ordered_remove(b: Seq<char>, c: char, r: Seq<char>)
  requires ordered(b + (seq![c] + r)), b.len() == 0 || ccc(c) != 0 ensures ordered(b + r)
{ reveal(ordered);
  let x = b + (seq![c] + r); let y = b + r;
  assert forall|i: int| 0 < i < y.len() && ccc(#[trigger] y[i]) != 0 implies ccc(y[i-1]) <= ccc(y[i]) by { lemma_ordered_remove_at(b, c, r, x, y, i); }
}
pub proof fn lemma_rord(k: Option<char>, b: Seq<char>, c: char, r: Seq<char>)
  requires held(k, b), ordered(b + (seq![c] + r))
  ensures ordered(r), ordered(b.push(c) + r), b.len() == 0 || ccc(c) != 0 ==> ordered(b + r), ccc(c) != 0 && k is Some ==> held(k, b.push(c)),
{ reveal(ordered);
  let x = b + (seq![c] + r);
  lemma_ordered_idx(r, x, b.len() as int + 1);
  assert(b.push(c) + r =~= x);
  if b.len() == 0 || ccc(c) != 0 { lemma_ordered_remove(b, c, r); }
  if b.len() > 0 { assert(x[b.len() as int] == c); assert(x[b.len() - 1] == b.last()); }
  let d = b.push(c);
  if ccc(c) != 0 && k is Some {
    assert forall|i: int| 0 < i < d.len() implies ccc(d[i-1]) <= ccc(#[trigger] d[i]) by { if i < b.len() { assert(d[i] == b[i]); } else { } }
  }
}
pub proof fn lemma_rcomp(k: char, b: Seq<char>, c: char, r: Seq<char>)
  requires held(Some(k), b)
  ensures cstep(seq![k] + b, c) == (if b.len() > 0 && ccc(b.last()) >= ccc(c) || comp(k, c) is None { seq![k] + b.push(c) } else { seq![comp(k, c)->0] + b })
{
  let t = seq![k] + b;
  assert(t[0] == k);
  assert forall|j: int| 0 < j < t.len() implies ccc(#[trigger] t[j]) != 0 by { assert(t[j] == b[j - 1]); }
  lemma_last_starter_is(t, 0);
  if b.len() > 0 { assert(t[t.len() - 1] == b.last()); }
  if blocked(t, 0, c) {
    let j = choose|j: int| 0 < j < t.len() && (ccc(#[trigger] t[j]) == 0 || ccc(t[j]) >= ccc(c));
    assert(t[j] == b[j - 1]);
    lemma_held_last(Some(k), b, j - 1);
  }
  assert(t.push(c) =~= seq![k] + b.push(c));
  if comp(k, c) is Some { assert(t.update(0, comp(k, c)->0) =~= seq![comp(k, c)->0] + b); }
}
pub proof fn lemma_rstep(k: Option<char>, b: Seq<char>, c: char, r: Seq<char>)
  requires rinv(k, b, seq![c] + r)
  ensures ({
    let full = rfut(k, b, seq![c] + r);
    let e = Seq::<char>::empty();
    &&& (k is None ==> b == e)
    &&& match k {
      None => if ccc(c) == 0 { rinv(Some(c), e, r) && full == rfut(Some(c), e, r) } else { rinv(None, e, r) && full == seq![c] + rfut(None, e, r) },
      Some(k) =>
        if b.len() > 0 && ccc(b.last()) >= ccc(c) || comp(k, c) is None {
          if ccc(c) == 0 { full == seq![k] + (b + rfut(Some(c), e, r)) && rinv(Some(c), e, r) }
          else { full == rfut(Some(k), b.push(c), r) && rinv(Some(k), b.push(c), r) }
        } else { full == rfut(comp(k, c), b, r) && rinv(comp(k, c), b, r) }
    }
  })
{
  reveal(rfut); reveal(rinv);
  let t = opt(k) + b;
  let e = Seq::<char>::empty();
  assert((seq![c] + r).drop_first() =~= r);
  assert(compf(t, seq![c] + r) == compf(cstep(t, c), r));
  lemma_rord(k, b, c, r);
  assert(e + r =~= r);
  assert(seq![c] + e =~= seq![c]);
  match k {
    None => { assert(b =~= e); assert(t =~= e); lemma_last_starter_is(e, -1); assert(e.push(c) =~= seq![c]); 
      assert(cstep(t, c) == seq![c]);
      assert(opt(None) + e =~= e);
      if ccc(c) != 0 { lemma_compf_frozen(seq![c], e, r); } }
    Some(kk) => {
      lemma_rcomp(kk, b, c, r);
      if comp(kk, c) is Some { comp_starter(kk, c); }
      if ccc(c) == 0 && cstep(t, c) == seq![kk] + b.push(c) {
        assert(seq![kk] + b.push(c) =~= (seq![kk] + b) + seq![c]);
        lemma_compf_frozen(seq![kk] + b, seq![c], r);
        assert((seq![kk] + b) + compf(seq![c], r) =~= seq![kk] + (b + compf(seq![c], r)));
      }
    }
  }
}
pub proof fn lemma_ins_ordered(t: Seq<char>, c: char)
  requires ordered(t) ensures ordered(ins(t, c)), ins(t, c).len() == t.len() + 1, 
     ins(t, c).last() == c || (t.len() > 0 && ins(t, c).last() == t.last() && ccc(t.last()) > ccc(c)) decreases t.len()
{ reveal(ordered);
  if !(ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c)) {
    let d = t.drop_last(); 
    assert forall|i: int| 0 < i < d.len() && ccc(#[trigger] d[i]) != 0 implies ccc(d[i - 1]) <= ccc(d[i]) by { assert(d[i] == t[i]); assert(d[i-1] == t[i-1]); }
    lemma_ins_ordered(d, c);
    let q = ins(d, c);
    assert forall|i: int| 0 < i < q.push(t.last()).len() && ccc(#[trigger] q.push(t.last())[i]) != 0 implies ccc(q.push(t.last())[i - 1]) <= ccc(q.push(t.last())[i]) by {
      if i < q.len() { assert(q.push(t.last())[i] == q[i]); assert(q.push(t.last())[i - 1] == q[i-1]); }
      else { assert(q.push(t.last())[i-1] == q.last()); if q.last() != c { assert(t[t.len() - 1] == t.last()); } }
    }
  } else {
    assert forall|i: int| 0 < i < t.push(c).len() && ccc(#[trigger] t.push(c)[i]) != 0 implies ccc(t.push(c)[i - 1]) <= ccc(t.push(c)[i]) by {
      if i < t.len() { assert(t.push(c)[i] == t[i]); assert(t.push(c)[i-1] == t[i-1]); } 
    }
  }
}
pub proof fn lemma_cordf_ordered(t: Seq<char>, s: Seq<char>)
  requires ordered(t) ensures ordered(cordf(t, s)) decreases s.len()
{ reveal(ordered); if s.len() > 0 { lemma_ins_ordered(t, s[0]); lemma_cordf_ordered(ins(t, s[0]), s.drop_first()); } }
pub proof fn lemma_ins_len(t: Seq<char>, c: char) ensures ins(t, c).len() == t.len() + 1 decreases t.len()
{ if !(ccc(c) == 0 || t.len() == 0 || ccc(t.last()) <= ccc(c)) { lemma_ins_len(t.drop_last(), c); } }
pub proof fn lemma_cordf_len(t: Seq<char>, s: Seq<char>) ensures cordf(t, s).len() == t.len() + s.len() decreases s.len()
{ if s.len() > 0 { lemma_ins_len(t, s[0]); lemma_cordf_len(ins(t, s[0]), s.drop_first()); } }
pub proof fn lemma_decs_len(k: Kind, s: Seq<char>) ensures decs(k, s).len() >= s.len() decreases s.len()
{ if s.len() > 0 { dec_nonempty(k, s[0]); lemma_decs_len(k, s.drop_first()); } }
pub proof fn lemma_cordf_append(t: Seq<char>, a: Seq<char>, b: Seq<char>)
  ensures cordf(t, a + b) == cordf(cordf(t, a), b) decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else { assert((a+b).drop_first() =~= a.drop_first() + b); lemma_cordf_append(ins(t, a[0]), a.drop_first(), b); }
}
pub proof fn lemma_cordf_push(t: Seq<char>, a: Seq<char>, c: char)
  ensures cordf(t, a.push(c)) == ins(cordf(t, a), c)
{
  assert(a.push(c) =~= a + seq![c]);
  lemma_cordf_append(t, a, seq![c]);
  let t2 = cordf(t, a);
  assert(seq![c].drop_first() =~= Seq::<char>::empty());
  assert(cordf(ins(t2, c), Seq::empty()) == ins(t2, c));
}
pub proof fn lemma_ins_floor(u: Seq<char>, v: Seq<char>, c: char)
  requires u.len() > 0 && ccc(u.last()) == 0 ensures ins(u + v, c) == u + ins(v, c) decreases v.len()
{
  if v.len() == 0 { assert(u + v =~= u); assert(ins(v, c) =~= seq![c]); assert(u.push(c) =~= u + seq![c]); }
  else if ccc(c) == 0 || ccc(v.last()) <= ccc(c) { assert((u + v).push(c) =~= u + v.push(c)); assert((u+v).last() == v.last()); }
  else {
    assert((u + v).last() == v.last());
    assert((u + v).drop_last() =~= u + v.drop_last());
    lemma_ins_floor(u, v.drop_last(), c);
    assert((u + ins(v.drop_last(), c)).push(v.last()) =~= u + ins(v.drop_last(), c).push(v.last()));
  }
}
pub proof fn lemma_cordf_floor(u: Seq<char>, v: Seq<char>, s: Seq<char>)
  requires u.len() > 0 && ccc(u.last()) == 0 ensures cordf(u + v, s) == u + cordf(v, s) decreases s.len()
{
  if s.len() > 0 { lemma_ins_floor(u, v, s[0]); lemma_cordf_floor(u, ins(v, s[0]), s.drop_first()); }
}
pub proof fn lemma_cord_starter(a: Seq<char>, c: char, b: Seq<char>)
  requires ccc(c) == 0 ensures cord(a + (seq![c] + b)) == cord(a) + seq![c] + cord(b)
{
  let e = Seq::<char>::empty();
  lemma_cordf_append(e, a, seq![c] + b);
  let t = cord(a);
  assert((seq![c] + b).drop_first() =~= b);
  assert(ins(t, c) == t.push(c));
  assert(t.push(c) + e =~= t.push(c));
  lemma_cordf_floor(t.push(c), e, b);
  assert(t.push(c) + cord(b) =~= t + seq![c] + cord(b));
}
pub open spec fn chars(b: Seq<(u8, char)>) -> Seq<char> { b.map_values(|p: (u8, char)| p.1) }
pub open spec fn classed(b: Seq<(u8, char)>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 == ccc(b[i].1) }
/// what waits to be sorted: nonstarters, with at most one starter, and that before them
pub open spec fn pend(b: Seq<(u8, char)>) -> bool { forall|i: int| 1 <= i < b.len() ==> (#[trigger] b[i]).0 != 0 }
pub proof fn lemma_sins_cord(t: Seq<(u8, char)>, x: (u8, char), key: spec_fn((u8, char)) -> int)
  requires classed(t), x.0 == ccc(x.1), x.0 != 0, forall|p: (u8, char)| #[trigger] key(p) == p.0 as int
  ensures chars(sins(t, x, key)) == ins(chars(t), x.1), classed(sins(t, x, key)),
    sins(t, x, key).len() == t.len() + 1
  decreases t.len()
{
  if t.len() == 0 || key(t.last()) <= key(x) { assert(chars(t.push(x)) =~= chars(t).push(x.1)); }
  else {
    lemma_sins_cord(t.drop_last(), x, key);
    assert(chars(t.drop_last()) =~= chars(t).drop_last());
    let q = sins(t.drop_last(), x, key);
    assert(chars(q.push(t.last())) =~= chars(q).push(t.last().1));
  }
}
pub broadcast proof fn lemma_ssort_cord(s: Seq<(u8, char)>, key: spec_fn((u8, char)) -> int)
  requires classed(s), pend(s), forall|p: (u8, char)| #[trigger] key(p) == p.0 as int
  ensures chars(#[trigger] ssort(s, key)) == cord(chars(s)), classed(ssort(s, key)), ssort(s, key).len() == s.len()
  decreases s.len()
{
  if s.len() == 0 { assert(chars(s) =~= Seq::empty()); }
  else {
    lemma_ssort_cord(s.drop_last(), key);
    if s.len() == 1 {
      assert(s.drop_last() =~= Seq::empty());
      assert(ssort(s, key) == sins(Seq::empty(), s.last(), key));
      assert(ssort(s, key) =~= seq![s.last()]);
      assert(chars(seq![s.last()]) =~= seq![s.last().1]);
      assert(chars(Seq::<(u8, char)>::empty()) =~= Seq::empty());
      assert(ins(Seq::empty(), s.last().1) =~= seq![s.last().1]);
    } else { lemma_sins_cord(ssort(s.drop_last(), key), s.last(), key); }
    assert(chars(s) =~= chars(s.drop_last()).push(s.last().1));
    lemma_cordf_push(Seq::empty(), chars(s.drop_last()), s.last().1);
  }
}
pub open spec fn sorted_from(o: Seq<(u8, char)>, n: Seq<(u8, char)>, e: int) -> bool {
  &&& n.len() == o.len() && n.take(e) == o.take(e)
  &&& chars(n.skip(e)) == cord(chars(o.skip(e)))
  &&& classed(n)
}
pub proof fn exit_sort(o: Seq<(u8, char)>, n: Seq<(u8, char)>, e: int)
    requires 0 <= e <= o.len(), classed(o), pend(o.skip(e)),
        (exists|key: spec_fn((u8, char)) -> int| (forall|p: (u8, char)| #[trigger] key(p) == p.0 as int) && n == o.take(e) + #[trigger] ssort(o.skip(e), key))
        || (n == o && forall|i: int, j: int| e <= i <= j < o.len() ==> (#[trigger] o[i]).0 <= (#[trigger] o[j]).0)
    ensures sorted_from(o, n, e)
{
    if !(exists|key: spec_fn((u8, char)) -> int| (forall|p: (u8, char)| #[trigger] key(p) == p.0 as int) && n == o.take(e) + #[trigger] ssort(o.skip(e), key)) {
        // what is in order already is what sorting gives
        let key = |p: (u8, char)| p.0 as int;
        let t = o.skip(e);
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies key(#[trigger] t[i]) <= key(#[trigger] t[j]) by { assert(t[i] == o[e + i]); assert(t[j] == o[e + j]); }
        crate::vp::lemma_stable(t, t, key);
        assert(n =~= o.take(e) + ssort(t, key));
        assert(forall|p: (u8, char)| #[trigger] key(p) == p.0 as int);
    }
    let key = choose|key: spec_fn((u8, char)) -> int| (forall|p: (u8, char)| #[trigger] key(p) == p.0 as int) && n == o.take(e) + #[trigger] ssort(o.skip(e), key);
    lemma_ssort_cord(o.skip(e), key);
    assert(n.take(e) =~= o.take(e));
    assert(n.skip(e) =~= ssort(o.skip(e), key));
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).0 == ccc(n[i].1) by { if i < e { assert(n[i] == o[i]); } else { assert(n[i] == n.skip(e)[i - e]); } }
}
pub proof fn lemma_nfd_ordered(k: Kind, s: Seq<char>) ensures ordered(nfd(k, s))
{ reveal(ordered); lemma_cordf_ordered(Seq::empty(), decs(k, s)); }
// ---------------------------------------------------------------- Display
pub proof fn display_start(o: Seq<char>, r: Seq<char>)
    ensures o == (o + r).take(o.len() as int), r == (o + r).skip(o.len() as int)
{ assert(o =~= (o + r).take(o.len() as int)); assert(r =~= (o + r).skip(o.len() as int)); }
pub proof fn display_step(t: Seq<char>, o: Seq<char>)
    requires o.len() < t.len(), o == t.take(o.len() as int)
    ensures o.is_prefix_of(t), o.push(t[o.len() as int]) == t.take(o.len() as int + 1), t.skip(o.len() as int).drop_first() == t.skip(o.len() as int + 1), t.skip(o.len() as int)[0] == t[o.len() as int]
{
    assert(o.push(t[o.len() as int]) =~= t.take(o.len() as int + 1));
    assert(t.skip(o.len() as int).drop_first() =~= t.skip(o.len() as int + 1));
}
pub proof fn lemma_variants_len(s: Seq<char>) ensures variants(s).len() >= s.len() decreases s.len()
{ if s.len() > 0 { variant_len(s[0]); lemma_variants_len(s.drop_first()); } }
pub proof fn ssf_step(n: int, t: Seq<char>)
    requires t.len() > 0, 0 <= n <= 30
    ensures ({ let d = dec(Kind::K, t[0]); let r = t.drop_first();
        &&& 1 <= d.len() <= 18 && 0 <= lead(d) <= d.len() && 0 <= trail(d) <= d.len()
        &&& n + lead(d) > 30 ==> ssf(n, t).drop_first() == ssf(0, seq![t[0]] + r) && ssf(n, t).len() > 0 && ssf(n, t)[0] == CGJ()
        &&& n + lead(d) <= 30 ==> ssf(n, t).drop_first() == ssf(ss_count(n, d), r) && ssf(n, t).len() > 0 && ssf(n, t)[0] == t[0] && 0 <= ss_count(n, d) <= 30 })
{
    let d = dec(Kind::K, t[0]); let r = t.drop_first();
    dec_counts(Kind::K, t[0]);
    assert(seq![t[0]] + r =~= t);
    if n + lead(d) > 30 { assert(ssf(n, t).drop_first() =~= seq![t[0]] + ssf(ss_count(0, d), r)); }
    else { assert(ssf(n, t).drop_first() =~= ssf(ss_count(n, d), r)); }
}
pub proof fn variants_step(t: Seq<char>)
    requires t.len() > 0
    ensures ({ let v = variant(t[0]);
        &&& 1 <= v.len() <= 2
        &&& variants(t).len() > 0 && variants(t)[0] == v[0]
        &&& variants(t).drop_first() == opt(if v.len() == 2 { Some(v[1]) } else { None }) + variants(t.drop_first()) })
{
    let v = variant(t[0]);
    variant_len(t[0]);
    assert(variants(t).drop_first() =~= opt(if v.len() == 2 { Some(v[1]) } else { None }) + variants(t.drop_first()));
}
} // verus!
