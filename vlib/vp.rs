//! Runtime library of the verified extract: what the extracted code uses from core / alloc / tinyvec.
//! `#[verifier::external_body]` marks the trusted contracts on those dependencies (listed in DESIGN.md and in the
//! evidence of every check); everything else here is verified together with the extracted code.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::spec::*;
use crate::data::*;
verus! {

// ---------------------------------------------------------------- iterators
/// core::iter::Iterator, with a ghost view of what the iterator is going to yield.
/// `rem` is the sequence before the first None.  `done` means the iterator has answered None: the contract then says
/// nothing at all about further answers (sources need not be fused).
pub trait Iterator: Sized {
    type Item;
    spec fn wf(&self) -> bool;
    spec fn rem(&self) -> Seq<Self::Item>;
    spec fn done(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf()
        ensures final(self).wf(),
            !old(self).done() ==> (
              if old(self).rem().len() > 0 { r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().drop_first() && !final(self).done() }
              else { r is None && (final(self).done() || final(self).rem() == old(self).rem()) });
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.wf()
        ensures !self.done() ==> r.0 <= self.rem().len() && (r.1 is Some ==> self.rem().len() <= r.1->0)
    { (0, None) }
    fn fuse(self) -> (r: Fuse<Self>)
        requires self.wf(), !self.done()
        ensures r.iter == Some(self)
    { Fuse { iter: Some(self) } }
}
/// comparison of two iterators of chars: Iterator::eq and ne, re-implemented as in core (and verified here)
pub trait IterCmp: Iterator<Item = char> {
    fn eq<J: Iterator<Item = char>>(self, other: J) -> (r: bool)
        requires self.wf(), !self.done(), other.wf(), !other.done()
        ensures r == (self.rem() == other.rem());
    fn ne<J: Iterator<Item = char>>(self, other: J) -> (r: bool)
        requires self.wf(), !self.done(), other.wf(), !other.done()
        ensures r == (self.rem() != other.rem());
}
pub fn iter_eq<I: Iterator<Item = char>, J: Iterator<Item = char>>(a: I, b: J) -> (r: bool)
    requires a.wf(), !a.done(), b.wf(), !b.done()
    ensures r == (a.rem() == b.rem())
{
    let mut x = a; let mut y = b;
    let ghost mut n: nat = 0;
    proof { assert(a.rem().skip(0) =~= a.rem()); assert(b.rem().skip(0) =~= b.rem()); }
    loop
        invariant x.wf(), !x.done(), y.wf(), !y.done(), n <= a.rem().len(), n <= b.rem().len(), x.rem() == a.rem().skip(n as int), y.rem() == b.rem().skip(n as int),
            forall|i: int| 0 <= i < n ==> a.rem()[i] == b.rem()[i]
        decreases x.rem().len()
    {
        let ghost (xr, yr) = (x.rem(), y.rem());
        match x.next() {
            None => {
                let e = y.next();
                proof {
                    assert(n == a.rem().len());
                    if e is None { assert(a.rem() =~= b.rem()); } else { assert(b.rem().len() > n); }
                }
                return e.is_none();
            }
            Some(c) => match y.next() {
                None => { proof { assert(xr.len() > 0 && yr.len() == 0); assert(a.rem().len() != b.rem().len()); } return false; }
                Some(d) => {
                    proof { assert(c == a.rem()[n as int]); assert(d == b.rem()[n as int]); }
                    if c != d { return false; }
                    proof { assert(xr.drop_first() =~= a.rem().skip(n as int + 1)); assert(yr.drop_first() =~= b.rem().skip(n as int + 1)); n = n + 1; }
                }
            }
        }
    }
}
impl<I: Iterator<Item = char>> IterCmp for I {
    fn eq<J: Iterator<Item = char>>(self, other: J) -> (r: bool) { iter_eq(self, other) }
    fn ne<J: Iterator<Item = char>>(self, other: J) -> (r: bool) { !iter_eq(self, other) }
}
/// marker trait: answers None for ever after the first None; what an implementation promises is an obligation
pub trait FusedIterator: Iterator {
    proof fn vp_fused(&self) requires self.wf() ensures !self.done();
}

/// core::iter::Fuse, re-implemented as in core (and verified here)
pub struct Fuse<I> { pub iter: Option<I> }
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    open spec fn wf(&self) -> bool { self.iter is Some ==> self.iter->0.wf() && !self.iter->0.done() }
    open spec fn rem(&self) -> Seq<I::Item> { if self.iter is Some { self.iter->0.rem() } else { Seq::empty() } }
    open spec fn done(&self) -> bool { false }
    fn next(&mut self) -> (r: Option<I::Item>)
        ensures r is None ==> final(self).iter is None, old(self).iter is None ==> r is None && final(self).iter is None
    {
        proof { let _ = (self.wf(), self.rem(), self.done()); }
        match &mut self.iter {
            None => None,
            Some(it) => match it.next() {
                None => { proof { assert(old(self).rem() =~= Seq::empty()); } self.iter = None; None }
                item => item,
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match &self.iter { Some(it) => it.size_hint(), None => (0, Some(0)) }
    }
}

/// IntoIterator: used by the desugared `for` and by `.into_iter()`
pub trait VpIntoIter: Sized {
    type It: Iterator;
    spec fn vp_src(&self) -> Self::It;
    spec fn vp_into_ok(&self) -> bool;
    fn vp_into_iter(self) -> (r: Self::It)
        requires self.vp_into_ok()
        ensures r == self.vp_src();
}
pub fn vp_into_iter<T: VpIntoIter>(t: T) -> (r: T::It)
    requires t.vp_into_ok() ensures r == t.vp_src()
{ t.vp_into_iter() }
impl<I: Iterator> VpIntoIter for I {
    type It = I;
    open spec fn vp_src(&self) -> I { *self }
    open spec fn vp_into_ok(&self) -> bool { true }
    fn vp_into_iter(self) -> I { proof { let _ = (self.vp_src(), self.vp_into_ok()); } self }
}
pub struct OptIntoIter<T> { pub item: Option<T> }
impl<T> Iterator for OptIntoIter<T> {
    type Item = T;
    open spec fn wf(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<T> { match self.item { Some(t) => seq![t], None => Seq::empty() } }
    open spec fn done(&self) -> bool { false }
    fn next(&mut self) -> Option<T> {
        proof { let _ = (self.wf(), self.rem(), self.done()); }
        let r = self.item.take();
        proof { if r is Some { assert(seq![r->0].drop_first() =~= Seq::empty()); } }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { match &self.item { Some(_) => (1, Some(1)), None => (0, Some(0)) } }
}
impl<T> VpIntoIter for Option<T> {
    type It = OptIntoIter<T>;
    open spec fn vp_src(&self) -> OptIntoIter<T> { OptIntoIter { item: *self } }
    open spec fn vp_into_ok(&self) -> bool { true }
    fn vp_into_iter(self) -> OptIntoIter<T> { proof { let _ = (self.vp_src(), self.vp_into_ok()); } OptIntoIter { item: self } }
}
/// iterator over a slice by reference
pub struct SliceIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    open spec fn rem(&self) -> Seq<&'a T> { Seq::new((self.s@.len() - self.pos) as nat, |i: int| &self.s@[i + self.pos]) }
    open spec fn done(&self) -> bool { false }
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s, r is None ==> old(self).pos == old(self).s@.len() && final(self).pos == old(self).pos,
            r is Some ==> old(self).pos < old(self).s@.len() && final(self).pos == old(self).pos + 1 && *(r->0) == old(self).s@[old(self).pos as int]
    {
        proof { let _ = (self.wf(), self.rem(), self.done()); }
        if self.pos < self.s.len() {
            let r = &self.s[self.pos];
            self.pos = self.pos + 1;
            proof { assert(self.rem() =~= old(self).rem().drop_first()); }
            Some(r)
        } else { None }
    }
}
/// `slice.iter().copied()`
pub struct CopiedIter<'a, T> { pub it: SliceIter<'a, T> }
impl<'a, T: Copy> SliceIter<'a, T> {
    pub fn copied(self) -> (r: CopiedIter<'a, T>) ensures r.it == self { CopiedIter { it: self } }
    pub fn cloned(self) -> (r: CopiedIter<'a, T>) ensures r.it == self { CopiedIter { it: self } }
}
impl<'a, T: Copy> CopiedIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).it.pos <= old(self).it.s@.len()
        ensures final(self).it.s == old(self).it.s, final(self).it.pos <= final(self).it.s@.len(),
            match r { Some(x) => old(self).it.pos < old(self).it.s@.len() && x == old(self).it.s@[old(self).it.pos as int] && final(self).it.pos == old(self).it.pos + 1, None => old(self).it.pos == old(self).it.s@.len() && final(self).it.pos == old(self).it.pos }
    { if self.it.pos < self.it.s.len() { let x = self.it.s[self.it.pos]; self.it.pos = self.it.pos + 1; Some(x) } else { None } }
}
impl<'a, T> VpIntoIter for &'a [T] {
    type It = SliceIter<'a, T>;
    open spec fn vp_src(&self) -> SliceIter<'a, T> { SliceIter { s: *self, pos: 0 } }
    open spec fn vp_into_ok(&self) -> bool { true }
    fn vp_into_iter(self) -> SliceIter<'a, T> { proof { let _ = (self.vp_src(), self.vp_into_ok()); } SliceIter { s: self, pos: 0 } }
}
/// `.iter()` of a slice
pub trait VpIter<T> { spec fn vp_elems(&self) -> Seq<T>; fn vp_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) ensures r.pos == 0, r.s@ == self.vp_elems(); }
impl<T> VpIter<T> for [T] {
    open spec fn vp_elems(&self) -> Seq<T> { self@ }
    fn vp_iter<'a>(&'a self) -> SliceIter<'a, T> { proof { let _ = self.vp_elems(); } SliceIter { s: self, pos: 0 } }
}
impl<T> VpIter<T> for Vec<T> {
    open spec fn vp_elems(&self) -> Seq<T> { self@ }
    fn vp_iter<'a>(&'a self) -> SliceIter<'a, T> { proof { let _ = self.vp_elems(); } SliceIter { s: self.as_slice(), pos: 0 } }
}
/// a..b over usize
pub struct RangeIter { pub cur: usize, pub end: usize }
impl RangeIter {
    pub fn new(a: usize, b: usize) -> (r: Self) ensures r.cur == a, r.end == b { RangeIter { cur: a, end: b } }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end,
            match r { Some(i) => i == old(self).cur && i < old(self).end && final(self).cur == i + 1, None => old(self).cur >= old(self).end && final(self).cur == old(self).cur }
    { if self.cur < self.end { let r = self.cur; self.cur = self.cur + 1; Some(r) } else { None } }
}
/// characters collected from a sink, handed to the closure one by one
pub struct VecIter { pub v: Vec<char>, pub pos: usize }
impl VecIter {
    pub fn new(v: Vec<char>) -> (r: Self) ensures r.v == v, r.pos == 0 { VecIter { v, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).pos <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).pos <= final(self).v@.len(),
            match r { Some(c) => old(self).pos < old(self).v@.len() && c == old(self).v@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                      None => old(self).pos == old(self).v@.len() && final(self).pos == old(self).pos }
    { if self.pos < self.v.len() { let r = self.v[self.pos]; self.pos = self.pos + 1; Some(r) } else { None } }
}
/// core::str::Chars (trusted: yields the chars of the string; fused)
#[verifier::external_body]
pub struct Chars<'a> { p: ::core::marker::PhantomData<&'a str> }
impl<'a> Chars<'a> { pub uninterp spec fn left(&self) -> Seq<char>; }
impl<'a> Iterator for Chars<'a> {
    type Item = char;
    open spec fn wf(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<char> { self.left() }
    open spec fn done(&self) -> bool { false }
    #[verifier::external_body]
    fn next(&mut self) -> Option<char> { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
}
impl<'a> FusedIterator for Chars<'a> { proof fn vp_fused(&self) {} }
pub trait VpStr { spec fn vp_view(&self) -> Seq<char>; fn vp_chars<'a>(&'a self) -> (r: Chars<'a>) ensures r.left() == self.vp_view(); }
impl VpStr for str {
    open spec fn vp_view(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars<'a>(&'a self) -> (r: Chars<'a>) { unimplemented!() }
}

// ---------------------------------------------------------------- clone, conversions
/// Clone: the copy equals the original. Assumed of source iterators and of Vec; the rest, derived implementations included,
/// is verified
pub trait Clone: Sized {
    fn vp_clone(&self) -> (r: Self) ensures r == *self;
}
impl Clone for u8 { fn vp_clone(&self) -> Self { *self } }
impl Clone for u16 { fn vp_clone(&self) -> Self { *self } }
impl Clone for u32 { fn vp_clone(&self) -> Self { *self } }
impl Clone for u64 { fn vp_clone(&self) -> Self { *self } }
impl Clone for usize { fn vp_clone(&self) -> Self { *self } }
impl Clone for bool { fn vp_clone(&self) -> Self { *self } }
impl Clone for char { fn vp_clone(&self) -> Self { *self } }
impl<T: Clone> Clone for Option<T> { fn vp_clone(&self) -> Self { match self { Some(x) => Some(x.vp_clone()), None => None } } }
impl<A: Clone, B: Clone> Clone for (A, B) { fn vp_clone(&self) -> Self { (self.0.vp_clone(), self.1.vp_clone()) } }
impl<T: Clone> Clone for ::core::ops::Range<T> { fn vp_clone(&self) -> Self { ::core::ops::Range { start: self.start.vp_clone(), end: self.end.vp_clone() } } }
impl<I: Clone> Clone for Fuse<I> { fn vp_clone(&self) -> Self { Fuse { iter: self.iter.vp_clone() } } }
impl<T: Clone> Clone for Vec<T> {
    #[verifier::external_body]
    fn vp_clone(&self) -> Self { unimplemented!() }
}
pub trait VpInto<T>: Sized { spec fn vp_conv(self) -> T; fn vp_into(self) -> (r: T) ensures r == self.vp_conv(); }
impl VpInto<u32> for char {
    open spec fn vp_conv(self) -> u32 { self as u32 }
    fn vp_into(self) -> u32 { proof { let _: u32 = self.vp_conv(); } self as u32 }
}
impl VpInto<usize> for u8 {
    open spec fn vp_conv(self) -> usize { self as usize }
    fn vp_into(self) -> usize { proof { let _: usize = self.vp_conv(); } self as usize }
}
impl VpInto<usize> for u16 {
    open spec fn vp_conv(self) -> usize { self as usize }
    fn vp_into(self) -> usize { proof { let _: usize = self.vp_conv(); } self as usize }
}
impl VpInto<u32> for u16 {
    open spec fn vp_conv(self) -> u32 { self as u32 }
    fn vp_into(self) -> u32 { proof { let _: u32 = self.vp_conv(); } self as u32 }
}
impl VpInto<u32> for u8 {
    open spec fn vp_conv(self) -> u32 { self as u32 }
    fn vp_into(self) -> u32 { proof { let _: u32 = self.vp_conv(); } self as u32 }
}
impl VpInto<u32> for u32 {
    open spec fn vp_conv(self) -> u32 { self }
    fn vp_into(self) -> u32 { proof { let _: u32 = self.vp_conv(); } self }
}
impl VpInto<u64> for usize {
    open spec fn vp_conv(self) -> u64 { self as u64 }
    fn vp_into(self) -> u64 { proof { let _: u64 = self.vp_conv(); } self as u64 }
}
impl VpInto<u16> for u8 {
    open spec fn vp_conv(self) -> u16 { self as u16 }
    fn vp_into(self) -> u16 { proof { let _: u16 = self.vp_conv(); } self as u16 }
}
impl VpInto<usize> for bool {
    open spec fn vp_conv(self) -> usize { if self { 1 } else { 0 } }
    fn vp_into(self) -> usize { proof { let _: usize = self.vp_conv(); } if self { 1 } else { 0 } }
}
impl VpInto<u64> for u32 {
    open spec fn vp_conv(self) -> u64 { self as u64 }
    fn vp_into(self) -> u64 { proof { let _: u64 = self.vp_conv(); } self as u64 }
}
/// `is_ascii` of char and u8
pub trait VpAscii { spec fn vp_asc(&self) -> bool; fn vp_is_ascii(&self) -> (r: bool) ensures r == self.vp_asc(); }
impl VpAscii for char {
    open spec fn vp_asc(&self) -> bool { *self as u32 <= 0x7f }
    fn vp_is_ascii(&self) -> bool { proof { let _: bool = self.vp_asc(); } *self as u32 <= 0x7f }
}
impl VpAscii for u8 {
    open spec fn vp_asc(&self) -> bool { *self <= 0x7f }
    fn vp_is_ascii(&self) -> bool { proof { let _: bool = self.vp_asc(); } *self <= 0x7f }
}
/// `len_utf8` and `len_utf16` of char
pub trait VpLen { spec fn vp_len8(&self) -> usize; fn vp_len_utf8(&self) -> (r: usize) ensures r == self.vp_len8(); }
impl VpLen for char {
    open spec fn vp_len8(&self) -> usize { if *self as u32 <= 0x7f { 1 } else if *self as u32 <= 0x7ff { 2 } else if *self as u32 <= 0xffff { 3 } else { 4 } }
    fn vp_len_utf8(&self) -> usize { proof { let _: usize = self.vp_len8(); } let c = *self as u32; if c <= 0x7f { 1 } else if c <= 0x7ff { 2 } else if c <= 0xffff { 3 } else { 4 } }
}
/// `is_empty` of vectors, slices, ranges and strings
pub trait VpEmpty { spec fn vp_none(&self) -> bool; fn vp_is_empty(&self) -> (r: bool) ensures r == self.vp_none(); }
impl<T> VpEmpty for Vec<T> {
    open spec fn vp_none(&self) -> bool { self@.len() == 0 }
    fn vp_is_empty(&self) -> bool { proof { let _: bool = self.vp_none(); } self.len() == 0 }
}
impl<T> VpEmpty for [T] {
    open spec fn vp_none(&self) -> bool { self@.len() == 0 }
    fn vp_is_empty(&self) -> bool { proof { let _: bool = self.vp_none(); } self.len() == 0 }
}
impl VpEmpty for ::core::ops::Range<usize> {
    open spec fn vp_none(&self) -> bool { self.start >= self.end }
    fn vp_is_empty(&self) -> bool { proof { let _: bool = self.vp_none(); } self.start >= self.end }
}
impl VpEmpty for str {
    open spec fn vp_none(&self) -> bool { self.vp_view().len() == 0 }
    #[verifier::external_body]
    fn vp_is_empty(&self) -> bool { unimplemented!() }
}
/// a constant array used as a slice
#[inline(always)]
pub fn arr<T, const N: usize>(a: &[T; N]) -> (r: &[T])
    ensures r@ == a@, r@.len() == N
{ let r: &[T] = a; proof { assert(r@ =~= a@); } r }

// ---------------------------------------------------------------- collections
/// push on a tinyvec::ArrayVec<[T; N]>: panics when full, so the capacity is a precondition
pub fn arrayvec_push<T, const N: usize>(v: &mut Vec<T>, x: T)
    requires old(v)@.len() < N
    ensures final(v)@ == old(v)@.push(x)
{ v.push(x); }
/// `v[from..].sort_by_key(key)`: what the documentation of the stable sort promises is trusted - the result is sorted by
/// key, and the elements of each key are the ones that were there, in the order they had; that this determines the
/// result is proved (lemma_stable)
pub open spec fn of_key<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if key(s.last()) == k { of_key(s.drop_last(), key, k).push(s.last()) } else { of_key(s.drop_last(), key, k) }
}
pub open spec fn key_sorted<T>(s: Seq<T>, key: spec_fn(T) -> int) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> key(#[trigger] s[i]) <= key(#[trigger] s[j]) }
pub open spec fn stably_sorted<T>(o: Seq<T>, n: Seq<T>, key: spec_fn(T) -> int) -> bool {
    key_sorted(n, key) && n.len() == o.len() && forall|k: int| #[trigger] of_key(n, key, k) == of_key(o, key, k)
}
proof fn of_key_has<T>(s: Seq<T>, key: spec_fn(T) -> int, k: int)
    ensures of_key(s, key, k).len() > 0 ==> exists|i: int| 0 <= i < s.len() && key(#[trigger] s[i]) == k
    decreases s.len()
{
    if s.len() > 0 {
        if key(s.last()) == k { assert(key(s[s.len() - 1]) == k); }
        else {
            of_key_has(s.drop_last(), key, k);
            if of_key(s, key, k).len() > 0 { let i = choose|i: int| 0 <= i < s.drop_last().len() && key(#[trigger] s.drop_last()[i]) == k; assert(key(s[i]) == k); }
        }
    }
}
pub open spec fn below<T>(s: Seq<T>, key: spec_fn(T) -> int, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> key(#[trigger] s[i]) <= m }
proof fn sins_of_key<T>(t: Seq<T>, x: T, key: spec_fn(T) -> int, k: int)
    requires key_sorted(t, key)
    ensures of_key(sins(t, x, key), key, k) == of_key(t.push(x), key, k), sins(t, x, key).len() == t.len() + 1, key_sorted(sins(t, x, key), key),
        forall|m: int| below(t, key, m) && key(x) <= m ==> #[trigger] below(sins(t, x, key), key, m)
    decreases t.len()
{
    assert(t.push(x).drop_last() =~= t);
    if t.len() == 0 || key(t.last()) <= key(x) {
        assert forall|i: int, j: int| 0 <= i <= j < t.push(x).len() implies key(#[trigger] t.push(x)[i]) <= key(#[trigger] t.push(x)[j]) by {
            if t.len() > 0 { let l = t.len() - 1; if i < t.len() { assert(key(t[i]) <= key(t[l])); } }
        }
    } else {
        let d = t.drop_last();
        assert(key_sorted(d, key)) by { assert forall|i: int, j: int| 0 <= i <= j < d.len() implies key(#[trigger] d[i]) <= key(#[trigger] d[j]) by { assert(d[i] == t[i] && d[j] == t[j]); } }
        sins_of_key(d, x, key, k);
        let q = sins(d, x, key);
        assert(d.push(x).drop_last() =~= d);
        assert(of_key(t, key, k) == (if key(t.last()) == k { of_key(d, key, k).push(t.last()) } else { of_key(d, key, k) }));
        assert(of_key(d.push(x), key, k) == (if key(x) == k { of_key(d, key, k).push(x) } else { of_key(d, key, k) }));
        assert(q.push(t.last()).drop_last() =~= q);
        let m = key(t.last());
        assert forall|i: int| 0 <= i < d.len() implies key(#[trigger] d[i]) <= m by { assert(d[i] == t[i]); assert(key(t[i]) <= key(t[t.len() - 1])); }
        assert(below(d, key, m)); assert(below(q, key, m));
        assert forall|i: int, j: int| 0 <= i <= j < q.push(t.last()).len() implies key(#[trigger] q.push(t.last())[i]) <= key(#[trigger] q.push(t.last())[j]) by {
            if j < q.len() { assert(key(q[i]) <= key(q[j])); } else if i < q.len() { assert(key(q[i]) <= m); }
        }
        assert forall|m: int| below(t, key, m) && key(x) <= m implies #[trigger] below(sins(t, x, key), key, m) by {
            assert(below(d, key, m)) by { assert forall|i: int| 0 <= i < d.len() implies key(#[trigger] d[i]) <= m by { assert(d[i] == t[i]); } }
            assert(key(t[t.len() - 1]) <= m);
            assert(below(q, key, m));
        }
    }
}
proof fn ssort_stable<T>(o: Seq<T>, key: spec_fn(T) -> int)
    ensures stably_sorted(o, ssort(o, key), key)
    decreases o.len()
{
    if o.len() > 0 {
        ssort_stable(o.drop_last(), key);
        let s = ssort(o.drop_last(), key);
        assert forall|k: int| #[trigger] of_key(ssort(o, key), key, k) == of_key(o, key, k) by {
            sins_of_key(s, o.last(), key, k);
            assert(s.push(o.last()).drop_last() =~= s);
            assert(of_key(s, key, k) == of_key(o.drop_last(), key, k));
        }
        sins_of_key(s, o.last(), key, 0);
    }
}
proof fn stable_unique<T>(a: Seq<T>, b: Seq<T>, key: spec_fn(T) -> int)
    requires key_sorted(a, key), key_sorted(b, key), a.len() == b.len(), forall|k: int| #[trigger] of_key(a, key, k) == of_key(b, key, k)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        let l = a.len() - 1;
        let (ka, kb) = (key(a.last()), key(b.last()));
        assert(of_key(a, key, ka) == of_key(b, key, ka)); assert(of_key(a, key, kb) == of_key(b, key, kb));
        of_key_has(b, key, ka); of_key_has(a, key, kb);
        assert(of_key(a, key, ka).len() > 0); assert(of_key(b, key, kb).len() > 0);
        let i = choose|i: int| 0 <= i < b.len() && key(#[trigger] b[i]) == ka; assert(key(b[i]) <= key(b[l]));
        let j = choose|j: int| 0 <= j < a.len() && key(#[trigger] a[j]) == kb; assert(key(a[j]) <= key(a[l]));
        assert(ka == kb);
        assert(of_key(a, key, ka).last() == a.last()); assert(of_key(b, key, ka).last() == b.last());
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|i: int, j: int| 0 <= i <= j < c.len() implies key(#[trigger] c[i]) <= key(#[trigger] c[j]) by { assert(c[i] == a[i] && c[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i <= j < d.len() implies key(#[trigger] d[i]) <= key(#[trigger] d[j]) by { assert(d[i] == b[i] && d[j] == b[j]); }
        assert forall|k: int| #[trigger] of_key(c, key, k) == of_key(d, key, k) by {
            assert(of_key(a, key, k) == of_key(b, key, k));
            if k == ka { assert(of_key(a, key, k).drop_last() =~= of_key(c, key, k)); assert(of_key(b, key, k).drop_last() =~= of_key(d, key, k)); }
        }
        stable_unique(c, d, key);
        assert(a =~= c.push(a.last())); assert(b =~= d.push(b.last()));
    }
}
pub proof fn lemma_stable<T>(o: Seq<T>, n: Seq<T>, key: spec_fn(T) -> int)
    requires stably_sorted(o, n, key)
    ensures n == ssort(o, key)
{
    ssort_stable(o, key);
    assert forall|k: int| #[trigger] of_key(n, key, k) == of_key(ssort(o, key), key, k) by { assert(of_key(ssort(o, key), key, k) == of_key(o, key, k)); }
    stable_unique(n, ssort(o, key), key);
}
#[verifier::external_body]
fn std_sort_by_key<T>(v: &mut Vec<T>, from: usize, to: usize, key: Ghost<spec_fn(T) -> int>)
    requires from <= to <= old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), final(v)@.take(from as int) == old(v)@.take(from as int), final(v)@.skip(to as int) == old(v)@.skip(to as int),
        stably_sorted(old(v)@.subrange(from as int, to as int), final(v)@.subrange(from as int, to as int), key@)
{ unimplemented!() }
pub fn sort_suffix_by_key<T>(v: &mut Vec<T>, from: usize, key: Ghost<spec_fn(T) -> int>)
    requires from <= old(v).len()
    ensures final(v)@ == old(v)@.take(from as int) + ssort(old(v)@.skip(from as int), key@)
{
    let n = v.len();
    std_sort_by_key(v, from, n, key);
    proof {
        lemma_stable(old(v)@.subrange(from as int, n as int), v@.subrange(from as int, n as int), key@);
        assert(old(v)@.subrange(from as int, n as int) =~= old(v)@.skip(from as int));
        assert(v@ =~= v@.take(from as int) + v@.subrange(from as int, n as int));
    }
}
pub fn sort_range_by_key<T>(v: &mut Vec<T>, from: usize, to: usize, key: Ghost<spec_fn(T) -> int>)
    requires from <= to <= old(v).len()
    ensures final(v)@ == old(v)@.take(from as int) + ssort(old(v)@.subrange(from as int, to as int), key@) + old(v)@.skip(to as int)
{
    std_sort_by_key(v, from, to, key);
    proof {
        lemma_stable(old(v)@.subrange(from as int, to as int), v@.subrange(from as int, to as int), key@);
        assert(v@ =~= v@.take(from as int) + v@.subrange(from as int, to as int) + v@.skip(to as int));
    }
}
/// unstable sort: sorted and a permutation, nothing more
#[verifier::external_body]
pub fn sort_unstable_suffix_by_key<T>(v: &mut Vec<T>, from: usize, key: Ghost<spec_fn(T) -> int>)
    requires from <= old(v).len()
    ensures final(v)@.take(from as int) == old(v)@.take(from as int), final(v)@.len() == old(v)@.len(),
        key_sorted(final(v)@.skip(from as int), key@), final(v)@.to_multiset() == old(v)@.to_multiset()
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_unstable_range_by_key<T>(v: &mut Vec<T>, from: usize, to: usize, key: Ghost<spec_fn(T) -> int>)
    requires from <= to <= old(v).len()
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.take(from as int) == old(v)@.take(from as int), final(v)@.skip(to as int) == old(v)@.skip(to as int),
        key_sorted(final(v)@.subrange(from as int, to as int), key@)
{ unimplemented!() }
/// `v.drain(a..b);` as a statement, and `v.copy_within(a..b, d)`: what std and tinyvec document, implemented (and verified)
pub fn drain_range<T>(v: &mut Vec<T>, a: usize, b: usize)
    requires a <= b <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int)
{
    let mut n = b;
    while n > a
        invariant a <= n <= b <= old(v)@.len(), v@ =~= old(v)@.take(n as int) + old(v)@.skip(b as int)
        decreases n
    { n = n - 1; v.remove(n); }
}
pub fn copy_within<T: Copy>(v: &mut Vec<T>, a: usize, b: usize, d: usize)
    requires a <= b <= old(v)@.len(), d + (b - a) <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(d as int) + old(v)@.subrange(a as int, b as int) + old(v)@.skip(d + (b - a))
{
    let n = b - a;
    if d <= a {
        let mut i = 0;
        while i < n
            invariant 0 <= i <= n, n == b - a, d <= a <= b <= old(v)@.len(), v@.len() == old(v)@.len(), v.len() == v@.len(), d + n <= old(v)@.len(), v@ =~= old(v)@.take(d as int) + old(v)@.subrange(a as int, a + i) + old(v)@.skip(d + i)
            decreases n - i
        { let x = v[a + i]; v.set(d + i, x); i = i + 1; }
    } else {
        let mut i = n;
        while i > 0
            invariant 0 <= i <= n, n == b - a, a < d, a <= b <= old(v)@.len(), v@.len() == old(v)@.len(), v.len() == v@.len(), d + n <= old(v)@.len(), v@ =~= old(v)@.take(d + i) + old(v)@.subrange(a + i, b as int) + old(v)@.skip(d + n)
            decreases i
        { i = i - 1; let x = v[a + i]; v.set(d + i, x); }
    }
}
/// slice::swap
pub fn vec_swap<T: Copy>(v: &mut Vec<T>, i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len()
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int])
{ let x = v[i]; let y = v[j]; v.set(i, y); v.set(j, x); }
/// panics are obligations: a reachable one is a failed precondition
pub fn runtime_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn runtime_panic() -> ! requires false { unimplemented!() }

// ---------------------------------------------------------------- core::option
pub assume_specification<'a, T>[ ::core::option::Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) where T: Copy
    ensures r == (match o { Some(x) => Some(*x), None => None });

// ---------------------------------------------------------------- core::mem
#[verifier::external_body]
pub fn mem_replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src
{ ::core::mem::replace(dest, src) }
pub fn mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ ::core::mem::swap(a, b) }
pub trait VpDefault: Sized { spec fn vp_dflt(x: Self) -> bool; fn vp_default() -> (r: Self) ensures Self::vp_dflt(r); }
impl<T> VpDefault for Option<T> { open spec fn vp_dflt(x: Self) -> bool { x is None } fn vp_default() -> Self { proof { let _ = Self::vp_dflt(None); } None } }
impl<T> VpDefault for Vec<T> { open spec fn vp_dflt(x: Self) -> bool { x@ == Seq::<T>::empty() } fn vp_default() -> Self { let v = Vec::new(); proof { let _ = Self::vp_dflt(v); } v } }
impl VpDefault for ::core::ops::Range<usize> { open spec fn vp_dflt(x: Self) -> bool { x.start == 0 && x.end == 0 } fn vp_default() -> Self { proof { let _ = Self::vp_dflt(0..0); } 0..0 } }
impl VpDefault for usize { open spec fn vp_dflt(x: Self) -> bool { x == 0 } fn vp_default() -> Self { proof { let _ = Self::vp_dflt(0); } 0 } }
impl VpDefault for bool { open spec fn vp_dflt(x: Self) -> bool { !x } fn vp_default() -> Self { proof { let _ = Self::vp_dflt(false); } false } }
pub fn mem_take<T: VpDefault>(dest: &mut T) -> (r: T)
    ensures r == *old(dest), T::vp_dflt(*final(dest))
{ mem_replace(dest, T::vp_default()) }

// ---------------------------------------------------------------- core::char
/// char::from_u32_unchecked: the validity precondition is an obligation of the caller
#[verifier::external_body]
pub fn from_u32_unchecked(x: u32) -> (r: char)
    requires scalar(x as int)
    ensures r as u32 == x, r == chr(x as int)
{ unimplemented!() }
pub fn from_u32(x: u32) -> (r: Option<char>)
    ensures match r { Some(c) => scalar(x as int) && c as u32 == x && c == chr(x as int), None => !scalar(x as int) }
{ if x < 0xD800 || (0xE000 <= x && x <= 0x10FFFF) { Some(from_u32_unchecked(x)) } else { None } }

// ---------------------------------------------------------------- core::fmt
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
/// Formatter, as far as Display impls use it: what has been written, and whether a write has failed
#[verifier::external_body]
pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn failed(&self) -> bool;
    // the options of the format string: anything
    #[verifier::external_body]
    pub fn alternate(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn precision(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&self) -> char { unimplemented!() }
    #[verifier::external_body]
    pub fn sign_plus(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn sign_minus(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn sign_aware_zero_pad(&self) -> bool { unimplemented!() }
}
pub trait Write {
    spec fn w_out(&self) -> Seq<char>;
    spec fn w_failed(&self) -> bool;
    fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures match r {
            Ok(_) => final(self).w_out() == old(self).w_out().push(c) && final(self).w_failed() == old(self).w_failed(),
            Err(_) => final(self).w_out() == old(self).w_out() && final(self).w_failed() };
}
impl Write for Formatter {
    open spec fn w_out(&self) -> Seq<char> { self.out() }
    open spec fn w_failed(&self) -> bool { self.failed() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: FmtResult) { unimplemented!() }
}
/// Display: writes what iterating a copy would yield; the first failing write ends it with an error
pub trait Display {
    spec fn d_ok(&self) -> bool;
    spec fn d_text(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires self.d_ok(), !old(f).failed()
        ensures match r {
            Ok(_) => final(f).out() == old(f).out() + self.d_text() && !final(f).failed(),
            Err(_) => final(f).failed() && final(f).out().len() < old(f).out().len() + self.d_text().len() && final(f).out().is_prefix_of(old(f).out() + self.d_text()) };
}


} // verus!

pub mod vcore {
    pub mod iter { pub use crate::vp::{Iterator, Fuse, FusedIterator}; }
    pub mod ops { pub use ::core::ops::Range; }
    pub mod str { pub use crate::vp::Chars; }
    pub mod option { pub use crate::vp::OptIntoIter as IntoIter; pub use ::core::option::Option; }
    pub mod char { pub use crate::vp::{from_u32_unchecked, from_u32}; }
    pub mod clone { pub use crate::vp::Clone; }
    pub mod cmp { pub use ::core::cmp::{min, max}; }
    pub mod mem { pub use crate::vp::{mem_replace as replace, mem_swap as swap, mem_take as take}; }
    pub mod vec { pub use ::std::vec::Vec; }
    pub mod string { pub use ::std::string::String; }
    pub mod fmt { pub use crate::vp::{Formatter, Write, Display, FmtResult as Result, FmtError as Error}; }
}
