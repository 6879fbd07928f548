@@module decompose
impl DecompositionType { pub open spec fn k(&self) -> Kind { match self { DecompositionType::Canonical => Kind::C, DecompositionType::Compatible => Kind::K } } }
impl<I> Decompositions<I> {
    pub open spec fn bwf(&self) -> bool {
        &&& classed(self.buffer@)
        &&& self.ready.start <= self.ready.end <= self.buffer@.len()
        &&& (self.ready.start < self.ready.end || self.ready.end == 0)
        &&& pend(self.buffer@.skip(self.ready.end as int))
    }
    pub open spec fn ready_chars(&self) -> Seq<char> { chars(self.buffer@.subrange(self.ready.start as int, self.ready.end as int)) }
    pub open spec fn pending_chars(&self) -> Seq<char> { chars(self.buffer@.skip(self.ready.end as int)) }
    /// what will come out if the decomposition of the rest of the source is `rest`
    pub open spec fn stream(&self, rest: Seq<char>) -> Seq<char> { self.ready_chars() + cord(self.pending_chars() + rest) }
}
pub proof fn exit_push<I>(o: Decompositions<I>, n: Decompositions<I>, ch: char)
  requires o.bwf(), n.ready.start == o.ready.start,
    ccc(ch) == 0 ==> (n.ready.end == n.buffer@.len() || n.ready.end + 1 == n.buffer@.len()) && exists|m: Seq<(u8,char)>| sorted_from(o.buffer@, m, o.ready.end as int) && n.buffer@ == #[trigger] m.push((0, ch)),
    ccc(ch) != 0 ==> n.ready.end == o.ready.end && n.buffer@ == o.buffer@.push((ccc(ch), ch)),
  ensures n.bwf(), forall|rest: Seq<char>| #[trigger] n.stream(rest) == o.stream(seq![ch] + rest),
{
  assert(n.bwf()) by {
    if ccc(ch) == 0 {
      let m = choose|m: Seq<(u8,char)>| sorted_from(o.buffer@, m, o.ready.end as int) && n.buffer@ == #[trigger] m.push((0, ch));
    } else {
      assert forall|i: int| 1 <= i < n.buffer@.skip(n.ready.end as int).len() implies (#[trigger] n.buffer@.skip(n.ready.end as int)[i]).0 != 0 by {
        if i < o.buffer@.len() - o.ready.end { assert(n.buffer@.skip(n.ready.end as int)[i] == o.buffer@.skip(o.ready.end as int)[i]); }
      }
    }
  }
  let s = o.ready.start as int; let e = o.ready.end as int;
  let b = o.buffer@;
  assert forall|rest: Seq<char>| #[trigger] n.stream(rest) == o.stream(seq![ch] + rest) by {
    if ccc(ch) == 0 {
      let m = choose|m: Seq<(u8,char)>| sorted_from(b, m, e) && n.buffer@ == #[trigger] m.push((0, ch));
      let all = n.buffer@.subrange(s, n.buffer@.len() as int);
      assert(all =~= m.take(e).skip(s) + m.skip(e).push((0, ch)));
      assert(b.take(e).skip(s) =~= b.subrange(s, e));
      assert(chars(m.take(e).skip(s) + m.skip(e).push((0, ch))) =~= chars(m.take(e).skip(s)) + (chars(m.skip(e)) + seq![ch]));
      assert(chars(all) == o.ready_chars() + (cord(o.pending_chars()) + seq![ch]));
      lemma_cord_starter(Seq::empty(), ch, rest);
      assert(Seq::<char>::empty() + (seq![ch] + rest) =~= seq![ch] + rest);
      assert(cord(Seq::<char>::empty()) + seq![ch] =~= seq![ch]);
      if n.ready.end == n.buffer@.len() {
        assert(n.pending_chars() =~= Seq::empty());
      } else {
        assert(n.ready_chars() =~= o.ready_chars() + cord(o.pending_chars()));
        assert(n.pending_chars() =~= seq![ch]);
        assert(n.stream(rest) =~= o.ready_chars() + (cord(o.pending_chars()) + seq![ch]) + cord(rest));
      }
      lemma_cord_starter(o.pending_chars(), ch, rest);
      assert(Seq::<char>::empty() + rest =~= rest);
      assert(o.ready_chars() + (cord(o.pending_chars()) + seq![ch]) + cord(rest) =~= o.ready_chars() + (cord(o.pending_chars()) + seq![ch] + cord(rest)));
    } else {
      assert(n.buffer@.subrange(s, e) =~= b.subrange(s, e));
      assert(n.pending_chars() =~= o.pending_chars().push(ch));
      assert(o.pending_chars().push(ch) + rest =~= o.pending_chars() + (seq![ch] + rest));
    }
  }
}
pub proof fn exit_incr<I>(o: Decompositions<I>, n: Decompositions<I>)
  requires o.bwf(), o.ready.end > 0,
    o.ready.start + 1 == o.ready.end ==> n.buffer@ == o.buffer@.skip(o.ready.end as int) && n.ready.start == 0 && n.ready.end == 0,
    o.ready.start + 1 != o.ready.end ==> n.buffer@ == o.buffer@ && n.ready.start == o.ready.start + 1 && n.ready.end == o.ready.end
  ensures n.bwf(), forall|rest: Seq<char>| o.stream(rest) == seq![o.buffer@[o.ready.start as int].1] + #[trigger] n.stream(rest),
{
  assert(n.buffer@.skip(n.ready.end as int) =~= o.buffer@.skip(o.ready.end as int));
  assert(classed(n.buffer@));
  assert forall|rest: Seq<char>| o.stream(rest) == seq![o.buffer@[o.ready.start as int].1] + #[trigger] n.stream(rest) by {
    assert(o.ready_chars() =~= seq![o.buffer@[o.ready.start as int].1] + n.ready_chars());
    assert(o.stream(rest) =~= seq![o.buffer@[o.ready.start as int].1] + n.stream(rest));
  }
}

@@impl decompose::Decompositions::Iterator
    open spec fn wf(&self) -> bool { self.bwf() && self.iter.wf() }
    open spec fn rem(&self) -> Seq<char> { self.stream(decs(self.kind.k(), self.iter.rem())) }
    open spec fn done(&self) -> bool { false }
@@impl decompose::Decompositions::Display
    open spec fn d_ok(&self) -> bool { self.wf() }
    open spec fn d_text(&self) -> Seq<char> { self.rem() }

@@fn decompose::Decompositions::new_canonical
    requires $0.wf(), !$0.done()
    ensures $r.wf(), $r.rem() == nfd(Kind::C, $0.rem()),
        $r.iter.rem() == $0.rem(), // [C14]
@exit
    exit_new($r, $0);
@@fn decompose::Decompositions::new_compatible
    requires $0.wf(), !$0.done()
    ensures $r.wf(), $r.rem() == nfd(Kind::K, $0.rem()),
        $r.iter.rem() == $0.rem(), // [C14]
@exit
    exit_new($r, $0);
@@module decompose
pub proof fn exit_new<I: Iterator<Item = char>>(r: Decompositions<I>, src: I)
    requires src.wf(), !src.done(), r.iter.iter == Some(src), r.buffer@.len() == 0, r.ready.start == 0, r.ready.end == 0
    ensures r.wf(), r.rem() == nfd(r.kind.k(), src.rem())
{
    broadcast use seq_simpl;
    assert(r.buffer@ =~= Seq::empty());
    assert(r.ready_chars() =~= Seq::empty());
    assert(r.pending_chars() =~= Seq::empty());
}

@@fn decompose::Decompositions::push_back
    requires old(self).bwf()
    ensures final(self).bwf(), final(self).kind == old(self).kind, final(self).iter == old(self).iter,
        forall|rest: Seq<char>| #[trigger] final(self).stream(rest) == old(self).stream(seq![$0] + rest),
        final(self).ready.end == 0 <==> old(self).ready.end == 0 && ccc($0) != 0, // [C14]
        final(self).tally() == dstep(old(self).tally(), $0), // [C14]
@exit
    exit_push(*old(self), *self, $0);
@@fn decompose::Decompositions::sort_pending
    requires old(self).bwf()
    ensures final(self).kind == old(self).kind, final(self).iter == old(self).iter, final(self).ready == old(self).ready,
        sorted_from(old(self).buffer@, final(self).buffer@, old(self).ready.end as int),
@exit
    exit_sort(old(self).buffer@, self.buffer@, self.ready.end as int);
@@fn decompose::Decompositions::reset_buffer
    requires old(self).ready.end <= old(self).buffer.len()
    ensures final(self).kind == old(self).kind, final(self).iter == old(self).iter, final(self).ready.start == 0, final(self).ready.end == 0,
        final(self).buffer@ == old(self).buffer@.skip(old(self).ready.end as int)
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@exit
    assert(self.buffer@ =~= old(self).buffer@.skip(old(self).ready.end as int));
@loop range
    invariant self.kind == old(self).kind, self.iter == old(self).iter, self.ready == $p.ready,
        self.buffer@.len() == self.buffer.len(), self.buffer.len() == old(self).buffer.len(), $it.end - $it0.cur == self.buffer.len() - old(self).ready.end, $it0.cur <= $it.cur <= $it.end,
        forall|j: int| 0 <= j < $it.cur - $it0.cur ==> self.buffer@[j] == old(self).buffer@[j + old(self).ready.end],
        forall|j: int| $it.cur - $it0.cur + old(self).ready.end <= j < self.buffer.len() ==> self.buffer@[j] == old(self).buffer@[j],
    ensures $it.cur == $it.end
    decreases $it.end - $it.cur
@@fn decompose::Decompositions::increment_next_ready
    requires old(self).bwf(), old(self).ready.end > 0
    ensures final(self).kind == old(self).kind, final(self).iter == old(self).iter, final(self).bwf(),
        forall|rest: Seq<char>| old(self).stream(rest) == seq![old(self).buffer@[old(self).ready.start as int].1] + #[trigger] final(self).stream(rest),
        final(self).ready.end == 0 <==> old(self).ready.start + 1 == old(self).ready.end,
        final(self).tally() == (((old(self).tally().0 - 1) as nat), old(self).tally().1), // [C14]
@exit
    exit_incr(*old(self), *self);
@@fn decompose::Decompositions::Iterator::next
@entry
    broadcast use seq_simpl;
@loop d0
    invariant self.wf(), self.rem() == old(self).rem(), self.kind == old(self).kind,
    ensures self.ready.end > 0
    decreases self.iter.rem().len()
@loop sink
    invariant $it.v == $it0.v, $it.pos <= $it.v@.len(), self.bwf(), self.kind == $p.kind, self.iter == $p.iter,
        forall|rest: Seq<char>| #[trigger] self.stream(rest) == $p.stream($it.v@.take($it.pos as int) + rest),
    ensures $it.pos == $it.v@.len()
    decreases $it.v@.len() - $it.pos
@end
    assert forall|rest: Seq<char>| #[trigger] self.stream(rest) == $p.stream($it.v@.take($it.pos as int) + rest) by {
        assert(self.stream(rest) == $s.stream(seq![$x] + rest));
        assert($it.v@.take($it.pos - 1) + (seq![$x] + rest) =~= $it.v@.take($it.pos as int) + rest);
    }
@after
    assert($it.v@.take($it.pos as int) =~= $it.v@);
@@fn decompose::Decompositions::Iterator::size_hint
@entry
    proof { lemma_decs_len(self.kind.k(), self.iter.rem()); lemma_cordf_len(Seq::empty(), self.pending_chars() + decs(self.kind.k(), self.iter.rem())); }
@@fn decompose::Decompositions::Display::fmt
@loop iter
    invariant_except_break $it.wf(), !$it.done(), !$0.failed(), $0.out().len() <= (old($0).out() + self.rem()).len(),
        $0.out() == (old($0).out() + self.rem()).take($0.out().len() as int), $it.rem() == (old($0).out() + self.rem()).skip($0.out().len() as int)
    ensures $0.out() == (old($0).out() + self.rem()), !$0.failed()
    decreases $it.rem().len()
@pre
    proof { display_start(old($0).out(), self.rem()); }
@start
    display_step((old($0).out() + self.rem()), $0.out());

@@impl decompose::Decompositions::FusedIterator
    proof fn vp_fused(&self) {}
