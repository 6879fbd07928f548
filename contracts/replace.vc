@@impl replace::Replacements::Iterator
    open spec fn wf(&self) -> bool { self.iter.wf() }
    open spec fn rem(&self) -> Seq<char> { opt(self.buffer) + variants(self.iter.rem()) }
    open spec fn done(&self) -> bool { self.iter.done() }
@@impl replace::Replacements::Display
    open spec fn d_ok(&self) -> bool { self.wf() && !self.done() }
    open spec fn d_text(&self) -> Seq<char> { self.rem() }
@@fn replace::Replacements::new_cjk_compat_variants
    requires $0.wf(), !$0.done()
    ensures $r.wf(), !$r.done(), $r.rem() == variants($0.rem()),
        $r.iter.rem() == $0.rem(), // [C14]
@entry
    broadcast use seq_simpl;
@@fn replace::Replacements::Iterator::next
@entry
    broadcast use seq_simpl;
    proof { let t = old(self).iter.rem(); if t.len() > 0 { variants_step(t); } }
@vars
buffer = ArrayVec
@loop sink
    invariant $it.v == $it0.v, $it.pos <= $it.v@.len(), 1 <= $it.v@.len() <= 2, self.iter == $p.iter, buffer@ == $it.v@.take($it.pos as int)
    ensures $it.pos == $it.v@.len()
    decreases $it.v@.len() - $it.pos
@end
    assert(buffer@ =~= $it.v@.take($it.pos as int));
@after
    assert($it.v@.take($it.v@.len() as int) =~= $it.v@);
@@fn replace::Replacements::Iterator::size_hint
@entry
    proof { lemma_variants_len(self.iter.rem()); }
@@fn replace::Replacements::Display::fmt
@loop iter
    invariant_except_break $it.wf(), !$it.done(), !$0.failed(), $0.out().len() <= (old($0).out() + self.rem()).len(),
        $0.out() == (old($0).out() + self.rem()).take($0.out().len() as int), $it.rem() == (old($0).out() + self.rem()).skip($0.out().len() as int)
    ensures $0.out() == (old($0).out() + self.rem()), !$0.failed()
    decreases $it.rem().len()
@pre
    proof { display_start(old($0).out(), self.rem()); }
@start
    display_step((old($0).out() + self.rem()), $0.out());

@@impl replace::Replacements::FusedIterator
    proof fn vp_fused(&self) { self.iter.vp_fused(); }
