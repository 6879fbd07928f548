@@impl recompose::Recompositions::Iterator
    closed spec fn wf(&self) -> bool {
        &&& self.iter.wf()
        &&& match self.state {
            RecompositionState::Composing => rinv(self.composee, self.buffer@, self.iter.rem()) && self.last_ccc == lastc(self.buffer@),
            RecompositionState::Purging(n) => n <= self.buffer.len() && self.last_ccc is None && self.composee is Some && rinv(self.composee, Seq::empty(), self.iter.rem()),
            RecompositionState::Finished(n) => self.composee is None && self.iter.rem().len() == 0,
        }
    }
    closed spec fn rem(&self) -> Seq<char> {
        match self.state {
            RecompositionState::Composing => rfut(self.composee, self.buffer@, self.iter.rem()),
            RecompositionState::Purging(n) => self.buffer@.skip(n as int) + rfut(self.composee, Seq::empty(), self.iter.rem()),
            RecompositionState::Finished(n) => if n <= self.buffer@.len() { self.buffer@.skip(n as int) } else { Seq::empty() }
        }
    }
    closed spec fn done(&self) -> bool { false }
@@impl recompose::Recompositions::Display
    open spec fn d_ok(&self) -> bool { self.wf() }
    open spec fn d_text(&self) -> Seq<char> { self.rem() }

@@fn recompose::Recompositions::new_canonical
    requires $0.wf(), !$0.done()
    ensures $r.wf(), $r.rem() == nfc(Kind::C, $0.rem()), !$r.done(),
        $r.iter.iter.rem() == $0.rem(), // [C14]
@exit
    lemma_nfd_ordered(Kind::C, $0.rem());
    exit_new($r, nfd(Kind::C, $0.rem()));
@@fn recompose::Recompositions::new_compatible
    requires $0.wf(), !$0.done()
    ensures $r.wf(), $r.rem() == nfc(Kind::K, $0.rem()), !$r.done(),
        $r.iter.iter.rem() == $0.rem(), // [C14]
@exit
    lemma_nfd_ordered(Kind::K, $0.rem());
    exit_new($r, nfd(Kind::K, $0.rem()));
@@module recompose
pub proof fn exit_new<I: Iterator<Item = char>>(r: Recompositions<I>, d: Seq<char>)
    requires r.iter.wf(), r.iter.rem() == d, ordered(d), r.state is Composing, r.buffer@.len() == 0, r.composee is None, r.last_ccc is None
    ensures r.wf(), r.rem() == compf(Seq::empty(), d), !r.done()
{
    broadcast use seq_simpl;
    reveal(rinv); reveal(rfut);
    assert(r.buffer@ =~= Seq::empty());
}
@@fn recompose::Recompositions::Iterator::next
@entry
    broadcast use seq_simpl;
@loop d0
    invariant self.wf(), self.rem() == old(self).rem(),
    decreases (match self.state { RecompositionState::Composing => 1int, RecompositionState::Purging(n) => 2int, RecompositionState::Finished(n) => 0int })
@loop iter
    invariant self.wf(), self.rem() == old(self).rem(), self.state is Composing,
    ensures self.iter.rem().len() == 0
    decreases self.iter.rem().len()
@start
    assert($s.iter.rem() =~= seq![$x] + self.iter.rem());
    lemma_rstep($s.composee, $s.buffer@, $x, self.iter.rem());
    if self.buffer@.len() == 0 { lemma_rempty(self.buffer@); }
@after
    lemma_rend(self.composee, self.buffer@, self.iter.rem());
@@fn recompose::Recompositions::Display::fmt
@loop iter
    invariant_except_break $it.wf(), !$it.done(), !$0.failed(), $0.out().len() <= (old($0).out() + self.rem()).len(),
        $0.out() == (old($0).out() + self.rem()).take($0.out().len() as int), $it.rem() == (old($0).out() + self.rem()).skip($0.out().len() as int)
    ensures $0.out() == (old($0).out() + self.rem()), !$0.failed()
    decreases $it.rem().len()
@pre
    proof { display_start(old($0).out(), self.rem()); }
@start
    display_step((old($0).out() + self.rem()), $0.out());

@@impl recompose::Recompositions::FusedIterator
    proof fn vp_fused(&self) {}
