@@module decompose
/// how many characters of `src` an NFD/NFKD iterator with nothing ready has to read before a character can come out
pub open spec fn dneed(k: Kind, src: Seq<char>) -> nat decreases src.len()
{ if src.len() == 0 { 0 } else if has_starter(dec(k, src[0])) { 1 } else { 1 + dneed(k, src.drop_first()) } }
pub open spec fn has_starter(d: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && ccc(#[trigger] d[i]) == 0 }
impl<I: Iterator<Item = char>> Decompositions<I> {
    pub open spec fn need(&self) -> nat { if self.ready.end > 0 { 0 } else { dneed(self.kind.k(), self.iter.rem()) } }
}
@@fn decompose::Decompositions::lazy::next
    requires old(self).wf()
    ensures final(self).wf(), final(self).iter.rem().len() <= old(self).iter.rem().len(),
        old(self).iter.rem().len() - final(self).iter.rem().len() <= old(self).need()
@entry
    broadcast use seq_simpl;
@loop d0
    invariant self.wf(), self.kind == old(self).kind, self.iter.rem().len() <= old(self).iter.rem().len(),
        old(self).iter.rem().len() - self.iter.rem().len() + self.need() <= old(self).need()
    ensures self.ready.end > 0
    decreases self.iter.rem().len()
@loop sink
    invariant $it.v == $it0.v, $it.pos <= $it.v@.len(), self.bwf(), self.kind == $p.kind, self.iter == $p.iter,
        self.ready.end == 0 ==> $p.ready.end == 0 && !has_starter($it.v@.take($it.pos as int)),
    ensures $it.pos == $it.v@.len()
    decreases $it.v@.len() - $it.pos
@end
    if self.ready.end == 0 {
        let d = $it.v@.take($it.pos as int); let e = $it.v@.take($it.pos - 1);
        assert(!has_starter(d)) by { if has_starter(d) { let i = choose|i: int| 0 <= i < d.len() && ccc(#[trigger] d[i]) == 0; if i < e.len() { assert(e[i] == d[i]); assert(has_starter(e)); } else { assert(d[i] == $x); } } }
    }
@after
    assert($it.v@.take($it.pos as int) =~= $it.v@);
@@module decompose
/// (ready, pending) characters after one more character of a decomposition
pub open spec fn dstep(a: (nat, nat), c: char) -> (nat, nat) { if ccc(c) == 0 { (a.0 + a.1 + 1, 0) } else { (a.0, a.1 + 1) } }
/// the same after all of d, which is added at the end
pub open spec fn drun(a: (nat, nat), d: Seq<char>) -> (nat, nat) decreases d.len()
{ if d.len() == 0 { a } else { dstep(drun(a, d.drop_last()), d.last()) } }
/// how many characters of `src` an NFD/NFKD iterator with p characters pending and none ready has to read before m
/// characters can have come out, or before the end of `src` shows
pub open spec fn dreads(k: Kind, p: nat, src: Seq<char>, m: int) -> nat decreases src.len()
{ if m <= 0 || src.len() == 0 { 0 } else { let a = drun((0, p), dec(k, src[0])); 1 + dreads(k, a.1, src.drop_first(), m - a.0) } }
impl<I> Decompositions<I> {
    pub open spec fn tally(&self) -> (nat, nat) { ((self.ready.end - self.ready.start) as nat, (self.buffer@.len() - self.ready.end) as nat) }
}
impl<I: Iterator<Item = char>> Decompositions<I> {
    pub open spec fn reads_for(&self, m: int) -> nat { dreads(self.kind.k(), self.tally().1, self.iter.rem(), m - self.tally().0) }
}
@@fn decompose::Decompositions::both::next
    requires old(self).wf()
    ensures final(self).wf(),
        if old(self).rem().len() > 0 { vp_r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().drop_first() } else { vp_r is None && final(self).rem() == old(self).rem() },
        final(self).iter.rem().len() <= old(self).iter.rem().len(),
        forall|m: int| m >= 1 ==> old(self).iter.rem().len() - final(self).iter.rem().len() + final(self).reads_for(m - 1) <= #[trigger] old(self).reads_for(m),
@entry
    broadcast use seq_simpl;
@loop d0
    invariant self.wf(), self.rem() == old(self).rem(), self.kind == old(self).kind, self.iter.rem().len() <= old(self).iter.rem().len(),
        forall|m: int| m >= 1 ==> old(self).iter.rem().len() - self.iter.rem().len() + self.reads_for(m) <= #[trigger] old(self).reads_for(m),
    ensures self.ready.end > 0
    decreases self.iter.rem().len()
@loop sink
    invariant $it.v == $it0.v, $it.pos <= $it.v@.len(), self.bwf(), self.kind == $p.kind, self.iter == $p.iter,
        forall|rest: Seq<char>| #[trigger] self.stream(rest) == $p.stream($it.v@.take($it.pos as int) + rest),
        self.tally() == drun($p.tally(), $it.v@.take($it.pos as int)),
    ensures $it.pos == $it.v@.len()
    decreases $it.v@.len() - $it.pos
@end
    assert forall|rest: Seq<char>| #[trigger] self.stream(rest) == $p.stream($it.v@.take($it.pos as int) + rest) by {
        assert(self.stream(rest) == $s.stream(seq![$x] + rest));
        assert($it.v@.take($it.pos - 1) + (seq![$x] + rest) =~= $it.v@.take($it.pos as int) + rest);
    }
    assert($it.v@.take($it.pos as int).drop_last() =~= $it.v@.take($it.pos - 1));
@after
    assert($it.v@.take($it.pos as int) =~= $it.v@);
@@module recompose
/// how many characters of the decomposition `ds` an NFC/NFKC iterator that holds the starter k and the marks b has to
/// see before a character can come out: the first mark of a text without a starter, or the next starter that does not
/// compose with k, or the end
pub open spec fn rneed(k: Option<char>, b: Seq<char>, ds: Seq<char>) -> nat decreases ds.len()
{
    if ds.len() == 0 { 1 } else {
        let c = ds[0]; let r = ds.drop_first();
        match k {
            None => if ccc(c) != 0 { 1 } else { 1 + rneed(Some(c), Seq::empty(), r) },
            Some(k) =>
                if b.len() > 0 && ccc(b.last()) >= ccc(c) || comp(k, c) is None { if ccc(c) == 0 { 1 } else { 1 + rneed(Some(k), b.push(c), r) } }
                else { 1 + rneed(comp(k, c), b, r) }
        }
    }
}
impl<I: Iterator<Item = char>> Recompositions<I> {
    pub closed spec fn need(&self) -> nat {
        match self.state {
            RecompositionState::Composing => rneed(self.composee, self.buffer@, self.iter.rem()),
            RecompositionState::Purging(n) => if n < self.buffer@.len() { 0 } else { rneed(self.composee, Seq::empty(), self.iter.rem()) },
            RecompositionState::Finished(n) => 0,
        }
    }
    /// how many characters of the source it has to read for that
    pub closed spec fn reads_needed(&self) -> nat { self.iter.reads_for(self.need() as int) }
}
@@fn recompose::Recompositions::lazy::next
    requires old(self).wf()
    ensures final(self).iter.iter.rem().len() <= old(self).iter.iter.rem().len(),
        old(self).iter.iter.rem().len() - final(self).iter.iter.rem().len() <= old(self).reads_needed()
@entry
    broadcast use seq_simpl;
@loop d0
    invariant self.wf(), self.iter.iter.rem().len() <= old(self).iter.iter.rem().len(), self.buffer@.len() == self.buffer.len(),
        old(self).iter.iter.rem().len() - self.iter.iter.rem().len() + self.reads_needed() <= old(self).reads_needed(),
    decreases (match self.state { RecompositionState::Composing => 1int, RecompositionState::Purging(n) => 2int, RecompositionState::Finished(n) => 0int })
@loop iter
    invariant_except_break old(self).iter.iter.rem().len() - self.iter.iter.rem().len() + self.reads_needed() <= old(self).reads_needed()
    invariant self.wf(), self.state is Composing, self.iter.iter.rem().len() <= old(self).iter.iter.rem().len(),
    ensures self.iter.rem().len() == 0, old(self).iter.iter.rem().len() - self.iter.iter.rem().len() <= old(self).reads_needed()
    decreases self.iter.rem().len()
@start
    assert($s.iter.rem() =~= seq![$x] + self.iter.rem());
    lemma_rstep($s.composee, $s.buffer@, $x, self.iter.rem());
    assert($s.iter.rem().drop_first() =~= self.iter.rem());
    if self.buffer@.len() == 0 { lemma_rempty(self.buffer@); }
@after
    lemma_rend(self.composee, self.buffer@, self.iter.rem());
@@fn stream_safe::StreamSafe::lazy::next
    requires old(self).wf()
    ensures !old(self).done() ==> old(self).iter.rem().len() - final(self).iter.rem().len() <= (if old(self).buffer is Some { 0int } else { 1 })
@entry
    broadcast use seq_simpl;
@@fn replace::Replacements::lazy::next
    requires old(self).wf()
    ensures !old(self).done() ==> old(self).iter.rem().len() - final(self).iter.rem().len() <= (if old(self).buffer is Some { 0int } else { 1 })
@entry
    broadcast use seq_simpl;
@vars
buffer = ArrayVec
@loop sink
    invariant $it.v == $it0.v, $it.pos <= $it.v@.len(), 1 <= $it.v@.len() <= 2, self.iter == $p.iter, buffer@ == $it.v@.take($it.pos as int)
    ensures $it.pos == $it.v@.len()
    decreases $it.v@.len() - $it.pos
@end
    assert(buffer@ =~= $it.v@.take($it.pos as int));
@after
    assert($it.v@.take($it.v@.len() as int) =~= $it.v@);
