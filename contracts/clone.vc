@@fn decompose::Decompositions::same::clone
    requires self.wf()
    ensures $r.wf(), $r.rem() == self.rem(), $r.done() == self.done()
@entry
    broadcast use seq_simpl;
@@fn recompose::Recompositions::same::clone
    requires self.wf()
    ensures $r.wf(), $r.rem() == self.rem(), $r.done() == self.done()
@entry
    broadcast use seq_simpl;
@@fn replace::Replacements::same::clone
    requires self.wf()
    ensures $r.wf(), $r.rem() == self.rem(), $r.done() == self.done()
@entry
    broadcast use seq_simpl;
