@@impl stream_safe::StreamSafe::Iterator
    open spec fn wf(&self) -> bool { self.iter.wf() && self.nonstarter_count <= 30 && (self.buffer is Some ==> self.nonstarter_count == 0) }
    open spec fn rem(&self) -> Seq<char> { ssf(self.nonstarter_count as int, opt(self.buffer) + self.iter.rem()) }
    open spec fn done(&self) -> bool { self.iter.done() }
@@impl stream_safe::StreamSafe::FusedIterator
    proof fn vp_fused(&self) { self.iter.vp_fused(); }
@@fn stream_safe::StreamSafe::new
    requires $0.wf(), !$0.done()
    ensures $r.wf(), !$r.done(), $r.rem() == ssafe($0.rem()),
        $r.iter.rem() == $0.rem(), // [C14]
@entry
    broadcast use seq_simpl;
@@fn stream_safe::StreamSafe::Iterator::next
@entry
    broadcast use seq_simpl;
    proof { let t = opt(old(self).buffer) + old(self).iter.rem(); if t.len() > 0 { ssf_step(old(self).nonstarter_count as int, t); } }
@@fn stream_safe::classify_nonstarters
    ensures ({ let d = dec(Kind::K, $0); $r.leading_nonstarters == lead(d) && $r.trailing_nonstarters == trail(d) && $r.decomposition_len == d.len() && 1 <= d.len() <= 18 && 0 <= lead(d) <= d.len() && 0 <= trail(d) <= d.len() })
@entry
    proof { if $0 as int <= 0x7f { ascii($0); } dec_counts(Kind::K, $0); dec_cases(Kind::K, $0); dec_cases(Kind::C, $0); }
