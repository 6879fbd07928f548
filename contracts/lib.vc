@@trait lib::UnicodeNormalization
    spec fn vp_text(&self) -> Seq<char>;
    spec fn vp_ok(&self) -> bool;
@@impl lib::str::UnicodeNormalization
    open spec fn vp_text(&self) -> Seq<char> { self.vp_view() }
    open spec fn vp_ok(&self) -> bool { true }
@@impl lib::char::UnicodeNormalization
    open spec fn vp_text(&self) -> Seq<char> { seq![*self] }
    open spec fn vp_ok(&self) -> bool { true }
@@impl lib::I::UnicodeNormalization
    open spec fn vp_text(&self) -> Seq<char> { self.rem() }
    open spec fn vp_ok(&self) -> bool { self.wf() && !self.done() }
@@fn lib::UnicodeNormalization::nfd
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == nfd(Kind::C, self.vp_text())
@@fn lib::UnicodeNormalization::nfkd
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == nfd(Kind::K, self.vp_text())
@@fn lib::UnicodeNormalization::nfc
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == nfc(Kind::C, self.vp_text())
@@fn lib::UnicodeNormalization::nfkc
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == nfc(Kind::K, self.vp_text())
@@fn lib::UnicodeNormalization::cjk_compat_variants
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == variants(self.vp_text())
@@fn lib::UnicodeNormalization::stream_safe
    requires self.vp_ok()
    ensures $r.wf(), !$r.done(), $r.rem() == ssafe(self.vp_text())
