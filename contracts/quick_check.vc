@@fn quick_check::quick_check__is_nfc_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::C, true, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::C, true, $1, $0.rem()), $r is Maybe ==> true
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::C, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> true,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::C, true, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> true
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::C, true, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::C, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfc_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::C, true, $0.rem()) == $0.rem(), $r is No ==> crate::str::form(Kind::C, true, $0.rem()) != $0.rem()
@exit
    if $r is Yes { crate::str::yes_sound(Kind::C, true, $0.rem()); }
    if $r is No { crate::str::q_no_sound(Kind::C, true, $0.rem()); }
@@fn quick_check::is_nfc
    ensures $r == (crate::str::form(Kind::C, true, $0.vp_view()) == $0.vp_view())
@@fn quick_check::quick_check__is_nfkc_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::K, true, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::K, true, $1, $0.rem()), $r is Maybe ==> true
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::K, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> true,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::K, true, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> true
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::K, true, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::K, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfkc_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::K, true, $0.rem()) == $0.rem(), $r is No ==> crate::str::form(Kind::K, true, $0.rem()) != $0.rem()
@exit
    if $r is Yes { crate::str::yes_sound(Kind::K, true, $0.rem()); }
    if $r is No { crate::str::q_no_sound(Kind::K, true, $0.rem()); }
@@fn quick_check::is_nfkc
    ensures $r == (crate::str::form(Kind::K, true, $0.vp_view()) == $0.vp_view())
@@fn quick_check::quick_check__is_nfd_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::C, false, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::C, false, $1, $0.rem()), $r is Maybe ==> false
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::C, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> false,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::C, false, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> false
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::C, false, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::C, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfd_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::C, false, $0.rem()) == $0.rem(), $r is No ==> crate::str::form(Kind::C, false, $0.rem()) != $0.rem(), !($r is Maybe)
@exit
    if $r is Yes { crate::str::yes_sound(Kind::C, false, $0.rem()); }
    if $r is No { crate::str::q_no_sound(Kind::C, false, $0.rem()); }
@@fn quick_check::is_nfd
    ensures $r == (crate::str::form(Kind::C, false, $0.vp_view()) == $0.vp_view())
@@fn quick_check::quick_check__is_nfkd_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::K, false, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::K, false, $1, $0.rem()), $r is Maybe ==> false
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::K, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> false,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::K, false, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> false
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::K, false, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::K, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfkd_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::K, false, $0.rem()) == $0.rem(), $r is No ==> crate::str::form(Kind::K, false, $0.rem()) != $0.rem(), !($r is Maybe)
@exit
    if $r is Yes { crate::str::yes_sound(Kind::K, false, $0.rem()); }
    if $r is No { crate::str::q_no_sound(Kind::K, false, $0.rem()); }
@@fn quick_check::is_nfkd
    ensures $r == (crate::str::form(Kind::K, false, $0.vp_view()) == $0.vp_view())
@@fn quick_check::quick_check__is_nfc_stream_safe_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::C, true, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::C, true, $1, $0.rem()), $r is Maybe ==> true
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::C, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> true,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::C, true, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> true
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::C, true, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::C, true, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfc_stream_safe_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::C, true, $0.rem()) == $0.rem() && stream_safe_text($0.rem()),
        $r is No ==> crate::str::form(Kind::C, true, $0.rem()) != $0.rem() || !stream_safe_text($0.rem())
@exit
    if $r is Yes { crate::str::yes_sound_ss(Kind::C, true, $0.rem()); }
    if $r is No { crate::str::no_sound_ss(Kind::C, true, $0.rem()); }
@@fn quick_check::is_nfc_stream_safe
    ensures $r == (crate::str::form(Kind::C, true, $0.vp_view()) == $0.vp_view() && stream_safe_text($0.vp_view()))
@entry
    proof { crate::str::th_safe_check(Kind::C, true, $0.vp_view()); }
@@fn quick_check::quick_check__is_nfd_stream_safe_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::q_yes(Kind::C, false, $1, $0.rem()), $r is No ==> crate::str::q_no(Kind::C, false, $1, $0.rem()), $r is Maybe ==> false
@vars
last_cc = 0u8 | u8
result = IsNormalized | = false ; | bool
nonstarter_count = = 0 ; | = 0usize ; | usize
@loop iter
    invariant_except_break $it.wf(), !$it.done(),
        $it.rem().len() <= $it0.rem().len(), $it.rem() == $it0.rem().skip($it0.rem().len() - $it.rem().len()),
        result.q_yes() ==> crate::str::q_upto(Kind::C, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len()),
        result.q_no() ==> false, result.q_maybe() ==> false,
        last_cc == crate::str::last_ccc($it0.rem().take($it0.rem().len() - $it.rem().len())),
        $1 ==> nonstarter_count == crate::str::cnt($it0.rem().take($it0.rem().len() - $it.rem().len())), nonstarter_count <= 30
    invariant $it0.rem() == $0.rem()
    ensures result.q_yes() ==> crate::str::q_upto(Kind::C, false, $1, $it0.rem(), $it0.rem().len() as int), !result.q_no(), result.q_maybe() ==> false
    decreases $it.rem().len()
@pre
    proof { crate::str::q_upto_ends(Kind::C, false, $1, $it0.rem()); assert($it.rem().skip(0) =~= $it.rem()); assert($it.rem().take(0) =~= Seq::<char>::empty()); }
@start
    crate::str::qc_step(Kind::C, false, $1, $it0.rem(), $it0.rem().len() - $it.rem().len() - 1);
@@fn quick_check::is_nfd_stream_safe_quick
    requires $0.wf(), !$0.done()
    ensures $r is Yes ==> crate::str::form(Kind::C, false, $0.rem()) == $0.rem() && stream_safe_text($0.rem()),
        $r is No ==> crate::str::form(Kind::C, false, $0.rem()) != $0.rem() || !stream_safe_text($0.rem())
@exit
    if $r is Yes { crate::str::yes_sound_ss(Kind::C, false, $0.rem()); }
    if $r is No { crate::str::no_sound_ss(Kind::C, false, $0.rem()); }
@@fn quick_check::is_nfd_stream_safe
    ensures $r == (crate::str::form(Kind::C, false, $0.vp_view()) == $0.vp_view() && stream_safe_text($0.vp_view()))
@entry
    proof { crate::str::th_safe_check(Kind::C, false, $0.vp_view()); }
@@module quick_check
/// the verdict so far, whether kept as a value or as a flag for Maybe
pub trait QState { spec fn q_yes(self) -> bool; spec fn q_no(self) -> bool; spec fn q_maybe(self) -> bool; }
impl QState for IsNormalized {
    open spec fn q_yes(self) -> bool { self is Yes }
    open spec fn q_no(self) -> bool { self is No }
    open spec fn q_maybe(self) -> bool { self is Maybe }
}
impl QState for bool {
    open spec fn q_yes(self) -> bool { !self }
    open spec fn q_no(self) -> bool { false }
    open spec fn q_maybe(self) -> bool { self }
}
