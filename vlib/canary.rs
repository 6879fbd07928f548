//! Reachability check behind the axioms: this assertion must fail.  If the verifier accepts it, the axioms are
//! contradictory and nothing else it says counts (see check.py).
use vstd::prelude::*;
use crate::spec::*;
use crate::data::*;
use crate::vp::*;
use crate::lem::*;
use crate::chf::*;
verus! {
proof fn must_fail(k: Kind, a: char, b: char, s: Seq<char>)
{
    ax_scalar(a); ax_scalar(b); ax_chr(a as int); b_comp(a, b); b_has(k, a); counts_of(k, a);
    assert(false);
}
proof fn counts_of(k: Kind, c: char) { if !hangul(c) { b_dec(k, c); } else { b_dec_hangul(k, c); hangul_parts(c); } }
} // verus!
