//! Facts about single characters: statements over the closed functions of data.rs only.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::data::*;
use crate::spec::*;
verus! {
pub open spec fn jamo(c: char) -> bool { 0x1100 <= c as int && (c as int) < 0x1200 }
pub proof fn dec_nonempty(k: Kind, c: char) ensures dec(k, c).len() > 0
{ if hangul(c) { b_dec_hangul(k, c); } else { b_dec(k, c); } }
pub proof fn dec_cases(k: Kind, c: char)
    ensures hangul(c) ==> dec(k, c) == hangul_dec(c),
        !hangul(c) && !has_dec(k, c) ==> dec(k, c) == seq![c] && dec(Kind::C, c) == seq![c],
{ if hangul(c) { b_dec_hangul(k, c); } else if !has_dec(k, c) { b_dec_none(k, c); } }
pub proof fn ascii(c: char)
    requires c as int <= 0x7f
    ensures !hangul(c), ccc(c) == 0, dec(Kind::C, c) == seq![c], dec(Kind::K, c) == seq![c], variant(c) == seq![c], !has_dec(Kind::C, c), !has_dec(Kind::K, c)
{
    b_ascii(c); b_variant(c);
    b_dec_none(Kind::K, c); b_dec_none(Kind::C, c);
}
/// the jamo that Hangul syllables decompose to
pub proof fn hangul_parts(c: char)
    requires hangul(c)
    ensures ({ let d = hangul_dec(c); let s = c as int - SB();
        &&& d.len() == (if s % 28 == 0 { 2nat } else { 3nat })
        &&& d[0] as int == LB() + s / 588 && LB() <= d[0] as int && (d[0] as int) < LB() + 19
        &&& d[1] as int == VB() + (s % 588) / 28 && VB() <= d[1] as int && (d[1] as int) < VB() + 21
        &&& s % 28 != 0 ==> d[2] as int == TB() + s % 28 && TB() < d[2] as int && (d[2] as int) < TB() + 28
        &&& forall|t: int| 0 <= t < d.len() ==> jamo(#[trigger] d[t]) })
{
    let s = c as int - SB();
    ax_chr(LB() + s / 588); ax_chr(VB() + (s % 588) / 28); ax_chr(TB() + s % 28);
    assert forall|t: int| 0 <= t < hangul_dec(c).len() implies jamo(#[trigger] hangul_dec(c)[t]) by {}
}
pub proof fn jamo_plain(c: char)
    requires jamo(c)
    ensures !hangul(c), ccc(c) == 0, !has_dec(Kind::C, c), !has_dec(Kind::K, c), dec(Kind::C, c) == seq![c], dec(Kind::K, c) == seq![c]
{ b_ccc(c); b_dec(Kind::C, c); b_dec(Kind::K, c); b_dec_none(Kind::C, c); b_dec_none(Kind::K, c); }
pub proof fn hangul_comp_char(a: char, b: char)
    ensures hangul_comp(a, b) is Some ==> ({ let p = hangul_comp(a, b)->0;
        hangul(p) && (jamo(a) || hangul(a)) && jamo(b) && ccc(a) == 0 && ccc(b) == 0 && ccc(p) == 0
          && (if jamo(a) { LB() <= a as int && (a as int) < LB() + 19 && VB() <= b as int && (b as int) < VB() + 21 && p as int == SB() + ((a as int - LB()) * 21 + (b as int - VB())) * 28 }
              else { hangul(a) && (a as int - SB()) % 28 == 0 && TB() < b as int && (b as int) < TB() + 28 && p as int == a as int + (b as int - TB()) }) })
{
    let (x, y) = (a as int, b as int);
    b_ccc(a); b_ccc(b);
    if hangul_comp(a, b) is Some {
        if LB() <= x < LB() + 19 && VB() <= y < VB() + 21 {
            ax_chr(SB() + ((x - LB()) * 21 + (y - VB())) * 28);
        } else { ax_chr(x + (y - TB())); }
        b_ccc(hangul_comp(a, b)->0);
    }
}
pub proof fn c_comp_ccc(a: char, b: char) ensures comp(a, b) is Some ==> ccc(a) == 0 && ccc(comp(a, b)->0) == 0
{
    reveal(comp);
    hangul_comp_char(a, b);
    b_comp(a, b);
    if hangul_comp(a, b) is None && table_comp(a, b) is Some {
        ax_scalar(a); ax_scalar(b);
        fact_comp(a as int, b as int);
        b_ccc(a); b_ccc(table_comp(a, b)->0);
    }
}
pub proof fn variant_len(c: char) ensures 1 <= variant(c).len() <= 2
{ b_variant(c); }
pub proof fn lead_range(s: Seq<char>) ensures 0 <= lead(s) <= s.len() decreases s.len()
{ if s.len() > 0 && ccc(s[0]) != 0 { lead_range(s.drop_first()); } }
pub proof fn trail_range(s: Seq<char>) ensures 0 <= trail(s) <= s.len() decreases s.len()
{ if s.len() > 0 && ccc(s.last()) != 0 { trail_range(s.drop_last()); } }
/// the counts of a decomposition
pub proof fn dec_counts(k: Kind, c: char)
    ensures 1 <= dec(k, c).len() <= 18, 0 <= lead(dec(k, c)) <= dec(k, c).len(), 0 <= trail(dec(k, c)) <= dec(k, c).len(),
        hangul(c) ==> lead(dec(k, c)) == 0 && trail(dec(k, c)) == 0,
        !hangul(c) && !has_dec(k, c) ==> dec(k, c) == seq![c] && lead(dec(k, c)) == (if ccc(c) == 0 { 0int } else { 1int }) && trail(dec(k, c)) == lead(dec(k, c)),
{
    let d = dec(k, c);
    lead_range(d); trail_range(d);
    if hangul(c) { b_dec_hangul(k, c); hangul_parts(c); jamo_plain(d[0]); jamo_plain(d.last()); }
    else {
        b_dec(k, c);
        if !has_dec(k, c) { b_dec_none(k, c); assert(d[0] == c && d.last() == c); assert(d.drop_first() =~= Seq::empty() && d.drop_last() =~= Seq::empty()); reveal_with_fuel(lead, 2); reveal_with_fuel(trail, 2); }
    }
}
} // verus!
