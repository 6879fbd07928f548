@@fn lookups::u8_lookup_fk
    ensures $r == $0 / 256
@exit
    assert($0 >> 8 == $0 / 256) by (bit_vector);
@@fn lookups::u8_lookup_fv
    ensures $r == $0 % 256
@exit
    assert($0 & 0xff == $0 % 256) by (bit_vector);
    assert(($0 as u8) as u32 == $0 % 256) by (bit_vector);
@@fn lookups::bool_lookup_fk
    ensures $r == $0
@@fn lookups::bool_lookup_fv
    ensures $r
@@fn lookups::pair_lookup_fk
    ensures $r == $0.0
@@fn lookups::pair_lookup_fv_opt
    ensures $r == Some($0.1)

@@fn lookups::canonical_combining_class
    ensures $r == ccc($0)
@exit
    crate::tabproof::tab_ccc($0, CANONICAL_COMBINING_CLASS_SALT@, CANONICAL_COMBINING_CLASS_KV@);
@@fn lookups::is_combining_mark
    ensures $r == is_mark($0)
@exit
    crate::tabproof::tab_mark($0, COMBINING_MARK_SALT@, COMBINING_MARK_KV@);
@@fn lookups::composition_table
    ensures $r == table_comp($0, $1)
@entry
    proof {
    let a = $0 as u32; let b = $1 as u32;
    if a < 0x10000 && b < 0x10000 {
        assert((a << 16) == a * 65536) by (bit_vector) requires a < 0x10000u32;
        assert((a << 16 | b) == a * 65536 + b) by (bit_vector) requires a < 0x10000u32, b < 0x10000u32;
    }
    }
@exit
    if ($0 as int) < 0x10000 && ($1 as int) < 0x10000 {
        crate::tabproof::tab_comp($0, $1, COMPOSITION_TABLE_SALT@, COMPOSITION_TABLE_KV@);
        let a = $0 as u32; let b = $1 as u32;
        assert((a << 16 | b) == a * 65536 + b) by (bit_vector) requires a < 0x10000u32, b < 0x10000u32;
    }
@@fn lookups::canonical_fully_decomposed
    ensures match $r {
        Some(s) => s@ == dec(Kind::C, $0) && has_dec(Kind::C, $0) && !hangul($0),
        None => !has_dec(Kind::C, $0) && (!hangul($0) ==> dec(Kind::C, $0) == seq![$0]) }
@entry
    proof {
    crate::tabproof::tab_canon($0, CANONICAL_DECOMPOSED_SALT@, CANONICAL_DECOMPOSED_KV@, CANONICAL_DECOMPOSED_CHARS@);
    if !hangul($0) && !has_dec(Kind::C, $0) { b_dec_none(Kind::C, $0); }
    }
@exit
    slice_of(CANONICAL_DECOMPOSED_CHARS@);
@@fn lookups::compatibility_fully_decomposed
    ensures match $r {
        Some(s) => s@ == dec(Kind::K, $0) && has_dec(Kind::K, $0) && !hangul($0),
        None => dec(Kind::K, $0) == dec(Kind::C, $0) && has_dec(Kind::K, $0) == has_dec(Kind::C, $0) }
@entry
    proof {
    crate::tabproof::tab_compat($0, COMPATIBILITY_DECOMPOSED_SALT@, COMPATIBILITY_DECOMPOSED_KV@, COMPATIBILITY_DECOMPOSED_CHARS@);
    }
@exit
    slice_of(COMPATIBILITY_DECOMPOSED_CHARS@);
@@fn lookups::cjk_compat_variants_fully_decomposed
    ensures match $r {
        Some(s) => s@ == variant($0) && has_variant($0),
        None => !has_variant($0) && variant($0) == seq![$0] }
@entry
    proof {
    crate::tabproof::tab_cjk($0, CJK_COMPAT_VARIANTS_DECOMPOSED_SALT@, CJK_COMPAT_VARIANTS_DECOMPOSED_KV@, CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS@);
    b_variant($0);
    }
@exit
    slice_of(CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS@);
@@fn lookups::stream_safe_trailing_nonstarters
    requires has_dec(Kind::K, $0), !hangul($0)
    ensures $r == trail(dec(Kind::K, $0))
@exit
    crate::tabproof::tab_trail($0, TRAILING_NONSTARTERS_SALT@, TRAILING_NONSTARTERS_KV@);
    crate::tabproof::counts($0);

@@module lookups
/// a suffix and then a prefix of the table of characters is a subrange of it
pub proof fn slice_of(t: Seq<char>)
    ensures forall|a: int, n: int| 0 <= a && 0 <= n && a + n <= t.len() ==> #[trigger] t.subrange(a, t.len() as int).subrange(0, n) == t.subrange(a, a + n)
{
    assert forall|a: int, n: int| 0 <= a && 0 <= n && a + n <= t.len() implies #[trigger] t.subrange(a, t.len() as int).subrange(0, n) == t.subrange(a, a + n) by {
        assert(t.subrange(a, t.len() as int).subrange(0, n) =~= t.subrange(a, a + n));
    }
}
