@@fn normalize::is_hangul_syllable
    ensures $r == hangul($0)
@@fn normalize::hangul_decomposition_length
    requires hangul($0)
    ensures $r as int == hangul_dec($0).len()
@@fn normalize::decompose_hangul
    requires hangul($0)
    ensures final($1)@ == old($1)@ + hangul_dec($0)
@exit
    assert($1@ =~= old($1)@ + hangul_dec($0));
@@fn normalize::compose_hangul
    ensures $r == hangul_comp($0, $1)
@entry
    proof {
    ax_scalar($0); ax_scalar($1);
    }
@@fn normalize::compose
    ensures $r == comp($0, $1)
@entry
    proof { reveal(comp); }
@@fn normalize::decompose_canonical
    ensures final($1)@ == old($1)@ + dec(Kind::C, $0)
@@fn normalize::decompose_compatible
    ensures final($1)@ == old($1)@ + dec(Kind::K, $0)
@@fn normalize::decompose__decompose_canonical
    ensures final($1)@ == old($1)@ + dec(Kind::C, $0)
@entry
    proof {
    dec_cases(Kind::C, $0);
    if $0 as int <= 0x7f { ascii($0); }
    }
@exit
    assert($1@ =~= old($1)@ + dec(Kind::C, $0));
@loop iter
    invariant $it.s == $it0.s, $it.pos <= $it.s@.len(), $1@ == old($1)@ + $it.s@.take($it.pos as int)
    ensures $it.pos == $it.s@.len()
    decreases $it.s@.len() - $it.pos
@end
    assert($1@ =~= old($1)@ + $it.s@.take($it.pos as int));
@after
    assert($1@ =~= old($1)@ + $it.s@);
@pre
    assert($it.s@.take(0) =~= Seq::empty());
@@fn normalize::decompose__decompose_compatible
    ensures final($1)@ == old($1)@ + dec(Kind::K, $0)
@entry
    proof {
    dec_cases(Kind::K, $0); dec_cases(Kind::C, $0);
    if $0 as int <= 0x7f { ascii($0); }
    }
@exit
    assert($1@ =~= old($1)@ + dec(Kind::K, $0));
@loop iter
    invariant $it.s == $it0.s, $it.pos <= $it.s@.len(), $1@ == old($1)@ + $it.s@.take($it.pos as int)
    ensures $it.pos == $it.s@.len()
    decreases $it.s@.len() - $it.pos
@end
    assert($1@ =~= old($1)@ + $it.s@.take($it.pos as int));
@after
    assert($1@ =~= old($1)@ + $it.s@);
@pre
    assert($it.s@.take(0) =~= Seq::empty());
@@fn normalize::decompose_cjk_compat_variants
    ensures final($1)@ == old($1)@ + variant($0), 1 <= variant($0).len() <= 2
@entry
    proof { variant_len($0);
    
    if $0 as int <= 0x7f { ascii($0); }
    }
@exit
    assert($1@ =~= old($1)@ + variant($0));
@loop iter
    invariant $it.s == $it0.s, $it.pos <= $it.s@.len(), $1@ == old($1)@ + $it.s@.take($it.pos as int)
    ensures $it.pos == $it.s@.len()
    decreases $it.s@.len() - $it.pos
@end
    assert($1@ =~= old($1)@ + $it.s@.take($it.pos as int));
@after
    assert($1@ =~= old($1)@ + $it.s@);
@pre
    assert($it.s@.take(0) =~= Seq::empty());
