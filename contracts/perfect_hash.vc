@@fn perfect_hash::my_hash
    requires 0 < $2 <= 0xFFFF_FFFF
    ensures $r as int == crate::hash::slot($0 as int, $1 as int, $2 as int), $r < $2
@entry
    proof { hash_bound($2); }
@exit
    hash_lemma($0, $1, $2);
@@module perfect_hash
proof fn hash_bound(n: usize)
    requires 0 < n <= 0xFFFF_FFFF
    ensures forall|y: u32| 0 <= #[trigger] ((y as int) * (n as int)) <= u64::MAX
{
    assert forall|y: u32| 0 <= #[trigger] ((y as int) * (n as int)) <= u64::MAX by {
        assert(0 <= (y as int) * (n as int) <= 0xFFFF_FFFF * 0xFFFF_FFFF) by (nonlinear_arith) requires 0 <= y as int <= 0xFFFF_FFFF, 0 < n as int <= 0xFFFF_FFFF;
    }
}
/// the arithmetic of the hash, on machine integers, is the mathematical function `slot`
pub proof fn hash_lemma(key: u32, salt: u32, n: usize)
    requires 0 < n <= 0xFFFF_FFFF
    ensures ({
        let y = ((((key + salt) % 0x1_0000_0000) * 2654435769) % 0x1_0000_0000) as u32 ^ ((key * 0x31415926) % 0x1_0000_0000) as u32;
        let q = ((y as u64) * (n as u64)) as u64;
        &&& 0 <= (y as u64) * (n as u64) <= u64::MAX
        &&& (q >> 32u64) as usize as int == crate::hash::slot(key as int, salt as int, n as int)
        &&& (q >> 32u64) as usize as int == (q >> 32u64) as int
        &&& 0 <= crate::hash::slot(key as int, salt as int, n as int) < n
    })
{
    crate::hash::slot_range(key as int, salt as int, n as int);
    let y = ((((key + salt) % 0x1_0000_0000) * 2654435769) % 0x1_0000_0000) as u32 ^ ((key * 0x31415926) % 0x1_0000_0000) as u32;
    let p = (y as int) * (n as int);
    assert(0 <= p < 0xFFFF_FFFF * 0x1_0000_0000) by (nonlinear_arith) requires p == (y as int) * (n as int), 0 <= y as int, (y as int) < 0x1_0000_0000, 0 < n as int, n as int <= 0xFFFF_FFFF;
    let q = p as u64;
    assert(q >> 32u64 == q / 0x1_0000_0000) by (bit_vector);
}

@@fn perfect_hash::mph_lookup
    requires
        $1@.len() == $2@.len(), 0 < $1@.len() <= 0xFFFF_FFFF,
        forall|e: KV| call_requires($3, (e,)), forall|e: KV| call_requires($4, (e,)),
    ensures ({
        let e = $2@[crate::hash::look($0 as int, $1@)];
        (call_ensures($3, (e,), $0) && call_ensures($4, (e,), $r)) || (exists|k: u32| #[trigger] call_ensures($3, (e,), k) && $0 != k && $r == $5)
    })
