//! The hash of the perfect-hash tables.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
verus! {
pub open spec fn P32() -> int { 0x1_0000_0000 }
pub open spec fn slot(x: int, s: int, n: int) -> int {
    ((((((x + s) % 0x1_0000_0000) * 2654435769) % 0x1_0000_0000) as u32 ^ ((x * 0x31415926) % 0x1_0000_0000) as u32) as int * n) / 0x1_0000_0000
}
/// both hash steps: the slot of key x
pub open spec fn look(x: int, salt: Seq<u16>) -> int { slot(x, salt[slot(x, 0, salt.len() as int)] as int, salt.len() as int) }
pub proof fn slot_range(x: int, s: int, n: int)
    requires n > 0
    ensures 0 <= slot(x, s, n) < n
{
    let y = ((((x + s) % 0x1_0000_0000) * 2654435769) % 0x1_0000_0000) as u32 ^ ((x * 0x31415926) % 0x1_0000_0000) as u32;
    assert(0 <= (y as int * n) / 0x1_0000_0000 < n) by (nonlinear_arith) requires 0 <= y as int, (y as int) < 0x1_0000_0000, n > 0;
}
} // verus!
