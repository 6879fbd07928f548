//! GENERATED by tools/gen_ucd.py: the checks `one_x` of data.rs, evaluated by the interpreter on every entry.
#![allow(unused_imports, dead_code, nonstandard_style)]
pub mod ccc {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_ccc(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_ccc(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 393) { assert(chk(0, 393)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 393 ensures one_ccc(j) {
  if 0 <= j < 393 { ev_0(); at(0, 393, j); }
}
} }
pub mod dec {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_dec(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_dec(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 300) { assert(chk(0, 300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_300() ensures chk(300, 600) { assert(chk(300, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 900) { assert(chk(600, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 1200) { assert(chk(900, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1500) { assert(chk(1200, 1500)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1500() ensures chk(1500, 1800) { assert(chk(1500, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2081) { assert(chk(1800, 2081)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 2081 ensures one_dec(j) {
  if 0 <= j < 300 { ev_0(); at(0, 300, j); }
  if 300 <= j < 600 { ev_300(); at(300, 600, j); }
  if 600 <= j < 900 { ev_600(); at(600, 900, j); }
  if 900 <= j < 1200 { ev_900(); at(900, 1200, j); }
  if 1200 <= j < 1500 { ev_1200(); at(1200, 1500, j); }
  if 1500 <= j < 1800 { ev_1500(); at(1500, 1800, j); }
  if 1800 <= j < 2081 { ev_1800(); at(1800, 2081, j); }
}
} }
pub mod kec {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_kec(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_kec(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 300) { assert(chk(0, 300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_300() ensures chk(300, 600) { assert(chk(300, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 900) { assert(chk(600, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 1200) { assert(chk(900, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1500) { assert(chk(1200, 1500)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1500() ensures chk(1500, 1800) { assert(chk(1500, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2100) { assert(chk(1800, 2100)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2100() ensures chk(2100, 2400) { assert(chk(2100, 2400)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2400() ensures chk(2400, 2700) { assert(chk(2400, 2700)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2700() ensures chk(2700, 3000) { assert(chk(2700, 3000)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3000() ensures chk(3000, 3300) { assert(chk(3000, 3300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3300() ensures chk(3300, 3600) { assert(chk(3300, 3600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3600() ensures chk(3600, 3848) { assert(chk(3600, 3848)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 3848 ensures one_kec(j) {
  if 0 <= j < 300 { ev_0(); at(0, 300, j); }
  if 300 <= j < 600 { ev_300(); at(300, 600, j); }
  if 600 <= j < 900 { ev_600(); at(600, 900, j); }
  if 900 <= j < 1200 { ev_900(); at(900, 1200, j); }
  if 1200 <= j < 1500 { ev_1200(); at(1200, 1500, j); }
  if 1500 <= j < 1800 { ev_1500(); at(1500, 1800, j); }
  if 1800 <= j < 2100 { ev_1800(); at(1800, 2100, j); }
  if 2100 <= j < 2400 { ev_2100(); at(2100, 2400, j); }
  if 2400 <= j < 2700 { ev_2400(); at(2400, 2700, j); }
  if 2700 <= j < 3000 { ev_2700(); at(2700, 3000, j); }
  if 3000 <= j < 3300 { ev_3000(); at(3000, 3300, j); }
  if 3300 <= j < 3600 { ev_3300(); at(3300, 3600, j); }
  if 3600 <= j < 3848 { ev_3600(); at(3600, 3848, j); }
}
} }
pub mod var {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_var(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_var(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 1002) { assert(chk(0, 1002)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 1002 ensures one_var(j) {
  if 0 <= j < 1002 { ev_0(); at(0, 1002, j); }
}
} }
pub mod comp {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_comp(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_comp(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 90) { assert(chk(0, 90)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_90() ensures chk(90, 180) { assert(chk(90, 180)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_180() ensures chk(180, 270) { assert(chk(180, 270)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_270() ensures chk(270, 360) { assert(chk(270, 360)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_360() ensures chk(360, 450) { assert(chk(360, 450)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_450() ensures chk(450, 540) { assert(chk(450, 540)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_540() ensures chk(540, 630) { assert(chk(540, 630)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_630() ensures chk(630, 720) { assert(chk(630, 720)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_720() ensures chk(720, 810) { assert(chk(720, 810)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_810() ensures chk(810, 900) { assert(chk(810, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 961) { assert(chk(900, 961)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 961 ensures one_comp(j) {
  if 0 <= j < 90 { ev_0(); at(0, 90, j); }
  if 90 <= j < 180 { ev_90(); at(90, 180, j); }
  if 180 <= j < 270 { ev_180(); at(180, 270, j); }
  if 270 <= j < 360 { ev_270(); at(270, 360, j); }
  if 360 <= j < 450 { ev_360(); at(360, 450, j); }
  if 450 <= j < 540 { ev_450(); at(450, 540, j); }
  if 540 <= j < 630 { ev_540(); at(540, 630, j); }
  if 630 <= j < 720 { ev_630(); at(630, 720, j); }
  if 720 <= j < 810 { ev_720(); at(720, 810, j); }
  if 810 <= j < 900 { ev_810(); at(810, 900, j); }
  if 900 <= j < 961 { ev_900(); at(900, 961, j); }
}
} }
pub mod ld {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_ld(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_ld(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 300) { assert(chk(0, 300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_300() ensures chk(300, 600) { assert(chk(300, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 900) { assert(chk(600, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 1200) { assert(chk(900, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1500) { assert(chk(1200, 1500)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1500() ensures chk(1500, 1800) { assert(chk(1500, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2081) { assert(chk(1800, 2081)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 2081 ensures one_ld(j) {
  if 0 <= j < 300 { ev_0(); at(0, 300, j); }
  if 300 <= j < 600 { ev_300(); at(300, 600, j); }
  if 600 <= j < 900 { ev_600(); at(600, 900, j); }
  if 900 <= j < 1200 { ev_900(); at(900, 1200, j); }
  if 1200 <= j < 1500 { ev_1200(); at(1200, 1500, j); }
  if 1500 <= j < 1800 { ev_1500(); at(1500, 1800, j); }
  if 1800 <= j < 2081 { ev_1800(); at(1800, 2081, j); }
}
} }
pub mod lk {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_lk(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_lk(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 300) { assert(chk(0, 300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_300() ensures chk(300, 600) { assert(chk(300, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 900) { assert(chk(600, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 1200) { assert(chk(900, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1500) { assert(chk(1200, 1500)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1500() ensures chk(1500, 1800) { assert(chk(1500, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2100) { assert(chk(1800, 2100)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2100() ensures chk(2100, 2400) { assert(chk(2100, 2400)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2400() ensures chk(2400, 2700) { assert(chk(2400, 2700)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2700() ensures chk(2700, 3000) { assert(chk(2700, 3000)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3000() ensures chk(3000, 3300) { assert(chk(3000, 3300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3300() ensures chk(3300, 3600) { assert(chk(3300, 3600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3600() ensures chk(3600, 3848) { assert(chk(3600, 3848)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 3848 ensures one_lk(j) {
  if 0 <= j < 300 { ev_0(); at(0, 300, j); }
  if 300 <= j < 600 { ev_300(); at(300, 600, j); }
  if 600 <= j < 900 { ev_600(); at(600, 900, j); }
  if 900 <= j < 1200 { ev_900(); at(900, 1200, j); }
  if 1200 <= j < 1500 { ev_1200(); at(1200, 1500, j); }
  if 1500 <= j < 1800 { ev_1500(); at(1500, 1800, j); }
  if 1800 <= j < 2100 { ev_1800(); at(1800, 2100, j); }
  if 2100 <= j < 2400 { ev_2100(); at(2100, 2400, j); }
  if 2400 <= j < 2700 { ev_2400(); at(2400, 2700, j); }
  if 2700 <= j < 3000 { ev_2700(); at(2700, 3000, j); }
  if 3000 <= j < 3300 { ev_3000(); at(3000, 3300, j); }
  if 3300 <= j < 3600 { ev_3300(); at(3300, 3600, j); }
  if 3600 <= j < 3848 { ev_3600(); at(3600, 3848, j); }
}
} }
pub mod yes {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_yes(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_yes(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 300) { assert(chk(0, 300)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_300() ensures chk(300, 600) { assert(chk(300, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 900) { assert(chk(600, 900)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_900() ensures chk(900, 1200) { assert(chk(900, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1500) { assert(chk(1200, 1500)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1500() ensures chk(1500, 1800) { assert(chk(1500, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2081) { assert(chk(1800, 2081)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 2081 ensures one_yes(j) {
  if 0 <= j < 300 { ev_0(); at(0, 300, j); }
  if 300 <= j < 600 { ev_300(); at(300, 600, j); }
  if 600 <= j < 900 { ev_600(); at(600, 900, j); }
  if 900 <= j < 1200 { ev_900(); at(900, 1200, j); }
  if 1200 <= j < 1500 { ev_1200(); at(1200, 1500, j); }
  if 1500 <= j < 1800 { ev_1500(); at(1500, 1800, j); }
  if 1800 <= j < 2081 { ev_1800(); at(1800, 2081, j); }
}
} }
pub mod yesk {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_yesk(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_yesk(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 600) { assert(chk(0, 600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_600() ensures chk(600, 1200) { assert(chk(600, 1200)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1200() ensures chk(1200, 1800) { assert(chk(1200, 1800)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_1800() ensures chk(1800, 2400) { assert(chk(1800, 2400)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_2400() ensures chk(2400, 3000) { assert(chk(2400, 3000)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3000() ensures chk(3000, 3600) { assert(chk(3000, 3600)) by (compute_only); }
#[verifier::spinoff_prover] proof fn ev_3600() ensures chk(3600, 3848) { assert(chk(3600, 3848)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 3848 ensures one_yesk(j) {
  if 0 <= j < 600 { ev_0(); at(0, 600, j); }
  if 600 <= j < 1200 { ev_600(); at(600, 1200, j); }
  if 1200 <= j < 1800 { ev_1200(); at(1200, 1800, j); }
  if 1800 <= j < 2400 { ev_1800(); at(1800, 2400, j); }
  if 2400 <= j < 3000 { ev_2400(); at(2400, 3000, j); }
  if 3000 <= j < 3600 { ev_3000(); at(3000, 3600, j); }
  if 3600 <= j < 3848 { ev_3600(); at(3600, 3848, j); }
}
} }
pub mod sec {
use vstd::prelude::*;
use crate::data::*;
verus! {
pub open spec fn chk(i: int, n: int) -> bool decreases n - i { if i >= n { true } else { one_sec(i) && chk(i + 1, n) } }
proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures one_sec(j) decreases n - i { if i < j { at(i + 1, n, j); } }
#[verifier::spinoff_prover] proof fn ev_0() ensures chk(0, 72) { assert(chk(0, 72)) by (compute_only); }
pub proof fn all(j: int) requires 0 <= j < 72 ensures one_sec(j) {
  if 0 <= j < 72 { ev_0(); at(0, 72, j); }
}
} }
