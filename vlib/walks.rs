//! GENERATED by tools/gen_ucd.py: for every interval of a quick-check tree that answers No, the reference data gives every
//! character of the interval a decomposition (evaluated by the interpreter; Hangul by arithmetic).
#![allow(unused_imports, dead_code, nonstandard_style)]
use vstd::prelude::*;
use crate::ucd::*;
use crate::data::*;
verus! {
proof fn no_nfd_0(x: int) requires 0x0 <= x < 0x138, qt_nfd_0(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xf0 { if x < 0xd7 { if x < 0xc7 { if x < 0xc0 { return; } else { if x < 0xc6 { assert(has_all(false, 0xc0, 0xc6)) by (compute_only); has_all_at(false, 0xc0, 0xc6, x); return; } else { return; } } } else { if x < 0xd0 { assert(has_all(false, 0xc7, 0xd0)) by (compute_only); has_all_at(false, 0xc7, 0xd0, x); return; } else { if x < 0xd1 { return; } else { assert(has_all(false, 0xd1, 0xd7)) by (compute_only); has_all_at(false, 0xd1, 0xd7, x); return; } } } } else { if x < 0xe0 { if x < 0xd9 { return; } else { if x < 0xde { assert(has_all(false, 0xd9, 0xde)) by (compute_only); has_all_at(false, 0xd9, 0xde, x); return; } else { return; } } } else { if x < 0xe6 { assert(has_all(false, 0xe0, 0xe6)) by (compute_only); has_all_at(false, 0xe0, 0xe6, x); return; } else { if x < 0xe7 { return; } else { assert(has_all(false, 0xe7, 0xf0)) by (compute_only); has_all_at(false, 0xe7, 0xf0, x); return; } } } } } else { if x < 0x110 { if x < 0xf9 { if x < 0xf1 { return; } else { if x < 0xf7 { assert(has_all(false, 0xf1, 0xf7)) by (compute_only); has_all_at(false, 0xf1, 0xf7, x); return; } else { return; } } } else { if x < 0xfe { assert(has_all(false, 0xf9, 0xfe)) by (compute_only); has_all_at(false, 0xf9, 0xfe, x); return; } else { if x < 0xff { return; } else { assert(has_all(false, 0xff, 0x110)) by (compute_only); has_all_at(false, 0xff, 0x110, x); return; } } } } else { if x < 0x128 { if x < 0x112 { return; } else { if x < 0x126 { assert(has_all(false, 0x112, 0x126)) by (compute_only); has_all_at(false, 0x112, 0x126, x); return; } else { return; } } } else { if x < 0x131 { assert(has_all(false, 0x128, 0x131)) by (compute_only); has_all_at(false, 0x128, 0x131, x); return; } else { if x < 0x134 { return; } else { assert(has_all(false, 0x134, 0x138)) by (compute_only); has_all_at(false, 0x134, 0x138, x); return; } } } } } }
proof fn no_nfd_1(x: int) requires 0x138 <= x < 0x21c, qt_nfd_1(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1a2 { if x < 0x152 { if x < 0x143 { if x < 0x139 { return; } else { if x < 0x13f { assert(has_all(false, 0x139, 0x13f)) by (compute_only); has_all_at(false, 0x139, 0x13f, x); return; } else { return; } } } else { if x < 0x149 { assert(has_all(false, 0x143, 0x149)) by (compute_only); has_all_at(false, 0x143, 0x149, x); return; } else { if x < 0x14c { return; } else { assert(has_all(false, 0x14c, 0x152)) by (compute_only); has_all_at(false, 0x14c, 0x152, x); return; } } } } else { if x < 0x168 { if x < 0x154 { return; } else { if x < 0x166 { assert(has_all(false, 0x154, 0x166)) by (compute_only); has_all_at(false, 0x154, 0x166, x); return; } else { return; } } } else { if x < 0x17f { assert(has_all(false, 0x168, 0x17f)) by (compute_only); has_all_at(false, 0x168, 0x17f, x); return; } else { if x < 0x1a0 { return; } else { assert(has_all(false, 0x1a0, 0x1a2)) by (compute_only); has_all_at(false, 0x1a0, 0x1a2, x); return; } } } } } else { if x < 0x1e4 { if x < 0x1cd { if x < 0x1af { return; } else { if x < 0x1b1 { assert(has_all(false, 0x1af, 0x1b1)) by (compute_only); has_all_at(false, 0x1af, 0x1b1, x); return; } else { return; } } } else { if x < 0x1dd { assert(has_all(false, 0x1cd, 0x1dd)) by (compute_only); has_all_at(false, 0x1cd, 0x1dd, x); return; } else { if x < 0x1de { return; } else { assert(has_all(false, 0x1de, 0x1e4)) by (compute_only); has_all_at(false, 0x1de, 0x1e4, x); return; } } } } else { if x < 0x1f4 { if x < 0x1e6 { return; } else { if x < 0x1f1 { assert(has_all(false, 0x1e6, 0x1f1)) by (compute_only); has_all_at(false, 0x1e6, 0x1f1, x); return; } else { return; } } } else { if x < 0x1f6 { assert(has_all(false, 0x1f4, 0x1f6)) by (compute_only); has_all_at(false, 0x1f4, 0x1f6, x); return; } else { if x < 0x1f8 { return; } else { assert(has_all(false, 0x1f8, 0x21c)) by (compute_only); has_all_at(false, 0x1f8, 0x21c, x); return; } } } } } }
proof fn no_nfd_2(x: int) requires 0x21c <= x < 0x3d5, qt_nfd_2(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x37f { if x < 0x342 { if x < 0x226 { if x < 0x21e { return; } else { if x < 0x220 { assert(has_all(false, 0x21e, 0x220)) by (compute_only); has_all_at(false, 0x21e, 0x220, x); return; } else { return; } } } else { if x < 0x234 { assert(has_all(false, 0x226, 0x234)) by (compute_only); has_all_at(false, 0x226, 0x234, x); return; } else { if x < 0x340 { return; } else { assert(has_all(false, 0x340, 0x342)) by (compute_only); has_all_at(false, 0x340, 0x342, x); return; } } } } else { if x < 0x374 { if x < 0x343 { return; } else { if x < 0x345 { assert(has_all(false, 0x343, 0x345)) by (compute_only); has_all_at(false, 0x343, 0x345, x); return; } else { return; } } } else { if x < 0x375 { assert(has_all(false, 0x374, 0x375)) by (compute_only); has_all_at(false, 0x374, 0x375, x); return; } else { if x < 0x37e { return; } else { assert(has_all(false, 0x37e, 0x37f)) by (compute_only); has_all_at(false, 0x37e, 0x37f, x); return; } } } } } else { if x < 0x391 { if x < 0x38c { if x < 0x385 { return; } else { if x < 0x38b { assert(has_all(false, 0x385, 0x38b)) by (compute_only); has_all_at(false, 0x385, 0x38b, x); return; } else { return; } } } else { if x < 0x38d { assert(has_all(false, 0x38c, 0x38d)) by (compute_only); has_all_at(false, 0x38c, 0x38d, x); return; } else { if x < 0x38e { return; } else { assert(has_all(false, 0x38e, 0x391)) by (compute_only); has_all_at(false, 0x38e, 0x391, x); return; } } } } else { if x < 0x3ca { if x < 0x3aa { return; } else { if x < 0x3b1 { assert(has_all(false, 0x3aa, 0x3b1)) by (compute_only); has_all_at(false, 0x3aa, 0x3b1, x); return; } else { return; } } } else { if x < 0x3cf { assert(has_all(false, 0x3ca, 0x3cf)) by (compute_only); has_all_at(false, 0x3ca, 0x3cf, x); return; } else { if x < 0x3d3 { return; } else { assert(has_all(false, 0x3d3, 0x3d5)) by (compute_only); has_all_at(false, 0x3d3, 0x3d5, x); return; } } } } } }
proof fn no_nfd_3(x: int) requires 0x3d5 <= x < 0x4c3, qt_nfd_3(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x43a { if x < 0x408 { if x < 0x403 { if x < 0x400 { return; } else { if x < 0x402 { assert(has_all(false, 0x400, 0x402)) by (compute_only); has_all_at(false, 0x400, 0x402, x); return; } else { return; } } } else { if x < 0x404 { assert(has_all(false, 0x403, 0x404)) by (compute_only); has_all_at(false, 0x403, 0x404, x); return; } else { if x < 0x407 { return; } else { assert(has_all(false, 0x407, 0x408)) by (compute_only); has_all_at(false, 0x407, 0x408, x); return; } } } } else { if x < 0x419 { if x < 0x40c { return; } else { if x < 0x40f { assert(has_all(false, 0x40c, 0x40f)) by (compute_only); has_all_at(false, 0x40c, 0x40f, x); return; } else { return; } } } else { if x < 0x41a { assert(has_all(false, 0x419, 0x41a)) by (compute_only); has_all_at(false, 0x419, 0x41a, x); return; } else { if x < 0x439 { return; } else { assert(has_all(false, 0x439, 0x43a)) by (compute_only); has_all_at(false, 0x439, 0x43a, x); return; } } } } } else { if x < 0x458 { if x < 0x453 { if x < 0x450 { return; } else { if x < 0x452 { assert(has_all(false, 0x450, 0x452)) by (compute_only); has_all_at(false, 0x450, 0x452, x); return; } else { return; } } } else { if x < 0x454 { assert(has_all(false, 0x453, 0x454)) by (compute_only); has_all_at(false, 0x453, 0x454, x); return; } else { if x < 0x457 { return; } else { assert(has_all(false, 0x457, 0x458)) by (compute_only); has_all_at(false, 0x457, 0x458, x); return; } } } } else { if x < 0x476 { if x < 0x45c { return; } else { if x < 0x45f { assert(has_all(false, 0x45c, 0x45f)) by (compute_only); has_all_at(false, 0x45c, 0x45f, x); return; } else { return; } } } else { if x < 0x478 { assert(has_all(false, 0x476, 0x478)) by (compute_only); has_all_at(false, 0x476, 0x478, x); return; } else { if x < 0x4c1 { return; } else { assert(has_all(false, 0x4c1, 0x4c3)) by (compute_only); has_all_at(false, 0x4c1, 0x4c3, x); return; } } } } } }
proof fn no_nfd_4(x: int) requires 0x4c3 <= x < 0x932, qt_nfd_4(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x4fa { if x < 0x4e0 { if x < 0x4d6 { if x < 0x4d0 { return; } else { if x < 0x4d4 { assert(has_all(false, 0x4d0, 0x4d4)) by (compute_only); has_all_at(false, 0x4d0, 0x4d4, x); return; } else { return; } } } else { if x < 0x4d8 { assert(has_all(false, 0x4d6, 0x4d8)) by (compute_only); has_all_at(false, 0x4d6, 0x4d8, x); return; } else { if x < 0x4da { return; } else { assert(has_all(false, 0x4da, 0x4e0)) by (compute_only); has_all_at(false, 0x4da, 0x4e0, x); return; } } } } else { if x < 0x4ea { if x < 0x4e2 { return; } else { if x < 0x4e8 { assert(has_all(false, 0x4e2, 0x4e8)) by (compute_only); has_all_at(false, 0x4e2, 0x4e8, x); return; } else { return; } } } else { if x < 0x4f6 { assert(has_all(false, 0x4ea, 0x4f6)) by (compute_only); has_all_at(false, 0x4ea, 0x4f6, x); return; } else { if x < 0x4f8 { return; } else { assert(has_all(false, 0x4f8, 0x4fa)) by (compute_only); has_all_at(false, 0x4f8, 0x4fa, x); return; } } } } } else { if x < 0x6c3 { if x < 0x6c0 { if x < 0x622 { return; } else { if x < 0x627 { assert(has_all(false, 0x622, 0x627)) by (compute_only); has_all_at(false, 0x622, 0x627, x); return; } else { return; } } } else { if x < 0x6c1 { assert(has_all(false, 0x6c0, 0x6c1)) by (compute_only); has_all_at(false, 0x6c0, 0x6c1, x); return; } else { if x < 0x6c2 { return; } else { assert(has_all(false, 0x6c2, 0x6c3)) by (compute_only); has_all_at(false, 0x6c2, 0x6c3, x); return; } } } } else { if x < 0x929 { if x < 0x6d3 { return; } else { if x < 0x6d4 { assert(has_all(false, 0x6d3, 0x6d4)) by (compute_only); has_all_at(false, 0x6d3, 0x6d4, x); return; } else { return; } } } else { if x < 0x92a { assert(has_all(false, 0x929, 0x92a)) by (compute_only); has_all_at(false, 0x929, 0x92a, x); return; } else { if x < 0x931 { return; } else { assert(has_all(false, 0x931, 0x932)) by (compute_only); has_all_at(false, 0x931, 0x932, x); return; } } } } } }
proof fn no_nfd_5(x: int) requires 0x932 <= x < 0xb5e, qt_nfd_5(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xa34 { if x < 0x9cd { if x < 0x958 { if x < 0x934 { return; } else { if x < 0x935 { assert(has_all(false, 0x934, 0x935)) by (compute_only); has_all_at(false, 0x934, 0x935, x); return; } else { return; } } } else { if x < 0x960 { assert(has_all(false, 0x958, 0x960)) by (compute_only); has_all_at(false, 0x958, 0x960, x); return; } else { if x < 0x9cb { return; } else { assert(has_all(false, 0x9cb, 0x9cd)) by (compute_only); has_all_at(false, 0x9cb, 0x9cd, x); return; } } } } else { if x < 0x9df { if x < 0x9dc { return; } else { if x < 0x9de { assert(has_all(false, 0x9dc, 0x9de)) by (compute_only); has_all_at(false, 0x9dc, 0x9de, x); return; } else { return; } } } else { if x < 0x9e0 { assert(has_all(false, 0x9df, 0x9e0)) by (compute_only); has_all_at(false, 0x9df, 0x9e0, x); return; } else { if x < 0xa33 { return; } else { assert(has_all(false, 0xa33, 0xa34)) by (compute_only); has_all_at(false, 0xa33, 0xa34, x); return; } } } } } else { if x < 0xa5f { if x < 0xa59 { if x < 0xa36 { return; } else { if x < 0xa37 { assert(has_all(false, 0xa36, 0xa37)) by (compute_only); has_all_at(false, 0xa36, 0xa37, x); return; } else { return; } } } else { if x < 0xa5c { assert(has_all(false, 0xa59, 0xa5c)) by (compute_only); has_all_at(false, 0xa59, 0xa5c, x); return; } else { if x < 0xa5e { return; } else { assert(has_all(false, 0xa5e, 0xa5f)) by (compute_only); has_all_at(false, 0xa5e, 0xa5f, x); return; } } } } else { if x < 0xb4b { if x < 0xb48 { return; } else { if x < 0xb49 { assert(has_all(false, 0xb48, 0xb49)) by (compute_only); has_all_at(false, 0xb48, 0xb49, x); return; } else { return; } } } else { if x < 0xb4d { assert(has_all(false, 0xb4b, 0xb4d)) by (compute_only); has_all_at(false, 0xb4b, 0xb4d, x); return; } else { if x < 0xb5c { return; } else { assert(has_all(false, 0xb5c, 0xb5e)) by (compute_only); has_all_at(false, 0xb5c, 0xb5e, x); return; } } } } } }
proof fn no_nfd_6(x: int) requires 0xb5e <= x < 0xf53, qt_nfd_6(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xccc { if x < 0xc49 { if x < 0xbca { if x < 0xb94 { return; } else { if x < 0xb95 { assert(has_all(false, 0xb94, 0xb95)) by (compute_only); has_all_at(false, 0xb94, 0xb95, x); return; } else { return; } } } else { if x < 0xbcd { assert(has_all(false, 0xbca, 0xbcd)) by (compute_only); has_all_at(false, 0xbca, 0xbcd, x); return; } else { if x < 0xc48 { return; } else { assert(has_all(false, 0xc48, 0xc49)) by (compute_only); has_all_at(false, 0xc48, 0xc49, x); return; } } } } else { if x < 0xcc7 { if x < 0xcc0 { return; } else { if x < 0xcc1 { assert(has_all(false, 0xcc0, 0xcc1)) by (compute_only); has_all_at(false, 0xcc0, 0xcc1, x); return; } else { return; } } } else { if x < 0xcc9 { assert(has_all(false, 0xcc7, 0xcc9)) by (compute_only); has_all_at(false, 0xcc7, 0xcc9, x); return; } else { if x < 0xcca { return; } else { assert(has_all(false, 0xcca, 0xccc)) by (compute_only); has_all_at(false, 0xcca, 0xccc, x); return; } } } } } else { if x < 0xddf { if x < 0xdda { if x < 0xd4a { return; } else { if x < 0xd4d { assert(has_all(false, 0xd4a, 0xd4d)) by (compute_only); has_all_at(false, 0xd4a, 0xd4d, x); return; } else { return; } } } else { if x < 0xddb { assert(has_all(false, 0xdda, 0xddb)) by (compute_only); has_all_at(false, 0xdda, 0xddb, x); return; } else { if x < 0xddc { return; } else { assert(has_all(false, 0xddc, 0xddf)) by (compute_only); has_all_at(false, 0xddc, 0xddf, x); return; } } } } else { if x < 0xf4d { if x < 0xf43 { return; } else { if x < 0xf44 { assert(has_all(false, 0xf43, 0xf44)) by (compute_only); has_all_at(false, 0xf43, 0xf44, x); return; } else { return; } } } else { if x < 0xf4e { assert(has_all(false, 0xf4d, 0xf4e)) by (compute_only); has_all_at(false, 0xf4d, 0xf4e, x); return; } else { if x < 0xf52 { return; } else { assert(has_all(false, 0xf52, 0xf53)) by (compute_only); has_all_at(false, 0xf52, 0xf53, x); return; } } } } } }
proof fn no_nfd_7(x: int) requires 0xf53 <= x < 0xfad, qt_nfd_7(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xf79 { if x < 0xf6a { if x < 0xf5c { if x < 0xf57 { return; } else { if x < 0xf58 { assert(has_all(false, 0xf57, 0xf58)) by (compute_only); has_all_at(false, 0xf57, 0xf58, x); return; } else { return; } } } else { if x < 0xf5d { assert(has_all(false, 0xf5c, 0xf5d)) by (compute_only); has_all_at(false, 0xf5c, 0xf5d, x); return; } else { if x < 0xf69 { return; } else { assert(has_all(false, 0xf69, 0xf6a)) by (compute_only); has_all_at(false, 0xf69, 0xf6a, x); return; } } } } else { if x < 0xf75 { if x < 0xf73 { return; } else { if x < 0xf74 { assert(has_all(false, 0xf73, 0xf74)) by (compute_only); has_all_at(false, 0xf73, 0xf74, x); return; } else { return; } } } else { if x < 0xf77 { assert(has_all(false, 0xf75, 0xf77)) by (compute_only); has_all_at(false, 0xf75, 0xf77, x); return; } else { if x < 0xf78 { return; } else { assert(has_all(false, 0xf78, 0xf79)) by (compute_only); has_all_at(false, 0xf78, 0xf79, x); return; } } } } } else { if x < 0xf9e { if x < 0xf93 { if x < 0xf81 { return; } else { if x < 0xf82 { assert(has_all(false, 0xf81, 0xf82)) by (compute_only); has_all_at(false, 0xf81, 0xf82, x); return; } else { return; } } } else { if x < 0xf94 { assert(has_all(false, 0xf93, 0xf94)) by (compute_only); has_all_at(false, 0xf93, 0xf94, x); return; } else { if x < 0xf9d { return; } else { assert(has_all(false, 0xf9d, 0xf9e)) by (compute_only); has_all_at(false, 0xf9d, 0xf9e, x); return; } } } } else { if x < 0xfa7 { if x < 0xfa2 { return; } else { if x < 0xfa3 { assert(has_all(false, 0xfa2, 0xfa3)) by (compute_only); has_all_at(false, 0xfa2, 0xfa3, x); return; } else { return; } } } else { if x < 0xfa8 { assert(has_all(false, 0xfa7, 0xfa8)) by (compute_only); has_all_at(false, 0xfa7, 0xfa8, x); return; } else { if x < 0xfac { return; } else { assert(has_all(false, 0xfac, 0xfad)) by (compute_only); has_all_at(false, 0xfac, 0xfad, x); return; } } } } } }
proof fn no_nfd_8(x: int) requires 0xfad <= x < 0x1b44, qt_nfd_8(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1b0d { if x < 0x1b07 { if x < 0x1026 { if x < 0xfb9 { return; } else { if x < 0xfba { assert(has_all(false, 0xfb9, 0xfba)) by (compute_only); has_all_at(false, 0xfb9, 0xfba, x); return; } else { return; } } } else { if x < 0x1027 { assert(has_all(false, 0x1026, 0x1027)) by (compute_only); has_all_at(false, 0x1026, 0x1027, x); return; } else { if x < 0x1b06 { return; } else { assert(has_all(false, 0x1b06, 0x1b07)) by (compute_only); has_all_at(false, 0x1b06, 0x1b07, x); return; } } } } else { if x < 0x1b0a { if x < 0x1b08 { return; } else { if x < 0x1b09 { assert(has_all(false, 0x1b08, 0x1b09)) by (compute_only); has_all_at(false, 0x1b08, 0x1b09, x); return; } else { return; } } } else { if x < 0x1b0b { assert(has_all(false, 0x1b0a, 0x1b0b)) by (compute_only); has_all_at(false, 0x1b0a, 0x1b0b, x); return; } else { if x < 0x1b0c { return; } else { assert(has_all(false, 0x1b0c, 0x1b0d)) by (compute_only); has_all_at(false, 0x1b0c, 0x1b0d, x); return; } } } } } else { if x < 0x1b3c { if x < 0x1b12 { if x < 0x1b0e { return; } else { if x < 0x1b0f { assert(has_all(false, 0x1b0e, 0x1b0f)) by (compute_only); has_all_at(false, 0x1b0e, 0x1b0f, x); return; } else { return; } } } else { if x < 0x1b13 { assert(has_all(false, 0x1b12, 0x1b13)) by (compute_only); has_all_at(false, 0x1b12, 0x1b13, x); return; } else { if x < 0x1b3b { return; } else { assert(has_all(false, 0x1b3b, 0x1b3c)) by (compute_only); has_all_at(false, 0x1b3b, 0x1b3c, x); return; } } } } else { if x < 0x1b40 { if x < 0x1b3d { return; } else { if x < 0x1b3e { assert(has_all(false, 0x1b3d, 0x1b3e)) by (compute_only); has_all_at(false, 0x1b3d, 0x1b3e, x); return; } else { return; } } } else { if x < 0x1b42 { assert(has_all(false, 0x1b40, 0x1b42)) by (compute_only); has_all_at(false, 0x1b40, 0x1b42, x); return; } else { if x < 0x1b43 { return; } else { assert(has_all(false, 0x1b43, 0x1b44)) by (compute_only); has_all_at(false, 0x1b43, 0x1b44, x); return; } } } } } }
proof fn no_nfd_9(x: int) requires 0x1b44 <= x < 0x1f7e, qt_nfd_9(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1f46 { if x < 0x1efa { if x < 0x1e9b { if x < 0x1e00 { return; } else { if x < 0x1e9a { assert(has_all(false, 0x1e00, 0x1e9a)) by (compute_only); has_all_at(false, 0x1e00, 0x1e9a, x); return; } else { return; } } } else { if x < 0x1e9c { assert(has_all(false, 0x1e9b, 0x1e9c)) by (compute_only); has_all_at(false, 0x1e9b, 0x1e9c, x); return; } else { if x < 0x1ea0 { return; } else { assert(has_all(false, 0x1ea0, 0x1efa)) by (compute_only); has_all_at(false, 0x1ea0, 0x1efa, x); return; } } } } else { if x < 0x1f18 { if x < 0x1f00 { return; } else { if x < 0x1f16 { assert(has_all(false, 0x1f00, 0x1f16)) by (compute_only); has_all_at(false, 0x1f00, 0x1f16, x); return; } else { return; } } } else { if x < 0x1f1e { assert(has_all(false, 0x1f18, 0x1f1e)) by (compute_only); has_all_at(false, 0x1f18, 0x1f1e, x); return; } else { if x < 0x1f20 { return; } else { assert(has_all(false, 0x1f20, 0x1f46)) by (compute_only); has_all_at(false, 0x1f20, 0x1f46, x); return; } } } } } else { if x < 0x1f5a { if x < 0x1f50 { if x < 0x1f48 { return; } else { if x < 0x1f4e { assert(has_all(false, 0x1f48, 0x1f4e)) by (compute_only); has_all_at(false, 0x1f48, 0x1f4e, x); return; } else { return; } } } else { if x < 0x1f58 { assert(has_all(false, 0x1f50, 0x1f58)) by (compute_only); has_all_at(false, 0x1f50, 0x1f58, x); return; } else { if x < 0x1f59 { return; } else { assert(has_all(false, 0x1f59, 0x1f5a)) by (compute_only); has_all_at(false, 0x1f59, 0x1f5a, x); return; } } } } else { if x < 0x1f5d { if x < 0x1f5b { return; } else { if x < 0x1f5c { assert(has_all(false, 0x1f5b, 0x1f5c)) by (compute_only); has_all_at(false, 0x1f5b, 0x1f5c, x); return; } else { return; } } } else { if x < 0x1f5e { assert(has_all(false, 0x1f5d, 0x1f5e)) by (compute_only); has_all_at(false, 0x1f5d, 0x1f5e, x); return; } else { if x < 0x1f5f { return; } else { assert(has_all(false, 0x1f5f, 0x1f7e)) by (compute_only); has_all_at(false, 0x1f5f, 0x1f7e, x); return; } } } } } }
proof fn no_nfd_10(x: int) requires 0x1f7e <= x < 0x212c, qt_nfd_10(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1fdc { if x < 0x1fbf { if x < 0x1fb6 { if x < 0x1f80 { return; } else { if x < 0x1fb5 { assert(has_all(false, 0x1f80, 0x1fb5)) by (compute_only); has_all_at(false, 0x1f80, 0x1fb5, x); return; } else { return; } } } else { if x < 0x1fbd { assert(has_all(false, 0x1fb6, 0x1fbd)) by (compute_only); has_all_at(false, 0x1fb6, 0x1fbd, x); return; } else { if x < 0x1fbe { return; } else { assert(has_all(false, 0x1fbe, 0x1fbf)) by (compute_only); has_all_at(false, 0x1fbe, 0x1fbf, x); return; } } } } else { if x < 0x1fc6 { if x < 0x1fc1 { return; } else { if x < 0x1fc5 { assert(has_all(false, 0x1fc1, 0x1fc5)) by (compute_only); has_all_at(false, 0x1fc1, 0x1fc5, x); return; } else { return; } } } else { if x < 0x1fd4 { assert(has_all(false, 0x1fc6, 0x1fd4)) by (compute_only); has_all_at(false, 0x1fc6, 0x1fd4, x); return; } else { if x < 0x1fd6 { return; } else { assert(has_all(false, 0x1fd6, 0x1fdc)) by (compute_only); has_all_at(false, 0x1fd6, 0x1fdc, x); return; } } } } } else { if x < 0x1ffe { if x < 0x1ff2 { if x < 0x1fdd { return; } else { if x < 0x1ff0 { assert(has_all(false, 0x1fdd, 0x1ff0)) by (compute_only); has_all_at(false, 0x1fdd, 0x1ff0, x); return; } else { return; } } } else { if x < 0x1ff5 { assert(has_all(false, 0x1ff2, 0x1ff5)) by (compute_only); has_all_at(false, 0x1ff2, 0x1ff5, x); return; } else { if x < 0x1ff6 { return; } else { assert(has_all(false, 0x1ff6, 0x1ffe)) by (compute_only); has_all_at(false, 0x1ff6, 0x1ffe, x); return; } } } } else { if x < 0x2126 { if x < 0x2000 { return; } else { if x < 0x2002 { assert(has_all(false, 0x2000, 0x2002)) by (compute_only); has_all_at(false, 0x2000, 0x2002, x); return; } else { return; } } } else { if x < 0x2127 { assert(has_all(false, 0x2126, 0x2127)) by (compute_only); has_all_at(false, 0x2126, 0x2127, x); return; } else { if x < 0x212a { return; } else { assert(has_all(false, 0x212a, 0x212c)) by (compute_only); has_all_at(false, 0x212a, 0x212c, x); return; } } } } } }
proof fn no_nfd_11(x: int) requires 0x212c <= x < 0x224a, qt_nfd_11(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x220d { if x < 0x21d0 { if x < 0x21ae { if x < 0x219a { return; } else { if x < 0x219c { assert(has_all(false, 0x219a, 0x219c)) by (compute_only); has_all_at(false, 0x219a, 0x219c, x); return; } else { return; } } } else { if x < 0x21af { assert(has_all(false, 0x21ae, 0x21af)) by (compute_only); has_all_at(false, 0x21ae, 0x21af, x); return; } else { if x < 0x21cd { return; } else { assert(has_all(false, 0x21cd, 0x21d0)) by (compute_only); has_all_at(false, 0x21cd, 0x21d0, x); return; } } } } else { if x < 0x2209 { if x < 0x2204 { return; } else { if x < 0x2205 { assert(has_all(false, 0x2204, 0x2205)) by (compute_only); has_all_at(false, 0x2204, 0x2205, x); return; } else { return; } } } else { if x < 0x220a { assert(has_all(false, 0x2209, 0x220a)) by (compute_only); has_all_at(false, 0x2209, 0x220a, x); return; } else { if x < 0x220c { return; } else { assert(has_all(false, 0x220c, 0x220d)) by (compute_only); has_all_at(false, 0x220c, 0x220d, x); return; } } } } } else { if x < 0x2242 { if x < 0x2226 { if x < 0x2224 { return; } else { if x < 0x2225 { assert(has_all(false, 0x2224, 0x2225)) by (compute_only); has_all_at(false, 0x2224, 0x2225, x); return; } else { return; } } } else { if x < 0x2227 { assert(has_all(false, 0x2226, 0x2227)) by (compute_only); has_all_at(false, 0x2226, 0x2227, x); return; } else { if x < 0x2241 { return; } else { assert(has_all(false, 0x2241, 0x2242)) by (compute_only); has_all_at(false, 0x2241, 0x2242, x); return; } } } } else { if x < 0x2247 { if x < 0x2244 { return; } else { if x < 0x2245 { assert(has_all(false, 0x2244, 0x2245)) by (compute_only); has_all_at(false, 0x2244, 0x2245, x); return; } else { return; } } } else { if x < 0x2248 { assert(has_all(false, 0x2247, 0x2248)) by (compute_only); has_all_at(false, 0x2247, 0x2248, x); return; } else { if x < 0x2249 { return; } else { assert(has_all(false, 0x2249, 0x224a)) by (compute_only); has_all_at(false, 0x2249, 0x224a, x); return; } } } } } }
proof fn no_nfd_12(x: int) requires 0x224a <= x < 0x232b, qt_nfd_12(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x2282 { if x < 0x2272 { if x < 0x2262 { if x < 0x2260 { return; } else { if x < 0x2261 { assert(has_all(false, 0x2260, 0x2261)) by (compute_only); has_all_at(false, 0x2260, 0x2261, x); return; } else { return; } } } else { if x < 0x2263 { assert(has_all(false, 0x2262, 0x2263)) by (compute_only); has_all_at(false, 0x2262, 0x2263, x); return; } else { if x < 0x226d { return; } else { assert(has_all(false, 0x226d, 0x2272)) by (compute_only); has_all_at(false, 0x226d, 0x2272, x); return; } } } } else { if x < 0x2278 { if x < 0x2274 { return; } else { if x < 0x2276 { assert(has_all(false, 0x2274, 0x2276)) by (compute_only); has_all_at(false, 0x2274, 0x2276, x); return; } else { return; } } } else { if x < 0x227a { assert(has_all(false, 0x2278, 0x227a)) by (compute_only); has_all_at(false, 0x2278, 0x227a, x); return; } else { if x < 0x2280 { return; } else { assert(has_all(false, 0x2280, 0x2282)) by (compute_only); has_all_at(false, 0x2280, 0x2282, x); return; } } } } } else { if x < 0x22b0 { if x < 0x2288 { if x < 0x2284 { return; } else { if x < 0x2286 { assert(has_all(false, 0x2284, 0x2286)) by (compute_only); has_all_at(false, 0x2284, 0x2286, x); return; } else { return; } } } else { if x < 0x228a { assert(has_all(false, 0x2288, 0x228a)) by (compute_only); has_all_at(false, 0x2288, 0x228a, x); return; } else { if x < 0x22ac { return; } else { assert(has_all(false, 0x22ac, 0x22b0)) by (compute_only); has_all_at(false, 0x22ac, 0x22b0, x); return; } } } } else { if x < 0x22ea { if x < 0x22e0 { return; } else { if x < 0x22e4 { assert(has_all(false, 0x22e0, 0x22e4)) by (compute_only); has_all_at(false, 0x22e0, 0x22e4, x); return; } else { return; } } } else { if x < 0x22ee { assert(has_all(false, 0x22ea, 0x22ee)) by (compute_only); has_all_at(false, 0x22ea, 0x22ee, x); return; } else { if x < 0x2329 { return; } else { assert(has_all(false, 0x2329, 0x232b)) by (compute_only); has_all_at(false, 0x2329, 0x232b, x); return; } } } } } }
proof fn no_nfd_13(x: int) requires 0x232b <= x < 0x3061, qt_nfd_13(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x3055 { if x < 0x304f { if x < 0x304c { if x < 0x2adc { return; } else { if x < 0x2add { assert(has_all(false, 0x2adc, 0x2add)) by (compute_only); has_all_at(false, 0x2adc, 0x2add, x); return; } else { return; } } } else { if x < 0x304d { assert(has_all(false, 0x304c, 0x304d)) by (compute_only); has_all_at(false, 0x304c, 0x304d, x); return; } else { if x < 0x304e { return; } else { assert(has_all(false, 0x304e, 0x304f)) by (compute_only); has_all_at(false, 0x304e, 0x304f, x); return; } } } } else { if x < 0x3052 { if x < 0x3050 { return; } else { if x < 0x3051 { assert(has_all(false, 0x3050, 0x3051)) by (compute_only); has_all_at(false, 0x3050, 0x3051, x); return; } else { return; } } } else { if x < 0x3053 { assert(has_all(false, 0x3052, 0x3053)) by (compute_only); has_all_at(false, 0x3052, 0x3053, x); return; } else { if x < 0x3054 { return; } else { assert(has_all(false, 0x3054, 0x3055)) by (compute_only); has_all_at(false, 0x3054, 0x3055, x); return; } } } } } else { if x < 0x305b { if x < 0x3058 { if x < 0x3056 { return; } else { if x < 0x3057 { assert(has_all(false, 0x3056, 0x3057)) by (compute_only); has_all_at(false, 0x3056, 0x3057, x); return; } else { return; } } } else { if x < 0x3059 { assert(has_all(false, 0x3058, 0x3059)) by (compute_only); has_all_at(false, 0x3058, 0x3059, x); return; } else { if x < 0x305a { return; } else { assert(has_all(false, 0x305a, 0x305b)) by (compute_only); has_all_at(false, 0x305a, 0x305b, x); return; } } } } else { if x < 0x305e { if x < 0x305c { return; } else { if x < 0x305d { assert(has_all(false, 0x305c, 0x305d)) by (compute_only); has_all_at(false, 0x305c, 0x305d, x); return; } else { return; } } } else { if x < 0x305f { assert(has_all(false, 0x305e, 0x305f)) by (compute_only); has_all_at(false, 0x305e, 0x305f, x); return; } else { if x < 0x3060 { return; } else { assert(has_all(false, 0x3060, 0x3061)) by (compute_only); has_all_at(false, 0x3060, 0x3061, x); return; } } } } } }
proof fn no_nfd_14(x: int) requires 0x3061 <= x < 0x30ad, qt_nfd_14(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x3075 { if x < 0x3068 { if x < 0x3065 { if x < 0x3062 { return; } else { if x < 0x3063 { assert(has_all(false, 0x3062, 0x3063)) by (compute_only); has_all_at(false, 0x3062, 0x3063, x); return; } else { return; } } } else { if x < 0x3066 { assert(has_all(false, 0x3065, 0x3066)) by (compute_only); has_all_at(false, 0x3065, 0x3066, x); return; } else { if x < 0x3067 { return; } else { assert(has_all(false, 0x3067, 0x3068)) by (compute_only); has_all_at(false, 0x3067, 0x3068, x); return; } } } } else { if x < 0x3070 { if x < 0x3069 { return; } else { if x < 0x306a { assert(has_all(false, 0x3069, 0x306a)) by (compute_only); has_all_at(false, 0x3069, 0x306a, x); return; } else { return; } } } else { if x < 0x3072 { assert(has_all(false, 0x3070, 0x3072)) by (compute_only); has_all_at(false, 0x3070, 0x3072, x); return; } else { if x < 0x3073 { return; } else { assert(has_all(false, 0x3073, 0x3075)) by (compute_only); has_all_at(false, 0x3073, 0x3075, x); return; } } } } } else { if x < 0x307e { if x < 0x3079 { if x < 0x3076 { return; } else { if x < 0x3078 { assert(has_all(false, 0x3076, 0x3078)) by (compute_only); has_all_at(false, 0x3076, 0x3078, x); return; } else { return; } } } else { if x < 0x307b { assert(has_all(false, 0x3079, 0x307b)) by (compute_only); has_all_at(false, 0x3079, 0x307b, x); return; } else { if x < 0x307c { return; } else { assert(has_all(false, 0x307c, 0x307e)) by (compute_only); has_all_at(false, 0x307c, 0x307e, x); return; } } } } else { if x < 0x309e { if x < 0x3094 { return; } else { if x < 0x3095 { assert(has_all(false, 0x3094, 0x3095)) by (compute_only); has_all_at(false, 0x3094, 0x3095, x); return; } else { return; } } } else { if x < 0x309f { assert(has_all(false, 0x309e, 0x309f)) by (compute_only); has_all_at(false, 0x309e, 0x309f, x); return; } else { if x < 0x30ac { return; } else { assert(has_all(false, 0x30ac, 0x30ad)) by (compute_only); has_all_at(false, 0x30ac, 0x30ad, x); return; } } } } } }
proof fn no_nfd_15(x: int) requires 0x30ad <= x < 0x30c6, qt_nfd_15(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x30b9 { if x < 0x30b3 { if x < 0x30b0 { if x < 0x30ae { return; } else { if x < 0x30af { assert(has_all(false, 0x30ae, 0x30af)) by (compute_only); has_all_at(false, 0x30ae, 0x30af, x); return; } else { return; } } } else { if x < 0x30b1 { assert(has_all(false, 0x30b0, 0x30b1)) by (compute_only); has_all_at(false, 0x30b0, 0x30b1, x); return; } else { if x < 0x30b2 { return; } else { assert(has_all(false, 0x30b2, 0x30b3)) by (compute_only); has_all_at(false, 0x30b2, 0x30b3, x); return; } } } } else { if x < 0x30b6 { if x < 0x30b4 { return; } else { if x < 0x30b5 { assert(has_all(false, 0x30b4, 0x30b5)) by (compute_only); has_all_at(false, 0x30b4, 0x30b5, x); return; } else { return; } } } else { if x < 0x30b7 { assert(has_all(false, 0x30b6, 0x30b7)) by (compute_only); has_all_at(false, 0x30b6, 0x30b7, x); return; } else { if x < 0x30b8 { return; } else { assert(has_all(false, 0x30b8, 0x30b9)) by (compute_only); has_all_at(false, 0x30b8, 0x30b9, x); return; } } } } } else { if x < 0x30bf { if x < 0x30bc { if x < 0x30ba { return; } else { if x < 0x30bb { assert(has_all(false, 0x30ba, 0x30bb)) by (compute_only); has_all_at(false, 0x30ba, 0x30bb, x); return; } else { return; } } } else { if x < 0x30bd { assert(has_all(false, 0x30bc, 0x30bd)) by (compute_only); has_all_at(false, 0x30bc, 0x30bd, x); return; } else { if x < 0x30be { return; } else { assert(has_all(false, 0x30be, 0x30bf)) by (compute_only); has_all_at(false, 0x30be, 0x30bf, x); return; } } } } else { if x < 0x30c2 { if x < 0x30c0 { return; } else { if x < 0x30c1 { assert(has_all(false, 0x30c0, 0x30c1)) by (compute_only); has_all_at(false, 0x30c0, 0x30c1, x); return; } else { return; } } } else { if x < 0x30c3 { assert(has_all(false, 0x30c2, 0x30c3)) by (compute_only); has_all_at(false, 0x30c2, 0x30c3, x); return; } else { if x < 0x30c5 { return; } else { assert(has_all(false, 0x30c5, 0x30c6)) by (compute_only); has_all_at(false, 0x30c5, 0x30c6, x); return; } } } } } }
proof fn no_nfd_16(x: int) requires 0x30c6 <= x < 0xfa0e, qt_nfd_16(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x30db { if x < 0x30d2 { if x < 0x30c9 { if x < 0x30c7 { return; } else { if x < 0x30c8 { assert(has_all(false, 0x30c7, 0x30c8)) by (compute_only); has_all_at(false, 0x30c7, 0x30c8, x); return; } else { return; } } } else { if x < 0x30ca { assert(has_all(false, 0x30c9, 0x30ca)) by (compute_only); has_all_at(false, 0x30c9, 0x30ca, x); return; } else { if x < 0x30d0 { return; } else { assert(has_all(false, 0x30d0, 0x30d2)) by (compute_only); has_all_at(false, 0x30d0, 0x30d2, x); return; } } } } else { if x < 0x30d6 { if x < 0x30d3 { return; } else { if x < 0x30d5 { assert(has_all(false, 0x30d3, 0x30d5)) by (compute_only); has_all_at(false, 0x30d3, 0x30d5, x); return; } else { return; } } } else { if x < 0x30d8 { assert(has_all(false, 0x30d6, 0x30d8)) by (compute_only); has_all_at(false, 0x30d6, 0x30d8, x); return; } else { if x < 0x30d9 { return; } else { assert(has_all(false, 0x30d9, 0x30db)) by (compute_only); has_all_at(false, 0x30d9, 0x30db, x); return; } } } } } else { if x < 0x30fb { if x < 0x30f4 { if x < 0x30dc { return; } else { if x < 0x30de { assert(has_all(false, 0x30dc, 0x30de)) by (compute_only); has_all_at(false, 0x30dc, 0x30de, x); return; } else { return; } } } else { if x < 0x30f5 { assert(has_all(false, 0x30f4, 0x30f5)) by (compute_only); has_all_at(false, 0x30f4, 0x30f5, x); return; } else { if x < 0x30f7 { return; } else { assert(has_all(false, 0x30f7, 0x30fb)) by (compute_only); has_all_at(false, 0x30f7, 0x30fb, x); return; } } } } else { if x < 0xac00 { if x < 0x30fe { return; } else { if x < 0x30ff { assert(has_all(false, 0x30fe, 0x30ff)) by (compute_only); has_all_at(false, 0x30fe, 0x30ff, x); return; } else { return; } } } else { if x < 0xd7a4 { return; } else { if x < 0xf900 { return; } else { assert(has_all(false, 0xf900, 0xfa0e)) by (compute_only); has_all_at(false, 0xf900, 0xfa0e, x); return; } } } } } }
proof fn no_nfd_17(x: int) requires 0xfa0e <= x < 0xfb3d, qt_nfd_17(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xfa27 { if x < 0xfa1f { if x < 0xfa12 { if x < 0xfa10 { return; } else { if x < 0xfa11 { assert(has_all(false, 0xfa10, 0xfa11)) by (compute_only); has_all_at(false, 0xfa10, 0xfa11, x); return; } else { return; } } } else { if x < 0xfa13 { assert(has_all(false, 0xfa12, 0xfa13)) by (compute_only); has_all_at(false, 0xfa12, 0xfa13, x); return; } else { if x < 0xfa15 { return; } else { assert(has_all(false, 0xfa15, 0xfa1f)) by (compute_only); has_all_at(false, 0xfa15, 0xfa1f, x); return; } } } } else { if x < 0xfa22 { if x < 0xfa20 { return; } else { if x < 0xfa21 { assert(has_all(false, 0xfa20, 0xfa21)) by (compute_only); has_all_at(false, 0xfa20, 0xfa21, x); return; } else { return; } } } else { if x < 0xfa23 { assert(has_all(false, 0xfa22, 0xfa23)) by (compute_only); has_all_at(false, 0xfa22, 0xfa23, x); return; } else { if x < 0xfa25 { return; } else { assert(has_all(false, 0xfa25, 0xfa27)) by (compute_only); has_all_at(false, 0xfa25, 0xfa27, x); return; } } } } } else { if x < 0xfb1e { if x < 0xfa70 { if x < 0xfa2a { return; } else { if x < 0xfa6e { assert(has_all(false, 0xfa2a, 0xfa6e)) by (compute_only); has_all_at(false, 0xfa2a, 0xfa6e, x); return; } else { return; } } } else { if x < 0xfada { assert(has_all(false, 0xfa70, 0xfada)) by (compute_only); has_all_at(false, 0xfa70, 0xfada, x); return; } else { if x < 0xfb1d { return; } else { assert(has_all(false, 0xfb1d, 0xfb1e)) by (compute_only); has_all_at(false, 0xfb1d, 0xfb1e, x); return; } } } } else { if x < 0xfb2a { if x < 0xfb1f { return; } else { if x < 0xfb20 { assert(has_all(false, 0xfb1f, 0xfb20)) by (compute_only); has_all_at(false, 0xfb1f, 0xfb20, x); return; } else { return; } } } else { if x < 0xfb37 { assert(has_all(false, 0xfb2a, 0xfb37)) by (compute_only); has_all_at(false, 0xfb2a, 0xfb37, x); return; } else { if x < 0xfb38 { return; } else { assert(has_all(false, 0xfb38, 0xfb3d)) by (compute_only); has_all_at(false, 0xfb38, 0xfb3d, x); return; } } } } } }
proof fn no_nfd_18(x: int) requires 0xfb3d <= x < 0x11384, qt_nfd_18(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x105e5 { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { return; } else { if x < 0xfb3f { assert(has_all(false, 0xfb3e, 0xfb3f)) by (compute_only); has_all_at(false, 0xfb3e, 0xfb3f, x); return; } else { return; } } } else { if x < 0xfb42 { assert(has_all(false, 0xfb40, 0xfb42)) by (compute_only); has_all_at(false, 0xfb40, 0xfb42, x); return; } else { if x < 0xfb43 { return; } else { assert(has_all(false, 0xfb43, 0xfb45)) by (compute_only); has_all_at(false, 0xfb43, 0xfb45, x); return; } } } } else { if x < 0x105c9 { if x < 0xfb46 { return; } else { if x < 0xfb4f { assert(has_all(false, 0xfb46, 0xfb4f)) by (compute_only); has_all_at(false, 0xfb46, 0xfb4f, x); return; } else { return; } } } else { if x < 0x105ca { assert(has_all(false, 0x105c9, 0x105ca)) by (compute_only); has_all_at(false, 0x105c9, 0x105ca, x); return; } else { if x < 0x105e4 { return; } else { assert(has_all(false, 0x105e4, 0x105e5)) by (compute_only); has_all_at(false, 0x105e4, 0x105e5, x); return; } } } } } else { if x < 0x110ac { if x < 0x1109c { if x < 0x1109a { return; } else { if x < 0x1109b { assert(has_all(false, 0x1109a, 0x1109b)) by (compute_only); has_all_at(false, 0x1109a, 0x1109b, x); return; } else { return; } } } else { if x < 0x1109d { assert(has_all(false, 0x1109c, 0x1109d)) by (compute_only); has_all_at(false, 0x1109c, 0x1109d, x); return; } else { if x < 0x110ab { return; } else { assert(has_all(false, 0x110ab, 0x110ac)) by (compute_only); has_all_at(false, 0x110ab, 0x110ac, x); return; } } } } else { if x < 0x1134b { if x < 0x1112e { return; } else { if x < 0x11130 { assert(has_all(false, 0x1112e, 0x11130)) by (compute_only); has_all_at(false, 0x1112e, 0x11130, x); return; } else { return; } } } else { if x < 0x1134d { assert(has_all(false, 0x1134b, 0x1134d)) by (compute_only); has_all_at(false, 0x1134b, 0x1134d, x); return; } else { if x < 0x11383 { return; } else { assert(has_all(false, 0x11383, 0x11384)) by (compute_only); has_all_at(false, 0x11383, 0x11384, x); return; } } } } } }
proof fn no_nfd_19(x: int) requires 0x11384 <= x < 0x1d165, qt_nfd_19(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x114bd { if x < 0x11392 { if x < 0x1138e { if x < 0x11385 { return; } else { if x < 0x11386 { assert(has_all(false, 0x11385, 0x11386)) by (compute_only); has_all_at(false, 0x11385, 0x11386, x); return; } else { return; } } } else { if x < 0x1138f { assert(has_all(false, 0x1138e, 0x1138f)) by (compute_only); has_all_at(false, 0x1138e, 0x1138f, x); return; } else { if x < 0x11391 { return; } else { assert(has_all(false, 0x11391, 0x11392)) by (compute_only); has_all_at(false, 0x11391, 0x11392, x); return; } } } } else { if x < 0x113c7 { if x < 0x113c5 { return; } else { if x < 0x113c6 { assert(has_all(false, 0x113c5, 0x113c6)) by (compute_only); has_all_at(false, 0x113c5, 0x113c6, x); return; } else { return; } } } else { if x < 0x113c9 { assert(has_all(false, 0x113c7, 0x113c9)) by (compute_only); has_all_at(false, 0x113c7, 0x113c9, x); return; } else { if x < 0x114bb { return; } else { assert(has_all(false, 0x114bb, 0x114bd)) by (compute_only); has_all_at(false, 0x114bb, 0x114bd, x); return; } } } } } else { if x < 0x11939 { if x < 0x115ba { if x < 0x114be { return; } else { if x < 0x114bf { assert(has_all(false, 0x114be, 0x114bf)) by (compute_only); has_all_at(false, 0x114be, 0x114bf, x); return; } else { return; } } } else { if x < 0x115bc { assert(has_all(false, 0x115ba, 0x115bc)) by (compute_only); has_all_at(false, 0x115ba, 0x115bc, x); return; } else { if x < 0x11938 { return; } else { assert(has_all(false, 0x11938, 0x11939)) by (compute_only); has_all_at(false, 0x11938, 0x11939, x); return; } } } } else { if x < 0x16d68 { if x < 0x16121 { return; } else { if x < 0x16129 { assert(has_all(false, 0x16121, 0x16129)) by (compute_only); has_all_at(false, 0x16121, 0x16129, x); return; } else { return; } } } else { if x < 0x16d6b { assert(has_all(false, 0x16d68, 0x16d6b)) by (compute_only); has_all_at(false, 0x16d68, 0x16d6b, x); return; } else { if x < 0x1d15e { return; } else { assert(has_all(false, 0x1d15e, 0x1d165)) by (compute_only); has_all_at(false, 0x1d15e, 0x1d165, x); return; } } } } } }
proof fn no_nfd_20(x: int) requires 0x1d165 <= x < 0x110000, qt_nfd_20(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1d1c1 { if x < 0x1d1bb { return; } else { assert(has_all(false, 0x1d1bb, 0x1d1c1)) by (compute_only); has_all_at(false, 0x1d1bb, 0x1d1c1, x); return; } } else { if x < 0x2f800 { return; } else { if x < 0x2fa1e { assert(has_all(false, 0x2f800, 0x2fa1e)) by (compute_only); has_all_at(false, 0x2f800, 0x2fa1e, x); return; } else { return; } } } }
pub proof fn no_nfd(x: int) requires 0 <= x < 0x110000, qt_nfd(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1f7e { if x < 0x932 { if x < 0x21c { if x < 0x138 { no_nfd_0(x); } else { no_nfd_1(x); } } else { if x < 0x3d5 { no_nfd_2(x); } else { if x < 0x4c3 { no_nfd_3(x); } else { no_nfd_4(x); } } } } else { if x < 0xf53 { if x < 0xb5e { no_nfd_5(x); } else { no_nfd_6(x); } } else { if x < 0xfad { no_nfd_7(x); } else { if x < 0x1b44 { no_nfd_8(x); } else { no_nfd_9(x); } } } } } else { if x < 0x30ad { if x < 0x224a { if x < 0x212c { no_nfd_10(x); } else { no_nfd_11(x); } } else { if x < 0x232b { no_nfd_12(x); } else { if x < 0x3061 { no_nfd_13(x); } else { no_nfd_14(x); } } } } else { if x < 0xfb3d { if x < 0x30c6 { no_nfd_15(x); } else { if x < 0xfa0e { no_nfd_16(x); } else { no_nfd_17(x); } } } else { if x < 0x11384 { no_nfd_18(x); } else { if x < 0x1d165 { no_nfd_19(x); } else { no_nfd_20(x); } } } } } }
proof fn no_nfkd_0(x: int) requires 0x0 <= x < 0xe6, qt_nfkd_0(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xbb { if x < 0xab { if x < 0xa8 { if x < 0xa0 { return; } else { if x < 0xa1 { assert(has_all(true, 0xa0, 0xa1)) by (compute_only); has_all_at(true, 0xa0, 0xa1, x); return; } else { return; } } } else { if x < 0xa9 { assert(has_all(true, 0xa8, 0xa9)) by (compute_only); has_all_at(true, 0xa8, 0xa9, x); return; } else { if x < 0xaa { return; } else { assert(has_all(true, 0xaa, 0xab)) by (compute_only); has_all_at(true, 0xaa, 0xab, x); return; } } } } else { if x < 0xb2 { if x < 0xaf { return; } else { if x < 0xb0 { assert(has_all(true, 0xaf, 0xb0)) by (compute_only); has_all_at(true, 0xaf, 0xb0, x); return; } else { return; } } } else { if x < 0xb6 { assert(has_all(true, 0xb2, 0xb6)) by (compute_only); has_all_at(true, 0xb2, 0xb6, x); return; } else { if x < 0xb8 { return; } else { assert(has_all(true, 0xb8, 0xbb)) by (compute_only); has_all_at(true, 0xb8, 0xbb, x); return; } } } } } else { if x < 0xd0 { if x < 0xc0 { if x < 0xbc { return; } else { if x < 0xbf { assert(has_all(true, 0xbc, 0xbf)) by (compute_only); has_all_at(true, 0xbc, 0xbf, x); return; } else { return; } } } else { if x < 0xc6 { assert(has_all(true, 0xc0, 0xc6)) by (compute_only); has_all_at(true, 0xc0, 0xc6, x); return; } else { if x < 0xc7 { return; } else { assert(has_all(true, 0xc7, 0xd0)) by (compute_only); has_all_at(true, 0xc7, 0xd0, x); return; } } } } else { if x < 0xd9 { if x < 0xd1 { return; } else { if x < 0xd7 { assert(has_all(true, 0xd1, 0xd7)) by (compute_only); has_all_at(true, 0xd1, 0xd7, x); return; } else { return; } } } else { if x < 0xde { assert(has_all(true, 0xd9, 0xde)) by (compute_only); has_all_at(true, 0xd9, 0xde, x); return; } else { if x < 0xe0 { return; } else { assert(has_all(true, 0xe0, 0xe6)) by (compute_only); has_all_at(true, 0xe0, 0xe6, x); return; } } } } } }
proof fn no_nfkd_1(x: int) requires 0xe6 <= x < 0x180, qt_nfkd_1(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x131 { if x < 0xfe { if x < 0xf1 { if x < 0xe7 { return; } else { if x < 0xf0 { assert(has_all(true, 0xe7, 0xf0)) by (compute_only); has_all_at(true, 0xe7, 0xf0, x); return; } else { return; } } } else { if x < 0xf7 { assert(has_all(true, 0xf1, 0xf7)) by (compute_only); has_all_at(true, 0xf1, 0xf7, x); return; } else { if x < 0xf9 { return; } else { assert(has_all(true, 0xf9, 0xfe)) by (compute_only); has_all_at(true, 0xf9, 0xfe, x); return; } } } } else { if x < 0x112 { if x < 0xff { return; } else { if x < 0x110 { assert(has_all(true, 0xff, 0x110)) by (compute_only); has_all_at(true, 0xff, 0x110, x); return; } else { return; } } } else { if x < 0x126 { assert(has_all(true, 0x112, 0x126)) by (compute_only); has_all_at(true, 0x112, 0x126, x); return; } else { if x < 0x128 { return; } else { assert(has_all(true, 0x128, 0x131)) by (compute_only); has_all_at(true, 0x128, 0x131, x); return; } } } } } else { if x < 0x14a { if x < 0x139 { if x < 0x132 { return; } else { if x < 0x138 { assert(has_all(true, 0x132, 0x138)) by (compute_only); has_all_at(true, 0x132, 0x138, x); return; } else { return; } } } else { if x < 0x141 { assert(has_all(true, 0x139, 0x141)) by (compute_only); has_all_at(true, 0x139, 0x141, x); return; } else { if x < 0x143 { return; } else { assert(has_all(true, 0x143, 0x14a)) by (compute_only); has_all_at(true, 0x143, 0x14a, x); return; } } } } else { if x < 0x154 { if x < 0x14c { return; } else { if x < 0x152 { assert(has_all(true, 0x14c, 0x152)) by (compute_only); has_all_at(true, 0x14c, 0x152, x); return; } else { return; } } } else { if x < 0x166 { assert(has_all(true, 0x154, 0x166)) by (compute_only); has_all_at(true, 0x154, 0x166, x); return; } else { if x < 0x168 { return; } else { assert(has_all(true, 0x168, 0x180)) by (compute_only); has_all_at(true, 0x168, 0x180, x); return; } } } } } }
proof fn no_nfkd_2(x: int) requires 0x180 <= x < 0x342, qt_nfkd_2(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x21c { if x < 0x1dd { if x < 0x1af { if x < 0x1a0 { return; } else { if x < 0x1a2 { assert(has_all(true, 0x1a0, 0x1a2)) by (compute_only); has_all_at(true, 0x1a0, 0x1a2, x); return; } else { return; } } } else { if x < 0x1b1 { assert(has_all(true, 0x1af, 0x1b1)) by (compute_only); has_all_at(true, 0x1af, 0x1b1, x); return; } else { if x < 0x1c4 { return; } else { assert(has_all(true, 0x1c4, 0x1dd)) by (compute_only); has_all_at(true, 0x1c4, 0x1dd, x); return; } } } } else { if x < 0x1e6 { if x < 0x1de { return; } else { if x < 0x1e4 { assert(has_all(true, 0x1de, 0x1e4)) by (compute_only); has_all_at(true, 0x1de, 0x1e4, x); return; } else { return; } } } else { if x < 0x1f6 { assert(has_all(true, 0x1e6, 0x1f6)) by (compute_only); has_all_at(true, 0x1e6, 0x1f6, x); return; } else { if x < 0x1f8 { return; } else { assert(has_all(true, 0x1f8, 0x21c)) by (compute_only); has_all_at(true, 0x1f8, 0x21c, x); return; } } } } } else { if x < 0x2b9 { if x < 0x226 { if x < 0x21e { return; } else { if x < 0x220 { assert(has_all(true, 0x21e, 0x220)) by (compute_only); has_all_at(true, 0x21e, 0x220, x); return; } else { return; } } } else { if x < 0x234 { assert(has_all(true, 0x226, 0x234)) by (compute_only); has_all_at(true, 0x226, 0x234, x); return; } else { if x < 0x2b0 { return; } else { assert(has_all(true, 0x2b0, 0x2b9)) by (compute_only); has_all_at(true, 0x2b0, 0x2b9, x); return; } } } } else { if x < 0x2e0 { if x < 0x2d8 { return; } else { if x < 0x2de { assert(has_all(true, 0x2d8, 0x2de)) by (compute_only); has_all_at(true, 0x2d8, 0x2de, x); return; } else { return; } } } else { if x < 0x2e5 { assert(has_all(true, 0x2e0, 0x2e5)) by (compute_only); has_all_at(true, 0x2e0, 0x2e5, x); return; } else { if x < 0x340 { return; } else { assert(has_all(true, 0x340, 0x342)) by (compute_only); has_all_at(true, 0x340, 0x342, x); return; } } } } } }
proof fn no_nfkd_3(x: int) requires 0x342 <= x < 0x3f6, qt_nfkd_3(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x38d { if x < 0x37b { if x < 0x374 { if x < 0x343 { return; } else { if x < 0x345 { assert(has_all(true, 0x343, 0x345)) by (compute_only); has_all_at(true, 0x343, 0x345, x); return; } else { return; } } } else { if x < 0x375 { assert(has_all(true, 0x374, 0x375)) by (compute_only); has_all_at(true, 0x374, 0x375, x); return; } else { if x < 0x37a { return; } else { assert(has_all(true, 0x37a, 0x37b)) by (compute_only); has_all_at(true, 0x37a, 0x37b, x); return; } } } } else { if x < 0x384 { if x < 0x37e { return; } else { if x < 0x37f { assert(has_all(true, 0x37e, 0x37f)) by (compute_only); has_all_at(true, 0x37e, 0x37f, x); return; } else { return; } } } else { if x < 0x38b { assert(has_all(true, 0x384, 0x38b)) by (compute_only); has_all_at(true, 0x384, 0x38b, x); return; } else { if x < 0x38c { return; } else { assert(has_all(true, 0x38c, 0x38d)) by (compute_only); has_all_at(true, 0x38c, 0x38d, x); return; } } } } } else { if x < 0x3cf { if x < 0x3aa { if x < 0x38e { return; } else { if x < 0x391 { assert(has_all(true, 0x38e, 0x391)) by (compute_only); has_all_at(true, 0x38e, 0x391, x); return; } else { return; } } } else { if x < 0x3b1 { assert(has_all(true, 0x3aa, 0x3b1)) by (compute_only); has_all_at(true, 0x3aa, 0x3b1, x); return; } else { if x < 0x3ca { return; } else { assert(has_all(true, 0x3ca, 0x3cf)) by (compute_only); has_all_at(true, 0x3ca, 0x3cf, x); return; } } } } else { if x < 0x3f0 { if x < 0x3d0 { return; } else { if x < 0x3d7 { assert(has_all(true, 0x3d0, 0x3d7)) by (compute_only); has_all_at(true, 0x3d0, 0x3d7, x); return; } else { return; } } } else { if x < 0x3f3 { assert(has_all(true, 0x3f0, 0x3f3)) by (compute_only); has_all_at(true, 0x3f0, 0x3f3, x); return; } else { if x < 0x3f4 { return; } else { assert(has_all(true, 0x3f4, 0x3f6)) by (compute_only); has_all_at(true, 0x3f4, 0x3f6, x); return; } } } } } }
proof fn no_nfkd_4(x: int) requires 0x3f6 <= x < 0x478, qt_nfkd_4(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x41a { if x < 0x404 { if x < 0x400 { if x < 0x3f9 { return; } else { if x < 0x3fa { assert(has_all(true, 0x3f9, 0x3fa)) by (compute_only); has_all_at(true, 0x3f9, 0x3fa, x); return; } else { return; } } } else { if x < 0x402 { assert(has_all(true, 0x400, 0x402)) by (compute_only); has_all_at(true, 0x400, 0x402, x); return; } else { if x < 0x403 { return; } else { assert(has_all(true, 0x403, 0x404)) by (compute_only); has_all_at(true, 0x403, 0x404, x); return; } } } } else { if x < 0x40c { if x < 0x407 { return; } else { if x < 0x408 { assert(has_all(true, 0x407, 0x408)) by (compute_only); has_all_at(true, 0x407, 0x408, x); return; } else { return; } } } else { if x < 0x40f { assert(has_all(true, 0x40c, 0x40f)) by (compute_only); has_all_at(true, 0x40c, 0x40f, x); return; } else { if x < 0x419 { return; } else { assert(has_all(true, 0x419, 0x41a)) by (compute_only); has_all_at(true, 0x419, 0x41a, x); return; } } } } } else { if x < 0x454 { if x < 0x450 { if x < 0x439 { return; } else { if x < 0x43a { assert(has_all(true, 0x439, 0x43a)) by (compute_only); has_all_at(true, 0x439, 0x43a, x); return; } else { return; } } } else { if x < 0x452 { assert(has_all(true, 0x450, 0x452)) by (compute_only); has_all_at(true, 0x450, 0x452, x); return; } else { if x < 0x453 { return; } else { assert(has_all(true, 0x453, 0x454)) by (compute_only); has_all_at(true, 0x453, 0x454, x); return; } } } } else { if x < 0x45c { if x < 0x457 { return; } else { if x < 0x458 { assert(has_all(true, 0x457, 0x458)) by (compute_only); has_all_at(true, 0x457, 0x458, x); return; } else { return; } } } else { if x < 0x45f { assert(has_all(true, 0x45c, 0x45f)) by (compute_only); has_all_at(true, 0x45c, 0x45f, x); return; } else { if x < 0x476 { return; } else { assert(has_all(true, 0x476, 0x478)) by (compute_only); has_all_at(true, 0x476, 0x478, x); return; } } } } } }
proof fn no_nfkd_5(x: int) requires 0x478 <= x < 0x6c3, qt_nfkd_5(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x4f6 { if x < 0x4d8 { if x < 0x4d0 { if x < 0x4c1 { return; } else { if x < 0x4c3 { assert(has_all(true, 0x4c1, 0x4c3)) by (compute_only); has_all_at(true, 0x4c1, 0x4c3, x); return; } else { return; } } } else { if x < 0x4d4 { assert(has_all(true, 0x4d0, 0x4d4)) by (compute_only); has_all_at(true, 0x4d0, 0x4d4, x); return; } else { if x < 0x4d6 { return; } else { assert(has_all(true, 0x4d6, 0x4d8)) by (compute_only); has_all_at(true, 0x4d6, 0x4d8, x); return; } } } } else { if x < 0x4e2 { if x < 0x4da { return; } else { if x < 0x4e0 { assert(has_all(true, 0x4da, 0x4e0)) by (compute_only); has_all_at(true, 0x4da, 0x4e0, x); return; } else { return; } } } else { if x < 0x4e8 { assert(has_all(true, 0x4e2, 0x4e8)) by (compute_only); has_all_at(true, 0x4e2, 0x4e8, x); return; } else { if x < 0x4ea { return; } else { assert(has_all(true, 0x4ea, 0x4f6)) by (compute_only); has_all_at(true, 0x4ea, 0x4f6, x); return; } } } } } else { if x < 0x627 { if x < 0x587 { if x < 0x4f8 { return; } else { if x < 0x4fa { assert(has_all(true, 0x4f8, 0x4fa)) by (compute_only); has_all_at(true, 0x4f8, 0x4fa, x); return; } else { return; } } } else { if x < 0x588 { assert(has_all(true, 0x587, 0x588)) by (compute_only); has_all_at(true, 0x587, 0x588, x); return; } else { if x < 0x622 { return; } else { assert(has_all(true, 0x622, 0x627)) by (compute_only); has_all_at(true, 0x622, 0x627, x); return; } } } } else { if x < 0x6c0 { if x < 0x675 { return; } else { if x < 0x679 { assert(has_all(true, 0x675, 0x679)) by (compute_only); has_all_at(true, 0x675, 0x679, x); return; } else { return; } } } else { if x < 0x6c1 { assert(has_all(true, 0x6c0, 0x6c1)) by (compute_only); has_all_at(true, 0x6c0, 0x6c1, x); return; } else { if x < 0x6c2 { return; } else { assert(has_all(true, 0x6c2, 0x6c3)) by (compute_only); has_all_at(true, 0x6c2, 0x6c3, x); return; } } } } } }
proof fn no_nfkd_6(x: int) requires 0x6c3 <= x < 0xa5f, qt_nfkd_6(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x9cd { if x < 0x932 { if x < 0x929 { if x < 0x6d3 { return; } else { if x < 0x6d4 { assert(has_all(true, 0x6d3, 0x6d4)) by (compute_only); has_all_at(true, 0x6d3, 0x6d4, x); return; } else { return; } } } else { if x < 0x92a { assert(has_all(true, 0x929, 0x92a)) by (compute_only); has_all_at(true, 0x929, 0x92a, x); return; } else { if x < 0x931 { return; } else { assert(has_all(true, 0x931, 0x932)) by (compute_only); has_all_at(true, 0x931, 0x932, x); return; } } } } else { if x < 0x958 { if x < 0x934 { return; } else { if x < 0x935 { assert(has_all(true, 0x934, 0x935)) by (compute_only); has_all_at(true, 0x934, 0x935, x); return; } else { return; } } } else { if x < 0x960 { assert(has_all(true, 0x958, 0x960)) by (compute_only); has_all_at(true, 0x958, 0x960, x); return; } else { if x < 0x9cb { return; } else { assert(has_all(true, 0x9cb, 0x9cd)) by (compute_only); has_all_at(true, 0x9cb, 0x9cd, x); return; } } } } } else { if x < 0xa34 { if x < 0x9df { if x < 0x9dc { return; } else { if x < 0x9de { assert(has_all(true, 0x9dc, 0x9de)) by (compute_only); has_all_at(true, 0x9dc, 0x9de, x); return; } else { return; } } } else { if x < 0x9e0 { assert(has_all(true, 0x9df, 0x9e0)) by (compute_only); has_all_at(true, 0x9df, 0x9e0, x); return; } else { if x < 0xa33 { return; } else { assert(has_all(true, 0xa33, 0xa34)) by (compute_only); has_all_at(true, 0xa33, 0xa34, x); return; } } } } else { if x < 0xa59 { if x < 0xa36 { return; } else { if x < 0xa37 { assert(has_all(true, 0xa36, 0xa37)) by (compute_only); has_all_at(true, 0xa36, 0xa37, x); return; } else { return; } } } else { if x < 0xa5c { assert(has_all(true, 0xa59, 0xa5c)) by (compute_only); has_all_at(true, 0xa59, 0xa5c, x); return; } else { if x < 0xa5e { return; } else { assert(has_all(true, 0xa5e, 0xa5f)) by (compute_only); has_all_at(true, 0xa5e, 0xa5f, x); return; } } } } } }
proof fn no_nfkd_7(x: int) requires 0xa5f <= x < 0xddf, qt_nfkd_7(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xc49 { if x < 0xb5e { if x < 0xb4b { if x < 0xb48 { return; } else { if x < 0xb49 { assert(has_all(true, 0xb48, 0xb49)) by (compute_only); has_all_at(true, 0xb48, 0xb49, x); return; } else { return; } } } else { if x < 0xb4d { assert(has_all(true, 0xb4b, 0xb4d)) by (compute_only); has_all_at(true, 0xb4b, 0xb4d, x); return; } else { if x < 0xb5c { return; } else { assert(has_all(true, 0xb5c, 0xb5e)) by (compute_only); has_all_at(true, 0xb5c, 0xb5e, x); return; } } } } else { if x < 0xbca { if x < 0xb94 { return; } else { if x < 0xb95 { assert(has_all(true, 0xb94, 0xb95)) by (compute_only); has_all_at(true, 0xb94, 0xb95, x); return; } else { return; } } } else { if x < 0xbcd { assert(has_all(true, 0xbca, 0xbcd)) by (compute_only); has_all_at(true, 0xbca, 0xbcd, x); return; } else { if x < 0xc48 { return; } else { assert(has_all(true, 0xc48, 0xc49)) by (compute_only); has_all_at(true, 0xc48, 0xc49, x); return; } } } } } else { if x < 0xccc { if x < 0xcc7 { if x < 0xcc0 { return; } else { if x < 0xcc1 { assert(has_all(true, 0xcc0, 0xcc1)) by (compute_only); has_all_at(true, 0xcc0, 0xcc1, x); return; } else { return; } } } else { if x < 0xcc9 { assert(has_all(true, 0xcc7, 0xcc9)) by (compute_only); has_all_at(true, 0xcc7, 0xcc9, x); return; } else { if x < 0xcca { return; } else { assert(has_all(true, 0xcca, 0xccc)) by (compute_only); has_all_at(true, 0xcca, 0xccc, x); return; } } } } else { if x < 0xdda { if x < 0xd4a { return; } else { if x < 0xd4d { assert(has_all(true, 0xd4a, 0xd4d)) by (compute_only); has_all_at(true, 0xd4a, 0xd4d, x); return; } else { return; } } } else { if x < 0xddb { assert(has_all(true, 0xdda, 0xddb)) by (compute_only); has_all_at(true, 0xdda, 0xddb, x); return; } else { if x < 0xddc { return; } else { assert(has_all(true, 0xddc, 0xddf)) by (compute_only); has_all_at(true, 0xddc, 0xddf, x); return; } } } } } }
proof fn no_nfkd_8(x: int) requires 0xddf <= x < 0xf7a, qt_nfkd_8(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xf4e { if x < 0xede { if x < 0xeb3 { if x < 0xe33 { return; } else { if x < 0xe34 { assert(has_all(true, 0xe33, 0xe34)) by (compute_only); has_all_at(true, 0xe33, 0xe34, x); return; } else { return; } } } else { if x < 0xeb4 { assert(has_all(true, 0xeb3, 0xeb4)) by (compute_only); has_all_at(true, 0xeb3, 0xeb4, x); return; } else { if x < 0xedc { return; } else { assert(has_all(true, 0xedc, 0xede)) by (compute_only); has_all_at(true, 0xedc, 0xede, x); return; } } } } else { if x < 0xf43 { if x < 0xf0c { return; } else { if x < 0xf0d { assert(has_all(true, 0xf0c, 0xf0d)) by (compute_only); has_all_at(true, 0xf0c, 0xf0d, x); return; } else { return; } } } else { if x < 0xf44 { assert(has_all(true, 0xf43, 0xf44)) by (compute_only); has_all_at(true, 0xf43, 0xf44, x); return; } else { if x < 0xf4d { return; } else { assert(has_all(true, 0xf4d, 0xf4e)) by (compute_only); has_all_at(true, 0xf4d, 0xf4e, x); return; } } } } } else { if x < 0xf5d { if x < 0xf57 { if x < 0xf52 { return; } else { if x < 0xf53 { assert(has_all(true, 0xf52, 0xf53)) by (compute_only); has_all_at(true, 0xf52, 0xf53, x); return; } else { return; } } } else { if x < 0xf58 { assert(has_all(true, 0xf57, 0xf58)) by (compute_only); has_all_at(true, 0xf57, 0xf58, x); return; } else { if x < 0xf5c { return; } else { assert(has_all(true, 0xf5c, 0xf5d)) by (compute_only); has_all_at(true, 0xf5c, 0xf5d, x); return; } } } } else { if x < 0xf73 { if x < 0xf69 { return; } else { if x < 0xf6a { assert(has_all(true, 0xf69, 0xf6a)) by (compute_only); has_all_at(true, 0xf69, 0xf6a, x); return; } else { return; } } } else { if x < 0xf74 { assert(has_all(true, 0xf73, 0xf74)) by (compute_only); has_all_at(true, 0xf73, 0xf74, x); return; } else { if x < 0xf75 { return; } else { assert(has_all(true, 0xf75, 0xf7a)) by (compute_only); has_all_at(true, 0xf75, 0xf7a, x); return; } } } } } }
proof fn no_nfkd_9(x: int) requires 0xf7a <= x < 0x1b0b, qt_nfkd_9(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfad { if x < 0xf9e { if x < 0xf93 { if x < 0xf81 { return; } else { if x < 0xf82 { assert(has_all(true, 0xf81, 0xf82)) by (compute_only); has_all_at(true, 0xf81, 0xf82, x); return; } else { return; } } } else { if x < 0xf94 { assert(has_all(true, 0xf93, 0xf94)) by (compute_only); has_all_at(true, 0xf93, 0xf94, x); return; } else { if x < 0xf9d { return; } else { assert(has_all(true, 0xf9d, 0xf9e)) by (compute_only); has_all_at(true, 0xf9d, 0xf9e, x); return; } } } } else { if x < 0xfa7 { if x < 0xfa2 { return; } else { if x < 0xfa3 { assert(has_all(true, 0xfa2, 0xfa3)) by (compute_only); has_all_at(true, 0xfa2, 0xfa3, x); return; } else { return; } } } else { if x < 0xfa8 { assert(has_all(true, 0xfa7, 0xfa8)) by (compute_only); has_all_at(true, 0xfa7, 0xfa8, x); return; } else { if x < 0xfac { return; } else { assert(has_all(true, 0xfac, 0xfad)) by (compute_only); has_all_at(true, 0xfac, 0xfad, x); return; } } } } } else { if x < 0x10fd { if x < 0x1026 { if x < 0xfb9 { return; } else { if x < 0xfba { assert(has_all(true, 0xfb9, 0xfba)) by (compute_only); has_all_at(true, 0xfb9, 0xfba, x); return; } else { return; } } } else { if x < 0x1027 { assert(has_all(true, 0x1026, 0x1027)) by (compute_only); has_all_at(true, 0x1026, 0x1027, x); return; } else { if x < 0x10fc { return; } else { assert(has_all(true, 0x10fc, 0x10fd)) by (compute_only); has_all_at(true, 0x10fc, 0x10fd, x); return; } } } } else { if x < 0x1b08 { if x < 0x1b06 { return; } else { if x < 0x1b07 { assert(has_all(true, 0x1b06, 0x1b07)) by (compute_only); has_all_at(true, 0x1b06, 0x1b07, x); return; } else { return; } } } else { if x < 0x1b09 { assert(has_all(true, 0x1b08, 0x1b09)) by (compute_only); has_all_at(true, 0x1b08, 0x1b09, x); return; } else { if x < 0x1b0a { return; } else { assert(has_all(true, 0x1b0a, 0x1b0b)) by (compute_only); has_all_at(true, 0x1b0a, 0x1b0b, x); return; } } } } } }
proof fn no_nfkd_10(x: int) requires 0x1b0b <= x < 0x1d79, qt_nfkd_10(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1b42 { if x < 0x1b13 { if x < 0x1b0e { if x < 0x1b0c { return; } else { if x < 0x1b0d { assert(has_all(true, 0x1b0c, 0x1b0d)) by (compute_only); has_all_at(true, 0x1b0c, 0x1b0d, x); return; } else { return; } } } else { if x < 0x1b0f { assert(has_all(true, 0x1b0e, 0x1b0f)) by (compute_only); has_all_at(true, 0x1b0e, 0x1b0f, x); return; } else { if x < 0x1b12 { return; } else { assert(has_all(true, 0x1b12, 0x1b13)) by (compute_only); has_all_at(true, 0x1b12, 0x1b13, x); return; } } } } else { if x < 0x1b3d { if x < 0x1b3b { return; } else { if x < 0x1b3c { assert(has_all(true, 0x1b3b, 0x1b3c)) by (compute_only); has_all_at(true, 0x1b3b, 0x1b3c, x); return; } else { return; } } } else { if x < 0x1b3e { assert(has_all(true, 0x1b3d, 0x1b3e)) by (compute_only); has_all_at(true, 0x1b3d, 0x1b3e, x); return; } else { if x < 0x1b40 { return; } else { assert(has_all(true, 0x1b40, 0x1b42)) by (compute_only); has_all_at(true, 0x1b40, 0x1b42, x); return; } } } } } else { if x < 0x1d3b { if x < 0x1d2c { if x < 0x1b43 { return; } else { if x < 0x1b44 { assert(has_all(true, 0x1b43, 0x1b44)) by (compute_only); has_all_at(true, 0x1b43, 0x1b44, x); return; } else { return; } } } else { if x < 0x1d2f { assert(has_all(true, 0x1d2c, 0x1d2f)) by (compute_only); has_all_at(true, 0x1d2c, 0x1d2f, x); return; } else { if x < 0x1d30 { return; } else { assert(has_all(true, 0x1d30, 0x1d3b)) by (compute_only); has_all_at(true, 0x1d30, 0x1d3b, x); return; } } } } else { if x < 0x1d4f { if x < 0x1d3c { return; } else { if x < 0x1d4e { assert(has_all(true, 0x1d3c, 0x1d4e)) by (compute_only); has_all_at(true, 0x1d3c, 0x1d4e, x); return; } else { return; } } } else { if x < 0x1d6b { assert(has_all(true, 0x1d4f, 0x1d6b)) by (compute_only); has_all_at(true, 0x1d4f, 0x1d6b, x); return; } else { if x < 0x1d78 { return; } else { assert(has_all(true, 0x1d78, 0x1d79)) by (compute_only); has_all_at(true, 0x1d78, 0x1d79, x); return; } } } } } }
proof fn no_nfkd_11(x: int) requires 0x1d79 <= x < 0x1f7e, qt_nfkd_11(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1f46 { if x < 0x1efa { if x < 0x1e00 { if x < 0x1d9b { return; } else { if x < 0x1dc0 { assert(has_all(true, 0x1d9b, 0x1dc0)) by (compute_only); has_all_at(true, 0x1d9b, 0x1dc0, x); return; } else { return; } } } else { if x < 0x1e9c { assert(has_all(true, 0x1e00, 0x1e9c)) by (compute_only); has_all_at(true, 0x1e00, 0x1e9c, x); return; } else { if x < 0x1ea0 { return; } else { assert(has_all(true, 0x1ea0, 0x1efa)) by (compute_only); has_all_at(true, 0x1ea0, 0x1efa, x); return; } } } } else { if x < 0x1f18 { if x < 0x1f00 { return; } else { if x < 0x1f16 { assert(has_all(true, 0x1f00, 0x1f16)) by (compute_only); has_all_at(true, 0x1f00, 0x1f16, x); return; } else { return; } } } else { if x < 0x1f1e { assert(has_all(true, 0x1f18, 0x1f1e)) by (compute_only); has_all_at(true, 0x1f18, 0x1f1e, x); return; } else { if x < 0x1f20 { return; } else { assert(has_all(true, 0x1f20, 0x1f46)) by (compute_only); has_all_at(true, 0x1f20, 0x1f46, x); return; } } } } } else { if x < 0x1f5a { if x < 0x1f50 { if x < 0x1f48 { return; } else { if x < 0x1f4e { assert(has_all(true, 0x1f48, 0x1f4e)) by (compute_only); has_all_at(true, 0x1f48, 0x1f4e, x); return; } else { return; } } } else { if x < 0x1f58 { assert(has_all(true, 0x1f50, 0x1f58)) by (compute_only); has_all_at(true, 0x1f50, 0x1f58, x); return; } else { if x < 0x1f59 { return; } else { assert(has_all(true, 0x1f59, 0x1f5a)) by (compute_only); has_all_at(true, 0x1f59, 0x1f5a, x); return; } } } } else { if x < 0x1f5d { if x < 0x1f5b { return; } else { if x < 0x1f5c { assert(has_all(true, 0x1f5b, 0x1f5c)) by (compute_only); has_all_at(true, 0x1f5b, 0x1f5c, x); return; } else { return; } } } else { if x < 0x1f5e { assert(has_all(true, 0x1f5d, 0x1f5e)) by (compute_only); has_all_at(true, 0x1f5d, 0x1f5e, x); return; } else { if x < 0x1f5f { return; } else { assert(has_all(true, 0x1f5f, 0x1f7e)) by (compute_only); has_all_at(true, 0x1f5f, 0x1f7e, x); return; } } } } } }
proof fn no_nfkd_12(x: int) requires 0x1f7e <= x < 0x2030, qt_nfkd_12(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ff5 { if x < 0x1fd4 { if x < 0x1fb6 { if x < 0x1f80 { return; } else { if x < 0x1fb5 { assert(has_all(true, 0x1f80, 0x1fb5)) by (compute_only); has_all_at(true, 0x1f80, 0x1fb5, x); return; } else { return; } } } else { if x < 0x1fc5 { assert(has_all(true, 0x1fb6, 0x1fc5)) by (compute_only); has_all_at(true, 0x1fb6, 0x1fc5, x); return; } else { if x < 0x1fc6 { return; } else { assert(has_all(true, 0x1fc6, 0x1fd4)) by (compute_only); has_all_at(true, 0x1fc6, 0x1fd4, x); return; } } } } else { if x < 0x1fdd { if x < 0x1fd6 { return; } else { if x < 0x1fdc { assert(has_all(true, 0x1fd6, 0x1fdc)) by (compute_only); has_all_at(true, 0x1fd6, 0x1fdc, x); return; } else { return; } } } else { if x < 0x1ff0 { assert(has_all(true, 0x1fdd, 0x1ff0)) by (compute_only); has_all_at(true, 0x1fdd, 0x1ff0, x); return; } else { if x < 0x1ff2 { return; } else { assert(has_all(true, 0x1ff2, 0x1ff5)) by (compute_only); has_all_at(true, 0x1ff2, 0x1ff5, x); return; } } } } } else { if x < 0x2012 { if x < 0x2000 { if x < 0x1ff6 { return; } else { if x < 0x1fff { assert(has_all(true, 0x1ff6, 0x1fff)) by (compute_only); has_all_at(true, 0x1ff6, 0x1fff, x); return; } else { return; } } } else { if x < 0x200b { assert(has_all(true, 0x2000, 0x200b)) by (compute_only); has_all_at(true, 0x2000, 0x200b, x); return; } else { if x < 0x2011 { return; } else { assert(has_all(true, 0x2011, 0x2012)) by (compute_only); has_all_at(true, 0x2011, 0x2012, x); return; } } } } else { if x < 0x2024 { if x < 0x2017 { return; } else { if x < 0x2018 { assert(has_all(true, 0x2017, 0x2018)) by (compute_only); has_all_at(true, 0x2017, 0x2018, x); return; } else { return; } } } else { if x < 0x2027 { assert(has_all(true, 0x2024, 0x2027)) by (compute_only); has_all_at(true, 0x2024, 0x2027, x); return; } else { if x < 0x202f { return; } else { assert(has_all(true, 0x202f, 0x2030)) by (compute_only); has_all_at(true, 0x202f, 0x2030, x); return; } } } } } }
proof fn no_nfkd_13(x: int) requires 0x2030 <= x < 0x2104, qt_nfkd_13(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2058 { if x < 0x203d { if x < 0x2036 { if x < 0x2033 { return; } else { if x < 0x2035 { assert(has_all(true, 0x2033, 0x2035)) by (compute_only); has_all_at(true, 0x2033, 0x2035, x); return; } else { return; } } } else { if x < 0x2038 { assert(has_all(true, 0x2036, 0x2038)) by (compute_only); has_all_at(true, 0x2036, 0x2038, x); return; } else { if x < 0x203c { return; } else { assert(has_all(true, 0x203c, 0x203d)) by (compute_only); has_all_at(true, 0x203c, 0x203d, x); return; } } } } else { if x < 0x2047 { if x < 0x203e { return; } else { if x < 0x203f { assert(has_all(true, 0x203e, 0x203f)) by (compute_only); has_all_at(true, 0x203e, 0x203f, x); return; } else { return; } } } else { if x < 0x204a { assert(has_all(true, 0x2047, 0x204a)) by (compute_only); has_all_at(true, 0x2047, 0x204a, x); return; } else { if x < 0x2057 { return; } else { assert(has_all(true, 0x2057, 0x2058)) by (compute_only); has_all_at(true, 0x2057, 0x2058, x); return; } } } } } else { if x < 0x208f { if x < 0x2070 { if x < 0x205f { return; } else { if x < 0x2060 { assert(has_all(true, 0x205f, 0x2060)) by (compute_only); has_all_at(true, 0x205f, 0x2060, x); return; } else { return; } } } else { if x < 0x2072 { assert(has_all(true, 0x2070, 0x2072)) by (compute_only); has_all_at(true, 0x2070, 0x2072, x); return; } else { if x < 0x2074 { return; } else { assert(has_all(true, 0x2074, 0x208f)) by (compute_only); has_all_at(true, 0x2074, 0x208f, x); return; } } } } else { if x < 0x20a8 { if x < 0x2090 { return; } else { if x < 0x209d { assert(has_all(true, 0x2090, 0x209d)) by (compute_only); has_all_at(true, 0x2090, 0x209d, x); return; } else { return; } } } else { if x < 0x20a9 { assert(has_all(true, 0x20a8, 0x20a9)) by (compute_only); has_all_at(true, 0x20a8, 0x20a9, x); return; } else { if x < 0x2100 { return; } else { assert(has_all(true, 0x2100, 0x2104)) by (compute_only); has_all_at(true, 0x2100, 0x2104, x); return; } } } } } }
proof fn no_nfkd_14(x: int) requires 0x2104 <= x < 0x2141, qt_nfkd_14(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2125 { if x < 0x2117 { if x < 0x2109 { if x < 0x2105 { return; } else { if x < 0x2108 { assert(has_all(true, 0x2105, 0x2108)) by (compute_only); has_all_at(true, 0x2105, 0x2108, x); return; } else { return; } } } else { if x < 0x2114 { assert(has_all(true, 0x2109, 0x2114)) by (compute_only); has_all_at(true, 0x2109, 0x2114, x); return; } else { if x < 0x2115 { return; } else { assert(has_all(true, 0x2115, 0x2117)) by (compute_only); has_all_at(true, 0x2115, 0x2117, x); return; } } } } else { if x < 0x2120 { if x < 0x2119 { return; } else { if x < 0x211e { assert(has_all(true, 0x2119, 0x211e)) by (compute_only); has_all_at(true, 0x2119, 0x211e, x); return; } else { return; } } } else { if x < 0x2123 { assert(has_all(true, 0x2120, 0x2123)) by (compute_only); has_all_at(true, 0x2120, 0x2123, x); return; } else { if x < 0x2124 { return; } else { assert(has_all(true, 0x2124, 0x2125)) by (compute_only); has_all_at(true, 0x2124, 0x2125, x); return; } } } } } else { if x < 0x212e { if x < 0x2128 { if x < 0x2126 { return; } else { if x < 0x2127 { assert(has_all(true, 0x2126, 0x2127)) by (compute_only); has_all_at(true, 0x2126, 0x2127, x); return; } else { return; } } } else { if x < 0x2129 { assert(has_all(true, 0x2128, 0x2129)) by (compute_only); has_all_at(true, 0x2128, 0x2129, x); return; } else { if x < 0x212a { return; } else { assert(has_all(true, 0x212a, 0x212e)) by (compute_only); has_all_at(true, 0x212a, 0x212e, x); return; } } } } else { if x < 0x2133 { if x < 0x212f { return; } else { if x < 0x2132 { assert(has_all(true, 0x212f, 0x2132)) by (compute_only); has_all_at(true, 0x212f, 0x2132, x); return; } else { return; } } } else { if x < 0x213a { assert(has_all(true, 0x2133, 0x213a)) by (compute_only); has_all_at(true, 0x2133, 0x213a, x); return; } else { if x < 0x213b { return; } else { assert(has_all(true, 0x213b, 0x2141)) by (compute_only); has_all_at(true, 0x213b, 0x2141, x); return; } } } } } }
proof fn no_nfkd_15(x: int) requires 0x2141 <= x < 0x222e, qt_nfkd_15(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x21d0 { if x < 0x218a { if x < 0x2150 { if x < 0x2145 { return; } else { if x < 0x214a { assert(has_all(true, 0x2145, 0x214a)) by (compute_only); has_all_at(true, 0x2145, 0x214a, x); return; } else { return; } } } else { if x < 0x2180 { assert(has_all(true, 0x2150, 0x2180)) by (compute_only); has_all_at(true, 0x2150, 0x2180, x); return; } else { if x < 0x2189 { return; } else { assert(has_all(true, 0x2189, 0x218a)) by (compute_only); has_all_at(true, 0x2189, 0x218a, x); return; } } } } else { if x < 0x21ae { if x < 0x219a { return; } else { if x < 0x219c { assert(has_all(true, 0x219a, 0x219c)) by (compute_only); has_all_at(true, 0x219a, 0x219c, x); return; } else { return; } } } else { if x < 0x21af { assert(has_all(true, 0x21ae, 0x21af)) by (compute_only); has_all_at(true, 0x21ae, 0x21af, x); return; } else { if x < 0x21cd { return; } else { assert(has_all(true, 0x21cd, 0x21d0)) by (compute_only); has_all_at(true, 0x21cd, 0x21d0, x); return; } } } } } else { if x < 0x220d { if x < 0x2209 { if x < 0x2204 { return; } else { if x < 0x2205 { assert(has_all(true, 0x2204, 0x2205)) by (compute_only); has_all_at(true, 0x2204, 0x2205, x); return; } else { return; } } } else { if x < 0x220a { assert(has_all(true, 0x2209, 0x220a)) by (compute_only); has_all_at(true, 0x2209, 0x220a, x); return; } else { if x < 0x220c { return; } else { assert(has_all(true, 0x220c, 0x220d)) by (compute_only); has_all_at(true, 0x220c, 0x220d, x); return; } } } } else { if x < 0x2226 { if x < 0x2224 { return; } else { if x < 0x2225 { assert(has_all(true, 0x2224, 0x2225)) by (compute_only); has_all_at(true, 0x2224, 0x2225, x); return; } else { return; } } } else { if x < 0x2227 { assert(has_all(true, 0x2226, 0x2227)) by (compute_only); has_all_at(true, 0x2226, 0x2227, x); return; } else { if x < 0x222c { return; } else { assert(has_all(true, 0x222c, 0x222e)) by (compute_only); has_all_at(true, 0x222c, 0x222e, x); return; } } } } } }
proof fn no_nfkd_16(x: int) requires 0x222e <= x < 0x2286, qt_nfkd_16(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2261 { if x < 0x2245 { if x < 0x2241 { if x < 0x222f { return; } else { if x < 0x2231 { assert(has_all(true, 0x222f, 0x2231)) by (compute_only); has_all_at(true, 0x222f, 0x2231, x); return; } else { return; } } } else { if x < 0x2242 { assert(has_all(true, 0x2241, 0x2242)) by (compute_only); has_all_at(true, 0x2241, 0x2242, x); return; } else { if x < 0x2244 { return; } else { assert(has_all(true, 0x2244, 0x2245)) by (compute_only); has_all_at(true, 0x2244, 0x2245, x); return; } } } } else { if x < 0x2249 { if x < 0x2247 { return; } else { if x < 0x2248 { assert(has_all(true, 0x2247, 0x2248)) by (compute_only); has_all_at(true, 0x2247, 0x2248, x); return; } else { return; } } } else { if x < 0x224a { assert(has_all(true, 0x2249, 0x224a)) by (compute_only); has_all_at(true, 0x2249, 0x224a, x); return; } else { if x < 0x2260 { return; } else { assert(has_all(true, 0x2260, 0x2261)) by (compute_only); has_all_at(true, 0x2260, 0x2261, x); return; } } } } } else { if x < 0x2276 { if x < 0x226d { if x < 0x2262 { return; } else { if x < 0x2263 { assert(has_all(true, 0x2262, 0x2263)) by (compute_only); has_all_at(true, 0x2262, 0x2263, x); return; } else { return; } } } else { if x < 0x2272 { assert(has_all(true, 0x226d, 0x2272)) by (compute_only); has_all_at(true, 0x226d, 0x2272, x); return; } else { if x < 0x2274 { return; } else { assert(has_all(true, 0x2274, 0x2276)) by (compute_only); has_all_at(true, 0x2274, 0x2276, x); return; } } } } else { if x < 0x2280 { if x < 0x2278 { return; } else { if x < 0x227a { assert(has_all(true, 0x2278, 0x227a)) by (compute_only); has_all_at(true, 0x2278, 0x227a, x); return; } else { return; } } } else { if x < 0x2282 { assert(has_all(true, 0x2280, 0x2282)) by (compute_only); has_all_at(true, 0x2280, 0x2282, x); return; } else { if x < 0x2284 { return; } else { assert(has_all(true, 0x2284, 0x2286)) by (compute_only); has_all_at(true, 0x2284, 0x2286, x); return; } } } } } }
proof fn no_nfkd_17(x: int) requires 0x2286 <= x < 0x2ea0, qt_nfkd_17(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x24eb { if x < 0x22e4 { if x < 0x22ac { if x < 0x2288 { return; } else { if x < 0x228a { assert(has_all(true, 0x2288, 0x228a)) by (compute_only); has_all_at(true, 0x2288, 0x228a, x); return; } else { return; } } } else { if x < 0x22b0 { assert(has_all(true, 0x22ac, 0x22b0)) by (compute_only); has_all_at(true, 0x22ac, 0x22b0, x); return; } else { if x < 0x22e0 { return; } else { assert(has_all(true, 0x22e0, 0x22e4)) by (compute_only); has_all_at(true, 0x22e0, 0x22e4, x); return; } } } } else { if x < 0x2329 { if x < 0x22ea { return; } else { if x < 0x22ee { assert(has_all(true, 0x22ea, 0x22ee)) by (compute_only); has_all_at(true, 0x22ea, 0x22ee, x); return; } else { return; } } } else { if x < 0x232b { assert(has_all(true, 0x2329, 0x232b)) by (compute_only); has_all_at(true, 0x2329, 0x232b, x); return; } else { if x < 0x2460 { return; } else { assert(has_all(true, 0x2460, 0x24eb)) by (compute_only); has_all_at(true, 0x2460, 0x24eb, x); return; } } } } } else { if x < 0x2add { if x < 0x2a74 { if x < 0x2a0c { return; } else { if x < 0x2a0d { assert(has_all(true, 0x2a0c, 0x2a0d)) by (compute_only); has_all_at(true, 0x2a0c, 0x2a0d, x); return; } else { return; } } } else { if x < 0x2a77 { assert(has_all(true, 0x2a74, 0x2a77)) by (compute_only); has_all_at(true, 0x2a74, 0x2a77, x); return; } else { if x < 0x2adc { return; } else { assert(has_all(true, 0x2adc, 0x2add)) by (compute_only); has_all_at(true, 0x2adc, 0x2add, x); return; } } } } else { if x < 0x2d6f { if x < 0x2c7c { return; } else { if x < 0x2c7e { assert(has_all(true, 0x2c7c, 0x2c7e)) by (compute_only); has_all_at(true, 0x2c7c, 0x2c7e, x); return; } else { return; } } } else { if x < 0x2d70 { assert(has_all(true, 0x2d6f, 0x2d70)) by (compute_only); has_all_at(true, 0x2d6f, 0x2d70, x); return; } else { if x < 0x2e9f { return; } else { assert(has_all(true, 0x2e9f, 0x2ea0)) by (compute_only); has_all_at(true, 0x2e9f, 0x2ea0, x); return; } } } } } }
proof fn no_nfkd_18(x: int) requires 0x2ea0 <= x < 0x3059, qt_nfkd_18(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x304d { if x < 0x3001 { if x < 0x2f00 { if x < 0x2ef3 { return; } else { if x < 0x2ef4 { assert(has_all(true, 0x2ef3, 0x2ef4)) by (compute_only); has_all_at(true, 0x2ef3, 0x2ef4, x); return; } else { return; } } } else { if x < 0x2fd6 { assert(has_all(true, 0x2f00, 0x2fd6)) by (compute_only); has_all_at(true, 0x2f00, 0x2fd6, x); return; } else { if x < 0x3000 { return; } else { assert(has_all(true, 0x3000, 0x3001)) by (compute_only); has_all_at(true, 0x3000, 0x3001, x); return; } } } } else { if x < 0x3038 { if x < 0x3036 { return; } else { if x < 0x3037 { assert(has_all(true, 0x3036, 0x3037)) by (compute_only); has_all_at(true, 0x3036, 0x3037, x); return; } else { return; } } } else { if x < 0x303b { assert(has_all(true, 0x3038, 0x303b)) by (compute_only); has_all_at(true, 0x3038, 0x303b, x); return; } else { if x < 0x304c { return; } else { assert(has_all(true, 0x304c, 0x304d)) by (compute_only); has_all_at(true, 0x304c, 0x304d, x); return; } } } } } else { if x < 0x3053 { if x < 0x3050 { if x < 0x304e { return; } else { if x < 0x304f { assert(has_all(true, 0x304e, 0x304f)) by (compute_only); has_all_at(true, 0x304e, 0x304f, x); return; } else { return; } } } else { if x < 0x3051 { assert(has_all(true, 0x3050, 0x3051)) by (compute_only); has_all_at(true, 0x3050, 0x3051, x); return; } else { if x < 0x3052 { return; } else { assert(has_all(true, 0x3052, 0x3053)) by (compute_only); has_all_at(true, 0x3052, 0x3053, x); return; } } } } else { if x < 0x3056 { if x < 0x3054 { return; } else { if x < 0x3055 { assert(has_all(true, 0x3054, 0x3055)) by (compute_only); has_all_at(true, 0x3054, 0x3055, x); return; } else { return; } } } else { if x < 0x3057 { assert(has_all(true, 0x3056, 0x3057)) by (compute_only); has_all_at(true, 0x3056, 0x3057, x); return; } else { if x < 0x3058 { return; } else { assert(has_all(true, 0x3058, 0x3059)) by (compute_only); has_all_at(true, 0x3058, 0x3059, x); return; } } } } } }
proof fn no_nfkd_19(x: int) requires 0x3059 <= x < 0x307b, qt_nfkd_19(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x3066 { if x < 0x305f { if x < 0x305c { if x < 0x305a { return; } else { if x < 0x305b { assert(has_all(true, 0x305a, 0x305b)) by (compute_only); has_all_at(true, 0x305a, 0x305b, x); return; } else { return; } } } else { if x < 0x305d { assert(has_all(true, 0x305c, 0x305d)) by (compute_only); has_all_at(true, 0x305c, 0x305d, x); return; } else { if x < 0x305e { return; } else { assert(has_all(true, 0x305e, 0x305f)) by (compute_only); has_all_at(true, 0x305e, 0x305f, x); return; } } } } else { if x < 0x3062 { if x < 0x3060 { return; } else { if x < 0x3061 { assert(has_all(true, 0x3060, 0x3061)) by (compute_only); has_all_at(true, 0x3060, 0x3061, x); return; } else { return; } } } else { if x < 0x3063 { assert(has_all(true, 0x3062, 0x3063)) by (compute_only); has_all_at(true, 0x3062, 0x3063, x); return; } else { if x < 0x3065 { return; } else { assert(has_all(true, 0x3065, 0x3066)) by (compute_only); has_all_at(true, 0x3065, 0x3066, x); return; } } } } } else { if x < 0x3072 { if x < 0x3069 { if x < 0x3067 { return; } else { if x < 0x3068 { assert(has_all(true, 0x3067, 0x3068)) by (compute_only); has_all_at(true, 0x3067, 0x3068, x); return; } else { return; } } } else { if x < 0x306a { assert(has_all(true, 0x3069, 0x306a)) by (compute_only); has_all_at(true, 0x3069, 0x306a, x); return; } else { if x < 0x3070 { return; } else { assert(has_all(true, 0x3070, 0x3072)) by (compute_only); has_all_at(true, 0x3070, 0x3072, x); return; } } } } else { if x < 0x3076 { if x < 0x3073 { return; } else { if x < 0x3075 { assert(has_all(true, 0x3073, 0x3075)) by (compute_only); has_all_at(true, 0x3073, 0x3075, x); return; } else { return; } } } else { if x < 0x3078 { assert(has_all(true, 0x3076, 0x3078)) by (compute_only); has_all_at(true, 0x3076, 0x3078, x); return; } else { if x < 0x3079 { return; } else { assert(has_all(true, 0x3079, 0x307b)) by (compute_only); has_all_at(true, 0x3079, 0x307b, x); return; } } } } } }
proof fn no_nfkd_20(x: int) requires 0x307b <= x < 0x30bb, qt_nfkd_20(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x30af { if x < 0x309d { if x < 0x3094 { if x < 0x307c { return; } else { if x < 0x307e { assert(has_all(true, 0x307c, 0x307e)) by (compute_only); has_all_at(true, 0x307c, 0x307e, x); return; } else { return; } } } else { if x < 0x3095 { assert(has_all(true, 0x3094, 0x3095)) by (compute_only); has_all_at(true, 0x3094, 0x3095, x); return; } else { if x < 0x309b { return; } else { assert(has_all(true, 0x309b, 0x309d)) by (compute_only); has_all_at(true, 0x309b, 0x309d, x); return; } } } } else { if x < 0x30ac { if x < 0x309e { return; } else { if x < 0x30a0 { assert(has_all(true, 0x309e, 0x30a0)) by (compute_only); has_all_at(true, 0x309e, 0x30a0, x); return; } else { return; } } } else { if x < 0x30ad { assert(has_all(true, 0x30ac, 0x30ad)) by (compute_only); has_all_at(true, 0x30ac, 0x30ad, x); return; } else { if x < 0x30ae { return; } else { assert(has_all(true, 0x30ae, 0x30af)) by (compute_only); has_all_at(true, 0x30ae, 0x30af, x); return; } } } } } else { if x < 0x30b5 { if x < 0x30b2 { if x < 0x30b0 { return; } else { if x < 0x30b1 { assert(has_all(true, 0x30b0, 0x30b1)) by (compute_only); has_all_at(true, 0x30b0, 0x30b1, x); return; } else { return; } } } else { if x < 0x30b3 { assert(has_all(true, 0x30b2, 0x30b3)) by (compute_only); has_all_at(true, 0x30b2, 0x30b3, x); return; } else { if x < 0x30b4 { return; } else { assert(has_all(true, 0x30b4, 0x30b5)) by (compute_only); has_all_at(true, 0x30b4, 0x30b5, x); return; } } } } else { if x < 0x30b8 { if x < 0x30b6 { return; } else { if x < 0x30b7 { assert(has_all(true, 0x30b6, 0x30b7)) by (compute_only); has_all_at(true, 0x30b6, 0x30b7, x); return; } else { return; } } } else { if x < 0x30b9 { assert(has_all(true, 0x30b8, 0x30b9)) by (compute_only); has_all_at(true, 0x30b8, 0x30b9, x); return; } else { if x < 0x30ba { return; } else { assert(has_all(true, 0x30ba, 0x30bb)) by (compute_only); has_all_at(true, 0x30ba, 0x30bb, x); return; } } } } } }
proof fn no_nfkd_21(x: int) requires 0x30bb <= x < 0x30de, qt_nfkd_21(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x30c8 { if x < 0x30c1 { if x < 0x30be { if x < 0x30bc { return; } else { if x < 0x30bd { assert(has_all(true, 0x30bc, 0x30bd)) by (compute_only); has_all_at(true, 0x30bc, 0x30bd, x); return; } else { return; } } } else { if x < 0x30bf { assert(has_all(true, 0x30be, 0x30bf)) by (compute_only); has_all_at(true, 0x30be, 0x30bf, x); return; } else { if x < 0x30c0 { return; } else { assert(has_all(true, 0x30c0, 0x30c1)) by (compute_only); has_all_at(true, 0x30c0, 0x30c1, x); return; } } } } else { if x < 0x30c5 { if x < 0x30c2 { return; } else { if x < 0x30c3 { assert(has_all(true, 0x30c2, 0x30c3)) by (compute_only); has_all_at(true, 0x30c2, 0x30c3, x); return; } else { return; } } } else { if x < 0x30c6 { assert(has_all(true, 0x30c5, 0x30c6)) by (compute_only); has_all_at(true, 0x30c5, 0x30c6, x); return; } else { if x < 0x30c7 { return; } else { assert(has_all(true, 0x30c7, 0x30c8)) by (compute_only); has_all_at(true, 0x30c7, 0x30c8, x); return; } } } } } else { if x < 0x30d5 { if x < 0x30d0 { if x < 0x30c9 { return; } else { if x < 0x30ca { assert(has_all(true, 0x30c9, 0x30ca)) by (compute_only); has_all_at(true, 0x30c9, 0x30ca, x); return; } else { return; } } } else { if x < 0x30d2 { assert(has_all(true, 0x30d0, 0x30d2)) by (compute_only); has_all_at(true, 0x30d0, 0x30d2, x); return; } else { if x < 0x30d3 { return; } else { assert(has_all(true, 0x30d3, 0x30d5)) by (compute_only); has_all_at(true, 0x30d3, 0x30d5, x); return; } } } } else { if x < 0x30d9 { if x < 0x30d6 { return; } else { if x < 0x30d8 { assert(has_all(true, 0x30d6, 0x30d8)) by (compute_only); has_all_at(true, 0x30d6, 0x30d8, x); return; } else { return; } } } else { if x < 0x30db { assert(has_all(true, 0x30d9, 0x30db)) by (compute_only); has_all_at(true, 0x30d9, 0x30db, x); return; } else { if x < 0x30dc { return; } else { assert(has_all(true, 0x30dc, 0x30de)) by (compute_only); has_all_at(true, 0x30dc, 0x30de, x); return; } } } } } }
proof fn no_nfkd_22(x: int) requires 0x30de <= x < 0xa7f5, qt_nfkd_22(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x321f { if x < 0x3100 { if x < 0x30f7 { if x < 0x30f4 { return; } else { if x < 0x30f5 { assert(has_all(true, 0x30f4, 0x30f5)) by (compute_only); has_all_at(true, 0x30f4, 0x30f5, x); return; } else { return; } } } else { if x < 0x30fb { assert(has_all(true, 0x30f7, 0x30fb)) by (compute_only); has_all_at(true, 0x30f7, 0x30fb, x); return; } else { if x < 0x30fe { return; } else { assert(has_all(true, 0x30fe, 0x3100)) by (compute_only); has_all_at(true, 0x30fe, 0x3100, x); return; } } } } else { if x < 0x3192 { if x < 0x3131 { return; } else { if x < 0x318f { assert(has_all(true, 0x3131, 0x318f)) by (compute_only); has_all_at(true, 0x3131, 0x318f, x); return; } else { return; } } } else { if x < 0x31a0 { assert(has_all(true, 0x3192, 0x31a0)) by (compute_only); has_all_at(true, 0x3192, 0x31a0, x); return; } else { if x < 0x3200 { return; } else { assert(has_all(true, 0x3200, 0x321f)) by (compute_only); has_all_at(true, 0x3200, 0x321f, x); return; } } } } } else { if x < 0x3400 { if x < 0x3250 { if x < 0x3220 { return; } else { if x < 0x3248 { assert(has_all(true, 0x3220, 0x3248)) by (compute_only); has_all_at(true, 0x3220, 0x3248, x); return; } else { return; } } } else { if x < 0x327f { assert(has_all(true, 0x3250, 0x327f)) by (compute_only); has_all_at(true, 0x3250, 0x327f, x); return; } else { if x < 0x3280 { return; } else { assert(has_all(true, 0x3280, 0x3400)) by (compute_only); has_all_at(true, 0x3280, 0x3400, x); return; } } } } else { if x < 0xa770 { if x < 0xa69c { return; } else { if x < 0xa69e { assert(has_all(true, 0xa69c, 0xa69e)) by (compute_only); has_all_at(true, 0xa69c, 0xa69e, x); return; } else { return; } } } else { if x < 0xa771 { assert(has_all(true, 0xa770, 0xa771)) by (compute_only); has_all_at(true, 0xa770, 0xa771, x); return; } else { if x < 0xa7f2 { return; } else { assert(has_all(true, 0xa7f2, 0xa7f5)) by (compute_only); has_all_at(true, 0xa7f2, 0xa7f5, x); return; } } } } } }
proof fn no_nfkd_23(x: int) requires 0xa7f5 <= x < 0xfa6e, qt_nfkd_23(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfa11 { if x < 0xab6a { if x < 0xab5c { if x < 0xa7f8 { return; } else { if x < 0xa7fa { assert(has_all(true, 0xa7f8, 0xa7fa)) by (compute_only); has_all_at(true, 0xa7f8, 0xa7fa, x); return; } else { return; } } } else { if x < 0xab60 { assert(has_all(true, 0xab5c, 0xab60)) by (compute_only); has_all_at(true, 0xab5c, 0xab60, x); return; } else { if x < 0xab69 { return; } else { assert(has_all(true, 0xab69, 0xab6a)) by (compute_only); has_all_at(true, 0xab69, 0xab6a, x); return; } } } } else { if x < 0xf900 { if x < 0xac00 { return; } else { if x < 0xd7a4 { return; } else { return; } } } else { if x < 0xfa0e { assert(has_all(true, 0xf900, 0xfa0e)) by (compute_only); has_all_at(true, 0xf900, 0xfa0e, x); return; } else { if x < 0xfa10 { return; } else { assert(has_all(true, 0xfa10, 0xfa11)) by (compute_only); has_all_at(true, 0xfa10, 0xfa11, x); return; } } } } } else { if x < 0xfa21 { if x < 0xfa15 { if x < 0xfa12 { return; } else { if x < 0xfa13 { assert(has_all(true, 0xfa12, 0xfa13)) by (compute_only); has_all_at(true, 0xfa12, 0xfa13, x); return; } else { return; } } } else { if x < 0xfa1f { assert(has_all(true, 0xfa15, 0xfa1f)) by (compute_only); has_all_at(true, 0xfa15, 0xfa1f, x); return; } else { if x < 0xfa20 { return; } else { assert(has_all(true, 0xfa20, 0xfa21)) by (compute_only); has_all_at(true, 0xfa20, 0xfa21, x); return; } } } } else { if x < 0xfa25 { if x < 0xfa22 { return; } else { if x < 0xfa23 { assert(has_all(true, 0xfa22, 0xfa23)) by (compute_only); has_all_at(true, 0xfa22, 0xfa23, x); return; } else { return; } } } else { if x < 0xfa27 { assert(has_all(true, 0xfa25, 0xfa27)) by (compute_only); has_all_at(true, 0xfa25, 0xfa27, x); return; } else { if x < 0xfa2a { return; } else { assert(has_all(true, 0xfa2a, 0xfa6e)) by (compute_only); has_all_at(true, 0xfa2a, 0xfa6e, x); return; } } } } } }
proof fn no_nfkd_24(x: int) requires 0xfa6e <= x < 0xfd90, qt_nfkd_24(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfb3d { if x < 0xfb18 { if x < 0xfb00 { if x < 0xfa70 { return; } else { if x < 0xfada { assert(has_all(true, 0xfa70, 0xfada)) by (compute_only); has_all_at(true, 0xfa70, 0xfada, x); return; } else { return; } } } else { if x < 0xfb07 { assert(has_all(true, 0xfb00, 0xfb07)) by (compute_only); has_all_at(true, 0xfb00, 0xfb07, x); return; } else { if x < 0xfb13 { return; } else { assert(has_all(true, 0xfb13, 0xfb18)) by (compute_only); has_all_at(true, 0xfb13, 0xfb18, x); return; } } } } else { if x < 0xfb1f { if x < 0xfb1d { return; } else { if x < 0xfb1e { assert(has_all(true, 0xfb1d, 0xfb1e)) by (compute_only); has_all_at(true, 0xfb1d, 0xfb1e, x); return; } else { return; } } } else { if x < 0xfb37 { assert(has_all(true, 0xfb1f, 0xfb37)) by (compute_only); has_all_at(true, 0xfb1f, 0xfb37, x); return; } else { if x < 0xfb38 { return; } else { assert(has_all(true, 0xfb38, 0xfb3d)) by (compute_only); has_all_at(true, 0xfb38, 0xfb3d, x); return; } } } } } else { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { return; } else { if x < 0xfb3f { assert(has_all(true, 0xfb3e, 0xfb3f)) by (compute_only); has_all_at(true, 0xfb3e, 0xfb3f, x); return; } else { return; } } } else { if x < 0xfb42 { assert(has_all(true, 0xfb40, 0xfb42)) by (compute_only); has_all_at(true, 0xfb40, 0xfb42, x); return; } else { if x < 0xfb43 { return; } else { assert(has_all(true, 0xfb43, 0xfb45)) by (compute_only); has_all_at(true, 0xfb43, 0xfb45, x); return; } } } } else { if x < 0xfbd3 { if x < 0xfb46 { return; } else { if x < 0xfbb2 { assert(has_all(true, 0xfb46, 0xfbb2)) by (compute_only); has_all_at(true, 0xfb46, 0xfbb2, x); return; } else { return; } } } else { if x < 0xfd3e { assert(has_all(true, 0xfbd3, 0xfd3e)) by (compute_only); has_all_at(true, 0xfbd3, 0xfd3e, x); return; } else { if x < 0xfd50 { return; } else { assert(has_all(true, 0xfd50, 0xfd90)) by (compute_only); has_all_at(true, 0xfd50, 0xfd90, x); return; } } } } } }
proof fn no_nfkd_25(x: int) requires 0xfd90 <= x < 0xffc8, qt_nfkd_25(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfe67 { if x < 0xfe1a { if x < 0xfdf0 { if x < 0xfd92 { return; } else { if x < 0xfdc8 { assert(has_all(true, 0xfd92, 0xfdc8)) by (compute_only); has_all_at(true, 0xfd92, 0xfdc8, x); return; } else { return; } } } else { if x < 0xfdfd { assert(has_all(true, 0xfdf0, 0xfdfd)) by (compute_only); has_all_at(true, 0xfdf0, 0xfdfd, x); return; } else { if x < 0xfe10 { return; } else { assert(has_all(true, 0xfe10, 0xfe1a)) by (compute_only); has_all_at(true, 0xfe10, 0xfe1a, x); return; } } } } else { if x < 0xfe47 { if x < 0xfe30 { return; } else { if x < 0xfe45 { assert(has_all(true, 0xfe30, 0xfe45)) by (compute_only); has_all_at(true, 0xfe30, 0xfe45, x); return; } else { return; } } } else { if x < 0xfe53 { assert(has_all(true, 0xfe47, 0xfe53)) by (compute_only); has_all_at(true, 0xfe47, 0xfe53, x); return; } else { if x < 0xfe54 { return; } else { assert(has_all(true, 0xfe54, 0xfe67)) by (compute_only); has_all_at(true, 0xfe54, 0xfe67, x); return; } } } } } else { if x < 0xfe75 { if x < 0xfe70 { if x < 0xfe68 { return; } else { if x < 0xfe6c { assert(has_all(true, 0xfe68, 0xfe6c)) by (compute_only); has_all_at(true, 0xfe68, 0xfe6c, x); return; } else { return; } } } else { if x < 0xfe73 { assert(has_all(true, 0xfe70, 0xfe73)) by (compute_only); has_all_at(true, 0xfe70, 0xfe73, x); return; } else { if x < 0xfe74 { return; } else { assert(has_all(true, 0xfe74, 0xfe75)) by (compute_only); has_all_at(true, 0xfe74, 0xfe75, x); return; } } } } else { if x < 0xff01 { if x < 0xfe76 { return; } else { if x < 0xfefd { assert(has_all(true, 0xfe76, 0xfefd)) by (compute_only); has_all_at(true, 0xfe76, 0xfefd, x); return; } else { return; } } } else { if x < 0xffbf { assert(has_all(true, 0xff01, 0xffbf)) by (compute_only); has_all_at(true, 0xff01, 0xffbf, x); return; } else { if x < 0xffc2 { return; } else { assert(has_all(true, 0xffc2, 0xffc8)) by (compute_only); has_all_at(true, 0xffc2, 0xffc8, x); return; } } } } } }
proof fn no_nfkd_26(x: int) requires 0xffc8 <= x < 0x1109d, qt_nfkd_26(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x105ca { if x < 0xffdd { if x < 0xffd2 { if x < 0xffca { return; } else { if x < 0xffd0 { assert(has_all(true, 0xffca, 0xffd0)) by (compute_only); has_all_at(true, 0xffca, 0xffd0, x); return; } else { return; } } } else { if x < 0xffd8 { assert(has_all(true, 0xffd2, 0xffd8)) by (compute_only); has_all_at(true, 0xffd2, 0xffd8, x); return; } else { if x < 0xffda { return; } else { assert(has_all(true, 0xffda, 0xffdd)) by (compute_only); has_all_at(true, 0xffda, 0xffdd, x); return; } } } } else { if x < 0xffe8 { if x < 0xffe0 { return; } else { if x < 0xffe7 { assert(has_all(true, 0xffe0, 0xffe7)) by (compute_only); has_all_at(true, 0xffe0, 0xffe7, x); return; } else { return; } } } else { if x < 0xffef { assert(has_all(true, 0xffe8, 0xffef)) by (compute_only); has_all_at(true, 0xffe8, 0xffef, x); return; } else { if x < 0x105c9 { return; } else { assert(has_all(true, 0x105c9, 0x105ca)) by (compute_only); has_all_at(true, 0x105c9, 0x105ca, x); return; } } } } } else { if x < 0x107b1 { if x < 0x10781 { if x < 0x105e4 { return; } else { if x < 0x105e5 { assert(has_all(true, 0x105e4, 0x105e5)) by (compute_only); has_all_at(true, 0x105e4, 0x105e5, x); return; } else { return; } } } else { if x < 0x10786 { assert(has_all(true, 0x10781, 0x10786)) by (compute_only); has_all_at(true, 0x10781, 0x10786, x); return; } else { if x < 0x10787 { return; } else { assert(has_all(true, 0x10787, 0x107b1)) by (compute_only); has_all_at(true, 0x10787, 0x107b1, x); return; } } } } else { if x < 0x1109a { if x < 0x107b2 { return; } else { if x < 0x107bb { assert(has_all(true, 0x107b2, 0x107bb)) by (compute_only); has_all_at(true, 0x107b2, 0x107bb, x); return; } else { return; } } } else { if x < 0x1109b { assert(has_all(true, 0x1109a, 0x1109b)) by (compute_only); has_all_at(true, 0x1109a, 0x1109b, x); return; } else { if x < 0x1109c { return; } else { assert(has_all(true, 0x1109c, 0x1109d)) by (compute_only); has_all_at(true, 0x1109c, 0x1109d, x); return; } } } } } }
proof fn no_nfkd_27(x: int) requires 0x1109d <= x < 0x115bc, qt_nfkd_27(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1138f { if x < 0x1134d { if x < 0x1112e { if x < 0x110ab { return; } else { if x < 0x110ac { assert(has_all(true, 0x110ab, 0x110ac)) by (compute_only); has_all_at(true, 0x110ab, 0x110ac, x); return; } else { return; } } } else { if x < 0x11130 { assert(has_all(true, 0x1112e, 0x11130)) by (compute_only); has_all_at(true, 0x1112e, 0x11130, x); return; } else { if x < 0x1134b { return; } else { assert(has_all(true, 0x1134b, 0x1134d)) by (compute_only); has_all_at(true, 0x1134b, 0x1134d, x); return; } } } } else { if x < 0x11385 { if x < 0x11383 { return; } else { if x < 0x11384 { assert(has_all(true, 0x11383, 0x11384)) by (compute_only); has_all_at(true, 0x11383, 0x11384, x); return; } else { return; } } } else { if x < 0x11386 { assert(has_all(true, 0x11385, 0x11386)) by (compute_only); has_all_at(true, 0x11385, 0x11386, x); return; } else { if x < 0x1138e { return; } else { assert(has_all(true, 0x1138e, 0x1138f)) by (compute_only); has_all_at(true, 0x1138e, 0x1138f, x); return; } } } } } else { if x < 0x113c9 { if x < 0x113c5 { if x < 0x11391 { return; } else { if x < 0x11392 { assert(has_all(true, 0x11391, 0x11392)) by (compute_only); has_all_at(true, 0x11391, 0x11392, x); return; } else { return; } } } else { if x < 0x113c6 { assert(has_all(true, 0x113c5, 0x113c6)) by (compute_only); has_all_at(true, 0x113c5, 0x113c6, x); return; } else { if x < 0x113c7 { return; } else { assert(has_all(true, 0x113c7, 0x113c9)) by (compute_only); has_all_at(true, 0x113c7, 0x113c9, x); return; } } } } else { if x < 0x114be { if x < 0x114bb { return; } else { if x < 0x114bd { assert(has_all(true, 0x114bb, 0x114bd)) by (compute_only); has_all_at(true, 0x114bb, 0x114bd, x); return; } else { return; } } } else { if x < 0x114bf { assert(has_all(true, 0x114be, 0x114bf)) by (compute_only); has_all_at(true, 0x114be, 0x114bf, x); return; } else { if x < 0x115ba { return; } else { assert(has_all(true, 0x115ba, 0x115bc)) by (compute_only); has_all_at(true, 0x115ba, 0x115bc, x); return; } } } } } }
proof fn no_nfkd_28(x: int) requires 0x115bc <= x < 0x1d4ad, qt_nfkd_28(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1d1c1 { if x < 0x16d6b { if x < 0x16121 { if x < 0x11938 { return; } else { if x < 0x11939 { assert(has_all(true, 0x11938, 0x11939)) by (compute_only); has_all_at(true, 0x11938, 0x11939, x); return; } else { return; } } } else { if x < 0x16129 { assert(has_all(true, 0x16121, 0x16129)) by (compute_only); has_all_at(true, 0x16121, 0x16129, x); return; } else { if x < 0x16d68 { return; } else { assert(has_all(true, 0x16d68, 0x16d6b)) by (compute_only); has_all_at(true, 0x16d68, 0x16d6b, x); return; } } } } else { if x < 0x1d15e { if x < 0x1ccd6 { return; } else { if x < 0x1ccfa { assert(has_all(true, 0x1ccd6, 0x1ccfa)) by (compute_only); has_all_at(true, 0x1ccd6, 0x1ccfa, x); return; } else { return; } } } else { if x < 0x1d165 { assert(has_all(true, 0x1d15e, 0x1d165)) by (compute_only); has_all_at(true, 0x1d15e, 0x1d165, x); return; } else { if x < 0x1d1bb { return; } else { assert(has_all(true, 0x1d1bb, 0x1d1c1)) by (compute_only); has_all_at(true, 0x1d1bb, 0x1d1c1, x); return; } } } } } else { if x < 0x1d4a0 { if x < 0x1d456 { if x < 0x1d400 { return; } else { if x < 0x1d455 { assert(has_all(true, 0x1d400, 0x1d455)) by (compute_only); has_all_at(true, 0x1d400, 0x1d455, x); return; } else { return; } } } else { if x < 0x1d49d { assert(has_all(true, 0x1d456, 0x1d49d)) by (compute_only); has_all_at(true, 0x1d456, 0x1d49d, x); return; } else { if x < 0x1d49e { return; } else { assert(has_all(true, 0x1d49e, 0x1d4a0)) by (compute_only); has_all_at(true, 0x1d49e, 0x1d4a0, x); return; } } } } else { if x < 0x1d4a5 { if x < 0x1d4a2 { return; } else { if x < 0x1d4a3 { assert(has_all(true, 0x1d4a2, 0x1d4a3)) by (compute_only); has_all_at(true, 0x1d4a2, 0x1d4a3, x); return; } else { return; } } } else { if x < 0x1d4a7 { assert(has_all(true, 0x1d4a5, 0x1d4a7)) by (compute_only); has_all_at(true, 0x1d4a5, 0x1d4a7, x); return; } else { if x < 0x1d4a9 { return; } else { assert(has_all(true, 0x1d4a9, 0x1d4ad)) by (compute_only); has_all_at(true, 0x1d4a9, 0x1d4ad, x); return; } } } } } }
proof fn no_nfkd_29(x: int) requires 0x1d4ad <= x < 0x1d551, qt_nfkd_29(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1d515 { if x < 0x1d4c4 { if x < 0x1d4bb { if x < 0x1d4ae { return; } else { if x < 0x1d4ba { assert(has_all(true, 0x1d4ae, 0x1d4ba)) by (compute_only); has_all_at(true, 0x1d4ae, 0x1d4ba, x); return; } else { return; } } } else { if x < 0x1d4bc { assert(has_all(true, 0x1d4bb, 0x1d4bc)) by (compute_only); has_all_at(true, 0x1d4bb, 0x1d4bc, x); return; } else { if x < 0x1d4bd { return; } else { assert(has_all(true, 0x1d4bd, 0x1d4c4)) by (compute_only); has_all_at(true, 0x1d4bd, 0x1d4c4, x); return; } } } } else { if x < 0x1d507 { if x < 0x1d4c5 { return; } else { if x < 0x1d506 { assert(has_all(true, 0x1d4c5, 0x1d506)) by (compute_only); has_all_at(true, 0x1d4c5, 0x1d506, x); return; } else { return; } } } else { if x < 0x1d50b { assert(has_all(true, 0x1d507, 0x1d50b)) by (compute_only); has_all_at(true, 0x1d507, 0x1d50b, x); return; } else { if x < 0x1d50d { return; } else { assert(has_all(true, 0x1d50d, 0x1d515)) by (compute_only); has_all_at(true, 0x1d50d, 0x1d515, x); return; } } } } } else { if x < 0x1d53f { if x < 0x1d51e { if x < 0x1d516 { return; } else { if x < 0x1d51d { assert(has_all(true, 0x1d516, 0x1d51d)) by (compute_only); has_all_at(true, 0x1d516, 0x1d51d, x); return; } else { return; } } } else { if x < 0x1d53a { assert(has_all(true, 0x1d51e, 0x1d53a)) by (compute_only); has_all_at(true, 0x1d51e, 0x1d53a, x); return; } else { if x < 0x1d53b { return; } else { assert(has_all(true, 0x1d53b, 0x1d53f)) by (compute_only); has_all_at(true, 0x1d53b, 0x1d53f, x); return; } } } } else { if x < 0x1d546 { if x < 0x1d540 { return; } else { if x < 0x1d545 { assert(has_all(true, 0x1d540, 0x1d545)) by (compute_only); has_all_at(true, 0x1d540, 0x1d545, x); return; } else { return; } } } else { if x < 0x1d547 { assert(has_all(true, 0x1d546, 0x1d547)) by (compute_only); has_all_at(true, 0x1d546, 0x1d547, x); return; } else { if x < 0x1d54a { return; } else { assert(has_all(true, 0x1d54a, 0x1d551)) by (compute_only); has_all_at(true, 0x1d54a, 0x1d551, x); return; } } } } } }
proof fn no_nfkd_30(x: int) requires 0x1d551 <= x < 0x1ee3a, qt_nfkd_30(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ee20 { if x < 0x1d800 { if x < 0x1d6a8 { if x < 0x1d552 { return; } else { if x < 0x1d6a6 { assert(has_all(true, 0x1d552, 0x1d6a6)) by (compute_only); has_all_at(true, 0x1d552, 0x1d6a6, x); return; } else { return; } } } else { if x < 0x1d7cc { assert(has_all(true, 0x1d6a8, 0x1d7cc)) by (compute_only); has_all_at(true, 0x1d6a8, 0x1d7cc, x); return; } else { if x < 0x1d7ce { return; } else { assert(has_all(true, 0x1d7ce, 0x1d800)) by (compute_only); has_all_at(true, 0x1d7ce, 0x1d800, x); return; } } } } else { if x < 0x1ee00 { if x < 0x1e030 { return; } else { if x < 0x1e06e { assert(has_all(true, 0x1e030, 0x1e06e)) by (compute_only); has_all_at(true, 0x1e030, 0x1e06e, x); return; } else { return; } } } else { if x < 0x1ee04 { assert(has_all(true, 0x1ee00, 0x1ee04)) by (compute_only); has_all_at(true, 0x1ee00, 0x1ee04, x); return; } else { if x < 0x1ee05 { return; } else { assert(has_all(true, 0x1ee05, 0x1ee20)) by (compute_only); has_all_at(true, 0x1ee05, 0x1ee20, x); return; } } } } } else { if x < 0x1ee28 { if x < 0x1ee24 { if x < 0x1ee21 { return; } else { if x < 0x1ee23 { assert(has_all(true, 0x1ee21, 0x1ee23)) by (compute_only); has_all_at(true, 0x1ee21, 0x1ee23, x); return; } else { return; } } } else { if x < 0x1ee25 { assert(has_all(true, 0x1ee24, 0x1ee25)) by (compute_only); has_all_at(true, 0x1ee24, 0x1ee25, x); return; } else { if x < 0x1ee27 { return; } else { assert(has_all(true, 0x1ee27, 0x1ee28)) by (compute_only); has_all_at(true, 0x1ee27, 0x1ee28, x); return; } } } } else { if x < 0x1ee34 { if x < 0x1ee29 { return; } else { if x < 0x1ee33 { assert(has_all(true, 0x1ee29, 0x1ee33)) by (compute_only); has_all_at(true, 0x1ee29, 0x1ee33, x); return; } else { return; } } } else { if x < 0x1ee38 { assert(has_all(true, 0x1ee34, 0x1ee38)) by (compute_only); has_all_at(true, 0x1ee34, 0x1ee38, x); return; } else { if x < 0x1ee39 { return; } else { assert(has_all(true, 0x1ee39, 0x1ee3a)) by (compute_only); has_all_at(true, 0x1ee39, 0x1ee3a, x); return; } } } } } }
proof fn no_nfkd_31(x: int) requires 0x1ee3a <= x < 0x1ee5e, qt_nfkd_31(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ee50 { if x < 0x1ee48 { if x < 0x1ee42 { if x < 0x1ee3b { return; } else { if x < 0x1ee3c { assert(has_all(true, 0x1ee3b, 0x1ee3c)) by (compute_only); has_all_at(true, 0x1ee3b, 0x1ee3c, x); return; } else { return; } } } else { if x < 0x1ee43 { assert(has_all(true, 0x1ee42, 0x1ee43)) by (compute_only); has_all_at(true, 0x1ee42, 0x1ee43, x); return; } else { if x < 0x1ee47 { return; } else { assert(has_all(true, 0x1ee47, 0x1ee48)) by (compute_only); has_all_at(true, 0x1ee47, 0x1ee48, x); return; } } } } else { if x < 0x1ee4b { if x < 0x1ee49 { return; } else { if x < 0x1ee4a { assert(has_all(true, 0x1ee49, 0x1ee4a)) by (compute_only); has_all_at(true, 0x1ee49, 0x1ee4a, x); return; } else { return; } } } else { if x < 0x1ee4c { assert(has_all(true, 0x1ee4b, 0x1ee4c)) by (compute_only); has_all_at(true, 0x1ee4b, 0x1ee4c, x); return; } else { if x < 0x1ee4d { return; } else { assert(has_all(true, 0x1ee4d, 0x1ee50)) by (compute_only); has_all_at(true, 0x1ee4d, 0x1ee50, x); return; } } } } } else { if x < 0x1ee58 { if x < 0x1ee54 { if x < 0x1ee51 { return; } else { if x < 0x1ee53 { assert(has_all(true, 0x1ee51, 0x1ee53)) by (compute_only); has_all_at(true, 0x1ee51, 0x1ee53, x); return; } else { return; } } } else { if x < 0x1ee55 { assert(has_all(true, 0x1ee54, 0x1ee55)) by (compute_only); has_all_at(true, 0x1ee54, 0x1ee55, x); return; } else { if x < 0x1ee57 { return; } else { assert(has_all(true, 0x1ee57, 0x1ee58)) by (compute_only); has_all_at(true, 0x1ee57, 0x1ee58, x); return; } } } } else { if x < 0x1ee5b { if x < 0x1ee59 { return; } else { if x < 0x1ee5a { assert(has_all(true, 0x1ee59, 0x1ee5a)) by (compute_only); has_all_at(true, 0x1ee59, 0x1ee5a, x); return; } else { return; } } } else { if x < 0x1ee5c { assert(has_all(true, 0x1ee5b, 0x1ee5c)) by (compute_only); has_all_at(true, 0x1ee5b, 0x1ee5c, x); return; } else { if x < 0x1ee5d { return; } else { assert(has_all(true, 0x1ee5d, 0x1ee5e)) by (compute_only); has_all_at(true, 0x1ee5d, 0x1ee5e, x); return; } } } } } }
proof fn no_nfkd_32(x: int) requires 0x1ee5e <= x < 0x1eeaa, qt_nfkd_32(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ee78 { if x < 0x1ee65 { if x < 0x1ee61 { if x < 0x1ee5f { return; } else { if x < 0x1ee60 { assert(has_all(true, 0x1ee5f, 0x1ee60)) by (compute_only); has_all_at(true, 0x1ee5f, 0x1ee60, x); return; } else { return; } } } else { if x < 0x1ee63 { assert(has_all(true, 0x1ee61, 0x1ee63)) by (compute_only); has_all_at(true, 0x1ee61, 0x1ee63, x); return; } else { if x < 0x1ee64 { return; } else { assert(has_all(true, 0x1ee64, 0x1ee65)) by (compute_only); has_all_at(true, 0x1ee64, 0x1ee65, x); return; } } } } else { if x < 0x1ee6c { if x < 0x1ee67 { return; } else { if x < 0x1ee6b { assert(has_all(true, 0x1ee67, 0x1ee6b)) by (compute_only); has_all_at(true, 0x1ee67, 0x1ee6b, x); return; } else { return; } } } else { if x < 0x1ee73 { assert(has_all(true, 0x1ee6c, 0x1ee73)) by (compute_only); has_all_at(true, 0x1ee6c, 0x1ee73, x); return; } else { if x < 0x1ee74 { return; } else { assert(has_all(true, 0x1ee74, 0x1ee78)) by (compute_only); has_all_at(true, 0x1ee74, 0x1ee78, x); return; } } } } } else { if x < 0x1ee8a { if x < 0x1ee7e { if x < 0x1ee79 { return; } else { if x < 0x1ee7d { assert(has_all(true, 0x1ee79, 0x1ee7d)) by (compute_only); has_all_at(true, 0x1ee79, 0x1ee7d, x); return; } else { return; } } } else { if x < 0x1ee7f { assert(has_all(true, 0x1ee7e, 0x1ee7f)) by (compute_only); has_all_at(true, 0x1ee7e, 0x1ee7f, x); return; } else { if x < 0x1ee80 { return; } else { assert(has_all(true, 0x1ee80, 0x1ee8a)) by (compute_only); has_all_at(true, 0x1ee80, 0x1ee8a, x); return; } } } } else { if x < 0x1eea1 { if x < 0x1ee8b { return; } else { if x < 0x1ee9c { assert(has_all(true, 0x1ee8b, 0x1ee9c)) by (compute_only); has_all_at(true, 0x1ee8b, 0x1ee9c, x); return; } else { return; } } } else { if x < 0x1eea4 { assert(has_all(true, 0x1eea1, 0x1eea4)) by (compute_only); has_all_at(true, 0x1eea1, 0x1eea4, x); return; } else { if x < 0x1eea5 { return; } else { assert(has_all(true, 0x1eea5, 0x1eeaa)) by (compute_only); has_all_at(true, 0x1eea5, 0x1eeaa, x); return; } } } } } }
proof fn no_nfkd_33(x: int) requires 0x1eeaa <= x < 0x2fa1e, qt_nfkd_33(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1f191 { if x < 0x1f12f { if x < 0x1f100 { if x < 0x1eeab { return; } else { if x < 0x1eebc { assert(has_all(true, 0x1eeab, 0x1eebc)) by (compute_only); has_all_at(true, 0x1eeab, 0x1eebc, x); return; } else { return; } } } else { if x < 0x1f10b { assert(has_all(true, 0x1f100, 0x1f10b)) by (compute_only); has_all_at(true, 0x1f100, 0x1f10b, x); return; } else { if x < 0x1f110 { return; } else { assert(has_all(true, 0x1f110, 0x1f12f)) by (compute_only); has_all_at(true, 0x1f110, 0x1f12f, x); return; } } } } else { if x < 0x1f16a { if x < 0x1f130 { return; } else { if x < 0x1f150 { assert(has_all(true, 0x1f130, 0x1f150)) by (compute_only); has_all_at(true, 0x1f130, 0x1f150, x); return; } else { return; } } } else { if x < 0x1f16d { assert(has_all(true, 0x1f16a, 0x1f16d)) by (compute_only); has_all_at(true, 0x1f16a, 0x1f16d, x); return; } else { if x < 0x1f190 { return; } else { assert(has_all(true, 0x1f190, 0x1f191)) by (compute_only); has_all_at(true, 0x1f190, 0x1f191, x); return; } } } } } else { if x < 0x1f249 { if x < 0x1f210 { if x < 0x1f200 { return; } else { if x < 0x1f203 { assert(has_all(true, 0x1f200, 0x1f203)) by (compute_only); has_all_at(true, 0x1f200, 0x1f203, x); return; } else { return; } } } else { if x < 0x1f23c { assert(has_all(true, 0x1f210, 0x1f23c)) by (compute_only); has_all_at(true, 0x1f210, 0x1f23c, x); return; } else { if x < 0x1f240 { return; } else { assert(has_all(true, 0x1f240, 0x1f249)) by (compute_only); has_all_at(true, 0x1f240, 0x1f249, x); return; } } } } else { if x < 0x1fbf0 { if x < 0x1f250 { return; } else { if x < 0x1f252 { assert(has_all(true, 0x1f250, 0x1f252)) by (compute_only); has_all_at(true, 0x1f250, 0x1f252, x); return; } else { return; } } } else { if x < 0x1fbfa { assert(has_all(true, 0x1fbf0, 0x1fbfa)) by (compute_only); has_all_at(true, 0x1fbf0, 0x1fbfa, x); return; } else { if x < 0x2f800 { return; } else { assert(has_all(true, 0x2f800, 0x2fa1e)) by (compute_only); has_all_at(true, 0x2f800, 0x2fa1e, x); return; } } } } } }
proof fn no_nfkd_34(x: int) requires 0x2fa1e <= x < 0x110000, qt_nfkd_34(x) == 1 ensures hang_i(x) || has_i(true, x) { return; }
pub proof fn no_nfkd(x: int) requires 0 <= x < 0x110000, qt_nfkd(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2286 { if x < 0xddf { if x < 0x3f6 { if x < 0x180 { if x < 0xe6 { no_nfkd_0(x); } else { no_nfkd_1(x); } } else { if x < 0x342 { no_nfkd_2(x); } else { no_nfkd_3(x); } } } else { if x < 0x6c3 { if x < 0x478 { no_nfkd_4(x); } else { no_nfkd_5(x); } } else { if x < 0xa5f { no_nfkd_6(x); } else { no_nfkd_7(x); } } } } else { if x < 0x1f7e { if x < 0x1b0b { if x < 0xf7a { no_nfkd_8(x); } else { no_nfkd_9(x); } } else { if x < 0x1d79 { no_nfkd_10(x); } else { no_nfkd_11(x); } } } else { if x < 0x2104 { if x < 0x2030 { no_nfkd_12(x); } else { no_nfkd_13(x); } } else { if x < 0x2141 { no_nfkd_14(x); } else { if x < 0x222e { no_nfkd_15(x); } else { no_nfkd_16(x); } } } } } } else { if x < 0xffc8 { if x < 0x30bb { if x < 0x3059 { if x < 0x2ea0 { no_nfkd_17(x); } else { no_nfkd_18(x); } } else { if x < 0x307b { no_nfkd_19(x); } else { no_nfkd_20(x); } } } else { if x < 0xa7f5 { if x < 0x30de { no_nfkd_21(x); } else { no_nfkd_22(x); } } else { if x < 0xfa6e { no_nfkd_23(x); } else { if x < 0xfd90 { no_nfkd_24(x); } else { no_nfkd_25(x); } } } } } else { if x < 0x1d551 { if x < 0x115bc { if x < 0x1109d { no_nfkd_26(x); } else { no_nfkd_27(x); } } else { if x < 0x1d4ad { no_nfkd_28(x); } else { no_nfkd_29(x); } } } else { if x < 0x1ee5e { if x < 0x1ee3a { no_nfkd_30(x); } else { no_nfkd_31(x); } } else { if x < 0x1eeaa { no_nfkd_32(x); } else { if x < 0x2fa1e { no_nfkd_33(x); } else { no_nfkd_34(x); } } } } } } }
proof fn no_nfc_0(x: int) requires 0x0 <= x < 0x345, qt_nfc_0(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x31c { if x < 0x310 { if x < 0x306 { if x < 0x300 { return; } else { if x < 0x305 { return; } else { return; } } } else { if x < 0x30d { return; } else { if x < 0x30f { return; } else { return; } } } } else { if x < 0x313 { if x < 0x311 { return; } else { if x < 0x312 { return; } else { return; } } } else { if x < 0x315 { return; } else { if x < 0x31b { return; } else { return; } } } } } else { if x < 0x332 { if x < 0x32d { if x < 0x323 { return; } else { if x < 0x329 { return; } else { return; } } } else { if x < 0x32f { return; } else { if x < 0x330 { return; } else { return; } } } } else { if x < 0x340 { if x < 0x338 { return; } else { if x < 0x339 { return; } else { return; } } } else { if x < 0x342 { assert(has_all(false, 0x340, 0x342)) by (compute_only); has_all_at(false, 0x340, 0x342, x); return; } else { if x < 0x343 { return; } else { assert(has_all(false, 0x343, 0x345)) by (compute_only); has_all_at(false, 0x343, 0x345, x); return; } } } } } }
proof fn no_nfc_1(x: int) requires 0x345 <= x < 0xa36, qt_nfc_1(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x958 { if x < 0x387 { if x < 0x375 { if x < 0x346 { return; } else { if x < 0x374 { return; } else { assert(has_all(false, 0x374, 0x375)) by (compute_only); has_all_at(false, 0x374, 0x375, x); return; } } } else { if x < 0x37e { return; } else { if x < 0x37f { assert(has_all(false, 0x37e, 0x37f)) by (compute_only); has_all_at(false, 0x37e, 0x37f, x); return; } else { return; } } } } else { if x < 0x656 { if x < 0x388 { assert(has_all(false, 0x387, 0x388)) by (compute_only); has_all_at(false, 0x387, 0x388, x); return; } else { if x < 0x653 { return; } else { return; } } } else { if x < 0x93c { return; } else { if x < 0x93d { return; } else { return; } } } } } else { if x < 0x9dc { if x < 0x9bf { if x < 0x960 { assert(has_all(false, 0x958, 0x960)) by (compute_only); has_all_at(false, 0x958, 0x960, x); return; } else { if x < 0x9be { return; } else { return; } } } else { if x < 0x9d7 { return; } else { if x < 0x9d8 { return; } else { return; } } } } else { if x < 0x9e0 { if x < 0x9de { assert(has_all(false, 0x9dc, 0x9de)) by (compute_only); has_all_at(false, 0x9dc, 0x9de, x); return; } else { if x < 0x9df { return; } else { assert(has_all(false, 0x9df, 0x9e0)) by (compute_only); has_all_at(false, 0x9df, 0x9e0, x); return; } } } else { if x < 0xa33 { return; } else { if x < 0xa34 { assert(has_all(false, 0xa33, 0xa34)) by (compute_only); has_all_at(false, 0xa33, 0xa34, x); return; } else { return; } } } } } }
proof fn no_nfc_2(x: int) requires 0xa36 <= x < 0xd57, qt_nfc_2(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xbbe { if x < 0xb3e { if x < 0xa5c { if x < 0xa37 { assert(has_all(false, 0xa36, 0xa37)) by (compute_only); has_all_at(false, 0xa36, 0xa37, x); return; } else { if x < 0xa59 { return; } else { assert(has_all(false, 0xa59, 0xa5c)) by (compute_only); has_all_at(false, 0xa59, 0xa5c, x); return; } } } else { if x < 0xa5e { return; } else { if x < 0xa5f { assert(has_all(false, 0xa5e, 0xa5f)) by (compute_only); has_all_at(false, 0xa5e, 0xa5f, x); return; } else { return; } } } } else { if x < 0xb58 { if x < 0xb3f { return; } else { if x < 0xb56 { return; } else { return; } } } else { if x < 0xb5c { return; } else { if x < 0xb5e { assert(has_all(false, 0xb5c, 0xb5e)) by (compute_only); has_all_at(false, 0xb5c, 0xb5e, x); return; } else { return; } } } } } else { if x < 0xcc2 { if x < 0xbd8 { if x < 0xbbf { return; } else { if x < 0xbd7 { return; } else { return; } } } else { if x < 0xc56 { return; } else { if x < 0xc57 { return; } else { return; } } } } else { if x < 0xcd7 { if x < 0xcc3 { return; } else { if x < 0xcd5 { return; } else { return; } } } else { if x < 0xd3e { return; } else { if x < 0xd3f { return; } else { return; } } } } } }
proof fn no_nfc_3(x: int) requires 0xd57 <= x < 0xf78, qt_nfc_3(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xf52 { if x < 0xddf { if x < 0xdcb { if x < 0xd58 { return; } else { if x < 0xdca { return; } else { return; } } } else { if x < 0xdcf { return; } else { if x < 0xdd0 { return; } else { return; } } } } else { if x < 0xf44 { if x < 0xde0 { return; } else { if x < 0xf43 { return; } else { assert(has_all(false, 0xf43, 0xf44)) by (compute_only); has_all_at(false, 0xf43, 0xf44, x); return; } } } else { if x < 0xf4d { return; } else { if x < 0xf4e { assert(has_all(false, 0xf4d, 0xf4e)) by (compute_only); has_all_at(false, 0xf4d, 0xf4e, x); return; } else { return; } } } } } else { if x < 0xf69 { if x < 0xf58 { if x < 0xf53 { assert(has_all(false, 0xf52, 0xf53)) by (compute_only); has_all_at(false, 0xf52, 0xf53, x); return; } else { if x < 0xf57 { return; } else { assert(has_all(false, 0xf57, 0xf58)) by (compute_only); has_all_at(false, 0xf57, 0xf58, x); return; } } } else { if x < 0xf5c { return; } else { if x < 0xf5d { assert(has_all(false, 0xf5c, 0xf5d)) by (compute_only); has_all_at(false, 0xf5c, 0xf5d, x); return; } else { return; } } } } else { if x < 0xf74 { if x < 0xf6a { assert(has_all(false, 0xf69, 0xf6a)) by (compute_only); has_all_at(false, 0xf69, 0xf6a, x); return; } else { if x < 0xf73 { return; } else { assert(has_all(false, 0xf73, 0xf74)) by (compute_only); has_all_at(false, 0xf73, 0xf74, x); return; } } } else { if x < 0xf75 { return; } else { if x < 0xf77 { assert(has_all(false, 0xf75, 0xf77)) by (compute_only); has_all_at(false, 0xf75, 0xf77, x); return; } else { return; } } } } } }
proof fn no_nfc_4(x: int) requires 0xf78 <= x < 0x1f71, qt_nfc_4(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xfac { if x < 0xf9d { if x < 0xf82 { if x < 0xf79 { assert(has_all(false, 0xf78, 0xf79)) by (compute_only); has_all_at(false, 0xf78, 0xf79, x); return; } else { if x < 0xf81 { return; } else { assert(has_all(false, 0xf81, 0xf82)) by (compute_only); has_all_at(false, 0xf81, 0xf82, x); return; } } } else { if x < 0xf93 { return; } else { if x < 0xf94 { assert(has_all(false, 0xf93, 0xf94)) by (compute_only); has_all_at(false, 0xf93, 0xf94, x); return; } else { return; } } } } else { if x < 0xfa3 { if x < 0xf9e { assert(has_all(false, 0xf9d, 0xf9e)) by (compute_only); has_all_at(false, 0xf9d, 0xf9e, x); return; } else { if x < 0xfa2 { return; } else { assert(has_all(false, 0xfa2, 0xfa3)) by (compute_only); has_all_at(false, 0xfa2, 0xfa3, x); return; } } } else { if x < 0xfa7 { return; } else { if x < 0xfa8 { assert(has_all(false, 0xfa7, 0xfa8)) by (compute_only); has_all_at(false, 0xfa7, 0xfa8, x); return; } else { return; } } } } } else { if x < 0x1161 { if x < 0xfba { if x < 0xfad { assert(has_all(false, 0xfac, 0xfad)) by (compute_only); has_all_at(false, 0xfac, 0xfad, x); return; } else { if x < 0xfb9 { return; } else { assert(has_all(false, 0xfb9, 0xfba)) by (compute_only); has_all_at(false, 0xfb9, 0xfba, x); return; } } } else { if x < 0x102e { return; } else { if x < 0x102f { return; } else { return; } } } } else { if x < 0x11c3 { if x < 0x1176 { return; } else { if x < 0x11a8 { return; } else { return; } } } else { if x < 0x1b35 { return; } else { if x < 0x1b36 { return; } else { return; } } } } } }
proof fn no_nfc_5(x: int) requires 0x1f71 <= x < 0x1fdb, qt_nfc_5(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1f7d { if x < 0x1f77 { if x < 0x1f74 { if x < 0x1f72 { assert(has_all(false, 0x1f71, 0x1f72)) by (compute_only); has_all_at(false, 0x1f71, 0x1f72, x); return; } else { if x < 0x1f73 { return; } else { assert(has_all(false, 0x1f73, 0x1f74)) by (compute_only); has_all_at(false, 0x1f73, 0x1f74, x); return; } } } else { if x < 0x1f75 { return; } else { if x < 0x1f76 { assert(has_all(false, 0x1f75, 0x1f76)) by (compute_only); has_all_at(false, 0x1f75, 0x1f76, x); return; } else { return; } } } } else { if x < 0x1f7a { if x < 0x1f78 { assert(has_all(false, 0x1f77, 0x1f78)) by (compute_only); has_all_at(false, 0x1f77, 0x1f78, x); return; } else { if x < 0x1f79 { return; } else { assert(has_all(false, 0x1f79, 0x1f7a)) by (compute_only); has_all_at(false, 0x1f79, 0x1f7a, x); return; } } } else { if x < 0x1f7b { return; } else { if x < 0x1f7c { assert(has_all(false, 0x1f7b, 0x1f7c)) by (compute_only); has_all_at(false, 0x1f7b, 0x1f7c, x); return; } else { return; } } } } } else { if x < 0x1fc9 { if x < 0x1fbc { if x < 0x1f7e { assert(has_all(false, 0x1f7d, 0x1f7e)) by (compute_only); has_all_at(false, 0x1f7d, 0x1f7e, x); return; } else { if x < 0x1fbb { return; } else { assert(has_all(false, 0x1fbb, 0x1fbc)) by (compute_only); has_all_at(false, 0x1fbb, 0x1fbc, x); return; } } } else { if x < 0x1fbe { return; } else { if x < 0x1fbf { assert(has_all(false, 0x1fbe, 0x1fbf)) by (compute_only); has_all_at(false, 0x1fbe, 0x1fbf, x); return; } else { return; } } } } else { if x < 0x1fcc { if x < 0x1fca { assert(has_all(false, 0x1fc9, 0x1fca)) by (compute_only); has_all_at(false, 0x1fc9, 0x1fca, x); return; } else { if x < 0x1fcb { return; } else { assert(has_all(false, 0x1fcb, 0x1fcc)) by (compute_only); has_all_at(false, 0x1fcb, 0x1fcc, x); return; } } } else { if x < 0x1fd3 { return; } else { if x < 0x1fd4 { assert(has_all(false, 0x1fd3, 0x1fd4)) by (compute_only); has_all_at(false, 0x1fd3, 0x1fd4, x); return; } else { return; } } } } } }
proof fn no_nfc_6(x: int) requires 0x1fdb <= x < 0x3099, qt_nfc_6(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1ffd { if x < 0x1fee { if x < 0x1fe4 { if x < 0x1fdc { assert(has_all(false, 0x1fdb, 0x1fdc)) by (compute_only); has_all_at(false, 0x1fdb, 0x1fdc, x); return; } else { if x < 0x1fe3 { return; } else { assert(has_all(false, 0x1fe3, 0x1fe4)) by (compute_only); has_all_at(false, 0x1fe3, 0x1fe4, x); return; } } } else { if x < 0x1feb { return; } else { if x < 0x1fec { assert(has_all(false, 0x1feb, 0x1fec)) by (compute_only); has_all_at(false, 0x1feb, 0x1fec, x); return; } else { return; } } } } else { if x < 0x1ffa { if x < 0x1ff0 { assert(has_all(false, 0x1fee, 0x1ff0)) by (compute_only); has_all_at(false, 0x1fee, 0x1ff0, x); return; } else { if x < 0x1ff9 { return; } else { assert(has_all(false, 0x1ff9, 0x1ffa)) by (compute_only); has_all_at(false, 0x1ff9, 0x1ffa, x); return; } } } else { if x < 0x1ffb { return; } else { if x < 0x1ffc { assert(has_all(false, 0x1ffb, 0x1ffc)) by (compute_only); has_all_at(false, 0x1ffb, 0x1ffc, x); return; } else { return; } } } } } else { if x < 0x212a { if x < 0x2002 { if x < 0x1ffe { assert(has_all(false, 0x1ffd, 0x1ffe)) by (compute_only); has_all_at(false, 0x1ffd, 0x1ffe, x); return; } else { if x < 0x2000 { return; } else { assert(has_all(false, 0x2000, 0x2002)) by (compute_only); has_all_at(false, 0x2000, 0x2002, x); return; } } } else { if x < 0x2126 { return; } else { if x < 0x2127 { assert(has_all(false, 0x2126, 0x2127)) by (compute_only); has_all_at(false, 0x2126, 0x2127, x); return; } else { return; } } } } else { if x < 0x232b { if x < 0x212c { assert(has_all(false, 0x212a, 0x212c)) by (compute_only); has_all_at(false, 0x212a, 0x212c, x); return; } else { if x < 0x2329 { return; } else { assert(has_all(false, 0x2329, 0x232b)) by (compute_only); has_all_at(false, 0x2329, 0x232b, x); return; } } } else { if x < 0x2adc { return; } else { if x < 0x2add { assert(has_all(false, 0x2adc, 0x2add)) by (compute_only); has_all_at(false, 0x2adc, 0x2add, x); return; } else { return; } } } } } }
proof fn no_nfc_7(x: int) requires 0x3099 <= x < 0xfb2a, qt_nfc_7(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0xfa22 { if x < 0xfa12 { if x < 0xfa0e { if x < 0x309b { return; } else { if x < 0xf900 { return; } else { assert(has_all(false, 0xf900, 0xfa0e)) by (compute_only); has_all_at(false, 0xf900, 0xfa0e, x); return; } } } else { if x < 0xfa10 { return; } else { if x < 0xfa11 { assert(has_all(false, 0xfa10, 0xfa11)) by (compute_only); has_all_at(false, 0xfa10, 0xfa11, x); return; } else { return; } } } } else { if x < 0xfa1f { if x < 0xfa13 { assert(has_all(false, 0xfa12, 0xfa13)) by (compute_only); has_all_at(false, 0xfa12, 0xfa13, x); return; } else { if x < 0xfa15 { return; } else { assert(has_all(false, 0xfa15, 0xfa1f)) by (compute_only); has_all_at(false, 0xfa15, 0xfa1f, x); return; } } } else { if x < 0xfa20 { return; } else { if x < 0xfa21 { assert(has_all(false, 0xfa20, 0xfa21)) by (compute_only); has_all_at(false, 0xfa20, 0xfa21, x); return; } else { return; } } } } } else { if x < 0xfa70 { if x < 0xfa27 { if x < 0xfa23 { assert(has_all(false, 0xfa22, 0xfa23)) by (compute_only); has_all_at(false, 0xfa22, 0xfa23, x); return; } else { if x < 0xfa25 { return; } else { assert(has_all(false, 0xfa25, 0xfa27)) by (compute_only); has_all_at(false, 0xfa25, 0xfa27, x); return; } } } else { if x < 0xfa2a { return; } else { if x < 0xfa6e { assert(has_all(false, 0xfa2a, 0xfa6e)) by (compute_only); has_all_at(false, 0xfa2a, 0xfa6e, x); return; } else { return; } } } } else { if x < 0xfb1e { if x < 0xfada { assert(has_all(false, 0xfa70, 0xfada)) by (compute_only); has_all_at(false, 0xfa70, 0xfada, x); return; } else { if x < 0xfb1d { return; } else { assert(has_all(false, 0xfb1d, 0xfb1e)) by (compute_only); has_all_at(false, 0xfb1d, 0xfb1e, x); return; } } } else { if x < 0xfb1f { return; } else { if x < 0xfb20 { assert(has_all(false, 0xfb1f, 0xfb20)) by (compute_only); has_all_at(false, 0xfb1f, 0xfb20, x); return; } else { return; } } } } } }
proof fn no_nfc_8(x: int) requires 0xfb2a <= x < 0x113c2, qt_nfc_8(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x110ba { if x < 0xfb40 { if x < 0xfb3d { if x < 0xfb37 { assert(has_all(false, 0xfb2a, 0xfb37)) by (compute_only); has_all_at(false, 0xfb2a, 0xfb37, x); return; } else { if x < 0xfb38 { return; } else { assert(has_all(false, 0xfb38, 0xfb3d)) by (compute_only); has_all_at(false, 0xfb38, 0xfb3d, x); return; } } } else { if x < 0xfb3e { return; } else { if x < 0xfb3f { assert(has_all(false, 0xfb3e, 0xfb3f)) by (compute_only); has_all_at(false, 0xfb3e, 0xfb3f, x); return; } else { return; } } } } else { if x < 0xfb45 { if x < 0xfb42 { assert(has_all(false, 0xfb40, 0xfb42)) by (compute_only); has_all_at(false, 0xfb40, 0xfb42, x); return; } else { if x < 0xfb43 { return; } else { assert(has_all(false, 0xfb43, 0xfb45)) by (compute_only); has_all_at(false, 0xfb43, 0xfb45, x); return; } } } else { if x < 0xfb46 { return; } else { if x < 0xfb4f { assert(has_all(false, 0xfb46, 0xfb4f)) by (compute_only); has_all_at(false, 0xfb46, 0xfb4f, x); return; } else { return; } } } } } else { if x < 0x11357 { if x < 0x11128 { if x < 0x110bb { return; } else { if x < 0x11127 { return; } else { return; } } } else { if x < 0x1133e { return; } else { if x < 0x1133f { return; } else { return; } } } } else { if x < 0x113b9 { if x < 0x11358 { return; } else { if x < 0x113b8 { return; } else { return; } } } else { if x < 0x113bb { return; } else { if x < 0x113bc { return; } else { return; } } } } } }
proof fn no_nfc_9(x: int) requires 0x113c2 <= x < 0x2f800, qt_nfc_9(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x115af { if x < 0x114b0 { if x < 0x113c6 { if x < 0x113c3 { return; } else { if x < 0x113c5 { return; } else { return; } } } else { if x < 0x113c7 { return; } else { if x < 0x113ca { return; } else { return; } } } } else { if x < 0x114bb { if x < 0x114b1 { return; } else { if x < 0x114ba { return; } else { return; } } } else { if x < 0x114bd { return; } else { if x < 0x114be { return; } else { return; } } } } } else { if x < 0x16d67 { if x < 0x11931 { if x < 0x115b0 { return; } else { if x < 0x11930 { return; } else { return; } } } else { if x < 0x1611e { return; } else { if x < 0x1612a { return; } else { return; } } } } else { if x < 0x1d165 { if x < 0x16d69 { return; } else { if x < 0x1d15e { return; } else { assert(has_all(false, 0x1d15e, 0x1d165)) by (compute_only); has_all_at(false, 0x1d15e, 0x1d165, x); return; } } } else { if x < 0x1d1bb { return; } else { if x < 0x1d1c1 { assert(has_all(false, 0x1d1bb, 0x1d1c1)) by (compute_only); has_all_at(false, 0x1d1bb, 0x1d1c1, x); return; } else { return; } } } } } }
proof fn no_nfc_10(x: int) requires 0x2f800 <= x < 0x110000, qt_nfc_10(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x2fa1e { assert(has_all(false, 0x2f800, 0x2fa1e)) by (compute_only); has_all_at(false, 0x2f800, 0x2fa1e, x); return; } else { return; } }
pub proof fn no_nfc(x: int) requires 0 <= x < 0x110000, qt_nfc(x) == 1 ensures hang_i(x) || has_i(false, x) { if x < 0x1f71 { if x < 0xa36 { if x < 0x345 { no_nfc_0(x); } else { no_nfc_1(x); } } else { if x < 0xd57 { no_nfc_2(x); } else { if x < 0xf78 { no_nfc_3(x); } else { no_nfc_4(x); } } } } else { if x < 0xfb2a { if x < 0x1fdb { no_nfc_5(x); } else { if x < 0x3099 { no_nfc_6(x); } else { no_nfc_7(x); } } } else { if x < 0x113c2 { no_nfc_8(x); } else { if x < 0x2f800 { no_nfc_9(x); } else { no_nfc_10(x); } } } } }
proof fn no_nfkc_0(x: int) requires 0x0 <= x < 0x1cd, qt_nfkc_0(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xbb { if x < 0xab { if x < 0xa8 { if x < 0xa0 { return; } else { if x < 0xa1 { assert(has_all(true, 0xa0, 0xa1)) by (compute_only); has_all_at(true, 0xa0, 0xa1, x); return; } else { return; } } } else { if x < 0xa9 { assert(has_all(true, 0xa8, 0xa9)) by (compute_only); has_all_at(true, 0xa8, 0xa9, x); return; } else { if x < 0xaa { return; } else { assert(has_all(true, 0xaa, 0xab)) by (compute_only); has_all_at(true, 0xaa, 0xab, x); return; } } } } else { if x < 0xb2 { if x < 0xaf { return; } else { if x < 0xb0 { assert(has_all(true, 0xaf, 0xb0)) by (compute_only); has_all_at(true, 0xaf, 0xb0, x); return; } else { return; } } } else { if x < 0xb6 { assert(has_all(true, 0xb2, 0xb6)) by (compute_only); has_all_at(true, 0xb2, 0xb6, x); return; } else { if x < 0xb8 { return; } else { assert(has_all(true, 0xb8, 0xbb)) by (compute_only); has_all_at(true, 0xb8, 0xbb, x); return; } } } } } else { if x < 0x141 { if x < 0x132 { if x < 0xbc { return; } else { if x < 0xbf { assert(has_all(true, 0xbc, 0xbf)) by (compute_only); has_all_at(true, 0xbc, 0xbf, x); return; } else { return; } } } else { if x < 0x134 { assert(has_all(true, 0x132, 0x134)) by (compute_only); has_all_at(true, 0x132, 0x134, x); return; } else { if x < 0x13f { return; } else { assert(has_all(true, 0x13f, 0x141)) by (compute_only); has_all_at(true, 0x13f, 0x141, x); return; } } } } else { if x < 0x17f { if x < 0x149 { return; } else { if x < 0x14a { assert(has_all(true, 0x149, 0x14a)) by (compute_only); has_all_at(true, 0x149, 0x14a, x); return; } else { return; } } } else { if x < 0x180 { assert(has_all(true, 0x17f, 0x180)) by (compute_only); has_all_at(true, 0x17f, 0x180, x); return; } else { if x < 0x1c4 { return; } else { assert(has_all(true, 0x1c4, 0x1cd)) by (compute_only); has_all_at(true, 0x1c4, 0x1cd, x); return; } } } } } }
proof fn no_nfkc_1(x: int) requires 0x1cd <= x < 0x32f, qt_nfkc_1(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x30d { if x < 0x2de { if x < 0x2b0 { if x < 0x1f1 { return; } else { if x < 0x1f4 { assert(has_all(true, 0x1f1, 0x1f4)) by (compute_only); has_all_at(true, 0x1f1, 0x1f4, x); return; } else { return; } } } else { if x < 0x2b9 { assert(has_all(true, 0x2b0, 0x2b9)) by (compute_only); has_all_at(true, 0x2b0, 0x2b9, x); return; } else { if x < 0x2d8 { return; } else { assert(has_all(true, 0x2d8, 0x2de)) by (compute_only); has_all_at(true, 0x2d8, 0x2de, x); return; } } } } else { if x < 0x300 { if x < 0x2e0 { return; } else { if x < 0x2e5 { assert(has_all(true, 0x2e0, 0x2e5)) by (compute_only); has_all_at(true, 0x2e0, 0x2e5, x); return; } else { return; } } } else { if x < 0x305 { return; } else { if x < 0x306 { return; } else { return; } } } } } else { if x < 0x315 { if x < 0x311 { if x < 0x30f { return; } else { if x < 0x310 { return; } else { return; } } } else { if x < 0x312 { return; } else { if x < 0x313 { return; } else { return; } } } } else { if x < 0x323 { if x < 0x31b { return; } else { if x < 0x31c { return; } else { return; } } } else { if x < 0x329 { return; } else { if x < 0x32d { return; } else { return; } } } } } }
proof fn no_nfkc_2(x: int) requires 0x32f <= x < 0x3f4, qt_nfkc_2(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x37a { if x < 0x342 { if x < 0x338 { if x < 0x330 { return; } else { if x < 0x332 { return; } else { return; } } } else { if x < 0x339 { return; } else { if x < 0x340 { return; } else { assert(has_all(true, 0x340, 0x342)) by (compute_only); has_all_at(true, 0x340, 0x342, x); return; } } } } else { if x < 0x346 { if x < 0x343 { return; } else { if x < 0x345 { assert(has_all(true, 0x343, 0x345)) by (compute_only); has_all_at(true, 0x343, 0x345, x); return; } else { return; } } } else { if x < 0x374 { return; } else { if x < 0x375 { assert(has_all(true, 0x374, 0x375)) by (compute_only); has_all_at(true, 0x374, 0x375, x); return; } else { return; } } } } } else { if x < 0x387 { if x < 0x37f { if x < 0x37b { assert(has_all(true, 0x37a, 0x37b)) by (compute_only); has_all_at(true, 0x37a, 0x37b, x); return; } else { if x < 0x37e { return; } else { assert(has_all(true, 0x37e, 0x37f)) by (compute_only); has_all_at(true, 0x37e, 0x37f, x); return; } } } else { if x < 0x384 { return; } else { if x < 0x386 { assert(has_all(true, 0x384, 0x386)) by (compute_only); has_all_at(true, 0x384, 0x386, x); return; } else { return; } } } } else { if x < 0x3d7 { if x < 0x388 { assert(has_all(true, 0x387, 0x388)) by (compute_only); has_all_at(true, 0x387, 0x388, x); return; } else { if x < 0x3d0 { return; } else { assert(has_all(true, 0x3d0, 0x3d7)) by (compute_only); has_all_at(true, 0x3d0, 0x3d7, x); return; } } } else { if x < 0x3f0 { return; } else { if x < 0x3f3 { assert(has_all(true, 0x3f0, 0x3f3)) by (compute_only); has_all_at(true, 0x3f0, 0x3f3, x); return; } else { return; } } } } } }
proof fn no_nfkc_3(x: int) requires 0x3f4 <= x < 0xa36, qt_nfkc_3(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x958 { if x < 0x653 { if x < 0x3fa { if x < 0x3f6 { assert(has_all(true, 0x3f4, 0x3f6)) by (compute_only); has_all_at(true, 0x3f4, 0x3f6, x); return; } else { if x < 0x3f9 { return; } else { assert(has_all(true, 0x3f9, 0x3fa)) by (compute_only); has_all_at(true, 0x3f9, 0x3fa, x); return; } } } else { if x < 0x587 { return; } else { if x < 0x588 { assert(has_all(true, 0x587, 0x588)) by (compute_only); has_all_at(true, 0x587, 0x588, x); return; } else { return; } } } } else { if x < 0x679 { if x < 0x656 { return; } else { if x < 0x675 { return; } else { assert(has_all(true, 0x675, 0x679)) by (compute_only); has_all_at(true, 0x675, 0x679, x); return; } } } else { if x < 0x93c { return; } else { if x < 0x93d { return; } else { return; } } } } } else { if x < 0x9dc { if x < 0x9bf { if x < 0x960 { assert(has_all(true, 0x958, 0x960)) by (compute_only); has_all_at(true, 0x958, 0x960, x); return; } else { if x < 0x9be { return; } else { return; } } } else { if x < 0x9d7 { return; } else { if x < 0x9d8 { return; } else { return; } } } } else { if x < 0x9e0 { if x < 0x9de { assert(has_all(true, 0x9dc, 0x9de)) by (compute_only); has_all_at(true, 0x9dc, 0x9de, x); return; } else { if x < 0x9df { return; } else { assert(has_all(true, 0x9df, 0x9e0)) by (compute_only); has_all_at(true, 0x9df, 0x9e0, x); return; } } } else { if x < 0xa33 { return; } else { if x < 0xa34 { assert(has_all(true, 0xa33, 0xa34)) by (compute_only); has_all_at(true, 0xa33, 0xa34, x); return; } else { return; } } } } } }
proof fn no_nfkc_4(x: int) requires 0xa36 <= x < 0xd57, qt_nfkc_4(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xbbe { if x < 0xb3e { if x < 0xa5c { if x < 0xa37 { assert(has_all(true, 0xa36, 0xa37)) by (compute_only); has_all_at(true, 0xa36, 0xa37, x); return; } else { if x < 0xa59 { return; } else { assert(has_all(true, 0xa59, 0xa5c)) by (compute_only); has_all_at(true, 0xa59, 0xa5c, x); return; } } } else { if x < 0xa5e { return; } else { if x < 0xa5f { assert(has_all(true, 0xa5e, 0xa5f)) by (compute_only); has_all_at(true, 0xa5e, 0xa5f, x); return; } else { return; } } } } else { if x < 0xb58 { if x < 0xb3f { return; } else { if x < 0xb56 { return; } else { return; } } } else { if x < 0xb5c { return; } else { if x < 0xb5e { assert(has_all(true, 0xb5c, 0xb5e)) by (compute_only); has_all_at(true, 0xb5c, 0xb5e, x); return; } else { return; } } } } } else { if x < 0xcc2 { if x < 0xbd8 { if x < 0xbbf { return; } else { if x < 0xbd7 { return; } else { return; } } } else { if x < 0xc56 { return; } else { if x < 0xc57 { return; } else { return; } } } } else { if x < 0xcd7 { if x < 0xcc3 { return; } else { if x < 0xcd5 { return; } else { return; } } } else { if x < 0xd3e { return; } else { if x < 0xd3f { return; } else { return; } } } } } }
proof fn no_nfkc_5(x: int) requires 0xd57 <= x < 0xf5c, qt_nfkc_5(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xedc { if x < 0xddf { if x < 0xdcb { if x < 0xd58 { return; } else { if x < 0xdca { return; } else { return; } } } else { if x < 0xdcf { return; } else { if x < 0xdd0 { return; } else { return; } } } } else { if x < 0xe34 { if x < 0xde0 { return; } else { if x < 0xe33 { return; } else { assert(has_all(true, 0xe33, 0xe34)) by (compute_only); has_all_at(true, 0xe33, 0xe34, x); return; } } } else { if x < 0xeb3 { return; } else { if x < 0xeb4 { assert(has_all(true, 0xeb3, 0xeb4)) by (compute_only); has_all_at(true, 0xeb3, 0xeb4, x); return; } else { return; } } } } } else { if x < 0xf4d { if x < 0xf0d { if x < 0xede { assert(has_all(true, 0xedc, 0xede)) by (compute_only); has_all_at(true, 0xedc, 0xede, x); return; } else { if x < 0xf0c { return; } else { assert(has_all(true, 0xf0c, 0xf0d)) by (compute_only); has_all_at(true, 0xf0c, 0xf0d, x); return; } } } else { if x < 0xf43 { return; } else { if x < 0xf44 { assert(has_all(true, 0xf43, 0xf44)) by (compute_only); has_all_at(true, 0xf43, 0xf44, x); return; } else { return; } } } } else { if x < 0xf53 { if x < 0xf4e { assert(has_all(true, 0xf4d, 0xf4e)) by (compute_only); has_all_at(true, 0xf4d, 0xf4e, x); return; } else { if x < 0xf52 { return; } else { assert(has_all(true, 0xf52, 0xf53)) by (compute_only); has_all_at(true, 0xf52, 0xf53, x); return; } } } else { if x < 0xf57 { return; } else { if x < 0xf58 { assert(has_all(true, 0xf57, 0xf58)) by (compute_only); has_all_at(true, 0xf57, 0xf58, x); return; } else { return; } } } } } }
proof fn no_nfkc_6(x: int) requires 0xf5c <= x < 0x10fc, qt_nfkc_6(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xf9d { if x < 0xf75 { if x < 0xf6a { if x < 0xf5d { assert(has_all(true, 0xf5c, 0xf5d)) by (compute_only); has_all_at(true, 0xf5c, 0xf5d, x); return; } else { if x < 0xf69 { return; } else { assert(has_all(true, 0xf69, 0xf6a)) by (compute_only); has_all_at(true, 0xf69, 0xf6a, x); return; } } } else { if x < 0xf73 { return; } else { if x < 0xf74 { assert(has_all(true, 0xf73, 0xf74)) by (compute_only); has_all_at(true, 0xf73, 0xf74, x); return; } else { return; } } } } else { if x < 0xf82 { if x < 0xf7a { assert(has_all(true, 0xf75, 0xf7a)) by (compute_only); has_all_at(true, 0xf75, 0xf7a, x); return; } else { if x < 0xf81 { return; } else { assert(has_all(true, 0xf81, 0xf82)) by (compute_only); has_all_at(true, 0xf81, 0xf82, x); return; } } } else { if x < 0xf93 { return; } else { if x < 0xf94 { assert(has_all(true, 0xf93, 0xf94)) by (compute_only); has_all_at(true, 0xf93, 0xf94, x); return; } else { return; } } } } } else { if x < 0xfac { if x < 0xfa3 { if x < 0xf9e { assert(has_all(true, 0xf9d, 0xf9e)) by (compute_only); has_all_at(true, 0xf9d, 0xf9e, x); return; } else { if x < 0xfa2 { return; } else { assert(has_all(true, 0xfa2, 0xfa3)) by (compute_only); has_all_at(true, 0xfa2, 0xfa3, x); return; } } } else { if x < 0xfa7 { return; } else { if x < 0xfa8 { assert(has_all(true, 0xfa7, 0xfa8)) by (compute_only); has_all_at(true, 0xfa7, 0xfa8, x); return; } else { return; } } } } else { if x < 0xfba { if x < 0xfad { assert(has_all(true, 0xfac, 0xfad)) by (compute_only); has_all_at(true, 0xfac, 0xfad, x); return; } else { if x < 0xfb9 { return; } else { assert(has_all(true, 0xfb9, 0xfba)) by (compute_only); has_all_at(true, 0xfb9, 0xfba, x); return; } } } else { if x < 0x102e { return; } else { if x < 0x102f { return; } else { return; } } } } } }
proof fn no_nfkc_7(x: int) requires 0x10fc <= x < 0x1f73, qt_nfkc_7(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1d3c { if x < 0x1b35 { if x < 0x1176 { if x < 0x10fd { assert(has_all(true, 0x10fc, 0x10fd)) by (compute_only); has_all_at(true, 0x10fc, 0x10fd, x); return; } else { if x < 0x1161 { return; } else { return; } } } else { if x < 0x11a8 { return; } else { if x < 0x11c3 { return; } else { return; } } } } else { if x < 0x1d2f { if x < 0x1b36 { return; } else { if x < 0x1d2c { return; } else { assert(has_all(true, 0x1d2c, 0x1d2f)) by (compute_only); has_all_at(true, 0x1d2c, 0x1d2f, x); return; } } } else { if x < 0x1d30 { return; } else { if x < 0x1d3b { assert(has_all(true, 0x1d30, 0x1d3b)) by (compute_only); has_all_at(true, 0x1d30, 0x1d3b, x); return; } else { return; } } } } } else { if x < 0x1d9b { if x < 0x1d6b { if x < 0x1d4e { assert(has_all(true, 0x1d3c, 0x1d4e)) by (compute_only); has_all_at(true, 0x1d3c, 0x1d4e, x); return; } else { if x < 0x1d4f { return; } else { assert(has_all(true, 0x1d4f, 0x1d6b)) by (compute_only); has_all_at(true, 0x1d4f, 0x1d6b, x); return; } } } else { if x < 0x1d78 { return; } else { if x < 0x1d79 { assert(has_all(true, 0x1d78, 0x1d79)) by (compute_only); has_all_at(true, 0x1d78, 0x1d79, x); return; } else { return; } } } } else { if x < 0x1e9c { if x < 0x1dc0 { assert(has_all(true, 0x1d9b, 0x1dc0)) by (compute_only); has_all_at(true, 0x1d9b, 0x1dc0, x); return; } else { if x < 0x1e9a { return; } else { assert(has_all(true, 0x1e9a, 0x1e9c)) by (compute_only); has_all_at(true, 0x1e9a, 0x1e9c, x); return; } } } else { if x < 0x1f71 { return; } else { if x < 0x1f72 { assert(has_all(true, 0x1f71, 0x1f72)) by (compute_only); has_all_at(true, 0x1f71, 0x1f72, x); return; } else { return; } } } } } }
proof fn no_nfkc_8(x: int) requires 0x1f73 <= x < 0x1fdb, qt_nfkc_8(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1fbb { if x < 0x1f79 { if x < 0x1f76 { if x < 0x1f74 { assert(has_all(true, 0x1f73, 0x1f74)) by (compute_only); has_all_at(true, 0x1f73, 0x1f74, x); return; } else { if x < 0x1f75 { return; } else { assert(has_all(true, 0x1f75, 0x1f76)) by (compute_only); has_all_at(true, 0x1f75, 0x1f76, x); return; } } } else { if x < 0x1f77 { return; } else { if x < 0x1f78 { assert(has_all(true, 0x1f77, 0x1f78)) by (compute_only); has_all_at(true, 0x1f77, 0x1f78, x); return; } else { return; } } } } else { if x < 0x1f7c { if x < 0x1f7a { assert(has_all(true, 0x1f79, 0x1f7a)) by (compute_only); has_all_at(true, 0x1f79, 0x1f7a, x); return; } else { if x < 0x1f7b { return; } else { assert(has_all(true, 0x1f7b, 0x1f7c)) by (compute_only); has_all_at(true, 0x1f7b, 0x1f7c, x); return; } } } else { if x < 0x1f7d { return; } else { if x < 0x1f7e { assert(has_all(true, 0x1f7d, 0x1f7e)) by (compute_only); has_all_at(true, 0x1f7d, 0x1f7e, x); return; } else { return; } } } } } else { if x < 0x1fcb { if x < 0x1fc2 { if x < 0x1fbc { assert(has_all(true, 0x1fbb, 0x1fbc)) by (compute_only); has_all_at(true, 0x1fbb, 0x1fbc, x); return; } else { if x < 0x1fbd { return; } else { assert(has_all(true, 0x1fbd, 0x1fc2)) by (compute_only); has_all_at(true, 0x1fbd, 0x1fc2, x); return; } } } else { if x < 0x1fc9 { return; } else { if x < 0x1fca { assert(has_all(true, 0x1fc9, 0x1fca)) by (compute_only); has_all_at(true, 0x1fc9, 0x1fca, x); return; } else { return; } } } } else { if x < 0x1fd0 { if x < 0x1fcc { assert(has_all(true, 0x1fcb, 0x1fcc)) by (compute_only); has_all_at(true, 0x1fcb, 0x1fcc, x); return; } else { if x < 0x1fcd { return; } else { assert(has_all(true, 0x1fcd, 0x1fd0)) by (compute_only); has_all_at(true, 0x1fcd, 0x1fd0, x); return; } } } else { if x < 0x1fd3 { return; } else { if x < 0x1fd4 { assert(has_all(true, 0x1fd3, 0x1fd4)) by (compute_only); has_all_at(true, 0x1fd3, 0x1fd4, x); return; } else { return; } } } } } }
proof fn no_nfkc_9(x: int) requires 0x1fdb <= x < 0x202f, qt_nfkc_9(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ffb { if x < 0x1feb { if x < 0x1fe0 { if x < 0x1fdc { assert(has_all(true, 0x1fdb, 0x1fdc)) by (compute_only); has_all_at(true, 0x1fdb, 0x1fdc, x); return; } else { if x < 0x1fdd { return; } else { assert(has_all(true, 0x1fdd, 0x1fe0)) by (compute_only); has_all_at(true, 0x1fdd, 0x1fe0, x); return; } } } else { if x < 0x1fe3 { return; } else { if x < 0x1fe4 { assert(has_all(true, 0x1fe3, 0x1fe4)) by (compute_only); has_all_at(true, 0x1fe3, 0x1fe4, x); return; } else { return; } } } } else { if x < 0x1ff0 { if x < 0x1fec { assert(has_all(true, 0x1feb, 0x1fec)) by (compute_only); has_all_at(true, 0x1feb, 0x1fec, x); return; } else { if x < 0x1fed { return; } else { assert(has_all(true, 0x1fed, 0x1ff0)) by (compute_only); has_all_at(true, 0x1fed, 0x1ff0, x); return; } } } else { if x < 0x1ff9 { return; } else { if x < 0x1ffa { assert(has_all(true, 0x1ff9, 0x1ffa)) by (compute_only); has_all_at(true, 0x1ff9, 0x1ffa, x); return; } else { return; } } } } } else { if x < 0x2011 { if x < 0x1fff { if x < 0x1ffc { assert(has_all(true, 0x1ffb, 0x1ffc)) by (compute_only); has_all_at(true, 0x1ffb, 0x1ffc, x); return; } else { if x < 0x1ffd { return; } else { assert(has_all(true, 0x1ffd, 0x1fff)) by (compute_only); has_all_at(true, 0x1ffd, 0x1fff, x); return; } } } else { if x < 0x2000 { return; } else { if x < 0x200b { assert(has_all(true, 0x2000, 0x200b)) by (compute_only); has_all_at(true, 0x2000, 0x200b, x); return; } else { return; } } } } else { if x < 0x2018 { if x < 0x2012 { assert(has_all(true, 0x2011, 0x2012)) by (compute_only); has_all_at(true, 0x2011, 0x2012, x); return; } else { if x < 0x2017 { return; } else { assert(has_all(true, 0x2017, 0x2018)) by (compute_only); has_all_at(true, 0x2017, 0x2018, x); return; } } } else { if x < 0x2024 { return; } else { if x < 0x2027 { assert(has_all(true, 0x2024, 0x2027)) by (compute_only); has_all_at(true, 0x2024, 0x2027, x); return; } else { return; } } } } } }
proof fn no_nfkc_10(x: int) requires 0x202f <= x < 0x2100, qt_nfkc_10(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2057 { if x < 0x203c { if x < 0x2035 { if x < 0x2030 { assert(has_all(true, 0x202f, 0x2030)) by (compute_only); has_all_at(true, 0x202f, 0x2030, x); return; } else { if x < 0x2033 { return; } else { assert(has_all(true, 0x2033, 0x2035)) by (compute_only); has_all_at(true, 0x2033, 0x2035, x); return; } } } else { if x < 0x2036 { return; } else { if x < 0x2038 { assert(has_all(true, 0x2036, 0x2038)) by (compute_only); has_all_at(true, 0x2036, 0x2038, x); return; } else { return; } } } } else { if x < 0x203f { if x < 0x203d { assert(has_all(true, 0x203c, 0x203d)) by (compute_only); has_all_at(true, 0x203c, 0x203d, x); return; } else { if x < 0x203e { return; } else { assert(has_all(true, 0x203e, 0x203f)) by (compute_only); has_all_at(true, 0x203e, 0x203f, x); return; } } } else { if x < 0x2047 { return; } else { if x < 0x204a { assert(has_all(true, 0x2047, 0x204a)) by (compute_only); has_all_at(true, 0x2047, 0x204a, x); return; } else { return; } } } } } else { if x < 0x2074 { if x < 0x2060 { if x < 0x2058 { assert(has_all(true, 0x2057, 0x2058)) by (compute_only); has_all_at(true, 0x2057, 0x2058, x); return; } else { if x < 0x205f { return; } else { assert(has_all(true, 0x205f, 0x2060)) by (compute_only); has_all_at(true, 0x205f, 0x2060, x); return; } } } else { if x < 0x2070 { return; } else { if x < 0x2072 { assert(has_all(true, 0x2070, 0x2072)) by (compute_only); has_all_at(true, 0x2070, 0x2072, x); return; } else { return; } } } } else { if x < 0x209d { if x < 0x208f { assert(has_all(true, 0x2074, 0x208f)) by (compute_only); has_all_at(true, 0x2074, 0x208f, x); return; } else { if x < 0x2090 { return; } else { assert(has_all(true, 0x2090, 0x209d)) by (compute_only); has_all_at(true, 0x2090, 0x209d, x); return; } } } else { if x < 0x20a8 { return; } else { if x < 0x20a9 { assert(has_all(true, 0x20a8, 0x20a9)) by (compute_only); has_all_at(true, 0x20a8, 0x20a9, x); return; } else { return; } } } } } }
proof fn no_nfkc_11(x: int) requires 0x2100 <= x < 0x213b, qt_nfkc_11(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2124 { if x < 0x2115 { if x < 0x2108 { if x < 0x2104 { assert(has_all(true, 0x2100, 0x2104)) by (compute_only); has_all_at(true, 0x2100, 0x2104, x); return; } else { if x < 0x2105 { return; } else { assert(has_all(true, 0x2105, 0x2108)) by (compute_only); has_all_at(true, 0x2105, 0x2108, x); return; } } } else { if x < 0x2109 { return; } else { if x < 0x2114 { assert(has_all(true, 0x2109, 0x2114)) by (compute_only); has_all_at(true, 0x2109, 0x2114, x); return; } else { return; } } } } else { if x < 0x211e { if x < 0x2117 { assert(has_all(true, 0x2115, 0x2117)) by (compute_only); has_all_at(true, 0x2115, 0x2117, x); return; } else { if x < 0x2119 { return; } else { assert(has_all(true, 0x2119, 0x211e)) by (compute_only); has_all_at(true, 0x2119, 0x211e, x); return; } } } else { if x < 0x2120 { return; } else { if x < 0x2123 { assert(has_all(true, 0x2120, 0x2123)) by (compute_only); has_all_at(true, 0x2120, 0x2123, x); return; } else { return; } } } } } else { if x < 0x212a { if x < 0x2127 { if x < 0x2125 { assert(has_all(true, 0x2124, 0x2125)) by (compute_only); has_all_at(true, 0x2124, 0x2125, x); return; } else { if x < 0x2126 { return; } else { assert(has_all(true, 0x2126, 0x2127)) by (compute_only); has_all_at(true, 0x2126, 0x2127, x); return; } } } else { if x < 0x2128 { return; } else { if x < 0x2129 { assert(has_all(true, 0x2128, 0x2129)) by (compute_only); has_all_at(true, 0x2128, 0x2129, x); return; } else { return; } } } } else { if x < 0x2132 { if x < 0x212e { assert(has_all(true, 0x212a, 0x212e)) by (compute_only); has_all_at(true, 0x212a, 0x212e, x); return; } else { if x < 0x212f { return; } else { assert(has_all(true, 0x212f, 0x2132)) by (compute_only); has_all_at(true, 0x212f, 0x2132, x); return; } } } else { if x < 0x2133 { return; } else { if x < 0x213a { assert(has_all(true, 0x2133, 0x213a)) by (compute_only); has_all_at(true, 0x2133, 0x213a, x); return; } else { return; } } } } } }
proof fn no_nfkc_12(x: int) requires 0x213b <= x < 0x2d6f, qt_nfkc_12(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2329 { if x < 0x2189 { if x < 0x214a { if x < 0x2141 { assert(has_all(true, 0x213b, 0x2141)) by (compute_only); has_all_at(true, 0x213b, 0x2141, x); return; } else { if x < 0x2145 { return; } else { assert(has_all(true, 0x2145, 0x214a)) by (compute_only); has_all_at(true, 0x2145, 0x214a, x); return; } } } else { if x < 0x2150 { return; } else { if x < 0x2180 { assert(has_all(true, 0x2150, 0x2180)) by (compute_only); has_all_at(true, 0x2150, 0x2180, x); return; } else { return; } } } } else { if x < 0x222e { if x < 0x218a { assert(has_all(true, 0x2189, 0x218a)) by (compute_only); has_all_at(true, 0x2189, 0x218a, x); return; } else { if x < 0x222c { return; } else { assert(has_all(true, 0x222c, 0x222e)) by (compute_only); has_all_at(true, 0x222c, 0x222e, x); return; } } } else { if x < 0x222f { return; } else { if x < 0x2231 { assert(has_all(true, 0x222f, 0x2231)) by (compute_only); has_all_at(true, 0x222f, 0x2231, x); return; } else { return; } } } } } else { if x < 0x2a74 { if x < 0x24eb { if x < 0x232b { assert(has_all(true, 0x2329, 0x232b)) by (compute_only); has_all_at(true, 0x2329, 0x232b, x); return; } else { if x < 0x2460 { return; } else { assert(has_all(true, 0x2460, 0x24eb)) by (compute_only); has_all_at(true, 0x2460, 0x24eb, x); return; } } } else { if x < 0x2a0c { return; } else { if x < 0x2a0d { assert(has_all(true, 0x2a0c, 0x2a0d)) by (compute_only); has_all_at(true, 0x2a0c, 0x2a0d, x); return; } else { return; } } } } else { if x < 0x2add { if x < 0x2a77 { assert(has_all(true, 0x2a74, 0x2a77)) by (compute_only); has_all_at(true, 0x2a74, 0x2a77, x); return; } else { if x < 0x2adc { return; } else { assert(has_all(true, 0x2adc, 0x2add)) by (compute_only); has_all_at(true, 0x2adc, 0x2add, x); return; } } } else { if x < 0x2c7c { return; } else { if x < 0x2c7e { assert(has_all(true, 0x2c7c, 0x2c7e)) by (compute_only); has_all_at(true, 0x2c7c, 0x2c7e, x); return; } else { return; } } } } } }
proof fn no_nfkc_13(x: int) requires 0x2d6f <= x < 0x31a0, qt_nfkc_13(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x3038 { if x < 0x2f00 { if x < 0x2ea0 { if x < 0x2d70 { assert(has_all(true, 0x2d6f, 0x2d70)) by (compute_only); has_all_at(true, 0x2d6f, 0x2d70, x); return; } else { if x < 0x2e9f { return; } else { assert(has_all(true, 0x2e9f, 0x2ea0)) by (compute_only); has_all_at(true, 0x2e9f, 0x2ea0, x); return; } } } else { if x < 0x2ef3 { return; } else { if x < 0x2ef4 { assert(has_all(true, 0x2ef3, 0x2ef4)) by (compute_only); has_all_at(true, 0x2ef3, 0x2ef4, x); return; } else { return; } } } } else { if x < 0x3001 { if x < 0x2fd6 { assert(has_all(true, 0x2f00, 0x2fd6)) by (compute_only); has_all_at(true, 0x2f00, 0x2fd6, x); return; } else { if x < 0x3000 { return; } else { assert(has_all(true, 0x3000, 0x3001)) by (compute_only); has_all_at(true, 0x3000, 0x3001, x); return; } } } else { if x < 0x3036 { return; } else { if x < 0x3037 { assert(has_all(true, 0x3036, 0x3037)) by (compute_only); has_all_at(true, 0x3036, 0x3037, x); return; } else { return; } } } } } else { if x < 0x30a0 { if x < 0x309b { if x < 0x303b { assert(has_all(true, 0x3038, 0x303b)) by (compute_only); has_all_at(true, 0x3038, 0x303b, x); return; } else { if x < 0x3099 { return; } else { return; } } } else { if x < 0x309d { assert(has_all(true, 0x309b, 0x309d)) by (compute_only); has_all_at(true, 0x309b, 0x309d, x); return; } else { if x < 0x309f { return; } else { assert(has_all(true, 0x309f, 0x30a0)) by (compute_only); has_all_at(true, 0x309f, 0x30a0, x); return; } } } } else { if x < 0x3131 { if x < 0x30ff { return; } else { if x < 0x3100 { assert(has_all(true, 0x30ff, 0x3100)) by (compute_only); has_all_at(true, 0x30ff, 0x3100, x); return; } else { return; } } } else { if x < 0x318f { assert(has_all(true, 0x3131, 0x318f)) by (compute_only); has_all_at(true, 0x3131, 0x318f, x); return; } else { if x < 0x3192 { return; } else { assert(has_all(true, 0x3192, 0x31a0)) by (compute_only); has_all_at(true, 0x3192, 0x31a0, x); return; } } } } } }
proof fn no_nfkc_14(x: int) requires 0x31a0 <= x < 0xfa11, qt_nfkc_14(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xa771 { if x < 0x327f { if x < 0x3220 { if x < 0x3200 { return; } else { if x < 0x321f { assert(has_all(true, 0x3200, 0x321f)) by (compute_only); has_all_at(true, 0x3200, 0x321f, x); return; } else { return; } } } else { if x < 0x3248 { assert(has_all(true, 0x3220, 0x3248)) by (compute_only); has_all_at(true, 0x3220, 0x3248, x); return; } else { if x < 0x3250 { return; } else { assert(has_all(true, 0x3250, 0x327f)) by (compute_only); has_all_at(true, 0x3250, 0x327f, x); return; } } } } else { if x < 0xa69c { if x < 0x3280 { return; } else { if x < 0x3400 { assert(has_all(true, 0x3280, 0x3400)) by (compute_only); has_all_at(true, 0x3280, 0x3400, x); return; } else { return; } } } else { if x < 0xa69e { assert(has_all(true, 0xa69c, 0xa69e)) by (compute_only); has_all_at(true, 0xa69c, 0xa69e, x); return; } else { if x < 0xa770 { return; } else { assert(has_all(true, 0xa770, 0xa771)) by (compute_only); has_all_at(true, 0xa770, 0xa771, x); return; } } } } } else { if x < 0xab60 { if x < 0xa7f8 { if x < 0xa7f2 { return; } else { if x < 0xa7f5 { assert(has_all(true, 0xa7f2, 0xa7f5)) by (compute_only); has_all_at(true, 0xa7f2, 0xa7f5, x); return; } else { return; } } } else { if x < 0xa7fa { assert(has_all(true, 0xa7f8, 0xa7fa)) by (compute_only); has_all_at(true, 0xa7f8, 0xa7fa, x); return; } else { if x < 0xab5c { return; } else { assert(has_all(true, 0xab5c, 0xab60)) by (compute_only); has_all_at(true, 0xab5c, 0xab60, x); return; } } } } else { if x < 0xf900 { if x < 0xab69 { return; } else { if x < 0xab6a { assert(has_all(true, 0xab69, 0xab6a)) by (compute_only); has_all_at(true, 0xab69, 0xab6a, x); return; } else { return; } } } else { if x < 0xfa0e { assert(has_all(true, 0xf900, 0xfa0e)) by (compute_only); has_all_at(true, 0xf900, 0xfa0e, x); return; } else { if x < 0xfa10 { return; } else { assert(has_all(true, 0xfa10, 0xfa11)) by (compute_only); has_all_at(true, 0xfa10, 0xfa11, x); return; } } } } } }
proof fn no_nfkc_15(x: int) requires 0xfa11 <= x < 0xfb3d, qt_nfkc_15(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfa6e { if x < 0xfa21 { if x < 0xfa15 { if x < 0xfa12 { return; } else { if x < 0xfa13 { assert(has_all(true, 0xfa12, 0xfa13)) by (compute_only); has_all_at(true, 0xfa12, 0xfa13, x); return; } else { return; } } } else { if x < 0xfa1f { assert(has_all(true, 0xfa15, 0xfa1f)) by (compute_only); has_all_at(true, 0xfa15, 0xfa1f, x); return; } else { if x < 0xfa20 { return; } else { assert(has_all(true, 0xfa20, 0xfa21)) by (compute_only); has_all_at(true, 0xfa20, 0xfa21, x); return; } } } } else { if x < 0xfa25 { if x < 0xfa22 { return; } else { if x < 0xfa23 { assert(has_all(true, 0xfa22, 0xfa23)) by (compute_only); has_all_at(true, 0xfa22, 0xfa23, x); return; } else { return; } } } else { if x < 0xfa27 { assert(has_all(true, 0xfa25, 0xfa27)) by (compute_only); has_all_at(true, 0xfa25, 0xfa27, x); return; } else { if x < 0xfa2a { return; } else { assert(has_all(true, 0xfa2a, 0xfa6e)) by (compute_only); has_all_at(true, 0xfa2a, 0xfa6e, x); return; } } } } } else { if x < 0xfb18 { if x < 0xfb00 { if x < 0xfa70 { return; } else { if x < 0xfada { assert(has_all(true, 0xfa70, 0xfada)) by (compute_only); has_all_at(true, 0xfa70, 0xfada, x); return; } else { return; } } } else { if x < 0xfb07 { assert(has_all(true, 0xfb00, 0xfb07)) by (compute_only); has_all_at(true, 0xfb00, 0xfb07, x); return; } else { if x < 0xfb13 { return; } else { assert(has_all(true, 0xfb13, 0xfb18)) by (compute_only); has_all_at(true, 0xfb13, 0xfb18, x); return; } } } } else { if x < 0xfb1f { if x < 0xfb1d { return; } else { if x < 0xfb1e { assert(has_all(true, 0xfb1d, 0xfb1e)) by (compute_only); has_all_at(true, 0xfb1d, 0xfb1e, x); return; } else { return; } } } else { if x < 0xfb37 { assert(has_all(true, 0xfb1f, 0xfb37)) by (compute_only); has_all_at(true, 0xfb1f, 0xfb37, x); return; } else { if x < 0xfb38 { return; } else { assert(has_all(true, 0xfb38, 0xfb3d)) by (compute_only); has_all_at(true, 0xfb38, 0xfb3d, x); return; } } } } } }
proof fn no_nfkc_16(x: int) requires 0xfb3d <= x < 0xfe67, qt_nfkc_16(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xfd90 { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { return; } else { if x < 0xfb3f { assert(has_all(true, 0xfb3e, 0xfb3f)) by (compute_only); has_all_at(true, 0xfb3e, 0xfb3f, x); return; } else { return; } } } else { if x < 0xfb42 { assert(has_all(true, 0xfb40, 0xfb42)) by (compute_only); has_all_at(true, 0xfb40, 0xfb42, x); return; } else { if x < 0xfb43 { return; } else { assert(has_all(true, 0xfb43, 0xfb45)) by (compute_only); has_all_at(true, 0xfb43, 0xfb45, x); return; } } } } else { if x < 0xfbd3 { if x < 0xfb46 { return; } else { if x < 0xfbb2 { assert(has_all(true, 0xfb46, 0xfbb2)) by (compute_only); has_all_at(true, 0xfb46, 0xfbb2, x); return; } else { return; } } } else { if x < 0xfd3e { assert(has_all(true, 0xfbd3, 0xfd3e)) by (compute_only); has_all_at(true, 0xfbd3, 0xfd3e, x); return; } else { if x < 0xfd50 { return; } else { assert(has_all(true, 0xfd50, 0xfd90)) by (compute_only); has_all_at(true, 0xfd50, 0xfd90, x); return; } } } } } else { if x < 0xfe1a { if x < 0xfdf0 { if x < 0xfd92 { return; } else { if x < 0xfdc8 { assert(has_all(true, 0xfd92, 0xfdc8)) by (compute_only); has_all_at(true, 0xfd92, 0xfdc8, x); return; } else { return; } } } else { if x < 0xfdfd { assert(has_all(true, 0xfdf0, 0xfdfd)) by (compute_only); has_all_at(true, 0xfdf0, 0xfdfd, x); return; } else { if x < 0xfe10 { return; } else { assert(has_all(true, 0xfe10, 0xfe1a)) by (compute_only); has_all_at(true, 0xfe10, 0xfe1a, x); return; } } } } else { if x < 0xfe47 { if x < 0xfe30 { return; } else { if x < 0xfe45 { assert(has_all(true, 0xfe30, 0xfe45)) by (compute_only); has_all_at(true, 0xfe30, 0xfe45, x); return; } else { return; } } } else { if x < 0xfe53 { assert(has_all(true, 0xfe47, 0xfe53)) by (compute_only); has_all_at(true, 0xfe47, 0xfe53, x); return; } else { if x < 0xfe54 { return; } else { assert(has_all(true, 0xfe54, 0xfe67)) by (compute_only); has_all_at(true, 0xfe54, 0xfe67, x); return; } } } } } }
proof fn no_nfkc_17(x: int) requires 0xfe67 <= x < 0x10786, qt_nfkc_17(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0xffc8 { if x < 0xfe75 { if x < 0xfe70 { if x < 0xfe68 { return; } else { if x < 0xfe6c { assert(has_all(true, 0xfe68, 0xfe6c)) by (compute_only); has_all_at(true, 0xfe68, 0xfe6c, x); return; } else { return; } } } else { if x < 0xfe73 { assert(has_all(true, 0xfe70, 0xfe73)) by (compute_only); has_all_at(true, 0xfe70, 0xfe73, x); return; } else { if x < 0xfe74 { return; } else { assert(has_all(true, 0xfe74, 0xfe75)) by (compute_only); has_all_at(true, 0xfe74, 0xfe75, x); return; } } } } else { if x < 0xff01 { if x < 0xfe76 { return; } else { if x < 0xfefd { assert(has_all(true, 0xfe76, 0xfefd)) by (compute_only); has_all_at(true, 0xfe76, 0xfefd, x); return; } else { return; } } } else { if x < 0xffbf { assert(has_all(true, 0xff01, 0xffbf)) by (compute_only); has_all_at(true, 0xff01, 0xffbf, x); return; } else { if x < 0xffc2 { return; } else { assert(has_all(true, 0xffc2, 0xffc8)) by (compute_only); has_all_at(true, 0xffc2, 0xffc8, x); return; } } } } } else { if x < 0xffdd { if x < 0xffd2 { if x < 0xffca { return; } else { if x < 0xffd0 { assert(has_all(true, 0xffca, 0xffd0)) by (compute_only); has_all_at(true, 0xffca, 0xffd0, x); return; } else { return; } } } else { if x < 0xffd8 { assert(has_all(true, 0xffd2, 0xffd8)) by (compute_only); has_all_at(true, 0xffd2, 0xffd8, x); return; } else { if x < 0xffda { return; } else { assert(has_all(true, 0xffda, 0xffdd)) by (compute_only); has_all_at(true, 0xffda, 0xffdd, x); return; } } } } else { if x < 0xffe8 { if x < 0xffe0 { return; } else { if x < 0xffe7 { assert(has_all(true, 0xffe0, 0xffe7)) by (compute_only); has_all_at(true, 0xffe0, 0xffe7, x); return; } else { return; } } } else { if x < 0xffef { assert(has_all(true, 0xffe8, 0xffef)) by (compute_only); has_all_at(true, 0xffe8, 0xffef, x); return; } else { if x < 0x10781 { return; } else { assert(has_all(true, 0x10781, 0x10786)) by (compute_only); has_all_at(true, 0x10781, 0x10786, x); return; } } } } } }
proof fn no_nfkc_18(x: int) requires 0x10786 <= x < 0x114b1, qt_nfkc_18(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x11358 { if x < 0x110bb { if x < 0x107b2 { if x < 0x10787 { return; } else { if x < 0x107b1 { assert(has_all(true, 0x10787, 0x107b1)) by (compute_only); has_all_at(true, 0x10787, 0x107b1, x); return; } else { return; } } } else { if x < 0x107bb { assert(has_all(true, 0x107b2, 0x107bb)) by (compute_only); has_all_at(true, 0x107b2, 0x107bb, x); return; } else { if x < 0x110ba { return; } else { return; } } } } else { if x < 0x1133e { if x < 0x11127 { return; } else { if x < 0x11128 { return; } else { return; } } } else { if x < 0x1133f { return; } else { if x < 0x11357 { return; } else { return; } } } } } else { if x < 0x113c3 { if x < 0x113bb { if x < 0x113b8 { return; } else { if x < 0x113b9 { return; } else { return; } } } else { if x < 0x113bc { return; } else { if x < 0x113c2 { return; } else { return; } } } } else { if x < 0x113c7 { if x < 0x113c5 { return; } else { if x < 0x113c6 { return; } else { return; } } } else { if x < 0x113ca { return; } else { if x < 0x114b0 { return; } else { return; } } } } } }
proof fn no_nfkc_19(x: int) requires 0x114b1 <= x < 0x1d4a0, qt_nfkc_19(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x16d69 { if x < 0x115b0 { if x < 0x114bd { if x < 0x114ba { return; } else { if x < 0x114bb { return; } else { return; } } } else { if x < 0x114be { return; } else { if x < 0x115af { return; } else { return; } } } } else { if x < 0x1611e { if x < 0x11930 { return; } else { if x < 0x11931 { return; } else { return; } } } else { if x < 0x1612a { return; } else { if x < 0x16d67 { return; } else { return; } } } } } else { if x < 0x1d1c1 { if x < 0x1d15e { if x < 0x1ccd6 { return; } else { if x < 0x1ccfa { assert(has_all(true, 0x1ccd6, 0x1ccfa)) by (compute_only); has_all_at(true, 0x1ccd6, 0x1ccfa, x); return; } else { return; } } } else { if x < 0x1d165 { assert(has_all(true, 0x1d15e, 0x1d165)) by (compute_only); has_all_at(true, 0x1d15e, 0x1d165, x); return; } else { if x < 0x1d1bb { return; } else { assert(has_all(true, 0x1d1bb, 0x1d1c1)) by (compute_only); has_all_at(true, 0x1d1bb, 0x1d1c1, x); return; } } } } else { if x < 0x1d456 { if x < 0x1d400 { return; } else { if x < 0x1d455 { assert(has_all(true, 0x1d400, 0x1d455)) by (compute_only); has_all_at(true, 0x1d400, 0x1d455, x); return; } else { return; } } } else { if x < 0x1d49d { assert(has_all(true, 0x1d456, 0x1d49d)) by (compute_only); has_all_at(true, 0x1d456, 0x1d49d, x); return; } else { if x < 0x1d49e { return; } else { assert(has_all(true, 0x1d49e, 0x1d4a0)) by (compute_only); has_all_at(true, 0x1d49e, 0x1d4a0, x); return; } } } } } }
proof fn no_nfkc_20(x: int) requires 0x1d4a0 <= x < 0x1d53f, qt_nfkc_20(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1d4c4 { if x < 0x1d4ad { if x < 0x1d4a5 { if x < 0x1d4a2 { return; } else { if x < 0x1d4a3 { assert(has_all(true, 0x1d4a2, 0x1d4a3)) by (compute_only); has_all_at(true, 0x1d4a2, 0x1d4a3, x); return; } else { return; } } } else { if x < 0x1d4a7 { assert(has_all(true, 0x1d4a5, 0x1d4a7)) by (compute_only); has_all_at(true, 0x1d4a5, 0x1d4a7, x); return; } else { if x < 0x1d4a9 { return; } else { assert(has_all(true, 0x1d4a9, 0x1d4ad)) by (compute_only); has_all_at(true, 0x1d4a9, 0x1d4ad, x); return; } } } } else { if x < 0x1d4bb { if x < 0x1d4ae { return; } else { if x < 0x1d4ba { assert(has_all(true, 0x1d4ae, 0x1d4ba)) by (compute_only); has_all_at(true, 0x1d4ae, 0x1d4ba, x); return; } else { return; } } } else { if x < 0x1d4bc { assert(has_all(true, 0x1d4bb, 0x1d4bc)) by (compute_only); has_all_at(true, 0x1d4bb, 0x1d4bc, x); return; } else { if x < 0x1d4bd { return; } else { assert(has_all(true, 0x1d4bd, 0x1d4c4)) by (compute_only); has_all_at(true, 0x1d4bd, 0x1d4c4, x); return; } } } } } else { if x < 0x1d515 { if x < 0x1d507 { if x < 0x1d4c5 { return; } else { if x < 0x1d506 { assert(has_all(true, 0x1d4c5, 0x1d506)) by (compute_only); has_all_at(true, 0x1d4c5, 0x1d506, x); return; } else { return; } } } else { if x < 0x1d50b { assert(has_all(true, 0x1d507, 0x1d50b)) by (compute_only); has_all_at(true, 0x1d507, 0x1d50b, x); return; } else { if x < 0x1d50d { return; } else { assert(has_all(true, 0x1d50d, 0x1d515)) by (compute_only); has_all_at(true, 0x1d50d, 0x1d515, x); return; } } } } else { if x < 0x1d51e { if x < 0x1d516 { return; } else { if x < 0x1d51d { assert(has_all(true, 0x1d516, 0x1d51d)) by (compute_only); has_all_at(true, 0x1d516, 0x1d51d, x); return; } else { return; } } } else { if x < 0x1d53a { assert(has_all(true, 0x1d51e, 0x1d53a)) by (compute_only); has_all_at(true, 0x1d51e, 0x1d53a, x); return; } else { if x < 0x1d53b { return; } else { assert(has_all(true, 0x1d53b, 0x1d53f)) by (compute_only); has_all_at(true, 0x1d53b, 0x1d53f, x); return; } } } } } }
proof fn no_nfkc_21(x: int) requires 0x1d53f <= x < 0x1ee28, qt_nfkc_21(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1d800 { if x < 0x1d551 { if x < 0x1d546 { if x < 0x1d540 { return; } else { if x < 0x1d545 { assert(has_all(true, 0x1d540, 0x1d545)) by (compute_only); has_all_at(true, 0x1d540, 0x1d545, x); return; } else { return; } } } else { if x < 0x1d547 { assert(has_all(true, 0x1d546, 0x1d547)) by (compute_only); has_all_at(true, 0x1d546, 0x1d547, x); return; } else { if x < 0x1d54a { return; } else { assert(has_all(true, 0x1d54a, 0x1d551)) by (compute_only); has_all_at(true, 0x1d54a, 0x1d551, x); return; } } } } else { if x < 0x1d6a8 { if x < 0x1d552 { return; } else { if x < 0x1d6a6 { assert(has_all(true, 0x1d552, 0x1d6a6)) by (compute_only); has_all_at(true, 0x1d552, 0x1d6a6, x); return; } else { return; } } } else { if x < 0x1d7cc { assert(has_all(true, 0x1d6a8, 0x1d7cc)) by (compute_only); has_all_at(true, 0x1d6a8, 0x1d7cc, x); return; } else { if x < 0x1d7ce { return; } else { assert(has_all(true, 0x1d7ce, 0x1d800)) by (compute_only); has_all_at(true, 0x1d7ce, 0x1d800, x); return; } } } } } else { if x < 0x1ee20 { if x < 0x1ee00 { if x < 0x1e030 { return; } else { if x < 0x1e06e { assert(has_all(true, 0x1e030, 0x1e06e)) by (compute_only); has_all_at(true, 0x1e030, 0x1e06e, x); return; } else { return; } } } else { if x < 0x1ee04 { assert(has_all(true, 0x1ee00, 0x1ee04)) by (compute_only); has_all_at(true, 0x1ee00, 0x1ee04, x); return; } else { if x < 0x1ee05 { return; } else { assert(has_all(true, 0x1ee05, 0x1ee20)) by (compute_only); has_all_at(true, 0x1ee05, 0x1ee20, x); return; } } } } else { if x < 0x1ee24 { if x < 0x1ee21 { return; } else { if x < 0x1ee23 { assert(has_all(true, 0x1ee21, 0x1ee23)) by (compute_only); has_all_at(true, 0x1ee21, 0x1ee23, x); return; } else { return; } } } else { if x < 0x1ee25 { assert(has_all(true, 0x1ee24, 0x1ee25)) by (compute_only); has_all_at(true, 0x1ee24, 0x1ee25, x); return; } else { if x < 0x1ee27 { return; } else { assert(has_all(true, 0x1ee27, 0x1ee28)) by (compute_only); has_all_at(true, 0x1ee27, 0x1ee28, x); return; } } } } } }
proof fn no_nfkc_22(x: int) requires 0x1ee28 <= x < 0x1ee58, qt_nfkc_22(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ee48 { if x < 0x1ee3a { if x < 0x1ee34 { if x < 0x1ee29 { return; } else { if x < 0x1ee33 { assert(has_all(true, 0x1ee29, 0x1ee33)) by (compute_only); has_all_at(true, 0x1ee29, 0x1ee33, x); return; } else { return; } } } else { if x < 0x1ee38 { assert(has_all(true, 0x1ee34, 0x1ee38)) by (compute_only); has_all_at(true, 0x1ee34, 0x1ee38, x); return; } else { if x < 0x1ee39 { return; } else { assert(has_all(true, 0x1ee39, 0x1ee3a)) by (compute_only); has_all_at(true, 0x1ee39, 0x1ee3a, x); return; } } } } else { if x < 0x1ee42 { if x < 0x1ee3b { return; } else { if x < 0x1ee3c { assert(has_all(true, 0x1ee3b, 0x1ee3c)) by (compute_only); has_all_at(true, 0x1ee3b, 0x1ee3c, x); return; } else { return; } } } else { if x < 0x1ee43 { assert(has_all(true, 0x1ee42, 0x1ee43)) by (compute_only); has_all_at(true, 0x1ee42, 0x1ee43, x); return; } else { if x < 0x1ee47 { return; } else { assert(has_all(true, 0x1ee47, 0x1ee48)) by (compute_only); has_all_at(true, 0x1ee47, 0x1ee48, x); return; } } } } } else { if x < 0x1ee50 { if x < 0x1ee4b { if x < 0x1ee49 { return; } else { if x < 0x1ee4a { assert(has_all(true, 0x1ee49, 0x1ee4a)) by (compute_only); has_all_at(true, 0x1ee49, 0x1ee4a, x); return; } else { return; } } } else { if x < 0x1ee4c { assert(has_all(true, 0x1ee4b, 0x1ee4c)) by (compute_only); has_all_at(true, 0x1ee4b, 0x1ee4c, x); return; } else { if x < 0x1ee4d { return; } else { assert(has_all(true, 0x1ee4d, 0x1ee50)) by (compute_only); has_all_at(true, 0x1ee4d, 0x1ee50, x); return; } } } } else { if x < 0x1ee54 { if x < 0x1ee51 { return; } else { if x < 0x1ee53 { assert(has_all(true, 0x1ee51, 0x1ee53)) by (compute_only); has_all_at(true, 0x1ee51, 0x1ee53, x); return; } else { return; } } } else { if x < 0x1ee55 { assert(has_all(true, 0x1ee54, 0x1ee55)) by (compute_only); has_all_at(true, 0x1ee54, 0x1ee55, x); return; } else { if x < 0x1ee57 { return; } else { assert(has_all(true, 0x1ee57, 0x1ee58)) by (compute_only); has_all_at(true, 0x1ee57, 0x1ee58, x); return; } } } } } }
proof fn no_nfkc_23(x: int) requires 0x1ee58 <= x < 0x1ee8a, qt_nfkc_23(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1ee65 { if x < 0x1ee5e { if x < 0x1ee5b { if x < 0x1ee59 { return; } else { if x < 0x1ee5a { assert(has_all(true, 0x1ee59, 0x1ee5a)) by (compute_only); has_all_at(true, 0x1ee59, 0x1ee5a, x); return; } else { return; } } } else { if x < 0x1ee5c { assert(has_all(true, 0x1ee5b, 0x1ee5c)) by (compute_only); has_all_at(true, 0x1ee5b, 0x1ee5c, x); return; } else { if x < 0x1ee5d { return; } else { assert(has_all(true, 0x1ee5d, 0x1ee5e)) by (compute_only); has_all_at(true, 0x1ee5d, 0x1ee5e, x); return; } } } } else { if x < 0x1ee61 { if x < 0x1ee5f { return; } else { if x < 0x1ee60 { assert(has_all(true, 0x1ee5f, 0x1ee60)) by (compute_only); has_all_at(true, 0x1ee5f, 0x1ee60, x); return; } else { return; } } } else { if x < 0x1ee63 { assert(has_all(true, 0x1ee61, 0x1ee63)) by (compute_only); has_all_at(true, 0x1ee61, 0x1ee63, x); return; } else { if x < 0x1ee64 { return; } else { assert(has_all(true, 0x1ee64, 0x1ee65)) by (compute_only); has_all_at(true, 0x1ee64, 0x1ee65, x); return; } } } } } else { if x < 0x1ee78 { if x < 0x1ee6c { if x < 0x1ee67 { return; } else { if x < 0x1ee6b { assert(has_all(true, 0x1ee67, 0x1ee6b)) by (compute_only); has_all_at(true, 0x1ee67, 0x1ee6b, x); return; } else { return; } } } else { if x < 0x1ee73 { assert(has_all(true, 0x1ee6c, 0x1ee73)) by (compute_only); has_all_at(true, 0x1ee6c, 0x1ee73, x); return; } else { if x < 0x1ee74 { return; } else { assert(has_all(true, 0x1ee74, 0x1ee78)) by (compute_only); has_all_at(true, 0x1ee74, 0x1ee78, x); return; } } } } else { if x < 0x1ee7e { if x < 0x1ee79 { return; } else { if x < 0x1ee7d { assert(has_all(true, 0x1ee79, 0x1ee7d)) by (compute_only); has_all_at(true, 0x1ee79, 0x1ee7d, x); return; } else { return; } } } else { if x < 0x1ee7f { assert(has_all(true, 0x1ee7e, 0x1ee7f)) by (compute_only); has_all_at(true, 0x1ee7e, 0x1ee7f, x); return; } else { if x < 0x1ee80 { return; } else { assert(has_all(true, 0x1ee80, 0x1ee8a)) by (compute_only); has_all_at(true, 0x1ee80, 0x1ee8a, x); return; } } } } } }
proof fn no_nfkc_24(x: int) requires 0x1ee8a <= x < 0x1f249, qt_nfkc_24(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1f12f { if x < 0x1eeaa { if x < 0x1eea1 { if x < 0x1ee8b { return; } else { if x < 0x1ee9c { assert(has_all(true, 0x1ee8b, 0x1ee9c)) by (compute_only); has_all_at(true, 0x1ee8b, 0x1ee9c, x); return; } else { return; } } } else { if x < 0x1eea4 { assert(has_all(true, 0x1eea1, 0x1eea4)) by (compute_only); has_all_at(true, 0x1eea1, 0x1eea4, x); return; } else { if x < 0x1eea5 { return; } else { assert(has_all(true, 0x1eea5, 0x1eeaa)) by (compute_only); has_all_at(true, 0x1eea5, 0x1eeaa, x); return; } } } } else { if x < 0x1f100 { if x < 0x1eeab { return; } else { if x < 0x1eebc { assert(has_all(true, 0x1eeab, 0x1eebc)) by (compute_only); has_all_at(true, 0x1eeab, 0x1eebc, x); return; } else { return; } } } else { if x < 0x1f10b { assert(has_all(true, 0x1f100, 0x1f10b)) by (compute_only); has_all_at(true, 0x1f100, 0x1f10b, x); return; } else { if x < 0x1f110 { return; } else { assert(has_all(true, 0x1f110, 0x1f12f)) by (compute_only); has_all_at(true, 0x1f110, 0x1f12f, x); return; } } } } } else { if x < 0x1f191 { if x < 0x1f16a { if x < 0x1f130 { return; } else { if x < 0x1f150 { assert(has_all(true, 0x1f130, 0x1f150)) by (compute_only); has_all_at(true, 0x1f130, 0x1f150, x); return; } else { return; } } } else { if x < 0x1f16d { assert(has_all(true, 0x1f16a, 0x1f16d)) by (compute_only); has_all_at(true, 0x1f16a, 0x1f16d, x); return; } else { if x < 0x1f190 { return; } else { assert(has_all(true, 0x1f190, 0x1f191)) by (compute_only); has_all_at(true, 0x1f190, 0x1f191, x); return; } } } } else { if x < 0x1f210 { if x < 0x1f200 { return; } else { if x < 0x1f203 { assert(has_all(true, 0x1f200, 0x1f203)) by (compute_only); has_all_at(true, 0x1f200, 0x1f203, x); return; } else { return; } } } else { if x < 0x1f23c { assert(has_all(true, 0x1f210, 0x1f23c)) by (compute_only); has_all_at(true, 0x1f210, 0x1f23c, x); return; } else { if x < 0x1f240 { return; } else { assert(has_all(true, 0x1f240, 0x1f249)) by (compute_only); has_all_at(true, 0x1f240, 0x1f249, x); return; } } } } } }
proof fn no_nfkc_25(x: int) requires 0x1f249 <= x < 0x110000, qt_nfkc_25(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x1fbf0 { if x < 0x1f250 { return; } else { if x < 0x1f252 { assert(has_all(true, 0x1f250, 0x1f252)) by (compute_only); has_all_at(true, 0x1f250, 0x1f252, x); return; } else { return; } } } else { if x < 0x2f800 { if x < 0x1fbfa { assert(has_all(true, 0x1fbf0, 0x1fbfa)) by (compute_only); has_all_at(true, 0x1fbf0, 0x1fbfa, x); return; } else { return; } } else { if x < 0x2fa1e { assert(has_all(true, 0x2f800, 0x2fa1e)) by (compute_only); has_all_at(true, 0x2f800, 0x2fa1e, x); return; } else { return; } } } }
pub proof fn no_nfkc(x: int) requires 0 <= x < 0x110000, qt_nfkc(x) == 1 ensures hang_i(x) || has_i(true, x) { if x < 0x2d6f { if x < 0xf5c { if x < 0x3f4 { if x < 0x1cd { no_nfkc_0(x); } else { if x < 0x32f { no_nfkc_1(x); } else { no_nfkc_2(x); } } } else { if x < 0xa36 { no_nfkc_3(x); } else { if x < 0xd57 { no_nfkc_4(x); } else { no_nfkc_5(x); } } } } else { if x < 0x1fdb { if x < 0x10fc { no_nfkc_6(x); } else { if x < 0x1f73 { no_nfkc_7(x); } else { no_nfkc_8(x); } } } else { if x < 0x2100 { if x < 0x202f { no_nfkc_9(x); } else { no_nfkc_10(x); } } else { if x < 0x213b { no_nfkc_11(x); } else { no_nfkc_12(x); } } } } } else { if x < 0x114b1 { if x < 0xfb3d { if x < 0x31a0 { no_nfkc_13(x); } else { if x < 0xfa11 { no_nfkc_14(x); } else { no_nfkc_15(x); } } } else { if x < 0xfe67 { no_nfkc_16(x); } else { if x < 0x10786 { no_nfkc_17(x); } else { no_nfkc_18(x); } } } } else { if x < 0x1ee28 { if x < 0x1d4a0 { no_nfkc_19(x); } else { if x < 0x1d53f { no_nfkc_20(x); } else { no_nfkc_21(x); } } } else { if x < 0x1ee8a { if x < 0x1ee58 { no_nfkc_22(x); } else { no_nfkc_23(x); } } else { if x < 0x1f249 { no_nfkc_24(x); } else { no_nfkc_25(x); } } } } } }
proof fn two_nfd_0(x: int) ensures qt_nfd_0(x) == 0 || qt_nfd_0(x) == 1 {}
proof fn two_nfd_1(x: int) ensures qt_nfd_1(x) == 0 || qt_nfd_1(x) == 1 {}
proof fn two_nfd_2(x: int) ensures qt_nfd_2(x) == 0 || qt_nfd_2(x) == 1 {}
proof fn two_nfd_3(x: int) ensures qt_nfd_3(x) == 0 || qt_nfd_3(x) == 1 {}
proof fn two_nfd_4(x: int) ensures qt_nfd_4(x) == 0 || qt_nfd_4(x) == 1 {}
proof fn two_nfd_5(x: int) ensures qt_nfd_5(x) == 0 || qt_nfd_5(x) == 1 {}
proof fn two_nfd_6(x: int) ensures qt_nfd_6(x) == 0 || qt_nfd_6(x) == 1 {}
proof fn two_nfd_7(x: int) ensures qt_nfd_7(x) == 0 || qt_nfd_7(x) == 1 {}
proof fn two_nfd_8(x: int) ensures qt_nfd_8(x) == 0 || qt_nfd_8(x) == 1 {}
proof fn two_nfd_9(x: int) ensures qt_nfd_9(x) == 0 || qt_nfd_9(x) == 1 {}
proof fn two_nfd_10(x: int) ensures qt_nfd_10(x) == 0 || qt_nfd_10(x) == 1 {}
proof fn two_nfd_11(x: int) ensures qt_nfd_11(x) == 0 || qt_nfd_11(x) == 1 {}
proof fn two_nfd_12(x: int) ensures qt_nfd_12(x) == 0 || qt_nfd_12(x) == 1 {}
proof fn two_nfd_13(x: int) ensures qt_nfd_13(x) == 0 || qt_nfd_13(x) == 1 {}
proof fn two_nfd_14(x: int) ensures qt_nfd_14(x) == 0 || qt_nfd_14(x) == 1 {}
proof fn two_nfd_15(x: int) ensures qt_nfd_15(x) == 0 || qt_nfd_15(x) == 1 {}
proof fn two_nfd_16(x: int) ensures qt_nfd_16(x) == 0 || qt_nfd_16(x) == 1 {}
proof fn two_nfd_17(x: int) ensures qt_nfd_17(x) == 0 || qt_nfd_17(x) == 1 {}
proof fn two_nfd_18(x: int) ensures qt_nfd_18(x) == 0 || qt_nfd_18(x) == 1 {}
proof fn two_nfd_19(x: int) ensures qt_nfd_19(x) == 0 || qt_nfd_19(x) == 1 {}
proof fn two_nfd_20(x: int) ensures qt_nfd_20(x) == 0 || qt_nfd_20(x) == 1 {}
pub proof fn two_nfd(x: int) ensures qt_nfd(x) == 0 || qt_nfd(x) == 1 { two_nfd_0(x); two_nfd_1(x); two_nfd_2(x); two_nfd_3(x); two_nfd_4(x); two_nfd_5(x); two_nfd_6(x); two_nfd_7(x); two_nfd_8(x); two_nfd_9(x); two_nfd_10(x); two_nfd_11(x); two_nfd_12(x); two_nfd_13(x); two_nfd_14(x); two_nfd_15(x); two_nfd_16(x); two_nfd_17(x); two_nfd_18(x); two_nfd_19(x); two_nfd_20(x); }
proof fn two_nfkd_0(x: int) ensures qt_nfkd_0(x) == 0 || qt_nfkd_0(x) == 1 {}
proof fn two_nfkd_1(x: int) ensures qt_nfkd_1(x) == 0 || qt_nfkd_1(x) == 1 {}
proof fn two_nfkd_2(x: int) ensures qt_nfkd_2(x) == 0 || qt_nfkd_2(x) == 1 {}
proof fn two_nfkd_3(x: int) ensures qt_nfkd_3(x) == 0 || qt_nfkd_3(x) == 1 {}
proof fn two_nfkd_4(x: int) ensures qt_nfkd_4(x) == 0 || qt_nfkd_4(x) == 1 {}
proof fn two_nfkd_5(x: int) ensures qt_nfkd_5(x) == 0 || qt_nfkd_5(x) == 1 {}
proof fn two_nfkd_6(x: int) ensures qt_nfkd_6(x) == 0 || qt_nfkd_6(x) == 1 {}
proof fn two_nfkd_7(x: int) ensures qt_nfkd_7(x) == 0 || qt_nfkd_7(x) == 1 {}
proof fn two_nfkd_8(x: int) ensures qt_nfkd_8(x) == 0 || qt_nfkd_8(x) == 1 {}
proof fn two_nfkd_9(x: int) ensures qt_nfkd_9(x) == 0 || qt_nfkd_9(x) == 1 {}
proof fn two_nfkd_10(x: int) ensures qt_nfkd_10(x) == 0 || qt_nfkd_10(x) == 1 {}
proof fn two_nfkd_11(x: int) ensures qt_nfkd_11(x) == 0 || qt_nfkd_11(x) == 1 {}
proof fn two_nfkd_12(x: int) ensures qt_nfkd_12(x) == 0 || qt_nfkd_12(x) == 1 {}
proof fn two_nfkd_13(x: int) ensures qt_nfkd_13(x) == 0 || qt_nfkd_13(x) == 1 {}
proof fn two_nfkd_14(x: int) ensures qt_nfkd_14(x) == 0 || qt_nfkd_14(x) == 1 {}
proof fn two_nfkd_15(x: int) ensures qt_nfkd_15(x) == 0 || qt_nfkd_15(x) == 1 {}
proof fn two_nfkd_16(x: int) ensures qt_nfkd_16(x) == 0 || qt_nfkd_16(x) == 1 {}
proof fn two_nfkd_17(x: int) ensures qt_nfkd_17(x) == 0 || qt_nfkd_17(x) == 1 {}
proof fn two_nfkd_18(x: int) ensures qt_nfkd_18(x) == 0 || qt_nfkd_18(x) == 1 {}
proof fn two_nfkd_19(x: int) ensures qt_nfkd_19(x) == 0 || qt_nfkd_19(x) == 1 {}
proof fn two_nfkd_20(x: int) ensures qt_nfkd_20(x) == 0 || qt_nfkd_20(x) == 1 {}
proof fn two_nfkd_21(x: int) ensures qt_nfkd_21(x) == 0 || qt_nfkd_21(x) == 1 {}
proof fn two_nfkd_22(x: int) ensures qt_nfkd_22(x) == 0 || qt_nfkd_22(x) == 1 {}
proof fn two_nfkd_23(x: int) ensures qt_nfkd_23(x) == 0 || qt_nfkd_23(x) == 1 {}
proof fn two_nfkd_24(x: int) ensures qt_nfkd_24(x) == 0 || qt_nfkd_24(x) == 1 {}
proof fn two_nfkd_25(x: int) ensures qt_nfkd_25(x) == 0 || qt_nfkd_25(x) == 1 {}
proof fn two_nfkd_26(x: int) ensures qt_nfkd_26(x) == 0 || qt_nfkd_26(x) == 1 {}
proof fn two_nfkd_27(x: int) ensures qt_nfkd_27(x) == 0 || qt_nfkd_27(x) == 1 {}
proof fn two_nfkd_28(x: int) ensures qt_nfkd_28(x) == 0 || qt_nfkd_28(x) == 1 {}
proof fn two_nfkd_29(x: int) ensures qt_nfkd_29(x) == 0 || qt_nfkd_29(x) == 1 {}
proof fn two_nfkd_30(x: int) ensures qt_nfkd_30(x) == 0 || qt_nfkd_30(x) == 1 {}
proof fn two_nfkd_31(x: int) ensures qt_nfkd_31(x) == 0 || qt_nfkd_31(x) == 1 {}
proof fn two_nfkd_32(x: int) ensures qt_nfkd_32(x) == 0 || qt_nfkd_32(x) == 1 {}
proof fn two_nfkd_33(x: int) ensures qt_nfkd_33(x) == 0 || qt_nfkd_33(x) == 1 {}
proof fn two_nfkd_34(x: int) ensures qt_nfkd_34(x) == 0 || qt_nfkd_34(x) == 1 {}
pub proof fn two_nfkd(x: int) ensures qt_nfkd(x) == 0 || qt_nfkd(x) == 1 { two_nfkd_0(x); two_nfkd_1(x); two_nfkd_2(x); two_nfkd_3(x); two_nfkd_4(x); two_nfkd_5(x); two_nfkd_6(x); two_nfkd_7(x); two_nfkd_8(x); two_nfkd_9(x); two_nfkd_10(x); two_nfkd_11(x); two_nfkd_12(x); two_nfkd_13(x); two_nfkd_14(x); two_nfkd_15(x); two_nfkd_16(x); two_nfkd_17(x); two_nfkd_18(x); two_nfkd_19(x); two_nfkd_20(x); two_nfkd_21(x); two_nfkd_22(x); two_nfkd_23(x); two_nfkd_24(x); two_nfkd_25(x); two_nfkd_26(x); two_nfkd_27(x); two_nfkd_28(x); two_nfkd_29(x); two_nfkd_30(x); two_nfkd_31(x); two_nfkd_32(x); two_nfkd_33(x); two_nfkd_34(x); }
pub proof fn hang_qt(x: int) requires hang_i(x) ensures qt_nfd(x) == 1, qt_nfkd(x) == 1, qt_nfc(x) != 1, qt_nfkc(x) != 1 {}
pub proof fn ast_listed(a: int, b: int) requires comp_ast(a, b) >= 0 ensures comp_i(a, b) == comp_ast(a, b) {
  if a == 0x105d2 && b == 0x307 { assert(comp_i(0x105d2, 0x307) == 0x105c9) by (compute_only); return; }
  if a == 0x105da && b == 0x307 { assert(comp_i(0x105da, 0x307) == 0x105e4) by (compute_only); return; }
  if a == 0x11099 && b == 0x110ba { assert(comp_i(0x11099, 0x110ba) == 0x1109a) by (compute_only); return; }
  if a == 0x1109b && b == 0x110ba { assert(comp_i(0x1109b, 0x110ba) == 0x1109c) by (compute_only); return; }
  if a == 0x110a5 && b == 0x110ba { assert(comp_i(0x110a5, 0x110ba) == 0x110ab) by (compute_only); return; }
  if a == 0x11131 && b == 0x11127 { assert(comp_i(0x11131, 0x11127) == 0x1112e) by (compute_only); return; }
  if a == 0x11132 && b == 0x11127 { assert(comp_i(0x11132, 0x11127) == 0x1112f) by (compute_only); return; }
  if a == 0x11347 && b == 0x1133e { assert(comp_i(0x11347, 0x1133e) == 0x1134b) by (compute_only); return; }
  if a == 0x11347 && b == 0x11357 { assert(comp_i(0x11347, 0x11357) == 0x1134c) by (compute_only); return; }
  if a == 0x11382 && b == 0x113c9 { assert(comp_i(0x11382, 0x113c9) == 0x11383) by (compute_only); return; }
  if a == 0x11384 && b == 0x113bb { assert(comp_i(0x11384, 0x113bb) == 0x11385) by (compute_only); return; }
  if a == 0x1138b && b == 0x113c2 { assert(comp_i(0x1138b, 0x113c2) == 0x1138e) by (compute_only); return; }
  if a == 0x11390 && b == 0x113c9 { assert(comp_i(0x11390, 0x113c9) == 0x11391) by (compute_only); return; }
  if a == 0x113c2 && b == 0x113b8 { assert(comp_i(0x113c2, 0x113b8) == 0x113c7) by (compute_only); return; }
  if a == 0x113c2 && b == 0x113c2 { assert(comp_i(0x113c2, 0x113c2) == 0x113c5) by (compute_only); return; }
  if a == 0x113c2 && b == 0x113c9 { assert(comp_i(0x113c2, 0x113c9) == 0x113c8) by (compute_only); return; }
  if a == 0x114b9 && b == 0x114b0 { assert(comp_i(0x114b9, 0x114b0) == 0x114bc) by (compute_only); return; }
  if a == 0x114b9 && b == 0x114ba { assert(comp_i(0x114b9, 0x114ba) == 0x114bb) by (compute_only); return; }
  if a == 0x114b9 && b == 0x114bd { assert(comp_i(0x114b9, 0x114bd) == 0x114be) by (compute_only); return; }
  if a == 0x115b8 && b == 0x115af { assert(comp_i(0x115b8, 0x115af) == 0x115ba) by (compute_only); return; }
  if a == 0x115b9 && b == 0x115af { assert(comp_i(0x115b9, 0x115af) == 0x115bb) by (compute_only); return; }
  if a == 0x11935 && b == 0x11930 { assert(comp_i(0x11935, 0x11930) == 0x11938) by (compute_only); return; }
  if a == 0x1611e && b == 0x1611e { assert(comp_i(0x1611e, 0x1611e) == 0x16121) by (compute_only); return; }
  if a == 0x1611e && b == 0x1611f { assert(comp_i(0x1611e, 0x1611f) == 0x16123) by (compute_only); return; }
  if a == 0x1611e && b == 0x16120 { assert(comp_i(0x1611e, 0x16120) == 0x16125) by (compute_only); return; }
  if a == 0x1611e && b == 0x16129 { assert(comp_i(0x1611e, 0x16129) == 0x16122) by (compute_only); return; }
  if a == 0x16121 && b == 0x1611f { assert(comp_i(0x16121, 0x1611f) == 0x16126) by (compute_only); return; }
  if a == 0x16121 && b == 0x16120 { assert(comp_i(0x16121, 0x16120) == 0x16128) by (compute_only); return; }
  if a == 0x16122 && b == 0x1611f { assert(comp_i(0x16122, 0x1611f) == 0x16127) by (compute_only); return; }
  if a == 0x16129 && b == 0x1611f { assert(comp_i(0x16129, 0x1611f) == 0x16124) by (compute_only); return; }
  if a == 0x16d63 && b == 0x16d67 { assert(comp_i(0x16d63, 0x16d67) == 0x16d69) by (compute_only); return; }
  if a == 0x16d67 && b == 0x16d67 { assert(comp_i(0x16d67, 0x16d67) == 0x16d68) by (compute_only); return; }
  if a == 0x16d69 && b == 0x16d67 { assert(comp_i(0x16d69, 0x16d67) == 0x16d6a) by (compute_only); return; }
}
} // verus!
