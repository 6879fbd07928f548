//! GENERATED by tools/gen_ucd.py from spec/ucd16.txt (Unicode 16.0.0). Reference data only.
#![allow(unused_imports, dead_code, nonstandard_style)]
use vstd::prelude::*;
verus! {
pub open spec fn unpack8(v: int, k: int) -> int { if k < 8 { if k < 4 { if k < 2 { if k < 1 { v % 0x100 } else { (v / 0x100) % 0x100 } } else { if k < 3 { (v / 0x10000) % 0x100 } else { (v / 0x1000000) % 0x100 } } } else { if k < 6 { if k < 5 { (v / 0x100000000) % 0x100 } else { (v / 0x10000000000) % 0x100 } } else { if k < 7 { (v / 0x1000000000000) % 0x100 } else { (v / 0x100000000000000) % 0x100 } } } } else { if k < 12 { if k < 10 { if k < 9 { (v / 0x10000000000000000) % 0x100 } else { (v / 0x1000000000000000000) % 0x100 } } else { if k < 11 { (v / 0x100000000000000000000) % 0x100 } else { (v / 0x10000000000000000000000) % 0x100 } } } else { if k < 14 { if k < 13 { (v / 0x1000000000000000000000000) % 0x100 } else { (v / 0x100000000000000000000000000) % 0x100 } } else { if k < 15 { (v / 0x10000000000000000000000000000) % 0x100 } else { (v / 0x1000000000000000000000000000000) % 0x100 } } } } }
pub open spec fn unpack16(v: int, k: int) -> int { if k < 4 { if k < 2 { if k < 1 { v % 0x10000 } else { (v / 0x10000) % 0x10000 } } else { if k < 3 { (v / 0x100000000) % 0x10000 } else { (v / 0x1000000000000) % 0x10000 } } } else { if k < 6 { if k < 5 { (v / 0x10000000000000000) % 0x10000 } else { (v / 0x100000000000000000000) % 0x10000 } } else { if k < 7 { (v / 0x1000000000000000000000000) % 0x10000 } else { (v / 0x10000000000000000000000000000) % 0x10000 } } } }
pub open spec fn unpack21(v: int, k: int) -> int { if k < 3 { if k < 1 { v % 0x200000 } else { if k < 2 { (v / 0x200000) % 0x200000 } else { (v / 0x40000000000) % 0x200000 } } } else { if k < 4 { (v / 0x8000000000000000) % 0x200000 } else { if k < 5 { (v / 0x1000000000000000000000) % 0x200000 } else { (v / 0x200000000000000000000000000) % 0x200000 } } } }
/// the last of the packed keys that is <= x (0 if none is)
pub open spec fn within21(v: int, x: int) -> int { if x < (v / 0x8000000000000000) % 0x200000 { if x < (v / 0x200000) % 0x200000 { 0 } else { if x < (v / 0x40000000000) % 0x200000 { 1 } else { 2 } } } else { if x < (v / 0x1000000000000000000000) % 0x200000 { 3 } else { if x < (v / 0x200000000000000000000000000) % 0x200000 { 4 } else { 5 } } } }
pub open spec fn unpack32(v: int, k: int) -> int { if k < 2 { if k < 1 { v % 0x100000000 } else { (v / 0x100000000) % 0x100000000 } } else { if k < 3 { (v / 0x10000000000000000) % 0x100000000 } else { (v / 0x1000000000000000000000000) % 0x100000000 } } }
pub open spec fn unpack42(v: int, k: int) -> int { if k < 1 { v % 0x40000000000 } else { if k < 2 { (v / 0x40000000000) % 0x40000000000 } else { (v / 0x1000000000000000000000) % 0x40000000000 } } }
/// the last of the packed keys that is <= x (0 if none is)
pub open spec fn within42(v: int, x: int) -> int { if x < (v / 0x40000000000) % 0x40000000000 { 0 } else { if x < (v / 0x1000000000000000000000) % 0x40000000000 { 1 } else { 2 } } }
pub open spec fn unpack64(v: int, k: int) -> int { if k < 1 { v % 0x10000000000000000 } else { (v / 0x10000000000000000) % 0x10000000000000000 } }
pub open spec fn U_ccc_k_p_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x6380031b0018d000c580062a00300 } else { if i < 2 { 0x6720033400194800c9c0064600321 } else { 0x69a0034a001a3800d180068a0033d } } } else { if i < 4 { 0x6b600359001ac000d5c006a600350 } else { if i < 5 { 0x6c600362001b0000d7c006ba0035c } else { 0xb3400597002cb00164800b2200483 } } } } else { if i < 9 { if i < 7 { 0xb56005aa002d400168800b380059b } else { if i < 8 { 0xb64005b1002d80016bc00b5c005ad } else { 0xb70005b7002db0016d400b68005b3 } } } else { if i < 10 { 0xb82005bf002de8016f000b76005b9 } else { if i < 11 { 0xc3000610002e380171400b88005c2 } else { 0xc9c0064d0032600192c00c3400619 } } } } }
pub open spec fn U_ccc_k_p_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0xcaa006530032900194400ca00064f } else { if i < 14 { 0xdac006700032f80197400cb800657 } else { 0xdd6006ea00373801b9000dc6006df } } } else { if i < 16 { 0xe680073200398801cc000e22006ed } else { if i < 17 { 0xe7c0073d0039d801ce800e6e00735 } else { 0xe8c00745003a2001d0c00e840073f } } } } else { if i < 21 { if i < 19 { 0xfe6007f2003f5801d2400e9000747 } else { if i < 20 { 0x10b2008290041280206c0102c007fd } else { 0x11a8008cf004650022700113200897 } } } else { if i < 22 { 0x11d4008e900473802398011c8008e3 } else { if i < 23 { 0x11ec008f3004790023c4011e0008ed } else { 0x12a20094d0049e0023ec011f2008f7 } } } } }
pub open spec fn U_ccc_k_p_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x1478009fe004e68026f0012a600952 } else { if i < 26 { 0x179a00b4d0059e002b340157800a4d } else { 0x199a00cbc0062b0031540189a00c3c } } } else { if i < 28 { 0x1c9000e3a0071c00372801a9a00d3b } else { if i < 29 { 0x1e6e00f350078c003b2001d7400eb8 } else { 0x1f0000f7a007ba003dc801ee200f39 } } } } else { if i < 33 { if i < 31 { 0x207201037007e3003e1801f0800f82 } else { if i < 32 { 0x2fba017d200b9a005c50026ba0108d } else { 0x343001a1700c9d8064e803272018a9 } } } else { if i < 34 { 0x357601ab500d580069fc034ea01a60 } else { if i < 35 { 0x359401ac500d61806b040357e01abd } else { 0x36da01b6c00db5806d100366801acb } } } } }
pub open spec fn U_ccc_k_p_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x39a801cd000e1b806fc8037cc01baa } else { if i < 38 { 0x39da01ce200e70007370039b401cd5 } else { 0x3b9401dc300ee1007700039f001cf4 } } } else { if i < 40 { 0x3ba201dd000ee780773803b9a01dcb } else { if i < 41 { 0x3bf801dfb00efd0077e403bee01df6 } else { 0x41a8020d2010680077fc03bfc01dfd } } } } else { if i < 45 { if i < 43 { 0x41d0020e701072808384041b6020d8 } else { if i < 44 { 0x5afe02cef010780083b0041d4020e9 } else { 0x605c0302d0181600c0ac0605402de0 } } } else { if i < 46 { 0x1500c0a6f00534f0299d014cde03099 } else { if i < 47 { 0x153660a9530549582a380151880a82c } else { 0x1557c0aab70555a02aac8155600a9c0 } } } } }
pub open spec fn U_ccc_k_p_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x1fc4e0fe2007d8f02afb4155ec0aac1 } else { if i < 50 { 0x2141e10a0d081bb040b80203fa0fe2e } else { 0x215cc10ae50851f8428e82147210a38 } } } else { if i < 52 { 0x21e9010f460877e843aac21ad210d24 } else { if i < 53 { 0x21f0810f83087c1043d3421e9810f4b } else { 0x22174110b90883f8441c02208c10f85 } } } } else { if i < 57 { if i < 55 { 0x2246a111ca088e00445cc2226611100 } else { if i < 56 { 0x226cc1134d0899d844ba8225d211236 } else { 0x229841145e08a230451082279c11370 } } } else { if i < 58 { 0x22d6e116b608b1f84570022b7e114c3 } else { if i < 59 { 0x233c01194308c9e8460e8230721172b } else { 0x23a8811d4208e1f846a642348e11a34 } } } } }
pub open spec fn U_ccc_k_p_5(i: int) -> int { if i < 63 { if i < 61 { 0x2dfe016b300b5780584bc23e8211d97 } else { if i < 62 { 0x3a2f61d16e0e8b687459c3a2ca1bc9e } else { 0x3c0101e0000e9210746a83a3141d185 } } } else { if i < 64 { 0x3c55c1e1300f0478780983c0461e01b } else { if i < 65 { 0x3cbde1e5ee0f2778793b83c9d81e2ec } else { 0x3fffffffffffffff87a5283d2881e8d0 } } } }
pub open spec fn U_ccc_k_p(i: int) -> int { if i < 36 { if i < 12 { U_ccc_k_p_0(i) } else { if i < 24 { U_ccc_k_p_1(i) } else { U_ccc_k_p_2(i) } } } else { if i < 48 { U_ccc_k_p_3(i) } else { if i < 60 { U_ccc_k_p_4(i) } else { U_ccc_k_p_5(i) } } } }
pub open spec fn U_ccc_k(i: int) -> int { unpack21(U_ccc_k_p(i / 6), i % 6) }
pub open spec fn U_ccc_b_0(x: int) -> int { if x < 0x59b { if x < 0x350 { if x < 0x321 { 0 } else { if x < 0x33d { 1 } else { 2 } } } else { if x < 0x35c { 3 } else { if x < 0x483 { 4 } else { 5 } } } } else { if x < 0x5b9 { if x < 0x5ad { 6 } else { if x < 0x5b3 { 7 } else { 8 } } } else { if x < 0x5c2 { 9 } else { if x < 0x619 { 10 } else { 11 } } } } }
pub open spec fn U_ccc_b_1(x: int) -> int { if x < 0x747 { if x < 0x6ed { if x < 0x657 { 12 } else { if x < 0x6df { 13 } else { 14 } } } else { if x < 0x735 { 15 } else { if x < 0x73f { 16 } else { 17 } } } } else { if x < 0x8e3 { if x < 0x7fd { 18 } else { if x < 0x897 { 19 } else { 20 } } } else { if x < 0x8ed { 21 } else { if x < 0x8f7 { 22 } else { 23 } } } } }
pub open spec fn U_ccc_b_2(x: int) -> int { if x < 0xf82 { if x < 0xd3b { if x < 0xa4d { 24 } else { if x < 0xc3c { 25 } else { 26 } } } else { if x < 0xeb8 { 27 } else { if x < 0xf39 { 28 } else { 29 } } } } else { if x < 0x1a60 { if x < 0x108d { 30 } else { if x < 0x18a9 { 31 } else { 32 } } } else { if x < 0x1abd { 33 } else { if x < 0x1acb { 34 } else { 35 } } } } }
pub open spec fn U_ccc_b_3(x: int) -> int { if x < 0x20d8 { if x < 0x1dcb { if x < 0x1cd5 { 36 } else { if x < 0x1cf4 { 37 } else { 38 } } } else { if x < 0x1df6 { 39 } else { if x < 0x1dfd { 40 } else { 41 } } } } else { if x < 0x3099 { if x < 0x20e9 { 42 } else { if x < 0x2de0 { 43 } else { 44 } } } else { if x < 0xa82c { 45 } else { if x < 0xa9c0 { 46 } else { 47 } } } } }
pub open spec fn U_ccc_b_4(x: int) -> int { if x < 0x11100 { if x < 0x10d24 { if x < 0xfe2e { 48 } else { if x < 0x10a38 { 49 } else { 50 } } } else { if x < 0x10f4b { 51 } else { if x < 0x10f85 { 52 } else { 53 } } } } else { if x < 0x114c3 { if x < 0x11236 { 54 } else { if x < 0x11370 { 55 } else { 56 } } } else { if x < 0x1172b { 57 } else { if x < 0x11a34 { 58 } else { 59 } } } } }
pub open spec fn U_ccc_b_5(x: int) -> int { if x < 0x1e01b { if x < 0x1bc9e { 60 } else { if x < 0x1d185 { 61 } else { 62 } } } else { if x < 0x1e2ec { 63 } else { if x < 0x1e8d0 { 64 } else { 65 } } } }
pub open spec fn U_ccc_b(x: int) -> int { if x < 0x1baa { if x < 0x64f { U_ccc_b_0(x) } else { if x < 0x952 { U_ccc_b_1(x) } else { U_ccc_b_2(x) } } } else { if x < 0xaac1 { U_ccc_b_3(x) } else { if x < 0x11d97 { U_ccc_b_4(x) } else { U_ccc_b_5(x) } } } }
pub open spec fn U_ccc_e_p_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x6400031b0018d000c640062a00314 } else { if i < 2 { 0x6780033800199800ca00064c00322 } else { 0x69c0034c001a4800d180068a00344 } } } else { if i < 4 { 0x6b60035a001ac000d5c006ac00352 } else { if i < 5 { 0x6de00362001b0800d7c006bc0035c } else { 0xb3400599002cb00165400b2200487 } } } } else { if i < 9 { if i < 7 { 0xb58005aa002d480169c00b420059b } else { if i < 8 { 0xb64005b1002d80016bc00b5c005ad } else { 0xb70005b7002db0016d400b68005b3 } } } else { if i < 10 { 0xb82005bf002de8016f000b76005ba } else { if i < 11 { 0xc3000617002e380171400b88005c2 } else { 0xc9c0064d0032600192c00c3400619 } } } } }
pub open spec fn U_ccc_e_p_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0xcac006540032900194400ca00064f } else { if i < 14 { 0xdb8006700032f80197800cb80065b } else { 0xdd8006ea00374001b9000dc6006e2 } } } else { if i < 16 { 0xe680073300398801cc000e22006ed } else { if i < 17 { 0xe7c0073d0039e001ce800e7200736 } else { 0xe8c00745003a2001d0c00e8400741 } } } } else { if i < 21 { if i < 19 { 0xfe6007f2003f8801d2800e9000747 } else { if i < 20 { 0x10b60082d0041380208c01032007fd } else { 0x11c2008d30046700227c0113600898 } } } else { if i < 22 { 0x11d8008e900474002398011ca008e3 } else { if i < 23 { 0x11ec008f5004790023c4011e0008ef } else { 0x12a20094d0049e0023fc011f4008f8 } } } } }
pub open spec fn U_ccc_e_p_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x1478009fe004e68026f0012a800952 } else { if i < 26 { 0x179a00b4d0059e002b340157800a4d } else { 0x199a00cbc0062b0031540189a00c3c } } } else { if i < 28 { 0x1c9600e3a0071c80372801a9a00d3c } else { if i < 29 { 0x1e6e00f350078c803b2c01d7400eb9 } else { 0x1f0000f7d007ba003dc801ee200f39 } } } } else { if i < 33 { if i < 31 { 0x207401037007e3003e1c01f0800f83 } else { if i < 32 { 0x2fba017d200b9a005c54026be0108d } else { 0x343001a1700c9d8064e803272018a9 } } } else { if i < 34 { 0x357801aba00d5a0069fc034f801a60 } else { if i < 35 { 0x359401ac900d62006b080358001abd } else { 0x36e601b6c00db5806d100366801ace } } } } }
pub open spec fn U_ccc_e_p_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x39a801cd200e1b806fcc037cc01bab } else { if i < 38 { 0x39da01ce800e7000737c039b601cd9 } else { 0x3b9401dc900ee1007704039f201cf4 } } } else { if i < 40 { 0x3bea01dd000ee780773803b9a01dcc } else { if i < 41 { 0x3bf801dfb00efd0077e403bf001df6 } else { 0x41ae020d3010688077fc03bfc01dfd } } } } else { if i < 45 { if i < 43 { 0x41d0020e701073008384041b8020da } else { if i < 44 { 0x5afe02cf1010780083bc041d6020e9 } else { 0x605e0302d0181600c0ac0605402dff } } } else { if i < 46 { 0x1500c0a6f10534f8299f414cde0309a } else { if i < 47 { 0x153660a9530549682a3c4151880a82c } else { 0x1557e0aab80555a02aacc155600a9c0 } } } } }
pub open spec fn U_ccc_e_p_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x1fc5a0fe2607d8f02afb4155ec0aac1 } else { if i < 50 { 0x2141e10a0d081bd040b80203fa0fe2f } else { 0x215cc10ae50851f8428e82147210a38 } } } else { if i < 52 { 0x21e9410f470877f843ab021ada10d27 } else { if i < 53 { 0x21f0810f83087c1043d4021e9810f4b } else { 0x22174110b90883f8441c02208c10f85 } } } } else { if i < 57 { if i < 55 { 0x2246a111ca088e00445cc2226811102 } else { if i < 56 { 0x226d81134d0899e044ba8225d211236 } else { 0x229841145e08a23045108227a011374 } } } else { if i < 58 { 0x22d6e116b608b1f84570022b7e114c3 } else { if i < 59 { 0x233c01194308c9f0460e8230721172b } else { 0x23a8a11d4208e1f846a642348e11a34 } } } } }
pub open spec fn U_ccc_e_p_5(i: int) -> int { if i < 63 { if i < 61 { 0x2dfe216b360b57a0584bc23e8411d97 } else { if i < 62 { 0x3a3041d1720e8b68745a43a2cc1bc9e } else { 0x3c0301e0060e9220746b43a3161d189 } } } else { if i < 64 { 0x3c55c1e1360f0478780a83c0481e021 } else { if i < 65 { 0x3cbde1e5ee0f2778793b83c9da1e2ef } else { 0x7a5283d2921e8d6 } } } }
pub open spec fn U_ccc_e_p(i: int) -> int { if i < 36 { if i < 12 { U_ccc_e_p_0(i) } else { if i < 24 { U_ccc_e_p_1(i) } else { U_ccc_e_p_2(i) } } } else { if i < 48 { U_ccc_e_p_3(i) } else { if i < 60 { U_ccc_e_p_4(i) } else { U_ccc_e_p_5(i) } } } }
pub open spec fn U_ccc_e(i: int) -> int { unpack21(U_ccc_e_p(i / 6), i % 6) }
pub open spec fn U_ccc_n() -> int { 393 }
pub open spec fn U_ccc_find(x: int) -> int { let b = U_ccc_b(x); let j = b * 6 + within21(U_ccc_k_p(b), x); if 0 <= j < 393 && U_ccc_k(j) <= x <= U_ccc_e(j) { j } else { -1 } }
pub open spec fn U_ccc_v_p_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0xdce6f0e6dc01dccadccadcd8e8dce8e6 } else { if i < 2 { 0xdce6e6e9eae9eae9e6dce8e6dce6dce6 } else { 0xc0b0ae6e4dee6dce6dce6dcdee6dce6 } } } else { if i < 4 { 0x12dce6191817161514131211100f0e0d } else { if i < 5 { 0xdce6dce62221201f1e1d1c1b201f1ee6 } else { 0xdce6dce624dce6dce6e6dce6e623dce6 } } } } else { if i < 9 { if i < 7 { 0xe6e6dce6dce6dce6dce6dce6dce6dce6 } else { if i < 8 { 0xe6dce6dce6e6dce6dce6e6e6e6dce6dc } else { 0xe60907e6dce6dce61d1c1bdce6dce6dc } } } else { if i < 10 { 0x5b54090709090709070907e60907e6dc } else { if i < 11 { 0x81d8dcdcdc7a09766b09670909090907 } else { 0xe6090909e6dc0907dce609e682828482 } } } } }
pub open spec fn U_ccc_v_p_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0xdce6dcdce6dce6dce609dce6dce6dee4 } else { if i < 14 { 0xe6dc01e607090709e6dce60907e6dce6 } else { 0xe6cadcd6eae6dce6dce6e6e6dc01e6dc } } } else { if i < 16 { 0x1e6e601e601e6dce6dce9e6dadce4e8 } else { if i < 17 { 0xe608e0dee8e4dae609e6e6dc01e6dce6 } else { 0xe6e6dce6e6090709dce6090909e6e6e6 } } } } else { if i < 21 { if i < 19 { 0x9dc01e6e6dce6dcdce6dce61a0909e6 } else { if i < 20 { 0x9dce6dce6dce6dce6dcdce6e6e6dce6 } else { 0xe609070907070907090709e607090909 } } } else { if i < 22 { 0x907090907090907090709e6070909e6 } else { if i < 23 { 0xd80106e6010909090907090909090907 } else { 0xe6e6e6e6e6e6e6e6e6e6dce6dcd8e201 } } } } }
pub open spec fn U_ccc_v_p_2(i: int) -> int { 0x7e6dcdce6e6dce8e6 }
pub open spec fn U_ccc_v_p(i: int) -> int { if i < 12 { U_ccc_v_p_0(i) } else { if i < 24 { U_ccc_v_p_1(i) } else { U_ccc_v_p_2(i) } } }
pub open spec fn U_ccc_v(i: int) -> int { unpack8(U_ccc_v_p(i / 16), i % 16) }
pub open spec fn U_mark_k_p_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0xb88005c1002df8016440090600300 } else { if i < 2 { 0xdbe006d60033800192c00c20005c7 } else { 0xfd6007a600398001c4400dd4006e7 } } } else { if i < 4 { 0x10b2008290041280206c0102c007fd } else { if i < 5 { 0x12a20093e0049d00238c0119400897 } else { 0x1396009c7004df0026f00130200962 } } } } else { if i < 9 { if i < 7 { 0x147c00a3c005008027f8013c4009d7 } else { if i < 8 { 0x150200a75005380029440149600a47 } else { 0x15f400ae200565802b1c0157c00abc } } } else { if i < 10 { 0x16aa00b4b005a3802cf80167800b01 } else { if i < 11 { 0x17ae00bca005e3002ef80170400b62 } else { 0x18aa00c4a006230030f80187800c00 } } } } }
pub open spec fn U_mark_k_p_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x199400cc60065f0032f00190200c62 } else { if i < 14 { 0x1a7c00d3b006800033cc019c400cd5 } else { 0x1b9400d81006b100355c01a9400d46 } } } else { if i < 16 { 0x1c6800e31006f900376001bac00dcf } else { if i < 17 { 0x1e6a00f1800764003ad001d6200e47 } else { 0x1f1a00f86007b8803cf801e7200f37 } } } } else { if i < 21 { if i < 19 { 0x20c40105e0082b0040ac01f8c00f99 } else { if i < 20 { 0x26ba0109a00847804208020e201067 } else { 0x2fba017b400bb9005d4802e6401712 } } } else { if i < 22 { 0x32600192000c548062140301e0180b } else { if i < 23 { 0x360001ab000d3f806980034aa01a17 } else { 0x384801be600dd0806e00036d601b34 } } } } }
pub open spec fn U_mark_k_p_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x3b8001cf700e7a0073b4039a801cd0 } else { if i < 26 { 0x61320302a016f000b5fc059de020d0 } else { 0x1500c0a80205378029a7814ce80a66f } } } else { if i < 28 { 0x151c00a8b40544002a0b0150460a80b } else { if i < 29 { 0x153ca0a9b3054c002a51c1524c0a8ff } else { 0x155640aab00553d82a930154860aa29 } } } } else { if i < 33 { if i < 31 { 0x157c60aaf50557582ab041557c0aab7 } else { if i < 32 { 0x205c0101fd07f1003f8001f63c0abec } else { 0x2147e10a38085060428142140210376 } } } else { if i < 34 { 0x21e8c10efc087558435a421a4810ae5 } else { if i < 35 { 0x220fe11073088380440e02200010f82 } else { 0x222e6111450889384440022184110b0 } } } } }
pub open spec fn U_mark_k_p_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x2247c1122c088e70447242236611180 } else { if i < 38 { 0x2268e1133e0899d844c00225be11241 } else { 0x2277011370089b3044d88226ae1134b } } } else { if i < 40 { 0x227c2113d2089e6044f1c2278a113c2 } else { if i < 41 { 0x22bb8115b808ad78452c0228bc11435 } else { 0x2326e1193008c16045c7422d5611630 } } } } else { if i < 45 { if i < 43 { 0x233c8119da08ce8846508232801193b } else { if i < 44 { 0x2351411a5108d238468ec2346611a01 } else { 0x23a7411d3108e548472482387011c2f } } } else { if i < 46 { 0x23b2611d9008ec504751c23a7e11d3c } else { if i < 47 { 0x23eb411f3e08f9a047c0c23e0011ef3 } else { 0x2de9e16b300b5780584782688e13440 } } } } }
pub open spec fn U_mark_k_p_4(i: int) -> int { if i < 51 { if i < 49 { 0x39e001bc9d0b7f805bf902df1e16f51 } else { if i < 50 { 0x3a3541d1850e8bd8745b43a2ca1cf30 } else { 0x3b5361da840ed3a8768ec3b4001d242 } } } else { if i < 52 { 0x3c04c1e0230f00d8780203c0001daa1 } else { if i < 53 { 0x3cbdc1e4ec0f176078ab83c2601e08f } else { 0x3fffffffffffffffb804003d2881e8d0 } } } }
pub open spec fn U_mark_k_p(i: int) -> int { if i < 24 { if i < 12 { U_mark_k_p_0(i) } else { U_mark_k_p_1(i) } } else { if i < 36 { U_mark_k_p_2(i) } else { if i < 48 { U_mark_k_p_3(i) } else { U_mark_k_p_4(i) } } } }
pub open spec fn U_mark_k(i: int) -> int { unpack21(U_mark_k_p(i / 6), i % 6) }
pub open spec fn U_mark_b_0(x: int) -> int { if x < 0x9d7 { if x < 0x7fd { if x < 0x5c7 { 0 } else { if x < 0x6e7 { 1 } else { 2 } } } else { if x < 0x897 { 3 } else { if x < 0x962 { 4 } else { 5 } } } } else { if x < 0xb01 { if x < 0xa47 { 6 } else { if x < 0xabc { 7 } else { 8 } } } else { if x < 0xb62 { 9 } else { if x < 0xc00 { 10 } else { 11 } } } } }
pub open spec fn U_mark_b_1(x: int) -> int { if x < 0xf99 { if x < 0xdcf { if x < 0xcd5 { 12 } else { if x < 0xd46 { 13 } else { 14 } } } else { if x < 0xe47 { 15 } else { if x < 0xf37 { 16 } else { 17 } } } } else { if x < 0x180b { if x < 0x1067 { 18 } else { if x < 0x1712 { 19 } else { 20 } } } else { if x < 0x1a17 { 21 } else { if x < 0x1b34 { 22 } else { 23 } } } } }
pub open spec fn U_mark_b_2(x: int) -> int { if x < 0xaab7 { if x < 0xa80b { if x < 0x20d0 { 24 } else { if x < 0xa66f { 25 } else { 26 } } } else { if x < 0xa8ff { 27 } else { if x < 0xaa29 { 28 } else { 29 } } } } else { if x < 0x10ae5 { if x < 0xabec { 30 } else { if x < 0x10376 { 31 } else { 32 } } } else { if x < 0x10f82 { 33 } else { if x < 0x110b0 { 34 } else { 35 } } } } }
pub open spec fn U_mark_b_3(x: int) -> int { if x < 0x1193b { if x < 0x113c2 { if x < 0x11241 { 36 } else { if x < 0x1134b { 37 } else { 38 } } } else { if x < 0x11435 { 39 } else { if x < 0x11630 { 40 } else { 41 } } } } else { if x < 0x11d3c { if x < 0x11a01 { 42 } else { if x < 0x11c2f { 43 } else { 44 } } } else { if x < 0x11ef3 { 45 } else { if x < 0x13440 { 46 } else { 47 } } } } }
pub open spec fn U_mark_b_4(x: int) -> int { if x < 0x1daa1 { if x < 0x1cf30 { 48 } else { if x < 0x1d242 { 49 } else { 50 } } } else { if x < 0x1e08f { 51 } else { if x < 0x1e8d0 { 52 } else { 53 } } } }
pub open spec fn U_mark_b(x: int) -> int { if x < 0x1cd0 { if x < 0xc62 { U_mark_b_0(x) } else { U_mark_b_1(x) } } else { if x < 0x11180 { U_mark_b_2(x) } else { if x < 0x16f51 { U_mark_b_3(x) } else { U_mark_b_4(x) } } } }
pub open spec fn U_mark_e_p_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0xb8a005c2002df8016f4009120036f } else { if i < 2 { 0xdc8006dc0033800197c00c34005c7 } else { 0xfe6007b0003a5001c4400dda006e8 } } } else { if i < 4 { 0x10b60082d0041380208c01032007fd } else { if i < 5 { 0x12ae0094f0049e00240c011c20089f } else { 0x139a009c8004e20026f00130600963 } } } } else { if i < 9 { if i < 7 { 0x148400a3c005018027f8013c6009d7 } else { if i < 8 { 0x150600a75005388029440149a00a48 } else { 0x15fe00ae300566802b240158a00abc } } } else { if i < 10 { 0x16ae00b4d005a4002d100167800b03 } else { if i < 11 { 0x17ae00bcd005e4002f080170400b63 } else { 0x18ac00c4d006240031100187800c04 } } } } }
pub open spec fn U_mark_e_p_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x199a00cc8006620032f00190600c63 } else { if i < 14 { 0x1a8800d3c006818033cc019c600cd6 } else { 0x1b9400d83006b180355c01a9a00d48 } } } else { if i < 16 { 0x1c7400e31006f980377c01bac00dd4 } else { if i < 17 { 0x1e6a00f1900767003af001d6200e4e } else { 0x1f2e00f87007c2003cfc01e7200f37 } } } } else { if i < 21 { if i < 19 { 0x20c8010600082c8040f801f8c00fbc } else { if i < 20 { 0x26be0109d00847804234020e80106d } else { 0x2fba017d300bb9805d4c02e6801715 } } } else { if i < 22 { 0x32760192b00c548062180301e0180d } else { if i < 23 { 0x360801ace00d3f8069f0034bc01a1b } else { 0x386e01bf300dd6806e08036e601b44 } } } } }
pub open spec fn U_mark_e_p_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x3bfe01cf900e7a0073b4039d001cd2 } else { if i < 26 { 0x61340302f016ff80b5fc059e2020f0 } else { 0x1500c0a80205378829a7c14cfa0a672 } } } else { if i < 28 { 0x151e20a8c50544082a0b01504e0a80b } else { if i < 29 { 0x153ca0a9c0054c182a54c1525a0a8ff } else { 0x155680aab00553e82a934154860aa36 } } } } else { if i < 33 { if i < 31 { 0x157d40aaf60557782ab041557e0aab8 } else { if i < 32 { 0x205c0101fd07f1783f83c1f63c0abed } else { 0x2147e10a3a08507842818214061037a } } } else { if i < 34 { 0x21ea010eff087560435b421a4e10ae6 } else { if i < 35 { 0x2210411074088380441182200410f85 } else { 0x222e6111460889a04440822184110ba } } } } }
pub open spec fn U_mark_e_p_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x2247c11237088e78447302238011182 } else { if i < 38 { 0x22690113440899e044c0c225d411241 } else { 0x2278011374089b6044d8c226ae1134d } } } else { if i < 40 { 0x227c4113d2089e8044f282278a113c2 } else { if i < 41 { 0x22bba115c008ada84530c228bc11446 } else { 0x232701193508c1d045cac22d6e11640 } } } } else { if i < 45 { if i < 43 { 0x233c8119e008ceb84650c232801193e } else { if i < 44 { 0x2353211a5b08d238468f82347211a0a } else { 0x23a7411d3608e5b04729c2387e11c36 } } } else { if i < 46 { 0x23b2e11d9108ec704751c23a8a11d3d } else { if i < 47 { 0x23eb411f4208f9d047c0c23e0211ef6 } else { 0x2de9e16b360b57a0584bc268aa13440 } } } } }
pub open spec fn U_mark_e_p_4(i: int) -> int { if i < 51 { if i < 49 { 0x39e5a1bc9e0b7f885bf902df2416f87 } else { if i < 50 { 0x3a35a1d18b0e8c10745c83a2d21cf46 } else { 0x3b53e1da840ed3a8769b03b46c1d244 } } } else { if i < 52 { 0x3c0541e0240f0108780603c00c1daaf } else { if i < 53 { 0x3cbde1e4ef0f177878ab83c26c1e08f } else { 0x3807bc3d2941e8d6 } } } }
pub open spec fn U_mark_e_p(i: int) -> int { if i < 24 { if i < 12 { U_mark_e_p_0(i) } else { U_mark_e_p_1(i) } } else { if i < 36 { U_mark_e_p_2(i) } else { if i < 48 { U_mark_e_p_3(i) } else { U_mark_e_p_4(i) } } } }
pub open spec fn U_mark_e(i: int) -> int { unpack21(U_mark_e_p(i / 6), i % 6) }
pub open spec fn U_mark_n() -> int { 321 }
pub open spec fn U_mark_find(x: int) -> int { let b = U_mark_b(x); let j = b * 6 + within21(U_mark_k_p(b), x); if 0 <= j < 321 && U_mark_k(j) <= x <= U_mark_e(j) { j } else { -1 } }
pub open spec fn U_dec_k_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x18a000c40006180030800182000c0 } else { if i < 2 { 0x198000cb0006500032400190000c7 } else { 0x1a6000d20006880033c0019c000cd } } } else { if i < 4 { 0x1b6000da0006c800358001aa000d4 } else { if i < 5 { 0x1c6000e200070800380001ba000dc } else { 0x1d4000e90007400039c001ca000e4 } } } } else { if i < 9 { if i < 7 { 0x1e2000ef000770003b4001d8000eb } else { if i < 8 { 0x1f2000f60007a8003d0001e6000f2 } else { 0x200000ff0007e8003f0001f6000fa } } } else { if i < 10 { 0x20c001050008200040c0020400101 } else { if i < 11 { 0x2180010b000850004240021000107 } else { 0x228001130008900043c0021c0010d } } } } }
pub open spec fn U_dec_k_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x234001190008c00045c0022c00115 } else { if i < 14 { 0x2400011f0008f000474002380011b } else { 0x250001250009200048c0024400121 } } } else { if i < 16 { 0x25c0012d000960004ac0025400129 } else { if i < 17 { 0x26e001360009a8004d0002600012f } else { 0x27c0013d0009e0004ec0027400139 } } } } else { if i < 21 { if i < 19 { 0x29000147000a30005140028800143 } else { if i < 20 { 0x2a200150000a78005380029a0014c } else { 0x2b200158000ab800558002aa00154 } } } else { if i < 22 { 0x2be0015e000ae800570002b60015a } else { if i < 23 { 0x2ca00164000b1800588002c200160 } else { 0x2da0016c000b58005a8002d200168 } } } } }
pub open spec fn U_dec_k_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x2e600172000b88005c0002de0016e } else { if i < 26 { 0x2f200178000bb8005d8002ea00174 } else { 0x3400017e000be8005f0002f60017a } } } else { if i < 28 { 0x39e001ce000e68006c00035e001a1 } else { if i < 29 { 0x3aa001d4000e9800748003a2001d0 } else { 0x3b6001da000ec800760003ae001d6 } } } } else { if i < 33 { if i < 31 { 0x3c4001e1000f000077c003bc001dc } else { if i < 32 { 0x3d4001e9000f400079c003cc001e3 } else { 0x3e0001ef000f70007b4003d8001eb } } } else { if i < 34 { 0x3f6001fa000fc8007e0003ea001f4 } else { if i < 35 { 0x40200200000ff8007f8003fa001fc } else { 0x40e00206001028008100040600202 } } } } }
pub open spec fn U_dec_k_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x41a0020c001058008280041200208 } else { if i < 38 { 0x42600212001088008400041e0020e } else { 0x432002180010b8008580042a00214 } } } else { if i < 40 { 0x44e002260010f800878004360021a } else { if i < 41 { 0x45a0022c001158008a80045200228 } else { 0x46600232001188008c00045e0022e } } } } else { if i < 45 { if i < 43 { 0x6fc00374001a2000d0c0068200340 } else { if i < 44 { 0x71400389001c4000e1c0070c00385 } else { 0x756003aa001c8000e3c0071c0038c } } } else { if i < 46 { 0x794003b0001d7800eb80075a003ac } else { if i < 47 { 0x7a8003d3001e7000f3400798003cb } else { 0x81a0040c0020380100c0080200400 } } } } }
pub open spec fn U_dec_k_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x8a600451002280010e4008320040e } else { if i < 50 { 0x8ee004760022f001174008b800457 } else { 0x9a6004d20026880134000984004c1 } } } else { if i < 52 { 0x9ba004dc0026d801368009ae004d6 } else { if i < 53 { 0x9ca004e400271801388009be004de } else { 0x9da004ec002758013a8009ce004e6 } } } } else { if i < 57 { if i < 55 { 0x9e6004f2002788013c0009de004ee } else { if i < 56 { 0xc46006220027c8013e0009ea004f4 } else { 0xda6006c20036000189800c4a00624 } } } else { if i < 58 { 0x12b400959004ac0024d00126200929 } else { if i < 59 { 0x13960095f004af002574012b80095b } else { 0x146c00a33004ef802774013b8009cc } } } } }
pub open spec fn U_dec_k_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x169600b480052f00296c014b400a59 } else { if i < 62 { 0x179600bca005ca002d74016b800b4c } else { 0x199400cc8006638033000189000bcc } } } else { if i < 64 { 0x1bb800dda006a600352c01a9400ccb } else { if i < 65 { 0x1eae00f52007a6803d0c01bbc00ddd } else { 0x1ef000f76007ba803dcc01ed200f5c } } } } else { if i < 69 { if i < 67 { 0x1f5800fa7007d1003e7401f2600f81 } else { if i < 68 { 0x361801b0a00d84006c180204c00fb9 } else { 0x368201b4000d9e806cec0362401b0e } } } else { if i < 70 { 0x3c0801e0300f0100780403c0001b43 } else { if i < 71 { 0x3c1401e0900f0400781c03c0c01e05 } else { 0x3c2001e0f00f0700783403c1801e0b } } } } }
pub open spec fn U_dec_k_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x3c2c01e1500f0a00784c03c2401e11 } else { if i < 74 { 0x3c3801e1b00f0d00786403c3001e17 } else { 0x3c4401e2100f1000787c03c3c01e1d } } } else { if i < 76 { 0x3c5001e2700f1300789403c4801e23 } else { if i < 77 { 0x3c5c01e2d00f160078ac03c5401e29 } else { 0x3c6801e3300f190078c403c6001e2f } } } } else { if i < 81 { if i < 79 { 0x3c7401e3900f1c0078dc03c6c01e35 } else { if i < 80 { 0x3c8001e3f00f1f0078f403c7801e3b } else { 0x3c8c01e4500f2200790c03c8401e41 } } } else { if i < 82 { 0x3c9801e4b00f2500792403c9001e47 } else { if i < 83 { 0x3ca401e5100f2800793c03c9c01e4d } else { 0x3cb001e5700f2b00795403ca801e53 } } } } }
pub open spec fn U_dec_k_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x3cbc01e5d00f2e00796c03cb401e59 } else { if i < 86 { 0x3cc801e6300f3100798403cc001e5f } else { 0x3cd401e6900f3400799c03ccc01e65 } } } else { if i < 88 { 0x3ce001e6f00f370079b403cd801e6b } else { if i < 89 { 0x3cec01e7500f3a0079cc03ce401e71 } else { 0x3cf801e7b00f3d0079e403cf001e77 } } } } else { if i < 93 { if i < 91 { 0x3d0401e8100f400079fc03cfc01e7d } else { if i < 92 { 0x3d1001e8700f43007a1403d0801e83 } else { 0x3d1c01e8d00f46007a2c03d1401e89 } } } else { if i < 94 { 0x3d2801e9300f49007a4403d2001e8f } else { if i < 95 { 0x3d3601e9900f4c007a5c03d2c01e95 } else { 0x3d4a01ea400f51807a8803d4201ea0 } } } } }
pub open spec fn U_dec_k_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x3d5601eaa00f54807aa003d4e01ea6 } else { if i < 98 { 0x3d6201eb000f57807ab803d5a01eac } else { 0x3d6e01eb600f5a807ad003d6601eb2 } } } else { if i < 100 { 0x3d7a01ebc00f5d807ae803d7201eb8 } else { if i < 101 { 0x3d8601ec200f60807b0003d7e01ebe } else { 0x3d9201ec800f63807b1803d8a01ec4 } } } } else { if i < 105 { if i < 103 { 0x3d9e01ece00f66807b3003d9601eca } else { if i < 104 { 0x3daa01ed400f69807b4803da201ed0 } else { 0x3db601eda00f6c807b6003dae01ed6 } } } else { if i < 106 { 0x3dc201ee000f6f807b7803dba01edc } else { if i < 107 { 0x3dce01ee600f72807b9003dc601ee2 } else { 0x3dda01eec00f75807ba803dd201ee8 } } } } }
pub open spec fn U_dec_k_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x3de601ef200f78807bc003dde01eee } else { if i < 110 { 0x3df201ef800f7b807bd803dea01ef4 } else { 0x3e0a01f0400f81807c0803e0201f00 } } } else { if i < 112 { 0x3e1601f0a00f84807c2003e0e01f06 } else { if i < 113 { 0x3e2201f1000f87807c3803e1a01f0c } else { 0x3e3201f1800f8a807c5003e2601f12 } } } } else { if i < 117 { if i < 115 { 0x3e4201f2000f8e807c7003e3601f1a } else { if i < 116 { 0x3e4e01f2600f92807c9003e4601f22 } else { 0x3e5a01f2c00f95807ca803e5201f28 } } } else { if i < 118 { 0x3e6601f3200f98807cc003e5e01f2e } else { if i < 119 { 0x3e7201f3800f9b807cd803e6a01f34 } else { 0x3e7e01f3e00f9e807cf003e7601f3a } } } } }
pub open spec fn U_dec_k_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x3e8a01f4400fa1807d0803e8201f40 } else { if i < 122 { 0x3e9a01f4c00fa5807d2803e9201f48 } else { 0x3eaa01f5400fa9807d4803ea201f50 } } } else { if i < 124 { 0x3ebe01f5d00fad807d6403eae01f56 } else { if i < 125 { 0x3eca01f6400fb1807d8803ec201f60 } else { 0x3ed601f6a00fb4807da003ece01f66 } } } } else { if i < 129 { if i < 127 { 0x3ee201f7000fb7807db803eda01f6c } else { if i < 128 { 0x3eee01f7600fba807dd003ee601f72 } else { 0x3efa01f7c00fbd807de803ef201f78 } } } else { if i < 130 { 0x3f0a01f8400fc1807e0803f0201f80 } else { if i < 131 { 0x3f1601f8a00fc4807e2003f0e01f86 } else { 0x3f2201f9000fc7807e3803f1a01f8c } } } } }
pub open spec fn U_dec_k_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x3f2e01f9600fca807e5003f2601f92 } else { if i < 134 { 0x3f3a01f9c00fcd807e6803f3201f98 } else { 0x3f4601fa200fd0807e8003f3e01f9e } } } else { if i < 136 { 0x3f5201fa800fd3807e9803f4a01fa4 } else { if i < 137 { 0x3f5e01fae00fd6807eb003f5601faa } else { 0x3f6c01fb400fd9807ec803f6201fb0 } } } } else { if i < 141 { if i < 139 { 0x3f7801fbb00fdd007ee403f7001fb7 } else { if i < 140 { 0x3f8c01fc400fe1807f0803f8201fbe } else { 0x3f9801fcb00fe5007f2403f9001fc7 } } } else { if i < 142 { 0x3fa401fd100fe8007f3c03f9c01fcd } else { if i < 143 { 0x3fb401fd900fec007f5c03fac01fd3 } else { 0x3fc201fe000fef807f7803fba01fdb } } } } }
pub open spec fn U_dec_k_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_dec_k_p_0_0(i) } else { if i < 24 { U_dec_k_p_0_1(i) } else { U_dec_k_p_0_2(i) } } } else { if i < 48 { U_dec_k_p_0_3(i) } else { if i < 60 { U_dec_k_p_0_4(i) } else { U_dec_k_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_dec_k_p_0_6(i) } else { if i < 96 { U_dec_k_p_0_7(i) } else { U_dec_k_p_0_8(i) } } } else { if i < 120 { U_dec_k_p_0_9(i) } else { if i < 132 { U_dec_k_p_0_10(i) } else { U_dec_k_p_0_11(i) } } } } }
pub open spec fn U_dec_k_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x3fce01fe600ff2807f9003fc601fe2 } else { if i < 146 { 0x3fda01fec00ff5807fa803fd201fe8 } else { 0x3fec01ff400ff9807fc803fde01fee } } } else { if i < 148 { 0x3ff801ffb00ffd007fe403ff001ff7 } else { if i < 149 { 0x42560212a010930080040400001ffd } else { 0x439e021ce010e68086b8043360219a } } } } else { if i < 153 { if i < 151 { 0x448202226011120088300441202204 } else { if i < 152 { 0x44da02262011300089240448e02244 } else { 0x44ea02274011388089c0044de0226e } } } else { if i < 154 { 0x450a0228401140808a00044f202278 } else { if i < 155 { 0x455e022ae01156808ab00451202288 } else { 0x45d6022ea01171808b88045c2022e0 } } } } }
pub open spec fn U_dec_k_p_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x609802adc01195008ca4045da022ec } else { if i < 158 { 0x60b0030560182a00c148060a00304e } else { 0x60ca030620183000c178060b80305a } } } else { if i < 160 { 0x60e8030730183880c1c0060d203067 } else { if i < 161 { 0x60fa0307c0183d00c1e4060ee03076 } else { 0x6164030b00185700c2b00613c03094 } } } } else { if i < 165 { if i < 163 { 0x617c030bc0185d00c2e00616c030b4 } else { if i < 164 { 0x61a0030c90186380c31406184030c0 } else { 0x61b2030d70186b00c350061a6030d1 } } } else { if i < 166 { 0x61f0030f70187a00c374061b8030da } else { if i < 167 { 0x1f2040f90107c8000c3f8061f4030f9 } else { 0x1f2100f90707c8303e4141f2080f903 } } } } }
pub open spec fn U_dec_k_p_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x1f21c0f90d07c8603e42c1f2140f909 } else { if i < 170 { 0x1f2280f91307c8903e4441f2200f90f } else { 0x1f2340f91907c8c03e45c1f22c0f915 } } } else { if i < 172 { 0x1f2400f91f07c8f03e4741f2380f91b } else { if i < 173 { 0x1f24c0f92507c9203e48c1f2440f921 } else { 0x1f2580f92b07c9503e4a41f2500f927 } } } } else { if i < 177 { if i < 175 { 0x1f2640f93107c9803e4bc1f25c0f92d } else { if i < 176 { 0x1f2700f93707c9b03e4d41f2680f933 } else { 0x1f27c0f93d07c9e03e4ec1f2740f939 } } } else { if i < 178 { 0x1f2880f94307ca103e5041f2800f93f } else { if i < 179 { 0x1f2940f94907ca403e51c1f28c0f945 } else { 0x1f2a00f94f07ca703e5341f2980f94b } } } } }
pub open spec fn U_dec_k_p_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x1f2ac0f95507caa03e54c1f2a40f951 } else { if i < 182 { 0x1f2b80f95b07cad03e5641f2b00f957 } else { 0x1f2c40f96107cb003e57c1f2bc0f95d } } } else { if i < 184 { 0x1f2d00f96707cb303e5941f2c80f963 } else { if i < 185 { 0x1f2dc0f96d07cb603e5ac1f2d40f969 } else { 0x1f2e80f97307cb903e5c41f2e00f96f } } } } else { if i < 189 { if i < 187 { 0x1f2f40f97907cbc03e5dc1f2ec0f975 } else { if i < 188 { 0x1f3000f97f07cbf03e5f41f2f80f97b } else { 0x1f30c0f98507cc203e60c1f3040f981 } } } else { if i < 190 { 0x1f3180f98b07cc503e6241f3100f987 } else { if i < 191 { 0x1f3240f99107cc803e63c1f31c0f98d } else { 0x1f3300f99707ccb03e6541f3280f993 } } } } }
pub open spec fn U_dec_k_p_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x1f33c0f99d07cce03e66c1f3340f999 } else { if i < 194 { 0x1f3480f9a307cd103e6841f3400f99f } else { 0x1f3540f9a907cd403e69c1f34c0f9a5 } } } else { if i < 196 { 0x1f3600f9af07cd703e6b41f3580f9ab } else { if i < 197 { 0x1f36c0f9b507cda03e6cc1f3640f9b1 } else { 0x1f3780f9bb07cdd03e6e41f3700f9b7 } } } } else { if i < 201 { if i < 199 { 0x1f3840f9c107ce003e6fc1f37c0f9bd } else { if i < 200 { 0x1f3900f9c707ce303e7141f3880f9c3 } else { 0x1f39c0f9cd07ce603e72c1f3940f9c9 } } } else { if i < 202 { 0x1f3a80f9d307ce903e7441f3a00f9cf } else { if i < 203 { 0x1f3b40f9d907cec03e75c1f3ac0f9d5 } else { 0x1f3c00f9df07cef03e7741f3b80f9db } } } } }
pub open spec fn U_dec_k_p_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x1f3cc0f9e507cf203e78c1f3c40f9e1 } else { if i < 206 { 0x1f3d80f9eb07cf503e7a41f3d00f9e7 } else { 0x1f3e40f9f107cf803e7bc1f3dc0f9ed } } } else { if i < 208 { 0x1f3f00f9f707cfb03e7d41f3e80f9f3 } else { if i < 209 { 0x1f3fc0f9fd07cfe03e7ec1f3f40f9f9 } else { 0x1f4080fa0307d0103e8041f4000f9ff } } } } else { if i < 213 { if i < 211 { 0x1f4140fa0907d0403e81c1f40c0fa05 } else { if i < 212 { 0x1f42a0fa1207d0803e8341f4180fa0b } else { 0x1f4360fa1a07d0c83e8601f42e0fa16 } } } else { if i < 214 { 0x1f44a0fa2207d1003e8781f43a0fa1c } else { if i < 215 { 0x1f45c0fa2d07d1603e8ac1f4540fa26 } else { 0x1f4680fa3307d1903e8c41f4600fa2f } } } } }
pub open spec fn U_dec_k_p_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0x1f4740fa3907d1c03e8dc1f46c0fa35 } else { if i < 218 { 0x1f4800fa3f07d1f03e8f41f4780fa3b } else { 0x1f48c0fa4507d2203e90c1f4840fa41 } } } else { if i < 220 { 0x1f4980fa4b07d2503e9241f4900fa47 } else { if i < 221 { 0x1f4a40fa5107d2803e93c1f49c0fa4d } else { 0x1f4b00fa5707d2b03e9541f4a80fa53 } } } } else { if i < 225 { if i < 223 { 0x1f4bc0fa5d07d2e03e96c1f4b40fa59 } else { if i < 224 { 0x1f4c80fa6307d3103e9841f4c00fa5f } else { 0x1f4d40fa6907d3403e99c1f4cc0fa65 } } } else { if i < 226 { 0x1f4e40fa7107d3803e9b41f4d80fa6b } else { if i < 227 { 0x1f4f00fa7707d3b03e9d41f4e80fa73 } else { 0x1f4fc0fa7d07d3e03e9ec1f4f40fa79 } } } } }
pub open spec fn U_dec_k_p_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x1f5080fa8307d4103ea041f5000fa7f } else { if i < 230 { 0x1f5140fa8907d4403ea1c1f50c0fa85 } else { 0x1f5200fa8f07d4703ea341f5180fa8b } } } else { if i < 232 { 0x1f52c0fa9507d4a03ea4c1f5240fa91 } else { if i < 233 { 0x1f5380fa9b07d4d03ea641f5300fa97 } else { 0x1f5440faa107d5003ea7c1f53c0fa9d } } } } else { if i < 237 { if i < 235 { 0x1f5500faa707d5303ea941f5480faa3 } else { if i < 236 { 0x1f55c0faad07d5603eaac1f5540faa9 } else { 0x1f5680fab307d5903eac41f5600faaf } } } else { if i < 238 { 0x1f5740fab907d5c03eadc1f56c0fab5 } else { if i < 239 { 0x1f5800fabf07d5f03eaf41f5780fabb } else { 0x1f58c0fac507d6203eb0c1f5840fac1 } } } } }
pub open spec fn U_dec_k_p_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x1f5980facb07d6503eb241f5900fac7 } else { if i < 242 { 0x1f5a40fad107d6803eb3c1f59c0facd } else { 0x1f5b00fad707d6b03eb541f5a80fad3 } } } else { if i < 244 { 0x1f6580fb2b07d9503ec7c1f63a0fad9 } else { if i < 245 { 0x1f6640fb3107d9803ecbc1f65c0fb2d } else { 0x1f6720fb3807d9b03ecd41f6680fb33 } } } } else { if i < 249 { if i < 247 { 0x1f6820fb4007d9f03ecf01f6760fb3a } else { if i < 248 { 0x1f6920fb4807da383ed181f6880fb43 } else { 0x20b920fb4e07da683ed301f6960fb4a } } } else { if i < 250 { 0x2225e1112e0885584427022134105e4 } else { if i < 251 { 0x227221138e089c2844e0c226981134b } else { 0x2297c114bc08a5d844f202278e113c5 } } } } }
pub open spec fn U_dec_k_p_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x2c246161220b0908464e022b76115ba } else { if i < 254 { 0x2dad0161280b0938584982c24a16124 } else { 0x3a2c21d1600e8af8745782dad416d69 } } } else { if i < 256 { 0x3a37a1d1bc0e8dd8745903a2c61d162 } else { if i < 257 { 0x5f0042f80117c000747003a37e1d1be } else { 0x5f0102f80717c030be0145f0082f803 } } } } else { if i < 261 { if i < 259 { 0x5f01c2f80d17c060be02c5f0142f809 } else { if i < 260 { 0x5f0282f81317c090be0445f0202f80f } else { 0x5f0342f81917c0c0be05c5f02c2f815 } } } else { if i < 262 { 0x5f0402f81f17c0f0be0745f0382f81b } else { if i < 263 { 0x5f04c2f82517c120be08c5f0442f821 } else { 0x5f0582f82b17c150be0a45f0502f827 } } } } }
pub open spec fn U_dec_k_p_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x5f0642f83117c180be0bc5f05c2f82d } else { if i < 266 { 0x5f0702f83717c1b0be0d45f0682f833 } else { 0x5f07c2f83d17c1e0be0ec5f0742f839 } } } else { if i < 268 { 0x5f0882f84317c210be1045f0802f83f } else { if i < 269 { 0x5f0942f84917c240be11c5f08c2f845 } else { 0x5f0a02f84f17c270be1345f0982f84b } } } } else { if i < 273 { if i < 271 { 0x5f0ac2f85517c2a0be14c5f0a42f851 } else { if i < 272 { 0x5f0b82f85b17c2d0be1645f0b02f857 } else { 0x5f0c42f86117c300be17c5f0bc2f85d } } } else { if i < 274 { 0x5f0d02f86717c330be1945f0c82f863 } else { if i < 275 { 0x5f0dc2f86d17c360be1ac5f0d42f869 } else { 0x5f0e82f87317c390be1c45f0e02f86f } } } } }
pub open spec fn U_dec_k_p_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x5f0f42f87917c3c0be1dc5f0ec2f875 } else { if i < 278 { 0x5f1002f87f17c3f0be1f45f0f82f87b } else { 0x5f10c2f88517c420be20c5f1042f881 } } } else { if i < 280 { 0x5f1182f88b17c450be2245f1102f887 } else { if i < 281 { 0x5f1242f89117c480be23c5f11c2f88d } else { 0x5f1302f89717c4b0be2545f1282f893 } } } } else { if i < 285 { if i < 283 { 0x5f13c2f89d17c4e0be26c5f1342f899 } else { if i < 284 { 0x5f1482f8a317c510be2845f1402f89f } else { 0x5f1542f8a917c540be29c5f14c2f8a5 } } } else { if i < 286 { 0x5f1602f8af17c570be2b45f1582f8ab } else { if i < 287 { 0x5f16c2f8b517c5a0be2cc5f1642f8b1 } else { 0x5f1782f8bb17c5d0be2e45f1702f8b7 } } } } }
pub open spec fn U_dec_k_p_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_dec_k_p_1_0(i) } else { if i < 168 { U_dec_k_p_1_1(i) } else { U_dec_k_p_1_2(i) } } } else { if i < 192 { U_dec_k_p_1_3(i) } else { if i < 204 { U_dec_k_p_1_4(i) } else { U_dec_k_p_1_5(i) } } } } else { if i < 252 { if i < 228 { U_dec_k_p_1_6(i) } else { if i < 240 { U_dec_k_p_1_7(i) } else { U_dec_k_p_1_8(i) } } } else { if i < 264 { U_dec_k_p_1_9(i) } else { if i < 276 { U_dec_k_p_1_10(i) } else { U_dec_k_p_1_11(i) } } } } }
pub open spec fn U_dec_k_p_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x5f1842f8c117c600be2fc5f17c2f8bd } else { if i < 290 { 0x5f1902f8c717c630be3145f1882f8c3 } else { 0x5f19c2f8cd17c660be32c5f1942f8c9 } } } else { if i < 292 { 0x5f1a82f8d317c690be3445f1a02f8cf } else { if i < 293 { 0x5f1b42f8d917c6c0be35c5f1ac2f8d5 } else { 0x5f1c02f8df17c6f0be3745f1b82f8db } } } } else { if i < 297 { if i < 295 { 0x5f1cc2f8e517c720be38c5f1c42f8e1 } else { if i < 296 { 0x5f1d82f8eb17c750be3a45f1d02f8e7 } else { 0x5f1e42f8f117c780be3bc5f1dc2f8ed } } } else { if i < 298 { 0x5f1f02f8f717c7b0be3d45f1e82f8f3 } else { if i < 299 { 0x5f1fc2f8fd17c7e0be3ec5f1f42f8f9 } else { 0x5f2082f90317c810be4045f2002f8ff } } } } }
pub open spec fn U_dec_k_p_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x5f2142f90917c840be41c5f20c2f905 } else { if i < 302 { 0x5f2202f90f17c870be4345f2182f90b } else { 0x5f22c2f91517c8a0be44c5f2242f911 } } } else { if i < 304 { 0x5f2382f91b17c8d0be4645f2302f917 } else { if i < 305 { 0x5f2442f92117c900be47c5f23c2f91d } else { 0x5f2502f92717c930be4945f2482f923 } } } } else { if i < 309 { if i < 307 { 0x5f25c2f92d17c960be4ac5f2542f929 } else { if i < 308 { 0x5f2682f93317c990be4c45f2602f92f } else { 0x5f2742f93917c9c0be4dc5f26c2f935 } } } else { if i < 310 { 0x5f2802f93f17c9f0be4f45f2782f93b } else { if i < 311 { 0x5f28c2f94517ca20be50c5f2842f941 } else { 0x5f2982f94b17ca50be5245f2902f947 } } } } }
pub open spec fn U_dec_k_p_2_2(i: int) -> int { if i < 318 { if i < 315 { if i < 313 { 0x5f2a42f95117ca80be53c5f29c2f94d } else { if i < 314 { 0x5f2b02f95717cab0be5545f2a82f953 } else { 0x5f2bc2f95d17cae0be56c5f2b42f959 } } } else { if i < 316 { 0x5f2c82f96317cb10be5845f2c02f95f } else { if i < 317 { 0x5f2d42f96917cb40be59c5f2cc2f965 } else { 0x5f2e02f96f17cb70be5b45f2d82f96b } } } } else { if i < 321 { if i < 319 { 0x5f2ec2f97517cba0be5cc5f2e42f971 } else { if i < 320 { 0x5f2f82f97b17cbd0be5e45f2f02f977 } else { 0x5f3042f98117cc00be5fc5f2fc2f97d } } } else { if i < 322 { 0x5f3102f98717cc30be6145f3082f983 } else { if i < 323 { 0x5f31c2f98d17cc60be62c5f3142f989 } else { 0x5f3282f99317cc90be6445f3202f98f } } } } }
pub open spec fn U_dec_k_p_2_3(i: int) -> int { if i < 330 { if i < 327 { if i < 325 { 0x5f3342f99917ccc0be65c5f32c2f995 } else { if i < 326 { 0x5f3402f99f17ccf0be6745f3382f99b } else { 0x5f34c2f9a517cd20be68c5f3442f9a1 } } } else { if i < 328 { 0x5f3582f9ab17cd50be6a45f3502f9a7 } else { if i < 329 { 0x5f3642f9b117cd80be6bc5f35c2f9ad } else { 0x5f3702f9b717cdb0be6d45f3682f9b3 } } } } else { if i < 333 { if i < 331 { 0x5f37c2f9bd17cde0be6ec5f3742f9b9 } else { if i < 332 { 0x5f3882f9c317ce10be7045f3802f9bf } else { 0x5f3942f9c917ce40be71c5f38c2f9c5 } } } else { if i < 334 { 0x5f3a02f9cf17ce70be7345f3982f9cb } else { if i < 335 { 0x5f3ac2f9d517cea0be74c5f3a42f9d1 } else { 0x5f3b82f9db17ced0be7645f3b02f9d7 } } } } }
pub open spec fn U_dec_k_p_2_4(i: int) -> int { if i < 341 { if i < 338 { if i < 337 { 0x5f3c42f9e117cf00be77c5f3bc2f9dd } else { 0x5f3d02f9e717cf30be7945f3c82f9e3 } } else { if i < 339 { 0x5f3dc2f9ed17cf60be7ac5f3d42f9e9 } else { if i < 340 { 0x5f3e82f9f317cf90be7c45f3e02f9ef } else { 0x5f3f42f9f917cfc0be7dc5f3ec2f9f5 } } } } else { if i < 344 { if i < 342 { 0x5f4002f9ff17cff0be7f45f3f82f9fb } else { if i < 343 { 0x5f40c2fa0517d020be80c5f4042fa01 } else { 0x5f4182fa0b17d050be8245f4102fa07 } } } else { if i < 345 { 0x5f4242fa1117d080be83c5f41c2fa0d } else { if i < 346 { 0x5f4302fa1717d0b0be8545f4282fa13 } else { 0x3ffffe2fa1d17d0e0be86c5f4342fa19 } } } } }
pub open spec fn U_dec_k_p_2(i: int) -> int { if i < 312 { if i < 300 { U_dec_k_p_2_0(i) } else { U_dec_k_p_2_1(i) } } else { if i < 324 { U_dec_k_p_2_2(i) } else { if i < 336 { U_dec_k_p_2_3(i) } else { U_dec_k_p_2_4(i) } } } }
pub open spec fn U_dec_k_p(i: int) -> int { if i < 144 { U_dec_k_p_0(i) } else { if i < 288 { U_dec_k_p_1(i) } else { U_dec_k_p_2(i) } } }
pub open spec fn U_dec_k(i: int) -> int { unpack21(U_dec_k_p(i / 6), i % 6) }
pub open spec fn U_dec_b_0_0(x: int) -> int { if x < 0xeb { if x < 0xd4 { if x < 0xc7 { 0 } else { if x < 0xcd { 1 } else { 2 } } } else { if x < 0xdc { 3 } else { if x < 0xe4 { 4 } else { 5 } } } } else { if x < 0x101 { if x < 0xf2 { 6 } else { if x < 0xfa { 7 } else { 8 } } } else { if x < 0x107 { 9 } else { if x < 0x10d { 10 } else { 11 } } } } }
pub open spec fn U_dec_b_0_1(x: int) -> int { if x < 0x143 { if x < 0x129 { if x < 0x11b { 12 } else { if x < 0x121 { 13 } else { 14 } } } else { if x < 0x12f { 15 } else { if x < 0x139 { 16 } else { 17 } } } } else { if x < 0x15a { if x < 0x14c { 18 } else { if x < 0x154 { 19 } else { 20 } } } else { if x < 0x160 { 21 } else { if x < 0x168 { 22 } else { 23 } } } } }
pub open spec fn U_dec_b_0_2(x: int) -> int { if x < 0x1dc { if x < 0x1a1 { if x < 0x174 { 24 } else { if x < 0x17a { 25 } else { 26 } } } else { if x < 0x1d0 { 27 } else { if x < 0x1d6 { 28 } else { 29 } } } } else { if x < 0x1f4 { if x < 0x1e3 { 30 } else { if x < 0x1eb { 31 } else { 32 } } } else { if x < 0x1fc { 33 } else { if x < 0x202 { 34 } else { 35 } } } } }
pub open spec fn U_dec_b_0_3(x: int) -> int { if x < 0x340 { if x < 0x21a { if x < 0x20e { 36 } else { if x < 0x214 { 37 } else { 38 } } } else { if x < 0x228 { 39 } else { if x < 0x22e { 40 } else { 41 } } } } else { if x < 0x3ac { if x < 0x385 { 42 } else { if x < 0x38c { 43 } else { 44 } } } else { if x < 0x3cb { 45 } else { if x < 0x400 { 46 } else { 47 } } } } }
pub open spec fn U_dec_b_0_4(x: int) -> int { if x < 0x4ee { if x < 0x4d6 { if x < 0x457 { 48 } else { if x < 0x4c1 { 49 } else { 50 } } } else { if x < 0x4de { 51 } else { if x < 0x4e6 { 52 } else { 53 } } } } else { if x < 0x929 { if x < 0x4f4 { 54 } else { if x < 0x624 { 55 } else { 56 } } } else { if x < 0x95b { 57 } else { if x < 0x9cc { 58 } else { 59 } } } } }
pub open spec fn U_dec_b_0_5(x: int) -> int { if x < 0xf81 { if x < 0xccb { if x < 0xb4c { 60 } else { if x < 0xbcc { 61 } else { 62 } } } else { if x < 0xddd { 63 } else { if x < 0xf5c { 64 } else { 65 } } } } else { if x < 0x1b43 { if x < 0xfb9 { 66 } else { if x < 0x1b0e { 67 } else { 68 } } } else { if x < 0x1e05 { 69 } else { if x < 0x1e0b { 70 } else { 71 } } } } }
pub open spec fn U_dec_b_0_6(x: int) -> int { if x < 0x1e35 { if x < 0x1e23 { if x < 0x1e17 { 72 } else { if x < 0x1e1d { 73 } else { 74 } } } else { if x < 0x1e29 { 75 } else { if x < 0x1e2f { 76 } else { 77 } } } } else { if x < 0x1e47 { if x < 0x1e3b { 78 } else { if x < 0x1e41 { 79 } else { 80 } } } else { if x < 0x1e4d { 81 } else { if x < 0x1e53 { 82 } else { 83 } } } } }
pub open spec fn U_dec_b_0_7(x: int) -> int { if x < 0x1e7d { if x < 0x1e6b { if x < 0x1e5f { 84 } else { if x < 0x1e65 { 85 } else { 86 } } } else { if x < 0x1e71 { 87 } else { if x < 0x1e77 { 88 } else { 89 } } } } else { if x < 0x1e8f { if x < 0x1e83 { 90 } else { if x < 0x1e89 { 91 } else { 92 } } } else { if x < 0x1e95 { 93 } else { if x < 0x1ea0 { 94 } else { 95 } } } } }
pub open spec fn U_dec_b_0_8(x: int) -> int { if x < 0x1eca { if x < 0x1eb8 { if x < 0x1eac { 96 } else { if x < 0x1eb2 { 97 } else { 98 } } } else { if x < 0x1ebe { 99 } else { if x < 0x1ec4 { 100 } else { 101 } } } } else { if x < 0x1edc { if x < 0x1ed0 { 102 } else { if x < 0x1ed6 { 103 } else { 104 } } } else { if x < 0x1ee2 { 105 } else { if x < 0x1ee8 { 106 } else { 107 } } } } }
pub open spec fn U_dec_b_0_9(x: int) -> int { if x < 0x1f1a { if x < 0x1f06 { if x < 0x1ef4 { 108 } else { if x < 0x1f00 { 109 } else { 110 } } } else { if x < 0x1f0c { 111 } else { if x < 0x1f12 { 112 } else { 113 } } } } else { if x < 0x1f2e { if x < 0x1f22 { 114 } else { if x < 0x1f28 { 115 } else { 116 } } } else { if x < 0x1f34 { 117 } else { if x < 0x1f3a { 118 } else { 119 } } } } }
pub open spec fn U_dec_b_0_10(x: int) -> int { if x < 0x1f6c { if x < 0x1f56 { if x < 0x1f48 { 120 } else { if x < 0x1f50 { 121 } else { 122 } } } else { if x < 0x1f60 { 123 } else { if x < 0x1f66 { 124 } else { 125 } } } } else { if x < 0x1f80 { if x < 0x1f72 { 126 } else { if x < 0x1f78 { 127 } else { 128 } } } else { if x < 0x1f86 { 129 } else { if x < 0x1f8c { 130 } else { 131 } } } } }
pub open spec fn U_dec_b_0_11(x: int) -> int { if x < 0x1fb7 { if x < 0x1fa4 { if x < 0x1f98 { 132 } else { if x < 0x1f9e { 133 } else { 134 } } } else { if x < 0x1faa { 135 } else { if x < 0x1fb0 { 136 } else { 137 } } } } else { if x < 0x1fcd { if x < 0x1fbe { 138 } else { if x < 0x1fc7 { 139 } else { 140 } } } else { if x < 0x1fd3 { 141 } else { if x < 0x1fdb { 142 } else { 143 } } } } }
pub open spec fn U_dec_b_0(x: int) -> int { if x < 0x1e11 { if x < 0x208 { if x < 0x115 { U_dec_b_0_0(x) } else { if x < 0x16e { U_dec_b_0_1(x) } else { U_dec_b_0_2(x) } } } else { if x < 0x40e { U_dec_b_0_3(x) } else { if x < 0xa59 { U_dec_b_0_4(x) } else { U_dec_b_0_5(x) } } } } else { if x < 0x1eee { if x < 0x1e59 { U_dec_b_0_6(x) } else { if x < 0x1ea6 { U_dec_b_0_7(x) } else { U_dec_b_0_8(x) } } } else { if x < 0x1f40 { U_dec_b_0_9(x) } else { if x < 0x1f92 { U_dec_b_0_10(x) } else { U_dec_b_0_11(x) } } } } }
pub open spec fn U_dec_b_1_0(x: int) -> int { if x < 0x2204 { if x < 0x1ff7 { if x < 0x1fe8 { 144 } else { if x < 0x1fee { 145 } else { 146 } } } else { if x < 0x1ffd { 147 } else { if x < 0x219a { 148 } else { 149 } } } } else { if x < 0x2278 { if x < 0x2244 { 150 } else { if x < 0x226e { 151 } else { 152 } } } else { if x < 0x2288 { 153 } else { if x < 0x22e0 { 154 } else { 155 } } } } }
pub open spec fn U_dec_b_1_1(x: int) -> int { if x < 0x30b4 { if x < 0x3067 { if x < 0x304e { 156 } else { if x < 0x305a { 157 } else { 158 } } } else { if x < 0x3076 { 159 } else { if x < 0x3094 { 160 } else { 161 } } } } else { if x < 0x30da { if x < 0x30c0 { 162 } else { if x < 0x30d1 { 163 } else { 164 } } } else { if x < 0x30f9 { 165 } else { if x < 0xf903 { 166 } else { 167 } } } } }
pub open spec fn U_dec_b_1_2(x: int) -> int { if x < 0xf92d { if x < 0xf91b { if x < 0xf90f { 168 } else { if x < 0xf915 { 169 } else { 170 } } } else { if x < 0xf921 { 171 } else { if x < 0xf927 { 172 } else { 173 } } } } else { if x < 0xf93f { if x < 0xf933 { 174 } else { if x < 0xf939 { 175 } else { 176 } } } else { if x < 0xf945 { 177 } else { if x < 0xf94b { 178 } else { 179 } } } } }
pub open spec fn U_dec_b_1_3(x: int) -> int { if x < 0xf975 { if x < 0xf963 { if x < 0xf957 { 180 } else { if x < 0xf95d { 181 } else { 182 } } } else { if x < 0xf969 { 183 } else { if x < 0xf96f { 184 } else { 185 } } } } else { if x < 0xf987 { if x < 0xf97b { 186 } else { if x < 0xf981 { 187 } else { 188 } } } else { if x < 0xf98d { 189 } else { if x < 0xf993 { 190 } else { 191 } } } } }
pub open spec fn U_dec_b_1_4(x: int) -> int { if x < 0xf9bd { if x < 0xf9ab { if x < 0xf99f { 192 } else { if x < 0xf9a5 { 193 } else { 194 } } } else { if x < 0xf9b1 { 195 } else { if x < 0xf9b7 { 196 } else { 197 } } } } else { if x < 0xf9cf { if x < 0xf9c3 { 198 } else { if x < 0xf9c9 { 199 } else { 200 } } } else { if x < 0xf9d5 { 201 } else { if x < 0xf9db { 202 } else { 203 } } } } }
pub open spec fn U_dec_b_1_5(x: int) -> int { if x < 0xfa05 { if x < 0xf9f3 { if x < 0xf9e7 { 204 } else { if x < 0xf9ed { 205 } else { 206 } } } else { if x < 0xf9f9 { 207 } else { if x < 0xf9ff { 208 } else { 209 } } } } else { if x < 0xfa1c { if x < 0xfa0b { 210 } else { if x < 0xfa16 { 211 } else { 212 } } } else { if x < 0xfa26 { 213 } else { if x < 0xfa2f { 214 } else { 215 } } } } }
pub open spec fn U_dec_b_1_6(x: int) -> int { if x < 0xfa59 { if x < 0xfa47 { if x < 0xfa3b { 216 } else { if x < 0xfa41 { 217 } else { 218 } } } else { if x < 0xfa4d { 219 } else { if x < 0xfa53 { 220 } else { 221 } } } } else { if x < 0xfa6b { if x < 0xfa5f { 222 } else { if x < 0xfa65 { 223 } else { 224 } } } else { if x < 0xfa73 { 225 } else { if x < 0xfa79 { 226 } else { 227 } } } } }
pub open spec fn U_dec_b_1_7(x: int) -> int { if x < 0xfaa3 { if x < 0xfa91 { if x < 0xfa85 { 228 } else { if x < 0xfa8b { 229 } else { 230 } } } else { if x < 0xfa97 { 231 } else { if x < 0xfa9d { 232 } else { 233 } } } } else { if x < 0xfab5 { if x < 0xfaa9 { 234 } else { if x < 0xfaaf { 235 } else { 236 } } } else { if x < 0xfabb { 237 } else { if x < 0xfac1 { 238 } else { 239 } } } } }
pub open spec fn U_dec_b_1_8(x: int) -> int { if x < 0xfb3a { if x < 0xfad9 { if x < 0xfacd { 240 } else { if x < 0xfad3 { 241 } else { 242 } } } else { if x < 0xfb2d { 243 } else { if x < 0xfb33 { 244 } else { 245 } } } } else { if x < 0x105e4 { if x < 0xfb43 { 246 } else { if x < 0xfb4a { 247 } else { 248 } } } else { if x < 0x1134b { 249 } else { if x < 0x113c5 { 250 } else { 251 } } } } }
pub open spec fn U_dec_b_1_9(x: int) -> int { if x < 0x2f809 { if x < 0x1d162 { if x < 0x16124 { 252 } else { if x < 0x16d69 { 253 } else { 254 } } } else { if x < 0x1d1be { 255 } else { if x < 0x2f803 { 256 } else { 257 } } } } else { if x < 0x2f81b { if x < 0x2f80f { 258 } else { if x < 0x2f815 { 259 } else { 260 } } } else { if x < 0x2f821 { 261 } else { if x < 0x2f827 { 262 } else { 263 } } } } }
pub open spec fn U_dec_b_1_10(x: int) -> int { if x < 0x2f851 { if x < 0x2f83f { if x < 0x2f833 { 264 } else { if x < 0x2f839 { 265 } else { 266 } } } else { if x < 0x2f845 { 267 } else { if x < 0x2f84b { 268 } else { 269 } } } } else { if x < 0x2f863 { if x < 0x2f857 { 270 } else { if x < 0x2f85d { 271 } else { 272 } } } else { if x < 0x2f869 { 273 } else { if x < 0x2f86f { 274 } else { 275 } } } } }
pub open spec fn U_dec_b_1_11(x: int) -> int { if x < 0x2f899 { if x < 0x2f887 { if x < 0x2f87b { 276 } else { if x < 0x2f881 { 277 } else { 278 } } } else { if x < 0x2f88d { 279 } else { if x < 0x2f893 { 280 } else { 281 } } } } else { if x < 0x2f8ab { if x < 0x2f89f { 282 } else { if x < 0x2f8a5 { 283 } else { 284 } } } else { if x < 0x2f8b1 { 285 } else { if x < 0x2f8b7 { 286 } else { 287 } } } } }
pub open spec fn U_dec_b_1(x: int) -> int { if x < 0xfa35 { if x < 0xf951 { if x < 0x22ec { U_dec_b_1_0(x) } else { if x < 0xf909 { U_dec_b_1_1(x) } else { U_dec_b_1_2(x) } } } else { if x < 0xf999 { U_dec_b_1_3(x) } else { if x < 0xf9e1 { U_dec_b_1_4(x) } else { U_dec_b_1_5(x) } } } } else { if x < 0x115ba { if x < 0xfa7f { U_dec_b_1_6(x) } else { if x < 0xfac7 { U_dec_b_1_7(x) } else { U_dec_b_1_8(x) } } } else { if x < 0x2f82d { U_dec_b_1_9(x) } else { if x < 0x2f875 { U_dec_b_1_10(x) } else { U_dec_b_1_11(x) } } } } }
pub open spec fn U_dec_b_2_0(x: int) -> int { if x < 0x2f8e1 { if x < 0x2f8cf { if x < 0x2f8c3 { 288 } else { if x < 0x2f8c9 { 289 } else { 290 } } } else { if x < 0x2f8d5 { 291 } else { if x < 0x2f8db { 292 } else { 293 } } } } else { if x < 0x2f8f3 { if x < 0x2f8e7 { 294 } else { if x < 0x2f8ed { 295 } else { 296 } } } else { if x < 0x2f8f9 { 297 } else { if x < 0x2f8ff { 298 } else { 299 } } } } }
pub open spec fn U_dec_b_2_1(x: int) -> int { if x < 0x2f929 { if x < 0x2f917 { if x < 0x2f90b { 300 } else { if x < 0x2f911 { 301 } else { 302 } } } else { if x < 0x2f91d { 303 } else { if x < 0x2f923 { 304 } else { 305 } } } } else { if x < 0x2f93b { if x < 0x2f92f { 306 } else { if x < 0x2f935 { 307 } else { 308 } } } else { if x < 0x2f941 { 309 } else { if x < 0x2f947 { 310 } else { 311 } } } } }
pub open spec fn U_dec_b_2_2(x: int) -> int { if x < 0x2f971 { if x < 0x2f95f { if x < 0x2f953 { 312 } else { if x < 0x2f959 { 313 } else { 314 } } } else { if x < 0x2f965 { 315 } else { if x < 0x2f96b { 316 } else { 317 } } } } else { if x < 0x2f983 { if x < 0x2f977 { 318 } else { if x < 0x2f97d { 319 } else { 320 } } } else { if x < 0x2f989 { 321 } else { if x < 0x2f98f { 322 } else { 323 } } } } }
pub open spec fn U_dec_b_2_3(x: int) -> int { if x < 0x2f9b9 { if x < 0x2f9a7 { if x < 0x2f99b { 324 } else { if x < 0x2f9a1 { 325 } else { 326 } } } else { if x < 0x2f9ad { 327 } else { if x < 0x2f9b3 { 328 } else { 329 } } } } else { if x < 0x2f9cb { if x < 0x2f9bf { 330 } else { if x < 0x2f9c5 { 331 } else { 332 } } } else { if x < 0x2f9d1 { 333 } else { if x < 0x2f9d7 { 334 } else { 335 } } } } }
pub open spec fn U_dec_b_2_4(x: int) -> int { if x < 0x2f9fb { if x < 0x2f9e9 { if x < 0x2f9e3 { 336 } else { 337 } } else { if x < 0x2f9ef { 338 } else { if x < 0x2f9f5 { 339 } else { 340 } } } } else { if x < 0x2fa0d { if x < 0x2fa01 { 341 } else { if x < 0x2fa07 { 342 } else { 343 } } } else { if x < 0x2fa13 { 344 } else { if x < 0x2fa19 { 345 } else { 346 } } } } }
pub open spec fn U_dec_b_2(x: int) -> int { if x < 0x2f94d { if x < 0x2f905 { U_dec_b_2_0(x) } else { U_dec_b_2_1(x) } } else { if x < 0x2f995 { U_dec_b_2_2(x) } else { if x < 0x2f9dd { U_dec_b_2_3(x) } else { U_dec_b_2_4(x) } } } }
pub open spec fn U_dec_b(x: int) -> int { if x < 0x1fe2 { U_dec_b_0(x) } else { if x < 0x2f8bd { U_dec_b_1(x) } else { U_dec_b_2(x) } } }
pub open spec fn U_dec_n() -> int { 2081 }
pub open spec fn U_dec_find(x: int) -> int { let b = U_dec_b(x); let j = b * 6 + within21(U_dec_k_p(b), x); if 0 <= j < 2081 && U_dec_k(j) <= x <= U_dec_k(j) { j } else { -1 } }
pub open spec fn U_dec_v_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x28400102000610002080008400002 } else { if i < 2 { 0x58400282001210008080038400182 } else { 0x88400402001e1000e080068400302 } } } else { if i < 4 { 0xb8400582002a10014080098400482 } else { if i < 5 { 0xe840070200361001a0800c8400602 } else { 0x1184008820042100200800f8400782 } } } } else { if i < 9 { if i < 7 { 0x148400a02004e10026080128400902 } else { if i < 8 { 0x178400b82005a1002c080158400a82 } else { 0x1a8400d02006610032080188400c02 } } } else { if i < 10 { 0x1d8400e820072100380801b8400d82 } else { if i < 11 { 0x208401002007e1003e0801e8400f02 } else { 0x238401182008a10044080218401082 } } } } }
pub open spec fn U_dec_v_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x26840130200961004a080248401202 } else { if i < 14 { 0x29840148200a210050080278401382 } else { 0x2c840160200ae100560802a8401502 } } } else { if i < 16 { 0x2f840178200ba1005c0802d8401682 } else { if i < 17 { 0x32840190200c610062080308401802 } else { 0x358401a8200d210068080338401982 } } } } else { if i < 21 { if i < 19 { 0x388401c0200de1006e080368401b02 } else { if i < 20 { 0x3b8401d8200ea10074080398401c82 } else { 0x3e8401f0200f61007a0803c8401e02 } } } else { if i < 22 { 0x4184020820102100800803f8401f82 } else { if i < 23 { 0x448402202010e10086080428402102 } else { 0x478402382011a1008c080458402282 } } } } }
pub open spec fn U_dec_v_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x4a8402502012610092080488402402 } else { if i < 26 { 0x4d84026820132100980804b8402582 } else { 0x508402802013e1009e0804e8402702 } } } else { if i < 28 { 0x538402982014a100a4080518402882 } else { if i < 29 { 0x568602b020156100aa080548402a02 } else { 0x5b0602d230166180b18c0580602ba3 } } } } else { if i < 33 { if i < 31 { 0x5f8402f630178180ba8c05c8602de3 } else { if i < 32 { 0x6284031020186100c2080608403002 } else { 0x6604032c20194100c88c0638603182 } } } else { if i < 34 { 0x69460344301a0100cf080670403342 } else { if i < 35 { 0x6c840360201ae100d60806a8403502 } else { 0x6f840378201ba100dc0806d8403682 } } } } }
pub open spec fn U_dec_v_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x72840390201c6100e2080708403802 } else { if i < 38 { 0x758403a8201d2100e8080738403982 } else { 0x788403c0201de100ee080768403b02 } } } else { if i < 40 { 0x7b8403d8201ea100f4080798403c82 } else { if i < 41 { 0x7f4603f4301f7180fa0c07c8403e02 } else { 0x8304041420207181020c0808404002 } } } } else { if i < 45 { if i < 43 { 0x85020426102111010804083c2041c1 } else { if i < 44 { 0x878404382021a1010c84085c4042a2 } else { 0x8ac404522022618112080888404402 } } } else { if i < 46 { 0x8e04046a30233101188808bc4045a2 } else { if i < 47 { 0x91040484202401011f0808f0404742 } else { 0x9404049c2024c101250809204048c2 } } } } }
pub open spec fn U_dec_v_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x970404b4202581012b080950404a42 } else { if i < 50 { 0x9a0404cc2026410131080980404bc2 } else { 0x9d0404e420270101370809b0404d42 } } } else { if i < 52 { 0xa00404fc2027c1013d0809e0404ec2 } else { if i < 53 { 0xa30405142028810143080a10405042 } else { 0xa604052c2029410149080a404051c2 } } } } else { if i < 57 { if i < 55 { 0xa9040544202a01014f080a70405342 } else { if i < 56 { 0xac04055c202ac10155080aa04054c2 } else { 0xaf040574202b81015b080ad0405642 } } } else { if i < 58 { 0xb204058c202c410161080b004057c2 } else { if i < 59 { 0xb50405a4202d010167080b30405942 } else { 0xb80405bc202dc1016d080b60405ac2 } } } } }
pub open spec fn U_dec_v_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0xbb0405d4202e810173080b90405c42 } else { if i < 62 { 0xbe0405ec202f410179080bc0405dc2 } else { 0xc1040604203001017f080bf0405f42 } } } else { if i < 64 { 0xc444061e2030d10185880c244060c3 } else { if i < 65 { 0xc78406382031a1018c080c58406263 } else { 0xca8406502032610192080c88406402 } } } } else { if i < 69 { if i < 67 { 0xcd8406682033210198080cb8406582 } else { if i < 68 { 0xd08406802033e1019e080ce8406702 } else { 0xd38406982034a101a4080d18406882 } } } else { if i < 70 { 0xd68406b020356101aa080d48406a02 } else { if i < 71 { 0xda0406ca30362181b0080d78406b82 } else { 0xdd0406e420370101b7080db0406d42 } } } } }
pub open spec fn U_dec_v_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0xe08606fe3037c181bd080de0406ec2 } else { if i < 74 { 0xe406071c2038c101c5080e204070a3 } else { 0xe78407382039a101cc080e58407263 } } } else { if i < 76 { 0xea840750203a6101d2080e88407402 } else { if i < 77 { 0xed860768203b2101d8080eb8407582 } else { 0xf1040784203c0101df080ef0407723 } } } } else { if i < 81 { if i < 79 { 0xf484079e303cc181e5080f204078c2 } else { if i < 80 { 0xf78407b8203da101ec080f58407a82 } else { 0xfa8407d0203e6101f2080f88407c02 } } } else { if i < 82 { 0xfd8607e8203f2101f8080fb8407d82 } else { if i < 83 { 0x10206080a30402181ff8c0ff0607f23 } else { 0x1058408282041210208081038408163 } } } } }
pub open spec fn U_dec_v_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x1090408423041e1820e081068408302 } else { if i < 86 { 0x10c06085c2042c102150810a04084c2 } else { 0x11084087e3043c1821c8c10d8608663 } } } else { if i < 88 { 0x1138408982044a10224081118408882 } else { if i < 89 { 0x1168408b0204561022a081148408a02 } else { 0x11a8408ce30464182308c1178608b82 } } } } else { if i < 93 { if i < 91 { 0x11d8408e820472102380811b8408d82 } else { if i < 92 { 0x1208409002047e1023e0811e8408f02 } else { 0x1238409182048a10244081218409082 } } } else { if i < 94 { 0x126840930204961024a081248409202 } else { if i < 95 { 0x129840948204a210250081278409382 } else { 0x12cc60960304ae102560812a8409502 } } } } }
pub open spec fn U_dec_v_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x131460984304bf1825e0c12e46096c3 } else { if i < 98 { 0x135c609a8304d1182670c132c609903 } else { 0x13a4609cc304e3182700c1374609b43 } } } else { if i < 100 { 0x13d8409e8204f2102780813b8409d82 } else { if i < 101 { 0x141c60a08305011827f0c13ec609f03 } else { 0x146040a2c20513182880c143460a143 } } } } else { if i < 105 { if i < 103 { 0x149040a44205201028f08147040a342 } else { if i < 104 { 0x14d460a643052f182960c14a460a4c3 } else { 0x151c60a88305411829f0c14ec60a703 } } } else { if i < 106 { 0x156460aac30553182a80c153460a943 } else { if i < 107 { 0x15a040acc20564102b108157c60ab83 } else { 0x15e460aec30573182b80c15b460ad43 } } } } }
pub open spec fn U_dec_v_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x162840b1020585182c10c15fc60af83 } else { if i < 110 { 0x165840b2820592102c808163840b182 } else { 0x169460b443059f182ce0c166840b302 } } } else { if i < 112 { 0x16d460b64305b0102d70816ac60b503 } else { if i < 113 { 0x171840b88205c1182df0c16ec60b703 } else { 0x175840ba8205d1182e70c172c60b903 } } } } else { if i < 117 { if i < 115 { 0x179840bc8205e1182ef0c176c60bb03 } else { if i < 116 { 0x17dc60be8305f1182f70c17ac60bd03 } else { 0x181c60c0830601182ff0c17f040bf42 } } } else { if i < 118 { 0x185c60c28306121030808183460c143 } else { if i < 119 { 0x18a040c4c20623183100c187460c343 } else { 0x18e460c6c30633183180c18b460c543 } } } } }
pub open spec fn U_dec_v_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x192460c8c30643183200c18f840c782 } else { if i < 122 { 0x196460cac30653183280c193840c982 } else { 0x19a460ccc30663183300c197840cb82 } } } else { if i < 124 { 0x19e860cee30674183390819bc60cd83 } else { if i < 125 { 0x1a2860d0e30684183408c19fc40cfa2 } else { 0x1a6860d2e3069510349881a4060d1a3 } } } } else { if i < 129 { if i < 127 { 0x1aac40d52206a6183518c1a8060d3a3 } else { if i < 128 { 0x1adc40d6a206b310358881abc40d5a2 } else { 0x1b0c40d82206bf1035e881aec40d722 } } } else { if i < 130 { 0x1b5c80da6406cf20365901b2060d8a3 } else { if i < 131 { 0x1bb480dd2406e6183718c1b7c80db64 } else { 0x1c1060e02306fd2037c901bd480de24 } } } } }
pub open spec fn U_dec_v_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x1c6c80e2e4071320387901c2c80e0e4 } else { if i < 134 { 0x1cc480e5a4072920392901c8860e3e3 } else { 0x1d1c80e86407401839e8c1ce480e6a4 } } } else { if i < 136 { 0x1d7860eb630757203a9901d3c80e964 } else { if i < 137 { 0x1dd480ee24076d203b4901d9480ec24 } else { 0x1e1440f0430780103be8c1dec40ef22 } } } } else { if i < 141 { if i < 139 { 0x1e4840f202078e103c6081e2840f0e3 } else { if i < 140 { 0x1e7c40f383079a103cb8c1e5440f281 } else { 0x1eb040f54207a8103d3081e9040f423 } } } else { if i < 142 { 0x1ee060f6c207b4103d9081ec040f5c2 } else { if i < 143 { 0x1f1c40f8a207c3103e00c1ef840f763 } else { 0x1f4c40fa2207cf103e6881f2c40f922 } } } } }
pub open spec fn U_dec_v_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_dec_v_p_0_0(i) } else { if i < 24 { U_dec_v_p_0_1(i) } else { U_dec_v_p_0_2(i) } } } else { if i < 48 { U_dec_v_p_0_3(i) } else { if i < 60 { U_dec_v_p_0_4(i) } else { U_dec_v_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_dec_v_p_0_6(i) } else { if i < 96 { U_dec_v_p_0_7(i) } else { U_dec_v_p_0_8(i) } } } else { if i < 120 { U_dec_v_p_0_9(i) } else { if i < 132 { U_dec_v_p_0_10(i) } else { U_dec_v_p_0_11(i) } } } } }
pub open spec fn U_dec_v_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x1f8460fbe207dd103ed881f6060faa3 } else { if i < 146 { 0x1fb840fd8207ea103f4081f9840fc82 } else { 0x1fec40ff0307f6103f98c1fc820fe02 } } } else { if i < 148 { 0x20204100c208041040108200040ffa3 } else { if i < 149 { 0x203c4101c1080d0840604202c210141 } else { 0x206c41032208171040a88204c410222 } } } } else { if i < 153 { if i < 151 { 0x209c4104a208231041088207c4103a2 } else { if i < 152 { 0x20cc410622082f104168820ac410522 } else { 0x20fc4107a2083b1041c8820dc4106a2 } } } else { if i < 154 { 0x212c41092208471042288210c410822 } else { if i < 155 { 0x215c410aa208531042888213c4109a2 } else { 0x218c410c22085f1042e88216c410b22 } } } } }
pub open spec fn U_dec_v_p_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x21b4410d62086a0843484219c410ca2 } else { if i < 158 { 0x21e4410ee20875104398821c4410de2 } else { 0x221441106208811043f8821f4410f62 } } } else { if i < 160 { 0x22444111e2088d104458822244110e2 } else { if i < 161 { 0x227441136208991044b882254411262 } else { 0x22a44114e208a5104518822844113e2 } } } } else { if i < 165 { if i < 163 { 0x22d441166208b1104578822b4411562 } else { if i < 164 { 0x23044117e208bd1045d8822e44116e2 } else { 0x233441196208c910463882314411862 } } } else { if i < 166 { 0x2364411ae208d5104698823444119e2 } else { if i < 167 { 0x238c211c4108e10846f882374411b62 } else { 0x23a4211d0108e708473042394211c81 } } } } }
pub open spec fn U_dec_v_p_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x23bc211dc108ed084760423ac211d41 } else { if i < 170 { 0x23d4211e8108f3084790423c4211e01 } else { 0x23ec211f4108f90847c0423dc211ec1 } } } else { if i < 172 { 0x240421200108ff0847f0423f4211f81 } else { if i < 173 { 0x241c2120c109050848204240c212041 } else { 0x2434212181090b08485042424212101 } } } } else { if i < 177 { if i < 175 { 0x244c21224109110848804243c2121c1 } else { if i < 176 { 0x246421230109170848b042454212281 } else { 0x247c2123c1091d0848e04246c212341 } } } else { if i < 178 { 0x2494212481092308491042484212401 } else { if i < 179 { 0x24ac21254109290849404249c2124c1 } else { 0x24c4212601092f084970424b4212581 } } } } }
pub open spec fn U_dec_v_p_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x24dc2126c109350849a0424cc212641 } else { if i < 182 { 0x24f4212781093b0849d0424e4212701 } else { 0x250c2128410941084a00424fc2127c1 } } } else { if i < 184 { 0x25242129010947084a3042514212881 } else { if i < 185 { 0x253c2129c1094d084a604252c212941 } else { 0x2554212a810953084a9042544212a01 } } } } else { if i < 189 { if i < 187 { 0x256c212b410959084ac04255c212ac1 } else { if i < 188 { 0x2584212c01095f084af042574212b81 } else { 0x259c212cc10965084b204258c212c41 } } } else { if i < 190 { 0x25b4212d81096b084b50425a4212d01 } else { if i < 191 { 0x25cc212e410971084b80425bc212dc1 } else { 0x25e4212f010977084bb0425d4212e81 } } } } }
pub open spec fn U_dec_v_p_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x25fc212fc1097d084be0425ec212f41 } else { if i < 194 { 0x26142130810983084c1042604213001 } else { 0x262c2131410989084c404261c2130c1 } } } else { if i < 196 { 0x2644213201098f084c7042634213181 } else { if i < 197 { 0x265c2132c10995084ca04264c213241 } else { 0x2674213381099b084cd042664213301 } } } } else { if i < 201 { if i < 199 { 0x268c21344109a1084d004267c2133c1 } else { if i < 200 { 0x26a421350109a7084d3042694213481 } else { 0x26bc2135c109ad084d60426ac213541 } } } else { if i < 202 { 0x26d421368109b3084d90426c4213601 } else { if i < 203 { 0x26ec21374109b9084dc0426dc2136c1 } else { 0x270421380109bf084df0426f4213781 } } } } }
pub open spec fn U_dec_v_p_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x271c2138c109c5084e204270c213841 } else { if i < 206 { 0x273421398109cb084e5042724213901 } else { 0x274c213a4109d1084e804273c2139c1 } } } else { if i < 208 { 0x2764213b0109d7084eb042754213a81 } else { if i < 209 { 0x277c213bc109dd084ee04276c213b41 } else { 0x2794213c8109e3084f1042784213c01 } } } } else { if i < 213 { if i < 211 { 0x27ac213d4109e9084f404279c213cc1 } else { if i < 212 { 0x27c4213e0109ef084f70427b4213d81 } else { 0x27dc213ec109f5084fa0427cc213e41 } } } else { if i < 214 { 0x27f4213f8109fb084fd0427e4213f01 } else { if i < 215 { 0x280c2140410a01085000427fc213fc1 } else { 0x28242141010a0708503042814214081 } } } } }
pub open spec fn U_dec_v_p_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0x283c2141c10a0d0850604282c214141 } else { if i < 218 { 0x28542142810a1308509042844214201 } else { 0x286c2143410a190850c04285c2142c1 } } } else { if i < 220 { 0x28842144010a1f0850f042874214381 } else { if i < 221 { 0x289c2144c10a250851204288c214441 } else { 0x28b42145810a2b085150428a4214501 } } } } else { if i < 225 { if i < 223 { 0x28cc2146410a31085180428bc2145c1 } else { if i < 224 { 0x28e42147010a370851b0428d4214681 } else { 0x28fc2147c10a3d0851e0428ec214741 } } } else { if i < 226 { 0x29142148810a4308521042904214801 } else { if i < 227 { 0x292c2149410a490852404291c2148c1 } else { 0x2944214a010a4f08527042934214981 } } } } }
pub open spec fn U_dec_v_p_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x295c214ac10a550852a04294c214a41 } else { if i < 230 { 0x2974214b810a5b0852d042964214b01 } else { 0x298c214c410a610853004297c214bc1 } } } else { if i < 232 { 0x29a4214d010a6708533042994214c81 } else { if i < 233 { 0x29bc214dc10a6d085360429ac214d41 } else { 0x29d4214e810a73085390429c4214e01 } } } } else { if i < 237 { if i < 235 { 0x29ec214f410a790853c0429dc214ec1 } else { if i < 236 { 0x2a042150010a7f0853f0429f4214f81 } else { 0x2a1c2150c10a8508542042a0c215041 } } } else { if i < 238 { 0x2a342151810a8b08545042a24215101 } else { if i < 239 { 0x2a4c2152410a9108548042a3c2151c1 } else { 0x2a642153010a970854b042a54215281 } } } } }
pub open spec fn U_dec_v_p_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x2a7c2153c10a9d0854e042a6c215341 } else { if i < 242 { 0x2a942154810aa308551042a84215401 } else { 0x2aac2155410aa908554042a9c2154c1 } } } else { if i < 244 { 0x2ad46156620ab110557882ab4415581 } else { if i < 245 { 0x2b0c4158220abf1055e882aec415703 } else { 0x2b3c4159a20acb10564882b1c4158a2 } } } } else { if i < 249 { if i < 247 { 0x2b6c415b220ad71056a882b4c415a22 } else { if i < 248 { 0x2b9c415ca20ae310570882b7c415ba2 } else { 0x2bcc415e220aef10576882bac415d22 } } } else { if i < 250 { 0x2bfc415fa20afb1057c882bdc415ea2 } else { if i < 251 { 0x2c2c4161220b0710582882c0c416022 } else { 0x2c5c4162a20b1310588882c3c4161a2 } } } } }
pub open spec fn U_dec_v_p_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x2c8c4164220b1f1058e882c6c416322 } else { if i < 254 { 0x2cc84165e30b2c185948c2c9c4164a2 } else { 0x2d006167a30b3b1059c882cd8616682 } } } else { if i < 256 { 0x2d406169c20b4c105a48c2d18616863 } else { if i < 257 { 0x2d78216ba10b5c085ac8c2d58616a63 } else { 0x2d90216c610b62085b0842d80216be1 } } } } else { if i < 261 { if i < 259 { 0x2da8216d210b68085b3842d98216ca1 } else { if i < 260 { 0x2dc0216de10b6e085b6842db0216d61 } else { 0x2dd8216ea10b74085b9842dc8216e21 } } } else { if i < 262 { 0x2df0216f610b7a085bc842de0216ee1 } else { if i < 263 { 0x2e082170210b80085bf842df8216fa1 } else { 0x2e202170e10b86085c2842e10217061 } } } } }
pub open spec fn U_dec_v_p_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x2e382171a10b8c085c5842e28217121 } else { if i < 266 { 0x2e502172610b92085c8842e402171e1 } else { 0x2e682173210b98085cb842e582172a1 } } } else { if i < 268 { 0x2e802173e10b9e085ce842e70217361 } else { if i < 269 { 0x2e982174a10ba4085d1842e88217421 } else { 0x2eb02175610baa085d4842ea02174e1 } } } } else { if i < 273 { if i < 271 { 0x2ec82176210bb0085d7842eb82175a1 } else { if i < 272 { 0x2ee02176e10bb6085da842ed0217661 } else { 0x2ef82177a10bbc085dd842ee8217721 } } } else { if i < 274 { 0x2f102178610bc2085e0842f002177e1 } else { if i < 275 { 0x2f282179210bc8085e3842f182178a1 } else { 0x2f402179e10bce085e6842f30217961 } } } } }
pub open spec fn U_dec_v_p_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x2f58217aa10bd4085e9842f48217a21 } else { if i < 278 { 0x2f70217b610bda085ec842f60217ae1 } else { 0x2f88217c210be0085ef842f78217ba1 } } } else { if i < 280 { 0x2fa0217ce10be6085f2842f90217c61 } else { if i < 281 { 0x2fb8217da10bec085f5842fa8217d21 } else { 0x2fd0217e610bf2085f8842fc0217de1 } } } } else { if i < 285 { if i < 283 { 0x2fe8217f210bf8085fb842fd8217ea1 } else { if i < 284 { 0x3000217fe10bfe085fe842ff0217f61 } else { 0x30182180a10c0408601843008218021 } } } else { if i < 286 { 0x30302181610c0a086048430202180e1 } else { if i < 287 { 0x30482182210c10086078430382181a1 } else { 0x30602182e10c160860a843050218261 } } } } }
pub open spec fn U_dec_v_p_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_dec_v_p_1_0(i) } else { if i < 168 { U_dec_v_p_1_1(i) } else { U_dec_v_p_1_2(i) } } } else { if i < 192 { U_dec_v_p_1_3(i) } else { if i < 204 { U_dec_v_p_1_4(i) } else { U_dec_v_p_1_5(i) } } } } else { if i < 252 { if i < 228 { U_dec_v_p_1_6(i) } else { if i < 240 { U_dec_v_p_1_7(i) } else { U_dec_v_p_1_8(i) } } } else { if i < 264 { U_dec_v_p_1_9(i) } else { if i < 276 { U_dec_v_p_1_10(i) } else { U_dec_v_p_1_11(i) } } } } }
pub open spec fn U_dec_v_p_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x30782183a10c1c0860d843068218321 } else { if i < 290 { 0x30902184610c22086108430802183e1 } else { 0x30a82185210c28086138430982184a1 } } } else { if i < 292 { 0x30c02185e10c2e086168430b0218561 } else { if i < 293 { 0x30d82186a10c34086198430c8218621 } else { 0x30f02187610c3a0861c8430e02186e1 } } } } else { if i < 297 { if i < 295 { 0x31082188210c400861f8430f82187a1 } else { if i < 296 { 0x31202188e10c4608622843110218861 } else { 0x31382189a10c4c08625843128218921 } } } else { if i < 298 { 0x3150218a610c52086288431402189e1 } else { if i < 299 { 0x3168218b210c580862b843158218aa1 } else { 0x3180218be10c5e0862e843170218b61 } } } } }
pub open spec fn U_dec_v_p_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x3198218ca10c6408631843188218c21 } else { if i < 302 { 0x31b0218d610c6a086348431a0218ce1 } else { 0x31c8218e210c70086378431b8218da1 } } } else { if i < 304 { 0x31e0218ee10c760863a8431d0218e61 } else { if i < 305 { 0x31f8218fa10c7c0863d8431e8218f21 } else { 0x32102190610c8208640843200218fe1 } } } } else { if i < 309 { if i < 307 { 0x32282191210c88086438432182190a1 } else { if i < 308 { 0x32402191e10c8e08646843230219161 } else { 0x32582192a10c9408649843248219221 } } } else { if i < 310 { 0x32702193610c9a0864c8432602192e1 } else { if i < 311 { 0x32882194210ca00864f8432782193a1 } else { 0x32a02194e10ca608652843290219461 } } } } }
pub open spec fn U_dec_v_p_2_2(i: int) -> int { if i < 318 { if i < 315 { if i < 313 { 0x32b82195a10cac086558432a8219521 } else { if i < 314 { 0x32d02196610cb2086588432c02195e1 } else { 0x32e82197210cb80865b8432d82196a1 } } } else { if i < 316 { 0x33002197e10cbe0865e8432f0219761 } else { if i < 317 { 0x33182198a10cc408661843308219821 } else { 0x33302199610cca086648433202198e1 } } } } else { if i < 321 { if i < 319 { 0x3348219a210cd0086678433382199a1 } else { if i < 320 { 0x3360219ae10cd60866a843350219a61 } else { 0x3378219ba10cdc0866d843368219b21 } } } else { if i < 322 { 0x3390219c610ce208670843380219be1 } else { if i < 323 { 0x33a8219d210ce808673843398219ca1 } else { 0x33c0219de10cee086768433b0219d61 } } } } }
pub open spec fn U_dec_v_p_2_3(i: int) -> int { if i < 330 { if i < 327 { if i < 325 { 0x33d8219ea10cf4086798433c8219e21 } else { if i < 326 { 0x33f0219f610cfa0867c8433e0219ee1 } else { 0x340821a0210d000867f8433f8219fa1 } } } else { if i < 328 { 0x342021a0e10d060868284341021a061 } else { if i < 329 { 0x343821a1a10d0c0868584342821a121 } else { 0x345021a2610d120868884344021a1e1 } } } } else { if i < 333 { if i < 331 { 0x346821a3210d180868b84345821a2a1 } else { if i < 332 { 0x348021a3e10d1e0868e84347021a361 } else { 0x349821a4a10d240869184348821a421 } } } else { if i < 334 { 0x34b021a5610d2a086948434a021a4e1 } else { if i < 335 { 0x34c821a6210d30086978434b821a5a1 } else { 0x34e021a6e10d360869a8434d021a661 } } } } }
pub open spec fn U_dec_v_p_2_4(i: int) -> int { if i < 341 { if i < 338 { if i < 337 { 0x34f821a7a10d3c0869d8434e821a721 } else { 0x351021a8610d42086a084350021a7e1 } } else { if i < 339 { 0x352821a9210d48086a384351821a8a1 } else { if i < 340 { 0x354021a9e10d4e086a684353021a961 } else { 0x355821aaa10d54086a984354821aa21 } } } } else { if i < 344 { if i < 342 { 0x357021ab610d5a086ac84356021aae1 } else { if i < 343 { 0x358821ac210d60086af84357821aba1 } else { 0x35a021ace10d66086b284359021ac61 } } } else { if i < 345 { 0x35b821ada10d6c086b58435a821ad21 } else { if i < 346 { 0x35d021ae610d72086b88435c021ade1 } else { 0x1af210d78086bb8435d821aea1 } } } } }
pub open spec fn U_dec_v_p_2(i: int) -> int { if i < 312 { if i < 300 { U_dec_v_p_2_0(i) } else { U_dec_v_p_2_1(i) } } else { if i < 324 { U_dec_v_p_2_2(i) } else { if i < 336 { U_dec_v_p_2_3(i) } else { U_dec_v_p_2_4(i) } } } }
pub open spec fn U_dec_v_p(i: int) -> int { if i < 144 { U_dec_v_p_0(i) } else { if i < 288 { U_dec_v_p_1(i) } else { U_dec_v_p_2(i) } } }
pub open spec fn U_dec_v(i: int) -> int { unpack21(U_dec_v_p(i / 6), i % 6) }
pub open spec fn U_kec_k_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x166000b2000578002a800150000a0 } else { if i < 2 { 0x178000ba0005c8002e00016a000b4 } else { 0x2800013f000998004c80017c000bd } } } else { if i < 4 { 0x38e001c6000e2800710002fe00149 } else { if i < 5 { 0x3e2001cc000e580072800392001c8 } else { 0x566002b200158800ac0003e6001f2 } } } } else { if i < 9 { if i < 7 { 0x5b0002b80015b800ad80056a002b4 } else { if i < 8 { 0x5c0002dd0016e000b6c005b4002d9 } else { 0x7080037a00172000b8c005c4002e1 } } } else { if i < 10 { 0x7a8003d3001e9000f44007a000385 } else { if i < 11 { 0x7e8003f2001f8800fc0007ac003d5 } else { 0xcee006760033a80161c007f2003f5 } } } } }
pub open spec fn U_kec_k_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x1e1800edd0076e003acc01c6600678 } else { if i < 14 { 0x3a5c01d2d00e960043f001ef200f77 } else { 0x3a6a01d3400e998074c803a6201d30 } } } else { if i < 16 { 0x3a7801d3a00e9c8074e003a6e01d36 } else { if i < 17 { 0x3a8401d4100ea00074fc03a7c01d3d } else { 0x3a9001d4700ea300751403a8801d43 } } } } else { if i < 21 { if i < 19 { 0x3a9e01d4d00ea600752c03a9401d49 } else { if i < 20 { 0x3aaa01d5400ea980754803aa201d50 } else { 0x3ab601d5a00eac80756003aae01d56 } } } else { if i < 22 { 0x3ac201d6000eaf80757803aba01d5c } else { if i < 23 { 0x3ace01d6600eb280759003ac601d62 } else { 0x3b3801d9b00ebc0075a803ad201d68 } } } } }
pub open spec fn U_kec_k_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x3b4401da100ed000767c03b3c01d9d } else { if i < 26 { 0x3b5001da700ed300769403b4801da3 } else { 0x3b5c01dad00ed60076ac03b5401da9 } } } else { if i < 28 { 0x3b6801db300ed90076c403b6001daf } else { if i < 29 { 0x3b7401db900edc0076dc03b6c01db5 } else { 0x3d3401dbf00edf0076f403b7801dbb } } } } else { if i < 33 { if i < 31 { 0x3f9a01fc100fe0007efc03f7a01e9b } else { if i < 32 { 0x3fda01fdf00fef007f7403f9e01fce } else { 0x40040200101000007ff803ffa01fee } } } else { if i < 34 { 0x401002007010030080140400802003 } else { if i < 35 { 0x404a020240100b8080440401402009 } else { 0x406e020360101a0080cc0405e02026 } } } } }
pub open spec fn U_kec_k_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x40ae020490102400811c0407c0203c } else { if i < 38 { 0x40ec020750103a0081c4040e00205f } else { 0x40f80207b0103d0081e4040f002077 } } } else { if i < 40 { 0x410402081010400081fc040fc0207d } else { if i < 41 { 0x411002087010430082140410802083 } else { 0x411c0208d0104600822c0411402089 } } } } else { if i < 45 { if i < 43 { 0x412a02094010498082480412202090 } else { if i < 44 { 0x41360209a0104c8082600412e02096 } else { 0x42060210201080808400041500209c } } } else { if i < 46 { 0x42160210a0108480841c0420c02105 } else { if i < 47 { 0x422202110010878084380421a0210c } else { 0x4234021190108b0084540422602112 } } } } }
pub open spec fn U_kec_k_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x42440212101090008474042380211b } else { if i < 50 { 0x42600212f010968084b00425002124 } else { 0x426e021360109a8084d00426602131 } } } else { if i < 52 { 0x427c0213d0109e0084ec0427202138 } else { if i < 53 { 0x429002147010a3008514042800213f } else { 0x42a802153010a9008544042a002149 } } } } else { if i < 57 { if i < 55 { 0x42b402159010ac00855c042ac02155 } else { if i < 56 { 0x42c00215f010af008574042b80215b } else { 0x42cc02165010b200858c042c402161 } } } else { if i < 58 { 0x42d80216b010b50085a4042d002167 } else { if i < 59 { 0x42e402171010b80085bc042dc0216d } else { 0x42f002177010bb0085d4042e802173 } } } } }
pub open spec fn U_kec_k_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x42fc0217d010be0085ec042f402179 } else { if i < 62 { 0x44600222f011168088b0043120217f } else { 0x48ca0246401231809188048c202460 } } } else { if i < 64 { 0x48d60246a012348091a0048ce02466 } else { if i < 65 { 0x48e202470012378091b8048da0246c } else { 0x48ee024760123a8091d0048e602472 } } } } else { if i < 69 { if i < 67 { 0x48fa0247c0123d8091e8048f202478 } else { if i < 68 { 0x49060248201240809200048fe0247e } else { 0x491202488012438092180490a02484 } } } else { if i < 70 { 0x491e0248e01246809230049160248a } else { if i < 71 { 0x492a02494012498092480492202490 } else { 0x49360249a0124c8092600492e02496 } } } } }
pub open spec fn U_kec_k_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x4942024a00124f8092780493a0249c } else { if i < 74 { 0x494e024a60125280929004946024a2 } else { 0x495a024ac012558092a804952024a8 } } } else { if i < 76 { 0x4966024b2012588092c00495e024ae } else { if i < 77 { 0x4972024b80125b8092d80496a024b4 } else { 0x497e024be0125e8092f004976024ba } } } } else { if i < 81 { if i < 79 { 0x498a024c40126180930804982024c0 } else { if i < 80 { 0x4996024ca012648093200498e024c6 } else { 0x49a2024d0012678093380499a024cc } } } else { if i < 82 { 0x49ae024d60126a809350049a6024d2 } else { if i < 83 { 0x49ba024dc0126d809368049b2024d8 } else { 0x49c6024e201270809380049be024de } } } } }
pub open spec fn U_kec_k_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x49d2024e801273809398049ca024e4 } else { if i < 86 { 0x58f802a760153a80a9d005418024ea } else { 0x5e0202f000177980ba7c05ade02c7d } } } else { if i < 88 { 0x5e0e02f060178280bc1005e0602f02 } else { if i < 89 { 0x5e1a02f0c0178580bc2805e1202f08 } else { 0x5e2602f120178880bc4005e1e02f0e } } } } else { if i < 93 { if i < 91 { 0x5e3202f180178b80bc5805e2a02f14 } else { if i < 92 { 0x5e3e02f1e0178e80bc7005e3602f1a } else { 0x5e4a02f240179180bc8805e4202f20 } } } else { if i < 94 { 0x5e5602f2a0179480bca005e4e02f26 } else { if i < 95 { 0x5e6202f300179780bcb805e5a02f2c } else { 0x5e6e02f360179a80bcd005e6602f32 } } } } }
pub open spec fn U_kec_k_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x5e7a02f3c0179d80bce805e7202f38 } else { if i < 98 { 0x5e8602f42017a080bd0005e7e02f3e } else { 0x5e9202f48017a380bd1805e8a02f44 } } } else { if i < 100 { 0x5e9e02f4e017a680bd3005e9602f4a } else { if i < 101 { 0x5eaa02f54017a980bd4805ea202f50 } else { 0x5eb602f5a017ac80bd6005eae02f56 } } } } else { if i < 105 { if i < 103 { 0x5ec202f60017af80bd7805eba02f5c } else { if i < 104 { 0x5ece02f66017b280bd9005ec602f62 } else { 0x5eda02f6c017b580bda805ed202f68 } } } else { if i < 106 { 0x5ee602f72017b880bdc005ede02f6e } else { if i < 107 { 0x5ef202f78017bb80bdd805eea02f74 } else { 0x5efe02f7e017be80bdf005ef602f7a } } } } }
pub open spec fn U_kec_k_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x5f0a02f84017c180be0805f0202f80 } else { if i < 110 { 0x5f1602f8a017c480be2005f0e02f86 } else { 0x5f2202f90017c780be3805f1a02f8c } } } else { if i < 112 { 0x5f2e02f96017ca80be5005f2602f92 } else { if i < 113 { 0x5f3a02f9c017cd80be6805f3202f98 } else { 0x5f4602fa2017d080be8005f3e02f9e } } } } else { if i < 117 { if i < 115 { 0x5f5202fa8017d380be9805f4a02fa4 } else { if i < 116 { 0x5f5e02fae017d680beb005f5602faa } else { 0x5f6a02fb4017d980bec805f6202fb0 } } } else { if i < 118 { 0x5f7602fba017dc80bee005f6e02fb6 } else { if i < 119 { 0x5f8202fc0017df80bef805f7a02fbc } else { 0x5f8e02fc6017e280bf1005f8602fc2 } } } } }
pub open spec fn U_kec_k_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x5f9a02fcc017e580bf2805f9202fc8 } else { if i < 122 { 0x5fa602fd2017e880bf4005f9e02fce } else { 0x6072030380181b00c00005faa02fd4 } } } else { if i < 124 { 0x6262030ff0184f80c270061360303a } else { if i < 125 { 0x626e031360189a80c4d00626603132 } else { 0x627a0313c0189d80c4e80627203138 } } } } else { if i < 129 { if i < 127 { 0x628603142018a080c5000627e0313e } else { if i < 128 { 0x629203148018a380c5180628a03144 } else { 0x629e0314e018a680c530062960314a } } } else { if i < 130 { 0x62aa03154018a980c548062a203150 } else { if i < 131 { 0x62b60315a018ac80c560062ae03156 } else { 0x62c203160018af80c578062ba0315c } } } } }
pub open spec fn U_kec_k_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x62ce03166018b280c590062c603162 } else { if i < 134 { 0x62da0316c018b580c5a8062d203168 } else { 0x62e603172018b880c5c0062de0316e } } } else { if i < 136 { 0x62f203178018bb80c5d8062ea03174 } else { if i < 137 { 0x62fe0317e018be80c5f0062f60317a } else { 0x630a03184018c180c6080630203180 } } } } else { if i < 141 { if i < 139 { 0x63160318a018c480c6200630e03186 } else { if i < 140 { 0x632803193018c900c6380631a0318c } else { 0x633403199018cc00c65c0632c03195 } } } else { if i < 142 { 0x64000319f018cf00c674063380319b } else { if i < 143 { 0x640c032050190200c80c0640403201 } else { 0x64180320b0190500c8240641003207 } } } } }
pub open spec fn U_kec_k_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_kec_k_p_0_0(i) } else { if i < 24 { U_kec_k_p_0_1(i) } else { U_kec_k_p_0_2(i) } } } else { if i < 48 { U_kec_k_p_0_3(i) } else { if i < 60 { U_kec_k_p_0_4(i) } else { U_kec_k_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_kec_k_p_0_6(i) } else { if i < 96 { U_kec_k_p_0_7(i) } else { U_kec_k_p_0_8(i) } } } else { if i < 120 { U_kec_k_p_0_9(i) } else { if i < 132 { U_kec_k_p_0_10(i) } else { U_kec_k_p_0_11(i) } } } } }
pub open spec fn U_kec_k_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x6424032110190800c83c0641c0320d } else { if i < 146 { 0x6430032170190b00c8540642803213 } else { 0x643c0321d0190e00c86c0643403219 } } } else { if i < 148 { 0x644a032240191180c8880644203220 } else { if i < 149 { 0x64560322a0191480c8a00644e03226 } else { 0x6462032300191780c8b80645a0322c } } } } else { if i < 153 { if i < 151 { 0x646e032360191a80c8d00646603232 } else { if i < 152 { 0x647a0323c0191d80c8e80647203238 } else { 0x6486032420192080c9000647e0323e } } } else { if i < 154 { 0x64a2032500192380c9180648a03244 } else { if i < 155 { 0x64ae032560192a80c950064a603252 } else { 0x64ba0325c0192d80c968064b203258 } } } } }
pub open spec fn U_kec_k_p_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x64c6032620193080c980064be0325e } else { if i < 158 { 0x64d2032680193380c998064ca03264 } else { 0x64de0326e0193680c9b0064d60326a } } } else { if i < 160 { 0x64ea032740193980c9c8064e203270 } else { if i < 161 { 0x64f60327a0193c80c9e0064ee03276 } else { 0x6504032810194000c9f8064fa0327c } } } } else { if i < 165 { if i < 163 { 0x6510032870194300ca140650803283 } else { if i < 164 { 0x651c0328d0194600ca2c0651403289 } else { 0x6528032930194900ca44065200328f } } } else { if i < 166 { 0x6534032990194c00ca5c0652c03295 } else { if i < 167 { 0x65400329f0194f00ca74065380329b } else { 0x654c032a50195200ca8c06544032a1 } } } } }
pub open spec fn U_kec_k_p_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x6558032ab0195500caa406550032a7 } else { if i < 170 { 0x6564032b10195800cabc0655c032ad } else { 0x6570032b70195b00cad406568032b3 } } } else { if i < 172 { 0x657c032bd0195e00caec06574032b9 } else { if i < 173 { 0x6588032c30196100cb0406580032bf } else { 0x6594032c90196400cb1c0658c032c5 } } } } else { if i < 177 { if i < 175 { 0x65a0032cf0196700cb3406598032cb } else { if i < 176 { 0x65ac032d50196a00cb4c065a4032d1 } else { 0x65b8032db0196d00cb64065b0032d7 } } } else { if i < 178 { 0x65c4032e10197000cb7c065bc032dd } else { if i < 179 { 0x65d0032e70197300cb94065c8032e3 } else { 0x65dc032ed0197600cbac065d4032e9 } } } } }
pub open spec fn U_kec_k_p_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x65e8032f30197900cbc4065e0032ef } else { if i < 182 { 0x65f4032f90197c00cbdc065ec032f5 } else { 0x6600032ff0197f00cbf4065f8032fb } } } else { if i < 184 { 0x660c033050198200cc0c0660403301 } else { if i < 185 { 0x66180330b0198500cc240661003307 } else { 0x6624033110198800cc3c0661c0330d } } } } else { if i < 189 { if i < 187 { 0x6630033170198b00cc540662803313 } else { if i < 188 { 0x663c0331d0198e00cc6c0663403319 } else { 0x6648033230199100cc84066400331f } } } else { if i < 190 { 0x6654033290199400cc9c0664c03325 } else { if i < 191 { 0x66600332f0199700ccb4066580332b } else { 0x666c033350199a00cccc0666403331 } } } } }
pub open spec fn U_kec_k_p_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x66780333b0199d00cce40667003337 } else { if i < 194 { 0x668403341019a000ccfc0667c0333d } else { 0x669003347019a300cd140668803343 } } } else { if i < 196 { 0x669c0334d019a600cd2c0669403349 } else { if i < 197 { 0x66a803353019a900cd44066a00334f } else { 0x66b403359019ac00cd5c066ac03355 } } } } else { if i < 201 { if i < 199 { 0x66c00335f019af00cd74066b80335b } else { if i < 200 { 0x66cc03365019b200cd8c066c403361 } else { 0x66d80336b019b500cda4066d003367 } } } else { if i < 202 { 0x66e403371019b800cdbc066dc0336d } else { if i < 203 { 0x66f003377019bb00cdd4066e803373 } else { 0x66fc0337d019be00cdec066f403379 } } } } }
pub open spec fn U_kec_k_p_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x670803383019c100ce04067000337f } else { if i < 206 { 0x671403389019c400ce1c0670c03385 } else { 0x67200338f019c700ce34067180338b } } } else { if i < 208 { 0x672c03395019ca00ce4c0672403391 } else { if i < 209 { 0x67380339b019cd00ce640673003397 } else { 0x6744033a1019d000ce7c0673c0339d } } } } else { if i < 213 { if i < 211 { 0x6750033a7019d300ce9406748033a3 } else { if i < 212 { 0x675c033ad019d600ceac06754033a9 } else { 0x6768033b3019d900cec406760033af } } } else { if i < 214 { 0x6774033b9019dc00cedc0676c033b5 } else { if i < 215 { 0x6780033bf019df00cef406778033bb } else { 0x678c033c5019e200cf0c06784033c1 } } } } }
pub open spec fn U_kec_k_p_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0x6798033cb019e500cf2406790033c7 } else { if i < 218 { 0x67a4033d1019e800cf3c0679c033cd } else { 0x67b0033d7019eb00cf54067a8033d3 } } } else { if i < 220 { 0x67bc033dd019ee00cf6c067b4033d9 } else { if i < 221 { 0x67c8033e3019f100cf84067c0033df } else { 0x67d4033e9019f400cf9c067cc033e5 } } } } else { if i < 225 { if i < 223 { 0x67e0033ef019f700cfb4067d8033eb } else { if i < 224 { 0x67ec033f5019fa00cfcc067e4033f1 } else { 0x67f8033fb019fd00cfe4067f0033f7 } } } else { if i < 226 { 0x14ee00a69d0534e00cffc067fc033fd } else { if i < 227 { 0x156b80a7f9053fc029fd014fe60a7f2 } else { 0x1f6020fb00055b482ad7c156bc0ab5d } } } } }
pub open spec fn U_kec_k_p_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x1f6260fb0607d8283ec101f6060fb02 } else { if i < 230 { 0x1f6420fb2007d8b83ec581f62a0fb14 } else { 0x1f64e0fb2607d9283ec901f6460fb22 } } } else { if i < 232 { 0x1f6a40fb5107da803ed3c1f6520fb28 } else { if i < 233 { 0x1f6b00fb5707dab03ed541f6a80fb53 } else { 0x1f6bc0fb5d07dae03ed6c1f6b40fb59 } } } } else { if i < 237 { if i < 235 { 0x1f6c80fb6307db103ed841f6c00fb5f } else { if i < 236 { 0x1f6d40fb6907db403ed9c1f6cc0fb65 } else { 0x1f6e00fb6f07db703edb41f6d80fb6b } } } else { if i < 238 { 0x1f6ec0fb7507dba03edcc1f6e40fb71 } else { if i < 239 { 0x1f6f80fb7b07dbd03ede41f6f00fb77 } else { 0x1f7040fb8107dc003edfc1f6fc0fb7d } } } } }
pub open spec fn U_kec_k_p_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x1f7100fb8707dc303ee141f7080fb83 } else { if i < 242 { 0x1f71c0fb8d07dc603ee2c1f7140fb89 } else { 0x1f7280fb9307dc903ee441f7200fb8f } } } else { if i < 244 { 0x1f7340fb9907dcc03ee5c1f72c0fb95 } else { if i < 245 { 0x1f7400fb9f07dcf03ee741f7380fb9b } else { 0x1f74c0fba507dd203ee8c1f7440fba1 } } } } else { if i < 249 { if i < 247 { 0x1f7580fbab07dd503eea41f7500fba7 } else { if i < 248 { 0x1f7a60fbb107dd803eebc1f75c0fbad } else { 0x1f7b20fbd807deb83ef581f7aa0fbd4 } } } else { if i < 250 { 0x1f7be0fbde07dee83ef701f7b60fbda } else { if i < 251 { 0x1f7ca0fbe407df183ef881f7c20fbe0 } else { 0x1f7d60fbea07df483efa01f7ce0fbe6 } } } } }
pub open spec fn U_kec_k_p_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x1f7e20fbf007df783efb81f7da0fbec } else { if i < 254 { 0x1f7ee0fbf607dfa83efd01f7e60fbf2 } else { 0x1f7fa0fbfc07dfd83efe81f7f20fbf8 } } } else { if i < 256 { 0x1f8060fc0207e0083f0001f7fe0fbfe } else { if i < 257 { 0x1f8120fc0807e0383f0181f80a0fc04 } else { 0x1f81e0fc0e07e0683f0301f8160fc0a } } } } else { if i < 261 { if i < 259 { 0x1f82a0fc1407e0983f0481f8220fc10 } else { if i < 260 { 0x1f8360fc1a07e0c83f0601f82e0fc16 } else { 0x1f8420fc2007e0f83f0781f83a0fc1c } } } else { if i < 262 { 0x1f84e0fc2607e1283f0901f8460fc22 } else { if i < 263 { 0x1f85a0fc2c07e1583f0a81f8520fc28 } else { 0x1f8660fc3207e1883f0c01f85e0fc2e } } } } }
pub open spec fn U_kec_k_p_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x1f8720fc3807e1b83f0d81f86a0fc34 } else { if i < 266 { 0x1f87e0fc3e07e1e83f0f01f8760fc3a } else { 0x1f88a0fc4407e2183f1081f8820fc40 } } } else { if i < 268 { 0x1f8960fc4a07e2483f1201f88e0fc46 } else { if i < 269 { 0x1f8a20fc5007e2783f1381f89a0fc4c } else { 0x1f8ae0fc5607e2a83f1501f8a60fc52 } } } } else { if i < 273 { if i < 271 { 0x1f8ba0fc5c07e2d83f1681f8b20fc58 } else { if i < 272 { 0x1f8c60fc6207e3083f1801f8be0fc5e } else { 0x1f8d20fc6807e3383f1981f8ca0fc64 } } } else { if i < 274 { 0x1f8de0fc6e07e3683f1b01f8d60fc6a } else { if i < 275 { 0x1f8ea0fc7407e3983f1c81f8e20fc70 } else { 0x1f8f60fc7a07e3c83f1e01f8ee0fc76 } } } } }
pub open spec fn U_kec_k_p_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x1f9020fc8007e3f83f1f81f8fa0fc7c } else { if i < 278 { 0x1f90e0fc8607e4283f2101f9060fc82 } else { 0x1f91a0fc8c07e4583f2281f9120fc88 } } } else { if i < 280 { 0x1f9260fc9207e4883f2401f91e0fc8e } else { if i < 281 { 0x1f9320fc9807e4b83f2581f92a0fc94 } else { 0x1f93e0fc9e07e4e83f2701f9360fc9a } } } } else { if i < 285 { if i < 283 { 0x1f94a0fca407e5183f2881f9420fca0 } else { if i < 284 { 0x1f9560fcaa07e5483f2a01f94e0fca6 } else { 0x1f9620fcb007e5783f2b81f95a0fcac } } } else { if i < 286 { 0x1f96e0fcb607e5a83f2d01f9660fcb2 } else { if i < 287 { 0x1f97a0fcbc07e5d83f2e81f9720fcb8 } else { 0x1f9860fcc207e6083f3001f97e0fcbe } } } } }
pub open spec fn U_kec_k_p_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_kec_k_p_1_0(i) } else { if i < 168 { U_kec_k_p_1_1(i) } else { U_kec_k_p_1_2(i) } } } else { if i < 192 { U_kec_k_p_1_3(i) } else { if i < 204 { U_kec_k_p_1_4(i) } else { U_kec_k_p_1_5(i) } } } } else { if i < 252 { if i < 228 { U_kec_k_p_1_6(i) } else { if i < 240 { U_kec_k_p_1_7(i) } else { U_kec_k_p_1_8(i) } } } else { if i < 264 { U_kec_k_p_1_9(i) } else { if i < 276 { U_kec_k_p_1_10(i) } else { U_kec_k_p_1_11(i) } } } } }
pub open spec fn U_kec_k_p_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x1f9920fcc807e6383f3181f98a0fcc4 } else { if i < 290 { 0x1f99e0fcce07e6683f3301f9960fcca } else { 0x1f9aa0fcd407e6983f3481f9a20fcd0 } } } else { if i < 292 { 0x1f9b60fcda07e6c83f3601f9ae0fcd6 } else { if i < 293 { 0x1f9c20fce007e6f83f3781f9ba0fcdc } else { 0x1f9ce0fce607e7283f3901f9c60fce2 } } } } else { if i < 297 { if i < 295 { 0x1f9da0fcec07e7583f3a81f9d20fce8 } else { if i < 296 { 0x1f9e60fcf207e7883f3c01f9de0fcee } else { 0x1f9f20fcf807e7b83f3d81f9ea0fcf4 } } } else { if i < 298 { 0x1f9fe0fcfe07e7e83f3f01f9f60fcfa } else { if i < 299 { 0x1fa0a0fd0407e8183f4081fa020fd00 } else { 0x1fa160fd0a07e8483f4201fa0e0fd06 } } } } }
pub open spec fn U_kec_k_p_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x1fa220fd1007e8783f4381fa1a0fd0c } else { if i < 302 { 0x1fa2e0fd1607e8a83f4501fa260fd12 } else { 0x1fa3a0fd1c07e8d83f4681fa320fd18 } } } else { if i < 304 { 0x1fa460fd2207e9083f4801fa3e0fd1e } else { if i < 305 { 0x1fa520fd2807e9383f4981fa4a0fd24 } else { 0x1fa5e0fd2e07e9683f4b01fa560fd2a } } } } else { if i < 309 { if i < 307 { 0x1fa6a0fd3407e9983f4c81fa620fd30 } else { if i < 308 { 0x1fa760fd3a07e9c83f4e01fa6e0fd36 } else { 0x1faa60fd5207ea883f5401fa7a0fd3c } } } else { if i < 310 { 0x1fab20fd5807eab83f5581faaa0fd54 } else { if i < 311 { 0x1fabe0fd5e07eae83f5701fab60fd5a } else { 0x1faca0fd6407eb183f5881fac20fd60 } } } } }
pub open spec fn U_kec_k_p_2_2(i: int) -> int { if i < 318 { if i < 315 { if i < 313 { 0x1fad60fd6a07eb483f5a01face0fd66 } else { if i < 314 { 0x1fae20fd7007eb783f5b81fada0fd6c } else { 0x1faee0fd7607eba83f5d01fae60fd72 } } } else { if i < 316 { 0x1fafa0fd7c07ebd83f5e81faf20fd78 } else { if i < 317 { 0x1fb060fd8207ec083f6001fafe0fd7e } else { 0x1fb120fd8807ec383f6181fb0a0fd84 } } } } else { if i < 321 { if i < 319 { 0x1fb1e0fd8e07ec683f6301fb160fd8a } else { if i < 320 { 0x1fb2e0fd9607eca83f6501fb260fd92 } else { 0x1fb3a0fd9c07ecd83f6681fb320fd98 } } } else { if i < 322 { 0x1fb460fda207ed083f6801fb3e0fd9e } else { if i < 323 { 0x1fb520fda807ed383f6981fb4a0fda4 } else { 0x1fb5e0fdae07ed683f6b01fb560fdaa } } } } }
pub open spec fn U_kec_k_p_2_3(i: int) -> int { if i < 330 { if i < 327 { if i < 325 { 0x1fb6a0fdb407ed983f6c81fb620fdb0 } else { if i < 326 { 0x1fb760fdba07edc83f6e01fb6e0fdb6 } else { 0x1fb820fdc007edf83f6f81fb7a0fdbc } } } else { if i < 328 { 0x1fb8e0fdc607ee283f7101fb860fdc2 } else { if i < 329 { 0x1fbea0fdf407ef983f7c81fbe20fdf0 } else { 0x1fbf60fdfa07efc83f7e01fbee0fdf6 } } } } else { if i < 333 { if i < 331 { 0x1fc280fe1307f0903f8441fc200fdfc } else { if i < 332 { 0x1fc600fe1907f0c03f85c1fc2c0fe15 } else { 0x1fc6c0fe3507f1a03f8cc1fc640fe31 } } } else { if i < 334 { 0x1fc780fe3b07f1d03f8e41fc700fe37 } else { if i < 335 { 0x1fc840fe4107f2003f8fc1fc7c0fe3d } else { 0x1fc940fe4907f2403f91c1fc880fe43 } } } } }
pub open spec fn U_kec_k_p_2_4(i: int) -> int { if i < 342 { if i < 339 { if i < 337 { 0x1fca00fe4f07f2703f9341fc980fe4b } else { if i < 338 { 0x1fcae0fe5607f2a83f9501fca40fe51 } else { 0x1fcba0fe5c07f2d83f9681fcb20fe58 } } } else { if i < 340 { 0x1fcc60fe6207f3083f9801fcbe0fe5e } else { if i < 341 { 0x1fcd40fe6907f3403f9981fcca0fe64 } else { 0x1fcec0fe7407f3903f9c41fce00fe6b } } } } else { if i < 345 { if i < 343 { 0x1fcf80fe7b07f3d03f9e41fcf00fe77 } else { if i < 344 { 0x1fd040fe8107f4003f9fc1fcfc0fe7d } else { 0x1fd100fe8707f4303fa141fd080fe83 } } } else { if i < 346 { 0x1fd1c0fe8d07f4603fa2c1fd140fe89 } else { if i < 347 { 0x1fd280fe9307f4903fa441fd200fe8f } else { 0x1fd340fe9907f4c03fa5c1fd2c0fe95 } } } } }
pub open spec fn U_kec_k_p_2_5(i: int) -> int { if i < 354 { if i < 351 { if i < 349 { 0x1fd400fe9f07f4f03fa741fd380fe9b } else { if i < 350 { 0x1fd4c0fea507f5203fa8c1fd440fea1 } else { 0x1fd580feab07f5503faa41fd500fea7 } } } else { if i < 352 { 0x1fd640feb107f5803fabc1fd5c0fead } else { if i < 353 { 0x1fd700feb707f5b03fad41fd680feb3 } else { 0x1fd7c0febd07f5e03faec1fd740feb9 } } } } else { if i < 357 { if i < 355 { 0x1fd880fec307f6103fb041fd800febf } else { if i < 356 { 0x1fd940fec907f6403fb1c1fd8c0fec5 } else { 0x1fda00fecf07f6703fb341fd980fecb } } } else { if i < 358 { 0x1fdac0fed507f6a03fb4c1fda40fed1 } else { if i < 359 { 0x1fdb80fedb07f6d03fb641fdb00fed7 } else { 0x1fdc40fee107f7003fb7c1fdbc0fedd } } } } }
pub open spec fn U_kec_k_p_2_6(i: int) -> int { if i < 366 { if i < 363 { if i < 361 { 0x1fdd00fee707f7303fb941fdc80fee3 } else { if i < 362 { 0x1fddc0feed07f7603fbac1fdd40fee9 } else { 0x1fde80fef307f7903fbc41fde00feef } } } else { if i < 364 { 0x1fdf40fef907f7c03fbdc1fdec0fef5 } else { if i < 365 { 0x1fe080ff0307f8103fc041fdf80fefb } else { 0x1fe140ff0907f8403fc1c1fe0c0ff05 } } } } else { if i < 369 { if i < 367 { 0x1fe200ff0f07f8703fc341fe180ff0b } else { if i < 368 { 0x1fe2c0ff1507f8a03fc4c1fe240ff11 } else { 0x1fe380ff1b07f8d03fc641fe300ff17 } } } else { if i < 370 { 0x1fe440ff2107f9003fc7c1fe3c0ff1d } else { if i < 371 { 0x1fe500ff2707f9303fc941fe480ff23 } else { 0x1fe5c0ff2d07f9603fcac1fe540ff29 } } } } }
pub open spec fn U_kec_k_p_2_7(i: int) -> int { if i < 378 { if i < 375 { if i < 373 { 0x1fe680ff3307f9903fcc41fe600ff2f } else { if i < 374 { 0x1fe740ff3907f9c03fcdc1fe6c0ff35 } else { 0x1fe800ff3f07f9f03fcf41fe780ff3b } } } else { if i < 376 { 0x1fe8c0ff4507fa203fd0c1fe840ff41 } else { if i < 377 { 0x1fe980ff4b07fa503fd241fe900ff47 } else { 0x1fea40ff5107fa803fd3c1fe9c0ff4d } } } } else { if i < 381 { if i < 379 { 0x1feb00ff5707fab03fd541fea80ff53 } else { if i < 380 { 0x1febc0ff5d07fae03fd6c1feb40ff59 } else { 0x1fec80ff6307fb103fd841fec00ff5f } } } else { if i < 382 { 0x1fed40ff6907fb403fd9c1fecc0ff65 } else { if i < 383 { 0x1fee00ff6f07fb703fdb41fed80ff6b } else { 0x1feec0ff7507fba03fdcc1fee40ff71 } } } } }
pub open spec fn U_kec_k_p_2_8(i: int) -> int { if i < 390 { if i < 387 { if i < 385 { 0x1fef80ff7b07fbd03fde41fef00ff77 } else { if i < 386 { 0x1ff040ff8107fc003fdfc1fefc0ff7d } else { 0x1ff100ff8707fc303fe141ff080ff83 } } } else { if i < 388 { 0x1ff1c0ff8d07fc603fe2c1ff140ff89 } else { if i < 389 { 0x1ff280ff9307fc903fe441ff200ff8f } else { 0x1ff340ff9907fcc03fe5c1ff2c0ff95 } } } } else { if i < 393 { if i < 391 { 0x1ff400ff9f07fcf03fe741ff380ff9b } else { if i < 392 { 0x1ff4c0ffa507fd203fe8c1ff440ffa1 } else { 0x1ff580ffab07fd503fea41ff500ffa7 } } } else { if i < 394 { 0x1ff640ffb107fd803febc1ff5c0ffad } else { if i < 395 { 0x1ff700ffb707fdb03fed41ff680ffb3 } else { 0x1ff7c0ffbd07fde03feec1ff740ffb9 } } } } }
pub open spec fn U_kec_k_p_2_9(i: int) -> int { if i < 402 { if i < 399 { if i < 397 { 0x1ff8e0ffc607fe283ff101ff860ffc2 } else { if i < 398 { 0x1ff9e0ffce07fe683ff301ff960ffca } else { 0x1ffae0ffd607fea83ff501ffa60ffd2 } } } else { if i < 400 { 0x1ffc40ffe107ff003ff701ffb60ffda } else { if i < 401 { 0x1ffd20ffe807ff303ff941ffc80ffe3 } else { 0x20f020ffee07ff683ffb01ffd60ffea } } } } else { if i < 405 { if i < 403 { 0x20f1010787083c2841e1020f0610782 } else { if i < 404 { 0x20f1c1078d083c6041e2c20f1410789 } else { 0x20f2810793083c9041e4420f201078f } } } else { if i < 406 { 0x20f3410799083cc041e5c20f2c10795 } else { if i < 407 { 0x20f401079f083cf041e7420f381079b } else { 0x20f4c107a5083d2041e8c20f44107a1 } } } } }
pub open spec fn U_kec_k_p_2_10(i: int) -> int { if i < 414 { if i < 411 { if i < 409 { 0x20f58107ab083d5041ea420f50107a7 } else { if i < 410 { 0x20f66107b2083d8041ebc20f5c107ad } else { 0x20f72107b8083db841ed820f6a107b4 } } } else { if i < 412 { 0x399b41ccd90e66c07335c399ac107ba } else { if i < 413 { 0x399c01ccdf0e66f073374399b81ccdb } else { 0x399cc1cce50e67207338c399c41cce1 } } } } else { if i < 417 { if i < 415 { 0x399d81cceb0e6750733a4399d01cce7 } else { if i < 416 { 0x399e41ccf10e6780733bc399dc1cced } else { 0x399f01ccf70e67b0733d4399e81ccf3 } } } else { if i < 418 { 0x3a8081d4030ea010750043a8001ccf9 } else { if i < 419 { 0x3a8141d4090ea0407501c3a80c1d405 } else { 0x3a8201d40f0ea070750343a8181d40b } } } } }
pub open spec fn U_kec_k_p_2_11(i: int) -> int { if i < 426 { if i < 423 { if i < 421 { 0x3a82c1d4150ea0a07504c3a8241d411 } else { if i < 422 { 0x3a8381d41b0ea0d0750643a8301d417 } else { 0x3a8441d4210ea1007507c3a83c1d41d } } } else { if i < 424 { 0x3a8501d4270ea130750943a8481d423 } else { if i < 425 { 0x3a85c1d42d0ea160750ac3a8541d429 } else { 0x3a8681d4330ea190750c43a8601d42f } } } } else { if i < 429 { if i < 427 { 0x3a8741d4390ea1c0750dc3a86c1d435 } else { if i < 428 { 0x3a8801d43f0ea1f0750f43a8781d43b } else { 0x3a88c1d4450ea2207510c3a8841d441 } } } else { if i < 430 { 0x3a8981d44b0ea250751243a8901d447 } else { if i < 431 { 0x3a8a41d4510ea2807513c3a89c1d44d } else { 0x3a8b21d4580ea2b8751583a8a81d453 } } } } }
pub open spec fn U_kec_k_p_2(i: int) -> int { if i < 360 { if i < 324 { if i < 300 { U_kec_k_p_2_0(i) } else { if i < 312 { U_kec_k_p_2_1(i) } else { U_kec_k_p_2_2(i) } } } else { if i < 336 { U_kec_k_p_2_3(i) } else { if i < 348 { U_kec_k_p_2_4(i) } else { U_kec_k_p_2_5(i) } } } } else { if i < 396 { if i < 372 { U_kec_k_p_2_6(i) } else { if i < 384 { U_kec_k_p_2_7(i) } else { U_kec_k_p_2_8(i) } } } else { if i < 408 { U_kec_k_p_2_9(i) } else { if i < 420 { U_kec_k_p_2_10(i) } else { U_kec_k_p_2_11(i) } } } } }
pub open spec fn U_kec_k_p_3_0(i: int) -> int { if i < 438 { if i < 435 { if i < 433 { 0x3a8be1d45e0ea2e8751703a8b61d45a } else { if i < 434 { 0x3a8ca1d4640ea318751883a8c21d460 } else { 0x3a8d61d46a0ea348751a03a8ce1d466 } } } else { if i < 436 { 0x3a8e21d4700ea378751b83a8da1d46c } else { if i < 437 { 0x3a8ee1d4760ea3a8751d03a8e61d472 } else { 0x3a8fa1d47c0ea3d8751e83a8f21d478 } } } } else { if i < 441 { if i < 439 { 0x3a9061d4820ea408752003a8fe1d47e } else { if i < 440 { 0x3a9121d4880ea438752183a90a1d484 } else { 0x3a91e1d48e0ea468752303a9161d48a } } } else { if i < 442 { 0x3a92a1d4940ea498752483a9221d490 } else { if i < 443 { 0x3a9361d49a0ea4c8752603a92e1d496 } else { 0x3a94c1d4a50ea5107527c3a93c1d49c } } } } }
pub open spec fn U_kec_k_p_3_1(i: int) -> int { if i < 450 { if i < 447 { if i < 445 { 0x3a95e1d4ae0ea560752ac3a9541d4a9 } else { if i < 446 { 0x3a96a1d4b40ea598752c83a9621d4b0 } else { 0x3a97a1d4bb0ea5c8752e03a96e1d4b6 } } } else { if i < 448 { 0x3a9861d4c20ea608753003a97e1d4be } else { if i < 449 { 0x3a9941d4c90ea6407531c3a98c1d4c5 } else { 0x3a9a01d4cf0ea670753343a9981d4cb } } } } else { if i < 453 { if i < 451 { 0x3a9ac1d4d50ea6a07534c3a9a41d4d1 } else { if i < 452 { 0x3a9b81d4db0ea6d0753643a9b01d4d7 } else { 0x3a9c41d4e10ea7007537c3a9bc1d4dd } } } else { if i < 454 { 0x3a9d01d4e70ea730753943a9c81d4e3 } else { if i < 455 { 0x3a9dc1d4ed0ea760753ac3a9d41d4e9 } else { 0x3a9e81d4f30ea790753c43a9e01d4ef } } } } }
pub open spec fn U_kec_k_p_3_2(i: int) -> int { if i < 462 { if i < 459 { if i < 457 { 0x3a9f41d4f90ea7c0753dc3a9ec1d4f5 } else { if i < 458 { 0x3aa001d4ff0ea7f0753f43a9f81d4fb } else { 0x3aa0e1d5050ea8207540c3aa041d501 } } } else { if i < 460 { 0x3aa1e1d50e0ea868754283aa121d508 } else { if i < 461 { 0x3aa2c1d5140ea898754483aa221d510 } else { 0x3aa381d51b0ea8d0754643aa301d517 } } } } else { if i < 465 { if i < 463 { 0x3aa461d5220ea908754803aa3e1d51e } else { if i < 464 { 0x3aa521d5280ea938754983aa4a1d524 } else { 0x3aa5e1d52e0ea968754b03aa561d52a } } } else { if i < 466 { 0x3aa6a1d5340ea998754c83aa621d530 } else { if i < 467 { 0x3aa781d53b0ea9c8754e03aa6e1d536 } else { 0x3aa861d5420eaa08755003aa7c1d53d } } } } }
pub open spec fn U_kec_k_p_3_3(i: int) -> int { if i < 474 { if i < 471 { if i < 469 { 0x3aa9a1d54c0eaa58755283aa8c1d544 } else { if i < 470 { 0x3aaa81d5530eaa90755403aa9e1d54e } else { 0x3aab41d5590eaac07555c3aaac1d555 } } } else { if i < 472 { 0x3aac01d55f0eaaf0755743aab81d55b } else { if i < 473 { 0x3aacc1d5650eab207558c3aac41d561 } else { 0x3aad81d56b0eab50755a43aad01d567 } } } } else { if i < 477 { if i < 475 { 0x3aae41d5710eab80755bc3aadc1d56d } else { if i < 476 { 0x3aaf01d5770eabb0755d43aae81d573 } else { 0x3aafc1d57d0eabe0755ec3aaf41d579 } } } else { if i < 478 { 0x3ab081d5830eac10756043ab001d57f } else { if i < 479 { 0x3ab141d5890eac407561c3ab0c1d585 } else { 0x3ab201d58f0eac70756343ab181d58b } } } } }
pub open spec fn U_kec_k_p_3_4(i: int) -> int { if i < 486 { if i < 483 { if i < 481 { 0x3ab2c1d5950eaca07564c3ab241d591 } else { if i < 482 { 0x3ab381d59b0eacd0756643ab301d597 } else { 0x3ab441d5a10ead007567c3ab3c1d59d } } } else { if i < 484 { 0x3ab501d5a70ead30756943ab481d5a3 } else { if i < 485 { 0x3ab5c1d5ad0ead60756ac3ab541d5a9 } else { 0x3ab681d5b30ead90756c43ab601d5af } } } } else { if i < 489 { if i < 487 { 0x3ab741d5b90eadc0756dc3ab6c1d5b5 } else { if i < 488 { 0x3ab801d5bf0eadf0756f43ab781d5bb } else { 0x3ab8c1d5c50eae207570c3ab841d5c1 } } } else { if i < 490 { 0x3ab981d5cb0eae50757243ab901d5c7 } else { if i < 491 { 0x3aba41d5d10eae807573c3ab9c1d5cd } else { 0x3abb01d5d70eaeb0757543aba81d5d3 } } } } }
pub open spec fn U_kec_k_p_3_5(i: int) -> int { if i < 498 { if i < 495 { if i < 493 { 0x3abbc1d5dd0eaee07576c3abb41d5d9 } else { if i < 494 { 0x3abc81d5e30eaf10757843abc01d5df } else { 0x3abd41d5e90eaf407579c3abcc1d5e5 } } } else { if i < 496 { 0x3abe01d5ef0eaf70757b43abd81d5eb } else { if i < 497 { 0x3abec1d5f50eafa0757cc3abe41d5f1 } else { 0x3abf81d5fb0eafd0757e43abf01d5f7 } } } } else { if i < 501 { if i < 499 { 0x3ac041d6010eb000757fc3abfc1d5fd } else { if i < 500 { 0x3ac101d6070eb030758143ac081d603 } else { 0x3ac1c1d60d0eb0607582c3ac141d609 } } } else { if i < 502 { 0x3ac281d6130eb090758443ac201d60f } else { if i < 503 { 0x3ac341d6190eb0c07585c3ac2c1d615 } else { 0x3ac401d61f0eb0f0758743ac381d61b } } } } }
pub open spec fn U_kec_k_p_3_6(i: int) -> int { if i < 510 { if i < 507 { if i < 505 { 0x3ac4c1d6250eb1207588c3ac441d621 } else { if i < 506 { 0x3ac581d62b0eb150758a43ac501d627 } else { 0x3ac641d6310eb180758bc3ac5c1d62d } } } else { if i < 508 { 0x3ac701d6370eb1b0758d43ac681d633 } else { if i < 509 { 0x3ac7c1d63d0eb1e0758ec3ac741d639 } else { 0x3ac881d6430eb210759043ac801d63f } } } } else { if i < 513 { if i < 511 { 0x3ac941d6490eb2407591c3ac8c1d645 } else { if i < 512 { 0x3aca01d64f0eb270759343ac981d64b } else { 0x3acac1d6550eb2a07594c3aca41d651 } } } else { if i < 514 { 0x3acb81d65b0eb2d0759643acb01d657 } else { if i < 515 { 0x3acc41d6610eb3007597c3acbc1d65d } else { 0x3acd01d6670eb330759943acc81d663 } } } } }
pub open spec fn U_kec_k_p_3_7(i: int) -> int { if i < 522 { if i < 519 { if i < 517 { 0x3acdc1d66d0eb360759ac3acd41d669 } else { if i < 518 { 0x3ace81d6730eb390759c43ace01d66f } else { 0x3acf41d6790eb3c0759dc3acec1d675 } } } else { if i < 520 { 0x3ad001d67f0eb3f0759f43acf81d67b } else { if i < 521 { 0x3ad0c1d6850eb42075a0c3ad041d681 } else { 0x3ad181d68b0eb45075a243ad101d687 } } } } else { if i < 525 { if i < 523 { 0x3ad241d6910eb48075a3c3ad1c1d68d } else { if i < 524 { 0x3ad301d6970eb4b075a543ad281d693 } else { 0x3ad3c1d69d0eb4e075a6c3ad341d699 } } } else { if i < 526 { 0x3ad481d6a30eb51075a843ad401d69f } else { if i < 527 { 0x3ad581d6ab0eb55075aa43ad501d6a5 } else { 0x3ad641d6b10eb58075abc3ad5c1d6ad } } } } }
pub open spec fn U_kec_k_p_3_8(i: int) -> int { if i < 534 { if i < 531 { if i < 529 { 0x3ad701d6b70eb5b075ad43ad681d6b3 } else { if i < 530 { 0x3ad7c1d6bd0eb5e075aec3ad741d6b9 } else { 0x3ad881d6c30eb61075b043ad801d6bf } } } else { if i < 532 { 0x3ad941d6c90eb64075b1c3ad8c1d6c5 } else { if i < 533 { 0x3ada01d6cf0eb67075b343ad981d6cb } else { 0x3adac1d6d50eb6a075b4c3ada41d6d1 } } } } else { if i < 537 { if i < 535 { 0x3adb81d6db0eb6d075b643adb01d6d7 } else { if i < 536 { 0x3adc41d6e10eb70075b7c3adbc1d6dd } else { 0x3add01d6e70eb73075b943adc81d6e3 } } } else { if i < 538 { 0x3addc1d6ed0eb76075bac3add41d6e9 } else { if i < 539 { 0x3ade81d6f30eb79075bc43ade01d6ef } else { 0x3adf41d6f90eb7c075bdc3adec1d6f5 } } } } }
pub open spec fn U_kec_k_p_3_9(i: int) -> int { if i < 546 { if i < 543 { if i < 541 { 0x3ae001d6ff0eb7f075bf43adf81d6fb } else { if i < 542 { 0x3ae0c1d7050eb82075c0c3ae041d701 } else { 0x3ae181d70b0eb85075c243ae101d707 } } } else { if i < 544 { 0x3ae241d7110eb88075c3c3ae1c1d70d } else { if i < 545 { 0x3ae301d7170eb8b075c543ae281d713 } else { 0x3ae3c1d71d0eb8e075c6c3ae341d719 } } } } else { if i < 549 { if i < 547 { 0x3ae481d7230eb91075c843ae401d71f } else { if i < 548 { 0x3ae541d7290eb94075c9c3ae4c1d725 } else { 0x3ae601d72f0eb97075cb43ae581d72b } } } else { if i < 550 { 0x3ae6c1d7350eb9a075ccc3ae641d731 } else { if i < 551 { 0x3ae781d73b0eb9d075ce43ae701d737 } else { 0x3ae841d7410eba0075cfc3ae7c1d73d } } } } }
pub open spec fn U_kec_k_p_3_10(i: int) -> int { if i < 558 { if i < 555 { if i < 553 { 0x3ae901d7470eba3075d143ae881d743 } else { if i < 554 { 0x3ae9c1d74d0eba6075d2c3ae941d749 } else { 0x3aea81d7530eba9075d443aea01d74f } } } else { if i < 556 { 0x3aeb41d7590ebac075d5c3aeac1d755 } else { if i < 557 { 0x3aec01d75f0ebaf075d743aeb81d75b } else { 0x3aecc1d7650ebb2075d8c3aec41d761 } } } } else { if i < 561 { if i < 559 { 0x3aed81d76b0ebb5075da43aed01d767 } else { if i < 560 { 0x3aee41d7710ebb8075dbc3aedc1d76d } else { 0x3aef01d7770ebbb075dd43aee81d773 } } } else { if i < 562 { 0x3aefc1d77d0ebbe075dec3aef41d779 } else { if i < 563 { 0x3af081d7830ebc1075e043af001d77f } else { 0x3af141d7890ebc4075e1c3af0c1d785 } } } } }
pub open spec fn U_kec_k_p_3_11(i: int) -> int { if i < 570 { if i < 567 { if i < 565 { 0x3af201d78f0ebc7075e343af181d78b } else { if i < 566 { 0x3af2c1d7950ebca075e4c3af241d791 } else { 0x3af381d79b0ebcd075e643af301d797 } } } else { if i < 568 { 0x3af441d7a10ebd0075e7c3af3c1d79d } else { if i < 569 { 0x3af501d7a70ebd3075e943af481d7a3 } else { 0x3af5c1d7ad0ebd6075eac3af541d7a9 } } } } else { if i < 573 { if i < 571 { 0x3af681d7b30ebd9075ec43af601d7af } else { if i < 572 { 0x3af741d7b90ebdc075edc3af6c1d7b5 } else { 0x3af801d7bf0ebdf075ef43af781d7bb } } } else { if i < 574 { 0x3af8c1d7c50ebe2075f0c3af841d7c1 } else { if i < 575 { 0x3af9c1d7cb0ebe5075f243af901d7c7 } else { 0x3afa81d7d30ebe9075f443afa01d7cf } } } } }
pub open spec fn U_kec_k_p_3(i: int) -> int { if i < 504 { if i < 468 { if i < 444 { U_kec_k_p_3_0(i) } else { if i < 456 { U_kec_k_p_3_1(i) } else { U_kec_k_p_3_2(i) } } } else { if i < 480 { U_kec_k_p_3_3(i) } else { if i < 492 { U_kec_k_p_3_4(i) } else { U_kec_k_p_3_5(i) } } } } else { if i < 540 { if i < 516 { U_kec_k_p_3_6(i) } else { if i < 528 { U_kec_k_p_3_7(i) } else { U_kec_k_p_3_8(i) } } } else { if i < 552 { U_kec_k_p_3_9(i) } else { if i < 564 { U_kec_k_p_3_10(i) } else { U_kec_k_p_3_11(i) } } } } }
pub open spec fn U_kec_k_p_4_0(i: int) -> int { if i < 582 { if i < 579 { if i < 577 { 0x3afb41d7d90ebec075f5c3afac1d7d5 } else { if i < 578 { 0x3afc01d7df0ebef075f743afb81d7db } else { 0x3afcc1d7e50ebf2075f8c3afc41d7e1 } } } else { if i < 580 { 0x3afd81d7eb0ebf5075fa43afd01d7e7 } else { if i < 581 { 0x3afe41d7f10ebf8075fbc3afdc1d7ed } else { 0x3aff01d7f70ebfb075fd43afe81d7f3 } } } } else { if i < 585 { if i < 583 { 0x3affc1d7fd0ebfe075fec3aff41d7f9 } else { if i < 584 { 0x3c0681e0330f0190780c43c0601d7ff } else { 0x3c0741e0390f01c0780dc3c06c1e035 } } } else { if i < 586 { 0x3c0801e03f0f01f0780f43c0781e03b } else { if i < 587 { 0x3c08c1e0450f02207810c3c0841e041 } else { 0x3c0981e04b0f0250781243c0901e047 } } } } }
pub open spec fn U_kec_k_p_4_1(i: int) -> int { if i < 594 { if i < 591 { if i < 589 { 0x3c0a41e0510f02807813c3c09c1e04d } else { if i < 590 { 0x3c0b01e0570f02b0781543c0a81e053 } else { 0x3c0bc1e05d0f02e07816c3c0b41e059 } } } else { if i < 592 { 0x3c0c81e0630f0310781843c0c01e05f } else { if i < 593 { 0x3c0d41e0690f03407819c3c0cc1e065 } else { 0x3dc041ee010f7000781b43c0d81e06b } } } } else { if i < 597 { if i < 595 { 0x3dc121ee080f70387b8183dc0a1ee03 } else { if i < 596 { 0x3dc1e1ee0e0f70687b8303dc161ee0a } else { 0x3dc2a1ee140f70987b8483dc221ee10 } } } else { if i < 598 { 0x3dc361ee1a0f70c87b8603dc2e1ee16 } else { if i < 599 { 0x3dc441ee210f70f87b8783dc3a1ee1c } else { 0x3dc581ee2b0f71507b8a43dc4e1ee24 } } } } }
pub open spec fn U_kec_k_p_4_2(i: int) -> int { if i < 606 { if i < 603 { if i < 601 { 0x3dc641ee310f71807b8bc3dc5c1ee2d } else { if i < 602 { 0x3dc761ee390f71b87b8d83dc6a1ee34 } else { 0x3dc9c1ee4d0f72587b9243dc8e1ee42 } } } else { if i < 604 { 0x3dcb21ee570f72a07b9483dca21ee4f } else { if i < 605 { 0x3dcc81ee620f73087b97c3dcba1ee5b } else { 0x3dcda1ee6c0f73507b9a43dcd01ee67 } } } } else { if i < 609 { if i < 607 { 0x3dce81ee720f73887b9c03dcde1ee6e } else { if i < 608 { 0x3dcf61ee7a0f73c87b9dc3dcec1ee75 } else { 0x3dd061ee820f74087ba003dcfc1ee7c } } } else { if i < 610 { 0x3dd121ee880f74387ba183dd0a1ee84 } else { if i < 611 { 0x3dd201ee8f0f74707ba343dd181ee8b } else { 0x3dd2c1ee950f74a07ba4c3dd241ee91 } } } } }
pub open spec fn U_kec_k_p_4_3(i: int) -> int { if i < 618 { if i < 615 { if i < 613 { 0x3dd421ee9b0f74d07ba643dd301ee97 } else { if i < 614 { 0x3dd501eea70f75307ba943dd461eea2 } else { 0x3dd5e1eeae0f75687bab03dd561eea9 } } } else { if i < 616 { 0x3dd6a1eeb40f75987bac83dd621eeb0 } else { if i < 617 { 0x3dd761eeba0f75c87bae03dd6e1eeb6 } else { 0x3e20a1f1040f88187c4083e2021f100 } } } } else { if i < 621 { if i < 619 { 0x3e2201f10a0f88487c4203e20e1f106 } else { if i < 620 { 0x3e22c1f1150f88a07c44c3e2241f111 } else { 0x3e2381f11b0f88d07c4643e2301f117 } } } else { if i < 622 { 0x3e2441f1210f89007c47c3e23c1f11d } else { if i < 623 { 0x3e2501f1270f89307c4943e2481f123 } else { 0x3e25c1f12d0f89607c4ac3e2541f129 } } } } }
pub open spec fn U_kec_k_p_4_4(i: int) -> int { if i < 630 { if i < 627 { if i < 625 { 0x3e26a1f1340f89987c4c83e2621f130 } else { if i < 626 { 0x3e2761f13a0f89c87c4e03e26e1f136 } else { 0x3e2821f1400f89f87c4f83e27a1f13c } } } else { if i < 628 { 0x3e28e1f1460f8a287c5103e2861f142 } else { if i < 629 { 0x3e29a1f14c0f8a587c5283e2921f148 } else { 0x3e3201f16c0f8b587c5a83e29e1f14e } } } } else { if i < 633 { if i < 631 { 0x3e4241f2110f90807c8083e4021f200 } else { if i < 632 { 0x3e4301f2170f90b07c8543e4281f213 } else { 0x3e43c1f21d0f90e07c86c3e4341f219 } } } else { if i < 634 { 0x3e4481f2230f91107c8843e4401f21f } else { if i < 635 { 0x3e4541f2290f91407c89c3e44c1f225 } else { 0x3e4601f22f0f91707c8b43e4581f22b } } } } }
pub open spec fn U_kec_k_p_4_5(i: int) -> int { if i < 639 { if i < 637 { 0x3e46c1f2350f91a07c8cc3e4641f231 } else { if i < 638 { 0x3e4801f23b0f91d07c8e43e4701f237 } else { 0x3e48c1f2450f92207c90c3e4841f241 } } } else { if i < 640 { 0x3f7e21fbf00f92887c9403e4901f247 } else { if i < 641 { 0x3f7ee1fbf60fdfa87efd03f7e61fbf2 } else { 0x3ffffffffffffffffffffc3f7f21fbf8 } } } }
pub open spec fn U_kec_k_p_4(i: int) -> int { if i < 612 { if i < 588 { U_kec_k_p_4_0(i) } else { if i < 600 { U_kec_k_p_4_1(i) } else { U_kec_k_p_4_2(i) } } } else { if i < 624 { U_kec_k_p_4_3(i) } else { if i < 636 { U_kec_k_p_4_4(i) } else { U_kec_k_p_4_5(i) } } } }
pub open spec fn U_kec_k_p(i: int) -> int { if i < 288 { if i < 144 { U_kec_k_p_0(i) } else { U_kec_k_p_1(i) } } else { if i < 432 { U_kec_k_p_2(i) } else { if i < 576 { U_kec_k_p_3(i) } else { U_kec_k_p_4(i) } } } }
pub open spec fn U_kec_k(i: int) -> int { unpack21(U_kec_k_p(i / 6), i % 6) }
pub open spec fn U_kec_b_0_0(x: int) -> int { if x < 0x2b4 { if x < 0x149 { if x < 0xb4 { 0 } else { if x < 0xbd { 1 } else { 2 } } } else { if x < 0x1c8 { 3 } else { if x < 0x1f2 { 4 } else { 5 } } } } else { if x < 0x385 { if x < 0x2d9 { 6 } else { if x < 0x2e1 { 7 } else { 8 } } } else { if x < 0x3d5 { 9 } else { if x < 0x3f5 { 10 } else { 11 } } } } }
pub open spec fn U_kec_b_0_1(x: int) -> int { if x < 0x1d49 { if x < 0x1d36 { if x < 0xf77 { 12 } else { if x < 0x1d30 { 13 } else { 14 } } } else { if x < 0x1d3d { 15 } else { if x < 0x1d43 { 16 } else { 17 } } } } else { if x < 0x1d5c { if x < 0x1d50 { 18 } else { if x < 0x1d56 { 19 } else { 20 } } } else { if x < 0x1d62 { 21 } else { if x < 0x1d68 { 22 } else { 23 } } } } }
pub open spec fn U_kec_b_0_2(x: int) -> int { if x < 0x1e9b { if x < 0x1daf { if x < 0x1da3 { 24 } else { if x < 0x1da9 { 25 } else { 26 } } } else { if x < 0x1db5 { 27 } else { if x < 0x1dbb { 28 } else { 29 } } } } else { if x < 0x2003 { if x < 0x1fce { 30 } else { if x < 0x1fee { 31 } else { 32 } } } else { if x < 0x2009 { 33 } else { if x < 0x2026 { 34 } else { 35 } } } } }
pub open spec fn U_kec_b_0_3(x: int) -> int { if x < 0x2090 { if x < 0x207d { if x < 0x205f { 36 } else { if x < 0x2077 { 37 } else { 38 } } } else { if x < 0x2083 { 39 } else { if x < 0x2089 { 40 } else { 41 } } } } else { if x < 0x2105 { if x < 0x2096 { 42 } else { if x < 0x209c { 43 } else { 44 } } } else { if x < 0x210c { 45 } else { if x < 0x2112 { 46 } else { 47 } } } } }
pub open spec fn U_kec_b_0_4(x: int) -> int { if x < 0x2155 { if x < 0x2138 { if x < 0x2124 { 48 } else { if x < 0x2131 { 49 } else { 50 } } } else { if x < 0x213f { 51 } else { if x < 0x2149 { 52 } else { 53 } } } } else { if x < 0x2167 { if x < 0x215b { 54 } else { if x < 0x2161 { 55 } else { 56 } } } else { if x < 0x216d { 57 } else { if x < 0x2173 { 58 } else { 59 } } } } }
pub open spec fn U_kec_b_0_5(x: int) -> int { if x < 0x2478 { if x < 0x2466 { if x < 0x217f { 60 } else { if x < 0x2460 { 61 } else { 62 } } } else { if x < 0x246c { 63 } else { if x < 0x2472 { 64 } else { 65 } } } } else { if x < 0x248a { if x < 0x247e { 66 } else { if x < 0x2484 { 67 } else { 68 } } } else { if x < 0x2490 { 69 } else { if x < 0x2496 { 70 } else { 71 } } } } }
pub open spec fn U_kec_b_0_6(x: int) -> int { if x < 0x24c0 { if x < 0x24ae { if x < 0x24a2 { 72 } else { if x < 0x24a8 { 73 } else { 74 } } } else { if x < 0x24b4 { 75 } else { if x < 0x24ba { 76 } else { 77 } } } } else { if x < 0x24d2 { if x < 0x24c6 { 78 } else { if x < 0x24cc { 79 } else { 80 } } } else { if x < 0x24d8 { 81 } else { if x < 0x24de { 82 } else { 83 } } } } }
pub open spec fn U_kec_b_0_7(x: int) -> int { if x < 0x2f14 { if x < 0x2f02 { if x < 0x24ea { 84 } else { if x < 0x2c7d { 85 } else { 86 } } } else { if x < 0x2f08 { 87 } else { if x < 0x2f0e { 88 } else { 89 } } } } else { if x < 0x2f26 { if x < 0x2f1a { 90 } else { if x < 0x2f20 { 91 } else { 92 } } } else { if x < 0x2f2c { 93 } else { if x < 0x2f32 { 94 } else { 95 } } } } }
pub open spec fn U_kec_b_0_8(x: int) -> int { if x < 0x2f5c { if x < 0x2f4a { if x < 0x2f3e { 96 } else { if x < 0x2f44 { 97 } else { 98 } } } else { if x < 0x2f50 { 99 } else { if x < 0x2f56 { 100 } else { 101 } } } } else { if x < 0x2f6e { if x < 0x2f62 { 102 } else { if x < 0x2f68 { 103 } else { 104 } } } else { if x < 0x2f74 { 105 } else { if x < 0x2f7a { 106 } else { 107 } } } } }
pub open spec fn U_kec_b_0_9(x: int) -> int { if x < 0x2fa4 { if x < 0x2f92 { if x < 0x2f86 { 108 } else { if x < 0x2f8c { 109 } else { 110 } } } else { if x < 0x2f98 { 111 } else { if x < 0x2f9e { 112 } else { 113 } } } } else { if x < 0x2fb6 { if x < 0x2faa { 114 } else { if x < 0x2fb0 { 115 } else { 116 } } } else { if x < 0x2fbc { 117 } else { if x < 0x2fc2 { 118 } else { 119 } } } } }
pub open spec fn U_kec_b_0_10(x: int) -> int { if x < 0x313e { if x < 0x303a { if x < 0x2fce { 120 } else { if x < 0x2fd4 { 121 } else { 122 } } } else { if x < 0x3132 { 123 } else { if x < 0x3138 { 124 } else { 125 } } } } else { if x < 0x3150 { if x < 0x3144 { 126 } else { if x < 0x314a { 127 } else { 128 } } } else { if x < 0x3156 { 129 } else { if x < 0x315c { 130 } else { 131 } } } } }
pub open spec fn U_kec_b_0_11(x: int) -> int { if x < 0x3186 { if x < 0x3174 { if x < 0x3168 { 132 } else { if x < 0x316e { 133 } else { 134 } } } else { if x < 0x317a { 135 } else { if x < 0x3180 { 136 } else { 137 } } } } else { if x < 0x319b { if x < 0x318c { 138 } else { if x < 0x3195 { 139 } else { 140 } } } else { if x < 0x3201 { 141 } else { if x < 0x3207 { 142 } else { 143 } } } } }
pub open spec fn U_kec_b_0(x: int) -> int { if x < 0x249c { if x < 0x203c { if x < 0x678 { U_kec_b_0_0(x) } else { if x < 0x1d9d { U_kec_b_0_1(x) } else { U_kec_b_0_2(x) } } } else { if x < 0x211b { U_kec_b_0_3(x) } else { if x < 0x2179 { U_kec_b_0_4(x) } else { U_kec_b_0_5(x) } } } } else { if x < 0x2f80 { if x < 0x24e4 { U_kec_b_0_6(x) } else { if x < 0x2f38 { U_kec_b_0_7(x) } else { U_kec_b_0_8(x) } } } else { if x < 0x2fc8 { U_kec_b_0_9(x) } else { if x < 0x3162 { U_kec_b_0_10(x) } else { U_kec_b_0_11(x) } } } } }
pub open spec fn U_kec_b_1_0(x: int) -> int { if x < 0x3232 { if x < 0x3220 { if x < 0x3213 { 144 } else { if x < 0x3219 { 145 } else { 146 } } } else { if x < 0x3226 { 147 } else { if x < 0x322c { 148 } else { 149 } } } } else { if x < 0x3244 { if x < 0x3238 { 150 } else { if x < 0x323e { 151 } else { 152 } } } else { if x < 0x3252 { 153 } else { if x < 0x3258 { 154 } else { 155 } } } } }
pub open spec fn U_kec_b_1_1(x: int) -> int { if x < 0x3283 { if x < 0x3270 { if x < 0x3264 { 156 } else { if x < 0x326a { 157 } else { 158 } } } else { if x < 0x3276 { 159 } else { if x < 0x327c { 160 } else { 161 } } } } else { if x < 0x3295 { if x < 0x3289 { 162 } else { if x < 0x328f { 163 } else { 164 } } } else { if x < 0x329b { 165 } else { if x < 0x32a1 { 166 } else { 167 } } } } }
pub open spec fn U_kec_b_1_2(x: int) -> int { if x < 0x32cb { if x < 0x32b9 { if x < 0x32ad { 168 } else { if x < 0x32b3 { 169 } else { 170 } } } else { if x < 0x32bf { 171 } else { if x < 0x32c5 { 172 } else { 173 } } } } else { if x < 0x32dd { if x < 0x32d1 { 174 } else { if x < 0x32d7 { 175 } else { 176 } } } else { if x < 0x32e3 { 177 } else { if x < 0x32e9 { 178 } else { 179 } } } } }
pub open spec fn U_kec_b_1_3(x: int) -> int { if x < 0x3313 { if x < 0x3301 { if x < 0x32f5 { 180 } else { if x < 0x32fb { 181 } else { 182 } } } else { if x < 0x3307 { 183 } else { if x < 0x330d { 184 } else { 185 } } } } else { if x < 0x3325 { if x < 0x3319 { 186 } else { if x < 0x331f { 187 } else { 188 } } } else { if x < 0x332b { 189 } else { if x < 0x3331 { 190 } else { 191 } } } } }
pub open spec fn U_kec_b_1_4(x: int) -> int { if x < 0x335b { if x < 0x3349 { if x < 0x333d { 192 } else { if x < 0x3343 { 193 } else { 194 } } } else { if x < 0x334f { 195 } else { if x < 0x3355 { 196 } else { 197 } } } } else { if x < 0x336d { if x < 0x3361 { 198 } else { if x < 0x3367 { 199 } else { 200 } } } else { if x < 0x3373 { 201 } else { if x < 0x3379 { 202 } else { 203 } } } } }
pub open spec fn U_kec_b_1_5(x: int) -> int { if x < 0x33a3 { if x < 0x3391 { if x < 0x3385 { 204 } else { if x < 0x338b { 205 } else { 206 } } } else { if x < 0x3397 { 207 } else { if x < 0x339d { 208 } else { 209 } } } } else { if x < 0x33b5 { if x < 0x33a9 { 210 } else { if x < 0x33af { 211 } else { 212 } } } else { if x < 0x33bb { 213 } else { if x < 0x33c1 { 214 } else { 215 } } } } }
pub open spec fn U_kec_b_1_6(x: int) -> int { if x < 0x33eb { if x < 0x33d9 { if x < 0x33cd { 216 } else { if x < 0x33d3 { 217 } else { 218 } } } else { if x < 0x33df { 219 } else { if x < 0x33e5 { 220 } else { 221 } } } } else { if x < 0x33fd { if x < 0x33f1 { 222 } else { if x < 0x33f7 { 223 } else { 224 } } } else { if x < 0xa7f2 { 225 } else { if x < 0xab5d { 226 } else { 227 } } } } }
pub open spec fn U_kec_b_1_7(x: int) -> int { if x < 0xfb5f { if x < 0xfb28 { if x < 0xfb14 { 228 } else { if x < 0xfb22 { 229 } else { 230 } } } else { if x < 0xfb53 { 231 } else { if x < 0xfb59 { 232 } else { 233 } } } } else { if x < 0xfb71 { if x < 0xfb65 { 234 } else { if x < 0xfb6b { 235 } else { 236 } } } else { if x < 0xfb77 { 237 } else { if x < 0xfb7d { 238 } else { 239 } } } } }
pub open spec fn U_kec_b_1_8(x: int) -> int { if x < 0xfba7 { if x < 0xfb95 { if x < 0xfb89 { 240 } else { if x < 0xfb8f { 241 } else { 242 } } } else { if x < 0xfb9b { 243 } else { if x < 0xfba1 { 244 } else { 245 } } } } else { if x < 0xfbda { if x < 0xfbad { 246 } else { if x < 0xfbd4 { 247 } else { 248 } } } else { if x < 0xfbe0 { 249 } else { if x < 0xfbe6 { 250 } else { 251 } } } } }
pub open spec fn U_kec_b_1_9(x: int) -> int { if x < 0xfc10 { if x < 0xfbfe { if x < 0xfbf2 { 252 } else { if x < 0xfbf8 { 253 } else { 254 } } } else { if x < 0xfc04 { 255 } else { if x < 0xfc0a { 256 } else { 257 } } } } else { if x < 0xfc22 { if x < 0xfc16 { 258 } else { if x < 0xfc1c { 259 } else { 260 } } } else { if x < 0xfc28 { 261 } else { if x < 0xfc2e { 262 } else { 263 } } } } }
pub open spec fn U_kec_b_1_10(x: int) -> int { if x < 0xfc58 { if x < 0xfc46 { if x < 0xfc3a { 264 } else { if x < 0xfc40 { 265 } else { 266 } } } else { if x < 0xfc4c { 267 } else { if x < 0xfc52 { 268 } else { 269 } } } } else { if x < 0xfc6a { if x < 0xfc5e { 270 } else { if x < 0xfc64 { 271 } else { 272 } } } else { if x < 0xfc70 { 273 } else { if x < 0xfc76 { 274 } else { 275 } } } } }
pub open spec fn U_kec_b_1_11(x: int) -> int { if x < 0xfca0 { if x < 0xfc8e { if x < 0xfc82 { 276 } else { if x < 0xfc88 { 277 } else { 278 } } } else { if x < 0xfc94 { 279 } else { if x < 0xfc9a { 280 } else { 281 } } } } else { if x < 0xfcb2 { if x < 0xfca6 { 282 } else { if x < 0xfcac { 283 } else { 284 } } } else { if x < 0xfcb8 { 285 } else { if x < 0xfcbe { 286 } else { 287 } } } } }
pub open spec fn U_kec_b_1(x: int) -> int { if x < 0x33c7 { if x < 0x32ef { if x < 0x325e { U_kec_b_1_0(x) } else { if x < 0x32a7 { U_kec_b_1_1(x) } else { U_kec_b_1_2(x) } } } else { if x < 0x3337 { U_kec_b_1_3(x) } else { if x < 0x337f { U_kec_b_1_4(x) } else { U_kec_b_1_5(x) } } } } else { if x < 0xfbec { if x < 0xfb02 { U_kec_b_1_6(x) } else { if x < 0xfb83 { U_kec_b_1_7(x) } else { U_kec_b_1_8(x) } } } else { if x < 0xfc34 { U_kec_b_1_9(x) } else { if x < 0xfc7c { U_kec_b_1_10(x) } else { U_kec_b_1_11(x) } } } } }
pub open spec fn U_kec_b_2_0(x: int) -> int { if x < 0xfce8 { if x < 0xfcd6 { if x < 0xfcca { 288 } else { if x < 0xfcd0 { 289 } else { 290 } } } else { if x < 0xfcdc { 291 } else { if x < 0xfce2 { 292 } else { 293 } } } } else { if x < 0xfcfa { if x < 0xfcee { 294 } else { if x < 0xfcf4 { 295 } else { 296 } } } else { if x < 0xfd00 { 297 } else { if x < 0xfd06 { 298 } else { 299 } } } } }
pub open spec fn U_kec_b_2_1(x: int) -> int { if x < 0xfd30 { if x < 0xfd1e { if x < 0xfd12 { 300 } else { if x < 0xfd18 { 301 } else { 302 } } } else { if x < 0xfd24 { 303 } else { if x < 0xfd2a { 304 } else { 305 } } } } else { if x < 0xfd54 { if x < 0xfd36 { 306 } else { if x < 0xfd3c { 307 } else { 308 } } } else { if x < 0xfd5a { 309 } else { if x < 0xfd60 { 310 } else { 311 } } } } }
pub open spec fn U_kec_b_2_2(x: int) -> int { if x < 0xfd8a { if x < 0xfd78 { if x < 0xfd6c { 312 } else { if x < 0xfd72 { 313 } else { 314 } } } else { if x < 0xfd7e { 315 } else { if x < 0xfd84 { 316 } else { 317 } } } } else { if x < 0xfd9e { if x < 0xfd92 { 318 } else { if x < 0xfd98 { 319 } else { 320 } } } else { if x < 0xfda4 { 321 } else { if x < 0xfdaa { 322 } else { 323 } } } } }
pub open spec fn U_kec_b_2_3(x: int) -> int { if x < 0xfdfc { if x < 0xfdc2 { if x < 0xfdb6 { 324 } else { if x < 0xfdbc { 325 } else { 326 } } } else { if x < 0xfdf0 { 327 } else { if x < 0xfdf6 { 328 } else { 329 } } } } else { if x < 0xfe37 { if x < 0xfe15 { 330 } else { if x < 0xfe31 { 331 } else { 332 } } } else { if x < 0xfe3d { 333 } else { if x < 0xfe43 { 334 } else { 335 } } } } }
pub open spec fn U_kec_b_2_4(x: int) -> int { if x < 0xfe77 { if x < 0xfe5e { if x < 0xfe51 { 336 } else { if x < 0xfe58 { 337 } else { 338 } } } else { if x < 0xfe64 { 339 } else { if x < 0xfe6b { 340 } else { 341 } } } } else { if x < 0xfe89 { if x < 0xfe7d { 342 } else { if x < 0xfe83 { 343 } else { 344 } } } else { if x < 0xfe8f { 345 } else { if x < 0xfe95 { 346 } else { 347 } } } } }
pub open spec fn U_kec_b_2_5(x: int) -> int { if x < 0xfebf { if x < 0xfead { if x < 0xfea1 { 348 } else { if x < 0xfea7 { 349 } else { 350 } } } else { if x < 0xfeb3 { 351 } else { if x < 0xfeb9 { 352 } else { 353 } } } } else { if x < 0xfed1 { if x < 0xfec5 { 354 } else { if x < 0xfecb { 355 } else { 356 } } } else { if x < 0xfed7 { 357 } else { if x < 0xfedd { 358 } else { 359 } } } } }
pub open spec fn U_kec_b_2_6(x: int) -> int { if x < 0xff0b { if x < 0xfef5 { if x < 0xfee9 { 360 } else { if x < 0xfeef { 361 } else { 362 } } } else { if x < 0xfefb { 363 } else { if x < 0xff05 { 364 } else { 365 } } } } else { if x < 0xff1d { if x < 0xff11 { 366 } else { if x < 0xff17 { 367 } else { 368 } } } else { if x < 0xff23 { 369 } else { if x < 0xff29 { 370 } else { 371 } } } } }
pub open spec fn U_kec_b_2_7(x: int) -> int { if x < 0xff53 { if x < 0xff41 { if x < 0xff35 { 372 } else { if x < 0xff3b { 373 } else { 374 } } } else { if x < 0xff47 { 375 } else { if x < 0xff4d { 376 } else { 377 } } } } else { if x < 0xff65 { if x < 0xff59 { 378 } else { if x < 0xff5f { 379 } else { 380 } } } else { if x < 0xff6b { 381 } else { if x < 0xff71 { 382 } else { 383 } } } } }
pub open spec fn U_kec_b_2_8(x: int) -> int { if x < 0xff9b { if x < 0xff89 { if x < 0xff7d { 384 } else { if x < 0xff83 { 385 } else { 386 } } } else { if x < 0xff8f { 387 } else { if x < 0xff95 { 388 } else { 389 } } } } else { if x < 0xffad { if x < 0xffa1 { 390 } else { if x < 0xffa7 { 391 } else { 392 } } } else { if x < 0xffb3 { 393 } else { if x < 0xffb9 { 394 } else { 395 } } } } }
pub open spec fn U_kec_b_2_9(x: int) -> int { if x < 0x10782 { if x < 0xffda { if x < 0xffca { 396 } else { if x < 0xffd2 { 397 } else { 398 } } } else { if x < 0xffe3 { 399 } else { if x < 0xffea { 400 } else { 401 } } } } else { if x < 0x10795 { if x < 0x10789 { 402 } else { if x < 0x1078f { 403 } else { 404 } } } else { if x < 0x1079b { 405 } else { if x < 0x107a1 { 406 } else { 407 } } } } }
pub open spec fn U_kec_b_2_10(x: int) -> int { if x < 0x1cce7 { if x < 0x107ba { if x < 0x107ad { 408 } else { if x < 0x107b4 { 409 } else { 410 } } } else { if x < 0x1ccdb { 411 } else { if x < 0x1cce1 { 412 } else { 413 } } } } else { if x < 0x1ccf9 { if x < 0x1cced { 414 } else { if x < 0x1ccf3 { 415 } else { 416 } } } else { if x < 0x1d405 { 417 } else { if x < 0x1d40b { 418 } else { 419 } } } } }
pub open spec fn U_kec_b_2_11(x: int) -> int { if x < 0x1d435 { if x < 0x1d423 { if x < 0x1d417 { 420 } else { if x < 0x1d41d { 421 } else { 422 } } } else { if x < 0x1d429 { 423 } else { if x < 0x1d42f { 424 } else { 425 } } } } else { if x < 0x1d447 { if x < 0x1d43b { 426 } else { if x < 0x1d441 { 427 } else { 428 } } } else { if x < 0x1d44d { 429 } else { if x < 0x1d453 { 430 } else { 431 } } } } }
pub open spec fn U_kec_b_2(x: int) -> int { if x < 0xfee3 { if x < 0xfdb0 { if x < 0xfd0c { U_kec_b_2_0(x) } else { if x < 0xfd66 { U_kec_b_2_1(x) } else { U_kec_b_2_2(x) } } } else { if x < 0xfe4b { U_kec_b_2_3(x) } else { if x < 0xfe9b { U_kec_b_2_4(x) } else { U_kec_b_2_5(x) } } } } else { if x < 0xffc2 { if x < 0xff2f { U_kec_b_2_6(x) } else { if x < 0xff77 { U_kec_b_2_7(x) } else { U_kec_b_2_8(x) } } } else { if x < 0x107a7 { U_kec_b_2_9(x) } else { if x < 0x1d411 { U_kec_b_2_10(x) } else { U_kec_b_2_11(x) } } } } }
pub open spec fn U_kec_b_3_0(x: int) -> int { if x < 0x1d47e { if x < 0x1d46c { if x < 0x1d460 { 432 } else { if x < 0x1d466 { 433 } else { 434 } } } else { if x < 0x1d472 { 435 } else { if x < 0x1d478 { 436 } else { 437 } } } } else { if x < 0x1d490 { if x < 0x1d484 { 438 } else { if x < 0x1d48a { 439 } else { 440 } } } else { if x < 0x1d496 { 441 } else { if x < 0x1d49c { 442 } else { 443 } } } } }
pub open spec fn U_kec_b_3_1(x: int) -> int { if x < 0x1d4d1 { if x < 0x1d4be { if x < 0x1d4b0 { 444 } else { if x < 0x1d4b6 { 445 } else { 446 } } } else { if x < 0x1d4c5 { 447 } else { if x < 0x1d4cb { 448 } else { 449 } } } } else { if x < 0x1d4e3 { if x < 0x1d4d7 { 450 } else { if x < 0x1d4dd { 451 } else { 452 } } } else { if x < 0x1d4e9 { 453 } else { if x < 0x1d4ef { 454 } else { 455 } } } } }
pub open spec fn U_kec_b_3_2(x: int) -> int { if x < 0x1d51e { if x < 0x1d508 { if x < 0x1d4fb { 456 } else { if x < 0x1d501 { 457 } else { 458 } } } else { if x < 0x1d510 { 459 } else { if x < 0x1d517 { 460 } else { 461 } } } } else { if x < 0x1d530 { if x < 0x1d524 { 462 } else { if x < 0x1d52a { 463 } else { 464 } } } else { if x < 0x1d536 { 465 } else { if x < 0x1d53d { 466 } else { 467 } } } } }
pub open spec fn U_kec_b_3_3(x: int) -> int { if x < 0x1d56d { if x < 0x1d55b { if x < 0x1d54e { 468 } else { if x < 0x1d555 { 469 } else { 470 } } } else { if x < 0x1d561 { 471 } else { if x < 0x1d567 { 472 } else { 473 } } } } else { if x < 0x1d57f { if x < 0x1d573 { 474 } else { if x < 0x1d579 { 475 } else { 476 } } } else { if x < 0x1d585 { 477 } else { if x < 0x1d58b { 478 } else { 479 } } } } }
pub open spec fn U_kec_b_3_4(x: int) -> int { if x < 0x1d5b5 { if x < 0x1d5a3 { if x < 0x1d597 { 480 } else { if x < 0x1d59d { 481 } else { 482 } } } else { if x < 0x1d5a9 { 483 } else { if x < 0x1d5af { 484 } else { 485 } } } } else { if x < 0x1d5c7 { if x < 0x1d5bb { 486 } else { if x < 0x1d5c1 { 487 } else { 488 } } } else { if x < 0x1d5cd { 489 } else { if x < 0x1d5d3 { 490 } else { 491 } } } } }
pub open spec fn U_kec_b_3_5(x: int) -> int { if x < 0x1d5fd { if x < 0x1d5eb { if x < 0x1d5df { 492 } else { if x < 0x1d5e5 { 493 } else { 494 } } } else { if x < 0x1d5f1 { 495 } else { if x < 0x1d5f7 { 496 } else { 497 } } } } else { if x < 0x1d60f { if x < 0x1d603 { 498 } else { if x < 0x1d609 { 499 } else { 500 } } } else { if x < 0x1d615 { 501 } else { if x < 0x1d61b { 502 } else { 503 } } } } }
pub open spec fn U_kec_b_3_6(x: int) -> int { if x < 0x1d645 { if x < 0x1d633 { if x < 0x1d627 { 504 } else { if x < 0x1d62d { 505 } else { 506 } } } else { if x < 0x1d639 { 507 } else { if x < 0x1d63f { 508 } else { 509 } } } } else { if x < 0x1d657 { if x < 0x1d64b { 510 } else { if x < 0x1d651 { 511 } else { 512 } } } else { if x < 0x1d65d { 513 } else { if x < 0x1d663 { 514 } else { 515 } } } } }
pub open spec fn U_kec_b_3_7(x: int) -> int { if x < 0x1d68d { if x < 0x1d67b { if x < 0x1d66f { 516 } else { if x < 0x1d675 { 517 } else { 518 } } } else { if x < 0x1d681 { 519 } else { if x < 0x1d687 { 520 } else { 521 } } } } else { if x < 0x1d69f { if x < 0x1d693 { 522 } else { if x < 0x1d699 { 523 } else { 524 } } } else { if x < 0x1d6a5 { 525 } else { if x < 0x1d6ad { 526 } else { 527 } } } } }
pub open spec fn U_kec_b_3_8(x: int) -> int { if x < 0x1d6d7 { if x < 0x1d6c5 { if x < 0x1d6b9 { 528 } else { if x < 0x1d6bf { 529 } else { 530 } } } else { if x < 0x1d6cb { 531 } else { if x < 0x1d6d1 { 532 } else { 533 } } } } else { if x < 0x1d6e9 { if x < 0x1d6dd { 534 } else { if x < 0x1d6e3 { 535 } else { 536 } } } else { if x < 0x1d6ef { 537 } else { if x < 0x1d6f5 { 538 } else { 539 } } } } }
pub open spec fn U_kec_b_3_9(x: int) -> int { if x < 0x1d71f { if x < 0x1d70d { if x < 0x1d701 { 540 } else { if x < 0x1d707 { 541 } else { 542 } } } else { if x < 0x1d713 { 543 } else { if x < 0x1d719 { 544 } else { 545 } } } } else { if x < 0x1d731 { if x < 0x1d725 { 546 } else { if x < 0x1d72b { 547 } else { 548 } } } else { if x < 0x1d737 { 549 } else { if x < 0x1d73d { 550 } else { 551 } } } } }
pub open spec fn U_kec_b_3_10(x: int) -> int { if x < 0x1d767 { if x < 0x1d755 { if x < 0x1d749 { 552 } else { if x < 0x1d74f { 553 } else { 554 } } } else { if x < 0x1d75b { 555 } else { if x < 0x1d761 { 556 } else { 557 } } } } else { if x < 0x1d779 { if x < 0x1d76d { 558 } else { if x < 0x1d773 { 559 } else { 560 } } } else { if x < 0x1d77f { 561 } else { if x < 0x1d785 { 562 } else { 563 } } } } }
pub open spec fn U_kec_b_3_11(x: int) -> int { if x < 0x1d7af { if x < 0x1d79d { if x < 0x1d791 { 564 } else { if x < 0x1d797 { 565 } else { 566 } } } else { if x < 0x1d7a3 { 567 } else { if x < 0x1d7a9 { 568 } else { 569 } } } } else { if x < 0x1d7c1 { if x < 0x1d7b5 { 570 } else { if x < 0x1d7bb { 571 } else { 572 } } } else { if x < 0x1d7c7 { 573 } else { if x < 0x1d7cf { 574 } else { 575 } } } } }
pub open spec fn U_kec_b_3(x: int) -> int { if x < 0x1d621 { if x < 0x1d544 { if x < 0x1d4a9 { U_kec_b_3_0(x) } else { if x < 0x1d4f5 { U_kec_b_3_1(x) } else { U_kec_b_3_2(x) } } } else { if x < 0x1d591 { U_kec_b_3_3(x) } else { if x < 0x1d5d9 { U_kec_b_3_4(x) } else { U_kec_b_3_5(x) } } } } else { if x < 0x1d6fb { if x < 0x1d669 { U_kec_b_3_6(x) } else { if x < 0x1d6b3 { U_kec_b_3_7(x) } else { U_kec_b_3_8(x) } } } else { if x < 0x1d743 { U_kec_b_3_9(x) } else { if x < 0x1d78b { U_kec_b_3_10(x) } else { U_kec_b_3_11(x) } } } } }
pub open spec fn U_kec_b_4_0(x: int) -> int { if x < 0x1d7f9 { if x < 0x1d7e7 { if x < 0x1d7db { 576 } else { if x < 0x1d7e1 { 577 } else { 578 } } } else { if x < 0x1d7ed { 579 } else { if x < 0x1d7f3 { 580 } else { 581 } } } } else { if x < 0x1e03b { if x < 0x1d7ff { 582 } else { if x < 0x1e035 { 583 } else { 584 } } } else { if x < 0x1e041 { 585 } else { if x < 0x1e047 { 586 } else { 587 } } } } }
pub open spec fn U_kec_b_4_1(x: int) -> int { if x < 0x1ee03 { if x < 0x1e05f { if x < 0x1e053 { 588 } else { if x < 0x1e059 { 589 } else { 590 } } } else { if x < 0x1e065 { 591 } else { if x < 0x1e06b { 592 } else { 593 } } } } else { if x < 0x1ee16 { if x < 0x1ee0a { 594 } else { if x < 0x1ee10 { 595 } else { 596 } } } else { if x < 0x1ee1c { 597 } else { if x < 0x1ee24 { 598 } else { 599 } } } } }
pub open spec fn U_kec_b_4_2(x: int) -> int { if x < 0x1ee6e { if x < 0x1ee4f { if x < 0x1ee34 { 600 } else { if x < 0x1ee42 { 601 } else { 602 } } } else { if x < 0x1ee5b { 603 } else { if x < 0x1ee67 { 604 } else { 605 } } } } else { if x < 0x1ee84 { if x < 0x1ee75 { 606 } else { if x < 0x1ee7c { 607 } else { 608 } } } else { if x < 0x1ee8b { 609 } else { if x < 0x1ee91 { 610 } else { 611 } } } } }
pub open spec fn U_kec_b_4_3(x: int) -> int { if x < 0x1f106 { if x < 0x1eeb0 { if x < 0x1eea2 { 612 } else { if x < 0x1eea9 { 613 } else { 614 } } } else { if x < 0x1eeb6 { 615 } else { if x < 0x1f100 { 616 } else { 617 } } } } else { if x < 0x1f11d { if x < 0x1f111 { 618 } else { if x < 0x1f117 { 619 } else { 620 } } } else { if x < 0x1f123 { 621 } else { if x < 0x1f129 { 622 } else { 623 } } } } }
pub open spec fn U_kec_b_4_4(x: int) -> int { if x < 0x1f200 { if x < 0x1f142 { if x < 0x1f136 { 624 } else { if x < 0x1f13c { 625 } else { 626 } } } else { if x < 0x1f148 { 627 } else { if x < 0x1f14e { 628 } else { 629 } } } } else { if x < 0x1f21f { if x < 0x1f213 { 630 } else { if x < 0x1f219 { 631 } else { 632 } } } else { if x < 0x1f225 { 633 } else { if x < 0x1f22b { 634 } else { 635 } } } } }
pub open spec fn U_kec_b_4_5(x: int) -> int { if x < 0x1f247 { if x < 0x1f237 { 636 } else { if x < 0x1f241 { 637 } else { 638 } } } else { if x < 0x1fbf2 { 639 } else { if x < 0x1fbf8 { 640 } else { 641 } } } }
pub open spec fn U_kec_b_4(x: int) -> int { if x < 0x1ee97 { if x < 0x1e04d { U_kec_b_4_0(x) } else { if x < 0x1ee2d { U_kec_b_4_1(x) } else { U_kec_b_4_2(x) } } } else { if x < 0x1f130 { U_kec_b_4_3(x) } else { if x < 0x1f231 { U_kec_b_4_4(x) } else { U_kec_b_4_5(x) } } } }
pub open spec fn U_kec_b(x: int) -> int { if x < 0xfcc4 { if x < 0x320d { U_kec_b_0(x) } else { U_kec_b_1(x) } } else { if x < 0x1d45a { U_kec_b_2(x) } else { if x < 0x1d7d5 { U_kec_b_3(x) } else { U_kec_b_4(x) } } } }
pub open spec fn U_kec_n() -> int { 3848 }
pub open spec fn U_kec_find(x: int) -> int { let b = U_kec_b(x); let j = b * 6 + within21(U_kec_k_p(b), x); if 0 <= j < 3848 && U_kec_k(j) <= x <= U_kec_k(j) { j } else { -1 } }
pub open spec fn U_kec_v_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x360421b0010d7e106be8435ec41af41 } else { if i < 2 { 0x362461b1010d87086c288361021b042 } else { 0x366041b2c20d94106c908363c61b183 } } } else { if i < 4 { 0x369841b4630da0186ce8c367021b342 } else { if i < 5 { 0x36c841b6020dae106d60836a841b502 } else { 0x36ec21b7410db9086dc0436d841b682 } } } } else { if i < 9 { if i < 7 { 0x370441b8010dbf086df0436f421b781 } else { if i < 8 { 0x373421b9620dc9106e388371441b862 } else { 0x375041ba420dd1086e804373c21b9c1 } } } else { if i < 10 { 0x377841bb820ddb086ed04376421bac3 } else { if i < 11 { 0x379421bc810de3086f104378421bc01 } else { 0x37b841bd820dea106f408379c21bcc1 } } } } }
pub open spec fn U_kec_v_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x37e821bf020df6106fa0837c841be02 } else { if i < 14 { 0x381021c0610e02087008437f861bf63 } else { 0x382821c1210e080870384381821c0a1 } } } else { if i < 16 { 0x384021c1e10e0e0870684383021c161 } else { if i < 17 { 0x385821c2a10e140870984384821c221 } else { 0x387021c3610e1a0870c84386021c2e1 } } } } else { if i < 21 { if i < 19 { 0x388821c4210e200870f84387821c3a1 } else { if i < 20 { 0x38a021c4e10e260871284389021c461 } else { 0x38b821c5a10e2c087158438a821c521 } } } else { if i < 22 { 0x38d021c6610e32087188438c021c5e1 } else { if i < 23 { 0x38e821c7210e380871b8438d821c6a1 } else { 0x390021c7e10e3e0871e8438f021c761 } } } } }
pub open spec fn U_kec_v_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x391821c8a10e440872184390821c821 } else { if i < 26 { 0x393021c9610e4a0872484392021c8e1 } else { 0x394821ca210e500872784393821c9a1 } } } else { if i < 28 { 0x396021cae10e560872a84395021ca61 } else { if i < 29 { 0x397821cba10e5c0872d84396821cb21 } else { 0x399041cc610e620873084398021cbe1 } } } } else { if i < 33 { if i < 31 { 0x39c461cdc30e6c107350839a041ccc2 } else { if i < 32 { 0x3a0c61d0030e7d1873d0c39dc61ce83 } else { 0x3a3c21d1c10e8d08745883a2441d0c3 } } } else { if i < 34 { 0x3a5421d2810e9308749043a4421d201 } else { if i < 35 { 0x3a7041d3610e991074c043a5c21d2c1 } else { 0x3aa461d4e20ea418751083a8421d3c3 } } } } }
pub open spec fn U_kec_v_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x3ad881d6820eb210758083ab841d582 } else { if i < 38 { 0x3afc21d7c10ebd0875e043aec21d741 } else { 0x3b1421d8810ec308761043b0421d801 } } } else { if i < 40 { 0x3b2c21d9410ec908764043b1c21d8c1 } else { if i < 41 { 0x3b4421da010ecf08767043b3421d981 } else { 0x3b5c21dac10ed50876a043b4c21da41 } } } } else { if i < 45 { if i < 43 { 0x3b7421db810edb0876d043b6421db01 } else { if i < 44 { 0x3b8c21dc410ee108770043b7c21dbc1 } else { 0x3bb841dda10eea187738c3b9441dc81 } } } else { if i < 46 { 0x3be821df210ef71077b043bcc61de03 } else { if i < 47 { 0x3c0021dfe10efe0877e843bf021df61 } else { 0x3c1c21e0c10f0410781843c0821e021 } } } } }
pub open spec fn U_kec_v_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x3c4041e1a30f0b10785043c2421e101 } else { if i < 50 { 0x3c5c21e2c10f150878a043c4c21e241 } else { 0x3c7421e3810f1b0878d043c6421e301 } } } else { if i < 52 { 0x3c9421e4810f23087900c3c7c21e3c1 } else { if i < 53 { 0x3cac21e5410f2908794043c9c21e4c1 } else { 0x3ce861e6e30f33207980c3cb461e581 } } } } else { if i < 57 { if i < 55 { 0x3d3061e9230f46187a18c3d0061e7a3 } else { if i < 56 { 0x3d7421eb620f58187aa8c3d4861e9e3 } else { 0x3da061ecc20f65087b1883d8061ebc2 } } } else { if i < 58 { 0x3ddc21ee830f72107b8843dbc41ed64 } else { if i < 59 { 0x3df861ef820f7b087bd043de421ef01 } else { 0x3e3441f1240f86187c2083e0c21f022 } } } } }
pub open spec fn U_kec_v_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x3e5c21f2c10f95087c90c3e4041f1e1 } else { if i < 62 { 0x3e8c61f4220f9e187ce083e6461f301 } else { 0x3eac21f5410fa9087d4043e9c21f4c1 } } } else { if i < 64 { 0x3ecc41f6220faf107d7043eb421f581 } else { if i < 65 { 0x3efc41f7a20fbb107dc883edc41f6a2 } else { 0x3f3861f9630fc8187e28c3f0c41f822 } } } } else { if i < 69 { if i < 67 { 0x3f8081fba30fda187eb8c3f5061fa23 } else { if i < 68 { 0x3fe081fe840ff0207f6103fa081fc84 } else { 0x403842018210082080210400081ff84 } } } else { if i < 70 { 0x406842030210161080a084048420202 } else { if i < 71 { 0x40a86204e31024188108c4078620382 } else { 0x40f06207231036188198c40c06205a3 } } } } }
pub open spec fn U_kec_v_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x41386209631048188228c41086207e3 } else { if i < 74 { 0x4180620ba3105a1882b8c4150620a23 } else { 0x41c8620de3106c188348c4198620c63 } } } else { if i < 76 { 0x4210621023107e1883d8c41e0620ea3 } else { if i < 77 { 0x42402211e1108e088468442286210e3 } else { 0x42582212a1109408849844248221221 } } } } else { if i < 81 { if i < 79 { 0x4270221361109a0884c8442602212e1 } else { if i < 80 { 0x428822142110a00884f8442782213a1 } else { 0x42a02214e110a608852844290221461 } } } else { if i < 82 { 0x42b82215a110ac088558442a8221521 } else { if i < 83 { 0x42d022166110b2088588442c02215e1 } else { 0x42e822172110b80885b8442d82216a1 } } } } }
pub open spec fn U_kec_v_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x43002217e110be0885e8442f0221761 } else { if i < 86 { 0x433822196310c9108630c4308821821 } else { 0x4350221a6110d2088688443402219e1 } } } else { if i < 88 { 0x4368221b2110d80886b844358221aa1 } else { if i < 89 { 0x4380221be110de0886e844370221b61 } else { 0x4398221ca110e408871844388221c21 } } } } else { if i < 93 { if i < 91 { 0x43b0221d6110ea088748443a0221ce1 } else { if i < 92 { 0x43c8221e2110f0088778443b8221da1 } else { 0x43e0221ee110f60887a8443d0221e61 } } } else { if i < 94 { 0x43f8221fa110fc0887d8443e8221f21 } else { if i < 95 { 0x4410222061110208880844400221fe1 } else { 0x44282221211108088838444182220a1 } } } } }
pub open spec fn U_kec_v_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x44402221e1110e08886844430222161 } else { if i < 98 { 0x44582222a1111408889844448222221 } else { 0x4470222361111a0888c8444602222e1 } } } else { if i < 100 { 0x448822242111200888f8444782223a1 } else { if i < 101 { 0x44a02224e1112608892844490222461 } else { 0x44b82225a1112c088958444a8222521 } } } } else { if i < 105 { if i < 103 { 0x44d02226611132088988444c02225e1 } else { if i < 104 { 0x44e822272111380889b8444d82226a1 } else { 0x45002227e1113e0889e8444f0222761 } } } else { if i < 106 { 0x45182228a11144088a1844508222821 } else { if i < 107 { 0x4530222961114a088a48445202228e1 } else { 0x4548222a211150088a78445382229a1 } } } } }
pub open spec fn U_kec_v_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x4560222ae11156088aa844550222a61 } else { if i < 110 { 0x4578222ba1115c088ad844568222b21 } else { 0x4590222c611162088b0844580222be1 } } } else { if i < 112 { 0x45a8222d211168088b3844598222ca1 } else { if i < 113 { 0x45c0222de1116e088b68445b0222d61 } else { 0x45d8222ea11174088b98445c8222e21 } } } } else { if i < 117 { if i < 115 { 0x45f0222f61117a088bc8445e0222ee1 } else { if i < 116 { 0x46082230211180088bf8445f8222fa1 } else { 0x46202230e11186088c2844610223061 } } } else { if i < 118 { 0x46382231a1118c088c5844628223121 } else { if i < 119 { 0x46502232611192088c88446402231e1 } else { 0x46682233211198088cb8446582232a1 } } } } }
pub open spec fn U_kec_v_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x46802233e1119e088ce844670223361 } else { if i < 122 { 0x46982234a111a4088d1844688223421 } else { 0x46b022356111aa088d48446a02234e1 } } } else { if i < 124 { 0x46d822368211b2108d80846b84235a1 } else { if i < 125 { 0x46f022376111ba088dc8446e02236e1 } else { 0x470822382111c0088df8446f82237a1 } } } } else { if i < 129 { if i < 127 { 0x47202238e111c6088e2844710223861 } else { if i < 128 { 0x47382239a111cc088e5844728223921 } else { 0x4750223a6111d2088e88447402239e1 } } } else { if i < 130 { 0x4768223b2111d8088eb844758223aa1 } else { if i < 131 { 0x4780223be111de088ee844770223b61 } else { 0x4798223ca111e4088f1844788223c21 } } } } }
pub open spec fn U_kec_v_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x47b0223d6111ea088f48447a0223ce1 } else { if i < 134 { 0x47c8223e2111f0088f78447b8223da1 } else { 0x47e0223ee111f6088fa8447d0223e61 } } } else { if i < 136 { 0x47f8223fa111fc088fd8447e8223f21 } else { if i < 137 { 0x4810224061120208900844800223fe1 } else { 0x48282241211208089038448182240a1 } } } } else { if i < 141 { if i < 139 { 0x48402241e1120e08906844830224161 } else { if i < 140 { 0x48582242a1121408909844848224221 } else { 0x4870224361121a0890c8448602242e1 } } } else { if i < 142 { 0x488862442112200890f8448782243a1 } else { if i < 143 { 0x48d0624623122e189158c48a06244a3 } else { 0x491862486312401891e8c48e86246e3 } } } } }
pub open spec fn U_kec_v_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_kec_v_p_0_0(i) } else { if i < 24 { U_kec_v_p_0_1(i) } else { U_kec_v_p_0_2(i) } } } else { if i < 48 { U_kec_v_p_0_3(i) } else { if i < 60 { U_kec_v_p_0_4(i) } else { U_kec_v_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_kec_v_p_0_6(i) } else { if i < 96 { U_kec_v_p_0_7(i) } else { U_kec_v_p_0_8(i) } } } else { if i < 120 { U_kec_v_p_0_9(i) } else { if i < 132 { U_kec_v_p_0_10(i) } else { U_kec_v_p_0_11(i) } } } } }
pub open spec fn U_kec_v_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x4970824b04125420928104930824923 } else { if i < 146 { 0x49d0824e04126c20934104990824c04 } else { 0x4a3cc251071284209401049f0824f04 } } } else { if i < 148 { 0x4a90625423129e1894d8c4a606252a3 } else { if i < 149 { 0x4ad862566312b0189568c4aa86254e3 } else { 0x4b206258a312c21895f8c4af0625723 } } } } else { if i < 153 { if i < 151 { 0x4b68625ae312d4189688c4b38625963 } else { if i < 152 { 0x4bb0625d2312e6189718c4b80625ba3 } else { 0x4bf8625f6312f81897a8c4bc8625de3 } } } else { if i < 154 { 0x4c204260a3130408981844c08226021 } else { if i < 155 { 0x4c50426242131010987084c30426142 } else { 0x4c804263c2131c1098d084c604262c2 } } } } }
pub open spec fn U_kec_v_p_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x4ca4226501132708993044c90426442 } else { if i < 158 { 0x4cbc2265c1132d08996044cac226541 } else { 0x4cd8426682133308999044cc4226601 } } } else { if i < 160 { 0x4d08426802133e1099e084ce8426702 } else { if i < 161 { 0x4d38426982134a109a4084d18426882 } else { 0x4d74226b81135b089ac884d54826a05 } } } } else { if i < 165 { if i < 163 { 0x4d8c226c411361089b0044d7c226bc1 } else { if i < 164 { 0x4da4226d011367089b3044d94226c81 } else { 0x4dbc226dc1136d089b6044dac226d41 } } } else { if i < 166 { 0x4dd4226e811373089b9044dc4226e01 } else { if i < 167 { 0x4dec226f411379089bc044ddc226ec1 } else { 0x4e04227001137f089bf044df4226f81 } } } } }
pub open spec fn U_kec_v_p_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x4e1c2270c11385089c2044e0c227041 } else { if i < 170 { 0x4e38427182138b089c5044e24227101 } else { 0x4e684273021396109ca084e48427202 } } } else { if i < 172 { 0x4e9842748213a2109d0084e78427382 } else { if i < 173 { 0x4ec842760213ae109d6084ea8427502 } else { 0x4efc62778313ba109dc084ed8427682 } } } } else { if i < 177 { if i < 175 { 0x4f3c22798313ca109e38c4f14427843 } else { if i < 176 { 0x4f54227a8113d3089e9044f44227a01 } else { 0x4f6c227b4113d9089ec044f5c227ac1 } } } else { if i < 178 { 0x4f84227c0113df089ef044f74227b81 } else { if i < 179 { 0x4f9c227cc113e5089f2044f8c227c41 } else { 0x4fb4227d8113eb089f5044fa4227d01 } } } } }
pub open spec fn U_kec_v_p_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x4fcc227e4113f1089f8044fbc227dc1 } else { if i < 182 { 0x4fe4227f0113f7089fb044fd4227e81 } else { 0x5000a27fc213fd089fe044fec227f41 } } } else { if i < 184 { 0x50646282c3141128a070c5024a280a4 } else { if i < 185 { 0x50bc828583142918a130c5088828386 } else { 0x511c828864143f20a1d9050dc828664 } } } } else { if i < 189 { if i < 187 { 0x5190828be5145930a29985144428966 } else { if i < 188 { 0x51f8828f63147818a3a1051b8c28d06 } else { 0x5258829263149018a45945218a29044 } } } else { if i < 190 { 0x529c62948314a210a50085274629343 } else { if i < 191 { 0x530c6297e414b930a5a1452c0829546 } else { 0x5370a29b2314d330a67905324c298c3 } } } } }
pub open spec fn U_kec_v_p_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x53d0829de514eb20a740c5390829c23 } else { if i < 194 { 0x542c62a103150328a808853f4829f05 } else { 0x548082a365151818a8a8c544862a1c4 } } } else { if i < 196 { 0x54e082a684152f28a960c5498c2a482 } else { if i < 197 { 0x5530a2a904154610aa11054fc62a783 } else { 0x558042abc2155c10aac8c554cc2aa22 } } } } else { if i < 201 { if i < 199 { 0x55b042ad42156810ab308559042ac42 } else { if i < 200 { 0x55f062af23157618ab98c55c062adc2 } else { 0x563862b163158818ac28c560862afe3 } } } else { if i < 202 { 0x568042b3a3159a18acb8c565062b223 } else { if i < 203 { 0x56b462b56215a910ad388569062b442 } else { 0x56ec42b72215b710ada8856cc42b603 } } } } }
pub open spec fn U_kec_v_p_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x572442b8e215c510ae188570442b7a4 } else { if i < 206 { 0x576042ba8415d118ae788573442b962 } else { 0x579042bc4215e010aef08577042bb42 } } } else { if i < 208 { 0x57d042be4215ef18af60c57a462bcc3 } else { if i < 209 { 0x580042bfc215fc10afd0857e042bec2 } else { 0x583862c182160918b030c581042c042 } } } } else { if i < 213 { if i < 211 { 0x587c82c383161918b0b88585062c223 } else { if i < 212 { 0x58c4a2c5c3162b18b140c589462c462 } else { 0x591042c842164010b1f0858f042c6c6 } } } else { if i < 214 { 0x594042c9c2164c10b2508592042c8c2 } else { if i < 215 { 0x597042cb42165810b2b08595042ca42 } else { 0x59a882cd02166610b3208598082cbc2 } } } } }
pub open spec fn U_kec_v_p_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0x59e442cee2167510b398859c442cdc3 } else { if i < 218 { 0x5a1462d062168110b3f8859f442cf62 } else { 0x5a5082d242168f18b460c5a2842d102 } } } else { if i < 220 { 0x5a8c62d422169f10b4e885a6c42d303 } else { if i < 221 { 0x5ac442d5e216ad10b55885aa442d4c3 } else { 0x5af862d76316b910b5b885ad442d662 } } } } else { if i < 225 { if i < 223 { 0x5b4062d9a316ca18b638c5b1062d823 } else { if i < 224 { 0x5b8862dbe316dc18b6c8c5b5862da63 } else { 0x5bd062de2316ee18b758c5ba062dca3 } } } else { if i < 226 { 0x5c0822e021170008b7e8c5be862dee3 } else { if i < 227 { 0x5c2022e0e1170608b82845c1022e061 } else { 0x5c3c42e1a2170c08b85845c2822e121 } } } } }
pub open spec fn U_kec_v_p_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x5c7442e362171910b8b0c5c4c62e222 } else { if i < 230 { 0x5ca022e4e1172510b91885c8442e3e2 } else { 0x5cb822e5a1172c08b95845ca822e521 } } } else { if i < 232 { 0x5cd422e681173308b98885cc022e5e1 } else { if i < 233 { 0x5cec22e741173908b9c045cdc22e6c1 } else { 0x5d0422e801173f08b9f045cf422e781 } } } } else { if i < 237 { if i < 235 { 0x5d1c22e8c1174508ba2045d0c22e841 } else { if i < 236 { 0x5d3422e981174b08ba5045d2422e901 } else { 0x5d4c22ea41175108ba8045d3c22e9c1 } } } else { if i < 238 { 0x5d6422eb01175708bab045d5422ea81 } else { if i < 239 { 0x5d7c22ebc1175d08bae045d6c22eb41 } else { 0x5d9422ec81176308bb1045d8422ec01 } } } } }
pub open spec fn U_kec_v_p_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x5dac22ed41176908bb4045d9c22ecc1 } else { if i < 242 { 0x5dc422ee01176f08bb7045db422ed81 } else { 0x5ddc22eec1177508bba045dcc22ee41 } } } else { if i < 244 { 0x5df422ef81177b08bbd045de422ef01 } else { if i < 245 { 0x5e0c22f041178108bc0045dfc22efc1 } else { 0x5e2c22f122178710bc3045e1422f081 } } } } else { if i < 249 { if i < 247 { 0x5e4422f201178f08bc7045e3422f181 } else { if i < 248 { 0x5e6422f2e2179510bca045e4c22f241 } else { 0x5e7c22f3c1179d08bce045e6c22f341 } } } else { if i < 250 { 0x5e9822f4a117a310bd1045e8422f401 } else { if i < 251 { 0x5eb022f56117aa08bd4845ea022f4e1 } else { 0x5ed062f62317b008bd7845eb822f5a1 } } } } }
pub open spec fn U_kec_v_p_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x5f1862f86317c018bde8c5ee862f6e3 } else { if i < 254 { 0x5f6062faa317d218be78c5f3062f923 } else { 0x5fa022fce117e418bf08c5f7862fb63 } } } else { if i < 256 { 0x5fd062fe2317ee18bf58c5fa822fd21 } else { if i < 257 { 0x600843000217fe10bfe085fe842fee3 } else { 0x6038430182180a10c04086018430082 } } } } else { if i < 261 { if i < 259 { 0x6068430302181610c0a086048430202 } else { if i < 260 { 0x6098430482182210c10086078430382 } else { 0x60c8430602182e10c160860a8430502 } } } else { if i < 262 { 0x60f8430782183a10c1c0860d8430682 } else { if i < 263 { 0x6128430902184610c22086108430802 } else { 0x6158430a82185210c28086138430982 } } } } }
pub open spec fn U_kec_v_p_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x6188430c02185e10c2e086168430b02 } else { if i < 266 { 0x61b8430d82186a10c34086198430c82 } else { 0x61e8430f02187610c3a0861c8430e02 } } } else { if i < 268 { 0x6218431082188210c400861f8430f82 } else { if i < 269 { 0x6248431202188e10c46086228431102 } else { 0x6278431382189a10c4c086258431282 } } } } else { if i < 273 { if i < 271 { 0x62a843150218a610c52086288431402 } else { if i < 272 { 0x62ec63170318b518c590c62bc631583 } else { 0x633463194318c718c620c63046317c3 } } } else { if i < 274 { 0x6368431b0218d610c6a086348431a02 } else { if i < 275 { 0x6398431c8218e210c70086378431b82 } else { 0x63c8431e0218ee10c760863a8431d02 } } } } }
pub open spec fn U_kec_v_p_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x63f8431f8218fa10c7c0863d8431e82 } else { if i < 278 { 0x6428432102190610c82086408432002 } else { 0x6458432282191210c88086438432182 } } } else { if i < 280 { 0x6488432402191e10c8e086468432302 } else { if i < 281 { 0x64c06325a3192a18c94086498432482 } else { 0x64fc4327a2193b10c9c8864d8632663 } } } } else { if i < 285 { if i < 283 { 0x652c432922194710ca288650c432822 } else { if i < 284 { 0x655c432aa2195310ca888653c4329a2 } else { 0x658c432c22195f10cae88656c432b22 } } } else { if i < 286 { 0x65bc432da2196b10cb488659c432ca2 } else { if i < 287 { 0x65ec432f22197710cba8865cc432e22 } else { 0x661c4330a2198310cc08865fc432fa2 } } } } }
pub open spec fn U_kec_v_p_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_kec_v_p_1_0(i) } else { if i < 168 { U_kec_v_p_1_1(i) } else { U_kec_v_p_1_2(i) } } } else { if i < 192 { U_kec_v_p_1_3(i) } else { if i < 204 { U_kec_v_p_1_4(i) } else { U_kec_v_p_1_5(i) } } } } else { if i < 252 { if i < 228 { U_kec_v_p_1_6(i) } else { if i < 240 { U_kec_v_p_1_7(i) } else { U_kec_v_p_1_8(i) } } } else { if i < 264 { U_kec_v_p_1_9(i) } else { if i < 276 { U_kec_v_p_1_10(i) } else { U_kec_v_p_1_11(i) } } } } }
pub open spec fn U_kec_v_p_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x664c433222198f10cc688662c433122 } else { if i < 290 { 0x667c4333a2199b10ccc88665c4332a2 } else { 0x66ac43352219a710cd288668c433422 } } } else { if i < 292 { 0x66dc4336a219b310cd88866bc4335a2 } else { if i < 293 { 0x671443384319bf18cde8866ec433722 } else { 0x67444339e219cd10ce58867244338e2 } } } } else { if i < 297 { if i < 295 { 0x6774433b6219d910ceb886754433a62 } else { if i < 296 { 0x67a8633ce319e510cf1886784433be2 } else { 0x67e0433ec219f410cf90867c0433da3 } } } else { if i < 298 { 0x68104340421a0010cff0867f0433f42 } else { if i < 299 { 0x68404341c21a0c10d050868204340c2 } else { 0x68704343421a1810d0b086850434242 } } } } }
pub open spec fn U_kec_v_p_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x68a04344c21a2410d110868804343c2 } else { if i < 302 { 0x68d04346421a3010d170868b0434542 } else { 0x69004347c21a3c10d1d0868e04346c2 } } } else { if i < 304 { 0x69304349421a4810d23086910434842 } else { if i < 305 { 0x6960434ac21a5410d290869404349c2 } else { 0x6990434c421a6010d2f086970434b42 } } } } else { if i < 309 { if i < 307 { 0x69c0434dc21a6c10d350869a0434cc2 } else { if i < 308 { 0x69f0434f421a7810d3b0869d0434e42 } else { 0x6a2c6351031a8518d410c6a00434fc2 } } } else { if i < 310 { 0x6a746353431a9718d4a0c6a446351c3 } else { if i < 311 { 0x6abc6355831aa918d530c6a8c635403 } else { 0x6b046357c31abb18d5c0c6ad4635643 } } } } }
pub open spec fn U_kec_v_p_2_2(i: int) -> int { if i < 318 { if i < 315 { if i < 313 { 0x6b4c635a031acd18d650c6b1c635883 } else { if i < 314 { 0x6b94635c431adf18d6e0c6b64635ac3 } else { 0x6bdc635e831af118d770c6bac635d03 } } } else { if i < 316 { 0x6c246360c31b0318d800c6bf4635f43 } else { if i < 317 { 0x6c6c6363031b1518d890c6c3c636183 } else { 0x6cb46365431b2718d920c6c846363c3 } } } } else { if i < 321 { if i < 319 { 0x6cfc6367831b3918d9b0c6ccc636603 } else { if i < 320 { 0x6d446369c31b4b18da40c6d14636843 } else { 0x6d8c636c031b5d18dad0c6d5c636a83 } } } else { if i < 322 { 0x6dd4636e431b6f18db60c6da4636cc3 } else { if i < 323 { 0x6e1c6370831b8118dbf0c6dec636f03 } else { 0x6e646372c31b9318dc80c6e34637143 } } } } }
pub open spec fn U_kec_v_p_2_3(i: int) -> int { if i < 330 { if i < 327 { if i < 325 { 0x6eac6375031ba518dd10c6e7c637383 } else { if i < 326 { 0x6ef46377431bb718dda0c6ec46375c3 } else { 0x6f3c6379831bc918de30c6f0c637803 } } } else { if i < 328 { 0x6f84637bc31bdb18dec0c6f54637a43 } else { if i < 329 { 0x6fd8837e441bee20df5106f9c637c83 } else { 0x706d0381321c0618e01106ff8837f44 } } } } else { if i < 333 { if i < 331 { 0x70ac2385411c2908e1404709c238464 } else { if i < 332 { 0x70cc4386031c2f08e170470b4238581 } else { 0x70e82387211c3808e1b8470d82386a1 } } } else { if i < 334 { 0x71002387e11c3e08e1e8470f0238761 } else { if i < 335 { 0x71182388a11c4408e21847108238821 } else { 0x71344389621c4a08e248471202388e1 } } } } }
pub open spec fn U_kec_v_p_2_4(i: int) -> int { if i < 342 { if i < 339 { if i < 337 { 0x7158238aa11c5408e298471444389e2 } else { if i < 338 { 0x7170238b611c5a08e2c847160238ae1 } else { 0x7188238c211c6008e2f847178238ba1 } } } else { if i < 340 { 0x71a0238ce11c6608e32847190238c61 } else { if i < 341 { 0x71b8238da11c6c08e358471a8238d21 } else { 0x71e0438ec21c7410e390871c0438de1 } } } } else { if i < 345 { if i < 343 { 0x72104390421c8010e3f0871f0438f42 } else { if i < 344 { 0x723c4391a21c8c08e450872204390c2 } else { 0x726c4393221c9710e4a88724c439222 } } } else { if i < 346 { 0x72982394a11ca310e5088727c4393a2 } else { if i < 347 { 0x72b02395611caa08e548472a02394e1 } else { 0x72c82396211cb008e578472b82395a1 } } } } }
pub open spec fn U_kec_v_p_2_5(i: int) -> int { if i < 354 { if i < 351 { if i < 349 { 0x72e02396e11cb608e5a8472d0239661 } else { if i < 350 { 0x72f82397a11cbc08e5d8472e8239721 } else { 0x73102398611cc208e608473002397e1 } } } else { if i < 352 { 0x73282399211cc808e638473182398a1 } else { if i < 353 { 0x73402399e11cce08e66847330239961 } else { 0x7358239aa11cd408e69847348239a21 } } } } else { if i < 357 { if i < 355 { 0x7370239b611cda08e6c847360239ae1 } else { if i < 356 { 0x7388239c211ce008e6f847378239ba1 } else { 0x73a0239ce11ce608e72847390239c61 } } } else { if i < 358 { 0x73b8239da11cec08e758473a8239d21 } else { if i < 359 { 0x73d0239e611cf208e788473c0239de1 } else { 0x73e8239f211cf808e7b8473d8239ea1 } } } } }
pub open spec fn U_kec_v_p_2_6(i: int) -> int { if i < 366 { if i < 363 { if i < 361 { 0x7400239fe11cfe08e7e8473f0239f61 } else { if i < 362 { 0x741823a0a11d0408e8184740823a021 } else { 0x743023a1611d0a08e8484742023a0e1 } } } else { if i < 364 { 0x747063a3231d1618e898c744063a1a3 } else { if i < 365 { 0x749823a4a11d2408e9184748443a3e2 } else { 0x74b023a5611d2a08e948474a023a4e1 } } } } else { if i < 369 { if i < 367 { 0x74c823a6211d3008e978474b823a5a1 } else { if i < 368 { 0x74e023a6e11d3608e9a8474d023a661 } else { 0x74f823a7a11d3c08e9d8474e823a721 } } } else { if i < 370 { 0x751023a8611d4208ea084750023a7e1 } else { if i < 371 { 0x752823a9211d4808ea384751823a8a1 } else { 0x754023a9e11d4e08ea684753023a961 } } } } }
pub open spec fn U_kec_v_p_2_7(i: int) -> int { if i < 378 { if i < 375 { if i < 373 { 0x755823aaa11d5408ea984754823aa21 } else { if i < 374 { 0x757023ab611d5a08eac84756023aae1 } else { 0x758823ac211d6008eaf84757823aba1 } } } else { if i < 376 { 0x75a023ace11d6608eb284759023ac61 } else { if i < 377 { 0x75b823ada11d6c08eb58475a823ad21 } else { 0x75d023ae611d7208eb88475c023ade1 } } } } else { if i < 381 { if i < 379 { 0x75e823af211d7808ebb8475d823aea1 } else { if i < 380 { 0x760023afe11d7e08ebe8475f023af61 } else { 0x761823b0a11d8408ec184760823b021 } } } else { if i < 382 { 0x763023b1611d8a08ec484762023b0e1 } else { if i < 383 { 0x764823b2211d9008ec784763823b1a1 } else { 0x766023b2e11d9608eca84765023b261 } } } } }
pub open spec fn U_kec_v_p_2_8(i: int) -> int { if i < 390 { if i < 387 { if i < 385 { 0x767823b3a11d9c08ecd84766823b321 } else { if i < 386 { 0x769023b4611da208ed084768023b3e1 } else { 0x76a823b5211da808ed384769823b4a1 } } } else { if i < 388 { 0x76c023b5e11dae08ed68476b023b561 } else { if i < 389 { 0x76d823b6a11db408ed98476c823b621 } else { 0x76f023b7611dba08edc8476e023b6e1 } } } } else { if i < 393 { if i < 391 { 0x770823b8211dc008edf8476f823b7a1 } else { if i < 392 { 0x772023b8e11dc608ee284771023b861 } else { 0x773823b9a11dcc08ee584772823b921 } } } else { if i < 394 { 0x775023ba611dd208ee884774023b9e1 } else { if i < 395 { 0x776823bb211dd808eeb84775823baa1 } else { 0x778023bbe11dde08eee84777023bb61 } } } } }
pub open spec fn U_kec_v_p_2_9(i: int) -> int { if i < 402 { if i < 399 { if i < 397 { 0x779823bca11de408ef184778823bc21 } else { if i < 398 { 0x77b023bd611dea08ef48477a023bce1 } else { 0x77c823be211df008ef78477b823bda1 } } } else { if i < 400 { 0x77e023bee11df608efa8477d023be61 } else { if i < 401 { 0x77fc23bfc11dfd08efe0477ec23bf22 } else { 0x781423c0811e0308f0104780423c001 } } } } else { if i < 405 { if i < 403 { 0x782c23c1411e0908f0404781c23c0c1 } else { if i < 404 { 0x784423c2011e0f08f0704783423c181 } else { 0x785c23c2c11e1508f0a04784c23c241 } } } else { if i < 406 { 0x787423c3811e1b08f0d04786423c301 } else { if i < 407 { 0x788c23c4411e2108f1004787c23c3c1 } else { 0x78a423c5011e2708f1304789423c481 } } } } }
pub open spec fn U_kec_v_p_2_10(i: int) -> int { if i < 414 { if i < 411 { if i < 409 { 0x78bc23c5c11e2d08f160478ac23c541 } else { if i < 410 { 0x78d423c6811e3308f190478c423c601 } else { 0x78ec23c7411e3908f1c0478dc23c6c1 } } } else { if i < 412 { 0x790423c8011e3f08f1f0478f423c781 } else { if i < 413 { 0x791c23c8c11e4508f2204790c23c841 } else { 0x793423c9811e4b08f2504792423c901 } } } } else { if i < 417 { if i < 415 { 0x794c23ca411e5108f2804793c23c9c1 } else { if i < 416 { 0x796423cb011e5708f2b04795423ca81 } else { 0x797c23cbc11e5d08f2e04796c23cb41 } } } else { if i < 418 { 0x799423cc811e6308f3104798423cc01 } else { if i < 419 { 0x79ac23cd411e6908f3404799c23ccc1 } else { 0x79c423ce011e6f08f370479b423cd81 } } } } }
pub open spec fn U_kec_v_p_2_11(i: int) -> int { if i < 426 { if i < 423 { if i < 421 { 0x79dc23cec11e7508f3a0479cc23ce41 } else { if i < 422 { 0x79f423cf811e7b08f3d0479e423cf01 } else { 0x7a0c23d0411e8108f400479fc23cfc1 } } } else { if i < 424 { 0x7a2423d1011e8708f43047a1423d081 } else { if i < 425 { 0x7a3c23d1c11e8d08f46047a2c23d141 } else { 0x7a5423d2811e9308f49047a4423d201 } } } } else { if i < 429 { if i < 427 { 0x7a6c23d3411e9908f4c047a5c23d2c1 } else { if i < 428 { 0x7a8423d4011e9f08f4f047a7423d381 } else { 0x7a9c23d4c11ea508f52047a8c23d441 } } } else { if i < 430 { 0x7ab423d5811eab08f55047aa423d501 } else { if i < 431 { 0x7acc23d6411eb108f58047abc23d5c1 } else { 0x7ae423d7011eb708f5b047ad423d681 } } } } }
pub open spec fn U_kec_v_p_2(i: int) -> int { if i < 360 { if i < 324 { if i < 300 { U_kec_v_p_2_0(i) } else { if i < 312 { U_kec_v_p_2_1(i) } else { U_kec_v_p_2_2(i) } } } else { if i < 336 { U_kec_v_p_2_3(i) } else { if i < 348 { U_kec_v_p_2_4(i) } else { U_kec_v_p_2_5(i) } } } } else { if i < 396 { if i < 372 { U_kec_v_p_2_6(i) } else { if i < 384 { U_kec_v_p_2_7(i) } else { U_kec_v_p_2_8(i) } } } else { if i < 408 { U_kec_v_p_2_9(i) } else { if i < 420 { U_kec_v_p_2_10(i) } else { U_kec_v_p_2_11(i) } } } } }
pub open spec fn U_kec_v_p_3_0(i: int) -> int { if i < 438 { if i < 435 { if i < 433 { 0x7afc23d7c11ebd08f5e047aec23d741 } else { if i < 434 { 0x7b1423d8811ec308f61047b0423d801 } else { 0x7b2c23d9411ec908f64047b1c23d8c1 } } } else { if i < 436 { 0x7b4423da011ecf08f67047b3423d981 } else { if i < 437 { 0x7b5c23dac11ed508f6a047b4c23da41 } else { 0x7b7423db811edb08f6d047b6423db01 } } } } else { if i < 441 { if i < 439 { 0x7b8c23dc411ee108f70047b7c23dbc1 } else { if i < 440 { 0x7ba423dd011ee708f73047b9423dc81 } else { 0x7bbc23ddc11eed08f76047bac23dd41 } } } else { if i < 442 { 0x7bd423de811ef308f79047bc423de01 } else { if i < 443 { 0x7bec23df411ef908f7c047bdc23dec1 } else { 0x7c0423e0011eff08f7f047bf423df81 } } } } }
pub open spec fn U_kec_v_p_3_1(i: int) -> int { if i < 450 { if i < 447 { if i < 445 { 0x7c1c23e0c11f0508f82047c0c23e041 } else { if i < 446 { 0x7c3423e1811f0b08f85047c2423e101 } else { 0x7c4c23e2411f1108f88047c3c23e1c1 } } } else { if i < 448 { 0x7c6423e3011f1708f8b047c5423e281 } else { if i < 449 { 0x7c7c23e3c11f1d08f8e047c6c23e341 } else { 0x7c9423e4811f2308f91047c8423e401 } } } } else { if i < 453 { if i < 451 { 0x7cac23e5411f2908f94047c9c23e4c1 } else { if i < 452 { 0x7cc423e6011f2f08f97047cb423e581 } else { 0x7cdc23e6c11f3508f9a047ccc23e641 } } } else { if i < 454 { 0x7cf423e7811f3b08f9d047ce423e701 } else { if i < 455 { 0x7d0c23e8411f4108fa0047cfc23e7c1 } else { 0x7d2423e9011f4708fa3047d1423e881 } } } } }
pub open spec fn U_kec_v_p_3_2(i: int) -> int { if i < 462 { if i < 459 { if i < 457 { 0x7d3c23e9c11f4d08fa6047d2c23e941 } else { if i < 458 { 0x7d5423ea811f5308fa9047d4423ea01 } else { 0x7d6c23eb411f5908fac047d5c23eac1 } } } else { if i < 460 { 0x7d8423ec011f5f08faf047d7423eb81 } else { if i < 461 { 0x7d9c23ecc11f6508fb2047d8c23ec41 } else { 0x7db423ed811f6b08fb5047da423ed01 } } } } else { if i < 465 { if i < 463 { 0x7dcc23ee411f7108fb8047dbc23edc1 } else { if i < 464 { 0x7de423ef011f7708fbb047dd423ee81 } else { 0x7dfc23efc11f7d08fbe047dec23ef41 } } } else { if i < 466 { 0x7e1423f0811f8308fc1047e0423f001 } else { if i < 467 { 0x7e2c23f1411f8908fc4047e1c23f0c1 } else { 0x7e4423f2011f8f08fc7047e3423f181 } } } } }
pub open spec fn U_kec_v_p_3_3(i: int) -> int { if i < 474 { if i < 471 { if i < 469 { 0x7e5c23f2c11f9508fca047e4c23f241 } else { if i < 470 { 0x7e7423f3811f9b08fcd047e6423f301 } else { 0x7e8c23f4411fa108fd0047e7c23f3c1 } } } else { if i < 472 { 0x7ea423f5011fa708fd3047e9423f481 } else { if i < 473 { 0x7ebc23f5c11fad08fd6047eac23f541 } else { 0x7ed423f6811fb308fd9047ec423f601 } } } } else { if i < 477 { if i < 475 { 0x7eec23f7411fb908fdc047edc23f6c1 } else { if i < 476 { 0x7f0423f8011fbf08fdf047ef423f781 } else { 0x7f1c23f8c11fc508fe2047f0c23f841 } } } else { if i < 478 { 0x7f3423f9811fcb08fe5047f2423f901 } else { if i < 479 { 0x7f4c23fa411fd108fe8047f3c23f9c1 } else { 0x7f6423fb011fd708feb047f5423fa81 } } } } }
pub open spec fn U_kec_v_p_3_4(i: int) -> int { if i < 486 { if i < 483 { if i < 481 { 0x7f7c23fbc11fdd08fee047f6c23fb41 } else { if i < 482 { 0x7f9423fc811fe308ff1047f8423fc01 } else { 0x7fac23fd411fe908ff4047f9c23fcc1 } } } else { if i < 484 { 0x7fc423fe011fef08ff7047fb423fd81 } else { if i < 485 { 0x7fdc23fec11ff508ffa047fcc23fe41 } else { 0x7ff423ff811ffb08ffd047fe423ff01 } } } } else { if i < 489 { if i < 487 { 0x800c240041200109000047ffc23ffc1 } else { if i < 488 { 0x8024240101200709003048014240081 } else { 0x803c2401c1200d0900604802c240141 } } } else { if i < 490 { 0x8054240281201309009048044240201 } else { if i < 491 { 0x806c24034120190900c04805c2402c1 } else { 0x8084240401201f0900f048074240381 } } } } }
pub open spec fn U_kec_v_p_3_5(i: int) -> int { if i < 498 { if i < 495 { if i < 493 { 0x809c2404c120250901204808c240441 } else { if i < 494 { 0x80b4240581202b090150480a4240501 } else { 0x80cc2406412031090180480bc2405c1 } } } else { if i < 496 { 0x80e424070120370901b0480d4240681 } else { if i < 497 { 0x80fc2407c1203d0901e0480ec240741 } else { 0x8114240881204309021048104240801 } } } } else { if i < 501 { if i < 499 { 0x812c24094120490902404811c2408c1 } else { if i < 500 { 0x8144240a01204f09027048134240981 } else { 0x815c240ac120550902a04814c240a41 } } } else { if i < 502 { 0x8174240b81205b0902d048164240b01 } else { if i < 503 { 0x818c240c4120610903004817c240bc1 } else { 0x81a4240d01206709033048194240c81 } } } } }
pub open spec fn U_kec_v_p_3_6(i: int) -> int { if i < 510 { if i < 507 { if i < 505 { 0x81bc240dc1206d090360481ac240d41 } else { if i < 506 { 0x81d4240e812073090390481c4240e01 } else { 0x81ec240f4120790903c0481dc240ec1 } } } else { if i < 508 { 0x8204241001207f0903f0481f4240f81 } else { if i < 509 { 0x821c2410c120850904204820c241041 } else { 0x8234241181208b09045048224241101 } } } } else { if i < 513 { if i < 511 { 0x824c24124120910904804823c2411c1 } else { if i < 512 { 0x826424130120970904b048254241281 } else { 0x827c2413c1209d0904e04826c241341 } } } else { if i < 514 { 0x829424148120a309051048284241401 } else { if i < 515 { 0x82ac24154120a90905404829c2414c1 } else { 0x82c424160120af090570482b4241581 } } } } }
pub open spec fn U_kec_v_p_3_7(i: int) -> int { if i < 522 { if i < 519 { if i < 517 { 0x82dc2416c120b50905a0482cc241641 } else { if i < 518 { 0x82f424178120bb0905d0482e4241701 } else { 0x830c24184120c1090600482fc2417c1 } } } else { if i < 520 { 0x832424190120c709063048314241881 } else { if i < 521 { 0x833c2419c120cd0906604832c241941 } else { 0x8354241a8120d309069048344241a01 } } } } else { if i < 525 { if i < 523 { 0x836c241b4120d90906c04835c241ac1 } else { if i < 524 { 0x8384241c0120df0906f048374241b81 } else { 0x839c241cc120e50907204838c241c41 } } } else { if i < 526 { 0x83b4241d8120eb090750483a4241d01 } else { if i < 527 { 0x83cc241e4120f1090780483bc241dc1 } else { 0x83e4241f0120f70907b0483d4241e81 } } } } }
pub open spec fn U_kec_v_p_3_8(i: int) -> int { if i < 534 { if i < 531 { if i < 529 { 0x83fc241fc120fd0907e0483ec241f41 } else { if i < 530 { 0x8414242081210309081048404242001 } else { 0x842c24214121090908404841c2420c1 } } } else { if i < 532 { 0x8444242201210f09087048434242181 } else { if i < 533 { 0x845c2422c121150908a04844c242241 } else { 0x8474242381211b0908d048464242301 } } } } else { if i < 537 { if i < 535 { 0x848c24244121210909004847c2423c1 } else { if i < 536 { 0x84a4242501212709093048494242481 } else { 0x84bc2425c1212d090960484ac242541 } } } else { if i < 538 { 0x84d42426812133090990484c4242601 } else { if i < 539 { 0x84ec24274121390909c0484dc2426c1 } else { 0x8504242801213f0909f0484f4242781 } } } } }
pub open spec fn U_kec_v_p_3_9(i: int) -> int { if i < 546 { if i < 543 { if i < 541 { 0x851c2428c12145090a204850c242841 } else { if i < 542 { 0x8534242981214b090a5048524242901 } else { 0x854c242a412151090a804853c2429c1 } } } else { if i < 544 { 0x8564242b012157090ab048554242a81 } else { if i < 545 { 0x857c242bc1215d090ae04856c242b41 } else { 0x8594242c812163090b1048584242c01 } } } } else { if i < 549 { if i < 547 { 0x85ac242d412169090b404859c242cc1 } else { if i < 548 { 0x85c4242e01216f090b70485b4242d81 } else { 0x85dc242ec12175090ba0485cc242e41 } } } else { if i < 550 { 0x85f4242f81217b090bd0485e4242f01 } else { if i < 551 { 0x860c2430412181090c00485fc242fc1 } else { 0x86242431012187090c3048614243081 } } } } }
pub open spec fn U_kec_v_p_3_10(i: int) -> int { if i < 558 { if i < 555 { if i < 553 { 0x863c2431c1218d090c604862c243141 } else { if i < 554 { 0x86542432812193090c9048644243201 } else { 0x866c2433412199090cc04865c2432c1 } } } else { if i < 556 { 0x8684243401219f090cf048674243381 } else { if i < 557 { 0x869c2434c121a5090d204868c243441 } else { 0x86b424358121ab090d50486a4243501 } } } } else { if i < 561 { if i < 559 { 0x86cc24364121b1090d80486bc2435c1 } else { if i < 560 { 0x86e424370121b7090db0486d4243681 } else { 0x86fc2437c121bd090de0486ec243741 } } } else { if i < 562 { 0x871424388121c3090e1048704243801 } else { if i < 563 { 0x872c24394121c9090e404871c2438c1 } else { 0x8744243a0121cf090e7048734243981 } } } } }
pub open spec fn U_kec_v_p_3_11(i: int) -> int { if i < 570 { if i < 567 { if i < 565 { 0x875c243ac121d5090ea04874c243a41 } else { if i < 566 { 0x8774243b8121db090ed048764243b01 } else { 0x878c243c4121e1090f004877c243bc1 } } } else { if i < 568 { 0x87a4243d0121e7090f3048794243c81 } else { if i < 569 { 0x87bc243dc121ed090f60487ac243d41 } else { 0x87d4243e8121f3090f90487c4243e01 } } } } else { if i < 573 { if i < 571 { 0x87ec243f4121f9090fc0487dc243ec1 } else { if i < 572 { 0x880424400121ff090ff0487f4243f81 } else { 0x881c2440c122050910204880c244041 } } } else { if i < 574 { 0x8834244181220b09105048824244101 } else { if i < 575 { 0x884c24424122110910804883c2441c1 } else { 0x886424430122170910b048854244281 } } } } }
pub open spec fn U_kec_v_p_3(i: int) -> int { if i < 504 { if i < 468 { if i < 444 { U_kec_v_p_3_0(i) } else { if i < 456 { U_kec_v_p_3_1(i) } else { U_kec_v_p_3_2(i) } } } else { if i < 480 { U_kec_v_p_3_3(i) } else { if i < 492 { U_kec_v_p_3_4(i) } else { U_kec_v_p_3_5(i) } } } } else { if i < 540 { if i < 516 { U_kec_v_p_3_6(i) } else { if i < 528 { U_kec_v_p_3_7(i) } else { U_kec_v_p_3_8(i) } } } else { if i < 552 { U_kec_v_p_3_9(i) } else { if i < 564 { U_kec_v_p_3_10(i) } else { U_kec_v_p_3_11(i) } } } } }
pub open spec fn U_kec_v_p_4_0(i: int) -> int { if i < 582 { if i < 579 { if i < 577 { 0x887c2443c1221d0910e04886c244341 } else { if i < 578 { 0x8894244481222309111048884244401 } else { 0x88ac24454122290911404889c2444c1 } } } else { if i < 580 { 0x88c4244601222f091170488b4244581 } else { if i < 581 { 0x88dc2446c122350911a0488cc244641 } else { 0x88f4244781223b0911d0488e4244701 } } } } else { if i < 585 { if i < 583 { 0x890c2448412241091200488fc2447c1 } else { if i < 584 { 0x8924244901224709123048914244881 } else { 0x893c2449c1224d0912604892c244941 } } } else { if i < 586 { 0x8954244a81225309129048944244a01 } else { if i < 587 { 0x896c244b4122590912c04895c244ac1 } else { 0x8984244c01225f0912f048974244b81 } } } } }
pub open spec fn U_kec_v_p_4_1(i: int) -> int { if i < 594 { if i < 591 { if i < 589 { 0x899c244cc122650913204898c244c41 } else { if i < 590 { 0x89b4244d81226b091350489a4244d01 } else { 0x89cc244e412271091380489bc244dc1 } } } else { if i < 592 { 0x89e4244f0122770913b0489d4244e81 } else { if i < 593 { 0x89fc244fc1227d0913e0489ec244f41 } else { 0x8a14245081228309141048a04245001 } } } } else { if i < 597 { if i < 595 { 0x8a2c245141228909144048a1c2450c1 } else { if i < 596 { 0x8a44245201228f09147048a34245181 } else { 0x8a5c2452c122950914a048a4c245241 } } } else { if i < 598 { 0x8a74245381229b0914d048a64245301 } else { if i < 599 { 0x8a8c24544122a109150048a7c2453c1 } else { 0x8aa424550122a709153048a94245481 } } } } }
pub open spec fn U_kec_v_p_4_2(i: int) -> int { if i < 606 { if i < 603 { if i < 601 { 0x8abc2455c122ad09156048aac245541 } else { if i < 602 { 0x8ad424568122b309159048ac4245601 } else { 0x8aec24574122b90915c048adc2456c1 } } } else { if i < 604 { 0x8b0424580122bf0915f048af4245781 } else { if i < 605 { 0x8b1c2458c122c509162048b0c245841 } else { 0x8b3424598122cb09165048b24245901 } } } } else { if i < 609 { if i < 607 { 0x8b4c245a4122d109168048b3c2459c1 } else { if i < 608 { 0x8b64245b0122d70916b048b54245a81 } else { 0x8b7c245bc122dd0916e048b6c245b41 } } } else { if i < 610 { 0x8b94245c8122e309171048b84245c01 } else { if i < 611 { 0x8bac245d4122e909174048b9c245cc1 } else { 0x8bc4245e0122ef09177048bb4245d81 } } } } }
pub open spec fn U_kec_v_p_4_3(i: int) -> int { if i < 618 { if i < 615 { if i < 613 { 0x8bdc245ec122f50917a048bcc245e41 } else { if i < 614 { 0x8bf4245f8122fb0917d048be4245f01 } else { 0x8c0c246041230109180048bfc245fc1 } } } else { if i < 616 { 0x8c24246101230709183048c14246081 } else { if i < 617 { 0x8c3c2461c1230d09186048c2c246141 } else { 0x8c6844630223161118a088c48446202 } } } } else { if i < 621 { if i < 619 { 0x8c98646482232211190088c78446382 } else { if i < 620 { 0x8ce06466a32332191978c8cb0646523 } else { 0x8d286468e32344191a08c8cf8646763 } } } else { if i < 622 { 0x8d70646b232356191a98c8d406469a3 } else { if i < 623 { 0x8db8646d632368191b28c8d88646be3 } else { 0x8dec446f222378091bb848dd0646e23 } } } } }
pub open spec fn U_kec_v_p_4_4(i: int) -> int { if i < 630 { if i < 627 { if i < 625 { 0x8e082470212380091bf848df8246fa1 } else { if i < 626 { 0x8e202470e12386091c2848e10247061 } else { 0x8e382471a1238c091c5848e28247121 } } } else { if i < 628 { 0x8e502472612392091c8848e402471e1 } else { if i < 629 { 0x8e744473622399111cb888e582472a1 } else { 0x8ea844750223a6111d2088e884473e3 } } } } else { if i < 633 { if i < 631 { 0x8ecc24764123b1091d8048eb8447582 } else { if i < 632 { 0x8ee824772123b8091db848ed8247682 } else { 0x8f002477e123be091de848ef0247761 } } } else { if i < 634 { 0x8f182478a123c4091e1848f08247821 } else { if i < 635 { 0x8f3024796123ca091e4848f202478e1 } else { 0x8f48247a2123d0091e7848f382479a1 } } } } }
pub open spec fn U_kec_v_p_4_5(i: int) -> int { if i < 639 { if i < 637 { 0x8f60247ae123d6091ea848f50247a61 } else { if i < 638 { 0x8f78647ba123dc091ed848f68247b21 } else { 0x8fc0647da323ea191f38c8f90647c23 } } } else { if i < 640 { 0x8ff0247f6123fa091fc848fd8647e63 } else { if i < 641 { 0x90082480212400091ff848ff8247fa1 } else { 0x9010248061 } } } }
pub open spec fn U_kec_v_p_4(i: int) -> int { if i < 612 { if i < 588 { U_kec_v_p_4_0(i) } else { if i < 600 { U_kec_v_p_4_1(i) } else { U_kec_v_p_4_2(i) } } } else { if i < 624 { U_kec_v_p_4_3(i) } else { if i < 636 { U_kec_v_p_4_4(i) } else { U_kec_v_p_4_5(i) } } } }
pub open spec fn U_kec_v_p(i: int) -> int { if i < 288 { if i < 144 { U_kec_v_p_0(i) } else { U_kec_v_p_1(i) } } else { if i < 432 { U_kec_v_p_2(i) } else { if i < 576 { U_kec_v_p_3(i) } else { U_kec_v_p_4(i) } } } }
pub open spec fn U_kec_v(i: int) -> int { unpack21(U_kec_v_p(i / 6), i % 6) }
pub open spec fn U_var_k_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x1f20a0f90407c8183e4081f2020f900 } else { if i < 2 { 0x1f2160f90a07c8483e4201f20e0f906 } else { 0x1f2220f91007c8783e4381f21a0f90c } } } else { if i < 4 { 0x1f22e0f91607c8a83e4501f2260f912 } else { if i < 5 { 0x1f23a0f91c07c8d83e4681f2320f918 } else { 0x1f2460f92207c9083e4801f23e0f91e } } } } else { if i < 9 { if i < 7 { 0x1f2520f92807c9383e4981f24a0f924 } else { if i < 8 { 0x1f25e0f92e07c9683e4b01f2560f92a } else { 0x1f26a0f93407c9983e4c81f2620f930 } } } else { if i < 10 { 0x1f2760f93a07c9c83e4e01f26e0f936 } else { if i < 11 { 0x1f2820f94007c9f83e4f81f27a0f93c } else { 0x1f28e0f94607ca283e5101f2860f942 } } } } }
pub open spec fn U_var_k_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x1f29a0f94c07ca583e5281f2920f948 } else { if i < 14 { 0x1f2a60f95207ca883e5401f29e0f94e } else { 0x1f2b20f95807cab83e5581f2aa0f954 } } } else { if i < 16 { 0x1f2be0f95e07cae83e5701f2b60f95a } else { if i < 17 { 0x1f2ca0f96407cb183e5881f2c20f960 } else { 0x1f2d60f96a07cb483e5a01f2ce0f966 } } } } else { if i < 21 { if i < 19 { 0x1f2e20f97007cb783e5b81f2da0f96c } else { if i < 20 { 0x1f2ee0f97607cba83e5d01f2e60f972 } else { 0x1f2fa0f97c07cbd83e5e81f2f20f978 } } } else { if i < 22 { 0x1f3060f98207cc083e6001f2fe0f97e } else { if i < 23 { 0x1f3120f98807cc383e6181f30a0f984 } else { 0x1f31e0f98e07cc683e6301f3160f98a } } } } }
pub open spec fn U_var_k_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x1f32a0f99407cc983e6481f3220f990 } else { if i < 26 { 0x1f3360f99a07ccc83e6601f32e0f996 } else { 0x1f3420f9a007ccf83e6781f33a0f99c } } } else { if i < 28 { 0x1f34e0f9a607cd283e6901f3460f9a2 } else { if i < 29 { 0x1f35a0f9ac07cd583e6a81f3520f9a8 } else { 0x1f3660f9b207cd883e6c01f35e0f9ae } } } } else { if i < 33 { if i < 31 { 0x1f3720f9b807cdb83e6d81f36a0f9b4 } else { if i < 32 { 0x1f37e0f9be07cde83e6f01f3760f9ba } else { 0x1f38a0f9c407ce183e7081f3820f9c0 } } } else { if i < 34 { 0x1f3960f9ca07ce483e7201f38e0f9c6 } else { if i < 35 { 0x1f3a20f9d007ce783e7381f39a0f9cc } else { 0x1f3ae0f9d607cea83e7501f3a60f9d2 } } } } }
pub open spec fn U_var_k_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x1f3ba0f9dc07ced83e7681f3b20f9d8 } else { if i < 38 { 0x1f3c60f9e207cf083e7801f3be0f9de } else { 0x1f3d20f9e807cf383e7981f3ca0f9e4 } } } else { if i < 40 { 0x1f3de0f9ee07cf683e7b01f3d60f9ea } else { if i < 41 { 0x1f3ea0f9f407cf983e7c81f3e20f9f0 } else { 0x1f3f60f9fa07cfc83e7e01f3ee0f9f6 } } } } else { if i < 45 { if i < 43 { 0x1f4020fa0007cff83e7f81f3fa0f9fc } else { if i < 44 { 0x1f40e0fa0607d0283e8101f4060fa02 } else { 0x1f41a0fa0c07d0583e8281f4120fa08 } } } else { if i < 46 { 0x1f4300fa1707d0b03e8541f4240fa10 } else { if i < 47 { 0x1f43c0fa1d07d0e03e86c1f4340fa19 } else { 0x1f4560fa2a07d1303e8941f4440fa20 } } } } }
pub open spec fn U_var_k_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x1f4620fa3007d1783e8b81f45a0fa2c } else { if i < 50 { 0x1f46e0fa3607d1a83e8d01f4660fa32 } else { 0x1f47a0fa3c07d1d83e8e81f4720fa38 } } } else { if i < 52 { 0x1f4860fa4207d2083e9001f47e0fa3e } else { if i < 53 { 0x1f4920fa4807d2383e9181f48a0fa44 } else { 0x1f49e0fa4e07d2683e9301f4960fa4a } } } } else { if i < 57 { if i < 55 { 0x1f4aa0fa5407d2983e9481f4a20fa50 } else { if i < 56 { 0x1f4b60fa5a07d2c83e9601f4ae0fa56 } else { 0x1f4c20fa6007d2f83e9781f4ba0fa5c } } } else { if i < 58 { 0x1f4ce0fa6607d3283e9901f4c60fa62 } else { if i < 59 { 0x1f4da0fa6c07d3583e9a81f4d20fa68 } else { 0x1f4ea0fa7407d3983e9c81f4e20fa70 } } } } }
pub open spec fn U_var_k_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x1f4f60fa7a07d3c83e9e01f4ee0fa76 } else { if i < 62 { 0x1f5020fa8007d3f83e9f81f4fa0fa7c } else { 0x1f50e0fa8607d4283ea101f5060fa82 } } } else { if i < 64 { 0x1f51a0fa8c07d4583ea281f5120fa88 } else { if i < 65 { 0x1f5260fa9207d4883ea401f51e0fa8e } else { 0x1f5320fa9807d4b83ea581f52a0fa94 } } } } else { if i < 69 { if i < 67 { 0x1f53e0fa9e07d4e83ea701f5360fa9a } else { if i < 68 { 0x1f54a0faa407d5183ea881f5420faa0 } else { 0x1f5560faaa07d5483eaa01f54e0faa6 } } } else { if i < 70 { 0x1f5620fab007d5783eab81f55a0faac } else { if i < 71 { 0x1f56e0fab607d5a83ead01f5660fab2 } else { 0x1f57a0fabc07d5d83eae81f5720fab8 } } } } }
pub open spec fn U_var_k_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x1f5860fac207d6083eb001f57e0fabe } else { if i < 74 { 0x1f5920fac807d6383eb181f58a0fac4 } else { 0x1f59e0face07d6683eb301f5960faca } } } else { if i < 76 { 0x1f5aa0fad407d6983eb481f5a20fad0 } else { if i < 77 { 0x5f0022f80007d6c83eb601f5ae0fad6 } else { 0x5f00e2f80617c028be0105f0062f802 } } } } else { if i < 81 { if i < 79 { 0x5f01a2f80c17c058be0285f0122f808 } else { if i < 80 { 0x5f0262f81217c088be0405f01e2f80e } else { 0x5f0322f81817c0b8be0585f02a2f814 } } } else { if i < 82 { 0x5f03e2f81e17c0e8be0705f0362f81a } else { if i < 83 { 0x5f04a2f82417c118be0885f0422f820 } else { 0x5f0562f82a17c148be0a05f04e2f826 } } } } }
pub open spec fn U_var_k_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x5f0622f83017c178be0b85f05a2f82c } else { if i < 86 { 0x5f06e2f83617c1a8be0d05f0662f832 } else { 0x5f07a2f83c17c1d8be0e85f0722f838 } } } else { if i < 88 { 0x5f0862f84217c208be1005f07e2f83e } else { if i < 89 { 0x5f0922f84817c238be1185f08a2f844 } else { 0x5f09e2f84e17c268be1305f0962f84a } } } } else { if i < 93 { if i < 91 { 0x5f0aa2f85417c298be1485f0a22f850 } else { if i < 92 { 0x5f0b62f85a17c2c8be1605f0ae2f856 } else { 0x5f0c22f86017c2f8be1785f0ba2f85c } } } else { if i < 94 { 0x5f0ce2f86617c328be1905f0c62f862 } else { if i < 95 { 0x5f0da2f86c17c358be1a85f0d22f868 } else { 0x5f0e62f87217c388be1c05f0de2f86e } } } } }
pub open spec fn U_var_k_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x5f0f22f87817c3b8be1d85f0ea2f874 } else { if i < 98 { 0x5f0fe2f87e17c3e8be1f05f0f62f87a } else { 0x5f10a2f88417c418be2085f1022f880 } } } else { if i < 100 { 0x5f1162f88a17c448be2205f10e2f886 } else { if i < 101 { 0x5f1222f89017c478be2385f11a2f88c } else { 0x5f12e2f89617c4a8be2505f1262f892 } } } } else { if i < 105 { if i < 103 { 0x5f13a2f89c17c4d8be2685f1322f898 } else { if i < 104 { 0x5f1462f8a217c508be2805f13e2f89e } else { 0x5f1522f8a817c538be2985f14a2f8a4 } } } else { if i < 106 { 0x5f15e2f8ae17c568be2b05f1562f8aa } else { if i < 107 { 0x5f16a2f8b417c598be2c85f1622f8b0 } else { 0x5f1762f8ba17c5c8be2e05f16e2f8b6 } } } } }
pub open spec fn U_var_k_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x5f1822f8c017c5f8be2f85f17a2f8bc } else { if i < 110 { 0x5f18e2f8c617c628be3105f1862f8c2 } else { 0x5f19a2f8cc17c658be3285f1922f8c8 } } } else { if i < 112 { 0x5f1a62f8d217c688be3405f19e2f8ce } else { if i < 113 { 0x5f1b22f8d817c6b8be3585f1aa2f8d4 } else { 0x5f1be2f8de17c6e8be3705f1b62f8da } } } } else { if i < 117 { if i < 115 { 0x5f1ca2f8e417c718be3885f1c22f8e0 } else { if i < 116 { 0x5f1d62f8ea17c748be3a05f1ce2f8e6 } else { 0x5f1e22f8f017c778be3b85f1da2f8ec } } } else { if i < 118 { 0x5f1ee2f8f617c7a8be3d05f1e62f8f2 } else { if i < 119 { 0x5f1fa2f8fc17c7d8be3e85f1f22f8f8 } else { 0x5f2062f90217c808be4005f1fe2f8fe } } } } }
pub open spec fn U_var_k_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x5f2122f90817c838be4185f20a2f904 } else { if i < 122 { 0x5f21e2f90e17c868be4305f2162f90a } else { 0x5f22a2f91417c898be4485f2222f910 } } } else { if i < 124 { 0x5f2362f91a17c8c8be4605f22e2f916 } else { if i < 125 { 0x5f2422f92017c8f8be4785f23a2f91c } else { 0x5f24e2f92617c928be4905f2462f922 } } } } else { if i < 129 { if i < 127 { 0x5f25a2f92c17c958be4a85f2522f928 } else { if i < 128 { 0x5f2662f93217c988be4c05f25e2f92e } else { 0x5f2722f93817c9b8be4d85f26a2f934 } } } else { if i < 130 { 0x5f27e2f93e17c9e8be4f05f2762f93a } else { if i < 131 { 0x5f28a2f94417ca18be5085f2822f940 } else { 0x5f2962f94a17ca48be5205f28e2f946 } } } } }
pub open spec fn U_var_k_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x5f2a22f95017ca78be5385f29a2f94c } else { if i < 134 { 0x5f2ae2f95617caa8be5505f2a62f952 } else { 0x5f2ba2f95c17cad8be5685f2b22f958 } } } else { if i < 136 { 0x5f2c62f96217cb08be5805f2be2f95e } else { if i < 137 { 0x5f2d22f96817cb38be5985f2ca2f964 } else { 0x5f2de2f96e17cb68be5b05f2d62f96a } } } } else { if i < 141 { if i < 139 { 0x5f2ea2f97417cb98be5c85f2e22f970 } else { if i < 140 { 0x5f2f62f97a17cbc8be5e05f2ee2f976 } else { 0x5f3022f98017cbf8be5f85f2fa2f97c } } } else { if i < 142 { 0x5f30e2f98617cc28be6105f3062f982 } else { if i < 143 { 0x5f31a2f98c17cc58be6285f3122f988 } else { 0x5f3262f99217cc88be6405f31e2f98e } } } } }
pub open spec fn U_var_k_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_var_k_p_0_0(i) } else { if i < 24 { U_var_k_p_0_1(i) } else { U_var_k_p_0_2(i) } } } else { if i < 48 { U_var_k_p_0_3(i) } else { if i < 60 { U_var_k_p_0_4(i) } else { U_var_k_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_var_k_p_0_6(i) } else { if i < 96 { U_var_k_p_0_7(i) } else { U_var_k_p_0_8(i) } } } else { if i < 120 { U_var_k_p_0_9(i) } else { if i < 132 { U_var_k_p_0_10(i) } else { U_var_k_p_0_11(i) } } } } }
pub open spec fn U_var_k_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x5f3322f99817ccb8be6585f32a2f994 } else { if i < 146 { 0x5f33e2f99e17cce8be6705f3362f99a } else { 0x5f34a2f9a417cd18be6885f3422f9a0 } } } else { if i < 148 { 0x5f3562f9aa17cd48be6a05f34e2f9a6 } else { if i < 149 { 0x5f3622f9b017cd78be6b85f35a2f9ac } else { 0x5f36e2f9b617cda8be6d05f3662f9b2 } } } } else { if i < 153 { if i < 151 { 0x5f37a2f9bc17cdd8be6e85f3722f9b8 } else { if i < 152 { 0x5f3862f9c217ce08be7005f37e2f9be } else { 0x5f3922f9c817ce38be7185f38a2f9c4 } } } else { if i < 154 { 0x5f39e2f9ce17ce68be7305f3962f9ca } else { if i < 155 { 0x5f3aa2f9d417ce98be7485f3a22f9d0 } else { 0x5f3b62f9da17cec8be7605f3ae2f9d6 } } } } }
pub open spec fn U_var_k_p_1_1(i: int) -> int { if i < 161 { if i < 158 { if i < 157 { 0x5f3c22f9e017cef8be7785f3ba2f9dc } else { 0x5f3ce2f9e617cf28be7905f3c62f9e2 } } else { if i < 159 { 0x5f3da2f9ec17cf58be7a85f3d22f9e8 } else { if i < 160 { 0x5f3e62f9f217cf88be7c05f3de2f9ee } else { 0x5f3f22f9f817cfb8be7d85f3ea2f9f4 } } } } else { if i < 164 { if i < 162 { 0x5f3fe2f9fe17cfe8be7f05f3f62f9fa } else { if i < 163 { 0x5f40a2fa0417d018be8085f4022fa00 } else { 0x5f4162fa0a17d048be8205f40e2fa06 } } } else { if i < 165 { 0x5f4222fa1017d078be8385f41a2fa0c } else { if i < 166 { 0x5f42e2fa1617d0a8be8505f4262fa12 } else { 0x5f43a2fa1c17d0d8be8685f4322fa18 } } } } }
pub open spec fn U_var_k_p_1(i: int) -> int { if i < 156 { U_var_k_p_1_0(i) } else { U_var_k_p_1_1(i) } }
pub open spec fn U_var_k_p(i: int) -> int { if i < 144 { U_var_k_p_0(i) } else { U_var_k_p_1(i) } }
pub open spec fn U_var_k(i: int) -> int { unpack21(U_var_k_p(i / 6), i % 6) }
pub open spec fn U_var_b_0_0(x: int) -> int { if x < 0xf924 { if x < 0xf912 { if x < 0xf906 { 0 } else { if x < 0xf90c { 1 } else { 2 } } } else { if x < 0xf918 { 3 } else { if x < 0xf91e { 4 } else { 5 } } } } else { if x < 0xf936 { if x < 0xf92a { 6 } else { if x < 0xf930 { 7 } else { 8 } } } else { if x < 0xf93c { 9 } else { if x < 0xf942 { 10 } else { 11 } } } } }
pub open spec fn U_var_b_0_1(x: int) -> int { if x < 0xf96c { if x < 0xf95a { if x < 0xf94e { 12 } else { if x < 0xf954 { 13 } else { 14 } } } else { if x < 0xf960 { 15 } else { if x < 0xf966 { 16 } else { 17 } } } } else { if x < 0xf97e { if x < 0xf972 { 18 } else { if x < 0xf978 { 19 } else { 20 } } } else { if x < 0xf984 { 21 } else { if x < 0xf98a { 22 } else { 23 } } } } }
pub open spec fn U_var_b_0_2(x: int) -> int { if x < 0xf9b4 { if x < 0xf9a2 { if x < 0xf996 { 24 } else { if x < 0xf99c { 25 } else { 26 } } } else { if x < 0xf9a8 { 27 } else { if x < 0xf9ae { 28 } else { 29 } } } } else { if x < 0xf9c6 { if x < 0xf9ba { 30 } else { if x < 0xf9c0 { 31 } else { 32 } } } else { if x < 0xf9cc { 33 } else { if x < 0xf9d2 { 34 } else { 35 } } } } }
pub open spec fn U_var_b_0_3(x: int) -> int { if x < 0xf9fc { if x < 0xf9ea { if x < 0xf9de { 36 } else { if x < 0xf9e4 { 37 } else { 38 } } } else { if x < 0xf9f0 { 39 } else { if x < 0xf9f6 { 40 } else { 41 } } } } else { if x < 0xfa10 { if x < 0xfa02 { 42 } else { if x < 0xfa08 { 43 } else { 44 } } } else { if x < 0xfa19 { 45 } else { if x < 0xfa20 { 46 } else { 47 } } } } }
pub open spec fn U_var_b_0_4(x: int) -> int { if x < 0xfa50 { if x < 0xfa3e { if x < 0xfa32 { 48 } else { if x < 0xfa38 { 49 } else { 50 } } } else { if x < 0xfa44 { 51 } else { if x < 0xfa4a { 52 } else { 53 } } } } else { if x < 0xfa62 { if x < 0xfa56 { 54 } else { if x < 0xfa5c { 55 } else { 56 } } } else { if x < 0xfa68 { 57 } else { if x < 0xfa70 { 58 } else { 59 } } } } }
pub open spec fn U_var_b_0_5(x: int) -> int { if x < 0xfa9a { if x < 0xfa88 { if x < 0xfa7c { 60 } else { if x < 0xfa82 { 61 } else { 62 } } } else { if x < 0xfa8e { 63 } else { if x < 0xfa94 { 64 } else { 65 } } } } else { if x < 0xfaac { if x < 0xfaa0 { 66 } else { if x < 0xfaa6 { 67 } else { 68 } } } else { if x < 0xfab2 { 69 } else { if x < 0xfab8 { 70 } else { 71 } } } } }
pub open spec fn U_var_b_0_6(x: int) -> int { if x < 0x2f808 { if x < 0xfad0 { if x < 0xfac4 { 72 } else { if x < 0xfaca { 73 } else { 74 } } } else { if x < 0xfad6 { 75 } else { if x < 0x2f802 { 76 } else { 77 } } } } else { if x < 0x2f81a { if x < 0x2f80e { 78 } else { if x < 0x2f814 { 79 } else { 80 } } } else { if x < 0x2f820 { 81 } else { if x < 0x2f826 { 82 } else { 83 } } } } }
pub open spec fn U_var_b_0_7(x: int) -> int { if x < 0x2f850 { if x < 0x2f83e { if x < 0x2f832 { 84 } else { if x < 0x2f838 { 85 } else { 86 } } } else { if x < 0x2f844 { 87 } else { if x < 0x2f84a { 88 } else { 89 } } } } else { if x < 0x2f862 { if x < 0x2f856 { 90 } else { if x < 0x2f85c { 91 } else { 92 } } } else { if x < 0x2f868 { 93 } else { if x < 0x2f86e { 94 } else { 95 } } } } }
pub open spec fn U_var_b_0_8(x: int) -> int { if x < 0x2f898 { if x < 0x2f886 { if x < 0x2f87a { 96 } else { if x < 0x2f880 { 97 } else { 98 } } } else { if x < 0x2f88c { 99 } else { if x < 0x2f892 { 100 } else { 101 } } } } else { if x < 0x2f8aa { if x < 0x2f89e { 102 } else { if x < 0x2f8a4 { 103 } else { 104 } } } else { if x < 0x2f8b0 { 105 } else { if x < 0x2f8b6 { 106 } else { 107 } } } } }
pub open spec fn U_var_b_0_9(x: int) -> int { if x < 0x2f8e0 { if x < 0x2f8ce { if x < 0x2f8c2 { 108 } else { if x < 0x2f8c8 { 109 } else { 110 } } } else { if x < 0x2f8d4 { 111 } else { if x < 0x2f8da { 112 } else { 113 } } } } else { if x < 0x2f8f2 { if x < 0x2f8e6 { 114 } else { if x < 0x2f8ec { 115 } else { 116 } } } else { if x < 0x2f8f8 { 117 } else { if x < 0x2f8fe { 118 } else { 119 } } } } }
pub open spec fn U_var_b_0_10(x: int) -> int { if x < 0x2f928 { if x < 0x2f916 { if x < 0x2f90a { 120 } else { if x < 0x2f910 { 121 } else { 122 } } } else { if x < 0x2f91c { 123 } else { if x < 0x2f922 { 124 } else { 125 } } } } else { if x < 0x2f93a { if x < 0x2f92e { 126 } else { if x < 0x2f934 { 127 } else { 128 } } } else { if x < 0x2f940 { 129 } else { if x < 0x2f946 { 130 } else { 131 } } } } }
pub open spec fn U_var_b_0_11(x: int) -> int { if x < 0x2f970 { if x < 0x2f95e { if x < 0x2f952 { 132 } else { if x < 0x2f958 { 133 } else { 134 } } } else { if x < 0x2f964 { 135 } else { if x < 0x2f96a { 136 } else { 137 } } } } else { if x < 0x2f982 { if x < 0x2f976 { 138 } else { if x < 0x2f97c { 139 } else { 140 } } } else { if x < 0x2f988 { 141 } else { if x < 0x2f98e { 142 } else { 143 } } } } }
pub open spec fn U_var_b_0(x: int) -> int { if x < 0xfabe { if x < 0xf9d8 { if x < 0xf948 { U_var_b_0_0(x) } else { if x < 0xf990 { U_var_b_0_1(x) } else { U_var_b_0_2(x) } } } else { if x < 0xfa2c { U_var_b_0_3(x) } else { if x < 0xfa76 { U_var_b_0_4(x) } else { U_var_b_0_5(x) } } } } else { if x < 0x2f8bc { if x < 0x2f82c { U_var_b_0_6(x) } else { if x < 0x2f874 { U_var_b_0_7(x) } else { U_var_b_0_8(x) } } } else { if x < 0x2f904 { U_var_b_0_9(x) } else { if x < 0x2f94c { U_var_b_0_10(x) } else { U_var_b_0_11(x) } } } } }
pub open spec fn U_var_b_1_0(x: int) -> int { if x < 0x2f9b8 { if x < 0x2f9a6 { if x < 0x2f99a { 144 } else { if x < 0x2f9a0 { 145 } else { 146 } } } else { if x < 0x2f9ac { 147 } else { if x < 0x2f9b2 { 148 } else { 149 } } } } else { if x < 0x2f9ca { if x < 0x2f9be { 150 } else { if x < 0x2f9c4 { 151 } else { 152 } } } else { if x < 0x2f9d0 { 153 } else { if x < 0x2f9d6 { 154 } else { 155 } } } } }
pub open spec fn U_var_b_1_1(x: int) -> int { if x < 0x2f9fa { if x < 0x2f9e8 { if x < 0x2f9e2 { 156 } else { 157 } } else { if x < 0x2f9ee { 158 } else { if x < 0x2f9f4 { 159 } else { 160 } } } } else { if x < 0x2fa0c { if x < 0x2fa00 { 161 } else { if x < 0x2fa06 { 162 } else { 163 } } } else { if x < 0x2fa12 { 164 } else { if x < 0x2fa18 { 165 } else { 166 } } } } }
pub open spec fn U_var_b_1(x: int) -> int { if x < 0x2f9dc { U_var_b_1_0(x) } else { U_var_b_1_1(x) } }
pub open spec fn U_var_b(x: int) -> int { if x < 0x2f994 { U_var_b_0(x) } else { U_var_b_1(x) } }
pub open spec fn U_var_n() -> int { 1002 }
pub open spec fn U_var_find(x: int) -> int { let b = U_var_b(x); let j = b * 6 + within21(U_var_k_p(b), x); if 0 <= j < 1002 && U_var_k(j) <= x <= U_var_k(j) { j } else { -1 } }
pub open spec fn U_var_v_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x903c4481a2240b1120488901c4480a2 } else { if i < 2 { 0x906c44832224171120a88904c448222 } else { 0x909c4484a224231121088907c4483a2 } } } else { if i < 4 { 0x90cc448622242f112168890ac448522 } else { if i < 5 { 0x90fc4487a2243b1121c8890dc4486a2 } else { 0x912c44892224471122288910c448822 } } } } else { if i < 9 { if i < 7 { 0x915c448aa224531122888913c4489a2 } else { if i < 8 { 0x918c448c22245f1122e88916c448b22 } else { 0x91bc448da2246b1123488919c448ca2 } } } else { if i < 10 { 0x91ec448f2224771123a8891cc448e22 } else { if i < 11 { 0x921c4490a22483112408891fc448fa2 } else { 0x924c449222248f1124688922c449122 } } } } }
pub open spec fn U_var_v_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x927c4493a2249b1124c88925c4492a2 } else { if i < 14 { 0x92ac44952224a71125288928c449422 } else { 0x92dc4496a224b3112588892bc4495a2 } } } else { if i < 16 { 0x930c44982224bf1125e8892ec449722 } else { if i < 17 { 0x933c4499a224cb1126488931c4498a2 } else { 0x936c449b2224d71126a88934c449a22 } } } } else { if i < 21 { if i < 19 { 0x939c449ca224e31127088937c449ba2 } else { if i < 20 { 0x93cc449e2224ef112768893ac449d22 } else { 0x93fc449fa224fb1127c8893dc449ea2 } } } else { if i < 22 { 0x942c44a12225071128288940c44a022 } else { if i < 23 { 0x945c44a2a225131128888943c44a1a2 } else { 0x948c44a422251f1128e88946c44a322 } } } } }
pub open spec fn U_var_v_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x94bc44a5a2252b1129488949c44a4a2 } else { if i < 26 { 0x94ec44a72225371129a8894cc44a622 } else { 0x951c44a8a22543112a08894fc44a7a2 } } } else { if i < 28 { 0x954c44aa22254f112a688952c44a922 } else { if i < 29 { 0x957c44aba2255b112ac88955c44aaa2 } else { 0x95ac44ad222567112b288958c44ac22 } } } } else { if i < 33 { if i < 31 { 0x95dc44aea22573112b88895bc44ada2 } else { if i < 32 { 0x960c44b022257f112be8895ec44af22 } else { 0x963c44b1a2258b112c488961c44b0a2 } } } else { if i < 34 { 0x966c44b3222597112ca88964c44b222 } else { if i < 35 { 0x969c44b4a225a3112d088967c44b3a2 } else { 0x96cc44b62225af112d68896ac44b522 } } } } }
pub open spec fn U_var_v_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x96fc44b7a225bb112dc8896dc44b6a2 } else { if i < 38 { 0x972c44b92225c7112e288970c44b822 } else { 0x975c44baa225d3112e888973c44b9a2 } } } else { if i < 40 { 0x978c44bc2225df112ee88976c44bb22 } else { if i < 41 { 0x97bc44bda225eb112f488979c44bca2 } else { 0x97ec44bf2225f7112fa8897cc44be22 } } } } else { if i < 45 { if i < 43 { 0x981c44c0a22603113008897fc44bfa2 } else { if i < 44 { 0x984c44c222260f1130688982c44c122 } else { 0x987c44c3a2261b1130c88985c44c2a2 } } } else { if i < 46 { 0x98ac44c52226271131288988c44c422 } else { if i < 47 { 0x98dc44c6a22633113188898bc44c5a2 } else { 0x990c44c822263f1131e8898ec44c722 } } } } }
pub open spec fn U_var_v_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x993c44c9a2264b1132488991c44c8a2 } else { if i < 50 { 0x996c44cb2226571132a88994c44ca22 } else { 0x999c44cca226631133088997c44cba2 } } } else { if i < 52 { 0x99cc44ce22266f113368899ac44cd22 } else { if i < 53 { 0x99fc44cfa2267b1133c8899dc44cea2 } else { 0x9a2c44d122268711342889a0c44d022 } } } } else { if i < 57 { if i < 55 { 0x9a5c44d2a2269311348889a3c44d1a2 } else { if i < 56 { 0x9a8c44d422269f1134e889a6c44d322 } else { 0x9abc44d5a226ab11354889a9c44d4a2 } } } else { if i < 58 { 0x9aec44d72226b71135a889acc44d622 } else { if i < 59 { 0x9b1c44d8a226c311360889afc44d7a2 } else { 0x9b4c44da2226cf11366889b2c44d922 } } } } }
pub open spec fn U_var_v_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x9b7c44dba226db1136c889b5c44daa2 } else { if i < 62 { 0x9bac44dd2226e711372889b8c44dc22 } else { 0x9bdc44dea226f311378889bbc44dda2 } } } else { if i < 64 { 0x9c0c44e02226ff1137e889bec44df22 } else { if i < 65 { 0x9c3c44e1a2270b11384889c1c44e0a2 } else { 0x9c6c44e32227171138a889c4c44e222 } } } } else { if i < 69 { if i < 67 { 0x9c9c44e4a2272311390889c7c44e3a2 } else { if i < 68 { 0x9ccc44e622272f11396889cac44e522 } else { 0x9cfc44e7a2273b1139c889cdc44e6a2 } } } else { if i < 70 { 0x9d2c44e9222747113a2889d0c44e822 } else { if i < 71 { 0x9d5c44eaa22753113a8889d3c44e9a2 } else { 0x9d8c44ec22275f113ae889d6c44eb22 } } } } }
pub open spec fn U_var_v_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x9dbc44eda2276b113b4889d9c44eca2 } else { if i < 74 { 0x9dec44ef222777113ba889dcc44ee22 } else { 0x9e1c44f0a22783113c0889dfc44efa2 } } } else { if i < 76 { 0x9e4c44f222278f113c6889e2c44f122 } else { if i < 77 { 0x9e7c44f3a2279b113cc889e5c44f2a2 } else { 0x9eac44f52227a7113d2889e8c44f422 } } } } else { if i < 81 { if i < 79 { 0x9edc44f6a227b3113d8889ebc44f5a2 } else { if i < 80 { 0x9f0c44f82227bf113de889eec44f722 } else { 0x9f3c44f9a227cb113e4889f1c44f8a2 } } } else { if i < 82 { 0x9f6c44fb2227d7113ea889f4c44fa22 } else { if i < 83 { 0x9f9c44fca227e3113f0889f7c44fba2 } else { 0x9fcc44fe2227ef113f6889fac44fd22 } } } } }
pub open spec fn U_var_v_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x9ffc44ffa227fb113fc889fdc44fea2 } else { if i < 86 { 0xa02c45012228071140288a00c450022 } else { 0xa05c4502a228131140888a03c4501a2 } } } else { if i < 88 { 0xa08c450422281f1140e88a06c450322 } else { if i < 89 { 0xa0bc4505a2282b1141488a09c4504a2 } else { 0xa0ec45072228371141a88a0cc450622 } } } } else { if i < 93 { if i < 91 { 0xa11c4508a228431142088a0fc4507a2 } else { if i < 92 { 0xa14c450a22284f1142688a12c450922 } else { 0xa17c450ba2285b1142c88a15c450aa2 } } } else { if i < 94 { 0xa1ac450d2228671143288a18c450c22 } else { if i < 95 { 0xa1dc450ea228731143888a1bc450da2 } else { 0xa20c451022287f1143e88a1ec450f22 } } } } }
pub open spec fn U_var_v_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0xa23c4511a2288b1144488a21c4510a2 } else { if i < 98 { 0xa26c45132228971144a88a24c451222 } else { 0xa29c4514a228a31145088a27c4513a2 } } } else { if i < 100 { 0xa2cc45162228af1145688a2ac451522 } else { if i < 101 { 0xa2fc4517a228bb1145c88a2dc4516a2 } else { 0xa32c45192228c71146288a30c451822 } } } } else { if i < 105 { if i < 103 { 0xa35c451aa228d31146888a33c4519a2 } else { if i < 104 { 0xa38c451c2228df1146e88a36c451b22 } else { 0xa3bc451da228eb1147488a39c451ca2 } } } else { if i < 106 { 0xa3ec451f2228f71147a88a3cc451e22 } else { if i < 107 { 0xa41c4520a229031148088a3fc451fa2 } else { 0xa44c452222290f1148688a42c452122 } } } } }
pub open spec fn U_var_v_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0xa47c4523a2291b1148c88a45c4522a2 } else { if i < 110 { 0xa4ac45252229271149288a48c452422 } else { 0xa4dc4526a229331149888a4bc4525a2 } } } else { if i < 112 { 0xa50c452822293f1149e88a4ec452722 } else { if i < 113 { 0xa53c4529a2294b114a488a51c4528a2 } else { 0xa56c452b222957114aa88a54c452a22 } } } } else { if i < 117 { if i < 115 { 0xa59c452ca22963114b088a57c452ba2 } else { if i < 116 { 0xa5cc452e22296f114b688a5ac452d22 } else { 0xa5fc452fa2297b114bc88a5dc452ea2 } } } else { if i < 118 { 0xa62c4531222987114c288a60c453022 } else { if i < 119 { 0xa65c4532a22993114c888a63c4531a2 } else { 0xa68c453422299f114ce88a66c453322 } } } } }
pub open spec fn U_var_v_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0xa6bc4535a229ab114d488a69c4534a2 } else { if i < 122 { 0xa6ec45372229b7114da88a6cc453622 } else { 0xa71c4538a229c3114e088a6fc4537a2 } } } else { if i < 124 { 0xa74c453a2229cf114e688a72c453922 } else { if i < 125 { 0xa77c453ba229db114ec88a75c453aa2 } else { 0xa7ac453d2229e7114f288a78c453c22 } } } } else { if i < 129 { if i < 127 { 0xa7dc453ea229f3114f888a7bc453da2 } else { if i < 128 { 0xa80c45402229ff114fe88a7ec453f22 } else { 0xa83c4541a22a0b1150488a81c4540a2 } } } else { if i < 130 { 0xa86c4543222a171150a88a84c454222 } else { if i < 131 { 0xa89c4544a22a231151088a87c4543a2 } else { 0xa8cc4546222a2f1151688a8ac454522 } } } } }
pub open spec fn U_var_v_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0xa8fc4547a22a3b1151c88a8dc4546a2 } else { if i < 134 { 0xa92c4549222a471152288a90c454822 } else { 0xa95c454aa22a531152888a93c4549a2 } } } else { if i < 136 { 0xa98c454c222a5f1152e88a96c454b22 } else { if i < 137 { 0xa9bc454da22a6b1153488a99c454ca2 } else { 0xa9ec454f222a771153a88a9cc454e22 } } } } else { if i < 141 { if i < 139 { 0xaa1c4550a22a831154088a9fc454fa2 } else { if i < 140 { 0xaa4c4552222a8f1154688aa2c455122 } else { 0xaa7c4553a22a9b1154c88aa5c4552a2 } } } else { if i < 142 { 0xaaac4555222aa71155288aa8c455422 } else { if i < 143 { 0xaadc4556a22ab31155888aabc4555a2 } else { 0xab0c4558222abf1155e88aaec455722 } } } } }
pub open spec fn U_var_v_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_var_v_p_0_0(i) } else { if i < 24 { U_var_v_p_0_1(i) } else { U_var_v_p_0_2(i) } } } else { if i < 48 { U_var_v_p_0_3(i) } else { if i < 60 { U_var_v_p_0_4(i) } else { U_var_v_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_var_v_p_0_6(i) } else { if i < 96 { U_var_v_p_0_7(i) } else { U_var_v_p_0_8(i) } } } else { if i < 120 { U_var_v_p_0_9(i) } else { if i < 132 { U_var_v_p_0_10(i) } else { U_var_v_p_0_11(i) } } } } }
pub open spec fn U_var_v_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0xab3c4559a22acb1156488ab1c4558a2 } else { if i < 146 { 0xab6c455b222ad71156a88ab4c455a22 } else { 0xab9c455ca22ae31157088ab7c455ba2 } } } else { if i < 148 { 0xabcc455e222aef1157688abac455d22 } else { if i < 149 { 0xabfc455fa22afb1157c88abdc455ea2 } else { 0xac2c4561222b071158288ac0c456022 } } } } else { if i < 153 { if i < 151 { 0xac5c4562a22b131158888ac3c4561a2 } else { if i < 152 { 0xac8c4564222b1f1158e88ac6c456322 } else { 0xacbc4565a22b2b1159488ac9c4564a2 } } } else { if i < 154 { 0xacec4567222b371159a88accc456622 } else { if i < 155 { 0xad1c4568a22b43115a088acfc4567a2 } else { 0xad4c456a222b4f115a688ad2c456922 } } } } }
pub open spec fn U_var_v_p_1_1(i: int) -> int { if i < 161 { if i < 158 { if i < 157 { 0xad7c456ba22b5b115ac88ad5c456aa2 } else { 0xadac456d222b67115b288ad8c456c22 } } else { if i < 159 { 0xaddc456ea22b73115b888adbc456da2 } else { if i < 160 { 0xae0c4570222b7f115be88adec456f22 } else { 0xae3c4571a22b8b115c488ae1c4570a2 } } } } else { if i < 164 { if i < 162 { 0xae6c4573222b97115ca88ae4c457222 } else { if i < 163 { 0xae9c4574a22ba3115d088ae7c4573a2 } else { 0xaecc4576222baf115d688aeac457522 } } } else { if i < 165 { 0xaefc4577a22bbb115dc88aedc4576a2 } else { if i < 166 { 0xaf2c4579222bc7115e288af0c457822 } else { 0xaf5c457aa22bd3115e888af3c4579a2 } } } } }
pub open spec fn U_var_v_p_1(i: int) -> int { if i < 156 { U_var_v_p_1_0(i) } else { U_var_v_p_1_1(i) } }
pub open spec fn U_var_v_p(i: int) -> int { if i < 144 { U_var_v_p_0(i) } else { U_var_v_p_1(i) } }
pub open spec fn U_var_v(i: int) -> int { unpack21(U_var_v_p(i / 6), i % 6) }
pub open spec fn U_codes_p_0_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x60400041001808001040060000041 } else { if i < 2 { 0x61400041001840001040060600041 } else { 0x60200045001800001140064e00043 } } } else { if i < 4 { 0x60000049001840001140060400045 } else { if i < 5 { 0x61000049001810001240060200049 } else { 0x6020004f0018000013c006060004e } } } } else { if i < 9 { if i < 7 { 0x6100004f0018180013c006040004f } else { if i < 8 { 0x60400055001808001540060000055 } else { 0x60000061001808001640061000055 } } } else { if i < 10 { 0x60600061001810001840060200061 } else { if i < 11 { 0x64e00063001850001840061000061 } else { 0x60400065001808001940060000065 } } } } }
pub open spec fn U_codes_p_0_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x60200069001800001a40061000065 } else { if i < 14 { 0x6060006e001840001a40060400069 } else { 0x6040006f001808001bc006000006f } } } else { if i < 16 { 0x60000075001840001bc006060006f } else { if i < 17 { 0x61000075001810001d40060200075 } else { 0x60800041001840001e40060200079 } } } } else { if i < 21 { if i < 19 { 0x60c00061001830001040060800061 } else { if i < 20 { 0x60200043001940001840065000041 } else { 0x604000630018100010c0060200063 } } } else { if i < 22 { 0x618000430018380018c0060e00043 } else { if i < 23 { 0x61800064001860001100061800063 } else { 0x60c00045001820001940060800045 } } } } }
pub open spec fn U_codes_p_0_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x60e00065001838001140060c00065 } else { if i < 26 { 0x61800045001940001940065000045 } else { 0x604000670018100011c0061800065 } } } else { if i < 28 { 0x60e000470018300019c0060c00047 } else { if i < 29 { 0x64e000670019380011c0060e00067 } else { 0x60600049001810001a00060400048 } } } } else { if i < 33 { if i < 31 { 0x60800069001820001240060600069 } else { if i < 32 { 0x65000049001830001a40060c00049 } else { 0x6040004a001838001240065000069 } } } else { if i < 34 { 0x64e0006b0019380012c006040006a } else { if i < 35 { 0x64e0004c001808001b0006020004c } else { 0x6180006c001860001300064e0006c } } } } }
pub open spec fn U_codes_p_0_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x64e0004e001808001b8006020004e } else { if i < 38 { 0x6180006e001860001380064e0006e } else { 0x60c0004f001820001bc006080004f } } } else { if i < 40 { 0x6160006f0018580013c0060c0006f } else { if i < 41 { 0x64e00052001808001c80060200052 } else { 0x61800072001860001480064e00072 } } } } else { if i < 45 { if i < 43 { 0x60400053001808001cc0060200053 } else { if i < 44 { 0x64e000730019380014c0060400073 } else { 0x64e00054001860001cc0061800053 } } } else { if i < 46 { 0x61800074001860001500064e00074 } else { if i < 47 { 0x60800055001818001d40060600055 } else { 0x60c00075001830001540060800075 } } } } }
pub open spec fn U_codes_p_0_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x61600055001850001d40061400055 } else { if i < 50 { 0x65000075001940001540061600075 } else { 0x60400059001810001dc0060400057 } } } else { if i < 52 { 0x6020005a001840001640060400079 } else { if i < 53 { 0x60e0007a00183800168006020007a } else { 0x6360004f001860001e8006180005a } } } } else { if i < 57 { if i < 55 { 0x636000750018d800154006360006f } else { if i < 56 { 0x61800049001860001840061800041 } else { 0x6180006f0018600013c0061800069 } } } else { if i < 58 { 0x61000055001860001d40061800055 } else { if i < 59 { 0x6100005500182000c20000ea00304 } else { 0x6100005500180800c20000ea00301 } } } } }
pub open spec fn U_codes_p_0_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x6100005500186000c20000ea0030c } else { if i < 62 { 0x6100004100180000c20000ea00300 } else { 0x60e0004100182000c20000c200304 } } } else { if i < 64 { 0x608000c600182000c1c000c200304 } else { if i < 65 { 0x618000670018600011c00608000e6 } else { 0x6500004f001860001ac006180004b } } } } else { if i < 69 { if i < 67 { 0xde003040019400013c006500006f } else { if i < 68 { 0x61800292001860006dc0060800328 } else { 0x602000670018080011c006180006a } } } else { if i < 70 { 0x61400041001800001b8006000004e } else { if i < 71 { 0x602000c600180800c28000c200301 } else { 0x602000f80018080036000602000e6 } } } } }
pub open spec fn U_codes_p_0_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x62200041001878001840061e00041 } else { if i < 74 { 0x61e00065001878001140062200061 } else { 0x61e00049001888001940062200045 } } } else { if i < 76 { 0x62200069001888001240061e00069 } else { if i < 77 { 0x6220004f001878001bc0061e0004f } else { 0x61e0007200187800148006220006f } } } } else { if i < 81 { if i < 79 { 0x61e00055001888001c80062200052 } else { if i < 80 { 0x62200075001888001540061e00075 } else { 0x64c00054001930001cc0064c00053 } } } else { if i < 82 { 0x61800068001860001200064c00074 } else { if i < 83 { 0x64e00045001838001840060e00041 } else { 0xde003040018400013c0064e00065 } } } } }
pub open spec fn U_codes_p_0_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0xde003040018180013c0060800308 } else { if i < 86 { 0x60e0006f0018380013c0060800303 } else { 0x6080030700037800c100060e0004f } } } else { if i < 88 { 0x60200300001820001e40060800059 } else { if i < 89 { 0x1500003b0015c800c040061000313 } else { 0x602003950005b800c040072200301 } } } } else { if i < 93 { if i < 91 { 0x6020039f00180800e640060200397 } else { if i < 92 { 0x610003b900180800ea400602003a5 } else { 0x76200308001d2800c200073200301 } } } else { if i < 94 { 0x77200301001db800c040076a00301 } else { if i < 95 { 0x610003b900180800c200078a00301 } else { 0x602003c500180800efc00610003c5 } } } } }
pub open spec fn U_codes_p_0_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x610003d200180800f4800602003c9 } else { if i < 98 { 0x60200413001840010540060000415 } else { 0x60000418001808010680061000406 } } } else { if i < 100 { 0x60c00438001830010600060c00423 } else { if i < 101 { 0x60200433001840010d40060000435 } else { 0x60000438001808010e80061000456 } } } } else { if i < 105 { if i < 103 { 0x61e00475001878011d00060c00443 } else { if i < 104 { 0x60c00410001830010d80060c00416 } else { 0x61000430001840010400060c00430 } } } else { if i < 106 { 0x610004d8001830010d40060c00415 } else { if i < 107 { 0x610004360018400105800610004d9 } else { 0x60800418001840010dc0061000417 } } } } }
pub open spec fn U_codes_p_0_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x61000438001840010600060800438 } else { if i < 110 { 0x610004e8001840010f8006100041e } else { 0x6100044d001840010b400610004e9 } } } else { if i < 112 { 0x610004230018200110c0060800423 } else { if i < 113 { 0x616004430018580108c0061000443 } else { 0x6100042b0018400111c0061000427 } } } } else { if i < 117 { if i < 115 { 0xca8006270032980189c006100044b } else { if i < 116 { 0xca80064a0032a80189c00ca800648 } else { 0xca8006d20032a001b0400ca8006d5 } } } else { if i < 118 { 0x1278009330049e0024c00127800928 } else { if i < 119 { 0x1278009170049e0024580127800915 } else { 0x1278009220049e002484012780091c } } } } }
pub open spec fn U_codes_p_0_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x137c009c70049e0024bc012780092b } else { if i < 122 { 0x1378009a2004de002684013ae009c7 } else { 0x147800a380051e0028c801378009af } } } else { if i < 124 { 0x147800a1c0051e00285c0147800a16 } else { if i < 125 { 0x167c00b47005ab002d1c0147800a2b } else { 0x167800b220059e002c84016ae00b47 } } } } else { if i < 129 { if i < 127 { 0x177c00bc7005df002f18017ae00b92 } else { if i < 128 { 0x19aa00cbf0062b003118017ae00bc6 } else { 0x198400cc60066b003318019aa00cc6 } } } else { if i < 130 { 0x1a8e00d3e006a30033540198400cc6 } else { if i < 131 { 0x1bb200dca006ec80355c01a8c00d3e } else { 0x1bbe00dd9006e500373c01bb200dcf } } } } }
pub open spec fn U_codes_p_0_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x1f6e00f51007db803d3001f6e00f42 } else { if i < 134 { 0x1f6a00f40007db803d6c01f6e00f56 } else { 0x1f0000fb2007ba003dc401ee400f71 } } } else { if i < 136 { 0x1f6e00f92007c0003dc401f0000fb3 } else { if i < 137 { 0x1f6e00fa6007db803e8401f6e00f9c } else { 0x205c01025007da803e4001f6e00fab } } } } else { if i < 141 { if i < 139 { 0x366a01b0900d9a806c1c0366a01b05 } else { if i < 140 { 0x366a01b1100d9a806c340366a01b0b } else { 0x366a01b3e00d9a806cf00366a01b3a } } } else { if i < 142 { 0x64a0004100d9a806d080366a01b3f } else { if i < 143 { 0x60e00062001838001080064a00061 } else { 0x66200042001918001880064600042 } } } } }
pub open spec fn U_codes_p_0_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_codes_p_0_0_0(i) } else { if i < 24 { U_codes_p_0_0_1(i) } else { U_codes_p_0_0_2(i) } } } else { if i < 48 { U_codes_p_0_0_3(i) } else { if i < 60 { U_codes_p_0_0_4(i) } else { U_codes_p_0_0_5(i) } } } } else { if i < 108 { if i < 84 { U_codes_p_0_0_6(i) } else { if i < 96 { U_codes_p_0_0_7(i) } else { U_codes_p_0_0_8(i) } } } else { if i < 120 { U_codes_p_0_0_9(i) } else { if i < 132 { U_codes_p_0_0_10(i) } else { U_codes_p_0_0_11(i) } } } } }
pub open spec fn U_codes_p_0_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0xc6003010019380010c0066200062 } else { if i < 146 { 0x60e00064001838001100060200327 } else { 0x66200044001918001900064600044 } } } else { if i < 148 { 0x64e00064001938001100066200064 } else { if i < 149 { 0x60800045001968001900065a00044 } else { 0x6080004500180000c10000ca00300 } } } } else { if i < 153 { if i < 151 { 0x65a0004500180800c10000ca00301 } else { if i < 152 { 0x66000065001980001140065a00065 } else { 0x60c0032700032800c180064e00045 } } } else { if i < 154 { 0x60800047001838001980060e00046 } else { if i < 155 { 0x60e00068001838001200060800067 } else { 0x61000048001918001a00064600048 } } } } }
pub open spec fn U_codes_p_0_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x64e00068001938001200061000068 } else { if i < 158 { 0x66000049001970001a00065c00048 } else { 0xd200301001840001240066000069 } } } else { if i < 160 { 0x6020006b0018080012c0060200308 } else { if i < 161 { 0x6620004b001918001ac006460004b } else { 0x6460006c00191800130006620006b } } } } else { if i < 165 { if i < 163 { 0x6080032300036000c10006460004c } else { if i < 164 { 0x65a0004c001988001b0006620004c } else { 0x6020006d001808001340065a0006c } } } else { if i < 166 { 0x6460004d001838001b40060e0004d } else { if i < 167 { 0x60e0006e00183800138006460006d } else { 0x6620004e001918001b8006460004e } } } } }
pub open spec fn U_codes_p_0_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x65a0006e00196800138006620006e } else { if i < 170 { 0x6020030300037800c04006060004f } else { 0x6100030300037800c20006060004f } } } else { if i < 172 { 0x6000030400037800c00006080004f } else { if i < 173 { 0x6020030400037800c04006080004f } else { 0x60e00050001808001c00060200050 } } } } else { if i < 177 { if i < 175 { 0x60e00072001838001480060e00070 } else { if i < 176 { 0x64600052001918001c80064600052 } else { 0x6620005200182000c8c000e400304 } } } else { if i < 178 { 0x60e000730018380014c0066200072 } else { if i < 179 { 0x60200053001918001cc0064600053 } else { 0x6180005300183800c04000e600307 } } } } }
pub open spec fn U_codes_p_0_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x6460005300183800c30000e600307 } else { if i < 182 { 0x60e0005400183800c8c000e600307 } else { 0x64600074001918001500060e00074 } } } else { if i < 184 { 0x65a00054001988001d00066200054 } else { if i < 185 { 0x64800075001920001540065a00074 } else { 0x65a00055001980001d40066000055 } } } } else { if i < 189 { if i < 187 { 0xea00301001818001540065a00075 } else { if i < 188 { 0xea00308001820001540060200303 } else { 0x60600076001818001580061000304 } } } else { if i < 190 { 0x60000057001918001d80064600056 } else { if i < 191 { 0x602000770018080015c0060000077 } else { 0x60e00057001840001dc0061000057 } } } } }
pub open spec fn U_codes_p_0_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x646000770019180015c0060e00077 } else { if i < 194 { 0x61000058001838001e00060e00058 } else { 0x60e00079001838001640061000078 } } } else { if i < 196 { 0x6460005a001810001e8006040005a } else { if i < 197 { 0x6620007a00198800168006460007a } else { 0x61400077001840001d00066200068 } } } } else { if i < 201 { if i < 199 { 0x64600041001838005fc0061400079 } else { if i < 200 { 0x61200061001848001040064600061 } else { 0x6020030200030800c040060400041 } } } else { if i < 202 { 0x6000030200030800c000060400041 } else { if i < 203 { 0x6120030200030800c240060400041 } else { 0x6060030200030800c0c0060400041 } } } } }
pub open spec fn U_codes_p_0_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x6040032300030800c080064600041 } else { if i < 206 { 0x6020030600030800c040060c00041 } else { 0x6000030600030800c000060c00041 } } } else { if i < 208 { 0x6120030600030800c240060c00041 } else { if i < 209 { 0x6060030600030800c0c0060c00041 } else { 0x60c0032300030800c180064600041 } } } } else { if i < 213 { if i < 211 { 0x61200045001918001940064600045 } else { if i < 212 { 0x60600065001818001140061200065 } else { 0x6020030200032800c040060400045 } } } else { if i < 214 { 0x6000030200032800c000060400045 } else { if i < 215 { 0x6120030200032800c240060400045 } else { 0x6060030200032800c0c0060400045 } } } } }
pub open spec fn U_codes_p_0_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0x6040032300032800c080064600045 } else { if i < 218 { 0x64600049001848001a40061200049 } else { 0x6460006f0019180013c0064600069 } } } else { if i < 220 { 0x6040004f001848001bc006120004f } else { if i < 221 { 0x6040004f00180800c08000de00301 } else { 0x6040004f00180000c08000de00300 } } } } else { if i < 225 { if i < 223 { 0x6040004f00184800c08000de00309 } else { if i < 224 { 0x6460004f00181800c08000de00303 } else { 0x6360004f00181000c8c000de00302 } } } else { if i < 226 { 0x6360004f00180800c6c000de00301 } else { if i < 227 { 0x6360004f00180000c6c000de00300 } else { 0x6360004f00184800c6c000de00309 } } } } }
pub open spec fn U_codes_p_0_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x6360004f00181800c6c000de00303 } else { if i < 230 { 0x6460005500191800c6c000de00323 } else { 0x61200075001848001540064600075 } } } else { if i < 232 { 0x6020031b0003a800c040063600055 } else { if i < 233 { 0x6000031b0003a800c000063600055 } else { 0x6120031b0003a800c240063600055 } } } } else { if i < 237 { if i < 235 { 0x6060031b0003a800c0c0063600055 } else { if i < 236 { 0x6460031b0003a800c8c0063600055 } else { 0x64600059001800001e40060000059 } } } else { if i < 238 { 0x61200079001848001640064600079 } else { if i < 239 { 0x626003b1001818001e40060600059 } else { 0x7620030000189800ec400628003b1 } } } } }
pub open spec fn U_codes_p_0_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x7620030100189800ec40060000314 } else { if i < 242 { 0x7620034200189800ec40060200314 } else { 0x6280039100189800e440068400314 } } } else { if i < 244 { 0x60000314001c8800c000062600391 } else { if i < 245 { 0x60200314001c8800c040062600391 } else { 0x68400314001c8800d080062600391 } } } } else { if i < 249 { if i < 247 { 0x626003b50018a000ed400626003b5 } else { if i < 248 { 0x626003b500180000c500076a00300 } else { 0x6260039500180800c500076a00301 } } } else { if i < 250 { 0x72a0030000189800e540062800395 } else { if i < 251 { 0x72a0030100189800e540060000314 } else { 0x628003b700189800edc0060200314 } } } } }
pub open spec fn U_codes_p_0_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x60000314001db800c0000626003b7 } else { if i < 254 { 0x60200314001db800c0400626003b7 } else { 0x68400314001db800d0800626003b7 } } } else { if i < 256 { 0x626003970018a000e5c0062600397 } else { if i < 257 { 0x6260039700180000c500072e00300 } else { 0x6260039700180800c500072e00301 } } } } else { if i < 261 { if i < 259 { 0x626003b9001a1000c500072e00342 } else { if i < 260 { 0x7720030000189800ee400628003b9 } else { 0x7720030100189800ee40060000314 } } } else { if i < 262 { 0x7720034200189800ee40060200314 } else { if i < 263 { 0x6280039900189800e640068400314 } else { 0x60000314001cc800c000062600399 } } } } }
pub open spec fn U_codes_p_0_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x60200314001cc800c040062600399 } else { if i < 266 { 0x68400314001cc800d080062600399 } else { 0x626003bf0018a000efc00626003bf } } } else { if i < 268 { 0x626003bf00180000c500077e00300 } else { if i < 269 { 0x6260039f00180800c500077e00301 } else { 0x73e0030000189800e7c006280039f } } } } else { if i < 273 { if i < 271 { 0x73e0030100189800e7c0060000314 } else { if i < 272 { 0x628003c500189800f140060200314 } else { 0x60000314001e2800c0000626003c5 } } } else { if i < 274 { 0x60200314001e2800c0400626003c5 } else { if i < 275 { 0x68400314001e2800d0800626003c5 } else { 0x74a003000018a000e9400628003a5 } } } } }
pub open spec fn U_codes_p_0_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x792003420018a000e940060200314 } else { if i < 278 { 0x60000313001e4800c500079200313 } else { 0x60200313001e4800c0000628003c9 } } } else { if i < 280 { 0x68400313001e4800c0400628003c9 } else { if i < 281 { 0x75200313001d4800d0800628003c9 } else { 0x628003a900180000c4c0075200314 } } } } else { if i < 285 { if i < 283 { 0x628003a900180800c4c0075200300 } else { if i < 284 { 0x628003a9001a1000c4c0075200301 } else { 0x76a00301001d8800c000076200342 } } } else { if i < 286 { 0x76e00300001db800c040076a00300 } else { if i < 287 { 0x77e00301001dc800c000077200301 } else { 0x78a00300001e2800c040077e00300 } } } } }
pub open spec fn U_codes_p_0_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_codes_p_0_1_0(i) } else { if i < 168 { U_codes_p_0_1_1(i) } else { U_codes_p_0_1_2(i) } } } else { if i < 192 { U_codes_p_0_1_3(i) } else { if i < 204 { U_codes_p_0_1_4(i) } else { U_codes_p_0_1_5(i) } } } } else { if i < 252 { if i < 228 { U_codes_p_0_1_6(i) } else { if i < 240 { U_codes_p_0_1_7(i) } else { U_codes_p_0_1_8(i) } } } else { if i < 264 { U_codes_p_0_1_9(i) } else { if i < 276 { U_codes_p_0_1_10(i) } else { U_codes_p_0_1_11(i) } } } } }
pub open spec fn U_codes_p_0_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x76200301001e4800c000079200301 } else { if i < 290 { 0x762003450018a000ec40068a00313 } else { 0x60000314001d8800d140060000313 } } } else { if i < 292 { 0x7620034500180800c4c0076200345 } else { if i < 293 { 0x68400313001d8800d140060200314 } else { 0x72200345001a1000c500076200345 } } } } else { if i < 297 { if i < 295 { 0x722003450018a000e440068a00313 } else { if i < 296 { 0x60000314001c8800d140060000313 } else { 0x7220034500180800c4c0072200345 } } } else { if i < 298 { 0x68400313001c8800d140060200314 } else { if i < 299 { 0x76e00345001a1000c500072200345 } else { 0x76e003450018a000edc0068a00313 } } } } }
pub open spec fn U_codes_p_0_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x60000314001db800d140060000313 } else { if i < 302 { 0x76e0034500180800c4c0076e00345 } else { 0x68400313001db800d140060200314 } } } else { if i < 304 { 0x72e00345001a1000c500076e00345 } else { if i < 305 { 0x72e003450018a000e5c0068a00313 } else { 0x60000314001cb800d140060000313 } } } } else { if i < 309 { if i < 307 { 0x72e0034500180800c4c0072e00345 } else { if i < 308 { 0x68400313001cb800d140060200314 } else { 0x79200345001a1000c500072e00345 } } } else { if i < 310 { 0x792003450018a000f240068a00313 } else { if i < 311 { 0x60000314001e4800d140060000313 } else { 0x7920034500180800c4c0079200345 } } } } }
pub open spec fn U_codes_p_0_2_2(i: int) -> int { if i < 318 { if i < 315 { if i < 313 { 0x68400313001e4800d140060200314 } else { if i < 314 { 0x75200345001a1000c500079200345 } else { 0x752003450018a000ea40068a00313 } } } else { if i < 316 { 0x60000314001d4800d140060000313 } else { if i < 317 { 0x7520034500180800c4c0075200345 } else { 0x68400313001d4800d140060200314 } } } } else { if i < 321 { if i < 319 { 0x76200345001a1000c500075200345 } else { if i < 320 { 0x68a00300001d8800c100076200306 } else { 0x7620034500180800ec40068a003b1 } } } else { if i < 322 { 0x60c00391001a2800d080076200342 } else { if i < 323 { 0x6020039100180000e440060800391 } else { 0x76e0034200054000ee40068a00391 } } } } }
pub open spec fn U_codes_p_0_2_3(i: int) -> int { if i < 330 { if i < 327 { if i < 325 { 0x602003b7001a2800edc0068a00300 } else { if i < 326 { 0x68a00342001db800d080076e00345 } else { 0x6000039700180800e540060000395 } } } else { if i < 328 { 0x60001fbf001a2800e5c0060200397 } else { if i < 329 { 0x60c003b9001a1007efc0060201fbf } else { 0x7720030000184000ee400608003b9 } } } } else { if i < 333 { if i < 331 { 0x610003b9001a1000ee40060200308 } else { if i < 332 { 0x73200304001cc800c180073200342 } else { 0x3ffc0030000fff000c040073200300 } } } else { if i < 334 { 0x78a00306001e2800d0803ffc00301 } else { if i < 335 { 0x610003c500180000c200078a00304 } else { 0x78a00314001e0800c4c0078200301 } } } } }
pub open spec fn U_codes_p_0_2_4(i: int) -> int { if i < 342 { if i < 339 { if i < 337 { 0x60c003a5001a1000c200078a00342 } else { if i < 338 { 0x602003a500180000e9400608003a5 } else { 0x602000a8001800002a000628003a1 } } } else { if i < 340 { 0x68a003c9001a2800c000079200060 } else { if i < 341 { 0x79200342001e4800d1400602003c9 } else { 0x6020039f00180000e7c0068a00342 } } } } else { if i < 345 { if i < 343 { 0x68a003a900180800ea400600003a9 } else { if i < 344 { 0x820004b001d480800c04004000b4 } else { 0x432800338010c9000ce0043200030a } } } else { if i < 346 { 0x43a400338010ea000ce0043a000338 } else { if i < 347 { 0x44160033801104000ce00440600338 } else { 0x44780033801112800ce00444600338 } } } } }
pub open spec fn U_codes_p_0_2_5(i: int) -> int { if i < 354 { if i < 351 { if i < 349 { 0x44900033801122800ce00448600338 } else { if i < 350 { 0x449a0033801130800ce00007a00338 } else { 0x44c8003380001f000ce00007800338 } } } else { if i < 352 { 0x44e60033801139000ce0044ca00338 } else { if i < 353 { 0x44f4003380113b800ce0044ec00338 } else { 0x45060033801141000ce0044f600338 } } } } else { if i < 357 { if i < 355 { 0x45440033801143800ce00450c00338 } else { if i < 356 { 0x45560033801154800ce00455000338 } else { 0x4522003380113e800ce0044f800338 } } } else { if i < 358 { 0x45660033801159000ce00452400338 } else { if i < 359 { 0x6010003380115a800ce00456800338 } else { 0x609a0309901825800ce0055ba03009 } } } } }
pub open spec fn U_codes_p_0_2_6(i: int) -> int { if i < 366 { if i < 363 { if i < 361 { 0x60a6030990182880c2640609e03099 } else { if i < 362 { 0x60b2030990182b80c264060aa03099 } else { 0x60be030990182e80c264060b603099 } } } else { if i < 364 { 0x60cc030990183200c264060c203099 } else { if i < 365 { 0x60de030990183780c264060d003099 } else { 0x60ea0309a0183900c264060e40309a } } } } else { if i < 369 { if i < 367 { 0x60f0030990183c00c268060ea03099 } else { if i < 368 { 0x608c0309a0183d80c264060f60309a } else { 0x615a030990185580c2640613a03099 } } } else { if i < 370 { 0x6166030990185880c2640615e03099 } else { if i < 371 { 0x6172030990185b80c2640616a03099 } else { 0x617e030990185e80c2640617603099 } } } } }
pub open spec fn U_codes_p_0_2_7(i: int) -> int { if i < 378 { if i < 375 { if i < 373 { 0x618c030990186200c2640618203099 } else { if i < 374 { 0x619e030990186780c2640619003099 } else { 0x61aa0309a0186900c264061a40309a } } } else { if i < 376 { 0x61b0030990186c00c268061aa03099 } else { if i < 377 { 0x614c0309a0186d80c264061b60309a } else { 0x61e2030990187800c264061de03099 } } } } else { if i < 381 { if i < 379 { 0x11890030990187e80c264061e403099 } else { if i < 380 { 0xa7ca04e320376882332011d94066f4 } else { 0xb29005587048e881654413f3809f9c } } } else { if i < 382 { 0x111f0087ba0431f81fe140ecd2061f6 } else { if i < 383 { 0x1087a073de0386c81b46c0d4040908f } else { 0xe43606b04029ba813a08133e20916a } } } } }
pub open spec fn U_codes_p_0_2_8(i: int) -> int { if i < 390 { if i < 387 { if i < 385 { 0x112c8085cd037f581754013c3c0862d } else { if i < 386 { 0xdad40671702f6502207c103b0062c9 } else { 0xc988052de028db813e181219c072fc } } } else { if i < 388 { 0x10cb8086060400081db9c0e42006ad3 } else { if i < 389 { 0xf2fe0788c04efd026dbc12e6408def } else { 0xb1be08ad604f3f824c101079207da0 } } } } else { if i < 393 { if i < 391 { 0x11984078ca039310201f80f8c005f04 } else { if i < 392 { 0xde1e06dda035098171880b1b0096f7 } else { 0xa3b80808b0296902592c0fc6e07d2f } } } else { if i < 394 { 0x1170009675041f881f6f80f438051cc } else { if i < 395 { 0xc02405be70271c822bf80d404062cf } else { 0xbf5204fbf03c7d814c5c0eae007387 } } } } }
pub open spec fn U_codes_p_0_2_9(i: int) -> int { if i < 402 { if i < 399 { if i < 397 { 0xb0bc053c303e910195e00d99804e0d } else { if i < 398 { 0xd91008fb0035dd022aa81089207701 } else { 0xa2d204eae03ab2818e80105ca062fe } } } else { if i < 400 { 0x1239e08ad20413781f39c0d102051c9 } else { if i < 401 { 0xdffc065c502f760165cc0a884052f5 } else { 0xa53609ece04f4b8269a812b5a0792a } } } } else { if i < 405 { if i < 403 { 0xc4000619002f3a023d880d6ee066c6 } else { if i < 404 { 0xfbe8079ca03a4481c5240de460649a } else { 0xa42e0934a048118213b811e4c0806f } } } else { if i < 406 { 0xbd9208aaa0446101c3200a97a052a3 } else { if i < 407 { 0x9dc80737503e1f01aeb80c6f605ff5 } else { 0xe8d2073b20300e0176e80b7ce056f9 } } } } }
pub open spec fn U_codes_p_0_2_10(i: int) -> int { if i < 414 { if i < 411 { if i < 409 { 0x130300974804b7b0248d01008c07f9a } else { if i < 410 { 0x9d0c060e104b5c0246d00f35c04f8b } else { 0xe39c06a02032cc8170fc0b7dc050da } } } else { if i < 412 { 0x12c5c0668804fc68241f0109f807642 } else { if i < 413 { 0xe81206e9c036a0819fcc0cef605289 } else { 0xc45c0516d04c2f01f4400f0d607559 } } } } else { if i < 417 { if i < 415 { 0xbf1608f2a036f50174640a05609678 } else { if i < 416 { 0xa81e0522904b4301ce1c0d02e06144 } else { 0xe80c06ce503454019d380cc2605c65 } } } else { if i < 418 { 0x12dc4091cc0447082233c0fef2075e2 } else { if i < 419 { 0x10bf407498038e80150740dd740533f } else { 0x103d006dcb033cb827a7c138ae096a3 } } } } }
pub open spec fn U_codes_p_0_2_11(i: int) -> int { if i < 426 { if i < 423 { if i < 421 { 0x116b0070990396001f2480f64007acb } else { if i < 422 { 0xc5a605ea6029038148e81066c04ec0 } else { 0x1109808f3b0335a01b4780b70a07cd6 } } } else { if i < 424 { 0xb0b4055c0028a0017b4c113160964d } else { if i < 425 { 0xf2bc0793c03b6501cca80a3bc06674 } else { 0x10c2407fbd03e5f025d580f31e07965 } } } } else { if i < 429 { if i < 427 { 0x13250098fc04c778243f41207008af8 } else { if i < 428 { 0xa29a050e7027d7025adc121bc09db4 } else { 0xacd00560602ace814d440a5c8052c9 } } } else { if i < 430 { 0xc2d00609402e370171900b15005840 } else { if i < 431 { 0xd10a06691032f101953c0c3e40618e } else { 0xe8440722b038b701bc880dc3406d77 } } } } }
pub open spec fn U_codes_p_0_2(i: int) -> int { if i < 360 { if i < 324 { if i < 300 { U_codes_p_0_2_0(i) } else { if i < 312 { U_codes_p_0_2_1(i) } else { U_codes_p_0_2_2(i) } } } else { if i < 336 { U_codes_p_0_2_3(i) } else { if i < 348 { U_codes_p_0_2_4(i) } else { U_codes_p_0_2_5(i) } } } } else { if i < 396 { if i < 372 { U_codes_p_0_2_6(i) } else { if i < 384 { U_codes_p_0_2_7(i) } else { U_codes_p_0_2_8(i) } } } else { if i < 408 { U_codes_p_0_2_9(i) } else { if i < 420 { U_codes_p_0_2_10(i) } else { U_codes_p_0_2_11(i) } } } } }
pub open spec fn U_codes_p_0_3_0(i: int) -> int { if i < 438 { if i < 435 { if i < 433 { 0xf2ac0795003ca401e5240f27c07891 } else { if i < 434 { 0xf78007a8103d2001e6380f31a0795d } else { 0x103da0800503fb901f9040fc1207df4 } } } else { if i < 436 { 0x11602089960448802115c104f208279 } else { if i < 437 { 0x12dc609038047db023420119a608b39 } else { 0x9c4c08218121770181d413076097ff } } } } else { if i < 441 { if i < 439 { 0xa58e05180028a2813e000a2d0051b5 } else { if i < 440 { 0xb0b4055e202acc8155540ab3a052fa } else { 0xbda405b2802d310165500b288058b3 } } } else { if i < 442 { 0xc2100614e0306c017eb40bed205ed9 } else { if i < 443 { 0xc838063c40311a0187c80c2c00618e } else { 0xceac0671b0338b8199d00caac06452 } } } } }
pub open spec fn U_codes_p_0_3_1(i: int) -> int { if i < 450 { if i < 447 { if i < 445 { 0xde4406ecb0376d81b5040d77406b79 } else { if i < 446 { 0xe654072af0391a81de9c0e2dc0701e } else { 0xed940761f03b0e81d4ec0ea0c07471 } } } else { if i < 448 { 0xf562078cc03ba001dd280ede8076db } else { if i < 449 { 0x1000a07f3e03efa01f56c0f8f607bc0 } else { 0x1132c08986044a0821de4107de08352 } } } } else { if i < 453 { if i < 451 { 0x115da08afe04580822b2c115f008abf } else { if i < 452 { 0x12332090720479c0234201171408b39 } else { 0x12ffe097db04bab025b8c12cf809276 } } } else { if i < 454 { 0x450882284a04fce026c48130760980b } else { if i < 455 { 0x4b9a0252490201c8100600773a233d5 } else { 0xbe4005b4002ec827e3813e8627ed3 } } } } }
pub open spec fn U_codes_p_0_3_2(i: int) -> int { if i < 462 { if i < 459 { if i < 457 { 0xbd2005c2002f480170400bd2005b7 } else { if i < 458 { 0xba0005c2002de0017a400b82005bc } else { 0xba2005bc002e80016e000ba0005b7 } } } else { if i < 460 { 0xba8005bc002e98016f000ba4005bc } else { if i < 461 { 0xbb0005bc002eb0016f000baa005bc } else { 0xbb6005bc002ed0016f000bb2005bc } } } } else { if i < 465 { if i < 463 { 0xbc0005bc002ef0016f000bb8005bc } else { if i < 464 { 0xbc8005bc002f18016f000bc2005bc } else { 0xbd0005bc002f38016f000bcc005bc } } } else { if i < 466 { 0xbaa005bc002f50016f000bd2005bc } else { if i < 467 { 0xbc8005bf002ed8016fc00ba2005b9 } else { 0x2213200307082ed000c1c20ba4005bf } } } } }
pub open spec fn U_codes_p_0_3_3(i: int) -> int { if i < 474 { if i < 471 { if i < 469 { 0x22262110ba088528442e822136110ba } else { if i < 470 { 0x2268e1133e089a384449c2226411127 } else { 0x22716113bb089c2044f242270411357 } } } else { if i < 472 { 0x22784113c2089e1044f2422720113c2 } else { if i < 473 { 0x22972114ba08a5c844f2422784113b8 } else { 0x22b72115af08adc0452f422972114b0 } } } } else { if i < 477 { if i < 475 { 0x2c23c1611e0b08f0464c02326a115af } else { if i < 476 { 0x2c23c1611f0b09485847c2c23c16129 } else { 0x2c2521611e0b08f8584782c23c16120 } } } else { if i < 478 { 0x2dace16d670b0900584782c23c1611f } else { if i < 479 { 0x3a2ae16d670b6b385b58c2dace16d63 } else { 0x3a2dc1d1650e8ac0745943a2b01d165 } } } } }
pub open spec fn U_codes_p_0_3_4(i: int) -> int { if i < 486 { if i < 483 { if i < 481 { 0x3a2e01d1650e8ac0745bc3a2ca1d158 } else { if i < 482 { 0x3a2e41d1650e8ac0745c43a2ca1d158 } else { 0x3a2ca1d1b90e8b28746e83a2ca1d1b9 } } } else { if i < 484 { 0x3a2ca1d1b90e8b70745943a3741d16e } else { if i < 485 { 0x9c7004e3d0e8b78745943a3741d16f } else { 0xa00404fbb027d7013d804024404e41 } } } } else { if i < 489 { if i < 487 { 0x40c740349e0286781439c0a1320507a } else { if i < 488 { 0x69722051c028bb8145900a2a80514d } else { 0x9d98051a4028cb88152c0a31a05167 } } } else { if i < 490 { 0x69be05203028fa8a477c0a36a051ac } else { if i < 491 { 0xa58e035150293b8149c80a48c0523b } else { 0xa62e0530602982814be80a5c8052c9 } } } } }
pub open spec fn U_codes_p_0_3_5(i: int) -> int { if i < 498 { if i < 495 { if i < 493 { 0xa6fe0537d029b9814d680a6a205349 } else { if i < 494 { 0xa7be053ca038380828b00a6fe0537f } else { 0xa8700549e02a03014fc40a7d620b63 } } } else { if i < 496 { 0xaaa60551002a7b0152880a8d005448 } else { if i < 497 { 0xab66055ab02acc8156100ab0805563 } else { 0xace80565102b8b8158180ae2c055c2 } } } } else { if i < 501 { if i < 499 { 0xaf160580d02bfa015f380b1dc05207 } else { if i < 500 { 0xb1ee058f210a720162b00b06205832 } else { 0x42dd4216a802cb10164880b23405906 } } } else { if i < 502 { 0x6ddc05a6602cec01689c0b436059ec } else { if i < 503 { 0xb786219c802d9f016cf80b610036fc } else { 0xb80c05bff10d8c016fcc0b7ce05bd8 } } } } }
pub open spec fn U_codes_p_0_3_6(i: int) -> int { if i < 510 { if i < 507 { if i < 505 { 0xb98005c6e02e3000de040b84405f53 } else { if i < 506 { 0xbad605d6e10ef301750c43bc805c8d } else { 0xbc5005dfd01c178177880bbc205d7c } } } else { if i < 508 { 0xbd600387c110c180e1880bcd205e3d } else { if i < 509 { 0x4466205efe151c9017b280bd6c05eb3 } else { 0x46570038c702f91017c881040222331 } } } } else { if i < 513 { if i < 511 { 0xbf9a05f9a01c71817dac0bec4261da } else { if i < 512 { 0xc1280391c01c9d0182040bff205fd7 } else { 0xc2980614e030a60185200c18e226d4 } } } else { if i < 514 { 0xc3bc061af030d20186c80c31c0617a } else { if i < 515 { 0xc5620625d0310d8188400c3ec061f2 } else { 0xc6d0062fc0319e88ac300c6a0062d4 } } } } }
pub open spec fn U_codes_p_0_3_7(i: int) -> int { if i < 522 { if i < 519 { if i < 517 { 0xc752063c50321108afc40c7c806383 } else { if i < 518 { 0x74d8064770324e8191f80c8d203a2e } else { 0xcc92066f8032f188c0280cad80654f } } } else { if i < 520 { 0xa32a0519201d7200ec200cd2203b19 } else { if i < 521 { 0xce3606717021ec8202b40cd3806700 } else { 0xcff403b49119e1819d4c0cebc06721 } } } } else { if i < 525 { if i < 523 { 0xd03e0688e11a3681a2140d0a406785 } else { if i < 524 { 0xd550069ea034d181a5080773a06914 } else { 0xd6a8238a70359080f0600d5b6236a3 } } } else { if i < 526 { 0x4751a06bbb035dd01ae7c0d6e403c4e } else { if i < 527 { 0xd99a06cbf11e5e01b138475f421d0b } else { 0xdad206d41036bb81b4f80da2c06c67 } } } } }
pub open spec fn U_codes_p_0_3_8(i: int) -> int { if i < 534 { if i < 531 { if i < 529 { 0xdcdc06e2f0369a08f4780db0a06d78 } else { if i < 530 { 0xdedc06df911f6881bb1c0dd9603d33 } else { 0xe0360701e0381c81bf1847f1c23f5e } } } else { if i < 532 { 0x40a4a070ad0383b81c1f40e09403d96 } else { if i < 533 { 0xe46a07228121d581c670484c607145 } else { 0x49028247350394a81ca0048c1007250 } } } } else { if i < 537 { if i < 535 { 0x7d7003eb8039d280fab00e7160737a } else { if i < 536 { 0x7e36074ca03a4281d1c40e8b807447 } else { 0x4433e075701264901d4f84986c07524 } } } else { if i < 538 { 0x801003ffc12822093ee049f4207610 } else { if i < 539 { 0xee3c251331288c8943c84a1e6076f4 } else { 0x808c0778b0201c81dd280ee3e0771f } } } } }
pub open spec fn U_codes_p_0_3_9(i: int) -> int { if i < 546 { if i < 543 { if i < 541 { 0x81c6078cc03c4601e1384a83a04096 } else { if i < 542 { 0xf3d60798f12b62895a680f2ac25626 } else { 0x4b54e2597c03d2781e9280f4800412f } } } else { if i < 544 { 0xf79207bc612dd58108080f5dc25aa7 } else { if i < 545 { 0xf9c607ce80215001f3484b90004227 } else { 0xfc0407dc70218081f58c4bf0c07d00 } } } } else { if i < 549 { if i < 547 { 0x4c5b204359131238988a00866807e45 } else { if i < 548 { 0x4c9b40800503ffd01fe544c67c07f7a } else { 0x87aa2335f040380996a0100c026523 } } } else { if i < 550 { 0x4cf4e05ab50409f01102c10206080b2 } else { if i < 551 { 0x11f3c082040410088ce7046726267b5 } else { 0x10562052b30414e820a2c105220446b } } } } }
pub open spec fn U_codes_p_0_3_10(i: int) -> int { if i < 558 { if i < 555 { if i < 553 { 0x1063a082e51359e020b981057a082b3 } else { if i < 554 { 0x108ae083e7041de820c8c1075a08363 } else { 0x4dad626c36041ee020f301079408353 } } } else { if i < 556 { 0x4e79408516042798213c408a5626cd5 } else { if i < 557 { 0x4e1a426fb1022b08115744de5808564 } else { 0x10d52086690433382197010ca00456b } } } } else { if i < 561 { if i < 559 { 0x10ed608728043bc821b8810e1c08688 } else { if i < 560 { 0x110c0045f904400821f8408bae08786 } else { 0x111f4046350446f02235c4ecce08863 } } } else { if i < 562 { 0x11540046c70235f09e5984f15c034bb } else { if i < 563 { 0x1198208cab13e540231541171408aed } else { 0x11b7808dcb1040209fcbc11aee08d1b } } } } }
pub open spec fn U_codes_p_0_3_11(i: int) -> int { if i < 570 { if i < 567 { if i < 565 { 0x50bda285d20479c023b50411bc08df0 } else { if i < 566 { 0x124700911b14397024444121e209094 } else { 0x517f409415049fc8249f0125b0092d7 } } } else { if i < 568 { 0x12d86049e6146bb8256dc0932a0958b } else { if i < 569 { 0x94ec04a6e1490d0a451412e4605db2 } else { 0x130160980b14a4b012ac852814097e0 } } } } else { if i < 573 { if i < 571 { 0x1334e099290259982638852b6c09829 } else { if i < 572 { 0x1388009b1214d98012f38133fc099c2 } else { 0x99f02a0ce04eb38133b40999c09cfd } } } else { if i < 574 { 0x13df204d5604f5d8a8a445441c2a105 } else { if i < 575 { 0x54c0009f3b04f8b027c3c13e0a09efe } else { 0x6080002000030800c200004000020 } } } } }
pub open spec fn U_codes_p_0_3(i: int) -> int { if i < 504 { if i < 468 { if i < 444 { U_codes_p_0_3_0(i) } else { if i < 456 { U_codes_p_0_3_1(i) } else { U_codes_p_0_3_2(i) } } } else { if i < 480 { U_codes_p_0_3_3(i) } else { if i < 492 { U_codes_p_0_3_4(i) } else { U_codes_p_0_3_5(i) } } } } else { if i < 540 { if i < 516 { U_codes_p_0_3_6(i) } else { if i < 528 { U_codes_p_0_3_7(i) } else { U_codes_p_0_3_8(i) } } } else { if i < 552 { U_codes_p_0_3_9(i) } else { if i < 564 { U_codes_p_0_3_10(i) } else { U_codes_p_0_3_11(i) } } } } }
pub open spec fn U_codes_p_0_4_0(i: int) -> int { if i < 582 { if i < 579 { if i < 577 { 0x40003bc001808000800006600032 } else { if i < 578 { 0x6802044000188001bc0006200327 } else { 0x6802044000198000c80408800031 } } } else { if i < 580 { 0x16e0004c000350001a40009400049 } else { if i < 581 { 0x880007300037000af00016e0006c } else { 0xc80030c0003d000110006180005a } } } } else { if i < 585 { if i < 583 { 0xd40004c00025000130006180007a } else { if i < 584 { 0xd40004e00025000138000d40006c } else { 0xf4000440002d000110000d40006e } } } else { if i < 586 { 0xe40006a001330001a0000f400064 } else { if i < 587 { 0x40000790003b800a04004f600279 } else { 0x400030a00010000c1c0004000306 } } } } }
pub open spec fn U_codes_p_0_4_1(i: int) -> int { if i < 594 { if i < 591 { if i < 589 { 0x4c60030b00010000c0c0004000328 } else { if i < 590 { 0x68a000200014a8001e0000e60006c } else { 0x76400301001840000800060200020 } } } else { if i < 592 { 0x610003a500180800e940074a003b8 } else { if i < 593 { 0x730003c2001e0800ee800780003c6 } else { 0xce800627002c100159400746003b5 } } } } else { if i < 597 { if i < 595 { 0xce80064a0033a001b1c00ce800648 } else { if i < 596 { 0x1d3200eab00759003b3401c6400e4d } else { 0x1f0000f71007d9003c2c01d4200eab } } } else { if i < 598 { 0x18c000410086e003e0001ee200fb3 } else { if i < 599 { 0x9000047000c70001140008800042 } else { 0x9c0004d0002600012c0009400049 } } } } }
pub open spec fn U_codes_p_0_4_2(i: int) -> int { if i < 606 { if i < 603 { if i < 601 { 0xaa0005400029000140004440004f } else { if i < 602 { 0xc401d0200128800940000c200057 } else { 0xce0025c0012d800964000ca00064 } } } else { if i < 604 { 0x3a2c002540003780052c000da0006b } else { if i < 605 { 0x4de01d1d0003a8001d0000e001d17 } else { 0x78c003b4001d9800ec803a4a00076 } } } } else { if i < 609 { if i < 607 { 0x764000760003a8001c8000d2003c7 } else { if i < 608 { 0x4a40043d001e3800f1800782003b3 } else { 0x4be000660012e0003c0004aa00063 } } } else { if i < 610 { 0x3af60026a001348009a0004ca00261 } else { if i < 611 { 0x4e0002710014f807614004da0029d } else { 0x504002780013a8009d0004e600272 } } } } }
pub open spec fn U_codes_p_0_4_3(i: int) -> int { if i < 618 { if i < 615 { if i < 613 { 0x51601d1c00145000a240035600283 } else { if i < 614 { 0x7700029200148800a40000f40028c } else { 0x62600020001838001cc0057c00061 } } } else { if i < 616 { 0x61000020001a10000800062600020 } else { if i < 617 { 0x6260002000180000c4c0004000342 } else { 0x62800020001a1000c4c0004000301 } } } } else { if i < 621 { if i < 619 { 0x6280002000180800c500004000300 } else { if i < 620 { 0x6100002000180000c200004000342 } else { 0x400031400010000c040004000301 } } } else { if i < 622 { 0x4000020000100000800004000020 } else { if i < 623 { 0x4002010000100000800004000020 } else { 0x5c0002e000170000b80005c00333 } } } } }
pub open spec fn U_codes_p_0_4_4(i: int) -> int { if i < 630 { if i < 627 { if i < 625 { 0x406402032010190080c8000400002e } else { if i < 626 { 0x406a020350101a8080d40406a02032 } else { 0x7e0003f001828000800004200021 } } } else { if i < 628 { 0x4064020320001f800084000420003f } else { if i < 629 { 0x6800069000180000800406402032 } else { 0x56000390001c0000dc0006c00035 } } } } else { if i < 633 { if i < 631 { 0x600006e000148000a00007a02212 } else { if i < 632 { 0x6c000350001a0000cc0006400031 } else { 0x7a02212000158000e40007000037 } } } else { if i < 634 { 0xf00006f000328001840005200028 } else { if i < 635 { 0xdc0006d000360001ac000d000259 } else { 0xc200073000290001d0000e600070 } } } } }
pub open spec fn U_codes_p_0_4_5(i: int) -> int { if i < 642 { if i < 639 { if i < 637 { 0x860007300017800184000c60002f } else { if i < 638 { 0xc60006f0001780018c00086000b0 } else { 0xce0004600058000640000ea0002f } } } else { if i < 640 { 0x9200127000340001200009000048 } else { if i < 641 { 0xde0004e000270001b00009800049 } else { 0xa60005200029000148000a200050 } } } } else { if i < 645 { if i < 643 { 0x9a0005400026000114000a80004d } else { if i < 644 { 0x8a0006500021800108000b40005a } else { 0xba4005d1002e80001bc0009a00046 } } } else { if i < 646 { 0x7800005800020800118000d2005d3 } else { if i < 647 { 0xc80004401108800e8000726003b3 } else { 0x6e02044000188001a8000d200065 } } } } }
pub open spec fn U_codes_p_0_4_6(i: int) -> int { if i < 654 { if i < 651 { if i < 649 { 0x6202044000188000e40408800031 } else { if i < 650 { 0x408800032000198081100006200030 } else { 0x4088000320001a8081100006200033 } } } else { if i < 652 { 0x4088000340001a8081100006600035 } else { if i < 653 { 0x4088000350001b0081100006200035 } else { 0x4088000330001c0081100006200036 } } } } else { if i < 657 { if i < 655 { 0x4088000370001c0081100006a00038 } else { if i < 656 { 0x9200049000248081100006200038 } else { 0xac00056000248001240009200049 } } } else { if i < 658 { 0xac00049000248001580009200056 } else { if i < 659 { 0xb000058000248001240009200049 } else { 0x9800049000248001600009200058 } } } } }
pub open spec fn U_codes_p_0_4_7(i: int) -> int { if i < 666 { if i < 663 { if i < 661 { 0xd200069000348001340008800043 } else { if i < 662 { 0xec00076000348001a4000d200069 } else { 0xec00069000348001d8000d200076 } } } else { if i < 664 { 0xf000078000348001a4000d200069 } else { if i < 665 { 0xd800069000348001e0000d200078 } else { 0x6602044000180001b4000c800063 } } } } else { if i < 669 { if i < 667 { 0x445c0222b011158088ac044560222b } else { if i < 668 { 0x6400031011170088b80445c0222e } else { 0x70000370001b0000d40006800033 } } } else { if i < 670 { 0x6200031000188000c00006200039 } else { if i < 671 { 0x6200034000188000cc0006200032 } else { 0x6200037000188000d80006200035 } } } } }
pub open spec fn U_codes_p_0_4_8(i: int) -> int { if i < 678 { if i < 675 { if i < 673 { 0x5000030000190000e40006200038 } else { if i < 674 { 0x5000029000190000a00005200031 } else { 0x50000290001a0000a00005200033 } } } else { if i < 676 { 0x50000290001b0000a00005200035 } else { if i < 677 { 0x50000290001c0000a00005200037 } else { 0x5200030000188000a00005200039 } } } } else { if i < 681 { if i < 679 { 0x6200028000148000c40006200028 } else { if i < 680 { 0x5200033000188000a00005200032 } else { 0x6200028000148000d00006200028 } } } else { if i < 682 { 0x5200036000188000a00005200035 } else { if i < 683 { 0x6200028000148000dc0006200028 } else { 0x5200039000188000a00005200038 } } } } }
pub open spec fn U_codes_p_0_4_9(i: int) -> int { if i < 690 { if i < 687 { if i < 685 { 0x5c00031000148000c00006400028 } else { if i < 686 { 0x5c00034000170000cc0005c00032 } else { 0x5c00037000170000d80005c00035 } } } else { if i < 688 { 0x6000031000170000e40005c00038 } else { if i < 689 { 0x6400031000170000c4000620002e } else { 0x6800031000170000cc000620002e } } } } else { if i < 693 { if i < 691 { 0x6c00031000170000d4000620002e } else { if i < 692 { 0x7000031000170000dc000620002e } else { 0x6000032000170000e4000620002e } } } else { if i < 694 { 0xc40002800014800184000500002e } else { if i < 695 { 0xc8000280001480018c0005000029 } else { 0xcc00028000148001940005000029 } } } } }
pub open spec fn U_codes_p_0_4_10(i: int) -> int { if i < 702 { if i < 699 { if i < 697 { 0xd0000280001480019c0005000029 } else { if i < 698 { 0xd400028000148001a40005000029 } else { 0xd800028000148001ac0005000029 } } } else { if i < 700 { 0xdc00028000148001b40005000029 } else { if i < 701 { 0xe000028000148001bc0005000029 } else { 0xe400028000148001c40005000029 } } } } else { if i < 705 { if i < 703 { 0xe800028000148001cc0005000029 } else { if i < 704 { 0xec00028000148001d40005000029 } else { 0xf000028000148001dc0005000029 } } } else { if i < 706 { 0xf400028000148001e40005000029 } else { if i < 707 { 0x8a00044000218001080008200029 } else { 0x960004a000248001200008e00046 } } } } }
pub open spec fn U_codes_p_0_4_11(i: int) -> int { if i < 714 { if i < 711 { if i < 709 { 0xa200050000278001380009a0004c } else { if i < 710 { 0xae000560002a800150000a600052 } else { 0xc60006200030800168000b200058 } } } else { if i < 712 { 0xd20006800033800198000ca00064 } else { if i < 713 { 0xde0006e000368001b0000d60006a } else { 0xea00074000398001c8000e200070 } } } } else { if i < 717 { if i < 715 { 0x600007a0003c8001e0000ee00076 } else { if i < 716 { 0x740003a011158088ac044560222b } else { 0x7a0003d0001e8000f40007a0003d } } } else { if i < 718 { 0x9c0009f9f035e680b584000ac0006a } else { if i < 719 { 0x9d1804e850272c8138fc09c6c04e28 } else { 0xa3040516b028b28144fc09d7404ea0 } } } } }
pub open spec fn U_codes_p_0_4(i: int) -> int { if i < 648 { if i < 612 { if i < 588 { U_codes_p_0_4_0(i) } else { if i < 600 { U_codes_p_0_4_1(i) } else { U_codes_p_0_4_2(i) } } } else { if i < 624 { U_codes_p_0_4_3(i) } else { if i < 636 { U_codes_p_0_4_4(i) } else { U_codes_p_0_4_5(i) } } } } else { if i < 684 { if i < 660 { U_codes_p_0_4_6(i) } else { if i < 672 { U_codes_p_0_4_7(i) } else { U_codes_p_0_4_8(i) } } } else { if i < 696 { U_codes_p_0_4_9(i) } else { if i < 708 { U_codes_p_0_4_10(i) } else { U_codes_p_0_4_11(i) } } } } }
pub open spec fn U_codes_p_0_5_0(i: int) -> int { if i < 726 { if i < 723 { if i < 721 { 0xa53605200028fa8147800a35605196 } else { if i < 722 { 0xa6b8053410299c014c680a62a052f9 } else { 0xadae053e3029e4014ed80a70405369 } } } else { if i < 724 { 0xb24e0591502c850164080b1d60571f } else { if i < 725 { 0xb84405c0f02dfc016e000b6a005973 } else { 0xbbe205de502eed8171c40b8dc05c38 } } } } else { if i < 729 { if i < 727 { 0xbdfc05ef402f3f8179e80bce405dfe } else { if i < 728 { 0xbf8605f7302fb0817d400be2605f0b } else { 0xcb0e065340329781892c0c46c06208 } } } else { if i < 730 { 0xcde0065e5032f00196e40cb4806597 } else { if i < 731 { 0xd76606b79035b101ac800ce5006708 } else { 0xd86806c140360781af6c0d7a806bcb } } } } }
pub open spec fn U_codes_p_0_5_1(i: int) -> int { if i < 738 { if i < 735 { if i < 733 { 0xe48e0723f0391d81c8d80e4540706b } else { if i < 734 { 0xe9b807389039c201cab00e4b607259 } else { 0xeb160753003a9401d47c0ea30074e6 } } } else { if i < 736 { 0xeddc076bf03b5701d9f40ecec07592 } else { if i < 737 { 0xf37c079b803c9d01dfcc0efc4077db } else { 0xfe6c07cf803e3981ebe40f59607a74 } } } } else { if i < 741 { if i < 739 { 0x100240800c0400081fef40ff1407f51 } else { if i < 740 { 0x103e6081ea040f1820224100fe08033 } else { 0x104e40826e0410f82086c10418081fc } } } else { if i < 742 { 0x110c60884c044200219ac10c9a08278 } else { if i < 743 { 0x1188c08c3704500022748113160897e } else { 0x11b6608d70046b2023274118f008c55 } } } } }
pub open spec fn U_codes_p_0_5_2(i: int) -> int { if i < 750 { if i < 747 { if i < 745 { 0x1212208fb5047d8023e6c11d9408eab } else { if i < 746 { 0x12b0009577048e88247301238c09149 } else { 0x12ebc0975104b74025ae412d6c0961c } } } else { if i < 748 { 0x13002097f304bf6825f2c12ed209762 } else { if i < 749 { 0x133580999904ccb02637c131b6098a8 } else { 0x1366409b2f04d92826b7c135b009aa8 } } } } else { if i < 753 { if i < 751 { 0x13d4a09e7f04f3a827394136b409b3c } else { if i < 752 { 0x13dfa09ef904f68827b3413d8609ebb } else { 0x13ea409f4a04f9d827c8013e2609f0e } } } else { if i < 754 { 0xa6820301200010027e8013f3809f8d } else { if i < 755 { 0x6134000200184c8000800a68a05344 } else { 0x2202011000186400c2cc0611403088 } } } } }
pub open spec fn U_codes_p_0_5_3(i: int) -> int { if i < 762 { if i < 759 { if i < 757 { 0x220801103008d68046b002204011aa } else { if i < 758 { 0x2368011b3008d90046c40236001105 } else { 0x2242011080088380441802234011b5 } } } else { if i < 760 { 0x221c0110d0088600442c0221401109 } else { if i < 761 { 0x22c40116100889004444022200110f } else { 0x22d001167008b3004594022c801163 } } } } else { if i < 765 { if i < 763 { 0x22dc0116d008b60045ac022d401169 } else { if i < 764 { 0x22e801173008b90045c4022e00116f } else { 0x2390011c70088a804450022c001175 } } } else { if i < 766 { 0x2238011d9008eb80474c0239c011cc } else { if i < 767 { 0x2244011200088f004474023be011dd } else { 0x225a0112c008958044a40224e01123 } } } } }
pub open spec fn U_codes_p_0_5_4(i: int) -> int { if i < 774 { if i < 771 { if i < 769 { 0x228e011400089b0044c80225e0112e } else { if i < 770 { 0x22b201158008ab8047c8023e20114c } else { 0x232801192008c88046200230a01184 } } } else { if i < 772 { 0xadb604e0902746013800023420119e } else { if i < 773 { 0x9c3204e5903a9901382c09c5a04e0a } else { 0x2200000280275d015cc00b25204e01 } } } } else { if i < 777 { if i < 775 { 0x220600028000148044080005000029 } else { if i < 776 { 0x220c00028000148044140005000029 } else { 0x2212000280001480441c0005000029 } } } else { if i < 778 { 0x2218000280001480442c0005000029 } else { if i < 779 { 0x221e00028000148044380005000029 } else { 0x222200028000148044400005000029 } } } } }
pub open spec fn U_codes_p_0_5_5(i: int) -> int { if i < 786 { if i < 783 { if i < 781 { 0x220000028000148044480005000029 } else { if i < 782 { 0x5201161008810000a00005201161 } else { 0x220a00028000148045840220600028 } } } else { if i < 784 { 0x5201161008830000a00005201161 } else { if i < 785 { 0x221200028000148045840220e00028 } else { 0x5201161008858000a00005201161 } } } } else { if i < 789 { if i < 787 { 0x221c00028000148045840221800028 } else { if i < 788 { 0x5201161008878000a00005201161 } else { 0x222200028000148045840222000028 } } } else { if i < 790 { 0x5201161008890000a00005201161 } else { if i < 791 { 0x221600028000148045b80221800028 } else { 0x5000029008d58045940221801169 } } } } }
pub open spec fn U_codes_p_0_5_6(i: int) -> int { if i < 798 { if i < 795 { if i < 793 { 0x5000029008b7004448022d20110b } else { if i < 794 { 0x5000029027460000a00005204e00 } else { 0x500002902b6d8000a00005204e09 } } } else { if i < 796 { 0x5000029028b68000a00005204e94 } else { if i < 797 { 0x5000029028b58000a00005204e03 } else { 0x5000029029a08000a00005204e5d } } } } else { if i < 801 { if i < 799 { 0x5000029038358000a00005206708 } else { if i < 800 { 0x5000029033940000a00005206c34 } else { 0x500002902b8f8000a000052091d1 } } } else { if i < 802 { 0x5000029034150000a000052065e5 } else { if i < 803 { 0x500002903c9f0000a00005206709 } else { 0x50000290393c8000a0000520540d } } } } }
pub open spec fn U_codes_p_0_5_7(i: int) -> int { if i < 810 { if i < 807 { if i < 805 { 0x500002903cae8000a00005208ca1 } else { if i < 806 { 0x5000029027718000a000052052b4 } else { 0x500002902db30000a0000520547c } } } else { if i < 808 { 0x5000029027808000a000052076e3 } else { if i < 809 { 0x5000029029aa0000a00005208cc7 } else { 0x5000029027888000a0000520796d } } } } else { if i < 813 { if i < 811 { 0xaa9e00029040f98000a000052081ea } else { if i < 812 { 0x8a000540002801ee3c0cb0e05e7c } else { 0x6600032000190000c80006200032 } } } else { if i < 814 { 0x6c000320001a8000c80006800032 } else { if i < 815 { 0x72000320001c0000c80006e00032 } else { 0x6400033000188000cc0006000033 } } } } }
pub open spec fn U_codes_p_0_5_8(i: int) -> int { if i < 822 { if i < 819 { if i < 817 { 0x6a000330001a0000cc0006600033 } else { if i < 818 { 0x220e011060088280440c0220401100 } else { 0x22200110f008870044300221601109 } } } else { if i < 820 { 0x22c201102008b08044000222401111 } else { if i < 821 { 0x22c201106008b0804414022c201103 } else { 0x22c20110b008b0804424022c201107 } } } } else { if i < 825 { if i < 823 { 0x22c20110f008b0804438022c20110c } else { if i < 824 { 0x22c201112008b0804444022c201110 } else { 0x221801169008800046dc022c20110e } } } else { if i < 826 { 0x9c000116e008858045d0022160116e } else { if i < 827 { 0x9c060516d0274a015b6c09c1204e8c } else { 0xd8680706b03384014d0409cba0516b } } } } }
pub open spec fn U_codes_p_0_5_9(i: int) -> int { if i < 834 { if i < 831 { if i < 829 { 0xce120682a032f2815c7c123a206728 } else { if i < 830 { 0xa5680795d0465081c9e40a81a0793e } else { 0xa6e00512a048348165cc0ea6e079d8 } } } else { if i < 832 { 0x9c1406b63028cc813c441300a06ce8 } else { if i < 833 { 0xb72e0533b029f981779809c1604e2d } else { 0xb2380535404663813c040edc605b66 } } } } else { if i < 837 { if i < 835 { 0x70000330001b8000cc0006c00033 } else { if i < 836 { 0x6200034000180000d00007200033 } else { 0x6800034000198000d00006400034 } } } else { if i < 838 { 0x6e000340001b0000d00006a00034 } else { if i < 839 { 0x60000350001c8000d00007000034 } else { 0xce1000033033840000c80ce1000031 } } } } }
pub open spec fn U_codes_p_0_5_10(i: int) -> int { if i < 846 { if i < 843 { if i < 841 { 0xce1000036033840000d40ce1000034 } else { if i < 842 { 0xce1000039033840000e00ce1000037 } else { 0xce100003100018819c200006000031 } } } else { if i < 844 { 0xca0006700024019c200006400031 } else { if i < 845 { 0xa80004c0002b000194000ce00072 } else { 0x6154030a80185300c2900614400044 } } } } else { if i < 849 { if i < 847 { 0x616a030b30185880c2bc0615a030ab } else { if i < 848 { 0x6182030bf0185e80c2ec06172030b7 } else { 0x6198030cb0186500c3200618c030c4 } } } else { if i < 850 { 0x61b0030d50186900c33c0619c030cd } else { if i < 851 { 0x61c4030e10187000c37c061bc030db } else { 0x61d6030ea0187480c3a0061cc030e4 } } } } }
pub open spec fn U_codes_p_0_5_11(i: int) -> int { if i < 858 { if i < 855 { if i < 853 { 0x61e4030f10187800c3bc061da030ec } else { if i < 854 { 0x61f80309a0186780c2880a91804ee4 } else { 0x6144030a10186a80c3ac06144030c8 } } } else { if i < 856 { 0x61f8030a20185100c268061b0030f3 } else { if i < 857 { 0x6132030af0187980c32c06148030eb } else { 0x61e6030a90185300c304061e6030a4 } } } } else { if i < 861 { if i < 859 { 0x6132030c80187e00c2bc06172030a8 } else { if i < 860 { 0x61e6030aa0187e00c2ac061f8030a8 } else { 0x6148030ab0187000c3f006154030b9 } } } else { if i < 862 { 0x6156030c80186180c3a406156030ea } else { if i < 863 { 0x61da030990185580c3f0061d4030ed } else { 0x615a030de0187980c26406156030f3 } } } } }
pub open spec fn U_codes_p_0_5(i: int) -> int { if i < 792 { if i < 756 { if i < 732 { U_codes_p_0_5_0(i) } else { if i < 744 { U_codes_p_0_5_1(i) } else { U_codes_p_0_5_2(i) } } } else { if i < 768 { U_codes_p_0_5_3(i) } else { if i < 780 { U_codes_p_0_5_4(i) } else { U_codes_p_0_5_5(i) } } } } else { if i < 828 { if i < 804 { U_codes_p_0_5_6(i) } else { if i < 816 { U_codes_p_0_5_7(i) } else { U_codes_p_0_5_8(i) } } } else { if i < 840 { U_codes_p_0_5_9(i) } else { if i < 852 { U_codes_p_0_5_10(i) } else { U_codes_p_0_5_11(i) } } } } }
pub open spec fn U_codes_p_0_6_0(i: int) -> int { if i < 870 { if i < 867 { if i < 865 { 0x6196030990185680c2640615603099 } else { if i < 866 { 0x615a030fc0187500c3940615a030fc } else { 0x615a030fc0184c80c2fc061d603099 } } } else { if i < 868 { 0x61d2030990185780c3b40615a030ed } else { if i < 869 { 0x6190030fc0187080c3b40615a030e0 } else { 0x6190030c30187780c3b40615a030eb } } } } else { if i < 873 { if i < 871 { 0x6132030af0187000c3a406132030af } else { if i < 872 { 0x61d6030af0187980c320061c0030e9 } else { 0x61da030af0187680c29006132030bb } } } else { if i < 874 { 0x6166030b90187e00c2c40619a030fc } else { if i < 875 { 0x6134030db0187e00c2cc06194030eb } else { 0x61e6030b50187580c2bc06148030b5 } } } } }
pub open spec fn U_codes_p_0_6_1(i: int) -> int { if i < 882 { if i < 879 { if i < 877 { 0x61e6030ea0185b80c380061f8030c1 } else { if i < 878 { 0x6176030c10187980c2ec06132030af } else { 0x6172030fc0184c80c2fc06190030f3 } } } else { if i < 880 { 0x61d6030990186400c2dc06132030c6 } else { if i < 881 { 0x6186030ce0186700c328061e6030c8 } else { 0x6134030cf0186200c2900619e030c8 } } } } else { if i < 885 { if i < 883 { 0x6134030cf0186400c3cc06176030fc } else { if i < 884 { 0x61d8030fc0184c80c33c06188030fc } else { 0x6190030b90185100c268061a4030eb } } } else { if i < 886 { 0x61a4030eb0185780c268061a4030eb } else { if i < 887 { 0x61aa030eb0184c80c348061660309a } else { 0x61aa030990186400c30c061d2030a1 } } } } }
pub open spec fn U_codes_p_0_6_2(i: int) -> int { if i < 894 { if i < 891 { if i < 889 { 0x6186030990186a80c320061f8030a3 } else { if i < 890 { 0x61e6030e90186a80c3ac0614e030b7 } else { 0x61b0030eb0187e00c2fc0615e030d8 } } } else { if i < 892 { 0x61a4030cb0184d00c3600617a0309a } else { if i < 893 { 0x61e60309a0186c00c310061d6030d8 } else { 0x6132030b70187e00c268061b0030b9 } } } } else { if i < 897 { if i < 895 { 0x6134030db0185f80c3f006132030d8 } else { if i < 896 { 0x61d6030990186d80c320061e6030a4 } else { 0x61e60309a0186d80c3cc061b6030c8 } } } else { if i < 898 { 0x61b6030eb0187e00c36c06132030c8 } else { if i < 899 { 0x61da030af0185200c378061e6030fc } else { 0x619e030c30186f00c3ac06148030de } } } } }
pub open spec fn U_codes_p_0_6_3(i: int) -> int { if i < 906 { if i < 903 { if i < 901 { 0x616e030f30186f00c2bc061d6030de } else { if i < 902 { 0x61e6030ed0185780c37c061e6030e7 } else { 0x6132030cf0187500c37c061d4030df } } } else { if i < 904 { 0x61c2030990185580c384061d6030fc } else { if i < 905 { 0x61f8030e10187980c32006132030ab } else { 0x6132030c80187e00c390061d6030c8 } } } } else { if i < 909 { if i < 907 { 0x61e6030a20187300c3ac061f8030e4 } else { if i < 908 { 0x61d2030ea0187580c32006186030ea } else { 0x61f8030eb0187e00c268061a4030eb } } } else { if i < 910 { 0x61d8030e00187600c3ac06132030d5 } else { if i < 911 { 0x61de030f30184c80c2c406190030f3 } else { 0xe172000310385c8000c006190030c3 } } } } }
pub open spec fn U_codes_p_0_6_4(i: int) -> int { if i < 918 { if i < 915 { if i < 913 { 0xe172000340385c8000cc0e17200032 } else { if i < 914 { 0xe172000370385c8000d80e17200035 } else { 0x60000310385c8000e40e17200038 } } } else { if i < 916 { 0x64000310385c8000c400062070b9 } else { if i < 917 { 0x68000310385c8000cc00062070b9 } else { 0x6c000310385c8000d400062070b9 } } } } else { if i < 921 { if i < 919 { 0x70000310385c8000dc00062070b9 } else { if i < 920 { 0x60000320385c8000e400062070b9 } else { 0x64000320385c8000c400064070b9 } } } else { if i < 922 { 0x68000320385c8000cc00064070b9 } else { if i < 923 { 0xc20006400030800140000d0070b9 } else { 0xde0007200030800188000aa00041 } } } } }
pub open spec fn U_codes_p_0_6_5(i: int) -> int { if i < 930 { if i < 927 { if i < 925 { 0xc80006d0003200018c000e000056 } else { if i < 926 { 0x920003300036800190000640006d } else { 0xb24e0548c033168188400bce600055 } } } else { if i < 928 { 0x9e3405f0f0341501b2ec0cc1c06b63 } else { if i < 929 { 0x7780004100037000104000e00793e } else { 0x960004100035800104000da00041 } } } } else { if i < 933 { if i < 931 { 0xc600042000238001080009a00042 } else { if i < 932 { 0xd800061000318001ac000d800061 } else { 0x8c003bc000230001b80008c00070 } } } else { if i < 934 { 0xce0006b000338001b4000ce003bc } else { if i < 935 { 0x9a0007a000240001ac000f400048 } else { 0xa80007a0002400011c000f400048 } } } } }
pub open spec fn U_codes_p_0_6_6(i: int) -> int { if i < 942 { if i < 939 { if i < 937 { 0xd80006d00036000ef0000f400048 } else { if i < 938 { 0xda00066000360001ac000d800064 } else { 0xda0006d00036800ef0000da0006e } } } else { if i < 940 { 0xda0006d000368001ac000da00063 } else { if i < 941 { 0x640006d000190001b4000c600032 } else { 0x660006d000368000c8000da0006b } } } } else { if i < 945 { if i < 943 { 0xd600033000368000cc000da00063 } else { if i < 944 { 0xda000730110a8001b4000660006d } else { 0xd600061000280000c8000e602215 } } } else { if i < 946 { 0x8e0006100028000134000c200050 } else { if i < 947 { 0xe400064000308001c8000c200050 } else { 0xc20007200039808854000c800061 } } } } }
pub open spec fn U_codes_p_0_6_7(i: int) -> int { if i < 954 { if i < 951 { if i < 949 { 0xe600070000190001cc0442a00064 } else { if i < 950 { 0xe60006d00039800ef0000e60006e } else { 0xac003bc0002b0001b8000ac00070 } } } else { if i < 952 { 0xac0004d0002b0001ac000ac0006d } else { if i < 953 { 0xae003bc0002b8001b8000ae00070 } else { 0xae0004d0002b8001ac000ae0006d } } } } else { if i < 957 { if i < 955 { 0x5c00061001d4800134007520006b } else { if i < 956 { 0xc600063000388001080005c0006d } else { 0xce0006b0110a80010c000c800063 } } } else { if i < 958 { 0x8e00042000320000b8000de00043 } else { if i < 959 { 0xd20005000024000184000d000079 } else { 0xd60004d0002580012c000960006e } } } } }
pub open spec fn U_codes_p_0_6_8(i: int) -> int { if i < 966 { if i < 963 { if i < 961 { 0xd80006e000360001b4000d800074 } else { if i < 962 { 0xc40006d0003c0001b0000ce0006f } else { 0xd80006f000368001b0000d20006d } } } else { if i < 964 { 0x5c0006d000170001c00009000050 } else { if i < 965 { 0xe60005200028000134000a000050 } else { 0xac000620002b8001d8000a600072 } } } } else { if i < 969 { if i < 967 { 0x620006d0110a800104000da02215 } else { if i < 968 { 0x68065e50001981979400064065e5 } else { 0x6e065e50001b0197940006a065e5 } } } else { if i < 970 { 0x62065e50001c81979400070065e5 } else { if i < 971 { 0x62065e5000188000c40cbca00030 } else { 0x62065e5000198000c40cbca00032 } } } } }
pub open spec fn U_codes_p_0_6_9(i: int) -> int { if i < 978 { if i < 975 { if i < 973 { 0x62065e50001a8000c40cbca00034 } else { if i < 974 { 0x62065e50001b8000c40cbca00036 } else { 0x64065e50001c8000c40cbca00038 } } } else { if i < 976 { 0x64065e5000188000c80cbca00030 } else { if i < 977 { 0x64065e5000198000c80cbca00032 } else { 0x64065e50001a8000c80cbca00034 } } } } else { if i < 981 { if i < 979 { 0x64065e50001b8000c80cbca00036 } else { if i < 980 { 0x66065e50001c8000c80cbca00038 } else { 0xce065e5000188000cc0cbca00030 } } } else { if i < 982 { 0x860a76f00226001128000d800061 } else { if i < 983 { 0x1566e0a727000a9800498000a200046 } else { 0xcc0006600033000a34156a40026b } } } } }
pub open spec fn U_codes_p_0_6_10(i: int) -> int { if i < 990 { if i < 987 { if i < 985 { 0xd200066000330001b0000cc00069 } else { if i < 986 { 0xe600074000398001b0000cc00066 } else { 0xae800565002ba0015d800ae800074 } } } else { if i < 988 { 0xbc40056d002ba0015d800afc0056b } else { if i < 989 { 0xbba005dc002ed80175000ba6005d0 } else { 0xce2005dc002e80000ac00bd4005e8 } } } } else { if i < 993 { if i < 991 { 0xcfc0067b0033d8019ec00cf600671 } else { if i < 992 { 0xd0000680003400019f800cfc0067e } else { 0xcfe0067a0033d0019e800cf400680 } } } else { if i < 994 { 0xcf2006790033c8019fc00cfe0067f } else { if i < 995 { 0xd4c006a400352001a9000d4800679 } else { 0xd080068400342001a9800d4c006a6 } } } } }
pub open spec fn U_codes_p_0_6_11(i: int) -> int { if i < 1002 { if i < 999 { if i < 997 { 0xd0c0068300341801a0c00d0600684 } else { if i < 998 { 0xd0e0068700343801a1800d0c00686 } else { 0xd1c0068c00346001a3400d1a00687 } } } else { if i < 1000 { 0xd22006980034c001a2000d100068e } else { if i < 1001 { 0xd5e006a900354801aa400d5200691 } else { 0xd66006b300359801abc00d5e006af } } } } else { if i < 1005 { if i < 1003 { 0xd74006b100358801ac400d62006b3 } else { if i < 1004 { 0xdaa006bb0035d801aec00d76006ba } else { 0xd82006c10036080195000daa00654 } } } else { if i < 1006 { 0xda4006be0035f001af800d7c006c1 } else { if i < 1007 { 0xd5a006540036900195000da4006d2 } else { 0xd8c006c700363801ab400d5a006ad } } } } }
pub open spec fn U_codes_p_0_6(i: int) -> int { if i < 936 { if i < 900 { if i < 876 { U_codes_p_0_6_0(i) } else { if i < 888 { U_codes_p_0_6_1(i) } else { U_codes_p_0_6_2(i) } } } else { if i < 912 { U_codes_p_0_6_3(i) } else { if i < 924 { U_codes_p_0_6_4(i) } else { U_codes_p_0_6_5(i) } } } } else { if i < 972 { if i < 948 { U_codes_p_0_6_6(i) } else { if i < 960 { U_codes_p_0_6_7(i) } else { U_codes_p_0_6_8(i) } } } else { if i < 984 { U_codes_p_0_6_9(i) } else { if i < 996 { U_codes_p_0_6_10(i) } else { U_codes_p_0_6_11(i) } } } } }
pub open spec fn U_codes_p_0_7_0(i: int) -> int { if i < 1014 { if i < 1011 { if i < 1009 { 0xd960067400363801b2000d90006c6 } else { if i < 1010 { 0xda0006c900364801b1400d8a006cb } else { 0xc940064900324801b4000da0006d0 } } } else { if i < 1012 { 0xc94006270032a00192800c4e00654 } else { if i < 1013 { 0xc94006d50032a00192800daa00654 } else { 0xc94006480032a00192800c9000654 } } } } else { if i < 1017 { if i < 1015 { 0xc94006c70032a00192800d8e00654 } else { if i < 1016 { 0xc94006c60032a00192800d8c00654 } else { 0xc94006c80032a00192800d9000654 } } } else { if i < 1018 { 0xc94006d00032a00192800da000654 } else { if i < 1019 { 0xc94006490032a00192800da000654 } else { 0xd98006490032a00192800c9200654 } } } } }
pub open spec fn U_codes_p_0_7_1(i: int) -> int { if i < 1026 { if i < 1023 { if i < 1021 { 0xc580065400325001b3000d98006cc } else { if i < 1022 { 0xc8a00654003250018b400ca80064a } else { 0xc94006540032500192400ca80064a } } } else { if i < 1024 { 0xc5c00628003168018a000c5800628 } else { if i < 1025 { 0xc9400628003248018a000c8a00628 } else { 0xc5c0062a003168018a800c580062a } } } } else { if i < 1029 { if i < 1027 { 0xc940062a003248018a800c8a0062a } else { if i < 1028 { 0xc920062b003228018ac00c580062b } else { 0xc8a0062c003168018b000c940062b } } } else { if i < 1030 { 0xc580062e003228018b400c580062d } else { if i < 1031 { 0xc5800633003228018b800c5a0062e } else { 0xc8a00633003170018cc00c5a00633 } } } } }
pub open spec fn U_codes_p_0_7_2(i: int) -> int { if i < 1038 { if i < 1035 { if i < 1033 { 0xc5800636003228018d400c5a00635 } else { if i < 1034 { 0xc8a00636003170018d800c5a00636 } else { 0xc8a00638003228018dc00c5a00637 } } } else { if i < 1036 { 0xc580063a003228018e400c5800639 } else { if i < 1037 { 0xc5a006410031600190400c8a0063a } else { 0xc92006410032280190400c5c00641 } } } } else { if i < 1041 { if i < 1039 { 0xc8a006420031680190800c9400641 } else { if i < 1040 { 0xc4e006430032500190800c9200642 } else { 0xc5c006430031680190c00c5800643 } } } else { if i < 1042 { 0xc92006430032280190c00c8800643 } else { if i < 1043 { 0xc5a006440031600191000c9400643 } else { 0xc92006440032280191000c5c00644 } } } } }
pub open spec fn U_codes_p_0_7_3(i: int) -> int { if i < 1050 { if i < 1047 { if i < 1045 { 0xc5a006450031600191400c9400644 } else { if i < 1046 { 0xc92006450032280191400c5c00645 } else { 0xc5a006460031600191800c9400645 } } } else { if i < 1048 { 0xc92006460032280191800c5c00646 } else { if i < 1049 { 0xc8a006470031600191c00c9400646 } else { 0xc580064a0032500191c00c9200647 } } } } else { if i < 1053 { if i < 1051 { 0xc8a0064a0031700192800c5a0064a } else { if i < 1052 { 0xce0006300032500192800c920064a } else { 0xc98000200033800192400ce000631 } } } else { if i < 1054 { 0xc9c00020003288019340004000651 } else { if i < 1055 { 0xca0000200032880193c0004000651 } else { 0xca80064a003380019440004000651 } } } } }
pub open spec fn U_codes_p_0_7_4(i: int) -> int { if i < 1062 { if i < 1059 { if i < 1057 { 0xca80064a0031900195000c9400631 } else { if i < 1058 { 0xca80064a0032300195000c9400645 } else { 0xc62006280032500195000c9400649 } } } else { if i < 1060 { 0xc8c00628003228018a000c6400628 } else { if i < 1061 { 0xc620062a003250018a000c9200628 } else { 0xc8c0062a003228018a800c640062a } } } } else { if i < 1065 { if i < 1063 { 0xc620062b003250018a800c920062a } else { if i < 1064 { 0xc8c0062b003228018ac00c640062b } else { 0xc9200641003250018ac00c920062b } } } else { if i < 1066 { 0xc94006420032480190800c9400641 } else { if i < 1067 { 0xc8a006430032200190c00c4e00643 } else { 0xc8a006440032500190c00c9200643 } } } } }
pub open spec fn U_codes_p_0_7_5(i: int) -> int { if i < 1074 { if i < 1071 { if i < 1069 { 0xc4e006450032500191000c9200644 } else { if i < 1070 { 0xc64006460031880191800c8a00645 } else { 0xc92006460032300191800c8a00646 } } } else { if i < 1072 { 0xc620064a0033800192400c9400646 } else { if i < 1073 { 0xc8c0064a0032280192800c640064a } else { 0xca80064a0032500192800c920064a } } } } else { if i < 1077 { if i < 1075 { 0xca80064a0031680195000c940062c } else { if i < 1076 { 0xca80064a0032280195000c940062e } else { 0xc500062d003140018b000c5000647 } } } else { if i < 1078 { 0xc54006470031400191400c500062e } else { if i < 1079 { 0xc540062e003150018b400c540062c } else { 0xc58006450031580191c00c5400645 } } } } }
pub open spec fn U_codes_p_0_7_6(i: int) -> int { if i < 1086 { if i < 1083 { if i < 1081 { 0xc5a0062c0031680191400c580062d } else { if i < 1082 { 0xc6600645003170018b000c5c00645 } else { 0xc660062e003198018b400c660062c } } } else { if i < 1084 { 0xc6a0062e0031a8018b400c6a00645 } else { if i < 1085 { 0xc6c0062d0031b0018b000c6c00645 } else { 0xc700062d0031b80191400c6c0062e } } } } else { if i < 1089 { if i < 1087 { 0xc74006450031c8018b000c7200645 } else { if i < 1088 { 0xc820062c0032080191400c740062c } else { 0xc8400645003208018b800c820062d } } } else { if i < 1090 { 0xc860062c0032180191400c840062d } else { if i < 1091 { 0xc8600644003218018b800c860062d } else { 0xc880062d003220018b000c8800645 } } } } }
pub open spec fn U_codes_p_0_7_7(i: int) -> int { if i < 1098 { if i < 1095 { if i < 1093 { 0xc8a006470032200191400c880062e } else { if i < 1094 { 0xc8a0062e003228018b400c8a0062c } else { 0xc8c0062d003230018b000c8c00645 } } } else { if i < 1096 { 0xc8e006470032300191400c8c0062e } else { if i < 1097 { 0xc94006700032380191400c8e0062c } else { 0xc940062e003250018b400c940062c } } } } else { if i < 1101 { if i < 1099 { 0xc8a006540032500191c00c9400645 } else { if i < 1100 { 0xc50006450031400191c00ca80064a } else { 0xc56006470031500191400c5400647 } } } else { if i < 1102 { 0xc66006450031980191c00c5600645 } else { if i < 1103 { 0xc86006470031a00191400c6800647 } else { 0xc8c006450032200191400c8600644 } } } } }
pub open spec fn U_codes_p_0_7_8(i: int) -> int { if i < 1110 { if i < 1107 { if i < 1105 { 0xc94006450032500191c00c8c00645 } else { if i < 1106 { 0xc9e006400032880193800c8000647 } else { 0xc92006370032880194000c8000651 } } } else { if i < 1108 { 0xc9400639003248018e400c9400637 } else { if i < 1109 { 0xc9200633003250018e800c920063a } else { 0xc9400634003248018d000c9400633 } } } } else { if i < 1113 { if i < 1111 { 0xc920062c003250018b400c920062d } else { if i < 1112 { 0xc940062e003248018b800c940062c } else { 0xc9200636003250018d400c9200635 } } } else { if i < 1114 { 0xc5a00634003160018d000c9400636 } else { if i < 1115 { 0xc6200634003228018d000c5c00634 } else { 0xc6200636003188018d400c6200633 } } } } }
pub open spec fn U_codes_p_0_7_9(i: int) -> int { if i < 1122 { if i < 1119 { if i < 1117 { 0xc9200639003250018dc00c9200637 } else { if i < 1118 { 0xc940063a003248018e800c9400639 } else { 0xc9200634003250018cc00c9200633 } } } else { if i < 1120 { 0xc940062d003248018b400c9400634 } else { if i < 1121 { 0xc920062e003250018b000c920062c } else { 0xc9400635003248018d400c940062e } } } } else { if i < 1125 { if i < 1123 { 0xc5800634003250018d800c9200636 } else { if i < 1124 { 0xc8a00634003170018d000c5a00634 } else { 0xc6200635003188018cc00c6200634 } } } else { if i < 1126 { 0xc5a00634003160018d000c6200636 } else { if i < 1127 { 0xc8e00633003228018d000c5c00634 } else { 0xc5800633003228018dc00c8e00634 } } } } }
pub open spec fn U_codes_p_0_7_10(i: int) -> int { if i < 1134 { if i < 1131 { if i < 1129 { 0xc5800634003170018cc00c5a00633 } else { if i < 1130 { 0xc8a00637003170018d000c5a00634 } else { 0xc96006270032580189c00c8a00638 } } } else { if i < 1132 { 0xc580062d0031500191400c580062a } else { if i < 1133 { 0xc8a0062d003150018b000c5a0062a } else { 0xc58006450031500191400c5c0062a } } } } else { if i < 1137 { if i < 1135 { 0xc5c00645003150018b400c8a0062a } else { if i < 1136 { 0xc5a00645003160018b400c8a0062c } else { 0xc92006450031680192800c8a0062d } } } else { if i < 1138 { 0xc5a0062c003198018b000c5a00633 } else { if i < 1139 { 0xc5a006450031980192400c5800633 } else { 0xc5800645003198018b400c8a00633 } } } } }
pub open spec fn U_codes_p_0_7_11(i: int) -> int { if i < 1146 { if i < 1143 { if i < 1141 { 0xc8a006450031980191400c8a00633 } else { if i < 1142 { 0xc5a0062d0031a8018b400c5a00635 } else { 0xc8a0062d0031a00191400c8a00635 } } } else { if i < 1144 { 0xc940062c0031a00191400c5a00634 } else { if i < 1145 { 0xc5c006450031a0018b800c8a00634 } else { 0xc8a006450031a00191400c8a00634 } } } } else { if i < 1149 { if i < 1147 { 0xc8a0062e0031b00192400c5a00636 } else { if i < 1148 { 0xc5a006450031b80191400c5c00636 } else { 0xc8a006450031b8018b400c8a00637 } } } else { if i < 1150 { 0xc8a0062c0031c80192800c8a00637 } else { if i < 1151 { 0xc8a006450031c80191400c8a00639 } else { 0xc8a006450031d00192400c8a00639 } } } } }
pub open spec fn U_codes_p_0_7(i: int) -> int { if i < 1080 { if i < 1044 { if i < 1020 { U_codes_p_0_7_0(i) } else { if i < 1032 { U_codes_p_0_7_1(i) } else { U_codes_p_0_7_2(i) } } } else { if i < 1056 { U_codes_p_0_7_3(i) } else { if i < 1068 { U_codes_p_0_7_4(i) } else { U_codes_p_0_7_5(i) } } } } else { if i < 1116 { if i < 1092 { U_codes_p_0_7_6(i) } else { if i < 1104 { U_codes_p_0_7_7(i) } else { U_codes_p_0_7_8(i) } } } else { if i < 1128 { U_codes_p_0_7_9(i) } else { if i < 1140 { U_codes_p_0_7_10(i) } else { U_codes_p_0_7_11(i) } } } } }
pub open spec fn U_codes_p_0_8_0(i: int) -> int { if i < 1158 { if i < 1155 { if i < 1153 { 0xc92006450031d00192800c8a0063a } else { if i < 1154 { 0xc8a0062e0032080191400c5c00641 } else { 0xc8a00645003210018b400c8a00642 } } } else { if i < 1156 { 0xc940062d0032200191400c5a00644 } else { if i < 1157 { 0xc580062c0032200192400c5a00644 } else { 0xc8a0062e003220018b000c5800644 } } } } else { if i < 1161 { if i < 1159 { 0xc5a006450032200191400c5c00644 } else { if i < 1160 { 0xc580062d003228018b400c8a00644 } else { 0xc940062d0032280191400c5a00645 } } } else { if i < 1162 { 0xc8a0062c003228018b400c5800645 } else { if i < 1163 { 0xc8a0062e003228018b000c5c00645 } else { 0xc5800645003238018b800c5800645 } } } } }
pub open spec fn U_codes_p_0_8_1(i: int) -> int { if i < 1170 { if i < 1167 { if i < 1165 { 0xc8a0062d0032300191400c8a00647 } else { if i < 1166 { 0xc8a0062c0032300192400c5a00646 } else { 0xc920062c0032300191400c5800646 } } } else { if i < 1168 { 0xc92006450032300192800c8a00646 } else { if i < 1169 { 0xc8a006450032500191400c8a0064a } else { 0xc940062c0031500192800c5c00628 } } } } else { if i < 1173 { if i < 1171 { 0xc940062e0031500192400c580062a } else { if i < 1172 { 0xc94006450031500192400c5c0062a } else { 0xc94006450031600192400c8a0062a } } } else { if i < 1174 { 0xc92006450031600192400c5a0062c } else { if i < 1175 { 0xc940062d0031a80192400c5c00633 } else { 0xc940062d0031b00192800c5a00634 } } } } }
pub open spec fn U_codes_p_0_8_2(i: int) -> int { if i < 1182 { if i < 1179 { if i < 1177 { 0xc94006450032200192800c5800644 } else { if i < 1178 { 0xc940062c0032500192800c5a0064a } else { 0xc94006450032280192800c8a0064a } } } else { if i < 1180 { 0xc940062d0032300192800c8a00642 } else { if i < 1181 { 0xc8a0062d003220018b400c8a00642 } else { 0xc94006450032180192800c8a00639 } } } } else { if i < 1185 { if i < 1183 { 0xc940062e003228018b400c5800646 } else { if i < 1184 { 0xc8a006450032180191400c5800644 } else { 0xc5a0062c0032300191400c5800644 } } } else { if i < 1186 { 0xc940062c0031680192800c5a0062c } else { if i < 1187 { 0xc94006450032080192800c5800645 } else { 0xc8a006450032180192800c5a00628 } } } } }
pub open spec fn U_codes_p_0_8_3(i: int) -> int { if i < 1194 { if i < 1191 { if i < 1189 { 0xc8a006450031a80191400c5800639 } else { if i < 1190 { 0xc940062c0032300192800c5c00633 } else { 0xda40064400321001b4800c8800635 } } } else { if i < 1192 { 0xc86006270032380191000c8800627 } else { if i < 1193 { 0xc5e006450031680191400c6200628 } else { 0xc6600631003228018e400c8800635 } } } } else { if i < 1197 { if i < 1195 { 0xc8e0064a003220018e400c8800648 } else { if i < 1196 { 0xc88006350032280191000c6600648 } else { 0xc4e000200032480191000c6a00649 } } } else { if i < 1198 { 0xc88006390001000191c00c8800644 } else { if i < 1199 { 0xc88006330032400008000c8e0064a } else { 0xc880062c0001000191000c5800645 } } } } }
pub open spec fn U_codes_p_0_8_4(i: int) -> int { if i < 1206 { if i < 1203 { if i < 1201 { 0xc4e006cc0031880191c00c8800627 } else { if i < 1202 { 0x760003a0180100c0040005800644 } else { 0x5c0002e0180b80c0580007e00021 } } } else { if i < 1204 { 0xbe020130100a0000b80005c0002e } else { if i < 1205 { 0x60280007d0003d8000a4000500005f } else { 0x60100300b0180500c0440602003015 } } } } else { if i < 1209 { if i < 1207 { 0xb60300f0180700c0340601803009 } else { if i < 1208 { 0x400030500010000c14000400005d } else { 0xbe0005f0002f800c140004000305 } } } else { if i < 1210 { 0x7e0003a0001d8000b8060020002c } else { if i < 1211 { 0xfa0007b000148000a00402800021 } else { 0x560002a0001300008c0602a03014 } } } } }
pub open spec fn U_codes_p_0_8_5(i: int) -> int { if i < 1218 { if i < 1215 { if i < 1213 { 0x480005c0001e8000f8000780002d } else { if i < 1214 { 0xc9600640003258000800008000025 } else { 0xc9c000200032680008000c9800020 } } } else { if i < 1216 { 0xc9e006400032780008000c9c00640 } else { if i < 1217 { 0xca2000200032800190000ca000020 } else { 0xca4006400032900008000ca200640 } } } } else { if i < 1221 { if i < 1219 { 0xc4e006530031380194c00c4e00621 } else { if i < 1220 { 0xc90006540032400195000c4e00654 } else { 0xc94006550031380195400c4e00654 } } } else { if i < 1222 { 0xc94006540032500195000c9400654 } else { if i < 1223 { 0xc50006280031400189c00c4e00654 } else { 0xc540062a003150018a400c5200628 } } } } }
pub open spec fn U_codes_p_0_8_6(i: int) -> int { if i < 1230 { if i < 1227 { if i < 1225 { 0xc580062b003158018ac00c560062a } else { if i < 1226 { 0xc5a0062d003168018b000c580062c } else { 0xc5e0062e003170018b800c5c0062d } } } else { if i < 1228 { 0xc6400631003188018c000c600062f } else { if i < 1229 { 0xc6800633003198018cc00c6600632 } else { 0xc6a006350031a8018d000c6800634 } } } } else { if i < 1233 { if i < 1231 { 0xc6e006360031b0018d800c6c00635 } else { if i < 1232 { 0xc70006380031c0018dc00c6e00637 } else { 0xc74006390031c8018e400c7200638 } } } else { if i < 1234 { 0xc8200641003208018e800c740063a } else { if i < 1235 { 0xc86006420032100190800c8400641 } else { 0xc88006440032200190c00c8600643 } } } } }
pub open spec fn U_codes_p_0_8_7(i: int) -> int { if i < 1242 { if i < 1239 { if i < 1237 { 0xc8c006450032280191400c8a00644 } else { if i < 1238 { 0xc8e006470032380191800c8c00646 } else { 0xc94006490032480192000c9000647 } } } else { if i < 1240 { 0xca6006270032200192800c940064a } else { if i < 1241 { 0xca8006270032200194c00c4e00644 } else { 0xcaa006270032200195000c4e00644 } } } } else { if i < 1245 { if i < 1243 { 0xc88006270032200195400c4e00644 } else { if i < 1244 { 0x4a00024000118000880004200627 } else { 0x560002a000148000a00004e00026 } } } else { if i < 1246 { 0x6200030000178000b80005a0002c } else { if i < 1247 { 0x6e000360001a8000d00006600032 } else { 0x7a0003c0001d8000e80007200038 } } } } }
pub open spec fn U_codes_p_0_8_8(i: int) -> int { if i < 1254 { if i < 1251 { if i < 1249 { 0x8600042000208001000007e0003e } else { if i < 1250 { 0x9200048000238001180008a00044 } else { 0x9e0004e00026800130000960004a } } } else { if i < 1252 { 0xaa0005400029800148000a200050 } else { if i < 1253 { 0xb60005a0002c800160000ae00056 } else { 0xc2000600002f800178000ba0005c } } } } else { if i < 1257 { if i < 1255 { 0xce0006600032800190000c600062 } else { if i < 1256 { 0xda0006c000358001a8000d200068 } else { 0xe600072000388001c0000de0006e } } } else { if i < 1258 { 0xf2000780003b8001d8000ea00074 } else { if i < 1259 { 0x530a0007e0003e8001f0000f60007a } else { 0x61f6030010180680c0300600402986 } } } } }
pub open spec fn U_codes_p_0_8_9(i: int) -> int { if i < 1266 { if i < 1263 { if i < 1261 { 0x6152030a70185280c28c06142030f2 } else { if i < 1262 { 0x6144030fc0186180c39c061ca030e3 } else { 0x615a030ab0185500c2a00614c030a4 } } } else { if i < 1264 { 0x6172030b70185a80c2cc06162030af } else { if i < 1265 { 0x618c030c40186080c2fc0617a030bb } else { 0x619c030cd0186600c32c06194030c8 } } } } else { if i < 1269 { if i < 1267 { 0x61bc030db0186c00c354061a4030cf } else { if i < 1268 { 0x61cc030e40187100c384061c0030df } else { 0x61da030ec0187580c3a8061d2030e8 } } } else { if i < 1270 { 0x2200011600184d00c264061e6030ef } else { if i < 1271 { 0x2206011ad008d60044080235401101 } else { 0x2366011b2008d88046c00220a01104 } } } } }
pub open spec fn U_codes_p_0_8_10(i: int) -> int { if i < 1278 { if i < 1275 { if i < 1273 { 0x221001107008830044680236a011b4 } else { if i < 1274 { 0x221a0110c008858044280221201121 } else { 0x22c201112008888044400221e0110e } } } else { if i < 1276 { 0x22ce01166008b2804590022c601162 } else { if i < 1277 { 0x22da0116c008b58045a8022d201168 } else { 0x22e601172008b88045c0022de0116e } } } } else { if i < 1281 { if i < 1279 { 0x40000ac00051800288022ea01174 } else { if i < 1280 { 0x432002502010548002940014c00304 } else { 0x5a0025cb012d000864c0432402191 } } } else { if i < 1282 { 0x156cc002a300129800a64001cc002d1 } else { if i < 1283 { 0x4b001d910012b80095800548002a5 } else { 0x5360026000131000990005520025e } } } } }
pub open spec fn U_codes_p_0_8_11(i: int) -> int { if i < 1290 { if i < 1287 { if i < 1285 { 0x556002aa0014200099c0053800127 } else { if i < 1286 { 0x51c1df0500137029e383be080026c } else { 0x4f4000710013b8009d8001f01df06 } } } else { if i < 1288 { 0x54c002a8001400009f8004fa1df08 } else { if i < 1289 { 0x5420028f01638800a200054e0ab67 } else { 0x3be14001c2000e080070000530002a2 } } } } else { if i < 1293 { if i < 1291 { 0x8a0004400021800108000821df1e } else { if i < 1292 { 0x960004a000248001200008e00046 } else { 0xa200050000278001380009a0004c } } } else { if i < 1294 { 0xae000560002a800150000a600052 } else { if i < 1295 { 0x640003100018000168000b200058 } else { 0x70000370001b0000d40006800033 } } } } }
pub open spec fn U_codes_p_0_8(i: int) -> int { if i < 1224 { if i < 1188 { if i < 1164 { U_codes_p_0_8_0(i) } else { if i < 1176 { U_codes_p_0_8_1(i) } else { U_codes_p_0_8_2(i) } } } else { if i < 1200 { U_codes_p_0_8_3(i) } else { if i < 1212 { U_codes_p_0_8_4(i) } else { U_codes_p_0_8_5(i) } } } } else { if i < 1260 { if i < 1236 { U_codes_p_0_8_6(i) } else { if i < 1248 { U_codes_p_0_8_7(i) } else { U_codes_p_0_8_8(i) } } } else { if i < 1272 { U_codes_p_0_8_9(i) } else { if i < 1284 { U_codes_p_0_8_10(i) } else { U_codes_p_0_8_11(i) } } } } }
pub open spec fn U_codes_p_0_9_0(i: int) -> int { if i < 1302 { if i < 1299 { if i < 1297 { 0x8a00044000218001080008200039 } else { if i < 1298 { 0x960004a000248001200008e00046 } else { 0xa200050000278001380009a0004c } } } else { if i < 1300 { 0xae000560002a800150000a600052 } else { if i < 1301 { 0xc60006200030800168000b200058 } else { 0xd20006800033800198000ca00064 } } } } else { if i < 1305 { if i < 1303 { 0xde0006e000368001b0000d60006a } else { if i < 1304 { 0xea00074000398001c8000e200070 } else { 0x820007a0003c8001e0000ee00076 } } } else { if i < 1306 { 0x8e00046000228001100008600042 } else { if i < 1307 { 0x9a0004c000258001280009200048 } else { 0xa600052000288001400009e0004e } } } } }
pub open spec fn U_codes_p_0_9_1(i: int) -> int { if i < 1314 { if i < 1311 { if i < 1309 { 0xb2000580002b800158000aa00054 } else { if i < 1310 { 0xca0006400031800188000c20005a } else { 0xd80006b000350001a4000ce00066 } } } else { if i < 1312 { 0xe400071000380001bc000dc0006d } else { if i < 1313 { 0xf0000770003b0001d4000e800073 } else { 0x880004300021000104000f400079 } } } } else { if i < 1317 { if i < 1315 { 0x94000490002400011c0008c00045 } else { if i < 1316 { 0xa00004f00027000134000980004b } else { 0xac000550002a00014c000a400051 } } } else { if i < 1318 { 0xc4000610002d000164000b000057 } else { if i < 1319 { 0xd00006700033000194000c800063 } else { 0xdc0006d000360001ac000d400069 } } } } }
pub open spec fn U_codes_p_0_9_2(i: int) -> int { if i < 1326 { if i < 1323 { if i < 1321 { 0xe800073000390001c4000e00006f } else { if i < 1322 { 0xf4000790003c0001dc000ec00075 } else { 0x960004a000238001100008600041 } } } else { if i < 1324 { 0xa800053000288001400009e0004e } else { if i < 1325 { 0xb4000590002c00015c000ac00055 } else { 0xd0000660003200018c000c400061 } } } } else { if i < 1329 { if i < 1327 { 0xdc0006d000360001ac000d400069 } else { if i < 1328 { 0xea00074000398001c8000e200070 } else { 0x820007a0003c8001e0000ee00076 } } } else { if i < 1330 { 0x8e00046000228001100008600042 } else { if i < 1331 { 0x9a0004c000258001280009200048 } else { 0xa600052000288001400009e0004e } } } } }
pub open spec fn U_codes_p_0_9_3(i: int) -> int { if i < 1338 { if i < 1335 { if i < 1333 { 0xb2000580002b800158000aa00054 } else { if i < 1334 { 0xca0006400031800188000c20005a } else { 0xd60006a000348001a0000ce00066 } } } else { if i < 1336 { 0xe200070000378001b8000da0006c } else { if i < 1337 { 0xee000760003a8001d0000e600072 } else { 0x8800042000208001e8000f200078 } } } } else { if i < 1341 { if i < 1339 { 0x980004b0002500011c0008c00045 } else { if i < 1340 { 0xa6000510002800013c0009c0004d } else { 0xb2000580002b800158000aa00054 } } } else { if i < 1342 { 0xcc000650003200018c000c400061 } else { if i < 1343 { 0xd80006b000350001a4000d000067 } else { 0xe400071000380001bc000dc0006d } } } } }
pub open spec fn U_codes_p_0_9_4(i: int) -> int { if i < 1350 { if i < 1347 { if i < 1345 { 0xf0000770003b0001d4000e800073 } else { if i < 1346 { 0x8a0004400021000104000f400079 } else { 0x980004b000250001240008e00046 } } } else { if i < 1348 { 0xac000550002a00014c0009e0004d } else { if i < 1349 { 0xc60006200030800164000b000057 } else { 0xd20006800033800198000ca00064 } } } } else { if i < 1353 { if i < 1351 { 0xde0006e000368001b0000d60006a } else { if i < 1352 { 0xea00074000398001c8000e200070 } else { 0x820007a0003c8001e0000ee00076 } } } else { if i < 1354 { 0x8e00046000228001100008600042 } else { if i < 1355 { 0x9a0004c000258001280009200048 } else { 0xa600052000288001400009e0004e } } } } }
pub open spec fn U_codes_p_0_9_5(i: int) -> int { if i < 1362 { if i < 1359 { if i < 1357 { 0xb2000580002b800158000aa00054 } else { if i < 1358 { 0xca0006400031800188000c20005a } else { 0xd60006a000348001a0000ce00066 } } } else { if i < 1360 { 0xe200070000378001b8000da0006c } else { if i < 1361 { 0xee000760003a8001d0000e600072 } else { 0x8600042000208001e8000f200078 } } } } else { if i < 1365 { if i < 1363 { 0x9200048000238001180008a00044 } else { if i < 1364 { 0x9e0004e00026800130000960004a } else { 0xaa0005400029800148000a200050 } } } else { if i < 1366 { 0xc20005a0002c800160000ae00056 } else { if i < 1367 { 0xce0006600032800190000c600062 } else { 0xda0006c000358001a8000d200068 } } } } }
pub open spec fn U_codes_p_0_9_6(i: int) -> int { if i < 1374 { if i < 1371 { if i < 1369 { 0xe600072000388001c0000de0006e } else { if i < 1370 { 0xf2000780003b8001d8000ea00074 } else { 0x8a0004400021800108000820007a } } } else { if i < 1372 { 0x960004a000248001200008e00046 } else { if i < 1373 { 0xa200050000278001380009a0004c } else { 0xae000560002a800150000a600052 } } } } else { if i < 1377 { if i < 1375 { 0xc60006200030800168000b200058 } else { if i < 1376 { 0xd20006800033800198000ca00064 } else { 0xde0006e000368001b0000d60006a } } } else { if i < 1378 { 0xea00074000398001c8000e200070 } else { if i < 1379 { 0x820007a0003c8001e0000ee00076 } else { 0x8e00046000228001100008600042 } } } } }
pub open spec fn U_codes_p_0_9_7(i: int) -> int { if i < 1386 { if i < 1383 { if i < 1381 { 0x9a0004c000258001280009200048 } else { if i < 1382 { 0xa600052000288001400009e0004e } else { 0xb2000580002b800158000aa00054 } } } else { if i < 1384 { 0xca0006400031800188000c20005a } else { if i < 1385 { 0xd60006a000348001a0000ce00066 } else { 0xe200070000378001b8000da0006c } } } } else { if i < 1389 { if i < 1387 { 0xee000760003a8001d0000e600072 } else { if i < 1388 { 0x8600042000208001e8000f200078 } else { 0x9200048000238001180008a00044 } } } else { if i < 1390 { 0x9e0004e00026800130000960004a } else { if i < 1391 { 0xaa0005400029800148000a200050 } else { 0xc20005a0002c800160000ae00056 } } } } }
pub open spec fn U_codes_p_0_9_8(i: int) -> int { if i < 1398 { if i < 1395 { if i < 1393 { 0xce0006600032800190000c600062 } else { if i < 1394 { 0xda0006c000358001a8000d200068 } else { 0xe600072000388001c0000de0006e } } } else { if i < 1396 { 0xf2000780003b8001d8000ea00074 } else { if i < 1397 { 0x8a0004400021800108000820007a } else { 0x960004a000248001200008e00046 } } } } else { if i < 1401 { if i < 1399 { 0xa200050000278001380009a0004c } else { if i < 1400 { 0xae000560002a800150000a600052 } else { 0xc60006200030800168000b200058 } } } else { if i < 1402 { 0xd20006800033800198000ca00064 } else { if i < 1403 { 0xde0006e000368001b0000d60006a } else { 0xea00074000398001c8000e200070 } } } } }
pub open spec fn U_codes_p_0_9_9(i: int) -> int { if i < 1410 { if i < 1407 { if i < 1405 { 0x2620007a0003c8001e0000ee00076 } else { if i < 1406 { 0x72a00394001c9800e480072200237 } else { 0x7360039a001cc800e600072e00396 } } } else { if i < 1408 { 0x742003a0001cf800e780073a0039c } else { if i < 1409 { 0x74e003a6001d2800e900074600398 } else { 0x766003b2001d880881c00752003a8 } } } } else { if i < 1413 { if i < 1411 { 0x772003b8001db800ed80076a003b4 } else { if i < 1412 { 0x77e003be001de800ef000776003ba } else { 0x78a003c4001e1800f0800782003c0 } } } else { if i < 1414 { 0x76a02202001e4800f200078e003c6 } else { if i < 1415 { 0x722003c0001e0800f1800774003b8 } else { 0x72e00396001ca800e500072600392 } } } } }
pub open spec fn U_codes_p_0_9_10(i: int) -> int { if i < 1422 { if i < 1419 { if i < 1417 { 0x73a0039c001cd800e680073200398 } else { if i < 1418 { 0x74600398001d0800e800073e0039e } else { 0x752003a8001d3800e980074a003a4 } } } else { if i < 1420 { 0x76a003b4001d9800ec80076202207 } else { if i < 1421 { 0x776003ba001dc800ee00076e003b6 } else { 0x782003c0001df800ef80077a003bc } } } } else { if i < 1425 { if i < 1423 { 0x78e003c6001e2800f1000786003c2 } else { if i < 1424 { 0x774003b8001da80880800792003c8 } else { 0x72600392001c8800f0000782003c6 } } } else { if i < 1426 { 0x73200398001cb800e580072a00394 } else { if i < 1427 { 0x73e0039e001ce800e70007360039a } else { 0x74a003a4001d1800e6000742003a0 } } } } }
pub open spec fn U_codes_p_0_9_11(i: int) -> int { if i < 1434 { if i < 1431 { if i < 1429 { 0x76202207001d4800ea00074e003a6 } else { if i < 1430 { 0x76e003b6001da800ed000766003b2 } else { 0x77a003bc001dd800ee800772003b8 } } } else { if i < 1432 { 0x786003c2001e0800f000077e003be } else { if i < 1433 { 0x792003c8001e3800f180078a003c4 } else { 0x782003c6001dd000ee00076a02202 } } } } else { if i < 1437 { if i < 1435 { 0x72a00394001c9800e4800722003c0 } else { if i < 1436 { 0x7360039a001cc800e600072e00396 } else { 0x742003a0001cf800e780073a0039c } } } else { if i < 1438 { 0x74e003a6001d2800e900074600398 } else { if i < 1439 { 0x766003b2001d880881c00752003a8 } else { 0x772003b8001db800ed80076a003b4 } } } } }
pub open spec fn U_codes_p_0_9(i: int) -> int { if i < 1368 { if i < 1332 { if i < 1308 { U_codes_p_0_9_0(i) } else { if i < 1320 { U_codes_p_0_9_1(i) } else { U_codes_p_0_9_2(i) } } } else { if i < 1344 { U_codes_p_0_9_3(i) } else { if i < 1356 { U_codes_p_0_9_4(i) } else { U_codes_p_0_9_5(i) } } } } else { if i < 1404 { if i < 1380 { U_codes_p_0_9_6(i) } else { if i < 1392 { U_codes_p_0_9_7(i) } else { U_codes_p_0_9_8(i) } } } else { if i < 1416 { U_codes_p_0_9_9(i) } else { if i < 1428 { U_codes_p_0_9_10(i) } else { U_codes_p_0_9_11(i) } } } } }
pub open spec fn U_codes_p_0_10_0(i: int) -> int { if i < 1446 { if i < 1443 { if i < 1441 { 0x77e003be001de800ef000776003ba } else { if i < 1442 { 0x78a003c4001e1800f0800782003c0 } else { 0x76a02202001e4800f200078e003c6 } } } else { if i < 1444 { 0x722003c0001e0800f1800774003b8 } else { if i < 1445 { 0x72e00396001ca800e500072600392 } else { 0x73a0039c001cd800e680073200398 } } } } else { if i < 1449 { if i < 1447 { 0x74600398001d0800e800073e0039e } else { if i < 1448 { 0x752003a8001d3800e980074a003a4 } else { 0x76a003b4001d9800ec80076202207 } } } else { if i < 1450 { 0x776003ba001dc800ee00076e003b6 } else { if i < 1451 { 0x782003c0001df800ef80077a003bc } else { 0x78e003c6001e2800f1000786003c2 } } } } }
pub open spec fn U_codes_p_0_10_1(i: int) -> int { if i < 1458 { if i < 1455 { if i < 1453 { 0x774003b8001da80880800792003c8 } else { if i < 1454 { 0x60003dd001ee000f0000782003c6 } else { 0x6c000350001a0000cc0006400031 } } } else { if i < 1456 { 0x6400031000180000e40007000037 } else { if i < 1457 { 0x70000370001b0000d40006800033 } else { 0x6800033000190000c40006000039 } } } } else { if i < 1461 { if i < 1459 { 0x60000390001c0000dc0006c00035 } else { if i < 1460 { 0x6c000350001a0000cc0006400031 } else { 0x6400031000180000e40007000037 } } } else { if i < 1462 { 0x70000370001b0000d40006800033 } else { if i < 1463 { 0x86800433002190010c40086000039 } else { 0x8760043a0021c0010dc0086c00435 } } } } }
pub open spec fn U_codes_p_0_10_2(i: int) -> int { if i < 1470 { if i < 1467 { if i < 1465 { 0x88400441002200010fc0087c0043c } else { if i < 1466 { 0x89000447002230011140088800443 } else { 0x8ac004d9053448011380089a0044b } } } else { if i < 1468 { 0x86200430002678012bc009d200458 } else { if i < 1469 { 0x86e004360021a8010d00086600432 } else { 0x8820043f0021f0010ec0087400438 } } } } else { if i < 1473 { if i < 1471 { 0x89000447002230011140088800443 } else { if i < 1472 { 0x8be004550022b001244008960044a } else { 0xc5800628003138012c414ca2004ab } } } else { if i < 1474 { 0xc9400637003168018c800c900062f } else { if i < 1475 { 0xc72006330032300191400c8800643 } else { 0xc54006340031880190800c6a00641 } } } } }
pub open spec fn U_codes_p_0_10_3(i: int) -> int { if i < 1482 { if i < 1479 { if i < 1477 { 0xc74006380031b0018c000c5c0062b } else { if i < 1478 { 0xc580062800337801a8400d740066e } else { 0xc8a006440032180192800c5a00647 } } } else { if i < 1480 { 0xc8400635003208018e400c6600646 } else { if i < 1481 { 0xc7400636003170018ac00c5400634 } else { 0xc66006460032200192800c5a0062c } } } } else { if i < 1485 { if i < 1483 { 0xc6c0062e0031a00190800c6a00639 } else { if i < 1484 { 0xc8e0062c003140019bc00d740063a } else { 0xc8c006450032180192800c6e0062d } } } else { if i < 1486 { 0xc68006420031a80190400c7200633 } else { if i < 1487 { 0xc74006380031b0018b800c560062a } else { 0xc5e0062c0031400189c00d420066e } } } } }
pub open spec fn U_codes_p_0_10_4(i: int) -> int { if i < 1494 { if i < 1491 { if i < 1489 { 0xc9400637003168018c800c9000647 } else { if i < 1490 { 0xc82006390031980191800c8a00644 } else { 0xc560062a0031a0018c400c8400635 } } } else { if i < 1492 { 0xc500063a0031c0018d800c600062e } else { if i < 1493 { 0xc6e0062d0031900192000c5e0062c } else { 0xc72006330032300191400c880064a } } } } else { if i < 1497 { if i < 1495 { 0xc54006340031880190800c6a00641 } else { if i < 1496 { 0xc74006380031b0018c000c5c0062b } else { 0x5800031000160000c00005c00030 } } } else { if i < 1498 { 0x5800034000160000cc0005800032 } else { if i < 1499 { 0x5800037000160000d80005800035 } else { 0x8200028000160000e40005800038 } } } } }
pub open spec fn U_codes_p_0_10_5(i: int) -> int { if i < 1506 { if i < 1503 { if i < 1501 { 0x8600028000148001080005000029 } else { if i < 1502 { 0x8a00028000148001100005000029 } else { 0x8e00028000148001180005000029 } } } else { if i < 1504 { 0x9200028000148001200005000029 } else { if i < 1505 { 0x9600028000148001280005000029 } else { 0x9a00028000148001300005000029 } } } } else { if i < 1509 { if i < 1507 { 0x9e00028000148001380005000029 } else { if i < 1508 { 0xa200028000148001400005000029 } else { 0xa600028000148001480005000029 } } } else { if i < 1510 { 0xaa00028000148001500005000029 } else { if i < 1511 { 0xae00028000148001580005000029 } else { 0xb200028000148001600005000029 } } } } }
pub open spec fn U_codes_p_0_10_6(i: int) -> int { if i < 1518 { if i < 1515 { if i < 1513 { 0xa603014000148001680005000029 } else { if i < 1514 { 0xae00044000218001480008603015 } else { 0x8a0004400021800108000820005a } } } else { if i < 1516 { 0x960004a000248001200008e00046 } else { if i < 1517 { 0xa200050000278001380009a0004c } else { 0xae000560002a800150000a600052 } } } } else { if i < 1521 { if i < 1519 { 0x9a0005600024000168000b200058 } else { if i < 1520 { 0xa00005300029800110000a600056 } else { 0x860004d0002180015c000ac00050 } } } else { if i < 1522 { 0x940004400029000134000880004d } else { if i < 1523 { 0xc496030b50185980c2cc060960307b } else { 0xb23404e8c0184c80c3180a79805b57 } } } } }
pub open spec fn U_codes_p_0_10_7(i: int) -> int { if i < 1530 { if i < 1527 { if i < 1525 { 0xcb320712103310013a900b252089e3 } else { if i < 1526 { 0xfa840521d032d80146340bf180524d } else { 0xc52a06f1402a1c8163c0119520751f } } } else { if i < 1528 { 0x9c5a05de60482501382409c0006355 } else { if i < 1529 { 0xf4f407981031298235c00c60e053f3 } else { 0xa4e40753303384019c240dd0005408 } } } } else { if i < 1533 { if i < 1531 { 0x6028030150339600c0501229a055b6 } else { if i < 1532 { 0x6028030150274600c0500602a04e09 } else { 0x6028030150385c80c0500602a05b89 } } } else { if i < 1534 { 0x60280301503b6b80c0500602a06253 } else { if i < 1535 { 0xbf2e03015032ab80c0500602a052dd } else { 0x6800033000190000c400060053ef } } } } }
pub open spec fn U_codes_p_0_10_8(i: int) -> int { if i < 1542 { if i < 1539 { if i < 1537 { 0x11890000390001c0000dc0006c00035 } else { if i < 1538 { 0x119900fe000476503f8000cde80fe00 } else { 0xa7ca0fe000271903f8000dda20fe00 } } } else { if i < 1540 { 0xb2a20fe0104fce03f80013f380fe00 } else { if i < 1541 { 0xb2900fe0002ac383f800123a20fe00 } else { 0xff0a0fe0003b3483f8000c3ec0fe00 } } } } else { if i < 1545 { if i < 1543 { 0x111f00fe00043dd03f80010c7e0fe00 } else { if i < 1544 { 0xda360fe000350103f8001211e0fe00 } else { 0x1087a0fe00039ef03f8000e1b20fe00 } } } else { if i < 1546 { 0x9d040fe0004cf883f800122d40fe00 } else { if i < 1547 { 0xe4360fe000358203f8000a6ea0fe00 } else { 0xbaa00fe0004f0f03f80010c5a0fe00 } } } } }
pub open spec fn U_codes_p_0_10_9(i: int) -> int { if i < 1554 { if i < 1551 { if i < 1549 { 0x112c80fe00042e683f8000dfd60fe00 } else { if i < 1550 { 0x1103e0fe00040ec03f8000c5920fe00 } else { 0xdad40fe000338b83f8000bd940fe00 } } } else { if i < 1552 { 0x9f0c0fe000486703f8000e5f80fe00 } else { if i < 1553 { 0xc9880fe000296f03f8000a36e0fe00 } else { 0xedce0fe000390803f8000d5a60fe00 } } } } else { if i < 1557 { if i < 1555 { 0x10cb80fe000430303f800100020fe00 } else { if i < 1556 { 0x136de0fe0004b9903f80011bde0fe00 } else { 0xf2fe0fe0003c4603f80013bf40fe00 } } } else { if i < 1558 { 0x126080fe00041e483f8000fb400fe00 } else { if i < 1559 { 0xb1be0fe000456b03f80013cfe0fe00 } else { 0x100fc0fe0003e3003f8000be080fe00 } } } } }
pub open spec fn U_codes_p_0_10_10(i: int) -> int { if i < 1566 { if i < 1563 { if i < 1561 { 0x119840fe0003c6503f8000e4c40fe00 } else { if i < 1562 { 0xb8c40fe0002c6c03f80012dee0fe00 } else { 0xde1e0fe00036ed03f8000d4260fe00 } } } else { if i < 1564 { 0x12c960fe0003f1b83f8000fa5e0fe00 } else { if i < 1565 { 0xa3b80fe000404583f8000a5a40fe00 } else { 0xfb7c0fe0003d0e03f8000a3980fe00 } } } } else { if i < 1569 { if i < 1567 { 0x117000fe0004b3a83f800107e20fe00 } else { if i < 1568 { 0x115fc0fe010350103f8000c59e0fe00 } else { 0xc0240fe0002df383f80009c720fe00 } } } else { if i < 1570 { 0xa62e0fe0003ab803f8000e70e0fe00 } else { if i < 1571 { 0xbf520fe00027df83f8000f1f60fe00 } else { 0xcaf00fe000366603f80009c1a0fe00 } } } } }
pub open spec fn U_codes_p_0_10_11(i: int) -> int { if i < 1578 { if i < 1575 { if i < 1573 { 0xb0bc0fe00029e183f8000fa440fe00 } else { if i < 1574 { 0x115540fe000422483f8000ee020fe00 } else { 0xd9100fe00047d803f8000d7740fe00 } } } else { if i < 1576 { 0xc7400fe000417283f8000c5fc0fe00 } else { if i < 1577 { 0xa2d20fe000275703f8000eaca0fe00 } else { 0xf9ce0fe000344083f8000a3920fe00 } } } } else { if i < 1581 { if i < 1579 { 0x1239e0fe000456903f800104de0fe00 } else { if i < 1580 { 0xb2e60fe0002a2103f8000a5ea0fe00 } else { 0xdffc0fe00032e283f8000bdd80fe00 } } } else { if i < 1582 { 0x134d40fe0004ad683f8000f2540fe00 } else { if i < 1583 { 0xa5360fe0004f6703f80013d2e0fe00 } else { 0x11ec40fe00035bb83f8000cd8c0fe00 } } } } }
pub open spec fn U_codes_p_0_10(i: int) -> int { if i < 1512 { if i < 1476 { if i < 1452 { U_codes_p_0_10_0(i) } else { if i < 1464 { U_codes_p_0_10_1(i) } else { U_codes_p_0_10_2(i) } } } else { if i < 1488 { U_codes_p_0_10_3(i) } else { if i < 1500 { U_codes_p_0_10_4(i) } else { U_codes_p_0_10_5(i) } } } } else { if i < 1548 { if i < 1524 { U_codes_p_0_10_6(i) } else { if i < 1536 { U_codes_p_0_10_7(i) } else { U_codes_p_0_10_8(i) } } } else { if i < 1560 { U_codes_p_0_10_9(i) } else { if i < 1572 { U_codes_p_0_10_10(i) } else { U_codes_p_0_10_11(i) } } } } }
pub open spec fn U_codes_p_0_11_0(i: int) -> int { if i < 1590 { if i < 1587 { if i < 1585 { 0xc4000fe00030c803f8000bce80fe00 } else { if i < 1586 { 0xe2920fe000379183f8000c9340fe00 } else { 0xfbe80fe0003ce503f8000e9120fe00 } } } else { if i < 1588 { 0x109dc0fe000479303f800100de0fe00 } else { if i < 1589 { 0xa42e0fe00049a503f800120460fe00 } else { 0xe1900fe0002a5e83f8000a5460fe00 } } } } else { if i < 1593 { if i < 1591 { 0xbd920fe010455503f800111840fe00 } else { if i < 1592 { 0xd75c0fe00031bd83f8000bfea0fe00 } else { 0x9dc80fe00039ba83f8000f87c0fe00 } } } else { if i < 1594 { 0xbb740fe0102df383f8000adf20fe00 } else { if i < 1595 { 0xe8d20fe00039d903f8000c0380fe00 } else { 0x124680fe000402303f8000ff340fe00 } } } } }
pub open spec fn U_codes_p_0_11_1(i: int) -> int { if i < 1602 { if i < 1599 { if i < 1597 { 0x130300fe0004ba403f80012dec0fe00 } else { if i < 1598 { 0x123680fe0003cd703f80009f160fe00 } else { 0x9d0c0fe000307083f80012d700fe00 } } } else { if i < 1600 { 0xb87e0fe0002df703f8000a1b40fe00 } else { if i < 1601 { 0xe39c0fe020350103f8000cb320fe00 } else { 0x120f80fe000427e03f8000ec840fe00 } } } } else { if i < 1605 { if i < 1603 { 0x12c5c0fe000334403f80013f1a0fe00 } else { if i < 1604 { 0xcfe60fe00033bd83f8000a5120fe00 } else { 0xe8120fe000374e03f8000da820fe00 } } } else { if i < 1606 { 0xfa200fe0003c3583f8000eab20fe00 } else { if i < 1607 { 0xc45c0fe00028b683f800130bc0fe00 } else { 0xba320fe000281583f80012cf00fe00 } } } } }
pub open spec fn U_codes_p_0_11_2(i: int) -> int { if i < 1614 { if i < 1611 { if i < 1609 { 0xbf160fe000479503f8000dbd40fe00 } else { if i < 1610 { 0xe70e0fe000340b83f8000c2880fe00 } else { 0xa81e0fe000291483f80012d0c0fe01 } } } else { if i < 1612 { 0xce9c0fe000330983f8000b8ca0fe00 } else { if i < 1613 { 0xe80c0fe000367283f8000d1500fe00 } else { 0x1119e0fe0003fbc83f8000ebc40fe00 } } } } else { if i < 1617 { if i < 1615 { 0x12dc40fe00048e603f800111c20fe00 } else { if i < 1616 { 0xa83a0fe000375d03f8000a67e0fe00 } else { 0x10bf40fe0003a4c03f8000e3a00fe00 } } } else { if i < 1618 { 0x13d3e0fe0004e2b83f80012d460fe00 } else { if i < 1619 { 0x103d00fe00036e583f8000cf2e0fe00 } else { 0xf9240fe0003d9003f8000f5960fe00 } } } } }
pub open spec fn U_codes_p_0_11_3(i: int) -> int { if i < 1626 { if i < 1623 { if i < 1621 { 0x116b00fe000384c83f8000e5800fe00 } else { if i < 1622 { 0xa4740fe000419b03f80009d800fe00 } else { 0xc5a60fe0002f5303f8000a40e0fe00 } } } else { if i < 1624 { 0xda3c0fe0002dc283f8000f9ac0fe00 } else { if i < 1625 { 0x110980fe000479d83f8000cd680fe00 } else { 0xbda60fe00044c583f80012c9a0fe00 } } } } else { if i < 1629 { if i < 1627 { 0xb0b40fe0002ae003f8000a2800fe00 } else { if i < 1628 { 0xe6540fe00028ef03f8000cce80fe00 } else { 0xf2bc0fe0003c9e03f8000ed940fe00 } } } else { if i < 1630 { 0x12eac0fe0003cc783f8000f2ca0fe00 } else { if i < 1631 { 0x10c240fe0003fde83f8000f97c0fe00 } else { 0x121fa0fe000481c03f800115f00fe00 } } } } }
pub open spec fn U_codes_p_0_11_4(i: int) -> int { if i < 1638 { if i < 1635 { if i < 1633 { 0x132500fe0004c7e03f800131de0fe00 } else { if i < 1634 { 0x12d6e0fe000486f03f80013b680fe00 } else { 0xa29a0fe000287383f80009f5c0fe00 } } } else { if i < 1636 { 0xa6a20fe000297203f8000a5920fe00 } else { if i < 1637 { 0xacd00fe0002b0303f8000ab3a0fe00 } else { 0xb8c80fe0002c5403f8000b0800fe00 } } } } else { if i < 1641 { if i < 1639 { 0xc2d00fe000304a03f8000b8dc0fe00 } else { if i < 1640 { 0xca9e0fe00030f903f8000c31c0fe00 } else { 0xd10a0fe000334883f8000cbc40fe00 } } } else { if i < 1642 { 0xde440fe000370d03f8000daee0fe00 } else { if i < 1643 { 0xe8440fe000391583f8000e2dc0fe00 } else { 0xf2920fe0003c9f03f8000f1220fe00 } } } } }
pub open spec fn U_codes_p_0_11_5(i: int) -> int { if i < 1650 { if i < 1647 { if i < 1645 { 0xf2ac0fe0003ca803f8000f2900fe00 } else { if i < 1646 { 0xf31c0fe0003cc683f8000f2ba0fe00 } else { 0xf7800fe0003d4083f8000f4800fe00 } } } else { if i < 1648 { 0xfc820fe0003f0483f8040fbe80fe00 } else { if i < 1649 { 0x103da0fe000400283f8000fee40fe00 } else { 0x108ae0fe010413c83f800104f20fe00 } } } } else { if i < 1653 { if i < 1651 { 0x116020fe00044cb03f800112200fe00 } else { if i < 1652 { 0x11a100fe000466983f800116720fe00 } else { 0x12dc60fe010481c03f80011f6c0fe00 } } } else { if i < 1654 { 0xc0ea0fe0004c1d83f80012ffe0fe00 } else { if i < 1655 { 0x9c4c0fe000410c03f800485dc0fe00 } else { 0x9f000fe00028b403f8000a36a0fe00 } } } } }
pub open spec fn U_codes_p_0_11_6(i: int) -> int { if i < 1662 { if i < 1659 { if i < 1657 { 0xa58e0fe00028c003f8000a28a0fe00 } else { if i < 1658 { 0xaaaa0fe0102ace83f8000a5f40fe00 } else { 0xb0b40fe0002af103f8000ab320fe00 } } } else { if i < 1660 { 0xb2a80fe0002ca203f8000b1660fe01 } else { if i < 1661 { 0xbda40fe0002d9403f8000b4c40fe00 } else { 0xbf5a0fe0002fb483f8000bdb20fe00 } } } } else { if i < 1665 { if i < 1663 { 0xc2100fe00030a703f8000c1b00fe00 } else { if i < 1664 { 0xc3e40fe00030b003f8040c31c0fe00 } else { 0xc8380fe00031e203f8000c4680fe01 } } } else { if i < 1666 { 0xcce80fe00032ab03f8000c8a40fe00 } else { if i < 1667 { 0xceac0fe000338d83f8040ce2e0fe01 } else { 0xda820fe01035dd03f8000d6f20fe00 } } } } }
pub open spec fn U_codes_p_0_11_7(i: int) -> int { if i < 1674 { if i < 1671 { if i < 1669 { 0xde440fe000376583f8000ddb60fe01 } else { if i < 1670 { 0xef4e0fe01038b703f8000e03c0fe01 } else { 0xe6540fe000395783f8000e46a0fe00 } } } else { if i < 1672 { 0xea760fe0003a8303f8000e8e20fe01 } else { if i < 1673 { 0xed940fe0003b0f83f8000ec3a0fe00 } else { 0xee940fe0003b7a03f8000edb60fe01 } } } } else { if i < 1677 { if i < 1675 { 0xf5620fe0003c6603f8000ee800fe00 } else { if i < 1676 { 0xfab60fe0003e3d83f8040f7800fe00 } else { 0x1000a0fe0003f9f03f8080fbe80fe00 } } } else { if i < 1678 { 0x10ef20fe00041f783f800106a40fe01 } else { if i < 1679 { 0x1132c0fe00044c303f800112820fe00 } else { 0x115960fe010457c03f8001157e0fe01 } } } } }
pub open spec fn U_codes_p_0_11_8(i: int) -> int { if i < 1686 { if i < 1683 { if i < 1681 { 0x115da0fe010457f03f804116020fe00 } else { if i < 1682 { 0x11a100fe00045c503f804116720fe00 } else { 0x123320fe000483903f80011e700fe01 } } } else { if i < 1684 { 0x12dc60fe0004b3e03f800124ec0fe00 } else { if i < 1685 { 0x12ffe0fe0004bed83f80412eac0fe01 } else { 0x136240fe0104c1d83f800130160fe01 } } } } else { if i < 1689 { if i < 1687 { 0x450880fe001142503f80813f380fe00 } else { if i < 1688 { 0x80300fe0001dce83f800467aa0fe00 } else { 0x4b9a00fe001292483f800080720fe00 } } } else { if i < 1690 { 0x13f1c0fe0004fa183f8004fda60fe00 } else { if i < 1691 { 0x9c820fe000271c03f80009c7a0fe00 } else { 0x9f5c0fe00027b003f800402440fe00 } } } } }
pub open spec fn U_codes_p_0_11_9(i: int) -> int { if i < 1698 { if i < 1695 { if i < 1693 { 0xa0f40fe000280103f80009f760fe01 } else { if i < 1694 { 0xa19e0fe010287383f8000a1320fe00 } else { 0xa29a0fe001031d03f8000693c0fe00 } } } else { if i < 1696 { 0xa2ee0fe00028b203f8000a2a80fe01 } else { if i < 1697 { 0xa2ce0fe0001a5c83f80040a380fe00 } else { 0xa32e0fe00102a583f8000a31a0fe00 } } } } else { if i < 1701 { if i < 1699 { 0xa3580fe000276603f8000a3480fe00 } else { if i < 1700 { 0xa3ea0fe00148ef83f8040a36a0fe00 } else { 0xa4760fe0001a6f83f8000a4060fe00 } } } else { if i < 1702 { 0xa4ee0fe000293903f8000a48c0fe00 } else { if i < 1703 { 0xa5920fe010296383f80006a2a0fe00 } else { 0xa60a0fe010297d03f8040a5c80fe01 } } } } }
pub open spec fn U_codes_p_0_11_10(i: int) -> int { if i < 1710 { if i < 1707 { if i < 1705 { 0xa6920fe010298b83f8000a60c0fe00 } else { if i < 1706 { 0xa6e60fe00029ad03f8040a6a20fe00 } else { 0xa6fe0fe00029bf83f8000a6fa0fe00 } } } else { if i < 1708 { 0xe0e00fe001051603f8080a6fe0fe01 } else { if i < 1709 { 0x416c60fe00029ef83f8000a7940fe00 } else { 0xa80c0fe00029f883f8000a7d60fe00 } } } } else { if i < 1713 { if i < 1711 { 0xa8900fe0002a1c03f8000a93c0fe00 } else { if i < 1712 { 0xa9ec0fe0002a5103f8000a8d00fe00 } else { 0xaac60fe0002aa983f8000aa200fe00 } } } else { if i < 1714 { 0xab320fe0102ac203f8000ab080fe00 } else { if i < 1715 { 0xab840fe0002ad983f8000ab560fe01 } else { 0xae2e0fe0102b0303f8000ae2c0fe00 } } } } }
pub open spec fn U_codes_p_0_11_11(i: int) -> int { if i < 1722 { if i < 1719 { if i < 1717 { 0xa40e0fe0002b3a03f8000aca20fe00 } else { if i < 1718 { 0xafe80fe0002be703f8000b1dc0fe01 } else { 0xb0640fe0002bc583f8000b01a0fe00 } } } else { if i < 1720 { 0x429c80fe0002c5603f8000b0620fe00 } else { if i < 1721 { 0xb20c0fe0002c7b83f8000b1e40fe00 } else { 0xb2c40fe0002c9103f8000b2340fe00 } } } } else { if i < 1725 { if i < 1723 { 0xb3d80fe0010b7503f80042d500fe00 } else { if i < 1724 { 0xb3b00fe0002d1383f8000b4360fe00 } else { 0x6df80fe0001b7703f8000b4cc0fe00 } } } else { if i < 1726 { 0xb67c0fe0002d9f03f8000b6100fe00 } else { if i < 1727 { 0xb7b00fe0002de183f800433900fe01 } else { 0x436300fe0002df983f8080b7ce0fe00 } } } } }
pub open spec fn U_codes_p_0_11(i: int) -> int { if i < 1656 { if i < 1620 { if i < 1596 { U_codes_p_0_11_0(i) } else { if i < 1608 { U_codes_p_0_11_1(i) } else { U_codes_p_0_11_2(i) } } } else { if i < 1632 { U_codes_p_0_11_3(i) } else { if i < 1644 { U_codes_p_0_11_4(i) } else { U_codes_p_0_11_5(i) } } } } else { if i < 1692 { if i < 1668 { U_codes_p_0_11_6(i) } else { if i < 1680 { U_codes_p_0_11_7(i) } else { U_codes_p_0_11_8(i) } } } else { if i < 1704 { U_codes_p_0_11_9(i) } else { if i < 1716 { U_codes_p_0_11_10(i) } else { U_codes_p_0_11_11(i) } } } } }
pub open spec fn U_codes_p_0(i: int) -> int { if i < 864 { if i < 432 { if i < 144 { U_codes_p_0_0(i) } else { if i < 288 { U_codes_p_0_1(i) } else { U_codes_p_0_2(i) } } } else { if i < 576 { U_codes_p_0_3(i) } else { if i < 720 { U_codes_p_0_4(i) } else { U_codes_p_0_5(i) } } } } else { if i < 1296 { if i < 1008 { U_codes_p_0_6(i) } else { if i < 1152 { U_codes_p_0_7(i) } else { U_codes_p_0_8(i) } } } else { if i < 1440 { U_codes_p_0_9(i) } else { if i < 1584 { U_codes_p_0_10(i) } else { U_codes_p_0_11(i) } } } } }
pub open spec fn U_codes_p_1_0(i: int) -> int { if i < 1734 { if i < 1731 { if i < 1729 { 0xbea60fe0002e0303f8000b7fe0fe00 } else { if i < 1730 { 0xb8c00fe0001bc083f8000b8440fe00 } else { 0xb91a0fe0002e6003f8040b8dc0fe00 } } } else { if i < 1732 { 0x43bcc0fe0002ea183f80043bc80fe00 } else { if i < 1733 { 0xbaf80fe0002eb583f8000badc0fe00 } else { 0x705e0fe0002ef103f8000bbc20fe00 } } } } else { if i < 1737 { if i < 1735 { 0xbc7a0fe0002f1403f8000bbfa0fe00 } else { if i < 1736 { 0x443060fe0001c3103f8000bcd20fe00 } else { 0xbd660fe0002f5803f800070f80fe00 } } } else { if i < 1738 { 0x547240fe0102f6503f8000bd6c0fe00 } else { if i < 1739 { 0x446620fe001119883f8000bdfc0fe00 } else { 0xbe440fe0002f9103f800104020fe01 } } } } }
pub open spec fn U_codes_p_1_1(i: int) -> int { if i < 1746 { if i < 1743 { if i < 1741 { 0x4c3b40fe001195c03f8000718e0fe01 } else { if i < 1742 { 0x71c60fe0002fb583f8000bec40fe00 } else { 0xbfae0fe0002fe683f8000bf340fe00 } } } else { if i < 1744 { 0x72740fe000304083f8000bff20fe00 } else { if i < 1745 { 0x44da80fe010304a03f800072380fe00 } else { 0xc2980fe00030a403f8000c18e0fe00 } } } } else { if i < 1749 { if i < 1747 { 0xc2f40fe01030a603f8040c29c0fe00 } else { if i < 1748 { 0xc3480fe00030d903f8080c31c0fe00 } else { 0xc3e40fe00030ef03f8000c35e0fe00 } } } else { if i < 1750 { 0xc4360fe000310803f8040c3ec0fe02 } else { if i < 1751 { 0xc5a80fe000315883f8000c4ba0fe00 } else { 0xc67a0fe001158603f8000c6a00fe00 } } } } }
pub open spec fn U_codes_p_1_2(i: int) -> int { if i < 1758 { if i < 1755 { if i < 1753 { 0xc7060fe00031b403f8000c5f80fe00 } else { if i < 1754 { 0xc8440fe00115f883f8000c7c80fe00 } else { 0x745c0fe00031d483f8000c78a0fe00 } } } else { if i < 1756 { 0xc93a0fe000323f03f8000c8d20fe00 } else { if i < 1757 { 0xca9e0fe0001d3603f8000c8ee0fe00 } else { 0xcbc60fe001180503f8000cad80fe01 } } } } else { if i < 1761 { if i < 1759 { 0x76320fe000332483f8000cdf00fe00 } else { if i < 1760 { 0x75c80fe0001d8403f8040cd220fe00 } else { 0xce000fe00028ca83f8000a3240fe00 } } } else { if i < 1762 { 0x87b20fe000405683f8000cd380fe00 } else { if i < 1763 { 0xce420fe010338d83f8080ce2e0fe00 } else { 0x467860fe00033a983f8000cebc0fe00 } } } } }
pub open spec fn U_codes_p_1_3(i: int) -> int { if i < 1770 { if i < 1767 { if i < 1765 { 0xcf0a0fe00033fd03f800076920fe00 } else { if i < 1766 { 0x468da0fe010344283f8000d0a40fe00 } else { 0xd2280fe000340f83f8000d11c0fe00 } } } else { if i < 1768 { 0xd3460fe00034a103f8040773a0fe00 } else { if i < 1769 { 0x46d460fe000355403f8000d3d40fe00 } else { 0xd6420fe0001e0c03f8000d5b60fe00 } } } } else { if i < 1773 { if i < 1771 { 0x789c0fe00035aa03f8004714e0fe00 } else { if i < 1772 { 0xd7740fe00035cf83f8000d6e40fe00 } else { 0x43a160fe0011d4683f8000d7760fe02 } } } else { if i < 1774 { 0x479780fe000362703f800475f40fe00 } else { if i < 1775 { 0xd8ce0fe000366683f8000d97e0fe00 } else { 0xdaee0fe000369f03f8000da2c0fe00 } } } } }
pub open spec fn U_codes_p_1_4(i: int) -> int { if i < 1782 { if i < 1779 { if i < 1777 { 0xdaf00fe00036b483f8080da820fe01 } else { if i < 1778 { 0xda680fe0011e8f03f8000db0a0fe00 } else { 0x7a660fe000373703f8000dc5e0fe00 } } } else { if i < 1780 { 0x47da20fe000376383f8040dd960fe00 } else { if i < 1781 { 0x47ebc0fe00037b703f8000dbf20fe00 } else { 0xe0720fe00037e303f80047f1c0fe00 } } } } else { if i < 1785 { if i < 1783 { 0x7b2c0fe000380d83f8040e03c0fe00 } else { if i < 1784 { 0xe0ee0fe000383e83f8000e0940fe00 } else { 0xe28a0fe001029283f8000e15a0fe00 } } } else { if i < 1786 { 0x487560fe00038ce03f800484c60fe00 } else { if i < 1787 { 0xe4a00fe010391a83f8000e4500fe00 } else { 0xe52a0fe000394003f80048c100fe00 } } } } }
pub open spec fn U_codes_p_1_5(i: int) -> int { if i < 1794 { if i < 1791 { if i < 1789 { 0xe6f40fe001240a03f80048e6a0fe00 } else { if i < 1790 { 0xe74a0fe0001f5603f8000e7160fe00 } else { 0xe88e0fe0101f5c03f80007d700fe00 } } } else { if i < 1792 { 0xe90a0fe0103a3883f8000e8b80fe00 } else { if i < 1793 { 0xea480fe0001f8d83f8000e9940fe00 } else { 0x499240fe0003a9f03f8004986c0fe00 } } } } else { if i < 1797 { if i < 1795 { 0xec200fe00110cf83f8040eae00fe00 } else { if i < 1796 { 0x4a0880fe00127dc03f80049f420fe00 } else { 0xede80fe000200403f80007ff80fe00 } } } else { if i < 1798 { 0x4a2320fe001287903f8004a1e60fe01 } else { if i < 1799 { 0xee3e0fe0003b8f03f8004a2660fe00 } else { 0x80720fe0103ba503f8040ee3e0fe00 } } } } }
pub open spec fn U_codes_p_1_6(i: int) -> int { if i < 1806 { if i < 1803 { if i < 1801 { 0x812c0fe000202303f8000ef160fe01 } else { if i < 1802 { 0xf1180fe0003c2703f8004a83a0fe00 } else { 0x4ac4c0fe000207183f8040f1980fe01 } } } else { if i < 1804 { 0x4ad8a0fe0012b4d03f8040f2ac0fe00 } else { if i < 1805 { 0x825e0fe0003cf583f8040f31e0fe00 } else { 0xf49e0fe0003d2503f8040f4800fe00 } } } } else { if i < 1809 { if i < 1807 { 0x4b54e0fe0012d5383f8004b2f80fe00 } else { if i < 1808 { 0x4b7560fe000210103f8000f5dc0fe01 } else { 0x844e0fe0003de483f8000f78c0fe00 } } } else { if i < 1810 { 0x85400fe0003e6903f8004b9000fe00 } else { if i < 1811 { 0xfa000fe0003e7183f8000f9d00fe00 } else { 0x86020fe0003eb183f8004bf0c0fe00 } } } } }
pub open spec fn U_codes_p_1_7(i: int) -> int { if i < 1818 { if i < 1815 { if i < 1813 { 0xfc8a0fe0003f0103f8000fb8e0fe00 } else { if i < 1814 { 0x4c48e0fe001311403f800086680fe00 } else { 0xfef40fe001316c83f800086b20fe00 } } } else { if i < 1816 { 0xfff40fe0003fca83f8004c67c0fe00 } else { if i < 1817 { 0x4ca460fe001326d03f8081000a0fe00 } else { 0x100e00fe00132d403f800100c00fe00 } } } } else { if i < 1821 { if i < 1819 { 0x101640fe00021ea83f800466be0fe00 } else { if i < 1820 { 0x1027c0fe000220583f800102060fe00 } else { 0x4cf6a0fe00133d383f8000b56a0fe00 } } } else { if i < 1822 { 0x104020fe00119ce03f800467260fe00 } else { if i < 1823 { 0x88d60fe00047cf03f800104080fe01 } else { 0x1053a0fe000414583f800105220fe00 } } } } }
pub open spec fn U_codes_p_1_8(i: int) -> int { if i < 1830 { if i < 1827 { if i < 1825 { 0x105660fe000415883f8000a5660fe00 } else { if i < 1826 { 0x4d6780fe000417303f8001057a0fe00 } else { 0x106c60fe000418e83f804105ca0fe00 } } } else { if i < 1828 { 0x1077a0fe000419183f8001075a0fe00 } else { if i < 1829 { 0x106a60fe010422b83f800107ce0fe00 } else { 0x107b80fe00041e603f800107940fe00 } } } } else { if i < 1833 { if i < 1831 { 0x4d9aa0fe00136b583f8004d86c0fe00 } else { if i < 1832 { 0x109e60fe000427883f80008a560fe00 } else { 0x10ac80fe00139e503f80010a2c0fe00 } } } else { if i < 1834 { 0x8ac20fe00022ae83f8004de580fe00 } else { if i < 1835 { 0x8ad60fe001386903f8004df620fe00 } else { 0x10cce0fe010432e03f80010ca00fe00 } } } } }
pub open spec fn U_codes_p_1_9(i: int) -> int { if i < 1842 { if i < 1839 { if i < 1837 { 0x10d100fe000435483f80010cd20fe00 } else { if i < 1838 { 0x10ef20fe000437103f80010e1c0fe00 } else { 0x10f0c0fe00043b583f80010e500fe01 } } } else { if i < 1840 { 0x110020fe00043f083f80008bae0fe00 } else { if i < 1841 { 0x110c60fe000443003f80008bf20fe00 } else { 0x111bc0fe000446b83f8004ecce0fe00 } } } } else { if i < 1845 { if i < 1843 { 0x69760fe000447d03f80008c6a0fe00 } else { if i < 1844 { 0x8d7c0fe0013cb303f8004f15c0fe00 } else { 0x115da0fe000455003f80008d8e0fe00 } } } else { if i < 1846 { 0x4f9500fe000462a83f804117140fe01 } else { if i < 1847 { 0x11a360fe000466083f800119560fe00 } else { 0x410080fe0013f9783f80011aee0fe00 } } } } }
pub open spec fn U_codes_p_1_10(i: int) -> int { if i < 1854 { if i < 1851 { if i < 1849 { 0x11be00fe00046de03f80011b960fe00 } else { if i < 1850 { 0x11e700fe000476a03f800411bc0fe00 } else { 0x121280fe00142f683f80050ba40fe01 } } } else { if i < 1852 { 0x50e5c0fe000488883f800121e20fe00 } else { if i < 1853 { 0x125ae0fe000491c03f800122360fe00 } else { 0x127f20fe000493e03f800125b00fe00 } } } } else { if i < 1857 { if i < 1855 { 0x12b160fe00145fd03f8001282a0fe00 } else { if i < 1856 { 0x51aee0fe0004adb83f8000932a0fe00 } else { 0xbb640fe0004b6183f800093cc0fe00 } } } else { if i < 1858 { 0x524340fe00148a283f80012e460fe00 } else { if i < 1859 { 0x12fc00fe000253b03f800094dc0fe00 } else { 0x5292c0fe000255903f800528140fe00 } } } } }
pub open spec fn U_codes_p_1_11(i: int) -> int { if i < 1865 { if i < 1862 { if i < 1861 { 0x130520fe0204c0583f804130160fe00 } else { 0x96660fe0004c7103f80052b6c0fe00 } } else { if i < 1863 { 0x133840fe0004cd383f800132520fe00 } else { if i < 1864 { 0x536600fe00025e703f800133fc0fe00 } else { 0x139fa0fe0004e2003f804136240fe00 } } } } else { if i < 1868 { if i < 1866 { 0x13ace0fe000267683f8000999c0fe00 } else { if i < 1867 { 0x5420a0fe000267c03f8005419c0fe00 } else { 0x13d760fe001514883f8005441c0fe00 } } } else { if i < 1869 { 0x13dfc0fe0004f7c83f80009aac0fe00 } else { if i < 1870 { 0x13e2c0fe0004f8783f80013e0a0fe00 } else { 0xfe001530003f80013e760fe00 } } } } }
pub open spec fn U_codes_p_1(i: int) -> int { if i < 1800 { if i < 1764 { if i < 1740 { U_codes_p_1_0(i) } else { if i < 1752 { U_codes_p_1_1(i) } else { U_codes_p_1_2(i) } } } else { if i < 1776 { U_codes_p_1_3(i) } else { if i < 1788 { U_codes_p_1_4(i) } else { U_codes_p_1_5(i) } } } } else { if i < 1836 { if i < 1812 { U_codes_p_1_6(i) } else { if i < 1824 { U_codes_p_1_7(i) } else { U_codes_p_1_8(i) } } } else { if i < 1848 { U_codes_p_1_9(i) } else { if i < 1860 { U_codes_p_1_10(i) } else { U_codes_p_1_11(i) } } } } }
pub open spec fn U_codes_p(i: int) -> int { if i < 1728 { U_codes_p_0(i) } else { U_codes_p_1(i) } }
pub open spec fn U_codes(i: int) -> int { unpack21(U_codes_p(i / 6), i % 6) }
pub open spec fn U_codes_n() -> int { 11225 }
pub open spec fn U_comp_k_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x41e033800010340ce00003fc0338 } else { if i < 2 { 0x451030200011440c040004510300 } else { 0x451030600011440c100004510303 } } } else { if i < 4 { 0x451030900011440c200004510307 } else { if i < 5 { 0x451030f00011440c30000451030a } else { 0x451032500011440c8c0004510311 } } } } else { if i < 9 { if i < 7 { 0x462032300011880c1c0004510328 } else { if i < 8 { 0x473030200011cc0c040004620331 } else { 0x473032700011cc0c300004730307 } } } else { if i < 10 { 0x484032300012100c300004840307 } else { if i < 11 { 0x484033100012100cb40004840327 } else { 0x495030200012540c040004950300 } } } } }
pub open spec fn U_comp_k_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x495030600012540c100004950303 } else { if i < 14 { 0x495030900012540c200004950307 } else { 0x495031100012540c3c000495030c } } } else { if i < 16 { 0x495032800012540c9c0004950323 } else { if i < 17 { 0x4a6030700012540cc0000495032d } else { 0x4b7030400012dc0c080004b70301 } } } } else { if i < 21 { if i < 19 { 0x4b7030c00012dc0c1c0004b70306 } else { if i < 20 { 0x4c8030700013200c080004b70327 } else { 0x4c8032300013200c300004c80308 } } } else { if i < 22 { 0x4d9030000013200cb80004c80327 } else { if i < 23 { 0x4d9030300013640c080004d90301 } else { 0x4d9030700013640c180004d90304 } } } } }
pub open spec fn U_comp_k_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x4d9030c00013640c240004d90308 } else { if i < 26 { 0x4d9032300013640c440004d9030f } else { 0x4ea030200013640cc00004d90328 } } } else { if i < 28 { 0x4fb032300013ec0c300004fb0301 } else { if i < 29 { 0x50c030100013ec0cc40004fb0327 } else { 0x50c032700014300c8c00050c030c } } } } else { if i < 33 { if i < 31 { 0x51d030100014300cc400050c032d } else { if i < 32 { 0x52e030000014740c8c00051d0307 } else { 0x52e030700014b80c0c00052e0301 } } } else { if i < 34 { 0x52e032700014b80c8c00052e030c } else { if i < 35 { 0x53f030000014b80cc400052e032d } else { 0x53f030300014fc0c0800053f0301 } } } } }
pub open spec fn U_comp_k_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x53f030700014fc0c1800053f0304 } else { if i < 38 { 0x53f030b00014fc0c2400053f0308 } else { 0x53f031100014fc0c3c00053f030c } } } else { if i < 40 { 0x53f032800014fc0c8c00053f031b } else { if i < 41 { 0x572030100015400c1c0005500301 } else { 0x572030f00015c80c300005720307 } } } } else { if i < 45 { if i < 43 { 0x572032700015c80c8c0005720311 } else { if i < 44 { 0x5830302000160c0c040005720331 } else { 0x5830323000160c0c300005830307 } } } else { if i < 46 { 0x5940307000160c0c9c0005830326 } else { if i < 47 { 0x594032600016500c8c000594030c } else { 0x594033100016500cb40005940327 } } } } }
pub open spec fn U_comp_k_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x5a5030200016940c040005a50300 } else { if i < 50 { 0x5a5030600016940c100005a50303 } else { 0x5a5030a00016940c240005a50308 } } } else { if i < 52 { 0x5a5030f00016940c300005a5030b } else { if i < 53 { 0x5a5032300016940c6c0005a50311 } else { 0x5a5032d00016940ca00005a50324 } } } } else { if i < 57 { if i < 55 { 0x5b6032300016d80c0c0005a50330 } else { if i < 56 { 0x5c70302000171c0c040005c70300 } else { 0x5c70323000171c0c200005c70307 } } } else { if i < 58 { 0x5e9030000017600c200005d80307 } else { if i < 59 { 0x5e9030300017a40c080005e90301 } else { 0x5e9030800017a40c1c0005e90304 } } } } }
pub open spec fn U_comp_k_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x5fa030100017a40c8c0005e90309 } else { if i < 62 { 0x5fa030c00017e80c1c0005fa0302 } else { 0x671030000017e80cc40005fa0323 } } } else { if i < 64 { 0x671030300019c40c080006710301 } else { if i < 65 { 0x671030700019c40c180006710304 } else { 0x671030a00019c40c240006710308 } } } } else { if i < 69 { if i < 67 { 0x671031100019c40c3c000671030c } else { if i < 68 { 0x671032800019c40c940006710323 } else { 0x68203310001a080c8c0006820307 } } } else { if i < 70 { 0x69303070001a4c0c080006930301 } else { if i < 71 { 0x6a403070001a4c0c9c000693030c } else { 0x6a403270001a900c8c0006a4030c } } } } }
pub open spec fn U_comp_k_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x6b503000001a900cc40006a4032d } else { if i < 74 { 0x6b503030001ad40c080006b50301 } else { 0x6b503070001ad40c180006b50304 } } } else { if i < 76 { 0x6b5030c0001ad40c240006b50308 } else { if i < 77 { 0x6b503230001ad40c440006b5030f } else { 0x6b5032d0001ad40ca00006b50327 } } } } else { if i < 81 { if i < 79 { 0x6d703010001b180c1c0006b50330 } else { if i < 80 { 0x6d703060001b5c0c100006d70302 } else { 0x6d703270001b5c0c300006d70307 } } } else { if i < 82 { 0x6e803080001ba00c1c0006e80302 } else { if i < 83 { 0x6e803270001ba00c8c0006e8030c } else { 0x6f903000001ba00cc40006e8032e } } } } }
pub open spec fn U_comp_k_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x6f903030001be40c080006f90301 } else { if i < 86 { 0x6f903080001be40c180006f90304 } else { 0x6f9030f0001be40c300006f90309 } } } else { if i < 88 { 0x6f903280001be40c8c0006f90311 } else { if i < 89 { 0x70a030c0001c280c080006f90330 } else { 0x71b03230001c6c0c3000071b0301 } } } } else { if i < 93 { if i < 91 { 0x72c03010001c6c0cc400071b0327 } else { if i < 92 { 0x72c03270001cb00c8c00072c030c } else { 0x73d03010001cb00cc400072c032d } } } else { if i < 94 { 0x74e03000001cf40c8c00073d0307 } else { if i < 95 { 0x74e03070001d380c0c00074e0301 } else { 0x74e03270001d380c8c00074e030c } } } } }
pub open spec fn U_comp_k_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x75f03000001d380cc400074e032d } else { if i < 98 { 0x75f03030001d7c0c0800075f0301 } else { 0x75f03070001d7c0c1800075f0304 } } } else { if i < 100 { 0x75f030b0001d7c0c2400075f0308 } else { if i < 101 { 0x75f03110001d7c0c3c00075f030c } else { 0x75f03280001d7c0c8c00075f031b } } } } else { if i < 105 { if i < 103 { 0x79203010001dc00c1c0007700301 } else { if i < 104 { 0x792030f0001e480c300007920307 } else { 0x79203270001e480c8c0007920311 } } } else { if i < 106 { 0x7a303020001e8c0c040007920331 } else { if i < 107 { 0x7a303230001e8c0c300007a30307 } else { 0x7b403070001e8c0c9c0007a30326 } } } } }
pub open spec fn U_comp_k_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x7b403230001ed00c300007b40308 } else { if i < 110 { 0x7b4032d0001ed00c9c0007b40326 } else { 0x7c503010001f140c000007b40331 } } } else { if i < 112 { 0x7c503040001f140c0c0007c50302 } else { if i < 113 { 0x7c503090001f140c200007c50306 } else { 0x7c5030c0001f140c2c0007c5030a } } } } else { if i < 117 { if i < 115 { 0x7c5031b0001f140c440007c5030f } else { if i < 116 { 0x7c503280001f140c900007c50323 } else { 0x7d603030001f140cc00007c5032d } } } else { if i < 118 { 0x7e703010001f9c0c000007d60323 } else { if i < 119 { 0x7e703080001f9c0c1c0007e70302 } else { 0x7f803070001f9c0c8c0007e7030a } } } } }
pub open spec fn U_comp_k_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x809030100020240c000007f80308 } else { if i < 122 { 0x809030400020240c0c0008090302 } else { 0x809030900020240c200008090307 } } } else { if i < 124 { 0x81a030100020240c8c000809030a } else { if i < 125 { 0x81a030c00020680c1c00081a0302 } else { 0xb28030000020680cc400081a0323 } } } } else { if i < 129 { if i < 127 { 0xce203000002ca00d08000b280301 } else { if i < 128 { 0xce2030900033880c0c000ce20301 } else { 0xd26030100034540c04000d040304 } } } else { if i < 130 { 0xd6a030000034dc0c04000d260304 } else { if i < 131 { 0xd6a030900035a80c0c000d6a0301 } else { 0xe14030100038500c00000dbf0301 } } } } }
pub open spec fn U_comp_k_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0xe25030100038500c24000e140303 } else { if i < 134 { 0xe36030400038940c20000e250304 } else { 0xe9c03010003a700c00000e580301 } } } else { if i < 136 { 0xf0203000003a700c30000e9c0304 } else { if i < 137 { 0xf0203090003c080c0c000f020301 } else { 0xf4603010003cd40c04000f240304 } } } } else { if i < 141 { if i < 139 { 0xf8a03000003d5c0c04000f460304 } else { if i < 140 { 0xf8a03090003e280c0c000f8a0301 } else { 0x1034030100040d00c00000fdf0301 } } } else { if i < 142 { 0x1045030100040d00c240010340303 } else { if i < 143 { 0x1056030400041140c200010450304 } else { 0x10bc030100042f00c000010780301 } } } } }
pub open spec fn U_comp_k_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_comp_k_p_0_0(i) } else { if i < 24 { U_comp_k_p_0_1(i) } else { U_comp_k_p_0_2(i) } } } else { if i < 48 { U_comp_k_p_0_3(i) } else { if i < 60 { U_comp_k_p_0_4(i) } else { U_comp_k_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_comp_k_p_0_6(i) } else { if i < 96 { U_comp_k_p_0_7(i) } else { U_comp_k_p_0_8(i) } } } else { if i < 120 { U_comp_k_p_0_9(i) } else { if i < 132 { U_comp_k_p_0_10(i) } else { U_comp_k_p_0_11(i) } } } } }
pub open spec fn U_comp_k_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x1122030000042f00c300010bc0304 } else { if i < 146 { 0x1122030900044880c0c0011220301 } else { 0x1133030300044cc0c040011330300 } } } else { if i < 148 { 0x1232030100048c80c000011330309 } else { if i < 149 { 0x160c0300000490c0c040012430300 } else { 0x161d030100058740c0000160c0301 } } } } else { if i < 153 { if i < 151 { 0x176003070005c2c0c1c0016fa0307 } else { if i < 152 { 0x17f903010005fa00c040017710307 } else { 0x196f0307000606c0c2000180a0308 } } } else { if i < 154 { 0x1ba003030006e800c04001ba00300 } else { if i < 155 { 0x1bb103000006e800c8c001ba00309 } else { 0x1bb103090006ec40c0c001bb10301 } } } } }
pub open spec fn U_comp_k_p_1_1(i: int) -> int { if i < 162 { if i < 159 { if i < 157 { 0x1c9f0301000727c0c00001bb10323 } else { if i < 158 { 0x1c9f0323000727c0c24001c9f0303 } else { 0x1cb0030300072c00c04001cb00300 } } } else { if i < 160 { 0x1d27030c00072c00c8c001cb00309 } else { if i < 161 { 0x24860304000826c0c1000208a0304 } else { 0x24b9030600092a00c180024970304 } } } } else { if i < 165 { if i < 163 { 0x2bb2030c000947c0c1000250e0304 } else { if i < 164 { 0x3ca10304000f2840c04003ca10300 } else { 0x3ca10314000f2840c4c003ca10306 } } } else { if i < 166 { 0x3ce50301000f3940c00003ca10345 } else { if i < 167 { 0x3d070300000f3940c50003ce50313 } else { 0x3d070314000f41c0c4c003d070301 } } } } }
pub open spec fn U_comp_k_p_1_2(i: int) -> int { if i < 174 { if i < 171 { if i < 169 { 0x3d290301000f4a40c00003d070345 } else { if i < 170 { 0x3d290308000f4a40c18003d290304 } else { 0x3d8f0300000f4a40c50003d290313 } } } else { if i < 172 { 0x3d8f0314000f63c0c4c003d8f0301 } else { if i < 173 { 0x3df50301000f7d40c00003db10314 } else { 0x3df50308000f7d40c18003df50304 } } } } else { if i < 177 { if i < 175 { 0x3e390301000f8e40c00003df50314 } else { if i < 176 { 0x3e390345000f8e40c50003e390313 } else { 0x3ec10300000fa380d14003e6c0345 } } } else { if i < 178 { 0x3ec10306000fb040c10003ec10301 } else { if i < 179 { 0x3ec10342000fb040c50003ec10313 } else { 0x3f050301000fc140c00003ec10345 } } } } }
pub open spec fn U_comp_k_p_1_3(i: int) -> int { if i < 186 { if i < 183 { if i < 181 { 0x3f270300000fc140c50003f050313 } else { if i < 182 { 0x3f270314000fc9c0c4c003f270301 } else { 0x3f490300000fc9c0d14003f270342 } } } else { if i < 184 { 0x3f490306000fd240c10003f490301 } else { if i < 185 { 0x3f490314000fd240c4c003f490308 } else { 0x3faf0301000febc0c00003f490342 } } } } else { if i < 189 { if i < 187 { 0x3fd10313000febc0c50003faf0313 } else { if i < 188 { 0x4015030100100540c00003fd10314 } else { 0x4015030800100540c180040150304 } } } else { if i < 190 { 0x4015034200100540c500040150313 } else { if i < 191 { 0x4059031300101640c040040590300 } else { 0x4059034500101640d080040590314 } } } } }
pub open spec fn U_comp_k_p_1_4(i: int) -> int { if i < 198 { if i < 195 { if i < 193 { 0x406a034200101a80c0400406a0300 } else { if i < 194 { 0x407b034200101ec0c0400407b0300 } else { 0x40f2030800103c80c040040ae0345 } } } else { if i < 196 { 0x4510030800114400c180044660308 } else { if i < 197 { 0x4565030600115940c000045430301 } else { 0x4576030800115d80c180045650308 } } } } else { if i < 201 { if i < 199 { 0x4598030400116600c000045870308 } else { if i < 200 { 0x45ba030100116600c200045980306 } else { 0x46530306001194c0c100045fe0308 } } } else { if i < 202 { 0x46970308001194c0c2c0046530308 } else { if i < 203 { 0x473003060011bf40c200046db0308 } else { 0x478503000011d8c0c040047300308 } } } } }
pub open spec fn U_comp_k_p_1_5(i: int) -> int { if i < 210 { if i < 207 { if i < 205 { 0x479603060011e140c200047850306 } else { if i < 206 { 0x47b803000011e9c0c200047960308 } else { 0x47b803080011ee00c180047b80304 } } } else { if i < 208 { 0x4873030400120780c200047da0301 } else { if i < 209 { 0x4873030b00121cc0c200048730306 } else { 0x491d030800123ec0c200048b70308 } } } } else { if i < 213 { if i < 211 { 0x4bc5030f0012ed00c3c0049b60308 } else { if i < 212 { 0x5368030800149a40c200052580308 } else { 0x68970654001a25c194c0053790308 } } } else { if i < 214 { 0x6aea0654001ab2019500068970655 } else { if i < 215 { 0x74250654001cfc819500072d10654 } else { 0x9c63093c00270c024f0009ba8093c } } } } }
pub open spec fn U_comp_k_p_1_6(i: int) -> int { if i < 222 { if i < 219 { if i < 217 { 0xbfb70b3e00298dc275c00a63709be } else { if i < 218 { 0xc4b20bd7002fedc2d5c00bfb70b56 } else { 0xc8370bbe00320982f5c00c8260bbe } } } else { if i < 220 { 0xd9260cc200362bc335400d0a60c56 } else { if i < 221 { 0xd96a0cd50036498335800d9260cd5 } else { 0xe1b70d3e0038698355c00e1a60d3e } } } } else { if i < 225 { if i < 223 { 0xeb690ddf003ada4373c00eb690dca } else { if i < 224 { 0x1cb551b3500449d440b800eb9c0dca } else { 0x1cbbb1b350072e646cd401cb771b35 } } } else { if i < 226 { 0x1ceda1b3500730846cd401cbdd1b35 } else { if i < 227 { 0x1cf2f1b350073c786cd401cefc1b35 } else { 0x201a7030400806580c1001cf621b35 } } } } }
pub open spec fn U_comp_k_p_1_7(i: int) -> int { if i < 234 { if i < 231 { if i < 229 { 0x204820307008102c0c100203fa0304 } else { if i < 230 { 0x208a0030600822800c080204930307 } else { 0x20a38030200822c40c180208b10302 } } } else { if i < 232 { 0x20b9d03020082e300c08020a490302 } else { if i < 233 { 0x20f0003420083c000c04020f000300 } else { 0x20f1103010083c440c00020f000345 } } } } else { if i < 237 { if i < 235 { 0x20f2203450083c440d14020f110342 } else { if i < 236 { 0x20f5503450083d100d14020f330345 } else { 0x20f8803000083ddc0d14020f660345 } } } else { if i < 238 { 0x20f8803450083e200d08020f880301 } else { if i < 239 { 0x20f9903420083e640c04020f990300 } else { 0x20fbb03450083ea80d14020f990345 } } } } }
pub open spec fn U_comp_k_p_1_8(i: int) -> int { if i < 246 { if i < 243 { if i < 241 { 0x20fee03450083f740d14020fcc0345 } else { if i < 242 { 0x21010030100840400c00020fff0345 } else { 0x21098030000840840c040210210300 } } } else { if i < 244 { 0x210a9030100842a40c000210980301 } else { if i < 245 { 0x21120034200844800c040211200300 } else { 0x21131030100844c40c000211200345 } } } } else { if i < 249 { if i < 247 { 0x21142034500844c40d140211310342 } else { if i < 248 { 0x21175034500845900d140211530345 } else { 0x211a80300008465c0d140211860345 } } } else { if i < 250 { 0x211a8034500846a00d080211a80301 } else { if i < 251 { 0x211b9034200846e40c040211b90300 } else { 0x211db034500847280d140211b90345 } } } } }
pub open spec fn U_comp_k_p_1_9(i: int) -> int { if i < 258 { if i < 255 { if i < 253 { 0x2120e034500847f40d140211ec0345 } else { if i < 254 { 0x21230030100848c00c0002121f0345 } else { 0x21241030100849040c000212300342 } } } else { if i < 256 { 0x212b803010084ae00c000212410342 } else { if i < 257 { 0x212c903010084b240c000212b80342 } else { 0x2134003010084d000c000212c90342 } } } } else { if i < 261 { if i < 259 { 0x213c803000084d440c040213510300 } else { if i < 260 { 0x213d903010084f640c000213c80301 } else { 0x21450034200851400c040214500300 } } } else { if i < 262 { 0x21461034200851840c040214610300 } else { if i < 263 { 0x214e9034200853a40c040214e90300 } else { 0x21560034200855800c040215600300 } } } } }
pub open spec fn U_comp_k_p_1_10(i: int) -> int { if i < 270 { if i < 267 { if i < 265 { 0x21571030100855c40c000215600345 } else { if i < 266 { 0x21582034500855c40d140215710342 } else { 0x215b5034500856900d140215930345 } } } else { if i < 268 { 0x215e80300008575c0d140215c60345 } else { if i < 269 { 0x215e8034500857a00d080215e80301 } else { 0x215f9034200857e40c040215f90300 } } } } else { if i < 273 { if i < 271 { 0x2161b034500858280d140215f90345 } else { if i < 272 { 0x2164e034500858f40d1402162c0345 } else { 0x216b4034500859c00d1402165f0345 } } } else { if i < 274 { 0x21baf03000086c580d1402173c0345 } else { if i < 275 { 0x21c2603450086ebc0d08021baf0301 } else { 0x21fde03010087f780c00021f560345 } } } } }
pub open spec fn U_comp_k_p_1_11(i: int) -> int { if i < 282 { if i < 279 { if i < 277 { 0x23ab20338008ea400ce0021fde0342 } else { if i < 278 { 0x23ef20338008fb400ce0023ad40338 } else { 0x24288033800908cc0ce0023f140338 } } } else { if i < 280 { 0x244750338009114c0ce00242bb0338 } else { if i < 281 { 0x24695033800919cc0ce00245fc0338 } else { 0x2487103380091c740ce00246c80338 } } } } else { if i < 285 { if i < 283 { 0x24992033800922d40ce00248a40338 } else { if i < 284 { 0x249e7033800927580ce00249a30338 } else { 0x24a3c033800928ac0ce0024a1a0338 } } } else { if i < 286 { 0x24ab303380092a880ce0024a4d0338 } else { if i < 287 { 0x24ba103380092bdc0ce0024ae60338 } else { 0x24d28033800933080ce0024bb20338 } } } } }
pub open spec fn U_comp_k_p_1(i: int) -> int { if i < 216 { if i < 180 { if i < 156 { U_comp_k_p_1_0(i) } else { if i < 168 { U_comp_k_p_1_1(i) } else { U_comp_k_p_1_2(i) } } } else { if i < 192 { U_comp_k_p_1_3(i) } else { if i < 204 { U_comp_k_p_1_4(i) } else { U_comp_k_p_1_5(i) } } } } else { if i < 252 { if i < 228 { U_comp_k_p_1_6(i) } else { if i < 240 { U_comp_k_p_1_7(i) } else { U_comp_k_p_1_8(i) } } } else { if i < 264 { U_comp_k_p_1_9(i) } else { if i < 276 { U_comp_k_p_1_10(i) } else { U_comp_k_p_1_11(i) } } } } }
pub open spec fn U_comp_k_p_2_0(i: int) -> int { if i < 294 { if i < 291 { if i < 289 { 0x24dd20338009356c0ce0024d390338 } else { if i < 290 { 0x24e05033800937d00ce0024de30338 } else { 0x3351d309900cd3ecc2640334a63099 } } } else { if i < 292 { 0x33583309900cd584c26403353f3099 } else { if i < 293 { 0x335e9309900cd71cc2640335a53099 } else { 0x3364f309900cd8b4c26403360b3099 } } } } else { if i < 297 { if i < 295 { 0x336c6309900cda90c2640336713099 } else { if i < 296 { 0x3375f309a00cdd7cc2640336e83099 } else { 0x337c5309900cde48c2680337923099 } } } else { if i < 298 { 0x337f8309a00cdfe0c2640337c5309a } else { if i < 299 { 0x33a6d309900ce0acc26803382b3099 } else { 0x33b7d309900ced6cc264033b063099 } } } } }
pub open spec fn U_comp_k_p_2_1(i: int) -> int { if i < 306 { if i < 303 { if i < 301 { 0x33be3309900cef04c264033b9f3099 } else { if i < 302 { 0x33c49309900cf09cc264033c053099 } else { 0x33caf309900cf234c264033c6b3099 } } } else { if i < 304 { 0x33d26309900cf410c264033cd13099 } else { if i < 305 { 0x33dbf309a00cf6fcc264033d483099 } else { 0x33e25309900cf7c8c268033df23099 } } } } else { if i < 309 { if i < 307 { 0x33e58309a00cf960c264033e25309a } else { if i < 308 { 0x33fdf309900cfa2cc268033e8b3099 } else { 0x34012309900d0004c264033ff03099 } } } else { if i < 310 { 0x11637a03070458bc80c1c0340cd3099 } else { if i < 311 { 0x121af610ba048693042e8121a2a10ba } else { 0x1247b8133e048914c449c1224421127 } } } } }
pub open spec fn U_comp_k_p_2_2(i: int) -> int { if i < 316 { if i < 314 { if i < 313 { 0x124bc513bb0492e8c4f241247b81357 } else { 0x124fe313b804932444f24124c3c13c2 } } else { if i < 315 { 0x12604a14b00493f8c4f24124fe313c2 } else { 0x12713915af049812852f412604a14ba } } } else { if i < 318 { if i < 317 { 0x1772ff611e04ab21864c012714a15af } else { 0x1772ff612905dcbfd84801772ff611f } } else { if i < 319 { 0x177343611f05dccc98480177332611f } else { if i < 320 { 0x1843d86d670610e51b59c1773ba611f } else { 0x3ffffffffffffffffffffc1843fa6d67 } } } } }
pub open spec fn U_comp_k_p_2(i: int) -> int { if i < 300 { U_comp_k_p_2_0(i) } else { if i < 312 { U_comp_k_p_2_1(i) } else { U_comp_k_p_2_2(i) } } }
pub open spec fn U_comp_k_p(i: int) -> int { if i < 144 { U_comp_k_p_0(i) } else { if i < 288 { U_comp_k_p_1(i) } else { U_comp_k_p_2(i) } } }
pub open spec fn U_comp_k(i: int) -> int { unpack42(U_comp_k_p(i / 3), i % 3) }
pub open spec fn U_comp_b_0_0(x: int) -> int { if x < 0x4510328 { if x < 0x4510307 { if x < 0x4510300 { 0 } else { if x < 0x4510303 { 1 } else { 2 } } } else { if x < 0x451030a { 3 } else { if x < 0x4510311 { 4 } else { 5 } } } } else { if x < 0x4840307 { if x < 0x4620331 { 6 } else { if x < 0x4730307 { 7 } else { 8 } } } else { if x < 0x4840327 { 9 } else { if x < 0x4950300 { 10 } else { 11 } } } } }
pub open spec fn U_comp_b_0_1(x: int) -> int { if x < 0x4b70306 { if x < 0x4950323 { if x < 0x4950307 { 12 } else { if x < 0x495030c { 13 } else { 14 } } } else { if x < 0x495032d { 15 } else { if x < 0x4b70301 { 16 } else { 17 } } } } else { if x < 0x4c80327 { if x < 0x4b70327 { 18 } else { if x < 0x4c80308 { 19 } else { 20 } } } else { if x < 0x4d90301 { 21 } else { if x < 0x4d90304 { 22 } else { 23 } } } } }
pub open spec fn U_comp_b_0_2(x: int) -> int { if x < 0x50c032d { if x < 0x4fb0301 { if x < 0x4d9030f { 24 } else { if x < 0x4d90328 { 25 } else { 26 } } } else { if x < 0x4fb0327 { 27 } else { if x < 0x50c030c { 28 } else { 29 } } } } else { if x < 0x52e030c { if x < 0x51d0307 { 30 } else { if x < 0x52e0301 { 31 } else { 32 } } } else { if x < 0x52e032d { 33 } else { if x < 0x53f0301 { 34 } else { 35 } } } } }
pub open spec fn U_comp_b_0_3(x: int) -> int { if x < 0x5720311 { if x < 0x53f031b { if x < 0x53f0308 { 36 } else { if x < 0x53f030c { 37 } else { 38 } } } else { if x < 0x5500301 { 39 } else { if x < 0x5720307 { 40 } else { 41 } } } } else { if x < 0x5830326 { if x < 0x5720331 { 42 } else { if x < 0x5830307 { 43 } else { 44 } } } else { if x < 0x594030c { 45 } else { if x < 0x5940327 { 46 } else { 47 } } } } }
pub open spec fn U_comp_b_0_4(x: int) -> int { if x < 0x5a50330 { if x < 0x5a5030b { if x < 0x5a50303 { 48 } else { if x < 0x5a50308 { 49 } else { 50 } } } else { if x < 0x5a50311 { 51 } else { if x < 0x5a50324 { 52 } else { 53 } } } } else { if x < 0x5d80307 { if x < 0x5c70300 { 54 } else { if x < 0x5c70307 { 55 } else { 56 } } } else { if x < 0x5e90301 { 57 } else { if x < 0x5e90304 { 58 } else { 59 } } } } }
pub open spec fn U_comp_b_0_5(x: int) -> int { if x < 0x671030c { if x < 0x6710301 { if x < 0x5fa0302 { 60 } else { if x < 0x5fa0323 { 61 } else { 62 } } } else { if x < 0x6710304 { 63 } else { if x < 0x6710308 { 64 } else { 65 } } } } else { if x < 0x6930301 { if x < 0x6710323 { 66 } else { if x < 0x6820307 { 67 } else { 68 } } } else { if x < 0x693030c { 69 } else { if x < 0x6a4030c { 70 } else { 71 } } } } }
pub open spec fn U_comp_b_0_6(x: int) -> int { if x < 0x6b50330 { if x < 0x6b50308 { if x < 0x6b50301 { 72 } else { if x < 0x6b50304 { 73 } else { 74 } } } else { if x < 0x6b5030f { 75 } else { if x < 0x6b50327 { 76 } else { 77 } } } } else { if x < 0x6e80302 { if x < 0x6d70302 { 78 } else { if x < 0x6d70307 { 79 } else { 80 } } } else { if x < 0x6e8030c { 81 } else { if x < 0x6e8032e { 82 } else { 83 } } } } }
pub open spec fn U_comp_b_0_7(x: int) -> int { if x < 0x71b0327 { if x < 0x6f90311 { if x < 0x6f90304 { 84 } else { if x < 0x6f90309 { 85 } else { 86 } } } else { if x < 0x6f90330 { 87 } else { if x < 0x71b0301 { 88 } else { 89 } } } } else { if x < 0x73d0307 { if x < 0x72c030c { 90 } else { if x < 0x72c032d { 91 } else { 92 } } } else { if x < 0x74e0301 { 93 } else { if x < 0x74e030c { 94 } else { 95 } } } } }
pub open spec fn U_comp_b_0_8(x: int) -> int { if x < 0x7700301 { if x < 0x75f0308 { if x < 0x75f0301 { 96 } else { if x < 0x75f0304 { 97 } else { 98 } } } else { if x < 0x75f030c { 99 } else { if x < 0x75f031b { 100 } else { 101 } } } } else { if x < 0x7920331 { if x < 0x7920307 { 102 } else { if x < 0x7920311 { 103 } else { 104 } } } else { if x < 0x7a30307 { 105 } else { if x < 0x7a30326 { 106 } else { 107 } } } } }
pub open spec fn U_comp_b_0_9(x: int) -> int { if x < 0x7c5030f { if x < 0x7c50302 { if x < 0x7b40326 { 108 } else { if x < 0x7b40331 { 109 } else { 110 } } } else { if x < 0x7c50306 { 111 } else { if x < 0x7c5030a { 112 } else { 113 } } } } else { if x < 0x7d60323 { if x < 0x7c50323 { 114 } else { if x < 0x7c5032d { 115 } else { 116 } } } else { if x < 0x7e70302 { 117 } else { if x < 0x7e7030a { 118 } else { 119 } } } } }
pub open spec fn U_comp_b_0_10(x: int) -> int { if x < 0xb280301 { if x < 0x809030a { if x < 0x8090302 { 120 } else { if x < 0x8090307 { 121 } else { 122 } } } else { if x < 0x81a0302 { 123 } else { if x < 0x81a0323 { 124 } else { 125 } } } } else { if x < 0xd260304 { if x < 0xce20301 { 126 } else { if x < 0xd040304 { 127 } else { 128 } } } else { if x < 0xd6a0301 { 129 } else { if x < 0xdbf0301 { 130 } else { 131 } } } } }
pub open spec fn U_comp_b_0_11(x: int) -> int { if x < 0xf460304 { if x < 0xe9c0304 { if x < 0xe250304 { 132 } else { if x < 0xe580301 { 133 } else { 134 } } } else { if x < 0xf020301 { 135 } else { if x < 0xf240304 { 136 } else { 137 } } } } else { if x < 0x10340303 { if x < 0xf8a0301 { 138 } else { if x < 0xfdf0301 { 139 } else { 140 } } } else { if x < 0x10450304 { 141 } else { if x < 0x10780301 { 142 } else { 143 } } } } }
pub open spec fn U_comp_b_0(x: int) -> int { if x < 0x6a4032d { if x < 0x53f0304 { if x < 0x4950303 { U_comp_b_0_0(x) } else { if x < 0x4d90308 { U_comp_b_0_1(x) } else { U_comp_b_0_2(x) } } } else { if x < 0x5a50300 { U_comp_b_0_3(x) } else { if x < 0x5e90309 { U_comp_b_0_4(x) } else { U_comp_b_0_5(x) } } } } else { if x < 0x7b40308 { if x < 0x6f90301 { U_comp_b_0_6(x) } else { if x < 0x74e032d { U_comp_b_0_7(x) } else { U_comp_b_0_8(x) } } } else { if x < 0x7f80308 { U_comp_b_0_9(x) } else { if x < 0xe140303 { U_comp_b_0_10(x) } else { U_comp_b_0_11(x) } } } } }
pub open spec fn U_comp_b_1_0(x: int) -> int { if x < 0x16fa0307 { if x < 0x11330309 { if x < 0x11220301 { 144 } else { if x < 0x11330300 { 145 } else { 146 } } } else { if x < 0x12430300 { 147 } else { if x < 0x160c0301 { 148 } else { 149 } } } } else { if x < 0x1ba00300 { if x < 0x17710307 { 150 } else { if x < 0x180a0308 { 151 } else { 152 } } } else { if x < 0x1ba00309 { 153 } else { if x < 0x1bb10301 { 154 } else { 155 } } } } }
pub open spec fn U_comp_b_1_1(x: int) -> int { if x < 0x250e0304 { if x < 0x1cb00309 { if x < 0x1c9f0303 { 156 } else { if x < 0x1cb00300 { 157 } else { 158 } } } else { if x < 0x208a0304 { 159 } else { if x < 0x24970304 { 160 } else { 161 } } } } else { if x < 0x3ca10345 { if x < 0x3ca10300 { 162 } else { if x < 0x3ca10306 { 163 } else { 164 } } } else { if x < 0x3ce50313 { 165 } else { if x < 0x3d070301 { 166 } else { 167 } } } } }
pub open spec fn U_comp_b_1_2(x: int) -> int { if x < 0x3df50314 { if x < 0x3d8f0301 { if x < 0x3d290304 { 168 } else { if x < 0x3d290313 { 169 } else { 170 } } } else { if x < 0x3db10314 { 171 } else { if x < 0x3df50304 { 172 } else { 173 } } } } else { if x < 0x3ec10301 { if x < 0x3e390313 { 174 } else { if x < 0x3e6c0345 { 175 } else { 176 } } } else { if x < 0x3ec10313 { 177 } else { if x < 0x3ec10345 { 178 } else { 179 } } } } }
pub open spec fn U_comp_b_1_3(x: int) -> int { if x < 0x3faf0313 { if x < 0x3f490301 { if x < 0x3f270301 { 180 } else { if x < 0x3f270342 { 181 } else { 182 } } } else { if x < 0x3f490308 { 183 } else { if x < 0x3f490342 { 184 } else { 185 } } } } else { if x < 0x40150313 { if x < 0x3fd10314 { 186 } else { if x < 0x40150304 { 187 } else { 188 } } } else { if x < 0x40590300 { 189 } else { if x < 0x40590314 { 190 } else { 191 } } } } }
pub open spec fn U_comp_b_1_4(x: int) -> int { if x < 0x45870308 { if x < 0x44660308 { if x < 0x407b0300 { 192 } else { if x < 0x40ae0345 { 193 } else { 194 } } } else { if x < 0x45430301 { 195 } else { if x < 0x45650308 { 196 } else { 197 } } } } else { if x < 0x46530308 { if x < 0x45980306 { 198 } else { if x < 0x45fe0308 { 199 } else { 200 } } } else { if x < 0x46db0308 { 201 } else { if x < 0x47300308 { 202 } else { 203 } } } } }
pub open spec fn U_comp_b_1_5(x: int) -> int { if x < 0x49b60308 { if x < 0x47da0301 { if x < 0x47960308 { 204 } else { if x < 0x47b80304 { 205 } else { 206 } } } else { if x < 0x48730306 { 207 } else { if x < 0x48b70308 { 208 } else { 209 } } } } else { if x < 0x68970655 { if x < 0x52580308 { 210 } else { if x < 0x53790308 { 211 } else { 212 } } } else { if x < 0x72d10654 { 213 } else { if x < 0x9ba8093c { 214 } else { 215 } } } } }
pub open spec fn U_comp_b_1_6(x: int) -> int { if x < 0xeb690dca { if x < 0xd0a60c56 { if x < 0xbfb70b56 { 216 } else { if x < 0xc8260bbe { 217 } else { 218 } } } else { if x < 0xd9260cd5 { 219 } else { if x < 0xe1a60d3e { 220 } else { 221 } } } } else { if x < 0x1cbdd1b35 { if x < 0xeb9c0dca { 222 } else { if x < 0x1cb771b35 { 223 } else { 224 } } } else { if x < 0x1cefc1b35 { 225 } else { if x < 0x1cf621b35 { 226 } else { 227 } } } } }
pub open spec fn U_comp_b_1_7(x: int) -> int { if x < 0x20f110342 { if x < 0x20a490302 { if x < 0x204930307 { 228 } else { if x < 0x208b10302 { 229 } else { 230 } } } else { if x < 0x20f000300 { 231 } else { if x < 0x20f000345 { 232 } else { 233 } } } } else { if x < 0x20f880301 { if x < 0x20f330345 { 234 } else { if x < 0x20f660345 { 235 } else { 236 } } } else { if x < 0x20f990300 { 237 } else { if x < 0x20f990345 { 238 } else { 239 } } } } }
pub open spec fn U_comp_b_1_8(x: int) -> int { if x < 0x211310342 { if x < 0x210980301 { if x < 0x20fff0345 { 240 } else { if x < 0x210210300 { 241 } else { 242 } } } else { if x < 0x211200300 { 243 } else { if x < 0x211200345 { 244 } else { 245 } } } } else { if x < 0x211a80301 { if x < 0x211530345 { 246 } else { if x < 0x211860345 { 247 } else { 248 } } } else { if x < 0x211b90300 { 249 } else { if x < 0x211b90345 { 250 } else { 251 } } } } }
pub open spec fn U_comp_b_1_9(x: int) -> int { if x < 0x213510300 { if x < 0x212410342 { if x < 0x2121f0345 { 252 } else { if x < 0x212300342 { 253 } else { 254 } } } else { if x < 0x212b80342 { 255 } else { if x < 0x212c90342 { 256 } else { 257 } } } } else { if x < 0x214610300 { if x < 0x213c80301 { 258 } else { if x < 0x214500300 { 259 } else { 260 } } } else { if x < 0x214e90300 { 261 } else { if x < 0x215600300 { 262 } else { 263 } } } } }
pub open spec fn U_comp_b_1_10(x: int) -> int { if x < 0x215f90345 { if x < 0x215c60345 { if x < 0x215710342 { 264 } else { if x < 0x215930345 { 265 } else { 266 } } } else { if x < 0x215e80301 { 267 } else { if x < 0x215f90300 { 268 } else { 269 } } } } else { if x < 0x2173c0345 { if x < 0x2162c0345 { 270 } else { if x < 0x2165f0345 { 271 } else { 272 } } } else { if x < 0x21baf0301 { 273 } else { if x < 0x21f560345 { 274 } else { 275 } } } } }
pub open spec fn U_comp_b_1_11(x: int) -> int { if x < 0x248a40338 { if x < 0x242bb0338 { if x < 0x23ad40338 { 276 } else { if x < 0x23f140338 { 277 } else { 278 } } } else { if x < 0x245fc0338 { 279 } else { if x < 0x246c80338 { 280 } else { 281 } } } } else { if x < 0x24a4d0338 { if x < 0x249a30338 { 282 } else { if x < 0x24a1a0338 { 283 } else { 284 } } } else { if x < 0x24ae60338 { 285 } else { if x < 0x24bb20338 { 286 } else { 287 } } } } }
pub open spec fn U_comp_b_1(x: int) -> int { if x < 0xa63709be { if x < 0x3f050313 { if x < 0x1bb10323 { U_comp_b_1_0(x) } else { if x < 0x3d070345 { U_comp_b_1_1(x) } else { U_comp_b_1_2(x) } } } else { if x < 0x406a0300 { U_comp_b_1_3(x) } else { if x < 0x47850306 { U_comp_b_1_4(x) } else { U_comp_b_1_5(x) } } } } else { if x < 0x211ec0345 { if x < 0x203fa0304 { U_comp_b_1_6(x) } else { if x < 0x20fcc0345 { U_comp_b_1_7(x) } else { U_comp_b_1_8(x) } } } else { if x < 0x215600345 { U_comp_b_1_9(x) } else { if x < 0x21fde0342 { U_comp_b_1_10(x) } else { U_comp_b_1_11(x) } } } } }
pub open spec fn U_comp_b_2_0(x: int) -> int { if x < 0x336713099 { if x < 0x3353f3099 { if x < 0x24de30338 { 288 } else { if x < 0x334a63099 { 289 } else { 290 } } } else { if x < 0x335a53099 { 291 } else { if x < 0x3360b3099 { 292 } else { 293 } } } } else { if x < 0x337c5309a { if x < 0x336e83099 { 294 } else { if x < 0x337923099 { 295 } else { 296 } } } else { if x < 0x3382b3099 { 297 } else { if x < 0x33b063099 { 298 } else { 299 } } } } }
pub open spec fn U_comp_b_2_1(x: int) -> int { if x < 0x33e25309a { if x < 0x33cd13099 { if x < 0x33c053099 { 300 } else { if x < 0x33c6b3099 { 301 } else { 302 } } } else { if x < 0x33d483099 { 303 } else { if x < 0x33df23099 { 304 } else { 305 } } } } else { if x < 0x340cd3099 { if x < 0x33e8b3099 { 306 } else { if x < 0x33ff03099 { 307 } else { 308 } } } else { if x < 0x121a2a10ba { 309 } else { if x < 0x1224421127 { 310 } else { 311 } } } } }
pub open spec fn U_comp_b_2_2(x: int) -> int { if x < 0x12714a15af { if x < 0x124fe313c2 { if x < 0x124c3c13c2 { 312 } else { 313 } } else { if x < 0x12604a14ba { 314 } else { 315 } } } else { if x < 0x177332611f { if x < 0x1772ff611f { 316 } else { 317 } } else { if x < 0x1773ba611f { 318 } else { if x < 0x1843fa6d67 { 319 } else { 320 } } } } }
pub open spec fn U_comp_b_2(x: int) -> int { if x < 0x33b9f3099 { U_comp_b_2_0(x) } else { if x < 0x1247b81357 { U_comp_b_2_1(x) } else { U_comp_b_2_2(x) } } }
pub open spec fn U_comp_b(x: int) -> int { if x < 0x10bc0304 { U_comp_b_0(x) } else { if x < 0x24d390338 { U_comp_b_1(x) } else { U_comp_b_2(x) } } }
pub open spec fn U_comp_n() -> int { 961 }
pub open spec fn U_comp_find(x: int) -> int { let b = U_comp_b(x); let j = b * 3 + within42(U_comp_k_p(b), x); if 0 <= j < 961 && U_comp_k(j) <= x <= U_comp_k(j) { j } else { -1 } }
pub open spec fn U_comp_v_p_0_0(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x184000c1000600089bc044c00226e } else { if i < 2 { 0x3d44000c40011300040800200000c3 } else { 0x3c0001ea0001010008000039a000c5 } } } else { if i < 4 { 0x2100010600f0300781003c0400104 } else { if i < 5 { 0x3c180010e00f0500031c002180010a } else { 0x194000c90006400783803c2401e10 } } } } else { if i < 9 { if i < 7 { 0x3d74000cb0008b0004500022401ebc } else { if i < 8 { 0x2300022800f5c000818004080011a } else { 0x3c400011c000fa00787803c3401e18 } } } else { if i < 10 { 0x3c440012400091000798002400011e } else { if i < 11 { 0x19801e2a00f140078900043c01e26 } else { 0x2600012c000950004a00019c000cd } } } } }
pub open spec fn U_comp_v_p_0_1(i: int) -> int { if i < 18 { if i < 15 { if i < 13 { 0x3d940020a0010400073c03d90000cf } else { if i < 14 { 0x3c64001e800f180004d003c580012e } else { 0x27601e360009e8004e403c6800136 } } } else { if i < 16 { 0x3f001e4200f200078f803c7401e3c } else { if i < 17 { 0x28a01e46000a3807910001a200143 } else { 0x1aa000d40006980034803c9001e4a } } } } else { if i < 21 { if i < 19 { 0x2a001ece0006b0008b80029c0014c } else { if i < 20 { 0x3d401ecc000d000083800418001d1 } else { 0x4200015800f2c00055003cac01e54 } } } else { if i < 22 { 0x2b80015a00f2f00055803cb400212 } else { if i < 23 { 0x3cd40015e0010c007988002c001e60 } else { 0x3cdc01e70000b100086803cd800164 } } } } }
pub open spec fn U_comp_v_p_0_2(i: int) -> int { if i < 30 { if i < 27 { if i < 25 { 0x2d80016a000b400036c001b4000d9 } else { if i < 26 { 0x428001d3000b80005b803dcc000dc } else { 0x3cec0017200f39007b900035e00216 } } } else { if i < 28 { 0x2e801e8200f400079f803cf801e74 } else { if i < 29 { 0x3de401e8c00f45007a2003d0801e86 } else { 0x2f001e8e00119007be0002ec000dd } } } } else { if i < 33 { if i < 31 { 0x2fa0017b00f480005e403de801ef6 } else { if i < 32 { 0x1c6000e20007080038003d2801e92 } else { 0x1ca01ea30007200089c0020600101 } } } else { if i < 34 { 0x20a01e0100f5080080c00402001ce } else { if i < 35 { 0x216001090008380781c03c0a01e03 } else { 0x3c2201e0d0008780782c001ce0010d } } } } }
pub open spec fn U_comp_v_p_0_3(i: int) -> int { if i < 42 { if i < 39 { if i < 37 { 0x3d7a000ea000748003a003c1e01e13 } else { if i < 38 { 0x23601ebb0007580045c0022a00113 } else { 0x3c320011900114807ae40040e00205 } } } else { if i < 40 { 0x23e01e210008e8007d403c3e01e1b } else { if i < 41 { 0x3c4e01e230009280048c003ce00121 } else { 0x1d801e9600f158078a403c4a0021f } } } } else { if i < 45 { if i < 43 { 0x1de0012d000958004a4001dc000ed } else { if i < 44 { 0x25e01ecb00105800824003a001ec9 } else { 0x3c66001e900f188007c00026a01e2d } } } else { if i < 46 { 0x27801e370009f0004e803c6a00137 } else { if i < 47 { 0x3f201e4300f208078fc03c7601e3d } else { 0x28c01e47000a4007914001e200144 } } } } }
pub open spec fn U_comp_v_p_0_4(i: int) -> int { if i < 54 { if i < 51 { if i < 49 { 0x1ea000f4000798003c803c9201e4b } else { if i < 50 { 0x2a201ecf0007b0008bc0029e0014d } else { 0x3d601ecd000d080083c0041a001d2 } } } else { if i < 52 { 0x4220015900f2c80055403cae01e55 } else { if i < 53 { 0x2ba0015b00f2f80055c03cb600213 } else { 0x3cd60015f0010c80798c002c201e61 } } } } else { if i < 57 { if i < 55 { 0x3ce2001630010d8079b4002ca01e97 } else { if i < 56 { 0x2d6001690007d8003e8001f201e6f } else { 0x3a800171000b7807b9c001f80016d } } } else { if i < 58 { 0x2e601e7300f728006c00042e00215 } else { if i < 59 { 0x3d0601e8100f3f8079f403cea01e77 } else { 0x3d1601e8900f4c007a1403d0e00175 } } } } }
pub open spec fn U_comp_v_p_0_5(i: int) -> int { if i < 66 { if i < 63 { if i < 61 { 0x46601ef9000bb8003f403de601e8d } else { if i < 62 { 0x2f401ef500f4c807bdc001fe01e8f } else { 0x3fda01e9500f498005f8002f801e91 } } } else { if i < 64 { 0x3d5001eaa00f52007a9803f8200385 } else { if i < 65 { 0x3d8001e08000f10007f0003f4001de } else { 0x3da001ed200f17007b0803d8801ebe } } } } else { if i < 69 { if i < 67 { 0x45401e4e0011600793003da801ed6 } else { if i < 68 { 0x3d4e001d9000ea80075c003b6001fe } else { 0x3fa001fb000ef807aa403d5601ea5 } } } else { if i < 70 { 0x3d8601ec500f5f807b0403c12001e3 } else { if i < 71 { 0x3c9a01ed500f6b807b4403da601e2f } else { 0x3b0001dc000ff8008ac03c9e0022d } } } } }
pub open spec fn U_comp_v_p_0_6(i: int) -> int { if i < 78 { if i < 75 { if i < 73 { 0x3d6401eb400f57007ac0003b4001d6 } else { if i < 74 { 0x3c2c01e1400f59807ad403d5e01eb1 } else { 0x3ca601e5100f2900794003c2e01e15 } } } else { if i < 76 { 0x3cf201e7800f3380799803cca01e64 } else { if i < 77 { 0x3dc001eda00f6e007a6c03cf601e7a } else { 0x3dbe01ee100f6d807b7403dc401ede } } } } else { if i < 81 { if i < 79 { 0x3de001eec00f77007ba003dd401ee3 } else { if i < 80 { 0x3dc01ef100f76807bbc03dd201eeb } else { 0x3c3a01e1c000f0800780003da001ec } } } else { if i < 82 { 0x3f720038600fdd0007bc0046200230 } else { if i < 83 { 0x71001fc800fde007c2403e1001fb8 } else { 0x3e5201f28001c4807f2803e3201f18 } } } } }
pub open spec fn U_comp_v_p_0_7(i: int) -> int { if i < 90 { if i < 87 { if i < 85 { 0x75401fd800fec800e2803fb401fcc } else { if i < 86 { 0x3e9201f48001c6007fe003e7201f38 } else { 0x75601fe800ff4800e3803fd401fec } } } else { if i < 88 { 0x3ff801f6900fb4000e3c03ff401f59 } else { if i < 89 { 0x3f6001fb1001d6007dc003f8801fb4 } else { 0x75a01f7200fd9807ed803e0201f00 } } } } else { if i < 93 { if i < 91 { 0x3e4201f20001d7007dd003e2201f10 } else { if i < 92 { 0x3fa001fd1001d7807dd803f8601fc6 } else { 0x79801f7800feb007cc403e60003ca } } } else { if i < 94 { 0x79a01f7a00ff2807f9003e8201f40 } else { if i < 95 { 0x3fcc01f5100fa8000f2c03fc001fe1 } else { 0x3fe601ff600fb0807d800079c01f7c } } } } }
pub open spec fn U_comp_v_p_0_8(i: int) -> int { if i < 102 { if i < 99 { if i < 97 { 0x3fce003b000ff1007f5c0072001fd2 } else { if i < 98 { 0x9a4004d000203800f50007a601ff4 } else { 0x9b8004c1002008013580080000403 } } } else { if i < 100 { 0x818004e40020c8013880081a004de } else { if i < 101 { 0x9e8004f200278001038009dc004e6 } else { 0x8a00045300269801344009d8004f8 } } } } else { if i < 105 { if i < 103 { 0x8ba004df0026e801308008a2004d7 } else { if i < 104 { 0x9de004e70022e00139400872004e3 } else { 0x9da004f90027a8013cc009e20045e } } } else { if i < 106 { 0x9d4004db0026d0011dc008ec00457 } else { if i < 107 { 0xc4c006240031280188c00c44004eb } else { 0x12680093100494801b0000da6006c2 } } } } }
pub open spec fn U_comp_v_p_0_9(i: int) -> int { if i < 114 { if i < 111 { if i < 109 { 0x172800b4c005a4002d2c01398009cb } else { if i < 110 { 0x199400cc000624002f2c0179800bca } else { 0x1a9600d4c006a500332c0199000cc7 } } } else { if i < 112 { 0x360c01026006ee80377801bb800dda } else { if i < 113 { 0x367601b1200d87006c300361401b08 } else { 0x3c7201e3800da1806d040368001b3d } } } } else { if i < 117 { if i < 115 { 0x3d6c01eac00f348079a003cba01e5c } else { if i < 116 { 0x3db201ed800f63807b1803d6e01ead } else { 0x3e0a01f0300fc0007c1803e0801f02 } } } else { if i < 118 { 0x3f0a01f8400fc1807e0803f0201f07 } else { if i < 119 { 0x3f1001f0e00f86007c2803f0e01f86 } else { 0x3f1601f8a00fc4807c3c03e1a01f0b } } } } }
pub open spec fn U_comp_v_p_0_10(i: int) -> int { if i < 126 { if i < 123 { if i < 121 { 0x3e2801f1200fc7807e3803f1a01f8c } else { if i < 122 { 0x3e3a01f1b00f8e007c6803e2a01f13 } else { 0x3e4a01f2300fc8007c9803e4801f22 } } } else { if i < 124 { 0x3f2a01f9400fc9807e4803f2201f27 } else { if i < 125 { 0x3f3001f2e00f96007ca803f2e01f96 } else { 0x3f3601f9a00fcc807cbc03e5a01f2b } } } } else { if i < 129 { if i < 127 { 0x3e6801f3200fcf807e7803f3a01f9c } else { if i < 128 { 0x3e7801f3a00f9b807cd403e6601f36 } else { 0x3e8801f4200f9f807cf403e7601f3e } } } else { if i < 130 { 0x3e9a01f4b00fa6007d2803e8a01f43 } else { if i < 131 { 0x3eae01f5500fa9807d5803ea801f52 } else { 0x3ecc01f6400fb1007d7c03eba01f5b } } } } }
pub open spec fn U_comp_v_p_0_11(i: int) -> int { if i < 138 { if i < 135 { if i < 133 { 0x3f4401fa100fb3807d9403ec601fa0 } else { if i < 134 { 0x3ed401fa700fd3007e9403f4801fa3 } else { 0x3ede01f6d00fb5807ea003edc01f6c } } } else { if i < 136 { 0x3f5c01fad00fd6007eac03f5401fa9 } else { if i < 137 { 0x3f9a01fb700ff9007f0803f6401faf } else { 0x3fbc01fdd00ffb807f1c03f9e01fce } } } } else { if i < 141 { if i < 139 { 0x439e021cd010d700866c0433401fdf } else { if i < 140 { 0x444c022240110600882404408021ce } else { 0x44c40226d0112480891c0448802241 } } } else { if i < 142 { 0x44f2022780113a8089d0044e202270 } else { if i < 143 { 0x450a0228401170808b800450202280 } else { 0x455a022ac01171808b880451202288 } } } } }
pub open spec fn U_comp_v_p_0(i: int) -> int { if i < 72 { if i < 36 { if i < 12 { U_comp_v_p_0_0(i) } else { if i < 24 { U_comp_v_p_0_1(i) } else { U_comp_v_p_0_2(i) } } } else { if i < 48 { U_comp_v_p_0_3(i) } else { if i < 60 { U_comp_v_p_0_4(i) } else { U_comp_v_p_0_5(i) } } } } else { if i < 108 { if i < 84 { U_comp_v_p_0_6(i) } else { if i < 96 { U_comp_v_p_0_7(i) } else { U_comp_v_p_0_8(i) } } } else { if i < 120 { U_comp_v_p_0_9(i) } else { if i < 132 { U_comp_v_p_0_10(i) } else { U_comp_v_p_0_11(i) } } } } }
pub open spec fn U_comp_v_p_1_0(i: int) -> int { if i < 150 { if i < 147 { if i < 145 { 0x45da022ec01175808ba80455e022ae } else { if i < 146 { 0x60a8030520182800c1380609803094 } else { 0x60c00305e0182e00c168060b003056 } } } else { if i < 148 { 0x60e2030700183480c19c060ca03062 } else { if i < 149 { 0x60f4030790183b80c1d8060e803073 } else { 0x615c030ac0187a00c278060fa0307c } } } } else { if i < 153 { if i < 151 { 0x6174030b80185b00c2d006164030b0 } else { if i < 152 { 0x618e030c50186100c3000617c030bc } else { 0x61ac030d40186980c344061a0030c9 } } } else { if i < 154 { 0x61ee030dd0186e00c368061b2030d7 } else { if i < 155 { 0x20bc8105c90187f00c3e8061f2030f8 } else { 0x226961112f088970442ac221381109a } } } } }
pub open spec fn U_comp_v_p_1_1(i: int) -> int { if i < 158 { if i < 157 { 0x2278e11391089c7044e14227061134c } else { 0x22b74114be08a5d8452f022790113c5 } } else { if i < 159 { 0x2c244161250b09185848423270115bb } else { if i < 160 { 0x2dad016d690b09205849c2c25016126 } else { 0x16d6a } } } }
pub open spec fn U_comp_v_p_1(i: int) -> int { if i < 156 { U_comp_v_p_1_0(i) } else { U_comp_v_p_1_1(i) } }
pub open spec fn U_comp_v_p(i: int) -> int { if i < 144 { U_comp_v_p_0(i) } else { U_comp_v_p_1(i) } }
pub open spec fn U_comp_v(i: int) -> int { unpack21(U_comp_v_p(i / 6), i % 6) }
pub open spec fn comp_ast(a: int, b: int) -> int { if a == 0x105d2 && b == 0x307 { 0x105c9 } else if a == 0x105da && b == 0x307 { 0x105e4 } else if a == 0x11099 && b == 0x110ba { 0x1109a } else if a == 0x1109b && b == 0x110ba { 0x1109c } else if a == 0x110a5 && b == 0x110ba { 0x110ab } else if a == 0x11131 && b == 0x11127 { 0x1112e } else if a == 0x11132 && b == 0x11127 { 0x1112f } else if a == 0x11347 && b == 0x1133e { 0x1134b } else if a == 0x11347 && b == 0x11357 { 0x1134c } else if a == 0x11382 && b == 0x113c9 { 0x11383 } else if a == 0x11384 && b == 0x113bb { 0x11385 } else if a == 0x1138b && b == 0x113c2 { 0x1138e } else if a == 0x11390 && b == 0x113c9 { 0x11391 } else if a == 0x113c2 && b == 0x113b8 { 0x113c7 } else if a == 0x113c2 && b == 0x113c2 { 0x113c5 } else if a == 0x113c2 && b == 0x113c9 { 0x113c8 } else if a == 0x114b9 && b == 0x114b0 { 0x114bc } else if a == 0x114b9 && b == 0x114ba { 0x114bb } else if a == 0x114b9 && b == 0x114bd { 0x114be } else if a == 0x115b8 && b == 0x115af { 0x115ba } else if a == 0x115b9 && b == 0x115af { 0x115bb } else if a == 0x11935 && b == 0x11930 { 0x11938 } else if a == 0x1611e && b == 0x1611e { 0x16121 } else if a == 0x1611e && b == 0x1611f { 0x16123 } else if a == 0x1611e && b == 0x16120 { 0x16125 } else if a == 0x1611e && b == 0x16129 { 0x16122 } else if a == 0x16121 && b == 0x1611f { 0x16126 } else if a == 0x16121 && b == 0x16120 { 0x16128 } else if a == 0x16122 && b == 0x1611f { 0x16127 } else if a == 0x16129 && b == 0x1611f { 0x16124 } else if a == 0x16d63 && b == 0x16d67 { 0x16d69 } else if a == 0x16d67 && b == 0x16d67 { 0x16d68 } else if a == 0x16d69 && b == 0x16d67 { 0x16d6a } else { -1 } }
pub open spec fn comp_ast_n() -> int { 33 }
pub open spec fn U_sec_k_p(i: int) -> int { if i < 6 { if i < 3 { if i < 1 { 0x60c0030400181800c080060200300 } else { if i < 2 { 0x6180030b00185000c240061000307 } else { 0x6460031b0018a000c4c006220030f } } } else { if i < 4 { 0x65a0032800193800c980064a00324 } else { if i < 5 { 0x68a003420019c000cc4006600032e } else { 0x13ae009be0049e00195400ca800653 } } } } else { if i < 9 { if i < 7 { 0x18ac00bd7005df002d5c016ac00b3e } else { if i < 8 { 0x1b9400d570069f003358019aa00cc2 } else { 0x61340309900d9a8040b801bbe00dcf } } } else { if i < 10 { 0x22776113b8089ab844cf82224e110ba } else { if i < 11 { 0x22b5e114bd08a5d0452c022792113c2 } else { 0x2dace161290b09005847c2c23c11930 } } } } }
pub open spec fn U_sec_k(i: int) -> int { unpack21(U_sec_k_p(i / 6), i % 6) }
pub open spec fn U_sec_b(x: int) -> int { if x < 0xb3e { if x < 0x324 { if x < 0x307 { 0 } else { if x < 0x30f { 1 } else { 2 } } } else { if x < 0x32e { 3 } else { if x < 0x653 { 4 } else { 5 } } } } else { if x < 0x110ba { if x < 0xcc2 { 6 } else { if x < 0xdcf { 7 } else { 8 } } } else { if x < 0x113c2 { 9 } else { if x < 0x11930 { 10 } else { 11 } } } } }
pub open spec fn U_sec_n() -> int { 72 }
pub open spec fn U_sec_find(x: int) -> int { let b = U_sec_b(x); let j = b * 6 + within21(U_sec_k_p(b), x); if 0 <= j < 72 && U_sec_k(j) <= x <= U_sec_k(j) { j } else { -1 } }
// quick check for nfd: 0 Yes, 1 No, 2 Maybe (485 intervals)
pub open spec fn qt_nfd_0(x: int) -> int { if x < 0xf0 { if x < 0xd7 { if x < 0xc7 { if x < 0xc0 { 0 } else { if x < 0xc6 { 1 } else { 0 } } } else { if x < 0xd0 { 1 } else { if x < 0xd1 { 0 } else { 1 } } } } else { if x < 0xe0 { if x < 0xd9 { 0 } else { if x < 0xde { 1 } else { 0 } } } else { if x < 0xe6 { 1 } else { if x < 0xe7 { 0 } else { 1 } } } } } else { if x < 0x110 { if x < 0xf9 { if x < 0xf1 { 0 } else { if x < 0xf7 { 1 } else { 0 } } } else { if x < 0xfe { 1 } else { if x < 0xff { 0 } else { 1 } } } } else { if x < 0x128 { if x < 0x112 { 0 } else { if x < 0x126 { 1 } else { 0 } } } else { if x < 0x131 { 1 } else { if x < 0x134 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_1(x: int) -> int { if x < 0x1a2 { if x < 0x152 { if x < 0x143 { if x < 0x139 { 0 } else { if x < 0x13f { 1 } else { 0 } } } else { if x < 0x149 { 1 } else { if x < 0x14c { 0 } else { 1 } } } } else { if x < 0x168 { if x < 0x154 { 0 } else { if x < 0x166 { 1 } else { 0 } } } else { if x < 0x17f { 1 } else { if x < 0x1a0 { 0 } else { 1 } } } } } else { if x < 0x1e4 { if x < 0x1cd { if x < 0x1af { 0 } else { if x < 0x1b1 { 1 } else { 0 } } } else { if x < 0x1dd { 1 } else { if x < 0x1de { 0 } else { 1 } } } } else { if x < 0x1f4 { if x < 0x1e6 { 0 } else { if x < 0x1f1 { 1 } else { 0 } } } else { if x < 0x1f6 { 1 } else { if x < 0x1f8 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_2(x: int) -> int { if x < 0x37f { if x < 0x342 { if x < 0x226 { if x < 0x21e { 0 } else { if x < 0x220 { 1 } else { 0 } } } else { if x < 0x234 { 1 } else { if x < 0x340 { 0 } else { 1 } } } } else { if x < 0x374 { if x < 0x343 { 0 } else { if x < 0x345 { 1 } else { 0 } } } else { if x < 0x375 { 1 } else { if x < 0x37e { 0 } else { 1 } } } } } else { if x < 0x391 { if x < 0x38c { if x < 0x385 { 0 } else { if x < 0x38b { 1 } else { 0 } } } else { if x < 0x38d { 1 } else { if x < 0x38e { 0 } else { 1 } } } } else { if x < 0x3ca { if x < 0x3aa { 0 } else { if x < 0x3b1 { 1 } else { 0 } } } else { if x < 0x3cf { 1 } else { if x < 0x3d3 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_3(x: int) -> int { if x < 0x43a { if x < 0x408 { if x < 0x403 { if x < 0x400 { 0 } else { if x < 0x402 { 1 } else { 0 } } } else { if x < 0x404 { 1 } else { if x < 0x407 { 0 } else { 1 } } } } else { if x < 0x419 { if x < 0x40c { 0 } else { if x < 0x40f { 1 } else { 0 } } } else { if x < 0x41a { 1 } else { if x < 0x439 { 0 } else { 1 } } } } } else { if x < 0x458 { if x < 0x453 { if x < 0x450 { 0 } else { if x < 0x452 { 1 } else { 0 } } } else { if x < 0x454 { 1 } else { if x < 0x457 { 0 } else { 1 } } } } else { if x < 0x476 { if x < 0x45c { 0 } else { if x < 0x45f { 1 } else { 0 } } } else { if x < 0x478 { 1 } else { if x < 0x4c1 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_4(x: int) -> int { if x < 0x4fa { if x < 0x4e0 { if x < 0x4d6 { if x < 0x4d0 { 0 } else { if x < 0x4d4 { 1 } else { 0 } } } else { if x < 0x4d8 { 1 } else { if x < 0x4da { 0 } else { 1 } } } } else { if x < 0x4ea { if x < 0x4e2 { 0 } else { if x < 0x4e8 { 1 } else { 0 } } } else { if x < 0x4f6 { 1 } else { if x < 0x4f8 { 0 } else { 1 } } } } } else { if x < 0x6c3 { if x < 0x6c0 { if x < 0x622 { 0 } else { if x < 0x627 { 1 } else { 0 } } } else { if x < 0x6c1 { 1 } else { if x < 0x6c2 { 0 } else { 1 } } } } else { if x < 0x929 { if x < 0x6d3 { 0 } else { if x < 0x6d4 { 1 } else { 0 } } } else { if x < 0x92a { 1 } else { if x < 0x931 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_5(x: int) -> int { if x < 0xa34 { if x < 0x9cd { if x < 0x958 { if x < 0x934 { 0 } else { if x < 0x935 { 1 } else { 0 } } } else { if x < 0x960 { 1 } else { if x < 0x9cb { 0 } else { 1 } } } } else { if x < 0x9df { if x < 0x9dc { 0 } else { if x < 0x9de { 1 } else { 0 } } } else { if x < 0x9e0 { 1 } else { if x < 0xa33 { 0 } else { 1 } } } } } else { if x < 0xa5f { if x < 0xa59 { if x < 0xa36 { 0 } else { if x < 0xa37 { 1 } else { 0 } } } else { if x < 0xa5c { 1 } else { if x < 0xa5e { 0 } else { 1 } } } } else { if x < 0xb4b { if x < 0xb48 { 0 } else { if x < 0xb49 { 1 } else { 0 } } } else { if x < 0xb4d { 1 } else { if x < 0xb5c { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_6(x: int) -> int { if x < 0xccc { if x < 0xc49 { if x < 0xbca { if x < 0xb94 { 0 } else { if x < 0xb95 { 1 } else { 0 } } } else { if x < 0xbcd { 1 } else { if x < 0xc48 { 0 } else { 1 } } } } else { if x < 0xcc7 { if x < 0xcc0 { 0 } else { if x < 0xcc1 { 1 } else { 0 } } } else { if x < 0xcc9 { 1 } else { if x < 0xcca { 0 } else { 1 } } } } } else { if x < 0xddf { if x < 0xdda { if x < 0xd4a { 0 } else { if x < 0xd4d { 1 } else { 0 } } } else { if x < 0xddb { 1 } else { if x < 0xddc { 0 } else { 1 } } } } else { if x < 0xf4d { if x < 0xf43 { 0 } else { if x < 0xf44 { 1 } else { 0 } } } else { if x < 0xf4e { 1 } else { if x < 0xf52 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_7(x: int) -> int { if x < 0xf79 { if x < 0xf6a { if x < 0xf5c { if x < 0xf57 { 0 } else { if x < 0xf58 { 1 } else { 0 } } } else { if x < 0xf5d { 1 } else { if x < 0xf69 { 0 } else { 1 } } } } else { if x < 0xf75 { if x < 0xf73 { 0 } else { if x < 0xf74 { 1 } else { 0 } } } else { if x < 0xf77 { 1 } else { if x < 0xf78 { 0 } else { 1 } } } } } else { if x < 0xf9e { if x < 0xf93 { if x < 0xf81 { 0 } else { if x < 0xf82 { 1 } else { 0 } } } else { if x < 0xf94 { 1 } else { if x < 0xf9d { 0 } else { 1 } } } } else { if x < 0xfa7 { if x < 0xfa2 { 0 } else { if x < 0xfa3 { 1 } else { 0 } } } else { if x < 0xfa8 { 1 } else { if x < 0xfac { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_8(x: int) -> int { if x < 0x1b0d { if x < 0x1b07 { if x < 0x1026 { if x < 0xfb9 { 0 } else { if x < 0xfba { 1 } else { 0 } } } else { if x < 0x1027 { 1 } else { if x < 0x1b06 { 0 } else { 1 } } } } else { if x < 0x1b0a { if x < 0x1b08 { 0 } else { if x < 0x1b09 { 1 } else { 0 } } } else { if x < 0x1b0b { 1 } else { if x < 0x1b0c { 0 } else { 1 } } } } } else { if x < 0x1b3c { if x < 0x1b12 { if x < 0x1b0e { 0 } else { if x < 0x1b0f { 1 } else { 0 } } } else { if x < 0x1b13 { 1 } else { if x < 0x1b3b { 0 } else { 1 } } } } else { if x < 0x1b40 { if x < 0x1b3d { 0 } else { if x < 0x1b3e { 1 } else { 0 } } } else { if x < 0x1b42 { 1 } else { if x < 0x1b43 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_9(x: int) -> int { if x < 0x1f46 { if x < 0x1efa { if x < 0x1e9b { if x < 0x1e00 { 0 } else { if x < 0x1e9a { 1 } else { 0 } } } else { if x < 0x1e9c { 1 } else { if x < 0x1ea0 { 0 } else { 1 } } } } else { if x < 0x1f18 { if x < 0x1f00 { 0 } else { if x < 0x1f16 { 1 } else { 0 } } } else { if x < 0x1f1e { 1 } else { if x < 0x1f20 { 0 } else { 1 } } } } } else { if x < 0x1f5a { if x < 0x1f50 { if x < 0x1f48 { 0 } else { if x < 0x1f4e { 1 } else { 0 } } } else { if x < 0x1f58 { 1 } else { if x < 0x1f59 { 0 } else { 1 } } } } else { if x < 0x1f5d { if x < 0x1f5b { 0 } else { if x < 0x1f5c { 1 } else { 0 } } } else { if x < 0x1f5e { 1 } else { if x < 0x1f5f { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_10(x: int) -> int { if x < 0x1fdc { if x < 0x1fbf { if x < 0x1fb6 { if x < 0x1f80 { 0 } else { if x < 0x1fb5 { 1 } else { 0 } } } else { if x < 0x1fbd { 1 } else { if x < 0x1fbe { 0 } else { 1 } } } } else { if x < 0x1fc6 { if x < 0x1fc1 { 0 } else { if x < 0x1fc5 { 1 } else { 0 } } } else { if x < 0x1fd4 { 1 } else { if x < 0x1fd6 { 0 } else { 1 } } } } } else { if x < 0x1ffe { if x < 0x1ff2 { if x < 0x1fdd { 0 } else { if x < 0x1ff0 { 1 } else { 0 } } } else { if x < 0x1ff5 { 1 } else { if x < 0x1ff6 { 0 } else { 1 } } } } else { if x < 0x2126 { if x < 0x2000 { 0 } else { if x < 0x2002 { 1 } else { 0 } } } else { if x < 0x2127 { 1 } else { if x < 0x212a { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_11(x: int) -> int { if x < 0x220d { if x < 0x21d0 { if x < 0x21ae { if x < 0x219a { 0 } else { if x < 0x219c { 1 } else { 0 } } } else { if x < 0x21af { 1 } else { if x < 0x21cd { 0 } else { 1 } } } } else { if x < 0x2209 { if x < 0x2204 { 0 } else { if x < 0x2205 { 1 } else { 0 } } } else { if x < 0x220a { 1 } else { if x < 0x220c { 0 } else { 1 } } } } } else { if x < 0x2242 { if x < 0x2226 { if x < 0x2224 { 0 } else { if x < 0x2225 { 1 } else { 0 } } } else { if x < 0x2227 { 1 } else { if x < 0x2241 { 0 } else { 1 } } } } else { if x < 0x2247 { if x < 0x2244 { 0 } else { if x < 0x2245 { 1 } else { 0 } } } else { if x < 0x2248 { 1 } else { if x < 0x2249 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_12(x: int) -> int { if x < 0x2282 { if x < 0x2272 { if x < 0x2262 { if x < 0x2260 { 0 } else { if x < 0x2261 { 1 } else { 0 } } } else { if x < 0x2263 { 1 } else { if x < 0x226d { 0 } else { 1 } } } } else { if x < 0x2278 { if x < 0x2274 { 0 } else { if x < 0x2276 { 1 } else { 0 } } } else { if x < 0x227a { 1 } else { if x < 0x2280 { 0 } else { 1 } } } } } else { if x < 0x22b0 { if x < 0x2288 { if x < 0x2284 { 0 } else { if x < 0x2286 { 1 } else { 0 } } } else { if x < 0x228a { 1 } else { if x < 0x22ac { 0 } else { 1 } } } } else { if x < 0x22ea { if x < 0x22e0 { 0 } else { if x < 0x22e4 { 1 } else { 0 } } } else { if x < 0x22ee { 1 } else { if x < 0x2329 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_13(x: int) -> int { if x < 0x3055 { if x < 0x304f { if x < 0x304c { if x < 0x2adc { 0 } else { if x < 0x2add { 1 } else { 0 } } } else { if x < 0x304d { 1 } else { if x < 0x304e { 0 } else { 1 } } } } else { if x < 0x3052 { if x < 0x3050 { 0 } else { if x < 0x3051 { 1 } else { 0 } } } else { if x < 0x3053 { 1 } else { if x < 0x3054 { 0 } else { 1 } } } } } else { if x < 0x305b { if x < 0x3058 { if x < 0x3056 { 0 } else { if x < 0x3057 { 1 } else { 0 } } } else { if x < 0x3059 { 1 } else { if x < 0x305a { 0 } else { 1 } } } } else { if x < 0x305e { if x < 0x305c { 0 } else { if x < 0x305d { 1 } else { 0 } } } else { if x < 0x305f { 1 } else { if x < 0x3060 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_14(x: int) -> int { if x < 0x3075 { if x < 0x3068 { if x < 0x3065 { if x < 0x3062 { 0 } else { if x < 0x3063 { 1 } else { 0 } } } else { if x < 0x3066 { 1 } else { if x < 0x3067 { 0 } else { 1 } } } } else { if x < 0x3070 { if x < 0x3069 { 0 } else { if x < 0x306a { 1 } else { 0 } } } else { if x < 0x3072 { 1 } else { if x < 0x3073 { 0 } else { 1 } } } } } else { if x < 0x307e { if x < 0x3079 { if x < 0x3076 { 0 } else { if x < 0x3078 { 1 } else { 0 } } } else { if x < 0x307b { 1 } else { if x < 0x307c { 0 } else { 1 } } } } else { if x < 0x309e { if x < 0x3094 { 0 } else { if x < 0x3095 { 1 } else { 0 } } } else { if x < 0x309f { 1 } else { if x < 0x30ac { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_15(x: int) -> int { if x < 0x30b9 { if x < 0x30b3 { if x < 0x30b0 { if x < 0x30ae { 0 } else { if x < 0x30af { 1 } else { 0 } } } else { if x < 0x30b1 { 1 } else { if x < 0x30b2 { 0 } else { 1 } } } } else { if x < 0x30b6 { if x < 0x30b4 { 0 } else { if x < 0x30b5 { 1 } else { 0 } } } else { if x < 0x30b7 { 1 } else { if x < 0x30b8 { 0 } else { 1 } } } } } else { if x < 0x30bf { if x < 0x30bc { if x < 0x30ba { 0 } else { if x < 0x30bb { 1 } else { 0 } } } else { if x < 0x30bd { 1 } else { if x < 0x30be { 0 } else { 1 } } } } else { if x < 0x30c2 { if x < 0x30c0 { 0 } else { if x < 0x30c1 { 1 } else { 0 } } } else { if x < 0x30c3 { 1 } else { if x < 0x30c5 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_16(x: int) -> int { if x < 0x30db { if x < 0x30d2 { if x < 0x30c9 { if x < 0x30c7 { 0 } else { if x < 0x30c8 { 1 } else { 0 } } } else { if x < 0x30ca { 1 } else { if x < 0x30d0 { 0 } else { 1 } } } } else { if x < 0x30d6 { if x < 0x30d3 { 0 } else { if x < 0x30d5 { 1 } else { 0 } } } else { if x < 0x30d8 { 1 } else { if x < 0x30d9 { 0 } else { 1 } } } } } else { if x < 0x30fb { if x < 0x30f4 { if x < 0x30dc { 0 } else { if x < 0x30de { 1 } else { 0 } } } else { if x < 0x30f5 { 1 } else { if x < 0x30f7 { 0 } else { 1 } } } } else { if x < 0xac00 { if x < 0x30fe { 0 } else { if x < 0x30ff { 1 } else { 0 } } } else { if x < 0xd7a4 { 1 } else { if x < 0xf900 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_17(x: int) -> int { if x < 0xfa27 { if x < 0xfa1f { if x < 0xfa12 { if x < 0xfa10 { 0 } else { if x < 0xfa11 { 1 } else { 0 } } } else { if x < 0xfa13 { 1 } else { if x < 0xfa15 { 0 } else { 1 } } } } else { if x < 0xfa22 { if x < 0xfa20 { 0 } else { if x < 0xfa21 { 1 } else { 0 } } } else { if x < 0xfa23 { 1 } else { if x < 0xfa25 { 0 } else { 1 } } } } } else { if x < 0xfb1e { if x < 0xfa70 { if x < 0xfa2a { 0 } else { if x < 0xfa6e { 1 } else { 0 } } } else { if x < 0xfada { 1 } else { if x < 0xfb1d { 0 } else { 1 } } } } else { if x < 0xfb2a { if x < 0xfb1f { 0 } else { if x < 0xfb20 { 1 } else { 0 } } } else { if x < 0xfb37 { 1 } else { if x < 0xfb38 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_18(x: int) -> int { if x < 0x105e5 { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { 0 } else { if x < 0xfb3f { 1 } else { 0 } } } else { if x < 0xfb42 { 1 } else { if x < 0xfb43 { 0 } else { 1 } } } } else { if x < 0x105c9 { if x < 0xfb46 { 0 } else { if x < 0xfb4f { 1 } else { 0 } } } else { if x < 0x105ca { 1 } else { if x < 0x105e4 { 0 } else { 1 } } } } } else { if x < 0x110ac { if x < 0x1109c { if x < 0x1109a { 0 } else { if x < 0x1109b { 1 } else { 0 } } } else { if x < 0x1109d { 1 } else { if x < 0x110ab { 0 } else { 1 } } } } else { if x < 0x1134b { if x < 0x1112e { 0 } else { if x < 0x11130 { 1 } else { 0 } } } else { if x < 0x1134d { 1 } else { if x < 0x11383 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_19(x: int) -> int { if x < 0x114bd { if x < 0x11392 { if x < 0x1138e { if x < 0x11385 { 0 } else { if x < 0x11386 { 1 } else { 0 } } } else { if x < 0x1138f { 1 } else { if x < 0x11391 { 0 } else { 1 } } } } else { if x < 0x113c7 { if x < 0x113c5 { 0 } else { if x < 0x113c6 { 1 } else { 0 } } } else { if x < 0x113c9 { 1 } else { if x < 0x114bb { 0 } else { 1 } } } } } else { if x < 0x11939 { if x < 0x115ba { if x < 0x114be { 0 } else { if x < 0x114bf { 1 } else { 0 } } } else { if x < 0x115bc { 1 } else { if x < 0x11938 { 0 } else { 1 } } } } else { if x < 0x16d68 { if x < 0x16121 { 0 } else { if x < 0x16129 { 1 } else { 0 } } } else { if x < 0x16d6b { 1 } else { if x < 0x1d15e { 0 } else { 1 } } } } } }
pub open spec fn qt_nfd_20(x: int) -> int { if x < 0x1d1c1 { if x < 0x1d1bb { 0 } else { 1 } } else { if x < 0x2f800 { 0 } else { if x < 0x2fa1e { 1 } else { 0 } } } }
pub open spec fn qt_nfd(x: int) -> int { if x < 0x1f7e { if x < 0x932 { if x < 0x21c { if x < 0x138 { qt_nfd_0(x) } else { qt_nfd_1(x) } } else { if x < 0x3d5 { qt_nfd_2(x) } else { if x < 0x4c3 { qt_nfd_3(x) } else { qt_nfd_4(x) } } } } else { if x < 0xf53 { if x < 0xb5e { qt_nfd_5(x) } else { qt_nfd_6(x) } } else { if x < 0xfad { qt_nfd_7(x) } else { if x < 0x1b44 { qt_nfd_8(x) } else { qt_nfd_9(x) } } } } } else { if x < 0x30ad { if x < 0x224a { if x < 0x212c { qt_nfd_10(x) } else { qt_nfd_11(x) } } else { if x < 0x232b { qt_nfd_12(x) } else { if x < 0x3061 { qt_nfd_13(x) } else { qt_nfd_14(x) } } } } else { if x < 0xfb3d { if x < 0x30c6 { qt_nfd_15(x) } else { if x < 0xfa0e { qt_nfd_16(x) } else { qt_nfd_17(x) } } } else { if x < 0x11384 { qt_nfd_18(x) } else { if x < 0x1d165 { qt_nfd_19(x) } else { qt_nfd_20(x) } } } } } }
// quick check for nfkd: 0 Yes, 1 No, 2 Maybe (817 intervals)
pub open spec fn qt_nfkd_0(x: int) -> int { if x < 0xbb { if x < 0xab { if x < 0xa8 { if x < 0xa0 { 0 } else { if x < 0xa1 { 1 } else { 0 } } } else { if x < 0xa9 { 1 } else { if x < 0xaa { 0 } else { 1 } } } } else { if x < 0xb2 { if x < 0xaf { 0 } else { if x < 0xb0 { 1 } else { 0 } } } else { if x < 0xb6 { 1 } else { if x < 0xb8 { 0 } else { 1 } } } } } else { if x < 0xd0 { if x < 0xc0 { if x < 0xbc { 0 } else { if x < 0xbf { 1 } else { 0 } } } else { if x < 0xc6 { 1 } else { if x < 0xc7 { 0 } else { 1 } } } } else { if x < 0xd9 { if x < 0xd1 { 0 } else { if x < 0xd7 { 1 } else { 0 } } } else { if x < 0xde { 1 } else { if x < 0xe0 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_1(x: int) -> int { if x < 0x131 { if x < 0xfe { if x < 0xf1 { if x < 0xe7 { 0 } else { if x < 0xf0 { 1 } else { 0 } } } else { if x < 0xf7 { 1 } else { if x < 0xf9 { 0 } else { 1 } } } } else { if x < 0x112 { if x < 0xff { 0 } else { if x < 0x110 { 1 } else { 0 } } } else { if x < 0x126 { 1 } else { if x < 0x128 { 0 } else { 1 } } } } } else { if x < 0x14a { if x < 0x139 { if x < 0x132 { 0 } else { if x < 0x138 { 1 } else { 0 } } } else { if x < 0x141 { 1 } else { if x < 0x143 { 0 } else { 1 } } } } else { if x < 0x154 { if x < 0x14c { 0 } else { if x < 0x152 { 1 } else { 0 } } } else { if x < 0x166 { 1 } else { if x < 0x168 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_2(x: int) -> int { if x < 0x21c { if x < 0x1dd { if x < 0x1af { if x < 0x1a0 { 0 } else { if x < 0x1a2 { 1 } else { 0 } } } else { if x < 0x1b1 { 1 } else { if x < 0x1c4 { 0 } else { 1 } } } } else { if x < 0x1e6 { if x < 0x1de { 0 } else { if x < 0x1e4 { 1 } else { 0 } } } else { if x < 0x1f6 { 1 } else { if x < 0x1f8 { 0 } else { 1 } } } } } else { if x < 0x2b9 { if x < 0x226 { if x < 0x21e { 0 } else { if x < 0x220 { 1 } else { 0 } } } else { if x < 0x234 { 1 } else { if x < 0x2b0 { 0 } else { 1 } } } } else { if x < 0x2e0 { if x < 0x2d8 { 0 } else { if x < 0x2de { 1 } else { 0 } } } else { if x < 0x2e5 { 1 } else { if x < 0x340 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_3(x: int) -> int { if x < 0x38d { if x < 0x37b { if x < 0x374 { if x < 0x343 { 0 } else { if x < 0x345 { 1 } else { 0 } } } else { if x < 0x375 { 1 } else { if x < 0x37a { 0 } else { 1 } } } } else { if x < 0x384 { if x < 0x37e { 0 } else { if x < 0x37f { 1 } else { 0 } } } else { if x < 0x38b { 1 } else { if x < 0x38c { 0 } else { 1 } } } } } else { if x < 0x3cf { if x < 0x3aa { if x < 0x38e { 0 } else { if x < 0x391 { 1 } else { 0 } } } else { if x < 0x3b1 { 1 } else { if x < 0x3ca { 0 } else { 1 } } } } else { if x < 0x3f0 { if x < 0x3d0 { 0 } else { if x < 0x3d7 { 1 } else { 0 } } } else { if x < 0x3f3 { 1 } else { if x < 0x3f4 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_4(x: int) -> int { if x < 0x41a { if x < 0x404 { if x < 0x400 { if x < 0x3f9 { 0 } else { if x < 0x3fa { 1 } else { 0 } } } else { if x < 0x402 { 1 } else { if x < 0x403 { 0 } else { 1 } } } } else { if x < 0x40c { if x < 0x407 { 0 } else { if x < 0x408 { 1 } else { 0 } } } else { if x < 0x40f { 1 } else { if x < 0x419 { 0 } else { 1 } } } } } else { if x < 0x454 { if x < 0x450 { if x < 0x439 { 0 } else { if x < 0x43a { 1 } else { 0 } } } else { if x < 0x452 { 1 } else { if x < 0x453 { 0 } else { 1 } } } } else { if x < 0x45c { if x < 0x457 { 0 } else { if x < 0x458 { 1 } else { 0 } } } else { if x < 0x45f { 1 } else { if x < 0x476 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_5(x: int) -> int { if x < 0x4f6 { if x < 0x4d8 { if x < 0x4d0 { if x < 0x4c1 { 0 } else { if x < 0x4c3 { 1 } else { 0 } } } else { if x < 0x4d4 { 1 } else { if x < 0x4d6 { 0 } else { 1 } } } } else { if x < 0x4e2 { if x < 0x4da { 0 } else { if x < 0x4e0 { 1 } else { 0 } } } else { if x < 0x4e8 { 1 } else { if x < 0x4ea { 0 } else { 1 } } } } } else { if x < 0x627 { if x < 0x587 { if x < 0x4f8 { 0 } else { if x < 0x4fa { 1 } else { 0 } } } else { if x < 0x588 { 1 } else { if x < 0x622 { 0 } else { 1 } } } } else { if x < 0x6c0 { if x < 0x675 { 0 } else { if x < 0x679 { 1 } else { 0 } } } else { if x < 0x6c1 { 1 } else { if x < 0x6c2 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_6(x: int) -> int { if x < 0x9cd { if x < 0x932 { if x < 0x929 { if x < 0x6d3 { 0 } else { if x < 0x6d4 { 1 } else { 0 } } } else { if x < 0x92a { 1 } else { if x < 0x931 { 0 } else { 1 } } } } else { if x < 0x958 { if x < 0x934 { 0 } else { if x < 0x935 { 1 } else { 0 } } } else { if x < 0x960 { 1 } else { if x < 0x9cb { 0 } else { 1 } } } } } else { if x < 0xa34 { if x < 0x9df { if x < 0x9dc { 0 } else { if x < 0x9de { 1 } else { 0 } } } else { if x < 0x9e0 { 1 } else { if x < 0xa33 { 0 } else { 1 } } } } else { if x < 0xa59 { if x < 0xa36 { 0 } else { if x < 0xa37 { 1 } else { 0 } } } else { if x < 0xa5c { 1 } else { if x < 0xa5e { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_7(x: int) -> int { if x < 0xc49 { if x < 0xb5e { if x < 0xb4b { if x < 0xb48 { 0 } else { if x < 0xb49 { 1 } else { 0 } } } else { if x < 0xb4d { 1 } else { if x < 0xb5c { 0 } else { 1 } } } } else { if x < 0xbca { if x < 0xb94 { 0 } else { if x < 0xb95 { 1 } else { 0 } } } else { if x < 0xbcd { 1 } else { if x < 0xc48 { 0 } else { 1 } } } } } else { if x < 0xccc { if x < 0xcc7 { if x < 0xcc0 { 0 } else { if x < 0xcc1 { 1 } else { 0 } } } else { if x < 0xcc9 { 1 } else { if x < 0xcca { 0 } else { 1 } } } } else { if x < 0xdda { if x < 0xd4a { 0 } else { if x < 0xd4d { 1 } else { 0 } } } else { if x < 0xddb { 1 } else { if x < 0xddc { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_8(x: int) -> int { if x < 0xf4e { if x < 0xede { if x < 0xeb3 { if x < 0xe33 { 0 } else { if x < 0xe34 { 1 } else { 0 } } } else { if x < 0xeb4 { 1 } else { if x < 0xedc { 0 } else { 1 } } } } else { if x < 0xf43 { if x < 0xf0c { 0 } else { if x < 0xf0d { 1 } else { 0 } } } else { if x < 0xf44 { 1 } else { if x < 0xf4d { 0 } else { 1 } } } } } else { if x < 0xf5d { if x < 0xf57 { if x < 0xf52 { 0 } else { if x < 0xf53 { 1 } else { 0 } } } else { if x < 0xf58 { 1 } else { if x < 0xf5c { 0 } else { 1 } } } } else { if x < 0xf73 { if x < 0xf69 { 0 } else { if x < 0xf6a { 1 } else { 0 } } } else { if x < 0xf74 { 1 } else { if x < 0xf75 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_9(x: int) -> int { if x < 0xfad { if x < 0xf9e { if x < 0xf93 { if x < 0xf81 { 0 } else { if x < 0xf82 { 1 } else { 0 } } } else { if x < 0xf94 { 1 } else { if x < 0xf9d { 0 } else { 1 } } } } else { if x < 0xfa7 { if x < 0xfa2 { 0 } else { if x < 0xfa3 { 1 } else { 0 } } } else { if x < 0xfa8 { 1 } else { if x < 0xfac { 0 } else { 1 } } } } } else { if x < 0x10fd { if x < 0x1026 { if x < 0xfb9 { 0 } else { if x < 0xfba { 1 } else { 0 } } } else { if x < 0x1027 { 1 } else { if x < 0x10fc { 0 } else { 1 } } } } else { if x < 0x1b08 { if x < 0x1b06 { 0 } else { if x < 0x1b07 { 1 } else { 0 } } } else { if x < 0x1b09 { 1 } else { if x < 0x1b0a { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_10(x: int) -> int { if x < 0x1b42 { if x < 0x1b13 { if x < 0x1b0e { if x < 0x1b0c { 0 } else { if x < 0x1b0d { 1 } else { 0 } } } else { if x < 0x1b0f { 1 } else { if x < 0x1b12 { 0 } else { 1 } } } } else { if x < 0x1b3d { if x < 0x1b3b { 0 } else { if x < 0x1b3c { 1 } else { 0 } } } else { if x < 0x1b3e { 1 } else { if x < 0x1b40 { 0 } else { 1 } } } } } else { if x < 0x1d3b { if x < 0x1d2c { if x < 0x1b43 { 0 } else { if x < 0x1b44 { 1 } else { 0 } } } else { if x < 0x1d2f { 1 } else { if x < 0x1d30 { 0 } else { 1 } } } } else { if x < 0x1d4f { if x < 0x1d3c { 0 } else { if x < 0x1d4e { 1 } else { 0 } } } else { if x < 0x1d6b { 1 } else { if x < 0x1d78 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_11(x: int) -> int { if x < 0x1f46 { if x < 0x1efa { if x < 0x1e00 { if x < 0x1d9b { 0 } else { if x < 0x1dc0 { 1 } else { 0 } } } else { if x < 0x1e9c { 1 } else { if x < 0x1ea0 { 0 } else { 1 } } } } else { if x < 0x1f18 { if x < 0x1f00 { 0 } else { if x < 0x1f16 { 1 } else { 0 } } } else { if x < 0x1f1e { 1 } else { if x < 0x1f20 { 0 } else { 1 } } } } } else { if x < 0x1f5a { if x < 0x1f50 { if x < 0x1f48 { 0 } else { if x < 0x1f4e { 1 } else { 0 } } } else { if x < 0x1f58 { 1 } else { if x < 0x1f59 { 0 } else { 1 } } } } else { if x < 0x1f5d { if x < 0x1f5b { 0 } else { if x < 0x1f5c { 1 } else { 0 } } } else { if x < 0x1f5e { 1 } else { if x < 0x1f5f { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_12(x: int) -> int { if x < 0x1ff5 { if x < 0x1fd4 { if x < 0x1fb6 { if x < 0x1f80 { 0 } else { if x < 0x1fb5 { 1 } else { 0 } } } else { if x < 0x1fc5 { 1 } else { if x < 0x1fc6 { 0 } else { 1 } } } } else { if x < 0x1fdd { if x < 0x1fd6 { 0 } else { if x < 0x1fdc { 1 } else { 0 } } } else { if x < 0x1ff0 { 1 } else { if x < 0x1ff2 { 0 } else { 1 } } } } } else { if x < 0x2012 { if x < 0x2000 { if x < 0x1ff6 { 0 } else { if x < 0x1fff { 1 } else { 0 } } } else { if x < 0x200b { 1 } else { if x < 0x2011 { 0 } else { 1 } } } } else { if x < 0x2024 { if x < 0x2017 { 0 } else { if x < 0x2018 { 1 } else { 0 } } } else { if x < 0x2027 { 1 } else { if x < 0x202f { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_13(x: int) -> int { if x < 0x2058 { if x < 0x203d { if x < 0x2036 { if x < 0x2033 { 0 } else { if x < 0x2035 { 1 } else { 0 } } } else { if x < 0x2038 { 1 } else { if x < 0x203c { 0 } else { 1 } } } } else { if x < 0x2047 { if x < 0x203e { 0 } else { if x < 0x203f { 1 } else { 0 } } } else { if x < 0x204a { 1 } else { if x < 0x2057 { 0 } else { 1 } } } } } else { if x < 0x208f { if x < 0x2070 { if x < 0x205f { 0 } else { if x < 0x2060 { 1 } else { 0 } } } else { if x < 0x2072 { 1 } else { if x < 0x2074 { 0 } else { 1 } } } } else { if x < 0x20a8 { if x < 0x2090 { 0 } else { if x < 0x209d { 1 } else { 0 } } } else { if x < 0x20a9 { 1 } else { if x < 0x2100 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_14(x: int) -> int { if x < 0x2125 { if x < 0x2117 { if x < 0x2109 { if x < 0x2105 { 0 } else { if x < 0x2108 { 1 } else { 0 } } } else { if x < 0x2114 { 1 } else { if x < 0x2115 { 0 } else { 1 } } } } else { if x < 0x2120 { if x < 0x2119 { 0 } else { if x < 0x211e { 1 } else { 0 } } } else { if x < 0x2123 { 1 } else { if x < 0x2124 { 0 } else { 1 } } } } } else { if x < 0x212e { if x < 0x2128 { if x < 0x2126 { 0 } else { if x < 0x2127 { 1 } else { 0 } } } else { if x < 0x2129 { 1 } else { if x < 0x212a { 0 } else { 1 } } } } else { if x < 0x2133 { if x < 0x212f { 0 } else { if x < 0x2132 { 1 } else { 0 } } } else { if x < 0x213a { 1 } else { if x < 0x213b { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_15(x: int) -> int { if x < 0x21d0 { if x < 0x218a { if x < 0x2150 { if x < 0x2145 { 0 } else { if x < 0x214a { 1 } else { 0 } } } else { if x < 0x2180 { 1 } else { if x < 0x2189 { 0 } else { 1 } } } } else { if x < 0x21ae { if x < 0x219a { 0 } else { if x < 0x219c { 1 } else { 0 } } } else { if x < 0x21af { 1 } else { if x < 0x21cd { 0 } else { 1 } } } } } else { if x < 0x220d { if x < 0x2209 { if x < 0x2204 { 0 } else { if x < 0x2205 { 1 } else { 0 } } } else { if x < 0x220a { 1 } else { if x < 0x220c { 0 } else { 1 } } } } else { if x < 0x2226 { if x < 0x2224 { 0 } else { if x < 0x2225 { 1 } else { 0 } } } else { if x < 0x2227 { 1 } else { if x < 0x222c { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_16(x: int) -> int { if x < 0x2261 { if x < 0x2245 { if x < 0x2241 { if x < 0x222f { 0 } else { if x < 0x2231 { 1 } else { 0 } } } else { if x < 0x2242 { 1 } else { if x < 0x2244 { 0 } else { 1 } } } } else { if x < 0x2249 { if x < 0x2247 { 0 } else { if x < 0x2248 { 1 } else { 0 } } } else { if x < 0x224a { 1 } else { if x < 0x2260 { 0 } else { 1 } } } } } else { if x < 0x2276 { if x < 0x226d { if x < 0x2262 { 0 } else { if x < 0x2263 { 1 } else { 0 } } } else { if x < 0x2272 { 1 } else { if x < 0x2274 { 0 } else { 1 } } } } else { if x < 0x2280 { if x < 0x2278 { 0 } else { if x < 0x227a { 1 } else { 0 } } } else { if x < 0x2282 { 1 } else { if x < 0x2284 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_17(x: int) -> int { if x < 0x24eb { if x < 0x22e4 { if x < 0x22ac { if x < 0x2288 { 0 } else { if x < 0x228a { 1 } else { 0 } } } else { if x < 0x22b0 { 1 } else { if x < 0x22e0 { 0 } else { 1 } } } } else { if x < 0x2329 { if x < 0x22ea { 0 } else { if x < 0x22ee { 1 } else { 0 } } } else { if x < 0x232b { 1 } else { if x < 0x2460 { 0 } else { 1 } } } } } else { if x < 0x2add { if x < 0x2a74 { if x < 0x2a0c { 0 } else { if x < 0x2a0d { 1 } else { 0 } } } else { if x < 0x2a77 { 1 } else { if x < 0x2adc { 0 } else { 1 } } } } else { if x < 0x2d6f { if x < 0x2c7c { 0 } else { if x < 0x2c7e { 1 } else { 0 } } } else { if x < 0x2d70 { 1 } else { if x < 0x2e9f { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_18(x: int) -> int { if x < 0x304d { if x < 0x3001 { if x < 0x2f00 { if x < 0x2ef3 { 0 } else { if x < 0x2ef4 { 1 } else { 0 } } } else { if x < 0x2fd6 { 1 } else { if x < 0x3000 { 0 } else { 1 } } } } else { if x < 0x3038 { if x < 0x3036 { 0 } else { if x < 0x3037 { 1 } else { 0 } } } else { if x < 0x303b { 1 } else { if x < 0x304c { 0 } else { 1 } } } } } else { if x < 0x3053 { if x < 0x3050 { if x < 0x304e { 0 } else { if x < 0x304f { 1 } else { 0 } } } else { if x < 0x3051 { 1 } else { if x < 0x3052 { 0 } else { 1 } } } } else { if x < 0x3056 { if x < 0x3054 { 0 } else { if x < 0x3055 { 1 } else { 0 } } } else { if x < 0x3057 { 1 } else { if x < 0x3058 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_19(x: int) -> int { if x < 0x3066 { if x < 0x305f { if x < 0x305c { if x < 0x305a { 0 } else { if x < 0x305b { 1 } else { 0 } } } else { if x < 0x305d { 1 } else { if x < 0x305e { 0 } else { 1 } } } } else { if x < 0x3062 { if x < 0x3060 { 0 } else { if x < 0x3061 { 1 } else { 0 } } } else { if x < 0x3063 { 1 } else { if x < 0x3065 { 0 } else { 1 } } } } } else { if x < 0x3072 { if x < 0x3069 { if x < 0x3067 { 0 } else { if x < 0x3068 { 1 } else { 0 } } } else { if x < 0x306a { 1 } else { if x < 0x3070 { 0 } else { 1 } } } } else { if x < 0x3076 { if x < 0x3073 { 0 } else { if x < 0x3075 { 1 } else { 0 } } } else { if x < 0x3078 { 1 } else { if x < 0x3079 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_20(x: int) -> int { if x < 0x30af { if x < 0x309d { if x < 0x3094 { if x < 0x307c { 0 } else { if x < 0x307e { 1 } else { 0 } } } else { if x < 0x3095 { 1 } else { if x < 0x309b { 0 } else { 1 } } } } else { if x < 0x30ac { if x < 0x309e { 0 } else { if x < 0x30a0 { 1 } else { 0 } } } else { if x < 0x30ad { 1 } else { if x < 0x30ae { 0 } else { 1 } } } } } else { if x < 0x30b5 { if x < 0x30b2 { if x < 0x30b0 { 0 } else { if x < 0x30b1 { 1 } else { 0 } } } else { if x < 0x30b3 { 1 } else { if x < 0x30b4 { 0 } else { 1 } } } } else { if x < 0x30b8 { if x < 0x30b6 { 0 } else { if x < 0x30b7 { 1 } else { 0 } } } else { if x < 0x30b9 { 1 } else { if x < 0x30ba { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_21(x: int) -> int { if x < 0x30c8 { if x < 0x30c1 { if x < 0x30be { if x < 0x30bc { 0 } else { if x < 0x30bd { 1 } else { 0 } } } else { if x < 0x30bf { 1 } else { if x < 0x30c0 { 0 } else { 1 } } } } else { if x < 0x30c5 { if x < 0x30c2 { 0 } else { if x < 0x30c3 { 1 } else { 0 } } } else { if x < 0x30c6 { 1 } else { if x < 0x30c7 { 0 } else { 1 } } } } } else { if x < 0x30d5 { if x < 0x30d0 { if x < 0x30c9 { 0 } else { if x < 0x30ca { 1 } else { 0 } } } else { if x < 0x30d2 { 1 } else { if x < 0x30d3 { 0 } else { 1 } } } } else { if x < 0x30d9 { if x < 0x30d6 { 0 } else { if x < 0x30d8 { 1 } else { 0 } } } else { if x < 0x30db { 1 } else { if x < 0x30dc { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_22(x: int) -> int { if x < 0x321f { if x < 0x3100 { if x < 0x30f7 { if x < 0x30f4 { 0 } else { if x < 0x30f5 { 1 } else { 0 } } } else { if x < 0x30fb { 1 } else { if x < 0x30fe { 0 } else { 1 } } } } else { if x < 0x3192 { if x < 0x3131 { 0 } else { if x < 0x318f { 1 } else { 0 } } } else { if x < 0x31a0 { 1 } else { if x < 0x3200 { 0 } else { 1 } } } } } else { if x < 0x3400 { if x < 0x3250 { if x < 0x3220 { 0 } else { if x < 0x3248 { 1 } else { 0 } } } else { if x < 0x327f { 1 } else { if x < 0x3280 { 0 } else { 1 } } } } else { if x < 0xa770 { if x < 0xa69c { 0 } else { if x < 0xa69e { 1 } else { 0 } } } else { if x < 0xa771 { 1 } else { if x < 0xa7f2 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_23(x: int) -> int { if x < 0xfa11 { if x < 0xab6a { if x < 0xab5c { if x < 0xa7f8 { 0 } else { if x < 0xa7fa { 1 } else { 0 } } } else { if x < 0xab60 { 1 } else { if x < 0xab69 { 0 } else { 1 } } } } else { if x < 0xf900 { if x < 0xac00 { 0 } else { if x < 0xd7a4 { 1 } else { 0 } } } else { if x < 0xfa0e { 1 } else { if x < 0xfa10 { 0 } else { 1 } } } } } else { if x < 0xfa21 { if x < 0xfa15 { if x < 0xfa12 { 0 } else { if x < 0xfa13 { 1 } else { 0 } } } else { if x < 0xfa1f { 1 } else { if x < 0xfa20 { 0 } else { 1 } } } } else { if x < 0xfa25 { if x < 0xfa22 { 0 } else { if x < 0xfa23 { 1 } else { 0 } } } else { if x < 0xfa27 { 1 } else { if x < 0xfa2a { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_24(x: int) -> int { if x < 0xfb3d { if x < 0xfb18 { if x < 0xfb00 { if x < 0xfa70 { 0 } else { if x < 0xfada { 1 } else { 0 } } } else { if x < 0xfb07 { 1 } else { if x < 0xfb13 { 0 } else { 1 } } } } else { if x < 0xfb1f { if x < 0xfb1d { 0 } else { if x < 0xfb1e { 1 } else { 0 } } } else { if x < 0xfb37 { 1 } else { if x < 0xfb38 { 0 } else { 1 } } } } } else { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { 0 } else { if x < 0xfb3f { 1 } else { 0 } } } else { if x < 0xfb42 { 1 } else { if x < 0xfb43 { 0 } else { 1 } } } } else { if x < 0xfbd3 { if x < 0xfb46 { 0 } else { if x < 0xfbb2 { 1 } else { 0 } } } else { if x < 0xfd3e { 1 } else { if x < 0xfd50 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_25(x: int) -> int { if x < 0xfe67 { if x < 0xfe1a { if x < 0xfdf0 { if x < 0xfd92 { 0 } else { if x < 0xfdc8 { 1 } else { 0 } } } else { if x < 0xfdfd { 1 } else { if x < 0xfe10 { 0 } else { 1 } } } } else { if x < 0xfe47 { if x < 0xfe30 { 0 } else { if x < 0xfe45 { 1 } else { 0 } } } else { if x < 0xfe53 { 1 } else { if x < 0xfe54 { 0 } else { 1 } } } } } else { if x < 0xfe75 { if x < 0xfe70 { if x < 0xfe68 { 0 } else { if x < 0xfe6c { 1 } else { 0 } } } else { if x < 0xfe73 { 1 } else { if x < 0xfe74 { 0 } else { 1 } } } } else { if x < 0xff01 { if x < 0xfe76 { 0 } else { if x < 0xfefd { 1 } else { 0 } } } else { if x < 0xffbf { 1 } else { if x < 0xffc2 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_26(x: int) -> int { if x < 0x105ca { if x < 0xffdd { if x < 0xffd2 { if x < 0xffca { 0 } else { if x < 0xffd0 { 1 } else { 0 } } } else { if x < 0xffd8 { 1 } else { if x < 0xffda { 0 } else { 1 } } } } else { if x < 0xffe8 { if x < 0xffe0 { 0 } else { if x < 0xffe7 { 1 } else { 0 } } } else { if x < 0xffef { 1 } else { if x < 0x105c9 { 0 } else { 1 } } } } } else { if x < 0x107b1 { if x < 0x10781 { if x < 0x105e4 { 0 } else { if x < 0x105e5 { 1 } else { 0 } } } else { if x < 0x10786 { 1 } else { if x < 0x10787 { 0 } else { 1 } } } } else { if x < 0x1109a { if x < 0x107b2 { 0 } else { if x < 0x107bb { 1 } else { 0 } } } else { if x < 0x1109b { 1 } else { if x < 0x1109c { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_27(x: int) -> int { if x < 0x1138f { if x < 0x1134d { if x < 0x1112e { if x < 0x110ab { 0 } else { if x < 0x110ac { 1 } else { 0 } } } else { if x < 0x11130 { 1 } else { if x < 0x1134b { 0 } else { 1 } } } } else { if x < 0x11385 { if x < 0x11383 { 0 } else { if x < 0x11384 { 1 } else { 0 } } } else { if x < 0x11386 { 1 } else { if x < 0x1138e { 0 } else { 1 } } } } } else { if x < 0x113c9 { if x < 0x113c5 { if x < 0x11391 { 0 } else { if x < 0x11392 { 1 } else { 0 } } } else { if x < 0x113c6 { 1 } else { if x < 0x113c7 { 0 } else { 1 } } } } else { if x < 0x114be { if x < 0x114bb { 0 } else { if x < 0x114bd { 1 } else { 0 } } } else { if x < 0x114bf { 1 } else { if x < 0x115ba { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_28(x: int) -> int { if x < 0x1d1c1 { if x < 0x16d6b { if x < 0x16121 { if x < 0x11938 { 0 } else { if x < 0x11939 { 1 } else { 0 } } } else { if x < 0x16129 { 1 } else { if x < 0x16d68 { 0 } else { 1 } } } } else { if x < 0x1d15e { if x < 0x1ccd6 { 0 } else { if x < 0x1ccfa { 1 } else { 0 } } } else { if x < 0x1d165 { 1 } else { if x < 0x1d1bb { 0 } else { 1 } } } } } else { if x < 0x1d4a0 { if x < 0x1d456 { if x < 0x1d400 { 0 } else { if x < 0x1d455 { 1 } else { 0 } } } else { if x < 0x1d49d { 1 } else { if x < 0x1d49e { 0 } else { 1 } } } } else { if x < 0x1d4a5 { if x < 0x1d4a2 { 0 } else { if x < 0x1d4a3 { 1 } else { 0 } } } else { if x < 0x1d4a7 { 1 } else { if x < 0x1d4a9 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_29(x: int) -> int { if x < 0x1d515 { if x < 0x1d4c4 { if x < 0x1d4bb { if x < 0x1d4ae { 0 } else { if x < 0x1d4ba { 1 } else { 0 } } } else { if x < 0x1d4bc { 1 } else { if x < 0x1d4bd { 0 } else { 1 } } } } else { if x < 0x1d507 { if x < 0x1d4c5 { 0 } else { if x < 0x1d506 { 1 } else { 0 } } } else { if x < 0x1d50b { 1 } else { if x < 0x1d50d { 0 } else { 1 } } } } } else { if x < 0x1d53f { if x < 0x1d51e { if x < 0x1d516 { 0 } else { if x < 0x1d51d { 1 } else { 0 } } } else { if x < 0x1d53a { 1 } else { if x < 0x1d53b { 0 } else { 1 } } } } else { if x < 0x1d546 { if x < 0x1d540 { 0 } else { if x < 0x1d545 { 1 } else { 0 } } } else { if x < 0x1d547 { 1 } else { if x < 0x1d54a { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_30(x: int) -> int { if x < 0x1ee20 { if x < 0x1d800 { if x < 0x1d6a8 { if x < 0x1d552 { 0 } else { if x < 0x1d6a6 { 1 } else { 0 } } } else { if x < 0x1d7cc { 1 } else { if x < 0x1d7ce { 0 } else { 1 } } } } else { if x < 0x1ee00 { if x < 0x1e030 { 0 } else { if x < 0x1e06e { 1 } else { 0 } } } else { if x < 0x1ee04 { 1 } else { if x < 0x1ee05 { 0 } else { 1 } } } } } else { if x < 0x1ee28 { if x < 0x1ee24 { if x < 0x1ee21 { 0 } else { if x < 0x1ee23 { 1 } else { 0 } } } else { if x < 0x1ee25 { 1 } else { if x < 0x1ee27 { 0 } else { 1 } } } } else { if x < 0x1ee34 { if x < 0x1ee29 { 0 } else { if x < 0x1ee33 { 1 } else { 0 } } } else { if x < 0x1ee38 { 1 } else { if x < 0x1ee39 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_31(x: int) -> int { if x < 0x1ee50 { if x < 0x1ee48 { if x < 0x1ee42 { if x < 0x1ee3b { 0 } else { if x < 0x1ee3c { 1 } else { 0 } } } else { if x < 0x1ee43 { 1 } else { if x < 0x1ee47 { 0 } else { 1 } } } } else { if x < 0x1ee4b { if x < 0x1ee49 { 0 } else { if x < 0x1ee4a { 1 } else { 0 } } } else { if x < 0x1ee4c { 1 } else { if x < 0x1ee4d { 0 } else { 1 } } } } } else { if x < 0x1ee58 { if x < 0x1ee54 { if x < 0x1ee51 { 0 } else { if x < 0x1ee53 { 1 } else { 0 } } } else { if x < 0x1ee55 { 1 } else { if x < 0x1ee57 { 0 } else { 1 } } } } else { if x < 0x1ee5b { if x < 0x1ee59 { 0 } else { if x < 0x1ee5a { 1 } else { 0 } } } else { if x < 0x1ee5c { 1 } else { if x < 0x1ee5d { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_32(x: int) -> int { if x < 0x1ee78 { if x < 0x1ee65 { if x < 0x1ee61 { if x < 0x1ee5f { 0 } else { if x < 0x1ee60 { 1 } else { 0 } } } else { if x < 0x1ee63 { 1 } else { if x < 0x1ee64 { 0 } else { 1 } } } } else { if x < 0x1ee6c { if x < 0x1ee67 { 0 } else { if x < 0x1ee6b { 1 } else { 0 } } } else { if x < 0x1ee73 { 1 } else { if x < 0x1ee74 { 0 } else { 1 } } } } } else { if x < 0x1ee8a { if x < 0x1ee7e { if x < 0x1ee79 { 0 } else { if x < 0x1ee7d { 1 } else { 0 } } } else { if x < 0x1ee7f { 1 } else { if x < 0x1ee80 { 0 } else { 1 } } } } else { if x < 0x1eea1 { if x < 0x1ee8b { 0 } else { if x < 0x1ee9c { 1 } else { 0 } } } else { if x < 0x1eea4 { 1 } else { if x < 0x1eea5 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_33(x: int) -> int { if x < 0x1f191 { if x < 0x1f12f { if x < 0x1f100 { if x < 0x1eeab { 0 } else { if x < 0x1eebc { 1 } else { 0 } } } else { if x < 0x1f10b { 1 } else { if x < 0x1f110 { 0 } else { 1 } } } } else { if x < 0x1f16a { if x < 0x1f130 { 0 } else { if x < 0x1f150 { 1 } else { 0 } } } else { if x < 0x1f16d { 1 } else { if x < 0x1f190 { 0 } else { 1 } } } } } else { if x < 0x1f249 { if x < 0x1f210 { if x < 0x1f200 { 0 } else { if x < 0x1f203 { 1 } else { 0 } } } else { if x < 0x1f23c { 1 } else { if x < 0x1f240 { 0 } else { 1 } } } } else { if x < 0x1fbf0 { if x < 0x1f250 { 0 } else { if x < 0x1f252 { 1 } else { 0 } } } else { if x < 0x1fbfa { 1 } else { if x < 0x2f800 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkd_34(x: int) -> int { 0 }
pub open spec fn qt_nfkd(x: int) -> int { if x < 0x2286 { if x < 0xddf { if x < 0x3f6 { if x < 0x180 { if x < 0xe6 { qt_nfkd_0(x) } else { qt_nfkd_1(x) } } else { if x < 0x342 { qt_nfkd_2(x) } else { qt_nfkd_3(x) } } } else { if x < 0x6c3 { if x < 0x478 { qt_nfkd_4(x) } else { qt_nfkd_5(x) } } else { if x < 0xa5f { qt_nfkd_6(x) } else { qt_nfkd_7(x) } } } } else { if x < 0x1f7e { if x < 0x1b0b { if x < 0xf7a { qt_nfkd_8(x) } else { qt_nfkd_9(x) } } else { if x < 0x1d79 { qt_nfkd_10(x) } else { qt_nfkd_11(x) } } } else { if x < 0x2104 { if x < 0x2030 { qt_nfkd_12(x) } else { qt_nfkd_13(x) } } else { if x < 0x2141 { qt_nfkd_14(x) } else { if x < 0x222e { qt_nfkd_15(x) } else { qt_nfkd_16(x) } } } } } } else { if x < 0xffc8 { if x < 0x30bb { if x < 0x3059 { if x < 0x2ea0 { qt_nfkd_17(x) } else { qt_nfkd_18(x) } } else { if x < 0x307b { qt_nfkd_19(x) } else { qt_nfkd_20(x) } } } else { if x < 0xa7f5 { if x < 0x30de { qt_nfkd_21(x) } else { qt_nfkd_22(x) } } else { if x < 0xfa6e { qt_nfkd_23(x) } else { if x < 0xfd90 { qt_nfkd_24(x) } else { qt_nfkd_25(x) } } } } } else { if x < 0x1d551 { if x < 0x115bc { if x < 0x1109d { qt_nfkd_26(x) } else { qt_nfkd_27(x) } } else { if x < 0x1d4ad { qt_nfkd_28(x) } else { qt_nfkd_29(x) } } } else { if x < 0x1ee5e { if x < 0x1ee3a { qt_nfkd_30(x) } else { qt_nfkd_31(x) } } else { if x < 0x1eeaa { qt_nfkd_32(x) } else { if x < 0x2fa1e { qt_nfkd_33(x) } else { qt_nfkd_34(x) } } } } } } }
// quick check for nfc: 0 Yes, 1 No, 2 Maybe (242 intervals)
pub open spec fn qt_nfc_0(x: int) -> int { if x < 0x31c { if x < 0x310 { if x < 0x306 { if x < 0x300 { 0 } else { if x < 0x305 { 2 } else { 0 } } } else { if x < 0x30d { 2 } else { if x < 0x30f { 0 } else { 2 } } } } else { if x < 0x313 { if x < 0x311 { 0 } else { if x < 0x312 { 2 } else { 0 } } } else { if x < 0x315 { 2 } else { if x < 0x31b { 0 } else { 2 } } } } } else { if x < 0x332 { if x < 0x32d { if x < 0x323 { 0 } else { if x < 0x329 { 2 } else { 0 } } } else { if x < 0x32f { 2 } else { if x < 0x330 { 0 } else { 2 } } } } else { if x < 0x340 { if x < 0x338 { 0 } else { if x < 0x339 { 2 } else { 0 } } } else { if x < 0x342 { 1 } else { if x < 0x343 { 2 } else { 1 } } } } } }
pub open spec fn qt_nfc_1(x: int) -> int { if x < 0x958 { if x < 0x387 { if x < 0x375 { if x < 0x346 { 2 } else { if x < 0x374 { 0 } else { 1 } } } else { if x < 0x37e { 0 } else { if x < 0x37f { 1 } else { 0 } } } } else { if x < 0x656 { if x < 0x388 { 1 } else { if x < 0x653 { 0 } else { 2 } } } else { if x < 0x93c { 0 } else { if x < 0x93d { 2 } else { 0 } } } } } else { if x < 0x9dc { if x < 0x9bf { if x < 0x960 { 1 } else { if x < 0x9be { 0 } else { 2 } } } else { if x < 0x9d7 { 0 } else { if x < 0x9d8 { 2 } else { 0 } } } } else { if x < 0x9e0 { if x < 0x9de { 1 } else { if x < 0x9df { 0 } else { 1 } } } else { if x < 0xa33 { 0 } else { if x < 0xa34 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_2(x: int) -> int { if x < 0xbbe { if x < 0xb3e { if x < 0xa5c { if x < 0xa37 { 1 } else { if x < 0xa59 { 0 } else { 1 } } } else { if x < 0xa5e { 0 } else { if x < 0xa5f { 1 } else { 0 } } } } else { if x < 0xb58 { if x < 0xb3f { 2 } else { if x < 0xb56 { 0 } else { 2 } } } else { if x < 0xb5c { 0 } else { if x < 0xb5e { 1 } else { 0 } } } } } else { if x < 0xcc2 { if x < 0xbd8 { if x < 0xbbf { 2 } else { if x < 0xbd7 { 0 } else { 2 } } } else { if x < 0xc56 { 0 } else { if x < 0xc57 { 2 } else { 0 } } } } else { if x < 0xcd7 { if x < 0xcc3 { 2 } else { if x < 0xcd5 { 0 } else { 2 } } } else { if x < 0xd3e { 0 } else { if x < 0xd3f { 2 } else { 0 } } } } } }
pub open spec fn qt_nfc_3(x: int) -> int { if x < 0xf52 { if x < 0xddf { if x < 0xdcb { if x < 0xd58 { 2 } else { if x < 0xdca { 0 } else { 2 } } } else { if x < 0xdcf { 0 } else { if x < 0xdd0 { 2 } else { 0 } } } } else { if x < 0xf44 { if x < 0xde0 { 2 } else { if x < 0xf43 { 0 } else { 1 } } } else { if x < 0xf4d { 0 } else { if x < 0xf4e { 1 } else { 0 } } } } } else { if x < 0xf69 { if x < 0xf58 { if x < 0xf53 { 1 } else { if x < 0xf57 { 0 } else { 1 } } } else { if x < 0xf5c { 0 } else { if x < 0xf5d { 1 } else { 0 } } } } else { if x < 0xf74 { if x < 0xf6a { 1 } else { if x < 0xf73 { 0 } else { 1 } } } else { if x < 0xf75 { 0 } else { if x < 0xf77 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_4(x: int) -> int { if x < 0xfac { if x < 0xf9d { if x < 0xf82 { if x < 0xf79 { 1 } else { if x < 0xf81 { 0 } else { 1 } } } else { if x < 0xf93 { 0 } else { if x < 0xf94 { 1 } else { 0 } } } } else { if x < 0xfa3 { if x < 0xf9e { 1 } else { if x < 0xfa2 { 0 } else { 1 } } } else { if x < 0xfa7 { 0 } else { if x < 0xfa8 { 1 } else { 0 } } } } } else { if x < 0x1161 { if x < 0xfba { if x < 0xfad { 1 } else { if x < 0xfb9 { 0 } else { 1 } } } else { if x < 0x102e { 0 } else { if x < 0x102f { 2 } else { 0 } } } } else { if x < 0x11c3 { if x < 0x1176 { 2 } else { if x < 0x11a8 { 0 } else { 2 } } } else { if x < 0x1b35 { 0 } else { if x < 0x1b36 { 2 } else { 0 } } } } } }
pub open spec fn qt_nfc_5(x: int) -> int { if x < 0x1f7d { if x < 0x1f77 { if x < 0x1f74 { if x < 0x1f72 { 1 } else { if x < 0x1f73 { 0 } else { 1 } } } else { if x < 0x1f75 { 0 } else { if x < 0x1f76 { 1 } else { 0 } } } } else { if x < 0x1f7a { if x < 0x1f78 { 1 } else { if x < 0x1f79 { 0 } else { 1 } } } else { if x < 0x1f7b { 0 } else { if x < 0x1f7c { 1 } else { 0 } } } } } else { if x < 0x1fc9 { if x < 0x1fbc { if x < 0x1f7e { 1 } else { if x < 0x1fbb { 0 } else { 1 } } } else { if x < 0x1fbe { 0 } else { if x < 0x1fbf { 1 } else { 0 } } } } else { if x < 0x1fcc { if x < 0x1fca { 1 } else { if x < 0x1fcb { 0 } else { 1 } } } else { if x < 0x1fd3 { 0 } else { if x < 0x1fd4 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_6(x: int) -> int { if x < 0x1ffd { if x < 0x1fee { if x < 0x1fe4 { if x < 0x1fdc { 1 } else { if x < 0x1fe3 { 0 } else { 1 } } } else { if x < 0x1feb { 0 } else { if x < 0x1fec { 1 } else { 0 } } } } else { if x < 0x1ffa { if x < 0x1ff0 { 1 } else { if x < 0x1ff9 { 0 } else { 1 } } } else { if x < 0x1ffb { 0 } else { if x < 0x1ffc { 1 } else { 0 } } } } } else { if x < 0x212a { if x < 0x2002 { if x < 0x1ffe { 1 } else { if x < 0x2000 { 0 } else { 1 } } } else { if x < 0x2126 { 0 } else { if x < 0x2127 { 1 } else { 0 } } } } else { if x < 0x232b { if x < 0x212c { 1 } else { if x < 0x2329 { 0 } else { 1 } } } else { if x < 0x2adc { 0 } else { if x < 0x2add { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_7(x: int) -> int { if x < 0xfa22 { if x < 0xfa12 { if x < 0xfa0e { if x < 0x309b { 2 } else { if x < 0xf900 { 0 } else { 1 } } } else { if x < 0xfa10 { 0 } else { if x < 0xfa11 { 1 } else { 0 } } } } else { if x < 0xfa1f { if x < 0xfa13 { 1 } else { if x < 0xfa15 { 0 } else { 1 } } } else { if x < 0xfa20 { 0 } else { if x < 0xfa21 { 1 } else { 0 } } } } } else { if x < 0xfa70 { if x < 0xfa27 { if x < 0xfa23 { 1 } else { if x < 0xfa25 { 0 } else { 1 } } } else { if x < 0xfa2a { 0 } else { if x < 0xfa6e { 1 } else { 0 } } } } else { if x < 0xfb1e { if x < 0xfada { 1 } else { if x < 0xfb1d { 0 } else { 1 } } } else { if x < 0xfb1f { 0 } else { if x < 0xfb20 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_8(x: int) -> int { if x < 0x110ba { if x < 0xfb40 { if x < 0xfb3d { if x < 0xfb37 { 1 } else { if x < 0xfb38 { 0 } else { 1 } } } else { if x < 0xfb3e { 0 } else { if x < 0xfb3f { 1 } else { 0 } } } } else { if x < 0xfb45 { if x < 0xfb42 { 1 } else { if x < 0xfb43 { 0 } else { 1 } } } else { if x < 0xfb46 { 0 } else { if x < 0xfb4f { 1 } else { 0 } } } } } else { if x < 0x11357 { if x < 0x11128 { if x < 0x110bb { 2 } else { if x < 0x11127 { 0 } else { 2 } } } else { if x < 0x1133e { 0 } else { if x < 0x1133f { 2 } else { 0 } } } } else { if x < 0x113b9 { if x < 0x11358 { 2 } else { if x < 0x113b8 { 0 } else { 2 } } } else { if x < 0x113bb { 0 } else { if x < 0x113bc { 2 } else { 0 } } } } } }
pub open spec fn qt_nfc_9(x: int) -> int { if x < 0x115af { if x < 0x114b0 { if x < 0x113c6 { if x < 0x113c3 { 2 } else { if x < 0x113c5 { 0 } else { 2 } } } else { if x < 0x113c7 { 0 } else { if x < 0x113ca { 2 } else { 0 } } } } else { if x < 0x114bb { if x < 0x114b1 { 2 } else { if x < 0x114ba { 0 } else { 2 } } } else { if x < 0x114bd { 0 } else { if x < 0x114be { 2 } else { 0 } } } } } else { if x < 0x16d67 { if x < 0x11931 { if x < 0x115b0 { 2 } else { if x < 0x11930 { 0 } else { 2 } } } else { if x < 0x1611e { 0 } else { if x < 0x1612a { 2 } else { 0 } } } } else { if x < 0x1d165 { if x < 0x16d69 { 2 } else { if x < 0x1d15e { 0 } else { 1 } } } else { if x < 0x1d1bb { 0 } else { if x < 0x1d1c1 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfc_10(x: int) -> int { if x < 0x2fa1e { 1 } else { 0 } }
pub open spec fn qt_nfc(x: int) -> int { if x < 0x1f71 { if x < 0xa36 { if x < 0x345 { qt_nfc_0(x) } else { qt_nfc_1(x) } } else { if x < 0xd57 { qt_nfc_2(x) } else { if x < 0xf78 { qt_nfc_3(x) } else { qt_nfc_4(x) } } } } else { if x < 0xfb2a { if x < 0x1fdb { qt_nfc_5(x) } else { if x < 0x3099 { qt_nfc_6(x) } else { qt_nfc_7(x) } } } else { if x < 0x113c2 { qt_nfc_8(x) } else { if x < 0x2f800 { qt_nfc_9(x) } else { qt_nfc_10(x) } } } } }
// quick check for nfkc: 0 Yes, 1 No, 2 Maybe (607 intervals)
pub open spec fn qt_nfkc_0(x: int) -> int { if x < 0xbb { if x < 0xab { if x < 0xa8 { if x < 0xa0 { 0 } else { if x < 0xa1 { 1 } else { 0 } } } else { if x < 0xa9 { 1 } else { if x < 0xaa { 0 } else { 1 } } } } else { if x < 0xb2 { if x < 0xaf { 0 } else { if x < 0xb0 { 1 } else { 0 } } } else { if x < 0xb6 { 1 } else { if x < 0xb8 { 0 } else { 1 } } } } } else { if x < 0x141 { if x < 0x132 { if x < 0xbc { 0 } else { if x < 0xbf { 1 } else { 0 } } } else { if x < 0x134 { 1 } else { if x < 0x13f { 0 } else { 1 } } } } else { if x < 0x17f { if x < 0x149 { 0 } else { if x < 0x14a { 1 } else { 0 } } } else { if x < 0x180 { 1 } else { if x < 0x1c4 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_1(x: int) -> int { if x < 0x30d { if x < 0x2de { if x < 0x2b0 { if x < 0x1f1 { 0 } else { if x < 0x1f4 { 1 } else { 0 } } } else { if x < 0x2b9 { 1 } else { if x < 0x2d8 { 0 } else { 1 } } } } else { if x < 0x300 { if x < 0x2e0 { 0 } else { if x < 0x2e5 { 1 } else { 0 } } } else { if x < 0x305 { 2 } else { if x < 0x306 { 0 } else { 2 } } } } } else { if x < 0x315 { if x < 0x311 { if x < 0x30f { 0 } else { if x < 0x310 { 2 } else { 0 } } } else { if x < 0x312 { 2 } else { if x < 0x313 { 0 } else { 2 } } } } else { if x < 0x323 { if x < 0x31b { 0 } else { if x < 0x31c { 2 } else { 0 } } } else { if x < 0x329 { 2 } else { if x < 0x32d { 0 } else { 2 } } } } } }
pub open spec fn qt_nfkc_2(x: int) -> int { if x < 0x37a { if x < 0x342 { if x < 0x338 { if x < 0x330 { 0 } else { if x < 0x332 { 2 } else { 0 } } } else { if x < 0x339 { 2 } else { if x < 0x340 { 0 } else { 1 } } } } else { if x < 0x346 { if x < 0x343 { 2 } else { if x < 0x345 { 1 } else { 2 } } } else { if x < 0x374 { 0 } else { if x < 0x375 { 1 } else { 0 } } } } } else { if x < 0x387 { if x < 0x37f { if x < 0x37b { 1 } else { if x < 0x37e { 0 } else { 1 } } } else { if x < 0x384 { 0 } else { if x < 0x386 { 1 } else { 0 } } } } else { if x < 0x3d7 { if x < 0x388 { 1 } else { if x < 0x3d0 { 0 } else { 1 } } } else { if x < 0x3f0 { 0 } else { if x < 0x3f3 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_3(x: int) -> int { if x < 0x958 { if x < 0x653 { if x < 0x3fa { if x < 0x3f6 { 1 } else { if x < 0x3f9 { 0 } else { 1 } } } else { if x < 0x587 { 0 } else { if x < 0x588 { 1 } else { 0 } } } } else { if x < 0x679 { if x < 0x656 { 2 } else { if x < 0x675 { 0 } else { 1 } } } else { if x < 0x93c { 0 } else { if x < 0x93d { 2 } else { 0 } } } } } else { if x < 0x9dc { if x < 0x9bf { if x < 0x960 { 1 } else { if x < 0x9be { 0 } else { 2 } } } else { if x < 0x9d7 { 0 } else { if x < 0x9d8 { 2 } else { 0 } } } } else { if x < 0x9e0 { if x < 0x9de { 1 } else { if x < 0x9df { 0 } else { 1 } } } else { if x < 0xa33 { 0 } else { if x < 0xa34 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_4(x: int) -> int { if x < 0xbbe { if x < 0xb3e { if x < 0xa5c { if x < 0xa37 { 1 } else { if x < 0xa59 { 0 } else { 1 } } } else { if x < 0xa5e { 0 } else { if x < 0xa5f { 1 } else { 0 } } } } else { if x < 0xb58 { if x < 0xb3f { 2 } else { if x < 0xb56 { 0 } else { 2 } } } else { if x < 0xb5c { 0 } else { if x < 0xb5e { 1 } else { 0 } } } } } else { if x < 0xcc2 { if x < 0xbd8 { if x < 0xbbf { 2 } else { if x < 0xbd7 { 0 } else { 2 } } } else { if x < 0xc56 { 0 } else { if x < 0xc57 { 2 } else { 0 } } } } else { if x < 0xcd7 { if x < 0xcc3 { 2 } else { if x < 0xcd5 { 0 } else { 2 } } } else { if x < 0xd3e { 0 } else { if x < 0xd3f { 2 } else { 0 } } } } } }
pub open spec fn qt_nfkc_5(x: int) -> int { if x < 0xedc { if x < 0xddf { if x < 0xdcb { if x < 0xd58 { 2 } else { if x < 0xdca { 0 } else { 2 } } } else { if x < 0xdcf { 0 } else { if x < 0xdd0 { 2 } else { 0 } } } } else { if x < 0xe34 { if x < 0xde0 { 2 } else { if x < 0xe33 { 0 } else { 1 } } } else { if x < 0xeb3 { 0 } else { if x < 0xeb4 { 1 } else { 0 } } } } } else { if x < 0xf4d { if x < 0xf0d { if x < 0xede { 1 } else { if x < 0xf0c { 0 } else { 1 } } } else { if x < 0xf43 { 0 } else { if x < 0xf44 { 1 } else { 0 } } } } else { if x < 0xf53 { if x < 0xf4e { 1 } else { if x < 0xf52 { 0 } else { 1 } } } else { if x < 0xf57 { 0 } else { if x < 0xf58 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_6(x: int) -> int { if x < 0xf9d { if x < 0xf75 { if x < 0xf6a { if x < 0xf5d { 1 } else { if x < 0xf69 { 0 } else { 1 } } } else { if x < 0xf73 { 0 } else { if x < 0xf74 { 1 } else { 0 } } } } else { if x < 0xf82 { if x < 0xf7a { 1 } else { if x < 0xf81 { 0 } else { 1 } } } else { if x < 0xf93 { 0 } else { if x < 0xf94 { 1 } else { 0 } } } } } else { if x < 0xfac { if x < 0xfa3 { if x < 0xf9e { 1 } else { if x < 0xfa2 { 0 } else { 1 } } } else { if x < 0xfa7 { 0 } else { if x < 0xfa8 { 1 } else { 0 } } } } else { if x < 0xfba { if x < 0xfad { 1 } else { if x < 0xfb9 { 0 } else { 1 } } } else { if x < 0x102e { 0 } else { if x < 0x102f { 2 } else { 0 } } } } } }
pub open spec fn qt_nfkc_7(x: int) -> int { if x < 0x1d3c { if x < 0x1b35 { if x < 0x1176 { if x < 0x10fd { 1 } else { if x < 0x1161 { 0 } else { 2 } } } else { if x < 0x11a8 { 0 } else { if x < 0x11c3 { 2 } else { 0 } } } } else { if x < 0x1d2f { if x < 0x1b36 { 2 } else { if x < 0x1d2c { 0 } else { 1 } } } else { if x < 0x1d30 { 0 } else { if x < 0x1d3b { 1 } else { 0 } } } } } else { if x < 0x1d9b { if x < 0x1d6b { if x < 0x1d4e { 1 } else { if x < 0x1d4f { 0 } else { 1 } } } else { if x < 0x1d78 { 0 } else { if x < 0x1d79 { 1 } else { 0 } } } } else { if x < 0x1e9c { if x < 0x1dc0 { 1 } else { if x < 0x1e9a { 0 } else { 1 } } } else { if x < 0x1f71 { 0 } else { if x < 0x1f72 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_8(x: int) -> int { if x < 0x1fbb { if x < 0x1f79 { if x < 0x1f76 { if x < 0x1f74 { 1 } else { if x < 0x1f75 { 0 } else { 1 } } } else { if x < 0x1f77 { 0 } else { if x < 0x1f78 { 1 } else { 0 } } } } else { if x < 0x1f7c { if x < 0x1f7a { 1 } else { if x < 0x1f7b { 0 } else { 1 } } } else { if x < 0x1f7d { 0 } else { if x < 0x1f7e { 1 } else { 0 } } } } } else { if x < 0x1fcb { if x < 0x1fc2 { if x < 0x1fbc { 1 } else { if x < 0x1fbd { 0 } else { 1 } } } else { if x < 0x1fc9 { 0 } else { if x < 0x1fca { 1 } else { 0 } } } } else { if x < 0x1fd0 { if x < 0x1fcc { 1 } else { if x < 0x1fcd { 0 } else { 1 } } } else { if x < 0x1fd3 { 0 } else { if x < 0x1fd4 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_9(x: int) -> int { if x < 0x1ffb { if x < 0x1feb { if x < 0x1fe0 { if x < 0x1fdc { 1 } else { if x < 0x1fdd { 0 } else { 1 } } } else { if x < 0x1fe3 { 0 } else { if x < 0x1fe4 { 1 } else { 0 } } } } else { if x < 0x1ff0 { if x < 0x1fec { 1 } else { if x < 0x1fed { 0 } else { 1 } } } else { if x < 0x1ff9 { 0 } else { if x < 0x1ffa { 1 } else { 0 } } } } } else { if x < 0x2011 { if x < 0x1fff { if x < 0x1ffc { 1 } else { if x < 0x1ffd { 0 } else { 1 } } } else { if x < 0x2000 { 0 } else { if x < 0x200b { 1 } else { 0 } } } } else { if x < 0x2018 { if x < 0x2012 { 1 } else { if x < 0x2017 { 0 } else { 1 } } } else { if x < 0x2024 { 0 } else { if x < 0x2027 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_10(x: int) -> int { if x < 0x2057 { if x < 0x203c { if x < 0x2035 { if x < 0x2030 { 1 } else { if x < 0x2033 { 0 } else { 1 } } } else { if x < 0x2036 { 0 } else { if x < 0x2038 { 1 } else { 0 } } } } else { if x < 0x203f { if x < 0x203d { 1 } else { if x < 0x203e { 0 } else { 1 } } } else { if x < 0x2047 { 0 } else { if x < 0x204a { 1 } else { 0 } } } } } else { if x < 0x2074 { if x < 0x2060 { if x < 0x2058 { 1 } else { if x < 0x205f { 0 } else { 1 } } } else { if x < 0x2070 { 0 } else { if x < 0x2072 { 1 } else { 0 } } } } else { if x < 0x209d { if x < 0x208f { 1 } else { if x < 0x2090 { 0 } else { 1 } } } else { if x < 0x20a8 { 0 } else { if x < 0x20a9 { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_11(x: int) -> int { if x < 0x2124 { if x < 0x2115 { if x < 0x2108 { if x < 0x2104 { 1 } else { if x < 0x2105 { 0 } else { 1 } } } else { if x < 0x2109 { 0 } else { if x < 0x2114 { 1 } else { 0 } } } } else { if x < 0x211e { if x < 0x2117 { 1 } else { if x < 0x2119 { 0 } else { 1 } } } else { if x < 0x2120 { 0 } else { if x < 0x2123 { 1 } else { 0 } } } } } else { if x < 0x212a { if x < 0x2127 { if x < 0x2125 { 1 } else { if x < 0x2126 { 0 } else { 1 } } } else { if x < 0x2128 { 0 } else { if x < 0x2129 { 1 } else { 0 } } } } else { if x < 0x2132 { if x < 0x212e { 1 } else { if x < 0x212f { 0 } else { 1 } } } else { if x < 0x2133 { 0 } else { if x < 0x213a { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_12(x: int) -> int { if x < 0x2329 { if x < 0x2189 { if x < 0x214a { if x < 0x2141 { 1 } else { if x < 0x2145 { 0 } else { 1 } } } else { if x < 0x2150 { 0 } else { if x < 0x2180 { 1 } else { 0 } } } } else { if x < 0x222e { if x < 0x218a { 1 } else { if x < 0x222c { 0 } else { 1 } } } else { if x < 0x222f { 0 } else { if x < 0x2231 { 1 } else { 0 } } } } } else { if x < 0x2a74 { if x < 0x24eb { if x < 0x232b { 1 } else { if x < 0x2460 { 0 } else { 1 } } } else { if x < 0x2a0c { 0 } else { if x < 0x2a0d { 1 } else { 0 } } } } else { if x < 0x2add { if x < 0x2a77 { 1 } else { if x < 0x2adc { 0 } else { 1 } } } else { if x < 0x2c7c { 0 } else { if x < 0x2c7e { 1 } else { 0 } } } } } }
pub open spec fn qt_nfkc_13(x: int) -> int { if x < 0x3038 { if x < 0x2f00 { if x < 0x2ea0 { if x < 0x2d70 { 1 } else { if x < 0x2e9f { 0 } else { 1 } } } else { if x < 0x2ef3 { 0 } else { if x < 0x2ef4 { 1 } else { 0 } } } } else { if x < 0x3001 { if x < 0x2fd6 { 1 } else { if x < 0x3000 { 0 } else { 1 } } } else { if x < 0x3036 { 0 } else { if x < 0x3037 { 1 } else { 0 } } } } } else { if x < 0x30a0 { if x < 0x309b { if x < 0x303b { 1 } else { if x < 0x3099 { 0 } else { 2 } } } else { if x < 0x309d { 1 } else { if x < 0x309f { 0 } else { 1 } } } } else { if x < 0x3131 { if x < 0x30ff { 0 } else { if x < 0x3100 { 1 } else { 0 } } } else { if x < 0x318f { 1 } else { if x < 0x3192 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_14(x: int) -> int { if x < 0xa771 { if x < 0x327f { if x < 0x3220 { if x < 0x3200 { 0 } else { if x < 0x321f { 1 } else { 0 } } } else { if x < 0x3248 { 1 } else { if x < 0x3250 { 0 } else { 1 } } } } else { if x < 0xa69c { if x < 0x3280 { 0 } else { if x < 0x3400 { 1 } else { 0 } } } else { if x < 0xa69e { 1 } else { if x < 0xa770 { 0 } else { 1 } } } } } else { if x < 0xab60 { if x < 0xa7f8 { if x < 0xa7f2 { 0 } else { if x < 0xa7f5 { 1 } else { 0 } } } else { if x < 0xa7fa { 1 } else { if x < 0xab5c { 0 } else { 1 } } } } else { if x < 0xf900 { if x < 0xab69 { 0 } else { if x < 0xab6a { 1 } else { 0 } } } else { if x < 0xfa0e { 1 } else { if x < 0xfa10 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_15(x: int) -> int { if x < 0xfa6e { if x < 0xfa21 { if x < 0xfa15 { if x < 0xfa12 { 0 } else { if x < 0xfa13 { 1 } else { 0 } } } else { if x < 0xfa1f { 1 } else { if x < 0xfa20 { 0 } else { 1 } } } } else { if x < 0xfa25 { if x < 0xfa22 { 0 } else { if x < 0xfa23 { 1 } else { 0 } } } else { if x < 0xfa27 { 1 } else { if x < 0xfa2a { 0 } else { 1 } } } } } else { if x < 0xfb18 { if x < 0xfb00 { if x < 0xfa70 { 0 } else { if x < 0xfada { 1 } else { 0 } } } else { if x < 0xfb07 { 1 } else { if x < 0xfb13 { 0 } else { 1 } } } } else { if x < 0xfb1f { if x < 0xfb1d { 0 } else { if x < 0xfb1e { 1 } else { 0 } } } else { if x < 0xfb37 { 1 } else { if x < 0xfb38 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_16(x: int) -> int { if x < 0xfd90 { if x < 0xfb45 { if x < 0xfb40 { if x < 0xfb3e { 0 } else { if x < 0xfb3f { 1 } else { 0 } } } else { if x < 0xfb42 { 1 } else { if x < 0xfb43 { 0 } else { 1 } } } } else { if x < 0xfbd3 { if x < 0xfb46 { 0 } else { if x < 0xfbb2 { 1 } else { 0 } } } else { if x < 0xfd3e { 1 } else { if x < 0xfd50 { 0 } else { 1 } } } } } else { if x < 0xfe1a { if x < 0xfdf0 { if x < 0xfd92 { 0 } else { if x < 0xfdc8 { 1 } else { 0 } } } else { if x < 0xfdfd { 1 } else { if x < 0xfe10 { 0 } else { 1 } } } } else { if x < 0xfe47 { if x < 0xfe30 { 0 } else { if x < 0xfe45 { 1 } else { 0 } } } else { if x < 0xfe53 { 1 } else { if x < 0xfe54 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_17(x: int) -> int { if x < 0xffc8 { if x < 0xfe75 { if x < 0xfe70 { if x < 0xfe68 { 0 } else { if x < 0xfe6c { 1 } else { 0 } } } else { if x < 0xfe73 { 1 } else { if x < 0xfe74 { 0 } else { 1 } } } } else { if x < 0xff01 { if x < 0xfe76 { 0 } else { if x < 0xfefd { 1 } else { 0 } } } else { if x < 0xffbf { 1 } else { if x < 0xffc2 { 0 } else { 1 } } } } } else { if x < 0xffdd { if x < 0xffd2 { if x < 0xffca { 0 } else { if x < 0xffd0 { 1 } else { 0 } } } else { if x < 0xffd8 { 1 } else { if x < 0xffda { 0 } else { 1 } } } } else { if x < 0xffe8 { if x < 0xffe0 { 0 } else { if x < 0xffe7 { 1 } else { 0 } } } else { if x < 0xffef { 1 } else { if x < 0x10781 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_18(x: int) -> int { if x < 0x11358 { if x < 0x110bb { if x < 0x107b2 { if x < 0x10787 { 0 } else { if x < 0x107b1 { 1 } else { 0 } } } else { if x < 0x107bb { 1 } else { if x < 0x110ba { 0 } else { 2 } } } } else { if x < 0x1133e { if x < 0x11127 { 0 } else { if x < 0x11128 { 2 } else { 0 } } } else { if x < 0x1133f { 2 } else { if x < 0x11357 { 0 } else { 2 } } } } } else { if x < 0x113c3 { if x < 0x113bb { if x < 0x113b8 { 0 } else { if x < 0x113b9 { 2 } else { 0 } } } else { if x < 0x113bc { 2 } else { if x < 0x113c2 { 0 } else { 2 } } } } else { if x < 0x113c7 { if x < 0x113c5 { 0 } else { if x < 0x113c6 { 2 } else { 0 } } } else { if x < 0x113ca { 2 } else { if x < 0x114b0 { 0 } else { 2 } } } } } }
pub open spec fn qt_nfkc_19(x: int) -> int { if x < 0x16d69 { if x < 0x115b0 { if x < 0x114bd { if x < 0x114ba { 0 } else { if x < 0x114bb { 2 } else { 0 } } } else { if x < 0x114be { 2 } else { if x < 0x115af { 0 } else { 2 } } } } else { if x < 0x1611e { if x < 0x11930 { 0 } else { if x < 0x11931 { 2 } else { 0 } } } else { if x < 0x1612a { 2 } else { if x < 0x16d67 { 0 } else { 2 } } } } } else { if x < 0x1d1c1 { if x < 0x1d15e { if x < 0x1ccd6 { 0 } else { if x < 0x1ccfa { 1 } else { 0 } } } else { if x < 0x1d165 { 1 } else { if x < 0x1d1bb { 0 } else { 1 } } } } else { if x < 0x1d456 { if x < 0x1d400 { 0 } else { if x < 0x1d455 { 1 } else { 0 } } } else { if x < 0x1d49d { 1 } else { if x < 0x1d49e { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_20(x: int) -> int { if x < 0x1d4c4 { if x < 0x1d4ad { if x < 0x1d4a5 { if x < 0x1d4a2 { 0 } else { if x < 0x1d4a3 { 1 } else { 0 } } } else { if x < 0x1d4a7 { 1 } else { if x < 0x1d4a9 { 0 } else { 1 } } } } else { if x < 0x1d4bb { if x < 0x1d4ae { 0 } else { if x < 0x1d4ba { 1 } else { 0 } } } else { if x < 0x1d4bc { 1 } else { if x < 0x1d4bd { 0 } else { 1 } } } } } else { if x < 0x1d515 { if x < 0x1d507 { if x < 0x1d4c5 { 0 } else { if x < 0x1d506 { 1 } else { 0 } } } else { if x < 0x1d50b { 1 } else { if x < 0x1d50d { 0 } else { 1 } } } } else { if x < 0x1d51e { if x < 0x1d516 { 0 } else { if x < 0x1d51d { 1 } else { 0 } } } else { if x < 0x1d53a { 1 } else { if x < 0x1d53b { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_21(x: int) -> int { if x < 0x1d800 { if x < 0x1d551 { if x < 0x1d546 { if x < 0x1d540 { 0 } else { if x < 0x1d545 { 1 } else { 0 } } } else { if x < 0x1d547 { 1 } else { if x < 0x1d54a { 0 } else { 1 } } } } else { if x < 0x1d6a8 { if x < 0x1d552 { 0 } else { if x < 0x1d6a6 { 1 } else { 0 } } } else { if x < 0x1d7cc { 1 } else { if x < 0x1d7ce { 0 } else { 1 } } } } } else { if x < 0x1ee20 { if x < 0x1ee00 { if x < 0x1e030 { 0 } else { if x < 0x1e06e { 1 } else { 0 } } } else { if x < 0x1ee04 { 1 } else { if x < 0x1ee05 { 0 } else { 1 } } } } else { if x < 0x1ee24 { if x < 0x1ee21 { 0 } else { if x < 0x1ee23 { 1 } else { 0 } } } else { if x < 0x1ee25 { 1 } else { if x < 0x1ee27 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_22(x: int) -> int { if x < 0x1ee48 { if x < 0x1ee3a { if x < 0x1ee34 { if x < 0x1ee29 { 0 } else { if x < 0x1ee33 { 1 } else { 0 } } } else { if x < 0x1ee38 { 1 } else { if x < 0x1ee39 { 0 } else { 1 } } } } else { if x < 0x1ee42 { if x < 0x1ee3b { 0 } else { if x < 0x1ee3c { 1 } else { 0 } } } else { if x < 0x1ee43 { 1 } else { if x < 0x1ee47 { 0 } else { 1 } } } } } else { if x < 0x1ee50 { if x < 0x1ee4b { if x < 0x1ee49 { 0 } else { if x < 0x1ee4a { 1 } else { 0 } } } else { if x < 0x1ee4c { 1 } else { if x < 0x1ee4d { 0 } else { 1 } } } } else { if x < 0x1ee54 { if x < 0x1ee51 { 0 } else { if x < 0x1ee53 { 1 } else { 0 } } } else { if x < 0x1ee55 { 1 } else { if x < 0x1ee57 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_23(x: int) -> int { if x < 0x1ee65 { if x < 0x1ee5e { if x < 0x1ee5b { if x < 0x1ee59 { 0 } else { if x < 0x1ee5a { 1 } else { 0 } } } else { if x < 0x1ee5c { 1 } else { if x < 0x1ee5d { 0 } else { 1 } } } } else { if x < 0x1ee61 { if x < 0x1ee5f { 0 } else { if x < 0x1ee60 { 1 } else { 0 } } } else { if x < 0x1ee63 { 1 } else { if x < 0x1ee64 { 0 } else { 1 } } } } } else { if x < 0x1ee78 { if x < 0x1ee6c { if x < 0x1ee67 { 0 } else { if x < 0x1ee6b { 1 } else { 0 } } } else { if x < 0x1ee73 { 1 } else { if x < 0x1ee74 { 0 } else { 1 } } } } else { if x < 0x1ee7e { if x < 0x1ee79 { 0 } else { if x < 0x1ee7d { 1 } else { 0 } } } else { if x < 0x1ee7f { 1 } else { if x < 0x1ee80 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_24(x: int) -> int { if x < 0x1f12f { if x < 0x1eeaa { if x < 0x1eea1 { if x < 0x1ee8b { 0 } else { if x < 0x1ee9c { 1 } else { 0 } } } else { if x < 0x1eea4 { 1 } else { if x < 0x1eea5 { 0 } else { 1 } } } } else { if x < 0x1f100 { if x < 0x1eeab { 0 } else { if x < 0x1eebc { 1 } else { 0 } } } else { if x < 0x1f10b { 1 } else { if x < 0x1f110 { 0 } else { 1 } } } } } else { if x < 0x1f191 { if x < 0x1f16a { if x < 0x1f130 { 0 } else { if x < 0x1f150 { 1 } else { 0 } } } else { if x < 0x1f16d { 1 } else { if x < 0x1f190 { 0 } else { 1 } } } } else { if x < 0x1f210 { if x < 0x1f200 { 0 } else { if x < 0x1f203 { 1 } else { 0 } } } else { if x < 0x1f23c { 1 } else { if x < 0x1f240 { 0 } else { 1 } } } } } }
pub open spec fn qt_nfkc_25(x: int) -> int { if x < 0x1fbf0 { if x < 0x1f250 { 0 } else { if x < 0x1f252 { 1 } else { 0 } } } else { if x < 0x2f800 { if x < 0x1fbfa { 1 } else { 0 } } else { if x < 0x2fa1e { 1 } else { 0 } } } }
pub open spec fn qt_nfkc(x: int) -> int { if x < 0x2d6f { if x < 0xf5c { if x < 0x3f4 { if x < 0x1cd { qt_nfkc_0(x) } else { if x < 0x32f { qt_nfkc_1(x) } else { qt_nfkc_2(x) } } } else { if x < 0xa36 { qt_nfkc_3(x) } else { if x < 0xd57 { qt_nfkc_4(x) } else { qt_nfkc_5(x) } } } } else { if x < 0x1fdb { if x < 0x10fc { qt_nfkc_6(x) } else { if x < 0x1f73 { qt_nfkc_7(x) } else { qt_nfkc_8(x) } } } else { if x < 0x2100 { if x < 0x202f { qt_nfkc_9(x) } else { qt_nfkc_10(x) } } else { if x < 0x213b { qt_nfkc_11(x) } else { qt_nfkc_12(x) } } } } } else { if x < 0x114b1 { if x < 0xfb3d { if x < 0x31a0 { qt_nfkc_13(x) } else { if x < 0xfa11 { qt_nfkc_14(x) } else { qt_nfkc_15(x) } } } else { if x < 0xfe67 { qt_nfkc_16(x) } else { if x < 0x10786 { qt_nfkc_17(x) } else { qt_nfkc_18(x) } } } } else { if x < 0x1ee28 { if x < 0x1d4a0 { qt_nfkc_19(x) } else { if x < 0x1d53f { qt_nfkc_20(x) } else { qt_nfkc_21(x) } } } else { if x < 0x1ee8a { if x < 0x1ee58 { qt_nfkc_22(x) } else { qt_nfkc_23(x) } } else { if x < 0x1f249 { qt_nfkc_24(x) } else { qt_nfkc_25(x) } } } } } }
// assigned and not private use (1458 intervals)
pub open spec fn asg_tree_0(x: int) -> int { if x < 0x531 { if x < 0x38c { if x < 0x380 { if x < 0x378 { 1 } else { if x < 0x37a { 0 } else { 1 } } } else { if x < 0x384 { 0 } else { if x < 0x38b { 1 } else { 0 } } } } else { if x < 0x3a2 { if x < 0x38d { 1 } else { if x < 0x38e { 0 } else { 1 } } } else { if x < 0x3a3 { 0 } else { if x < 0x530 { 1 } else { 0 } } } } } else { if x < 0x591 { if x < 0x58b { if x < 0x557 { 1 } else { if x < 0x559 { 0 } else { 1 } } } else { if x < 0x58d { 0 } else { if x < 0x590 { 1 } else { 0 } } } } else { if x < 0x5eb { if x < 0x5c8 { 1 } else { if x < 0x5d0 { 0 } else { 1 } } } else { if x < 0x5ef { 0 } else { if x < 0x5f5 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_1(x: int) -> int { if x < 0x840 { if x < 0x7c0 { if x < 0x74b { if x < 0x70e { 1 } else { if x < 0x70f { 0 } else { 1 } } } else { if x < 0x74d { 0 } else { if x < 0x7b2 { 1 } else { 0 } } } } else { if x < 0x82e { if x < 0x7fb { 1 } else { if x < 0x7fd { 0 } else { 1 } } } else { if x < 0x830 { 0 } else { if x < 0x83f { 1 } else { 0 } } } } } else { if x < 0x870 { if x < 0x85f { if x < 0x85c { 1 } else { if x < 0x85e { 0 } else { 1 } } } else { if x < 0x860 { 0 } else { if x < 0x86b { 1 } else { 0 } } } } else { if x < 0x892 { if x < 0x88f { 1 } else { if x < 0x890 { 0 } else { 1 } } } else { if x < 0x897 { 0 } else { if x < 0x984 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_2(x: int) -> int { if x < 0x9bc { if x < 0x9aa { if x < 0x991 { if x < 0x98d { 1 } else { if x < 0x98f { 0 } else { 1 } } } else { if x < 0x993 { 0 } else { if x < 0x9a9 { 1 } else { 0 } } } } else { if x < 0x9b3 { if x < 0x9b1 { 1 } else { if x < 0x9b2 { 0 } else { 1 } } } else { if x < 0x9b6 { 0 } else { if x < 0x9ba { 1 } else { 0 } } } } } else { if x < 0x9d7 { if x < 0x9c9 { if x < 0x9c5 { 1 } else { if x < 0x9c7 { 0 } else { 1 } } } else { if x < 0x9cb { 0 } else { if x < 0x9cf { 1 } else { 0 } } } } else { if x < 0x9de { if x < 0x9d8 { 1 } else { if x < 0x9dc { 0 } else { 1 } } } else { if x < 0x9df { 0 } else { if x < 0x9e4 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_3(x: int) -> int { if x < 0xa32 { if x < 0xa0f { if x < 0xa04 { if x < 0x9ff { 1 } else { if x < 0xa01 { 0 } else { 1 } } } else { if x < 0xa05 { 0 } else { if x < 0xa0b { 1 } else { 0 } } } } else { if x < 0xa29 { if x < 0xa11 { 1 } else { if x < 0xa13 { 0 } else { 1 } } } else { if x < 0xa2a { 0 } else { if x < 0xa31 { 1 } else { 0 } } } } } else { if x < 0xa3c { if x < 0xa37 { if x < 0xa34 { 1 } else { if x < 0xa35 { 0 } else { 1 } } } else { if x < 0xa38 { 0 } else { if x < 0xa3a { 1 } else { 0 } } } } else { if x < 0xa43 { if x < 0xa3d { 1 } else { if x < 0xa3e { 0 } else { 1 } } } else { if x < 0xa47 { 0 } else { if x < 0xa49 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_4(x: int) -> int { if x < 0xa85 { if x < 0xa5e { if x < 0xa52 { if x < 0xa4e { 1 } else { if x < 0xa51 { 0 } else { 1 } } } else { if x < 0xa59 { 0 } else { if x < 0xa5d { 1 } else { 0 } } } } else { if x < 0xa77 { if x < 0xa5f { 1 } else { if x < 0xa66 { 0 } else { 1 } } } else { if x < 0xa81 { 0 } else { if x < 0xa84 { 1 } else { 0 } } } } } else { if x < 0xaaa { if x < 0xa92 { if x < 0xa8e { 1 } else { if x < 0xa8f { 0 } else { 1 } } } else { if x < 0xa93 { 0 } else { if x < 0xaa9 { 1 } else { 0 } } } } else { if x < 0xab4 { if x < 0xab1 { 1 } else { if x < 0xab2 { 0 } else { 1 } } } else { if x < 0xab5 { 0 } else { if x < 0xaba { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_5(x: int) -> int { if x < 0xaf9 { if x < 0xad0 { if x < 0xaca { if x < 0xac6 { 1 } else { if x < 0xac7 { 0 } else { 1 } } } else { if x < 0xacb { 0 } else { if x < 0xace { 1 } else { 0 } } } } else { if x < 0xae4 { if x < 0xad1 { 1 } else { if x < 0xae0 { 0 } else { 1 } } } else { if x < 0xae6 { 0 } else { if x < 0xaf2 { 1 } else { 0 } } } } } else { if x < 0xb0f { if x < 0xb04 { if x < 0xb00 { 1 } else { if x < 0xb01 { 0 } else { 1 } } } else { if x < 0xb05 { 0 } else { if x < 0xb0d { 1 } else { 0 } } } } else { if x < 0xb29 { if x < 0xb11 { 1 } else { if x < 0xb13 { 0 } else { 1 } } } else { if x < 0xb2a { 0 } else { if x < 0xb31 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_6(x: int) -> int { if x < 0xb5c { if x < 0xb47 { if x < 0xb3a { if x < 0xb34 { 1 } else { if x < 0xb35 { 0 } else { 1 } } } else { if x < 0xb3c { 0 } else { if x < 0xb45 { 1 } else { 0 } } } } else { if x < 0xb4e { if x < 0xb49 { 1 } else { if x < 0xb4b { 0 } else { 1 } } } else { if x < 0xb55 { 0 } else { if x < 0xb58 { 1 } else { 0 } } } } } else { if x < 0xb82 { if x < 0xb64 { if x < 0xb5e { 1 } else { if x < 0xb5f { 0 } else { 1 } } } else { if x < 0xb66 { 0 } else { if x < 0xb78 { 1 } else { 0 } } } } else { if x < 0xb8b { if x < 0xb84 { 1 } else { if x < 0xb85 { 0 } else { 1 } } } else { if x < 0xb8e { 0 } else { if x < 0xb91 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_7(x: int) -> int { if x < 0xbae { if x < 0xb9e { if x < 0xb9b { if x < 0xb96 { 1 } else { if x < 0xb99 { 0 } else { 1 } } } else { if x < 0xb9c { 0 } else { if x < 0xb9d { 1 } else { 0 } } } } else { if x < 0xba5 { if x < 0xba0 { 1 } else { if x < 0xba3 { 0 } else { 1 } } } else { if x < 0xba8 { 0 } else { if x < 0xbab { 1 } else { 0 } } } } } else { if x < 0xbca { if x < 0xbc3 { if x < 0xbba { 1 } else { if x < 0xbbe { 0 } else { 1 } } } else { if x < 0xbc6 { 0 } else { if x < 0xbc9 { 1 } else { 0 } } } } else { if x < 0xbd1 { if x < 0xbce { 1 } else { if x < 0xbd0 { 0 } else { 1 } } } else { if x < 0xbd7 { 0 } else { if x < 0xbd8 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_8(x: int) -> int { if x < 0xc46 { if x < 0xc12 { if x < 0xc0d { if x < 0xbfb { 1 } else { if x < 0xc00 { 0 } else { 1 } } } else { if x < 0xc0e { 0 } else { if x < 0xc11 { 1 } else { 0 } } } } else { if x < 0xc3a { if x < 0xc29 { 1 } else { if x < 0xc2a { 0 } else { 1 } } } else { if x < 0xc3c { 0 } else { if x < 0xc45 { 1 } else { 0 } } } } } else { if x < 0xc58 { if x < 0xc4e { if x < 0xc49 { 1 } else { if x < 0xc4a { 0 } else { 1 } } } else { if x < 0xc55 { 0 } else { if x < 0xc57 { 1 } else { 0 } } } } else { if x < 0xc5e { if x < 0xc5b { 1 } else { if x < 0xc5d { 0 } else { 1 } } } else { if x < 0xc60 { 0 } else { if x < 0xc64 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_9(x: int) -> int { if x < 0xcbc { if x < 0xc92 { if x < 0xc8d { if x < 0xc70 { 1 } else { if x < 0xc77 { 0 } else { 1 } } } else { if x < 0xc8e { 0 } else { if x < 0xc91 { 1 } else { 0 } } } } else { if x < 0xcb4 { if x < 0xca9 { 1 } else { if x < 0xcaa { 0 } else { 1 } } } else { if x < 0xcb5 { 0 } else { if x < 0xcba { 1 } else { 0 } } } } } else { if x < 0xcd5 { if x < 0xcc9 { if x < 0xcc5 { 1 } else { if x < 0xcc6 { 0 } else { 1 } } } else { if x < 0xcca { 0 } else { if x < 0xcce { 1 } else { 0 } } } } else { if x < 0xcdf { if x < 0xcd7 { 1 } else { if x < 0xcdd { 0 } else { 1 } } } else { if x < 0xce0 { 0 } else { if x < 0xce4 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_10(x: int) -> int { if x < 0xd4a { if x < 0xd0e { if x < 0xcf4 { if x < 0xcf0 { 1 } else { if x < 0xcf1 { 0 } else { 1 } } } else { if x < 0xd00 { 0 } else { if x < 0xd0d { 1 } else { 0 } } } } else { if x < 0xd45 { if x < 0xd11 { 1 } else { if x < 0xd12 { 0 } else { 1 } } } else { if x < 0xd46 { 0 } else { if x < 0xd49 { 1 } else { 0 } } } } } else { if x < 0xd81 { if x < 0xd64 { if x < 0xd50 { 1 } else { if x < 0xd54 { 0 } else { 1 } } } else { if x < 0xd66 { 0 } else { if x < 0xd80 { 1 } else { 0 } } } } else { if x < 0xd97 { if x < 0xd84 { 1 } else { if x < 0xd85 { 0 } else { 1 } } } else { if x < 0xd9a { 0 } else { if x < 0xdb2 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_11(x: int) -> int { if x < 0xdd8 { if x < 0xdca { if x < 0xdbe { if x < 0xdbc { 1 } else { if x < 0xdbd { 0 } else { 1 } } } else { if x < 0xdc0 { 0 } else { if x < 0xdc7 { 1 } else { 0 } } } } else { if x < 0xdd5 { if x < 0xdcb { 1 } else { if x < 0xdcf { 0 } else { 1 } } } else { if x < 0xdd6 { 0 } else { if x < 0xdd7 { 1 } else { 0 } } } } } else { if x < 0xe01 { if x < 0xdf0 { if x < 0xde0 { 1 } else { if x < 0xde6 { 0 } else { 1 } } } else { if x < 0xdf2 { 0 } else { if x < 0xdf5 { 1 } else { 0 } } } } else { if x < 0xe5c { if x < 0xe3b { 1 } else { if x < 0xe3f { 0 } else { 1 } } } else { if x < 0xe81 { 0 } else { if x < 0xe83 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_12(x: int) -> int { if x < 0xec6 { if x < 0xea5 { if x < 0xe8b { if x < 0xe85 { 1 } else { if x < 0xe86 { 0 } else { 1 } } } else { if x < 0xe8c { 0 } else { if x < 0xea4 { 1 } else { 0 } } } } else { if x < 0xebe { if x < 0xea6 { 1 } else { if x < 0xea7 { 0 } else { 1 } } } else { if x < 0xec0 { 0 } else { if x < 0xec5 { 1 } else { 0 } } } } } else { if x < 0xedc { if x < 0xecf { if x < 0xec7 { 1 } else { if x < 0xec8 { 0 } else { 1 } } } else { if x < 0xed0 { 0 } else { if x < 0xeda { 1 } else { 0 } } } } else { if x < 0xf48 { if x < 0xee0 { 1 } else { if x < 0xf00 { 0 } else { 1 } } } else { if x < 0xf49 { 0 } else { if x < 0xf6d { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_13(x: int) -> int { if x < 0x10cd { if x < 0xfce { if x < 0xfbd { if x < 0xf98 { 1 } else { if x < 0xf99 { 0 } else { 1 } } } else { if x < 0xfbe { 0 } else { if x < 0xfcd { 1 } else { 0 } } } } else { if x < 0x10c6 { if x < 0xfdb { 1 } else { if x < 0x1000 { 0 } else { 1 } } } else { if x < 0x10c7 { 0 } else { if x < 0x10c8 { 1 } else { 0 } } } } } else { if x < 0x1250 { if x < 0x1249 { if x < 0x10ce { 1 } else { if x < 0x10d0 { 0 } else { 1 } } } else { if x < 0x124a { 0 } else { if x < 0x124e { 1 } else { 0 } } } } else { if x < 0x1259 { if x < 0x1257 { 1 } else { if x < 0x1258 { 0 } else { 1 } } } else { if x < 0x125a { 0 } else { if x < 0x125e { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_14(x: int) -> int { if x < 0x12c2 { if x < 0x12b2 { if x < 0x128e { if x < 0x1289 { 1 } else { if x < 0x128a { 0 } else { 1 } } } else { if x < 0x1290 { 0 } else { if x < 0x12b1 { 1 } else { 0 } } } } else { if x < 0x12bf { if x < 0x12b6 { 1 } else { if x < 0x12b8 { 0 } else { 1 } } } else { if x < 0x12c0 { 0 } else { if x < 0x12c1 { 1 } else { 0 } } } } } else { if x < 0x1312 { if x < 0x12d7 { if x < 0x12c6 { 1 } else { if x < 0x12c8 { 0 } else { 1 } } } else { if x < 0x12d8 { 0 } else { if x < 0x1311 { 1 } else { 0 } } } } else { if x < 0x135b { if x < 0x1316 { 1 } else { if x < 0x1318 { 0 } else { 1 } } } else { if x < 0x135d { 0 } else { if x < 0x137d { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_15(x: int) -> int { if x < 0x171f { if x < 0x1400 { if x < 0x13f6 { if x < 0x139a { 1 } else { if x < 0x13a0 { 0 } else { 1 } } } else { if x < 0x13f8 { 0 } else { if x < 0x13fe { 1 } else { 0 } } } } else { if x < 0x16f9 { if x < 0x169d { 1 } else { if x < 0x16a0 { 0 } else { 1 } } } else { if x < 0x1700 { 0 } else { if x < 0x1716 { 1 } else { 0 } } } } } else { if x < 0x176e { if x < 0x1754 { if x < 0x1737 { 1 } else { if x < 0x1740 { 0 } else { 1 } } } else { if x < 0x1760 { 0 } else { if x < 0x176d { 1 } else { 0 } } } } else { if x < 0x1774 { if x < 0x1771 { 1 } else { if x < 0x1772 { 0 } else { 1 } } } else { if x < 0x1780 { 0 } else { if x < 0x17de { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_16(x: int) -> int { if x < 0x1900 { if x < 0x1820 { if x < 0x17fa { if x < 0x17ea { 1 } else { if x < 0x17f0 { 0 } else { 1 } } } else { if x < 0x1800 { 0 } else { if x < 0x181a { 1 } else { 0 } } } } else { if x < 0x18ab { if x < 0x1879 { 1 } else { if x < 0x1880 { 0 } else { 1 } } } else { if x < 0x18b0 { 0 } else { if x < 0x18f6 { 1 } else { 0 } } } } } else { if x < 0x1940 { if x < 0x192c { if x < 0x191f { 1 } else { if x < 0x1920 { 0 } else { 1 } } } else { if x < 0x1930 { 0 } else { if x < 0x193c { 1 } else { 0 } } } } else { if x < 0x196e { if x < 0x1941 { 1 } else { if x < 0x1944 { 0 } else { 1 } } } else { if x < 0x1970 { 0 } else { if x < 0x1975 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_17(x: int) -> int { if x < 0x1a7f { if x < 0x19de { if x < 0x19ca { if x < 0x19ac { 1 } else { if x < 0x19b0 { 0 } else { 1 } } } else { if x < 0x19d0 { 0 } else { if x < 0x19db { 1 } else { 0 } } } } else { if x < 0x1a5f { if x < 0x1a1c { 1 } else { if x < 0x1a1e { 0 } else { 1 } } } else { if x < 0x1a60 { 0 } else { if x < 0x1a7d { 1 } else { 0 } } } } } else { if x < 0x1ab0 { if x < 0x1a9a { if x < 0x1a8a { 1 } else { if x < 0x1a90 { 0 } else { 1 } } } else { if x < 0x1aa0 { 0 } else { if x < 0x1aae { 1 } else { 0 } } } } else { if x < 0x1b4d { if x < 0x1acf { 1 } else { if x < 0x1b00 { 0 } else { 1 } } } else { if x < 0x1b4e { 0 } else { if x < 0x1bf4 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_18(x: int) -> int { if x < 0x1d00 { if x < 0x1c90 { if x < 0x1c4a { if x < 0x1c38 { 1 } else { if x < 0x1c3b { 0 } else { 1 } } } else { if x < 0x1c4d { 0 } else { if x < 0x1c8b { 1 } else { 0 } } } } else { if x < 0x1cc8 { if x < 0x1cbb { 1 } else { if x < 0x1cbd { 0 } else { 1 } } } else { if x < 0x1cd0 { 0 } else { if x < 0x1cfb { 1 } else { 0 } } } } } else { if x < 0x1f48 { if x < 0x1f1e { if x < 0x1f16 { 1 } else { if x < 0x1f18 { 0 } else { 1 } } } else { if x < 0x1f20 { 0 } else { if x < 0x1f46 { 1 } else { 0 } } } } else { if x < 0x1f58 { if x < 0x1f4e { 1 } else { if x < 0x1f50 { 0 } else { 1 } } } else { if x < 0x1f59 { 0 } else { if x < 0x1f5a { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_19(x: int) -> int { if x < 0x1fd6 { if x < 0x1f80 { if x < 0x1f5e { if x < 0x1f5c { 1 } else { if x < 0x1f5d { 0 } else { 1 } } } else { if x < 0x1f5f { 0 } else { if x < 0x1f7e { 1 } else { 0 } } } } else { if x < 0x1fc5 { if x < 0x1fb5 { 1 } else { if x < 0x1fb6 { 0 } else { 1 } } } else { if x < 0x1fc6 { 0 } else { if x < 0x1fd4 { 1 } else { 0 } } } } } else { if x < 0x1ff6 { if x < 0x1ff0 { if x < 0x1fdc { 1 } else { if x < 0x1fdd { 0 } else { 1 } } } else { if x < 0x1ff2 { 0 } else { if x < 0x1ff5 { 1 } else { 0 } } } } else { if x < 0x2065 { if x < 0x1fff { 1 } else { if x < 0x2000 { 0 } else { 1 } } } else { if x < 0x2066 { 0 } else { if x < 0x2072 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_20(x: int) -> int { if x < 0x2440 { if x < 0x20d0 { if x < 0x209d { if x < 0x208f { 1 } else { if x < 0x2090 { 0 } else { 1 } } } else { if x < 0x20a0 { 0 } else { if x < 0x20c1 { 1 } else { 0 } } } } else { if x < 0x218c { if x < 0x20f1 { 1 } else { if x < 0x2100 { 0 } else { 1 } } } else { if x < 0x2190 { 0 } else { if x < 0x242a { 1 } else { 0 } } } } } else { if x < 0x2b97 { if x < 0x2b74 { if x < 0x244b { 1 } else { if x < 0x2460 { 0 } else { 1 } } } else { if x < 0x2b76 { 0 } else { if x < 0x2b96 { 1 } else { 0 } } } } else { if x < 0x2d26 { if x < 0x2cf4 { 1 } else { if x < 0x2cf9 { 0 } else { 1 } } } else { if x < 0x2d27 { 0 } else { if x < 0x2d28 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_21(x: int) -> int { if x < 0x2db0 { if x < 0x2d7f { if x < 0x2d68 { if x < 0x2d2e { 1 } else { if x < 0x2d30 { 0 } else { 1 } } } else { if x < 0x2d6f { 0 } else { if x < 0x2d71 { 1 } else { 0 } } } } else { if x < 0x2da7 { if x < 0x2d97 { 1 } else { if x < 0x2da0 { 0 } else { 1 } } } else { if x < 0x2da8 { 0 } else { if x < 0x2daf { 1 } else { 0 } } } } } else { if x < 0x2dc8 { if x < 0x2dbf { if x < 0x2db7 { 1 } else { if x < 0x2db8 { 0 } else { 1 } } } else { if x < 0x2dc0 { 0 } else { if x < 0x2dc7 { 1 } else { 0 } } } } else { if x < 0x2dd7 { if x < 0x2dcf { 1 } else { if x < 0x2dd0 { 0 } else { 1 } } } else { if x < 0x2dd8 { 0 } else { if x < 0x2ddf { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_22(x: int) -> int { if x < 0x3099 { if x < 0x2f00 { if x < 0x2e9a { if x < 0x2e5e { 1 } else { if x < 0x2e80 { 0 } else { 1 } } } else { if x < 0x2e9b { 0 } else { if x < 0x2ef4 { 1 } else { 0 } } } } else { if x < 0x3040 { if x < 0x2fd6 { 1 } else { if x < 0x2ff0 { 0 } else { 1 } } } else { if x < 0x3041 { 0 } else { if x < 0x3097 { 1 } else { 0 } } } } } else { if x < 0x3190 { if x < 0x3130 { if x < 0x3100 { 1 } else { if x < 0x3105 { 0 } else { 1 } } } else { if x < 0x3131 { 0 } else { if x < 0x318f { 1 } else { 0 } } } } else { if x < 0x321f { if x < 0x31e6 { 1 } else { if x < 0x31ef { 0 } else { 1 } } } else { if x < 0x3220 { 0 } else { if x < 0xa48d { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_23(x: int) -> int { if x < 0xa7d5 { if x < 0xa700 { if x < 0xa62c { if x < 0xa4c7 { 1 } else { if x < 0xa4d0 { 0 } else { 1 } } } else { if x < 0xa640 { 0 } else { if x < 0xa6f8 { 1 } else { 0 } } } } else { if x < 0xa7d2 { if x < 0xa7ce { 1 } else { if x < 0xa7d0 { 0 } else { 1 } } } else { if x < 0xa7d3 { 0 } else { if x < 0xa7d4 { 1 } else { 0 } } } } } else { if x < 0xa840 { if x < 0xa82d { if x < 0xa7dd { 1 } else { if x < 0xa7f2 { 0 } else { 1 } } } else { if x < 0xa830 { 0 } else { if x < 0xa83a { 1 } else { 0 } } } } else { if x < 0xa8c6 { if x < 0xa878 { 1 } else { if x < 0xa880 { 0 } else { 1 } } } else { if x < 0xa8ce { 0 } else { if x < 0xa8da { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_24(x: int) -> int { if x < 0xaa40 { if x < 0xa9cf { if x < 0xa97d { if x < 0xa954 { 1 } else { if x < 0xa95f { 0 } else { 1 } } } else { if x < 0xa980 { 0 } else { if x < 0xa9ce { 1 } else { 0 } } } } else { if x < 0xa9ff { if x < 0xa9da { 1 } else { if x < 0xa9de { 0 } else { 1 } } } else { if x < 0xaa00 { 0 } else { if x < 0xaa37 { 1 } else { 0 } } } } } else { if x < 0xaadb { if x < 0xaa5a { if x < 0xaa4e { 1 } else { if x < 0xaa50 { 0 } else { 1 } } } else { if x < 0xaa5c { 0 } else { if x < 0xaac3 { 1 } else { 0 } } } } else { if x < 0xab07 { if x < 0xaaf7 { 1 } else { if x < 0xab01 { 0 } else { 1 } } } else { if x < 0xab09 { 0 } else { if x < 0xab0f { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_25(x: int) -> int { if x < 0xac00 { if x < 0xab30 { if x < 0xab27 { if x < 0xab17 { 1 } else { if x < 0xab20 { 0 } else { 1 } } } else { if x < 0xab28 { 0 } else { if x < 0xab2f { 1 } else { 0 } } } } else { if x < 0xabee { if x < 0xab6c { 1 } else { if x < 0xab70 { 0 } else { 1 } } } else { if x < 0xabf0 { 0 } else { if x < 0xabfa { 1 } else { 0 } } } } } else { if x < 0xf900 { if x < 0xd7c7 { if x < 0xd7a4 { 1 } else { if x < 0xd7b0 { 0 } else { 1 } } } else { if x < 0xd7cb { 0 } else { if x < 0xd7fc { 1 } else { 0 } } } } else { if x < 0xfada { if x < 0xfa6e { 1 } else { if x < 0xfa70 { 0 } else { 1 } } } else { if x < 0xfb00 { 0 } else { if x < 0xfb07 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_26(x: int) -> int { if x < 0xfb46 { if x < 0xfb3e { if x < 0xfb37 { if x < 0xfb18 { 1 } else { if x < 0xfb1d { 0 } else { 1 } } } else { if x < 0xfb38 { 0 } else { if x < 0xfb3d { 1 } else { 0 } } } } else { if x < 0xfb42 { if x < 0xfb3f { 1 } else { if x < 0xfb40 { 0 } else { 1 } } } else { if x < 0xfb43 { 0 } else { if x < 0xfb45 { 1 } else { 0 } } } } } else { if x < 0xfdcf { if x < 0xfd90 { if x < 0xfbc3 { 1 } else { if x < 0xfbd3 { 0 } else { 1 } } } else { if x < 0xfd92 { 0 } else { if x < 0xfdc8 { 1 } else { 0 } } } } else { if x < 0xfe1a { if x < 0xfdd0 { 1 } else { if x < 0xfdf0 { 0 } else { 1 } } } else { if x < 0xfe20 { 0 } else { if x < 0xfe53 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_27(x: int) -> int { if x < 0xffc2 { if x < 0xfe76 { if x < 0xfe6c { if x < 0xfe67 { 1 } else { if x < 0xfe68 { 0 } else { 1 } } } else { if x < 0xfe70 { 0 } else { if x < 0xfe75 { 1 } else { 0 } } } } else { if x < 0xff00 { if x < 0xfefd { 1 } else { if x < 0xfeff { 0 } else { 1 } } } else { if x < 0xff01 { 0 } else { if x < 0xffbf { 1 } else { 0 } } } } } else { if x < 0xffda { if x < 0xffd0 { if x < 0xffc8 { 1 } else { if x < 0xffca { 0 } else { 1 } } } else { if x < 0xffd2 { 0 } else { if x < 0xffd8 { 1 } else { 0 } } } } else { if x < 0xffe7 { if x < 0xffdd { 1 } else { if x < 0xffe0 { 0 } else { 1 } } } else { if x < 0xffe8 { 0 } else { if x < 0xffef { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_28(x: int) -> int { if x < 0x10050 { if x < 0x10028 { if x < 0x1000c { if x < 0xfffe { 1 } else { if x < 0x10000 { 0 } else { 1 } } } else { if x < 0x1000d { 0 } else { if x < 0x10027 { 1 } else { 0 } } } } else { if x < 0x1003e { if x < 0x1003b { 1 } else { if x < 0x1003c { 0 } else { 1 } } } else { if x < 0x1003f { 0 } else { if x < 0x1004e { 1 } else { 0 } } } } } else { if x < 0x10107 { if x < 0x100fb { if x < 0x1005e { 1 } else { if x < 0x10080 { 0 } else { 1 } } } else { if x < 0x10100 { 0 } else { if x < 0x10103 { 1 } else { 0 } } } } else { if x < 0x1018f { if x < 0x10134 { 1 } else { if x < 0x10137 { 0 } else { 1 } } } else { if x < 0x10190 { 0 } else { if x < 0x1019d { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_29(x: int) -> int { if x < 0x1032d { if x < 0x102a0 { if x < 0x101fe { if x < 0x101a1 { 1 } else { if x < 0x101d0 { 0 } else { 1 } } } else { if x < 0x10280 { 0 } else { if x < 0x1029d { 1 } else { 0 } } } } else { if x < 0x102fc { if x < 0x102d1 { 1 } else { if x < 0x102e0 { 0 } else { 1 } } } else { if x < 0x10300 { 0 } else { if x < 0x10324 { 1 } else { 0 } } } } } else { if x < 0x1039f { if x < 0x1037b { if x < 0x1034b { 1 } else { if x < 0x10350 { 0 } else { 1 } } } else { if x < 0x10380 { 0 } else { if x < 0x1039e { 1 } else { 0 } } } } else { if x < 0x103d6 { if x < 0x103c4 { 1 } else { if x < 0x103c8 { 0 } else { 1 } } } else { if x < 0x10400 { 0 } else { if x < 0x1049e { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_30(x: int) -> int { if x < 0x1057c { if x < 0x10500 { if x < 0x104d4 { if x < 0x104aa { 1 } else { if x < 0x104b0 { 0 } else { 1 } } } else { if x < 0x104d8 { 0 } else { if x < 0x104fc { 1 } else { 0 } } } } else { if x < 0x10564 { if x < 0x10528 { 1 } else { if x < 0x10530 { 0 } else { 1 } } } else { if x < 0x1056f { 0 } else { if x < 0x1057b { 1 } else { 0 } } } } } else { if x < 0x10597 { if x < 0x10593 { if x < 0x1058b { 1 } else { if x < 0x1058c { 0 } else { 1 } } } else { if x < 0x10594 { 0 } else { if x < 0x10596 { 1 } else { 0 } } } } else { if x < 0x105b2 { if x < 0x105a2 { 1 } else { if x < 0x105a3 { 0 } else { 1 } } } else { if x < 0x105b3 { 0 } else { if x < 0x105ba { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_31(x: int) -> int { if x < 0x10787 { if x < 0x10740 { if x < 0x105f4 { if x < 0x105bd { 1 } else { if x < 0x105c0 { 0 } else { 1 } } } else { if x < 0x10600 { 0 } else { if x < 0x10737 { 1 } else { 0 } } } } else { if x < 0x10768 { if x < 0x10756 { 1 } else { if x < 0x10760 { 0 } else { 1 } } } else { if x < 0x10780 { 0 } else { if x < 0x10786 { 1 } else { 0 } } } } } else { if x < 0x10808 { if x < 0x107bb { if x < 0x107b1 { 1 } else { if x < 0x107b2 { 0 } else { 1 } } } else { if x < 0x10800 { 0 } else { if x < 0x10806 { 1 } else { 0 } } } } else { if x < 0x10836 { if x < 0x10809 { 1 } else { if x < 0x1080a { 0 } else { 1 } } } else { if x < 0x10837 { 0 } else { if x < 0x10839 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_32(x: int) -> int { if x < 0x108fb { if x < 0x108a7 { if x < 0x10856 { if x < 0x1083d { 1 } else { if x < 0x1083f { 0 } else { 1 } } } else { if x < 0x10857 { 0 } else { if x < 0x1089f { 1 } else { 0 } } } } else { if x < 0x108f3 { if x < 0x108b0 { 1 } else { if x < 0x108e0 { 0 } else { 1 } } } else { if x < 0x108f4 { 0 } else { if x < 0x108f6 { 1 } else { 0 } } } } } else { if x < 0x10980 { if x < 0x1093a { if x < 0x1091c { 1 } else { if x < 0x1091f { 0 } else { 1 } } } else { if x < 0x1093f { 0 } else { if x < 0x10940 { 1 } else { 0 } } } } else { if x < 0x109d0 { if x < 0x109b8 { 1 } else { if x < 0x109bc { 0 } else { 1 } } } else { if x < 0x109d2 { 0 } else { if x < 0x10a04 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_33(x: int) -> int { if x < 0x10a50 { if x < 0x10a19 { if x < 0x10a14 { if x < 0x10a07 { 1 } else { if x < 0x10a0c { 0 } else { 1 } } } else { if x < 0x10a15 { 0 } else { if x < 0x10a18 { 1 } else { 0 } } } } else { if x < 0x10a3b { if x < 0x10a36 { 1 } else { if x < 0x10a38 { 0 } else { 1 } } } else { if x < 0x10a3f { 0 } else { if x < 0x10a49 { 1 } else { 0 } } } } } else { if x < 0x10aeb { if x < 0x10aa0 { if x < 0x10a59 { 1 } else { if x < 0x10a60 { 0 } else { 1 } } } else { if x < 0x10ac0 { 0 } else { if x < 0x10ae7 { 1 } else { 0 } } } } else { if x < 0x10b36 { if x < 0x10af7 { 1 } else { if x < 0x10b00 { 0 } else { 1 } } } else { if x < 0x10b39 { 0 } else { if x < 0x10b56 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_34(x: int) -> int { if x < 0x10cc0 { if x < 0x10ba9 { if x < 0x10b92 { if x < 0x10b73 { 1 } else { if x < 0x10b78 { 0 } else { 1 } } } else { if x < 0x10b99 { 0 } else { if x < 0x10b9d { 1 } else { 0 } } } } else { if x < 0x10c49 { if x < 0x10bb0 { 1 } else { if x < 0x10c00 { 0 } else { 1 } } } else { if x < 0x10c80 { 0 } else { if x < 0x10cb3 { 1 } else { 0 } } } } } else { if x < 0x10d40 { if x < 0x10d28 { if x < 0x10cf3 { 1 } else { if x < 0x10cfa { 0 } else { 1 } } } else { if x < 0x10d30 { 0 } else { if x < 0x10d3a { 1 } else { 0 } } } } else { if x < 0x10d86 { if x < 0x10d66 { 1 } else { if x < 0x10d69 { 0 } else { 1 } } } else { if x < 0x10d8e { 0 } else { if x < 0x10d90 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_35(x: int) -> int { if x < 0x10f30 { if x < 0x10eb0 { if x < 0x10eaa { if x < 0x10e7f { 1 } else { if x < 0x10e80 { 0 } else { 1 } } } else { if x < 0x10eab { 0 } else { if x < 0x10eae { 1 } else { 0 } } } } else { if x < 0x10ec5 { if x < 0x10eb2 { 1 } else { if x < 0x10ec2 { 0 } else { 1 } } } else { if x < 0x10efc { 0 } else { if x < 0x10f28 { 1 } else { 0 } } } } } else { if x < 0x10fe0 { if x < 0x10f8a { if x < 0x10f5a { 1 } else { if x < 0x10f70 { 0 } else { 1 } } } else { if x < 0x10fb0 { 0 } else { if x < 0x10fcc { 1 } else { 0 } } } } else { if x < 0x1104e { if x < 0x10ff7 { 1 } else { if x < 0x11000 { 0 } else { 1 } } } else { if x < 0x11052 { 0 } else { if x < 0x11076 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_36(x: int) -> int { if x < 0x11150 { if x < 0x110f0 { if x < 0x110ce { if x < 0x110c3 { 1 } else { if x < 0x110cd { 0 } else { 1 } } } else { if x < 0x110d0 { 0 } else { if x < 0x110e9 { 1 } else { 0 } } } } else { if x < 0x11135 { if x < 0x110fa { 1 } else { if x < 0x11100 { 0 } else { 1 } } } else { if x < 0x11136 { 0 } else { if x < 0x11148 { 1 } else { 0 } } } } } else { if x < 0x11200 { if x < 0x111e0 { if x < 0x11177 { 1 } else { if x < 0x11180 { 0 } else { 1 } } } else { if x < 0x111e1 { 0 } else { if x < 0x111f5 { 1 } else { 0 } } } } else { if x < 0x11242 { if x < 0x11212 { 1 } else { if x < 0x11213 { 0 } else { 1 } } } else { if x < 0x11280 { 0 } else { if x < 0x11287 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_37(x: int) -> int { if x < 0x11300 { if x < 0x1129f { if x < 0x1128e { if x < 0x11289 { 1 } else { if x < 0x1128a { 0 } else { 1 } } } else { if x < 0x1128f { 0 } else { if x < 0x1129e { 1 } else { 0 } } } } else { if x < 0x112eb { if x < 0x112aa { 1 } else { if x < 0x112b0 { 0 } else { 1 } } } else { if x < 0x112f0 { 0 } else { if x < 0x112fa { 1 } else { 0 } } } } } else { if x < 0x11313 { if x < 0x1130d { if x < 0x11304 { 1 } else { if x < 0x11305 { 0 } else { 1 } } } else { if x < 0x1130f { 0 } else { if x < 0x11311 { 1 } else { 0 } } } } else { if x < 0x11331 { if x < 0x11329 { 1 } else { if x < 0x1132a { 0 } else { 1 } } } else { if x < 0x11332 { 0 } else { if x < 0x11334 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_38(x: int) -> int { if x < 0x1135d { if x < 0x1134b { if x < 0x11345 { if x < 0x1133a { 1 } else { if x < 0x1133b { 0 } else { 1 } } } else { if x < 0x11347 { 0 } else { if x < 0x11349 { 1 } else { 0 } } } } else { if x < 0x11351 { if x < 0x1134e { 1 } else { if x < 0x11350 { 0 } else { 1 } } } else { if x < 0x11357 { 0 } else { if x < 0x11358 { 1 } else { 0 } } } } } else { if x < 0x11380 { if x < 0x1136d { if x < 0x11364 { 1 } else { if x < 0x11366 { 0 } else { 1 } } } else { if x < 0x11370 { 0 } else { if x < 0x11375 { 1 } else { 0 } } } } else { if x < 0x1138c { if x < 0x1138a { 1 } else { if x < 0x1138b { 0 } else { 1 } } } else { if x < 0x1138e { 0 } else { if x < 0x1138f { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_39(x: int) -> int { if x < 0x113d7 { if x < 0x113c5 { if x < 0x113c1 { if x < 0x113b6 { 1 } else { if x < 0x113b7 { 0 } else { 1 } } } else { if x < 0x113c2 { 0 } else { if x < 0x113c3 { 1 } else { 0 } } } } else { if x < 0x113cb { if x < 0x113c6 { 1 } else { if x < 0x113c7 { 0 } else { 1 } } } else { if x < 0x113cc { 0 } else { if x < 0x113d6 { 1 } else { 0 } } } } } else { if x < 0x1145d { if x < 0x113e3 { if x < 0x113d9 { 1 } else { if x < 0x113e1 { 0 } else { 1 } } } else { if x < 0x11400 { 0 } else { if x < 0x1145c { 1 } else { 0 } } } } else { if x < 0x114c8 { if x < 0x11462 { 1 } else { if x < 0x11480 { 0 } else { 1 } } } else { if x < 0x114d0 { 0 } else { if x < 0x114da { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_40(x: int) -> int { if x < 0x116c0 { if x < 0x11650 { if x < 0x115de { if x < 0x115b6 { 1 } else { if x < 0x115b8 { 0 } else { 1 } } } else { if x < 0x11600 { 0 } else { if x < 0x11645 { 1 } else { 0 } } } } else { if x < 0x1166d { if x < 0x1165a { 1 } else { if x < 0x11660 { 0 } else { 1 } } } else { if x < 0x11680 { 0 } else { if x < 0x116ba { 1 } else { 0 } } } } } else { if x < 0x1171d { if x < 0x116e4 { if x < 0x116ca { 1 } else { if x < 0x116d0 { 0 } else { 1 } } } else { if x < 0x11700 { 0 } else { if x < 0x1171b { 1 } else { 0 } } } } else { if x < 0x11747 { if x < 0x1172c { 1 } else { if x < 0x11730 { 0 } else { 1 } } } else { if x < 0x11800 { 0 } else { if x < 0x1183c { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_41(x: int) -> int { if x < 0x11937 { if x < 0x1190c { if x < 0x11907 { if x < 0x118f3 { 1 } else { if x < 0x118ff { 0 } else { 1 } } } else { if x < 0x11909 { 0 } else { if x < 0x1190a { 1 } else { 0 } } } } else { if x < 0x11917 { if x < 0x11914 { 1 } else { if x < 0x11915 { 0 } else { 1 } } } else { if x < 0x11918 { 0 } else { if x < 0x11936 { 1 } else { 0 } } } } } else { if x < 0x119a0 { if x < 0x11947 { if x < 0x11939 { 1 } else { if x < 0x1193b { 0 } else { 1 } } } else { if x < 0x11950 { 0 } else { if x < 0x1195a { 1 } else { 0 } } } } else { if x < 0x119d8 { if x < 0x119a8 { 1 } else { if x < 0x119aa { 0 } else { 1 } } } else { if x < 0x119da { 0 } else { if x < 0x119e5 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_42(x: int) -> int { if x < 0x11c00 { if x < 0x11b00 { if x < 0x11aa3 { if x < 0x11a48 { 1 } else { if x < 0x11a50 { 0 } else { 1 } } } else { if x < 0x11ab0 { 0 } else { if x < 0x11af9 { 1 } else { 0 } } } } else { if x < 0x11be2 { if x < 0x11b0a { 1 } else { if x < 0x11bc0 { 0 } else { 1 } } } else { if x < 0x11bf0 { 0 } else { if x < 0x11bfa { 1 } else { 0 } } } } } else { if x < 0x11c50 { if x < 0x11c37 { if x < 0x11c09 { 1 } else { if x < 0x11c0a { 0 } else { 1 } } } else { if x < 0x11c38 { 0 } else { if x < 0x11c46 { 1 } else { 0 } } } } else { if x < 0x11c90 { if x < 0x11c6d { 1 } else { if x < 0x11c70 { 0 } else { 1 } } } else { if x < 0x11c92 { 0 } else { if x < 0x11ca8 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_43(x: int) -> int { if x < 0x11d3f { if x < 0x11d0b { if x < 0x11d07 { if x < 0x11cb7 { 1 } else { if x < 0x11d00 { 0 } else { 1 } } } else { if x < 0x11d08 { 0 } else { if x < 0x11d0a { 1 } else { 0 } } } } else { if x < 0x11d3b { if x < 0x11d37 { 1 } else { if x < 0x11d3a { 0 } else { 1 } } } else { if x < 0x11d3c { 0 } else { if x < 0x11d3e { 1 } else { 0 } } } } } else { if x < 0x11d67 { if x < 0x11d5a { if x < 0x11d48 { 1 } else { if x < 0x11d50 { 0 } else { 1 } } } else { if x < 0x11d60 { 0 } else { if x < 0x11d66 { 1 } else { 0 } } } } else { if x < 0x11d8f { if x < 0x11d69 { 1 } else { if x < 0x11d6a { 0 } else { 1 } } } else { if x < 0x11d90 { 0 } else { if x < 0x11d92 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_44(x: int) -> int { if x < 0x11fb0 { if x < 0x11f00 { if x < 0x11daa { if x < 0x11d99 { 1 } else { if x < 0x11da0 { 0 } else { 1 } } } else { if x < 0x11ee0 { 0 } else { if x < 0x11ef9 { 1 } else { 0 } } } } else { if x < 0x11f3b { if x < 0x11f11 { 1 } else { if x < 0x11f12 { 0 } else { 1 } } } else { if x < 0x11f3e { 0 } else { if x < 0x11f5b { 1 } else { 0 } } } } } else { if x < 0x12400 { if x < 0x11ff2 { if x < 0x11fb1 { 1 } else { if x < 0x11fc0 { 0 } else { 1 } } } else { if x < 0x11fff { 0 } else { if x < 0x1239a { 1 } else { 0 } } } } else { if x < 0x12475 { if x < 0x1246f { 1 } else { if x < 0x12470 { 0 } else { 1 } } } else { if x < 0x12480 { 0 } else { if x < 0x12544 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_45(x: int) -> int { if x < 0x16a40 { if x < 0x14400 { if x < 0x13456 { if x < 0x12ff3 { 1 } else { if x < 0x13000 { 0 } else { 1 } } } else { if x < 0x13460 { 0 } else { if x < 0x143fb { 1 } else { 0 } } } } else { if x < 0x1613a { if x < 0x14647 { 1 } else { if x < 0x16100 { 0 } else { 1 } } } else { if x < 0x16800 { 0 } else { if x < 0x16a39 { 1 } else { 0 } } } } } else { if x < 0x16ac0 { if x < 0x16a6a { if x < 0x16a5f { 1 } else { if x < 0x16a60 { 0 } else { 1 } } } else { if x < 0x16a6e { 0 } else { if x < 0x16abf { 1 } else { 0 } } } } else { if x < 0x16aee { if x < 0x16aca { 1 } else { if x < 0x16ad0 { 0 } else { 1 } } } else { if x < 0x16af0 { 0 } else { if x < 0x16af6 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_46(x: int) -> int { if x < 0x16e40 { if x < 0x16b63 { if x < 0x16b5a { if x < 0x16b46 { 1 } else { if x < 0x16b50 { 0 } else { 1 } } } else { if x < 0x16b5b { 0 } else { if x < 0x16b62 { 1 } else { 0 } } } } else { if x < 0x16b90 { if x < 0x16b78 { 1 } else { if x < 0x16b7d { 0 } else { 1 } } } else { if x < 0x16d40 { 0 } else { if x < 0x16d7a { 1 } else { 0 } } } } } else { if x < 0x16f8f { if x < 0x16f4b { if x < 0x16e9b { 1 } else { if x < 0x16f00 { 0 } else { 1 } } } else { if x < 0x16f4f { 0 } else { if x < 0x16f88 { 1 } else { 0 } } } } else { if x < 0x16fe5 { if x < 0x16fa0 { 1 } else { if x < 0x16fe0 { 0 } else { 1 } } } else { if x < 0x16ff0 { 0 } else { if x < 0x16ff2 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_47(x: int) -> int { if x < 0x1b000 { if x < 0x1aff0 { if x < 0x18cd6 { if x < 0x187f8 { 1 } else { if x < 0x18800 { 0 } else { 1 } } } else { if x < 0x18cff { 0 } else { if x < 0x18d09 { 1 } else { 0 } } } } else { if x < 0x1affc { if x < 0x1aff4 { 1 } else { if x < 0x1aff5 { 0 } else { 1 } } } else { if x < 0x1affd { 0 } else { if x < 0x1afff { 1 } else { 0 } } } } } else { if x < 0x1b155 { if x < 0x1b133 { if x < 0x1b123 { 1 } else { if x < 0x1b132 { 0 } else { 1 } } } else { if x < 0x1b150 { 0 } else { if x < 0x1b153 { 1 } else { 0 } } } } else { if x < 0x1b168 { if x < 0x1b156 { 1 } else { if x < 0x1b164 { 0 } else { 1 } } } else { if x < 0x1b170 { 0 } else { if x < 0x1b2fc { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_48(x: int) -> int { if x < 0x1cd00 { if x < 0x1bc90 { if x < 0x1bc7d { if x < 0x1bc6b { 1 } else { if x < 0x1bc70 { 0 } else { 1 } } } else { if x < 0x1bc80 { 0 } else { if x < 0x1bc89 { 1 } else { 0 } } } } else { if x < 0x1bca4 { if x < 0x1bc9a { 1 } else { if x < 0x1bc9c { 0 } else { 1 } } } else { if x < 0x1cc00 { 0 } else { if x < 0x1ccfa { 1 } else { 0 } } } } } else { if x < 0x1cf50 { if x < 0x1cf2e { if x < 0x1ceb4 { 1 } else { if x < 0x1cf00 { 0 } else { 1 } } } else { if x < 0x1cf30 { 0 } else { if x < 0x1cf47 { 1 } else { 0 } } } } else { if x < 0x1d0f6 { if x < 0x1cfc4 { 1 } else { if x < 0x1d000 { 0 } else { 1 } } } else { if x < 0x1d100 { 0 } else { if x < 0x1d127 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_49(x: int) -> int { if x < 0x1d400 { if x < 0x1d2e0 { if x < 0x1d246 { if x < 0x1d1eb { 1 } else { if x < 0x1d200 { 0 } else { 1 } } } else { if x < 0x1d2c0 { 0 } else { if x < 0x1d2d4 { 1 } else { 0 } } } } else { if x < 0x1d357 { if x < 0x1d2f4 { 1 } else { if x < 0x1d300 { 0 } else { 1 } } } else { if x < 0x1d360 { 0 } else { if x < 0x1d379 { 1 } else { 0 } } } } } else { if x < 0x1d4a2 { if x < 0x1d49d { if x < 0x1d455 { 1 } else { if x < 0x1d456 { 0 } else { 1 } } } else { if x < 0x1d49e { 0 } else { if x < 0x1d4a0 { 1 } else { 0 } } } } else { if x < 0x1d4a7 { if x < 0x1d4a3 { 1 } else { if x < 0x1d4a5 { 0 } else { 1 } } } else { if x < 0x1d4a9 { 0 } else { if x < 0x1d4ad { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_50(x: int) -> int { if x < 0x1d516 { if x < 0x1d4c5 { if x < 0x1d4bc { if x < 0x1d4ba { 1 } else { if x < 0x1d4bb { 0 } else { 1 } } } else { if x < 0x1d4bd { 0 } else { if x < 0x1d4c4 { 1 } else { 0 } } } } else { if x < 0x1d50b { if x < 0x1d506 { 1 } else { if x < 0x1d507 { 0 } else { 1 } } } else { if x < 0x1d50d { 0 } else { if x < 0x1d515 { 1 } else { 0 } } } } } else { if x < 0x1d540 { if x < 0x1d53a { if x < 0x1d51d { 1 } else { if x < 0x1d51e { 0 } else { 1 } } } else { if x < 0x1d53b { 0 } else { if x < 0x1d53f { 1 } else { 0 } } } } else { if x < 0x1d547 { if x < 0x1d545 { 1 } else { if x < 0x1d546 { 0 } else { 1 } } } else { if x < 0x1d54a { 0 } else { if x < 0x1d551 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_51(x: int) -> int { if x < 0x1df25 { if x < 0x1da9b { if x < 0x1d7cc { if x < 0x1d6a6 { 1 } else { if x < 0x1d6a8 { 0 } else { 1 } } } else { if x < 0x1d7ce { 0 } else { if x < 0x1da8c { 1 } else { 0 } } } } else { if x < 0x1dab0 { if x < 0x1daa0 { 1 } else { if x < 0x1daa1 { 0 } else { 1 } } } else { if x < 0x1df00 { 0 } else { if x < 0x1df1f { 1 } else { 0 } } } } } else { if x < 0x1e01b { if x < 0x1e007 { if x < 0x1df2b { 1 } else { if x < 0x1e000 { 0 } else { 1 } } } else { if x < 0x1e008 { 0 } else { if x < 0x1e019 { 1 } else { 0 } } } } else { if x < 0x1e025 { if x < 0x1e022 { 1 } else { if x < 0x1e023 { 0 } else { 1 } } } else { if x < 0x1e026 { 0 } else { if x < 0x1e02b { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_52(x: int) -> int { if x < 0x1e290 { if x < 0x1e130 { if x < 0x1e090 { if x < 0x1e06e { 1 } else { if x < 0x1e08f { 0 } else { 1 } } } else { if x < 0x1e100 { 0 } else { if x < 0x1e12d { 1 } else { 0 } } } } else { if x < 0x1e14a { if x < 0x1e13e { 1 } else { if x < 0x1e140 { 0 } else { 1 } } } else { if x < 0x1e14e { 0 } else { if x < 0x1e150 { 1 } else { 0 } } } } } else { if x < 0x1e4d0 { if x < 0x1e2fa { if x < 0x1e2af { 1 } else { if x < 0x1e2c0 { 0 } else { 1 } } } else { if x < 0x1e2ff { 0 } else { if x < 0x1e300 { 1 } else { 0 } } } } else { if x < 0x1e5fb { if x < 0x1e4fa { 1 } else { if x < 0x1e5d0 { 0 } else { 1 } } } else { if x < 0x1e5ff { 0 } else { if x < 0x1e600 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_53(x: int) -> int { if x < 0x1e900 { if x < 0x1e7f0 { if x < 0x1e7ec { if x < 0x1e7e7 { 1 } else { if x < 0x1e7e8 { 0 } else { 1 } } } else { if x < 0x1e7ed { 0 } else { if x < 0x1e7ef { 1 } else { 0 } } } } else { if x < 0x1e8c5 { if x < 0x1e7ff { 1 } else { if x < 0x1e800 { 0 } else { 1 } } } else { if x < 0x1e8c7 { 0 } else { if x < 0x1e8d7 { 1 } else { 0 } } } } } else { if x < 0x1ec71 { if x < 0x1e95a { if x < 0x1e94c { 1 } else { if x < 0x1e950 { 0 } else { 1 } } } else { if x < 0x1e95e { 0 } else { if x < 0x1e960 { 1 } else { 0 } } } } else { if x < 0x1ed3e { if x < 0x1ecb5 { 1 } else { if x < 0x1ed01 { 0 } else { 1 } } } else { if x < 0x1ee00 { 0 } else { if x < 0x1ee04 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_54(x: int) -> int { if x < 0x1ee39 { if x < 0x1ee27 { if x < 0x1ee23 { if x < 0x1ee20 { 1 } else { if x < 0x1ee21 { 0 } else { 1 } } } else { if x < 0x1ee24 { 0 } else { if x < 0x1ee25 { 1 } else { 0 } } } } else { if x < 0x1ee33 { if x < 0x1ee28 { 1 } else { if x < 0x1ee29 { 0 } else { 1 } } } else { if x < 0x1ee34 { 0 } else { if x < 0x1ee38 { 1 } else { 0 } } } } } else { if x < 0x1ee47 { if x < 0x1ee3c { if x < 0x1ee3a { 1 } else { if x < 0x1ee3b { 0 } else { 1 } } } else { if x < 0x1ee42 { 0 } else { if x < 0x1ee43 { 1 } else { 0 } } } } else { if x < 0x1ee4a { if x < 0x1ee48 { 1 } else { if x < 0x1ee49 { 0 } else { 1 } } } else { if x < 0x1ee4b { 0 } else { if x < 0x1ee4c { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_55(x: int) -> int { if x < 0x1ee5d { if x < 0x1ee57 { if x < 0x1ee53 { if x < 0x1ee50 { 1 } else { if x < 0x1ee51 { 0 } else { 1 } } } else { if x < 0x1ee54 { 0 } else { if x < 0x1ee55 { 1 } else { 0 } } } } else { if x < 0x1ee5a { if x < 0x1ee58 { 1 } else { if x < 0x1ee59 { 0 } else { 1 } } } else { if x < 0x1ee5b { 0 } else { if x < 0x1ee5c { 1 } else { 0 } } } } } else { if x < 0x1ee64 { if x < 0x1ee60 { if x < 0x1ee5e { 1 } else { if x < 0x1ee5f { 0 } else { 1 } } } else { if x < 0x1ee61 { 0 } else { if x < 0x1ee63 { 1 } else { 0 } } } } else { if x < 0x1ee6b { if x < 0x1ee65 { 1 } else { if x < 0x1ee67 { 0 } else { 1 } } } else { if x < 0x1ee6c { 0 } else { if x < 0x1ee73 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_56(x: int) -> int { if x < 0x1eea5 { if x < 0x1ee80 { if x < 0x1ee7d { if x < 0x1ee78 { 1 } else { if x < 0x1ee79 { 0 } else { 1 } } } else { if x < 0x1ee7e { 0 } else { if x < 0x1ee7f { 1 } else { 0 } } } } else { if x < 0x1ee9c { if x < 0x1ee8a { 1 } else { if x < 0x1ee8b { 0 } else { 1 } } } else { if x < 0x1eea1 { 0 } else { if x < 0x1eea4 { 1 } else { 0 } } } } } else { if x < 0x1f000 { if x < 0x1eebc { if x < 0x1eeaa { 1 } else { if x < 0x1eeab { 0 } else { 1 } } } else { if x < 0x1eef0 { 0 } else { if x < 0x1eef2 { 1 } else { 0 } } } } else { if x < 0x1f094 { if x < 0x1f02c { 1 } else { if x < 0x1f030 { 0 } else { 1 } } } else { if x < 0x1f0a0 { 0 } else { if x < 0x1f0af { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_57(x: int) -> int { if x < 0x1f240 { if x < 0x1f100 { if x < 0x1f0d0 { if x < 0x1f0c0 { 1 } else { if x < 0x1f0c1 { 0 } else { 1 } } } else { if x < 0x1f0d1 { 0 } else { if x < 0x1f0f6 { 1 } else { 0 } } } } else { if x < 0x1f203 { if x < 0x1f1ae { 1 } else { if x < 0x1f1e6 { 0 } else { 1 } } } else { if x < 0x1f210 { 0 } else { if x < 0x1f23c { 1 } else { 0 } } } } } else { if x < 0x1f300 { if x < 0x1f252 { if x < 0x1f249 { 1 } else { if x < 0x1f250 { 0 } else { 1 } } } else { if x < 0x1f260 { 0 } else { if x < 0x1f266 { 1 } else { 0 } } } } else { if x < 0x1f6ed { if x < 0x1f6d8 { 1 } else { if x < 0x1f6dc { 0 } else { 1 } } } else { if x < 0x1f6f0 { 0 } else { if x < 0x1f6fd { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_58(x: int) -> int { if x < 0x1f850 { if x < 0x1f7f0 { if x < 0x1f7da { if x < 0x1f777 { 1 } else { if x < 0x1f77b { 0 } else { 1 } } } else { if x < 0x1f7e0 { 0 } else { if x < 0x1f7ec { 1 } else { 0 } } } } else { if x < 0x1f80c { if x < 0x1f7f1 { 1 } else { if x < 0x1f800 { 0 } else { 1 } } } else { if x < 0x1f810 { 0 } else { if x < 0x1f848 { 1 } else { 0 } } } } } else { if x < 0x1f8b0 { if x < 0x1f888 { if x < 0x1f85a { 1 } else { if x < 0x1f860 { 0 } else { 1 } } } else { if x < 0x1f890 { 0 } else { if x < 0x1f8ae { 1 } else { 0 } } } } else { if x < 0x1f8c2 { if x < 0x1f8bc { 1 } else { if x < 0x1f8c0 { 0 } else { 1 } } } else { if x < 0x1f900 { 0 } else { if x < 0x1fa54 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_59(x: int) -> int { if x < 0x1faf0 { if x < 0x1fa8f { if x < 0x1fa7d { if x < 0x1fa6e { 1 } else { if x < 0x1fa70 { 0 } else { 1 } } } else { if x < 0x1fa80 { 0 } else { if x < 0x1fa8a { 1 } else { 0 } } } } else { if x < 0x1fadd { if x < 0x1fac7 { 1 } else { if x < 0x1face { 0 } else { 1 } } } else { if x < 0x1fadf { 0 } else { if x < 0x1faea { 1 } else { 0 } } } } } else { if x < 0x20000 { if x < 0x1fb93 { if x < 0x1faf9 { 1 } else { if x < 0x1fb00 { 0 } else { 1 } } } else { if x < 0x1fb94 { 0 } else { if x < 0x1fbfa { 1 } else { 0 } } } } else { if x < 0x2b73a { if x < 0x2a6e0 { 1 } else { if x < 0x2a700 { 0 } else { 1 } } } else { if x < 0x2b740 { 0 } else { if x < 0x2b81e { 1 } else { 0 } } } } } }
pub open spec fn asg_tree_60(x: int) -> int { if x < 0x3134b { if x < 0x2ebf0 { if x < 0x2ceb0 { if x < 0x2cea2 { 1 } else { 0 } } else { if x < 0x2ebe1 { 1 } else { 0 } } } else { if x < 0x2f800 { if x < 0x2ee5e { 1 } else { 0 } } else { if x < 0x2fa1e { 1 } else { if x < 0x30000 { 0 } else { 1 } } } } } else { if x < 0xe0002 { if x < 0x323b0 { if x < 0x31350 { 0 } else { 1 } } else { if x < 0xe0001 { 0 } else { 1 } } } else { if x < 0xe0080 { if x < 0xe0020 { 0 } else { 1 } } else { if x < 0xe0100 { 0 } else { if x < 0xe01f0 { 1 } else { 0 } } } } } }
pub open spec fn asg_tree(x: int) -> int { if x < 0x104a0 { if x < 0x1380 { if x < 0xb92 { if x < 0x9e6 { if x < 0x600 { asg_tree_0(x) } else { if x < 0x985 { asg_tree_1(x) } else { asg_tree_2(x) } } } else { if x < 0xabc { if x < 0xa4b { asg_tree_3(x) } else { asg_tree_4(x) } } else { if x < 0xb32 { asg_tree_5(x) } else { asg_tree_6(x) } } } } else { if x < 0xdb3 { if x < 0xc66 { if x < 0xbe6 { asg_tree_7(x) } else { asg_tree_8(x) } } else { if x < 0xce6 { asg_tree_9(x) } else { asg_tree_10(x) } } } else { if x < 0xf71 { if x < 0xe84 { asg_tree_11(x) } else { asg_tree_12(x) } } else { if x < 0x1260 { asg_tree_13(x) } else { asg_tree_14(x) } } } } } else { if x < 0x2de0 { if x < 0x1bfc { if x < 0x17e0 { asg_tree_15(x) } else { if x < 0x1980 { asg_tree_16(x) } else { asg_tree_17(x) } } } else { if x < 0x2074 { if x < 0x1f5b { asg_tree_18(x) } else { asg_tree_19(x) } } else { if x < 0x2d2d { asg_tree_20(x) } else { asg_tree_21(x) } } } } else { if x < 0xfb13 { if x < 0xa8e0 { if x < 0xa490 { asg_tree_22(x) } else { asg_tree_23(x) } } else { if x < 0xab11 { asg_tree_24(x) } else { asg_tree_25(x) } } } else { if x < 0xfff9 { if x < 0xfe54 { asg_tree_26(x) } else { asg_tree_27(x) } } else { if x < 0x101a0 { asg_tree_28(x) } else { asg_tree_29(x) } } } } } } else { if x < 0x12f90 { if x < 0x11288 { if x < 0x10a05 { if x < 0x105bb { asg_tree_30(x) } else { if x < 0x1083c { asg_tree_31(x) } else { asg_tree_32(x) } } } else { if x < 0x10e60 { if x < 0x10b58 { asg_tree_33(x) } else { asg_tree_34(x) } } else { if x < 0x1107f { asg_tree_35(x) } else { asg_tree_36(x) } } } } else { if x < 0x118a0 { if x < 0x11390 { if x < 0x11335 { asg_tree_37(x) } else { asg_tree_38(x) } } else { if x < 0x11580 { asg_tree_39(x) } else { asg_tree_40(x) } } } else { if x < 0x11ca9 { if x < 0x11a00 { asg_tree_41(x) } else { asg_tree_42(x) } } else { if x < 0x11d93 { asg_tree_43(x) } else { asg_tree_44(x) } } } } } else { if x < 0x1e7e0 { if x < 0x1d129 { if x < 0x17000 { if x < 0x16b00 { asg_tree_45(x) } else { asg_tree_46(x) } } else { if x < 0x1bc00 { asg_tree_47(x) } else { asg_tree_48(x) } } } else { if x < 0x1d552 { if x < 0x1d4ae { asg_tree_49(x) } else { asg_tree_50(x) } } else { if x < 0x1e030 { asg_tree_51(x) } else { asg_tree_52(x) } } } } else { if x < 0x1f0b1 { if x < 0x1ee4d { if x < 0x1ee05 { asg_tree_53(x) } else { asg_tree_54(x) } } else { if x < 0x1ee74 { asg_tree_55(x) } else { asg_tree_56(x) } } } else { if x < 0x1fa60 { if x < 0x1f700 { asg_tree_57(x) } else { asg_tree_58(x) } } else { if x < 0x2b820 { asg_tree_59(x) } else { asg_tree_60(x) } } } } } } }
// leading nonstarters of the compatibility decomposition, for characters that decompose (14 intervals)
pub open spec fn lead_tree(x: int) -> int { if x < 0xf74 { if x < 0x343 { if x < 0x340 { 0 } else { if x < 0x342 { 1 } else { 0 } } } else { if x < 0x345 { if x < 0x344 { 1 } else { 2 } } else { if x < 0xf73 { 0 } else { 2 } } } } else { if x < 0xf81 { if x < 0xf75 { 0 } else { if x < 0xf76 { 2 } else { 0 } } } else { if x < 0xff9e { if x < 0xf82 { 2 } else { 0 } } else { if x < 0xffa0 { 1 } else { 0 } } } } }
} // verus!
