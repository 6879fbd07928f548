@@fn tables::composition_table_astral
    requires ($0 as int) >= 0x10000 || ($1 as int) >= 0x10000
    ensures $r == table_comp($0, $1)
@exit
    crate::tabproof::tab_comp_astral($0, $1);
    b_comp($0, $1);
@@fn tables::is_public_assigned
    ensures $r == public_assigned($0)
@entry
    proof { b_assigned($0); }
@@fn tables::stream_safe_leading_nonstarters
    requires has_dec(Kind::K, $0), !hangul($0)
    ensures $r == lead(dec(Kind::K, $0))
@exit
    crate::tabproof::counts($0);
@@fn tables::qc_nfc
    ensures $r is Yes ==> qc(Kind::C, true, $0) == 0, $r is No ==> qc(Kind::C, true, $0) == 1
@entry
    proof { b_qc($0); }
@@fn tables::qc_nfkc
    ensures $r is Yes ==> qc(Kind::K, true, $0) == 0, $r is No ==> qc(Kind::K, true, $0) == 1
@entry
    proof { b_qc($0); }
@@fn tables::qc_nfd
    ensures $r is Yes ==> qc(Kind::C, false, $0) == 0, $r is No ==> qc(Kind::C, false, $0) == 1, !($r is Maybe)
@entry
    proof { b_qc($0); }
@@fn tables::qc_nfkd
    ensures $r is Yes ==> qc(Kind::K, false, $0) == 0, $r is No ==> qc(Kind::K, false, $0) == 1, !($r is Maybe)
@entry
    proof { b_qc($0); }
