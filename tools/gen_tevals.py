#!/usr/bin/env python3
"""gen_tevals.py <tabs.rs> <out>: slices for the evaluation of the table checks, sized by the tables of the code."""
import re, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from evalgen import evals
def gen(tabs, ucd, out):
    N = {m[1]: int(m[2]) for m in re.finditer(r'spec fn N_(\w+)\(\) -> int \{ (\d+) \}', open(tabs).read())}
    U = {m[1]: int(m[2]) for m in re.finditer(r'spec fn (U_\w+)_n\(\) -> int \{ (\d+) \}', open(ucd).read())}
    T = [("cccA", U.get('U_ccc', 0), 100), ("cccB", N.get('CANONICAL_COMBINING_CLASS_KV', 0), 500),
         ("markA", U.get('U_mark', 0), 60), ("markB", N.get('COMBINING_MARK_KV', 0), 500),
         ("canonA", U.get('U_dec', 0), 500), ("canonB", N.get('CANONICAL_DECOMPOSED_KV', 0), 300),
         ("compatA", U.get('U_kec', 0), 500), ("compatB", N.get('COMPATIBILITY_DECOMPOSED_KV', 0), 300),
         ("cjkA", U.get('U_var', 0), 500), ("cjkB", N.get('CJK_COMPAT_VARIANTS_DECOMPOSED_KV', 0), 300),
         ("compA", U.get('U_comp', 0), 500), ("compB", N.get('COMPOSITION_TABLE_KV', 0), 300),
         ("trailA", U.get('U_dec', 0), 200), ("trailB", U.get('U_kec', 0), 200)]
    o = ["#![allow(unused_imports, dead_code, nonstandard_style)]"]
    for n, l, s in T: o.append(evals(n, l, s, "use crate::tabproof::*;"))
    open(out, 'w').write("\n".join(o) + "\n")
if __name__ == '__main__':
    gen(sys.argv[1], os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib', 'ucd.rs'), sys.argv[2])
