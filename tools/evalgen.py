"""Verus text that evaluates a check on every index of a table, in slices, with the interpreter."""
def evals(name, n, step, uses="use crate::data::*;", pred=None):
    pred = pred or "one_" + name
    o = []
    w = o.append
    w(f"pub mod {name} {{\nuse vstd::prelude::*;\n{uses}\nverus! {{")
    w(f"pub open spec fn chk(i: int, n: int) -> bool decreases n - i {{ if i >= n {{ true }} else {{ {pred}(i) && chk(i + 1, n) }} }}")
    w(f"proof fn at(i: int, n: int, j: int) requires chk(i, n), i <= j < n ensures {pred}(j) decreases n - i {{ if i < j {{ at(i + 1, n, j); }} }}")
    cuts = list(range(0, n, step))
    for c in cuts:
        e = min(c + step, n)
        w(f"#[verifier::spinoff_prover] proof fn ev_{c}() ensures chk({c}, {e}) {{ assert(chk({c}, {e})) by (compute_only); }}")
    w(f"pub proof fn all(j: int) requires 0 <= j < {n} ensures {pred}(j) {{")
    for c in cuts:
        e = min(c + step, n)
        w(f"  if {c} <= j < {e} {{ ev_{c}(); at({c}, {e}, j); }}")
    w("}\n} }")
    return "\n".join(o)
