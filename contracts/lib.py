"""Shared specification helpers."""
from z3 import *
def usable(p):      # if-then-else and lambda terms may not occur in patterns
    st = [simplify(p)] if not isinstance(p, PatternRef) else list(simplify(c) for c in p.children())
    while st:
        t = st.pop()
        if is_quantifier(t): return False
        if is_app(t):
            if t.decl().kind() in (Z3_OP_ITE, Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_EQ, Z3_OP_IMPLIES, Z3_OP_LE, Z3_OP_GE): return False
            st.extend(t.children())
    return True
def fa(vs, body, *pats):
    vs = vs if isinstance(vs, list) else [vs]
    if pats and all(usable(p) for p in pats):
        try: return ForAll(vs, body, patterns=list(pats))
        except Z3Exception: pass
    return ForAll(vs, body)
def eqv(a, b): return a.e == b.e if hasattr(a, "e") and hasattr(b, "e") else a == b
def same(a, p, *fs): return And(*[eqv(getattr(p, f), getattr(a, f)) for f in fs])
