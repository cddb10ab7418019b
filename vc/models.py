"""Models of the standard library, abseil, protobuf and threading primitives.

Everything in this file is trusted: it states what the external code does.
"""
import z3
from .mtypes import *
from .ast import strip_targs
from . import sym as S

MODEL_NS = ("std::", "absl::", "google::protobuf", "grpc::", "tsl::", "tensorflow::", "__gnu_cxx::", "snappy::", "Eigen::", "operator")
ITERS = ("seqiter", "riter", "mapiter", "listiter")
TINF = z3.IntVal(10 ** 30)

# ------------------------------------------------------------------ literals
_real_cache = {}
def real_lit(s):
    if s not in _real_cache:
        from fractions import Fraction
        try: _real_cache[s] = z3.RealVal(Fraction(float(s))) if s.lower() not in ("inf", "+inf", "-inf", "nan") else None
        except Exception: _real_cache[s] = None
        if _real_cache[s] is None:
            _real_cache[s] = z3.Const("DINF" if "nan" not in s.lower() else "DNAN", z3.RealSort())
            if s.startswith("-"): _real_cache[s] = -_real_cache[s]
    return _real_cache[s]
_strid = None
_strlits = {}
def str_fn():
    global _strid
    if _strid is None: _strid = z3.Function("str_id", MStr().sort(), z3.IntSort())
    return _strid
def str_len(e):
    return z3.Function("str_len", MStr().sort(), z3.IntSort())(e)
def str_lit(ex, s):
    c = z3.Const("str:" + s, MStr().sort())
    if s not in _strlits: _strlits[s] = len(_strlits) + 1
    ex.assume_once(str_fn()(c) == -_strlits[s])
    ex.assume_once(str_len(c) == len(s.encode()))
    return c
def isnan(e): return z3.Function("is_nan", z3.RealSort(), z3.BoolSort())(e)
def isinf(e): return z3.Function("is_inf", z3.RealSort(), z3.BoolSort())(e)

# ------------------------------------------------------------------ cardinality facts
def card_facts(ex, dom):
    e = z3.K(dom.sort().domain(), z3.BoolVal(False))
    ex.assume_once(card(e) == 0)
    ex.assume_once(card(dom) >= 0)
    if not dom.eq(e): ex.assume_once((card(dom) == 0) == (dom == e))
def card_member(ex, dom, k):
    ex.assume_once(card(dom) >= 0)
    ex.assume_once(z3.Implies(z3.Select(dom, k), card(dom) >= 1))
def card_insert(ex, dom, k):
    """facts about dom with k added"""
    n = z3.Store(dom, k, z3.BoolVal(True))
    ex.assume(card(z3.simplify(n)) == card(dom) + z3.If(z3.Select(dom, k), z3.IntVal(0), z3.IntVal(1)))
    card_member(ex, dom, k)
    return n
def card_remove(ex, dom, k):
    n = z3.Store(dom, k, z3.BoolVal(False))
    ex.assume(card(z3.simplify(n)) == card(dom) - z3.If(z3.Select(dom, k), z3.IntVal(1), z3.IntVal(0)))
    card_member(ex, dom, k)
    return n

def consumed(ex, A, vals):
    """arguments passed as std::move(x) to a library function that takes their value"""
    for a, v in zip(A, vals):
        if is_rvalue_ref(ex, None, a) and isinstance(v, (S.LocalLV, S.FieldLV, S.HeapLV, S.IndexLV, S.MapValLV)) and isinstance(v.mt, MT): ex.moved_from(v)
# ------------------------------------------------------------------ iterators
PyVal = S.PyVal; Z = S.Z; TempLV = S.TempLV
def it_begin(lv): return PyVal("seqiter", lv=lv, idx=z3.IntVal(0))
def iter_deref(ex, p):
    if p.kind == "seqiter":
        check_index(ex, p.lv, p.idx)
        return S.IndexLV(p.lv, p.idx)
    if p.kind == "riter":
        check_index(ex, p.lv, p.idx)
        return S.IndexLV(p.lv, p.idx)
    if p.kind == "mapiter":
        ex.obligation("iterator dereferenced at end()", z3.Not(p.end), ex.line, "safety"); ex.assume(z3.Not(p.end))
        if isinstance(p.lv.mt, MSet): return TempLV(Z(p.lv.mt.k, p.key), p.lv.mt.k)
        return S.PairLV(p.lv, p.key)
    if p.kind == "listiter":
        return S.ListNodeLV(p.lv, p.node)
    raise Unsupported("deref " + p.kind)
def iter_compare(ex, op, a, b):
    if isinstance(a, PyVal) and isinstance(b, PyVal) and a.kind == b.kind:
        if a.kind in ("seqiter", "riter"):
            x, y = (a.idx, b.idx) if a.kind == "seqiter" else (b.idx, a.idx)
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if a.kind == "mapiter":
            r = z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
            return r if op == "==" else z3.Not(r)
        if a.kind == "listiter":
            r = a.node == b.node
            return r if op == "==" else z3.Not(r)
        if a.kind == "nullopt": return z3.BoolVal(op == "==")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PyVal) and x.kind == "nullopt":
            v = ex.rv(y); h = ex.z(ex.field_of(v, "has", v.mt))
            return z3.Not(h) if op == "==" else h
        if isinstance(x, PyVal) and x.kind == "listiter" and isinstance(y, Z):
            r = x.node == y.e; return r if op == "==" else z3.Not(r)
        if isinstance(x, PyVal) and x.kind == "opaque": return ex.fresh(z3.BoolSort(), "opqcmp")
    raise Unsupported(f"comparison of {getattr(a,'kind',a)} and {getattr(b,'kind',b)}")
def havoc_iter(ex, v):
    if v.kind in ("seqiter", "riter"): return PyVal(v.kind, lv=v.lv, idx=ex.fresh(z3.IntSort(), "it"))
    if v.kind == "mapiter":
        r = PyVal("mapiter", lv=v.lv, key=ex.fresh(v.lv.mt.k.sort(), "itkey"), end=ex.fresh(z3.BoolSort(), "itend"))
        if getattr(v, "left", None) is not None:
            r.left = ex.fresh(v.left.sort(), "left"); none = z3.K(v.lv.mt.k.sort(), z3.BoolVal(False))
            ex.assume(z3.And(r.end == (r.left == none), z3.Implies(z3.Not(r.end), r.left[r.key])))
        return r
    if v.kind == "listiter": return PyVal("listiter", lv=v.lv, node=ex.fresh(z3.IntSort(), "itnode"))
    if v.kind in ("opaque", "func", "memfn", "nullopt"): return v
    raise Unsupported("loop modifies " + v.kind)
def map_next(ex, v):
    """the iterator after v: at some element not visited yet (`left`: the elements from v on), or at the end"""
    r = PyVal("mapiter", lv=v.lv, key=ex.fresh(v.lv.mt.k.sort(), "nextkey"), end=ex.fresh(z3.BoolSort(), "nextend"))
    if getattr(v, "left", None) is not None:
        r.left = z3.Store(v.left, v.key, z3.BoolVal(False)); none = z3.K(v.lv.mt.k.sort(), z3.BoolVal(False))
        ex.assume(z3.And(r.end == (r.left == none), z3.Implies(z3.Not(r.end), r.left[r.key])))
    return r
def check_index(ex, lv, i):
    s = ex.z(lv.read(ex), lv.mt)
    ok = z3.And(i >= 0, i < lv.mt.len(s))
    ex.obligation("index within bounds", ok, ex.line, "safety")
    ex.assume(ok)

# ------------------------------------------------------------------ helpers
def mname(n): return strip_targs(n["fn"]).split("::")[-1]
def clsname(ex, n):
    if "mcls" not in n: return ""
    return ex.ty(n["mcls"]).name
def is_model_class(ex, c):
    if c.startswith(MODEL_NS): return True
    if c.startswith(S.NS) and c[len(S.NS):] in ex.protos: return True
    return False
def obj_lv(ex, n):
    o = ex.eval(n["obj"])
    if n.get("arrow") or ex.ty(n["obj"]["t"]).k == "ptr":
        return ex.deref(ex.rv(o), ex.ty(n["obj"]["t"]))
    return as_lv(ex, o)
def as_lv(ex, o):
    if isinstance(o, S.LV): return o
    return TempLV(o, getattr(o, "mt", None))
def norm_lv(ex, lv):
    """lvalue with proto / container heap objects turned into plain cells"""
    if isinstance(lv, S.ObjLV):
        mt = lv.mt
        if not isinstance(mt, MRec) or mt.proto: return S.HeapLV("obj." + mt.name, lv.ref, mt)
    return lv
def arg(ex, n, i): return ex.rv(ex.eval(n["args"][i]))
def argz(ex, n, i, mt=None): return ex.z(arg(ex, n, i), mt)
def nargs(n): return len([a for a in n["args"] if a is not None])
def used(ex, name): ex.models_used.add(name)
def ret_mt(ex, n):
    t = ex.ty(n["t"])
    return ex.mt(t) if t.k != "void" else None
def fresh_ret(ex, n, base="opq"):
    t = ex.ty(n["t"])
    if t.k == "void": return None
    mt = ex.mt(t)
    v = ex.fresh_val(mt, base)
    return v
def uf(ex, name, args, mt):
    f = z3.Function(name, *[a.sort() for a in args], mt.sort())
    return ex.typed(Z(mt, f(*args)))

# ------------------------------------------------------------------ sequences
def seq_lit(mt, n, arr): return Z(mt, mt.mk(n, arr))
def lam_shift(arr, by, frm=None):
    """array a' with a'[i] = a[i+by] (from index frm on)"""
    i = z3.Const("si", z3.IntSort())
    body = z3.Select(arr, i + by) if frm is None else z3.If(i < frm, z3.Select(arr, i), z3.Select(arr, i + by))
    return z3.Lambda([i], body)
def lam_insert(arr, pos, val):
    i = z3.Const("si", z3.IntSort())
    return z3.Lambda([i], z3.If(i < pos, z3.Select(arr, i), z3.If(i == pos, val, z3.Select(arr, i - 1))))
def lam_concat(a, n, b, boff=0):
    i = z3.Const("si", z3.IntSort())
    return z3.Lambda([i], z3.If(i < n, z3.Select(a, i), z3.Select(b, i - n + boff)))
def lam_fill(arr, frm, val):
    i = z3.Const("si", z3.IntSort())
    return z3.Lambda([i], z3.If(i < frm, z3.Select(arr, i), val))
def seq_append(ex, lv, v):
    mt = lv.mt
    s = ex.z(lv.read(ex), mt)
    n = z3.simplify(mt.len(s))
    lv.write(ex, Z(mt, mt.mk(n + 1, z3.Store(mt.arr(s), n, ex.z(v, mt.el)))))
    return S.IndexLV(lv, n)
def conv(ex, v, mt, ty=None):
    """implicit conversion for emplace-like calls"""
    v = ex.rv(v)
    if isinstance(v, PyVal) and v.kind == "nullopt": return ex.default_of(mt)
    if isinstance(mt, MRec) and mt.name.startswith("Opt[") and not (isinstance(v, (Z, S.StructVal)) and isinstance(v.mt, MRec) and v.mt.name.startswith("Opt[")):
        return S.StructVal(mt, {"has": Z(MBool(), z3.BoolVal(True)), "value": conv(ex, v, mt.ft("value"))})
    if isinstance(mt, MRec) and mt.name.startswith("StatusOr["):
        if isinstance(v, Z) and isinstance(v.mt, MStatus): return S.StructVal(mt, {"code": v, "value": ex.fresh_val(mt.ft("value"))})
        if not (isinstance(v, (Z, S.StructVal)) and v.mt == mt): return S.StructVal(mt, {"code": Z(MStatus(), z3.IntVal(0)), "value": conv(ex, v, mt.ft("value"))})
    if isinstance(v, Z) and isinstance(mt, MRef) and isinstance(v.mt, MRef): return Z(mt, v.e)
    if isinstance(v, S.PtrLV) and isinstance(mt, MRef): return v
    if isinstance(v, Z): return Z(mt if not isinstance(v.mt, MRec) else v.mt, ex.z(v, mt)) if v.e.sort() != mt.sort() else v
    if isinstance(v, S.StructVal): return v.copy()
    return v
def construct(ex, mt, ty, args):
    """value of type ty built from constructor arguments (emplace, make_shared)"""
    if len(args) == 0: 
        if ty is not None and ty.k == "rec" and isinstance(mt, MRec) and not mt.proto:
            c = find_ctor(ex, ty, 0)
            if c is not None:
                tmp = TempLV(S.StructVal(mt, {}), mt); ex.run_ctor(c, [], S.PtrLV(tmp), ty); return tmp.v
            return ex.record_default(ty, mt)
        return ex.default_of(mt)
    if isinstance(mt, MRec) and ty is not None and not mt.proto and ty.name.startswith(S.NS):
        if len(args) == 1:
            v = ex.rv(args[0])
            if isinstance(v, (Z, S.StructVal)) and v.mt == mt: return v.copy() if isinstance(v, S.StructVal) else v
        c = find_ctor(ex, ty, len(args))
        if c is None: raise Unsupported(f"no constructor of {ty.s} with {len(args)} arguments")
        tmp = TempLV(S.StructVal(mt, {}), mt)
        ex.run_ctor(c, ex.bind_args(c, args, True), S.PtrLV(tmp), ty)
        return tmp.v
    if len(args) == 1: return conv(ex, args[0], mt, ty)
    if isinstance(mt, MSeq) and len(args) == 2:
        a = ex.rv(args[0])
        if isinstance(a, PyVal) and a.kind == "seqiter": return seq_range(ex, a, ex.rv(args[1]), mt)
        if isinstance(a, Z) and a.e.sort() == z3.IntSort():
            return Z(mt, mt.mk(a.e, z3.K(z3.IntSort(), ex.z(ex.rv(args[1]), mt.el))))
    if isinstance(mt, MRec) and len(args) == len(mt.fields):
        return S.StructVal(mt, {n: conv(ex, a, t) for (n, t), a in zip(mt.fields, args)})
    raise Unsupported(f"construct {mt} from {len(args)} arguments")
def find_ctor(ex, ty, n):
    r = ex.prog.records.get(ty.s)
    if r is None: return None
    base = strip_targs(ty.s).split("::")[-1]
    cands = []
    for u in ex.prog.units:
        for f in u.functions.values():
            if f.get("ctor") and u.ty(f["cls"]).s == ty.s and len(f["params"]) == n and f.get("body") is not None and not (n == 1 and u.ty(f["params"][0]["t"]).strip().s == ty.s):
                if f["usr"] not in [c["usr"] for c in cands]: cands.append(f)
    if len(cands) > 1: raise Unsupported(f"ambiguous constructor of {ty.s}")
    return cands[0] if cands else None
def seq_range(ex, a, b, mt):
    s = ex.z(a.lv.read(ex), a.lv.mt)
    if a.kind == "riter":
        i = z3.Const("si", z3.IntSort())
        n = a.idx - b.idx
        return Z(mt, mt.mk(z3.simplify(n), z3.Lambda([i], z3.Select(a.lv.mt.arr(s), a.idx - i))))
    n = z3.simplify(b.idx - a.idx)
    if z3.is_int_value(a.idx) and a.idx.as_long() == 0: return Z(mt, mt.mk(n, a.lv.mt.arr(s)))
    return Z(mt, mt.mk(n, lam_shift(a.lv.mt.arr(s), a.idx)))

def seq_method(ex, lv, name, n):
    mt = lv.mt
    s = ex.z(lv.read(ex), mt)
    ln = z3.simplify(mt.len(s)); arr = mt.arr(s)
    ex.assume_once(ln >= 0)
    A = [a for a in n["args"] if a is not None and not (a["k"] == "ctor" and "allocator" in a.get("fn", ""))]
    I = lambda e: Z(MInt(64, False), e)
    if name in ("size", "length", "max_size"): return I(ln) if ex.ty(n["t"]).d.get("bits") != 32 else Z(MInt(32, True), ln)
    if name == "empty": return Z(MBool(), ln == 0)
    if name in ("reserve", "shrink_to_fit", "Reserve"):
        if name == "reserve" and A: ex.reserved.append((ln, argz(ex, n, 0)))      # capacity requested of a sequence, for contracts that rely on it
        return None
    if name in ("capacity", "Capacity"): 
        v = ex.fresh(z3.IntSort(), "cap"); ex.assume(v >= ln); return I(v)
    if name in ("clear", "Clear"): lv.write(ex, Z(mt, mt.empty())); return None
    if name in ("push_back", "push", "PushBack", "emplace_back", "emplace", "AddAlreadyReserved") or (name == "Add"):
        if name == "emplace" and not isinstance(lv.mt, MSeq): raise Unsupported("emplace")
        vals = [ex.eval(a) for a in A]
        ety = None
        v = construct(ex, mt.el, elem_ty(ex, n, lv), vals)
        consumed(ex, A, vals)
        r = seq_append(ex, lv, v)
        if name == "Add" and not A: return S.PtrLV(r)
        return r if name == "emplace_back" else None
    if name in ("front", "back", "Get", "at", "operator[]", "Mutable", "first"):
        pass
    if name == "front":
        check_index(ex, lv, z3.IntVal(0)); return S.IndexLV(lv, z3.IntVal(0))
    if name == "back":
        check_index(ex, lv, z3.simplify(ln - 1)); return S.IndexLV(lv, z3.simplify(ln - 1))
    if name in ("Get", "at", "operator[]", "Mutable"):
        i = ex.evz(A[0]); check_index(ex, lv, i)
        r = S.IndexLV(lv, z3.simplify(i))
        return S.PtrLV(r) if name == "Mutable" else r
    if name in ("pop_back", "RemoveLast"):
        check_index(ex, lv, z3.simplify(ln - 1)); lv.write(ex, Z(mt, mt.mk(z3.simplify(ln - 1), arr))); return None
    if name in ("pop_front", "pop"):
        check_index(ex, lv, z3.IntVal(0)); lv.write(ex, Z(mt, mt.mk(z3.simplify(ln - 1), lam_shift(arr, 1)))); return None
    if name in ("push_front", "emplace_front"):
        v = construct(ex, mt.el, elem_ty(ex, n, lv), [ex.eval(a) for a in A])
        lv.write(ex, Z(mt, mt.mk(z3.simplify(ln + 1), lam_insert(arr, z3.IntVal(0), ex.z(v, mt.el))))); return None
    if name in ("begin", "cbegin"): return PyVal("seqiter", lv=lv, idx=z3.IntVal(0))
    if name in ("end", "cend"): return PyVal("seqiter", lv=lv, idx=ln)
    if name in ("rbegin", "crbegin"): return PyVal("riter", lv=lv, idx=z3.simplify(ln - 1))
    if name in ("rend", "crend"): return PyVal("riter", lv=lv, idx=z3.IntVal(-1))
    if name in ("data", "mutable_data"): return S.PtrLV(S.IndexLV(lv, z3.IntVal(0)))
    if name in ("resize", "Resize"):
        k = ex.evz(A[0])
        dv = ex.rv(ex.eval(A[1])) if len(A) > 1 else (ex.default_of(mt.el) if not isinstance(mt.el, MRec) or mt.el.proto else ex.record_default(elem_ty(ex, n, lv), mt.el))
        na = lam_fill(arr, ln, ex.z(dv, mt.el)) 
        lv.write(ex, Z(mt, mt.mk(z3.simplify(k), na))); return None
    if name == "swap":
        o = as_lv(ex, ex.eval(A[0])); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
    if name in ("Swap", "UnsafeArenaSwap"):
        o = ex.deref(ex.rv(ex.eval(A[0]))); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); norm_lv(ex, o).write(ex, a); return None
    if name == "SwapElements":
        i, j = ex.evz(A[0]), ex.evz(A[1]); check_index(ex, lv, i); check_index(ex, lv, j)
        lv.write(ex, Z(mt, mt.mk(ln, z3.Store(z3.Store(arr, i, z3.Select(arr, j)), j, z3.Select(arr, i))))); return None
    if name == "erase":
        it = ex.rv(ex.eval(A[0]))
        if len(A) == 1:
            check_index(ex, lv, it.idx)
            lv.write(ex, Z(mt, mt.mk(z3.simplify(ln - 1), lam_shift(arr, 1, it.idx))))
            return PyVal("seqiter", lv=lv, idx=it.idx)
        it2 = ex.rv(ex.eval(A[1]))
        ok = z3.And(it.idx >= 0, it.idx <= it2.idx, it2.idx <= ln)
        ex.obligation("erase range within bounds", ok, ex.line, "safety"); ex.assume(ok)
        k = z3.simplify(it2.idx - it.idx)
        na = arr if z3.is_true(z3.simplify(it2.idx == ln)) else lam_shift(arr, k, it.idx)
        lv.write(ex, Z(mt, mt.mk(z3.simplify(ln - k), na)))
        return PyVal("seqiter", lv=lv, idx=it.idx)
    if name == "insert":
        it = ex.rv(ex.eval(A[0]))
        if len(A) == 2:
            v = ex.rv(ex.eval(A[1]))
            lv.write(ex, Z(mt, mt.mk(ln + 1, lam_insert(arr, it.idx, ex.z(v, mt.el)))))
            return PyVal("seqiter", lv=lv, idx=it.idx)
        b, e = ex.rv(ex.eval(A[1])), ex.rv(ex.eval(A[2]))
        if isinstance(b, PyVal) and b.kind == "seqiter" and z3.is_true(z3.simplify(it.idx == ln)):
            src = ex.z(b.lv.read(ex), b.lv.mt)
            k = z3.simplify(e.idx - b.idx)
            lv.write(ex, Z(mt, mt.mk(z3.simplify(ln + k), lam_concat(arr, ln, b.lv.mt.arr(src), b.idx))))
            return PyVal("seqiter", lv=lv, idx=it.idx)
        raise Unsupported("range insert")
    if name in ("assign",):
        if len(A) == 2:
            a, b = ex.rv(ex.eval(A[0])), ex.rv(ex.eval(A[1]))
            if isinstance(a, PyVal): lv.write(ex, seq_range(ex, a, b, mt)); return None
            lv.write(ex, Z(mt, mt.mk(a.e, z3.K(z3.IntSort(), ex.z(b, mt.el))))); return None
    if name in ("CopyFrom", "operator=", "MergeFrom"):
        if name == "MergeFrom":
            o = ex.rv(ex.eval(A[0])); lv.write(ex, Z(mt, mt.mk(ln + o.mt.len(o.e), lam_concat(arr, ln, o.mt.arr(o.e))))); return None
        lv.write(ex, ex.rv(ex.eval(A[0]))); return lv
    if name in ("subspan",):
        p = ex.evz(A[0]); k = ex.evz(A[1]) if len(A) > 1 else z3.simplify(ln - p)
        if len(A) > 1:
            k = z3.simplify(z3.If(k < ln - p, k, ln - p))
        ok = z3.And(p >= 0, p <= ln)
        ex.obligation("subspan within bounds", ok, ex.line, "safety"); ex.assume(ok)
        if z3.is_int_value(p) and p.as_long() == 0: return Z(mt, mt.mk(k, arr))
        return Z(mt, mt.mk(k, lam_shift(arr, p)))
    if name == "first":
        return Z(mt, mt.mk(ex.evz(A[0]), arr))
    if name == "ExtractSubrange": raise Unsupported("ExtractSubrange")
    raise Unsupported(f"sequence method {name}")
def elem_ty(ex, n, lv):
    if "mcls" in n:
        a = ex.ty(n["mcls"]).args
        if a and hasattr(a[0], "k"): return a[0]
    return None

# ------------------------------------------------------------------ maps and sets
def map_dom(mt, e): return z3.simplify(mt.dom(e)) if isinstance(mt, MMap) else e
def _string_of(A):
    """the string s when the arguments are s.data(), s.size()"""
    core = lambda n: core(n["e"]) if isinstance(n, dict) and n.get("k") in ("mat", "cast", "paren", "clean") and "e" in n else n
    a = [core(x) for x in A]
    if len(a) != 2 or any(x.get("k") != "mcall" or not x.get("fn", "").startswith("std::basic_string") for x in a): return None
    if a[0]["fn"].rsplit("::", 1)[-1] not in ("data", "c_str") or a[1]["fn"].rsplit("::", 1)[-1] not in ("size", "length"): return None
    o = [core(x["obj"]) for x in a]
    return o[0] if all(x.get("k") == "var" for x in o) and o[0]["id"] == o[1]["id"] else None
def map_set_dom(ex, lv, dom):
    mt = lv.mt
    if isinstance(mt, MSet): lv.write(ex, Z(mt, dom)); return
    m = ex.z(lv.read(ex), mt)
    lv.write(ex, Z(mt, mt.mk(dom, mt.val(m))))
def map_method(ex, lv, name, n):
    mt = lv.mt
    m = ex.z(lv.read(ex), mt)
    dom = map_dom(mt, m)
    A = n["args"]
    card_facts(ex, dom)
    def keyarg(i=0):
        k = ex.evz(A[i], mt.k); return z3.simplify(k)
    if name == "size": return Z(MInt(64, False), card(dom))
    if name == "empty": return Z(MBool(), dom == z3.K(mt.k.sort(), z3.BoolVal(False)))
    if name in ("reserve", "rehash"): return None
    if name == "clear":
        lv.write(ex, Z(mt, mt.empty())); card_facts(ex, map_dom(mt, mt.empty())); return None
    if name in ("contains",): 
        k = keyarg(); card_member(ex, dom, k); return Z(MBool(), z3.Select(dom, k))
    if name == "count":
        k = keyarg(); card_member(ex, dom, k); return Z(MInt(64, False), z3.If(z3.Select(dom, k), z3.IntVal(1), z3.IntVal(0)))
    if name == "find":
        k = keyarg(); card_member(ex, dom, k)
        return PyVal("mapiter", lv=lv, key=k, end=z3.simplify(z3.Not(z3.Select(dom, k))))
    if name in ("end", "cend"): return PyVal("mapiter", lv=lv, key=ex.fresh(mt.k.sort(), "endkey"), end=z3.BoolVal(True))
    if name in ("begin", "cbegin"):
        k = ex.fresh(mt.k.sort(), "first"); ex.typed(Z(mt.k, k))
        em = dom == z3.K(mt.k.sort(), z3.BoolVal(False))
        ex.assume(z3.Implies(z3.Not(em), z3.Select(dom, k)))
        return PyVal("mapiter", lv=lv, key=k, end=z3.simplify(em), left=dom)
    if name == "at":
        k = keyarg()
        ex.obligation("map::at finds the key", z3.Select(dom, k), ex.line, "safety"); ex.assume(z3.Select(dom, k))
        return S.MapValLV(lv, k)
    if name == "operator[]":
        k = keyarg()
        if not z3.is_true(z3.simplify(z3.Select(dom, k))):
            had = z3.Select(dom, k)
            nd = card_insert(ex, dom, k)
            dflt = ex.z(ex.default_of(mt.v), mt.v)
            nv = z3.Store(mt.val(m), k, z3.If(had, z3.Select(mt.val(m), k), dflt))
            lv.write(ex, Z(mt, mt.mk(nd, nv)))
        return S.MapValLV(lv, k)
    if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if isinstance(mt, MSet):
            v0 = ex.rv(ex.eval(A[0]))
            if isinstance(v0, PyVal) and v0.kind == "seqiter":
                raise Unsupported("range insert into set")
            k = z3.simplify(ex.z(v0, mt.k)); had = z3.simplify(z3.Select(dom, k))
            nd = card_insert(ex, dom, k)
            lv.write(ex, Z(mt, nd))
        else:
            if name == "insert" or len(A) == 1:
                p = ex.rv(ex.eval(A[0]))
                if isinstance(p, PyVal): raise Unsupported("range insert into map")
                k = z3.simplify(ex.z(ex.field_of(p, "first", p.mt), mt.k)); v = ex.field_of(p, "second", p.mt)
            else:
                k = keyarg(); v = construct(ex, mt.v, map_val_ty(ex, n), [ex.eval(a) for a in A[1:]])
                m = ex.z(lv.read(ex), mt); dom = map_dom(mt, m)
            had = z3.simplify(z3.Select(dom, k))
            nd = card_insert(ex, dom, k)
            zv = ex.z(v, mt.v)
            if name != "insert_or_assign" and not z3.is_false(had) and ex.feasible(had):
                nv = z3.Store(mt.val(m), k, z3.If(had, z3.Select(mt.val(m), k), zv))
            else: nv = z3.Store(mt.val(m), k, zv)
            lv.write(ex, Z(mt, mt.mk(nd, z3.simplify(nv))))
        it = PyVal("mapiter", lv=lv, key=k, end=z3.BoolVal(False))
        return PyVal("inserted", it=it, ok=z3.simplify(z3.Not(had)), mt=None)
    if name == "erase":
        v = ex.rv(ex.eval(A[0]))
        if isinstance(v, PyVal) and v.kind == "mapiter":
            if len(A) > 1: raise Unsupported("range erase")
            ex.obligation("erase of a valid iterator", z3.And(z3.Not(v.end), z3.Select(dom, v.key)), ex.line, "safety")
            ex.assume(z3.And(z3.Not(v.end), z3.Select(dom, v.key)))
            map_set_dom(ex, lv, card_remove(ex, dom, v.key)); 
            return map_next(ex, v)
        k = z3.simplify(ex.z(v, mt.k))
        had = z3.Select(dom, k)
        map_set_dom(ex, lv, card_remove(ex, dom, k))
        return Z(MInt(64, False), z3.If(had, z3.IntVal(1), z3.IntVal(0)))
    if name == "extract": raise Unsupported("extract")
    if name == "swap":
        o = as_lv(ex, ex.eval(A[0])); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
    raise Unsupported(f"map method {name}")
def map_val_ty(ex, n):
    t = ex.ty(n["mcls"])
    a = t.args
    if t.name.endswith("raw_hash_set") and a and hasattr(a[0], "args"):
        b = a[0].args
        if len(b) > 1: return b[1]
    if len(a) > 1 and hasattr(a[1], "k"): return a[1]
    return None

# ------------------------------------------------------------------ lists
def list_method(ex, lv, name, n):
    mt = lv.mt; l = ex.z(lv.read(ex), mt); A = n["args"]
    g = lambda f: z3.simplify(mt.get(l, f))
    mem = g("mem"); card_facts(ex, mem)
    if name == "size": return Z(MInt(64, False), card(mem))
    if name == "empty": return Z(MBool(), mem == z3.K(z3.IntSort(), z3.BoolVal(False)))
    if name == "clear": lv.write(ex, Z(mt, mt.empty())); card_facts(ex, z3.K(z3.IntSort(), z3.BoolVal(False))); return None
    if name in ("push_back", "push_front", "emplace_back", "emplace_front", "emplace", "insert"):
        at_end = name in ("push_back", "emplace_back")
        if name in ("emplace", "insert"):
            it = ex.rv(ex.eval(A[0]))
            if isinstance(it, PyVal) and it.kind == "listiter" and getattr(it, "role", None) in ("begin", "end"):
                at_end = it.role == "end"
            else: raise Unsupported("list insertion at an arbitrary position")
            vals = [ex.eval(a) for a in A[1:]]
        else: vals = [ex.eval(a) for a in A]
        v = construct(ex, mt.el, None, vals)
        node = g("nxt")
        ex.assume_once(node > 0)
        p = z3.simplify(g("hi") + 1 if at_end else g("lo") - 1)
        nm = card_insert(ex, mem, node)
        lv.write(ex, Z(mt, mt.upd(l, mem=nm, val=z3.Store(g("val"), node, ex.z(v, mt.el)), pos=z3.Store(g("pos"), node, p),
                                  **({"hi": p} if at_end else {"lo": p}), nxt=z3.simplify(node + 1))))
        if name in ("emplace", "insert"): return PyVal("listiter", lv=lv, node=node)
        return S.ListNodeLV(lv, node) if name.startswith("emplace") else None
    if name in ("front", "back", "begin", "end", "cbegin", "cend"):
        em = mem == z3.K(z3.IntSort(), z3.BoolVal(False))
        if name in ("end", "cend"): return PyVal("listiter", lv=lv, node=z3.IntVal(0), role="end")
        nd = ex.fresh(z3.IntSort(), "node"); x = z3.Const("ln", z3.IntSort())
        if name == "back": ext = z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.Select(g("pos"), x) <= z3.Select(g("pos"), nd)), patterns=[z3.Select(mem, x)])
        else: ext = z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.Select(g("pos"), x) >= z3.Select(g("pos"), nd)), patterns=[z3.Select(mem, x)])
        if name in ("front", "back"):
            ex.obligation("list not empty", z3.Not(em), ex.line, "safety"); ex.assume(z3.Not(em))
            ex.assume(z3.Select(mem, nd)); ex.assume(ext)
            return S.ListNodeLV(lv, nd)
        ex.assume(z3.If(em, nd == 0, z3.And(z3.Select(mem, nd), ext, nd > 0)))
        return PyVal("listiter", lv=lv, node=nd, role="begin")
    if name in ("pop_front", "pop_back"):
        r = list_method(ex, lv, "front" if name == "pop_front" else "back", n)
        lv.write(ex, Z(mt, mt.upd(l, mem=card_remove(ex, mem, r.node)))); return None
    if name == "erase":
        it = ex.rv(ex.eval(A[0])); node = it.node if isinstance(it, PyVal) else it.e
        ex.obligation("erase of a valid list iterator", z3.Select(mem, node), ex.line, "safety"); ex.assume(z3.Select(mem, node))
        lv.write(ex, Z(mt, mt.upd(l, mem=card_remove(ex, mem, node))))
        return PyVal("listiter", lv=lv, node=ex.fresh(z3.IntSort(), "node"))
    raise Unsupported(f"list method {name}")

# ------------------------------------------------------------------ protobuf messages
def proto_method(ex, lv, name, n, ptrobj):
    lv = norm_lv(ex, lv)
    mt = lv.mt
    if not isinstance(mt, MRec): raise Unsupported(f"protobuf message {mt}")
    A = n["args"]
    F = lambda f: S.FieldLV(lv, f, ex)
    def oneof_of(f):
        m = ex.protos.get(mt.proto)
        if m is None: return None, None
        for x in m["fields"]:
            if x["name"] == f and x["oneof"]: return x["oneof"], x["num"]
        return None, None
    def mark(f):
        if mt.has("has_" + f): F("has_" + f).write(ex, Z(MBool(), z3.BoolVal(True)))
        o, num = oneof_of(f)
        if o: F(o + "_case").write(ex, Z(MInt(32, True), z3.IntVal(num)))
    # plain getter
    if mt.has(name) and not name.endswith("_case"):
        ft = mt.ft(name)
        if isinstance(ft, MSeq) and len(A) == 1:
            i = ex.evz(A[0]); check_index(ex, F(name), i); return S.IndexLV(F(name), i)
        return F(name)
    if name.endswith("_case") and mt.has(name): return F(name).read(ex)
    for pre in ("set_allocated_", "unsafe_arena_set_allocated_", "set_", "mutable_", "add_", "clear_", "has_", "release_", "unsafe_arena_release_"):
        if name.startswith(pre) and mt.has(name[len(pre):]):
            f = name[len(pre):]; ft = mt.ft(f)
            if pre == "has_": 
                if mt.has(name): return F(name).read(ex)
                o, num = oneof_of(f)
                return Z(MBool(), F(o + "_case").read(ex).e == num)
            if pre == "set_":
                if isinstance(ft, MSeq):
                    i = ex.evz(A[0]); check_index(ex, F(f), i)
                    ex.assign(S.IndexLV(F(f), i), ex.rv(ex.eval(A[1]))); return None
                if isinstance(ft, MStr):
                    whole = _string_of(A)
                    v = ex.rv(ex.eval(whole if whole is not None else A[0]))
                    if whole is not None: A = A[:1]
                    if not (isinstance(v, Z) and isinstance(v.mt, MStr)) or len(A) > 1: v = ex.fresh_val(ft, "str")
                else:
                    v = ex.rv(ex.eval(A[0]))
                    if isinstance(v, Z) and not isinstance(ft, (MOpaque,)): v = Z(ft, ex.z(v, ft))
                F(f).write(ex, v); mark(f); return None
            if pre == "mutable_":
                mark(f)
                if isinstance(ft, MSeq) and len(A) == 1:
                    i = ex.evz(A[0]); check_index(ex, F(f), i); return S.PtrLV(S.IndexLV(F(f), i))
                return S.PtrLV(F(f))
            if pre == "add_":
                if A: 
                    v = ex.rv(ex.eval(A[0])); seq_append(ex, F(f), Z(ft.el, ex.z(v, ft.el))); return None
                return S.PtrLV(seq_append(ex, F(f), ex.default_of(ft.el)))
            if pre == "clear_":
                F(f).write(ex, Z(ft, ex.z(ex.default_of(ft), ft)))
                if mt.has("has_" + f): F("has_" + f).write(ex, Z(MBool(), z3.BoolVal(False)))
                o, num = oneof_of(f)
                if o: F(o + "_case").write(ex, Z(MInt(32, True), z3.IntVal(0)))
                return None
            if pre in ("release_", "unsafe_arena_release_") and not isinstance(ft, MSeq):
                F(f).write(ex, Z(ft, ex.z(ex.default_of(ft), ft)))
                if mt.has("has_" + f): F("has_" + f).write(ex, Z(MBool(), z3.BoolVal(False)))
                return None         # only used as a statement
            if pre in ("set_allocated_", "unsafe_arena_set_allocated_"):
                p = ex.rv(ex.eval(A[0])); F(f).write(ex, norm_lv(ex, ex.deref(p)).read(ex)); mark(f); return None
            raise Unsupported(f"protobuf {name}")
    if name.endswith("_size") and mt.has(name[:-5]): return Z(MInt(32, True), ex.z(F(name[:-5] + "").read(ex).mt.len(F(name[:-5]).read(ex).e) if False else Z(MInt(32, True), mt.ft(name[:-5]).len(ex.z(F(name[:-5]).read(ex), mt.ft(name[:-5]))))))
    if name == "Clear": lv.write(ex, Z(mt, ex.z(ex.default_of(mt), mt))); return None
    if name in ("CopyFrom", "operator="):
        lv.write(ex, ex.rv(ex.eval(A[0]))); return lv
    if name == "Swap":
        o = norm_lv(ex, ex.deref(ex.rv(ex.eval(A[0])))); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
    if name in ("ByteSizeLong", "SpaceUsedLong"):
        v = uf(ex, f"{name}_{san(mt.name)}", [ex.z(lv.read(ex), mt)], MInt(64, False)); ex.assume_once(v.e >= 0); return v
    if name in ("DebugString", "ShortDebugString", "SerializeAsString"): return ex.fresh_val(MStr(), "dbg")
    if name in ("GetArena", "default_instance"): return fresh_ret(ex, n)
    raise Unsupported(f"protobuf method {mt.name}::{name}")

# ------------------------------------------------------------------ calls
STATUS = {"OkStatus": 0, "CancelledError": 1, "UnknownError": 2, "InvalidArgumentError": 3, "DeadlineExceededError": 4, "NotFoundError": 5,
          "AlreadyExistsError": 6, "PermissionDeniedError": 7, "ResourceExhaustedError": 8, "FailedPreconditionError": 9, "AbortedError": 10,
          "OutOfRangeError": 11, "UnimplementedError": 12, "InternalError": 13, "UnavailableError": 14, "DataLossError": 15, "UnauthenticatedError": 16}
ISSTATUS = {"Is" + k.replace("Error", ""): v for k, v in STATUS.items() if v}

def stat(c): return Z(MStatus(), z3.IntVal(c) if isinstance(c, int) else c)

def call(ex, n):
    full = strip_targs(n["fn"]); name = full.split("::")[-1]
    if ex.specs.lookup(full, n, ex) is not None: return NotImplemented
    if "noreturn" in n and full in ("abort", "std::abort", "std::terminate", "exit"):
        ex.check_abort(z3.BoolVal(False), ex.line); raise S.PathEnd()
    if name.startswith("Check_") and name.endswith("Impl") and full.startswith(S.NS):
        op = {"EQ": "==", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">="}[name[6:8]]
        a, b = arg(ex, n, 0), arg(ex, n, 1)
        return PyVal("check", cond=ex.compare(op, a, b))
    custom = ex.specs.call_models.get(full)
    if custom is not None:
        used(ex, full); r = custom(ex, n)
        if r is not NotImplemented: return r
    if full == "__builtin_expect": return ex.eval(n["args"][0])
    if full in ("tsl::Status::OK", "tsl::OkStatus", "tensorflow::OkStatus", "tensorflow::Status::OK"): return stat(0)
    if full.startswith(("tsl::errors::", "tensorflow::errors::")):
        used(ex, full)
        if name + "Error" in STATUS: return stat(STATUS[name + "Error"])
        if name in ISSTATUS: return Z(MBool(), argz(ex, n, 0) == ISSTATUS[name])
    if not full.startswith(MODEL_NS) and "::" in full: return NotImplemented
    if full.startswith("tensorflow::"):
        from . import tf
        return tf.call(ex, n, full, name)
    used(ex, full)
    if full.startswith("absl::") and name in STATUS: return stat(STATUS[name])
    if full.startswith("absl::") and name in ISSTATUS: return Z(MBool(), argz(ex, n, 0) == ISSTATUS[name])
    if name in ("StrCat", "StrJoin", "StrFormat", "Substitute", "to_string", "FormatDuration", "FormatTime", "CEscape", "Hex", "StrReplaceAll"): return ex.fresh_val(MStr(), "str")
    if name in ("StrAppend", "StrAppendFormat"): 
        lv = ex.deref(ex.rv(ex.eval(n["args"][0]))); lv = norm_lv(ex, lv); lv.write(ex, ex.fresh_val(MStr(), "str")); return None
    if name in ("move", "forward", "as_const", "forward_like", "ref", "cref", "launder"):
        return ex.eval(n["args"][0])
    if name in ("addressof",): return ex.addr_of(as_lv(ex, ex.eval(n["args"][0])))
    if name in ("make_const_array_span", "MakeConstSpan", "MakeSpan", "MakeArraySlice"):
        if len(n["args"]) == 1: return ex.rv(ex.eval(n["args"][0]))
    if full == "absl::Now":
        t = ex.fresh(z3.IntSort(), "now"); ex.assume(t >= ex.now); ex.assume(t < TINF); ex.now = t; return Z(MTime(), t)
    if name in ("InfiniteDuration", "InfiniteFuture"): return Z(MTime(), TINF)
    if name == "InfinitePast": return Z(MTime(), -TINF)
    if name == "ZeroDuration": return Z(MTime(), z3.IntVal(0))
    if name in ("Milliseconds", "Seconds", "Microseconds", "Nanoseconds", "Minutes", "Hours"):
        k = {"Milliseconds": 10 ** 6, "Seconds": 10 ** 9, "Microseconds": 10 ** 3, "Nanoseconds": 1, "Minutes": 60 * 10 ** 9, "Hours": 3600 * 10 ** 9}[name]
        v = arg(ex, n, 0)
        return Z(MTime(), v.e * k if v.e.sort() == z3.IntSort() else z3.ToInt(v.e * k))
    if name in ("ToInt64Milliseconds", "ToInt64Seconds", "ToInt64Microseconds", "ToInt64Nanoseconds"):
        k = {"ToInt64Milliseconds": 10 ** 6, "ToInt64Seconds": 10 ** 9, "ToInt64Microseconds": 10 ** 3, "ToInt64Nanoseconds": 1}[name]
        return Z(MInt(64, True), argz(ex, n, 0) / k)
    if name in ("ToUnixNanos", "ToUnixMicros", "ToUnixMillis", "ToUnixSeconds") and full.startswith("absl::"):      # times are nanoseconds; infinities saturate
        v = argz(ex, n, 0) / {"ToUnixNanos": 1, "ToUnixMicros": 10 ** 3, "ToUnixMillis": 10 ** 6, "ToUnixSeconds": 10 ** 9}[name]
        lo, hi = MInt(64, True).rng()
        return Z(MInt(64, True), z3.If(v < lo, lo, z3.If(v > hi, hi, v)))
    if name in ("FromUnixNanos", "FromUnixMicros", "FromUnixMillis", "FromUnixSeconds") and full.startswith("absl::"):
        return Z(MTime(), argz(ex, n, 0) * {"FromUnixNanos": 1, "FromUnixMicros": 10 ** 3, "FromUnixMillis": 10 ** 6, "FromUnixSeconds": 10 ** 9}[name])
    if name in ("ToDoubleSeconds", "ToDoubleMilliseconds"): return fresh_ret(ex, n)
    if name in ("min", "max") and full.startswith("std::") and len(n["args"]) == 2:
        a, b = arg(ex, n, 0), arg(ex, n, 1)
        x, y = a.e, b.e
        return Z(a.mt, z3.If(x <= y, x, y) if name == "min" else z3.If(x >= y, x, y))
    if full in ("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest"):
        mt = ret_mt(ex, n)
        if isinstance(mt, MInt): return Z(mt, z3.IntVal(mt.rng()[1 if name == "max" else 0]))
        c = z3.Const("DMAX", z3.RealSort()); ex.assume_once(c > 0)
        if name == "min": raise Unsupported("numeric_limits<double>::min")
        return Z(mt, c if name == "max" else -c)
    if full in ("std::numeric_limits::infinity",):
        return Z(MReal(), real_lit("inf"))
    if full in ("std::numeric_limits::quiet_NaN",): return Z(MReal(), real_lit("nan"))
    if name in ("abs", "fabs") and len(n["args"]) == 1:
        v = arg(ex, n, 0); return Z(v.mt, z3.If(v.e >= 0, v.e, -v.e))
    if name in ("isnan",): return Z(MBool(), isnan(argz(ex, n, 0, MReal())))
    if name in ("isinf",): return Z(MBool(), isinf(argz(ex, n, 0, MReal())))
    if name in ("isfinite",): return Z(MBool(), z3.Not(z3.Or(isinf(argz(ex, n, 0, MReal())), isnan(argz(ex, n, 0, MReal())))))
    if name in ("floor",) : return Z(MReal(), z3.ToReal(z3.ToInt(argz(ex, n, 0, MReal()))))
    if name in ("ceil",) : return Z(MReal(), z3.ToReal(-z3.ToInt(-argz(ex, n, 0, MReal()))))
    if name == "pow" and len(n["args"]) == 2:
        b, e = [z3.simplify(argz(ex, n, q, MReal())) for q in (0, 1)]
        if z3.is_rational_value(b) and z3.is_rational_value(e) and e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() < 64:
            return Z(MReal(), z3.simplify(b ** e.numerator_as_long()) if e.numerator_as_long() else z3.RealVal(1))
    if name in ("pow", "sqrt", "log", "exp", "round", "log2") :
        return Z(MReal(), z3.Function("fn_" + name, *[z3.RealSort()] * (len(n["args"]) + 1))(*[argz(ex, n, i, MReal()) for i in range(len(n["args"]))]))
    if full == "absl::Uniform":
        A = n["args"]; lo, hi = arg(ex, n, -2), arg(ex, n, -1)
        mt = ret_mt(ex, n)
        r = ex.fresh(mt.sort(), "rand")
        l, h = ex.z(lo, mt), ex.z(hi, mt)
        if isinstance(mt, MInt):
            ex.obligation("random range is not empty", l < h, ex.line, "safety"); ex.assume(l < h)
        closed = "IntervalClosedClosed" in str(ex.ty(A[0]["t"]).s)
        ex.assume(z3.And(r >= l, r <= h if closed else z3.If(l < h, r < h, r == l)))
        return Z(mt, r)
    if name in ("make_unique", "make_shared", "WrapUnique"):
        t = ex.ty(n["t"])
        to = t.args[0]
        kind = "unique" if t.name == "std::unique_ptr" else "shared"
        if name == "WrapUnique": return Z(MRef(kind, to), argz(ex, n, 0))
        vals = [ex.eval(a) for a in n["args"]]
        return Z(MRef(kind, to), new_object(ex, to, vals))
    if name == "swap" and len(n["args"]) == 2:
        a, b = as_lv(ex, ex.eval(n["args"][0])), as_lv(ex, ex.eval(n["args"][1]))
        x, y = a.read(ex), b.read(ex); a.write(ex, y); b.write(ex, x); return None
    if name == "exchange":
        a = as_lv(ex, ex.eval(n["args"][0])); old = a.read(ex); ex.assign(a, arg(ex, n, 1)); return old
    if name in ("make_pair", "make_tuple"):
        mt = ret_mt(ex, n); vals = [ex.eval(a) for a in n["args"]]
        return S.StructVal(mt, {f: conv(ex, v, t) for (f, t), v in zip(mt.fields, vals)})
    if name == "get" and full.startswith("std::get"):
        lv = as_lv(ex, ex.eval(n["args"][0])); i = int(n["targs"][0]) if not isinstance(n["targs"][0], list) else None
        return S.FieldLV(lv, lv.mt.fields[i][0], ex)
    if name in ("next", "prev", "distance", "advance") and full.startswith("std::"):
        it = arg(ex, n, 0)
        if name == "distance":
            b = arg(ex, n, 1); d = b.idx - it.idx if it.kind == "seqiter" else it.idx - b.idx
            return Z(MInt(64, True), z3.simplify(d))
        k = argz(ex, n, 1) if nargs(n) > 1 else z3.IntVal(1)
        if it.kind == "seqiter": return PyVal("seqiter", lv=it.lv, idx=z3.simplify(it.idx + k if name == "next" else it.idx - k))
    if name in ("begin", "end", "cbegin", "cend", "size", "empty", "rbegin", "rend") and len(n["args"]) == 1:
        lv = as_lv(ex, ex.eval(n["args"][0]))
        if isinstance(lv.mt, MSeq): return seq_method(ex, lv, name, {"args": [], "t": n["t"]})
        if isinstance(lv.mt, (MMap, MSet)): return map_method(ex, lv, name, {"args": [], "t": n["t"]})
    if name in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
        v = arg(ex, n, 0); t = ex.ty(n["t"]); return Z(MRef("shared", t.args[0]), v.e)
    if name in ("c_linear_search",):
        lv = as_lv(ex, ex.eval(n["args"][0])); s = ex.z(lv.read(ex), lv.mt); v = ex.z(arg(ex, n, 1), lv.mt.el)
        i = z3.Const("qi", z3.IntSort())
        return Z(MBool(), z3.Exists([i], z3.And(i >= 0, i < lv.mt.len(s), z3.Select(lv.mt.arr(s), i) == v)))
    if full == "absl::call_once":
        raise Unsupported("call_once")
    r = algorithm(ex, n, full, name)
    if r is not NotImplemented: return r
    if ex.ty(n["t"]).name in ("std::basic_string",) and full.startswith("absl::"): return ex.fresh_val(MStr(), "str")
    raise Unsupported(f"no model of {full} (line {n.get('l')})")

def new_object(ex, to, vals):
    mt = ex.mt(to)
    if to.k == "rec" and to.name.startswith(S.NS) and isinstance(mt, MRec) and not mt.proto:
        if len(vals) == 1:
            v = vals[0].read(ex) if isinstance(vals[0], S.LV) and getattr(vals[0], "mt", None) == mt else (vals[0] if not isinstance(vals[0], S.LV) else None)
            if isinstance(v, (Z, S.StructVal)) and v.mt == mt:
                r = ex.new_ref(); S.ObjLV(r, to, ex).write(ex, v); return r
        ex.specs_ctor = None
        c = ex.specs.ctor_contract(to, len(vals), ex)
        if c is not None:
            r = ex.new_ref()
            ex.apply_contract(c, c.name, Z(MRef("ptr", to), r), vals, _Void, {"l": ex.line})
            return r
        fn = find_ctor(ex, to, len(vals))
        r = ex.new_ref()
        if fn is not None:
            ex.run_ctor(fn, ex.bind_args(fn, vals, True), Z(MRef("ptr", to), r), to)
        elif not vals:
            S.ObjLV(r, to, ex).write(ex, ex.record_default(to, mt))
        else: raise Unsupported(f"constructor of {to.s} with {len(vals)} arguments")
        return r
    r = ex.new_ref()
    if isinstance(mt, MOpaque): return r
    v = construct(ex, mt, to, vals)
    S.HeapLV("obj." + mt.name, r, mt).write(ex, v)
    return r
class _VoidT:
    k = "void"
_Void = _VoidT()

def algorithm(ex, n, full, name):
    A = n["args"]
    if not (full.startswith("std::") or full.startswith("absl::c_")): return NotImplemented
    if full.startswith("absl::c_"):
        lv = as_lv(ex, ex.eval(A[0]))
        if not isinstance(lv.mt, MSeq): return NotImplemented
        s = ex.z(lv.read(ex), lv.mt); b, e = z3.IntVal(0), lv.mt.len(s); rest = A[1:]; name = name[2:]
    else:
        if len(A) < 2: return NotImplemented
        x = ex.rv(ex.eval(A[0]))
        if isinstance(x, PyVal) and x.kind == "tptr" and name == "fill":
            from . import tf
            tf.fill(ex, x, ex.rv(ex.eval(A[1])), ex.ev(A[2]).e); return None
        if isinstance(x, S.PtrLV) and isinstance(x.lv, S.IndexLV): x = PyVal("seqiter", lv=x.lv.base, idx=x.lv.idx)
        if not (isinstance(x, PyVal) and x.kind == "seqiter"): return NotImplemented
        y = ex.rv(ex.eval(A[1]))
        if isinstance(y, S.PtrLV) and isinstance(y.lv, S.IndexLV): y = PyVal("seqiter", lv=y.lv.base, idx=y.lv.idx)
        lv = x.lv; b, e = x.idx, y.idx; rest = A[2:]
    s = ex.z(lv.read(ex), lv.mt); arr = lv.mt.arr(s)
    i = z3.Const("qi", z3.IntSort())
    used(ex, full)
    if name in ("find",):
        v = ex.z(ex.rv(ex.eval(rest[0])), lv.mt.el)
        r = ex.fresh(z3.IntSort(), "found")
        ex.assume(z3.And(b <= r, r <= e, z3.Implies(r < e, z3.Select(arr, r) == v)))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(b <= i, i < r), z3.Select(arr, i) != v)))
        return PyVal("seqiter", lv=lv, idx=r)
    if name in ("fill",):
        v = ex.z(ex.rv(ex.eval(rest[0])), lv.mt.el)
        lv.write(ex, Z(lv.mt, lv.mt.mk(lv.mt.len(s), z3.Lambda([i], z3.If(z3.And(b <= i, i < e), v, z3.Select(arr, i)))))); return None
    if name in ("copy",):
        d = ex.rv(ex.eval(rest[0]))
        if isinstance(d, PyVal) and d.kind == "seqiter":
            ds = ex.z(d.lv.read(ex), d.lv.mt)
            d.lv.write(ex, Z(d.lv.mt, d.lv.mt.mk(d.lv.mt.len(ds), z3.Lambda([i], z3.If(z3.And(d.idx <= i, i < d.idx + (e - b)), z3.Select(arr, i - d.idx + b), z3.Select(d.lv.mt.arr(ds), i))))))
            return PyVal("seqiter", lv=d.lv, idx=z3.simplify(d.idx + e - b))
    if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if"):
        clo = ex.rv(ex.eval(rest[0]))
        P = pred_array(ex, clo, lv, b, e)
        if P is None: return NotImplemented
        if name == "any_of": return Z(MBool(), z3.Exists([i], z3.And(b <= i, i < e, P(i))))
        if name == "all_of": return Z(MBool(), z3.ForAll([i], z3.Implies(z3.And(b <= i, i < e), P(i))))
        if name == "none_of": return Z(MBool(), z3.ForAll([i], z3.Implies(z3.And(b <= i, i < e), z3.Not(P(i)))))
        if name in ("find_if", "find_if_not"):
            Q = P if name == "find_if" else (lambda j: z3.Not(P(j)))
            r = ex.fresh(z3.IntSort(), "found")
            ex.assume(z3.And(b <= r, r <= e, z3.Implies(r < e, Q(r))))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(b <= i, i < r), z3.Not(Q(i)))))
            return PyVal("seqiter", lv=lv, idx=r)
    return NotImplemented

def pred_array(ex, clo, lv, b, e):
    """Predicate of a side-effect-free single-expression lambda over element index."""
    if not isinstance(clo, S.Closure): return None
    body = clo.node["body"]
    if not (body["k"] == "block" and len(body["b"]) == 1 and body["b"][0]["k"] == "return"): return None
    probe = z3.Const("probe!0", z3.IntSort())
    # evaluate once on a probe index, without path splitting
    save_choose, save_ob, save_assume = ex.choose, ex.obligation, ex.assume
    def nochoose(c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        raise Unsupported("predicate with branches")
    facts, obs, n0 = [], [], ex.fresh_n
    ex.choose = nochoose; ex.obligation = lambda label, goal, *a, **k: obs.append((label, goal, list(facts), a, k))
    ex.assume = ex.assume_once = lambda f, q=True: facts.append(z3.BoolVal(f) if isinstance(f, bool) else f)
    heap0 = dict(ex.heap)
    try:
        r = ex.call_closure(clo, [S.IndexLV(lv, probe)])
        t = ex.truth(r)
    finally:
        ex.choose, ex.obligation, ex.assume = save_choose, save_ob, save_assume
        ex.__dict__.pop("assume_once", None)
    if any(ex.heap.get(k) is not heap0.get(k) for k in ex.heap): raise Unsupported("predicate with side effects")
    # values that depend on the element become functions of its index
    news, seen, st = [], set(), [t] + facts + [o[1] for o in obs]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = x.decl().name().rsplit("!", 1)
            if len(m) == 2 and m[1].isdigit() and m[0] != "probe" and int(m[1]) > n0: news.append(x)
        st.extend(x.children())
    fs = [(x, z3.Function(x.decl().name() + "_of", z3.IntSort(), x.sort())(probe)) for x in news]
    lift = lambda f: z3.substitute(f, *fs) if fs else f
    t = lift(t); q = z3.Int("pq"); at = lambda f, j: z3.substitute(f, (probe, j)); rng = z3.And(b <= q, q < e)
    def every(f):
        for pat in ([at(fs[0][1], q), z3.Select(lv.mt.arr(ex.z(lv.read(ex), lv.mt)), q)] if fs else [z3.Select(lv.mt.arr(ex.z(lv.read(ex), lv.mt)), q)],):
            try: return z3.ForAll([q], z3.Implies(rng, at(f, q)), patterns=pat)
            except z3.Z3Exception: return z3.ForAll([q], z3.Implies(rng, at(f, q)))
    for label, goal, fa_, a, k in obs: ex.obligation(label, every(z3.Implies(z3.And(*[lift(f) for f in fa_]), lift(goal)) if fa_ else lift(goal)), *a, **k)
    dep = [f for f in map(lift, facts) if not z3.is_true(z3.simplify(f))]
    for f in dep: ex.assume(every(f))
    return lambda j: z3.substitute(t, (probe, j))

# ------------------------------------------------------------------ member calls
def mcall(ex, n):
    c = clsname(ex, n); full = strip_targs(n["fn"]); name = full.split("::")[-1]
    if ex.specs.lookup(full, n, ex) is not None: return NotImplemented
    custom = ex.specs.call_models.get(full)
    if custom is not None:
        used(ex, full); r = custom(ex, n)
        if r is not NotImplemented: return r
    if full.endswith("LogMessageFatal::stream"):
        ex.check_abort(z3.BoolVal(False), ex.line); raise S.PathEnd()
    if not is_model_class(ex, c):
        return NotImplemented
    used(ex, c.replace("deepmind::reverb::", "protobuf ") + "::" + name)
    if c.startswith(S.NS) or c.startswith("google::protobuf::Timestamp") or c.startswith("google::protobuf::Duration") or c == "google::protobuf::Message" or c == "google::protobuf::MessageLite":
        return proto_method(ex, obj_lv(ex, n), name, n, n.get("arrow"))
    if full in ("std::enable_shared_from_this::shared_from_this", "std::enable_shared_from_this::weak_from_this"):
        o = obj_lv(ex, n)
        if isinstance(o, S.ObjLV): return Z(ex.mt(ex.ty(n["t"])), o.ref)
    lv = norm_lv(ex, obj_lv(ex, n))
    mt = lv.mt
    if mt is None or isinstance(mt, MOpaque):
        v = None
        try: v = lv.read(ex)
        except Unsupported: pass
        if isinstance(v, PyVal) and v.kind in ITERS: return iter_method(ex, lv, v, name, n)
        if isinstance(v, PyVal) and v.kind == "tview":
            from . import tf
            return tf.view_method(ex, v, name, n)
        if isinstance(v, PyVal) and v.kind == "inserted": raise Unsupported("member of insert result")
        if isinstance(mt, MOpaque):
            return ex.specs.opaque_method(ex, lv, full, name, n)
        if mt is None: raise Unsupported(f"method {full} on untyped object")
    if isinstance(mt, MRec) and mt.proto and mt.proto != "(value)" and c.startswith("tensorflow::"): return proto_method(ex, lv, name, n, n.get("arrow"))
    if isinstance(mt, MRec) and c.startswith("tensorflow::"):
        from . import tf
        return tf.method(ex, lv, c, name, n)
    if isinstance(mt, MSeq): return seq_method(ex, lv, name, n)
    if isinstance(mt, (MMap, MSet)): return map_method(ex, lv, name, n)
    if isinstance(mt, MList): return list_method(ex, lv, name, n)
    if isinstance(mt, MStatus):
        v = lv.read(ex)
        if name == "ok": return Z(MBool(), v.e == 0)
        if name == "code" or name == "error_code": return Z(MInt(32, True), v.e)
        if name in ("message", "error_message", "ToString"): return ex.fresh_val(MStr(), "msg")
        if name == "Update": 
            o = arg(ex, n, 0); lv.write(ex, Z(mt, z3.If(v.e == 0, ex.z(o), v.e))); return None
        if name == "IgnoreError": return None
    if isinstance(mt, MRef): return ptr_method(ex, lv, name, n)
    if isinstance(mt, MStr):
        v = lv.read(ex)
        if isinstance(v, PyVal) and v.kind == "tdata":
            from . import tf
            b = tf.BYTES(v.t); ex.assume_once(str_len(b) >= 0)
            if name == "data": return PyVal("tbytes", lv=v.lv)
            if name in ("size", "length"): return Z(MInt(64, False), str_len(b))
            raise Unsupported(f"{name} of the bytes of a tensor")
        if name in ("empty",): return Z(MBool(), str_len(v.e) == 0)
        if name in ("size", "length"): ex.assume_once(str_len(v.e) >= 0); return Z(MInt(64, False), str_len(v.e))
        if name in ("c_str", "data", "operator basic_string_view", "operator string_view", "operator std::basic_string_view"): return v
        if name in ("append", "push_back", "resize", "assign", "clear", "operator+=", "reserve", "insert", "replace"):
            lv.write(ex, Z(mt, str_lit(ex, "")) if name == "clear" else ex.fresh_val(mt, "str")); return lv
        if name in ("substr", "ToString"): return ex.fresh_val(mt, "str")
        if name == "swap":
            o = as_lv(ex, ex.eval(n["args"][0])); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
        return fresh_ret(ex, n)
    if isinstance(mt, MCondVar):
        v = lv.read(ex)
        if name == "Signal": lv.write(ex, Z(mt, z3.If(v.e >= 1, v.e, z3.IntVal(1)))); return None
        if name == "SignalAll": lv.write(ex, Z(mt, z3.IntVal(2))); return None
        if name == "Wait": ex.wait_point("CondVar::Wait"); return None
        if name in ("WaitWithDeadline", "WaitWithTimeout"):
            d = argz(ex, n, 1)
            if name == "WaitWithTimeout": d = ex.now + d
            ex.wait_point("CondVar::" + name)
            t = ex.fresh(z3.IntSort(), "now"); ex.assume(t >= ex.now); ex.assume(t < TINF); ex.now = t
            b = ex.fresh(z3.BoolSort(), "timed_out"); ex.assume(z3.Implies(b, t >= d))
            return Z(MBool(), b)
    if isinstance(mt, MMutex):
        if name in ("AssertHeld", "AssertReaderHeld", "AssertNotHeld"): return None
        mon = monitor_of(ex, lv)
        if mon is None: 
            ex.note_assumption("locks without a registered monitor are ignored")
            if name in ("Lock", "Unlock", "ReaderLock", "ReaderUnlock", "WriterLock", "WriterUnlock"): return None
        else:
            if name in ("Lock", "ReaderLock", "WriterLock"): ex.acquire(mon, lv.ref, name); return None
            if name in ("Unlock", "ReaderUnlock", "WriterUnlock"): ex.release(mon, lv.ref, "unlock"); return None
        if name in ("Await", "LockWhen", "AwaitWithTimeout", "AwaitWithDeadline", "LockWhenWithTimeout"):
            if name.startswith("LockWhen"):
                if mon is not None: ex.acquire(mon, lv.ref, name)
            elif mon is not None: 
                if not ex.choose(condition(ex, n["args"][0])): ex.wait_point(name)
            c1 = condition(ex, n["args"][0])
            if name in ("Await", "LockWhen"): 
                ex.assume(c1); return None
            return Z(MBool(), c1)
    if isinstance(mt, MRec):
        if mt.name.startswith("Opt["): return opt_method(ex, lv, name, n)
        if mt.name.startswith("StatusOr["):
            v = lv.read(ex); code = ex.z(ex.field_of(v, "code", mt))
            if name == "ok": return Z(MBool(), code == 0)
            if name == "status": return stat(code)
            if name in ("value", "ValueOrDie", "operator*"):
                ex.obligation("StatusOr holds a value", code == 0, ex.line, "safety"); ex.assume(code == 0)
                return S.FieldLV(lv, "value", ex)
        if name == "swap":
            o = as_lv(ex, ex.eval(n["args"][0])); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
    if c == "std::atomic" or c.startswith("std::__atomic"):
        if name in ("load",) or name.startswith("operator "): return lv.read(ex)
        if name == "store": ex.assign(lv, arg(ex, n, 0)); return None
        if name in ("fetch_add", "fetch_sub"):
            old = lv.read(ex); k = argz(ex, n, 0); ex.assign(lv, Z(mt, old.e + k if name == "fetch_add" else old.e - k)); return old
        if name == "exchange": old = lv.read(ex); ex.assign(lv, arg(ex, n, 0)); return old
    if isinstance(mt, (MInt, MBool)) and name.startswith("operator"): return lv.read(ex)
    raise Unsupported(f"no model of method {full} on {mt.name} (line {n.get('l')})")

def condition(ex, node):
    while node["k"] in ("mat", "cast"): node = node["e"]
    if node["k"] == "ctor":
        a = ex.rv(ex.eval(node["args"][0]))
        if isinstance(a, S.PtrLV): a = a.lv.read(ex)
        if isinstance(a, S.Closure): return ex.truth(ex.call_closure(a, [ex.rv(ex.eval(q)) for q in node["args"][1:]]))
        if len(node["args"]) == 1 and isinstance(a, Z) and isinstance(a.mt, MBool): return a.e
    raise Unsupported("absl::Condition")

def monitor_of(ex, lv):
    if isinstance(lv, S.HeapLV): return ex.specs.monitors.get(lv.fk)
    return None

def ptr_method(ex, lv, name, n):
    mt = lv.mt; v = lv.read(ex)
    if isinstance(v, S.PtrLV):
        if name in ("get",): return v
        if name.startswith("operator bool"): return Z(MBool(), z3.BoolVal(True))
        if name == "release": lv.write(ex, Z(mt, z3.IntVal(0))); return v
    if name == "get": return Z(MRef("ptr", mt.to_ty), v.e)
    if name.startswith("operator bool") or name == "operator bool": return Z(MBool(), v.e != 0)
    if name == "reset":
        if nargs(n) == 0: lv.write(ex, Z(mt, z3.IntVal(0)))
        else:
            p = arg(ex, n, 0); lv.write(ex, p if isinstance(p, S.PtrLV) else Z(mt, ex.z(p)))
        return None
    if name == "release": lv.write(ex, Z(mt, z3.IntVal(0))); return Z(MRef("ptr", mt.to_ty), v.e)
    if name == "lock":
        b = ex.specs.weak_alive(ex, v.e)
        return Z(MRef("shared", mt.to_ty), z3.If(b, v.e, z3.IntVal(0)))
    if name == "expired": return Z(MBool(), z3.Not(ex.specs.weak_alive(ex, v.e)))
    if name == "use_count":
        k = ex.fresh(z3.IntSort(), "use_count"); ex.assume(k >= 0); return Z(MInt(64, True), k)
    if name == "swap":
        o = as_lv(ex, ex.eval(n["args"][0])); a, b = lv.read(ex), o.read(ex); lv.write(ex, b); o.write(ex, a); return None
    raise Unsupported(f"smart pointer method {name}")
def opt_method(ex, lv, name, n):
    mt = lv.mt
    has = lambda: ex.z(ex.field_of(lv.read(ex), "has", mt))
    if name in ("has_value",) or name.startswith("operator bool"): return Z(MBool(), has())
    if name in ("value", "operator*", "operator->"):
        h = has(); ex.obligation("optional holds a value", h, ex.line, "safety"); ex.assume(h)
        return S.FieldLV(lv, "value", ex)
    if name == "reset": lv.write(ex, ex.default_of(mt)); return None
    if name == "value_or":
        d = arg(ex, n, 0); v = ex.field_of(lv.read(ex), "value", mt)
        return v if ex.choose(has()) else d
    if name == "emplace":
        lv.write(ex, S.StructVal(mt, {"has": Z(MBool(), z3.BoolVal(True)), "value": construct(ex, mt.ft("value"), None, [ex.eval(a) for a in n["args"]])}))
        return S.FieldLV(lv, "value", ex)
    raise Unsupported(f"optional method {name}")
def iter_method(ex, lv, v, name, n):
    if name == "base" and v.kind == "riter": return PyVal("seqiter", lv=v.lv, idx=z3.simplify(v.idx + 1))
    raise Unsupported(f"iterator method {name}")

# ------------------------------------------------------------------ operators
def opcall(ex, n):
    op = n["op"]; full = strip_targs(n["fn"]); c = clsname(ex, n)
    if ex.specs.lookup(full, n, ex) is not None: return NotImplemented
    custom = ex.specs.call_models.get(full)
    if custom is not None:
        used(ex, full); r = custom(ex, n)
        if r is not NotImplemented: return r
    if "Voidify" in full or op == "<<" and contains_log(n):
        if contains_log(n) == "fatal":
            ex.check_abort(z3.BoolVal(False), ex.line); raise S.PathEnd()
        return None
    A = n["args"]
    if op == "()":
        f = as_lv(ex, ex.eval(A[0])); v = f.read(ex)
        if isinstance(v, S.Closure): return ex.call_closure(v, [ex.eval(a) for a in A[1:]])
        if isinstance(v, PyVal) and v.kind == "tview":
            from . import tf
            return tf.opcall(ex, n, v, op)
        if ex.ty(A[0]["t"]).strip().name in ("std::function", "absl::FunctionRef", "absl::AnyInvocable"):
            return call_opaque_function(ex, v, [ex.eval(a) for a in A[1:]], n)
        return NotImplemented
    if n["usr"] in ex.prog.by_usr and not c.startswith(MODEL_NS) and not (op == "=" ): return NotImplemented
    if op == "=" and n["usr"] in ex.prog.by_usr and ex.prog.by_usr[n["usr"]].get("body") is not None and c.startswith(S.NS) and not ex.prog.by_usr[n["usr"]].get("implicit"):
        return NotImplemented
    if op == "=":
        r = ex.eval(A[1]); l = norm_lv(ex, as_lv(ex, ex.eval(A[0])))
        v = ex.rv(r)
        moved = ex.ty(n["pt"][0]).d.get("rv") if n.get("pt") else False
        if isinstance(l.mt, MRef):
            if isinstance(v, PyVal): raise Unsupported("assign to pointer")
            if not isinstance(v, S.PtrLV): v = Z(l.mt, ex.z(v))
        elif isinstance(l.mt, MT) and not isinstance(v, (PyVal, S.Closure)): v = conv(ex, v, l.mt)
        elif isinstance(v, PyVal) and v.kind == "nullopt": v = ex.default_of(l.mt)
        if isinstance(l.mt, MStr) and not (isinstance(v, Z) and isinstance(v.mt, MStr)): v = ex.fresh_val(MStr(), "str")
        is_move = isinstance(r, S.LV) and not isinstance(r, TempLV) and is_rvalue_ref(ex, n, A[1])
        if is_move and isinstance(r, (S.LocalLV, S.FieldLV, S.HeapLV, S.IndexLV, S.MapValLV)) and isinstance(r.mt, MT): ex.moved_from(r)
        l.write(ex, v.copy() if isinstance(v, S.StructVal) else v)
        return l
    a = ex.eval(A[0])
    t0 = ex.ty(A[0]["t"]).strip()
    if op in ("->", "*") and len(A) == 1:
        lv = as_lv(ex, a); v = lv.read(ex) if not isinstance(lv, S.ObjLV) else None
        if isinstance(v, PyVal) and v.kind in ITERS:
            r = iter_deref(ex, v)
            return S.PtrLV(r) if op == "->" else r
        mt = lv.mt
        if isinstance(v, S.PtrLV): return v if op == "->" else v.lv
        if isinstance(mt, MRef):
            if op == "->": return Z(MRef("ptr", mt.to_ty), v.e)
            return ex.deref(v)
        if isinstance(mt, MRec) and mt.name.startswith(("Opt[", "StatusOr[")):
            r = opt_method(ex, lv, "value", n) if mt.name.startswith("Opt[") else S.FieldLV(lv, "value", ex)
            return S.PtrLV(r) if op == "->" else r
    if op == "[]":
        lv = norm_lv(ex, as_lv(ex, a))
        if isinstance(lv.mt, MSeq):
            i = ex.evz(A[1]); check_index(ex, lv, i); return S.IndexLV(lv, z3.simplify(i))
        if isinstance(lv.mt, MMap): return map_method(ex, lv, "operator[]", {"args": A[1:], "t": n["t"]})
        if isinstance(lv.mt, MRef):
            v = lv.read(ex)
            if isinstance(v, S.PtrLV) and isinstance(v.lv, S.IndexLV): return S.IndexLV(v.lv.base, z3.simplify(v.lv.idx + ex.evz(A[1])))
    if op in ("++", "--"):
        lv = as_lv(ex, a); v = lv.read(ex)
        if isinstance(v, PyVal) and v.kind in ("seqiter", "riter"):
            d = 1 if (op == "++") == (v.kind == "seqiter") else -1
            nv = PyVal(v.kind, lv=v.lv, idx=z3.simplify(v.idx + d)); lv.write(ex, nv)
            return v if len(A) > 1 else lv
        if isinstance(v, PyVal) and v.kind == "mapiter" and op == "++":
            d0 = ex.z(v.lv.read(ex), v.lv.mt)
            ex.obligation("increment of a valid iterator", z3.And(z3.Not(v.end), z3.Select(map_dom(v.lv.mt, d0), v.key)), ex.line, "safety"); ex.assume(z3.Not(v.end))
            lv.write(ex, map_next(ex, v)); return v if len(A) > 1 else lv
        if isinstance(v, Z) and isinstance(v.mt, (MInt,)):
            nv = Z(v.mt, v.e + (1 if op == "++" else -1)); lv.write(ex, nv); return v if len(A) > 1 else lv
        raise Unsupported(f"operator {op} on {getattr(v,'kind',lv.mt)}")
    b = ex.eval(A[1]) if len(A) > 1 else None
    va, vb = ex.rv(a), ex.rv(b) if b is not None else None
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if isinstance(va, PyVal) and va.kind == "inserted": raise Unsupported("cmp inserted")
        if isinstance(va, (Z, S.StructVal)) and isinstance(vb, (Z, S.StructVal)):
            if isinstance(va.mt, MSeq) and isinstance(vb, Z) and isinstance(vb.mt, MSeq):
                i = z3.Const("qi", z3.IntSort())
                eq = z3.And(va.mt.len(va.e) == vb.mt.len(vb.e), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < va.mt.len(va.e)), va.mt.at(va.e, i) == vb.mt.at(vb.e, i))))
                if op in ("==", "!="): return Z(MBool(), eq if op == "==" else z3.Not(eq))
                raise Unsupported("sequence order")
            if isinstance(va.mt, MRec) and va.mt.name.startswith("Opt[") and not (isinstance(vb.mt, MRec) and vb.mt.name.startswith("Opt[")):
                h = ex.z(ex.field_of(va, "has", va.mt)); x = ex.compare("==", ex.field_of(va, "value", va.mt), vb)
                r = z3.And(h, x)
                if op in ("==", "!="): return Z(MBool(), r if op == "==" else z3.Not(r))
            if isinstance(va.mt, MStr) and op not in ("==", "!="): return Z(MBool(), ex.fresh(z3.BoolSort(), "strcmp"))
        return Z(MBool(), ex.compare(op, va, vb))
    if op in ("+", "-", "+=", "-="):
        o = op[0]
        if isinstance(va, PyVal) and va.kind in ("seqiter", "riter"):
            if isinstance(vb, PyVal):
                d = va.idx - vb.idx if va.kind == "seqiter" else vb.idx - va.idx
                return Z(MInt(64, True), z3.simplify(d))
            k = ex.z(vb); k = k if (o == "+") == (va.kind == "seqiter") else -k
            nv = PyVal(va.kind, lv=va.lv, idx=z3.simplify(va.idx + k))
            if len(op) == 2: a.write(ex, nv); return a
            return nv
        if isinstance(va, Z) and isinstance(va.mt, MStr) or isinstance(vb, Z) and isinstance(vb.mt, MStr):
            if len(op) == 2: a.write(ex, ex.fresh_val(MStr(), "str")); return a
            return ex.fresh_val(MStr(), "str")
        if isinstance(va, Z) and isinstance(va.mt, MTime):
            x, y = va.e, ex.z(vb)
            e = x + y if o == "+" else x - y
            # infinite durations absorb
            if o == "+": e = z3.If(z3.Or(x >= TINF, y >= TINF), TINF, e)
            nv = Z(va.mt, z3.simplify(e))
            if len(op) == 2: a.write(ex, nv); return a
            return nv
        if isinstance(va, Z) and isinstance(vb, Z) and isinstance(va.mt, MInt):
            nv = Z(va.mt, va.e + vb.e if o == "+" else va.e - vb.e)
            if len(op) == 2: a.write(ex, nv); return a
            return nv
    if op in ("*", "/") and isinstance(va, Z) and (isinstance(va.mt, MTime) or (isinstance(vb, Z) and isinstance(vb.mt, MTime))):
        return fresh_ret(ex, n)
    if op == "!" : return Z(MBool(), z3.Not(ex.truth(va)))
    if op == "&" and len(A) == 2: return None
    if op in ("|", "&", "^", "~", "%", "<<", ">>") and not c.startswith(MODEL_NS) and n["usr"] in ex.prog.by_usr: return NotImplemented
    raise Unsupported(f"operator {op} ({full}) on {t0.s} line {n.get('l')}")

def is_rvalue_ref(ex, n, node):
    # std::move(x) or an xvalue
    x = node
    while x and x["k"] in ("cast", "mat"): x = x["e"]
    return bool(x) and x["k"] == "call" and strip_targs(x["fn"]) in ("std::move", "std::forward") and not ex.ty(x["t"]).d.get("const")    # (moving from a constant copies)

def call_opaque_function(ex, f, args, n=None):
    h = getattr(ex.specs, "opaque_call", None)
    if h is not None: 
        r = h(ex, f, args, n)
        if r is not NotImplemented: return r
    raise Unsupported("call of an unknown function object")

def contains_log(n):
    if "_log" in n: return n["_log"]
    r = None
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, str) and x.get("k") in ("ctor", "mcall", "call"):
                if "LogMessageFatal" in f: r = "fatal"; break
                if "LogMessage" in f or "NullStream" in f: r = r or "log"
            if x.get("k") == "ctor" and "NullStream" in str(x.get("fn", "")): r = r or "log"
            if x.get("k") == "opcall" and "internal::operator<<" in str(x.get("fn", "")): r = r or "log"
            stack.extend(v for k, v in x.items() if k != "unit")
        elif isinstance(x, list): stack.extend(x)
    n["_log"] = r
    return r

def expr_stmt(ex, e):
    if e["k"] == "opcall" and e["op"] == "<<":
        l = contains_log(e)
        if l == "fatal": ex.check_abort(z3.BoolVal(False), ex.line); raise S.PathEnd()
        if l == "log": return True
        if ex.ty(e["t"]).strip().name.startswith("std::basic_"): return True
    x = e
    while x["k"] == "cast": x = x["e"]
    if x["k"] == "mcall" and "LogMessage::stream" in x["fn"]: return True
    if x["k"] == "cond" and contains_log(x) == "log": return True
    return False

def var_decl(ex, d, t, key):
    tn = t.name if t.k == "rec" else ""
    if tn in ("absl::MutexLock", "absl::ReaderMutexLock", "absl::WriterMutexLock", "absl::MutexLockMaybe", "absl::ReleasableMutexLock"):
        init = d["init"]
        while init["k"] in ("cast", "mat"): init = init["e"]
        p = ex.rv(ex.eval(init["args"][0]))
        lv = norm_lv(ex, ex.deref(p)) if not isinstance(p, S.PtrLV) else p.lv
        mon = monitor_of(ex, lv)
        used(ex, tn)
        ex.env[key] = PyVal("lock", lv=lv, mon=mon)
        if mon is None:
            ex.note_assumption("locks without a registered monitor are ignored"); return True
        ex.acquire(mon, lv.ref, "lock")
        def unlock(mon=mon, ref=lv.ref):
            if any(h[0] is mon for h in ex.held): ex.release(mon, ref, "unlock")
        ex.scopes[-1].append(unlock)
        return True
    if tn in ("std::basic_ostringstream", "std::basic_stringstream"): ex.env[key] = S.Opq(); return True
    return False
def pure_loop(ex, s): return False

# ------------------------------------------------------------------ constructors
def ctor(ex, n, t):
    name = t.name; A = [a for a in n["args"] if a is not None]
    c = ex.specs.ctor_models.get(name)
    if c is not None:
        r = c(ex, n, t)
        if r is not NotImplemented: return r
    if name in ("deepmind::reverb::internal::CheckOpString", "tsl::internal::CheckOpString"):
        a = A[0]
        while a["k"] == "cast": a = a["e"]
        if a["k"] == "cond":
            return PyVal("check", cond=ex.truth(ex.eval(a["c"])))
        if n.get("copy") or n.get("move"): return ex.rv(ex.eval(A[0]))
        v = ex.rv(ex.eval(a))
        if isinstance(v, PyVal) and v.kind == "check": return v
        raise Unsupported("CheckOpString")
    if name.startswith(S.NS) and name[len(S.NS):] in ex.protos:
        mt = ex.mt(t)
        if not A: return ex.default_of(mt)
        if len(A) == 1:
            a = ex.eval(A[0])
            if isinstance(a, S.ObjLV): a = norm_lv(ex, a)
            v = ex.rv(a)
            if isinstance(v, Z) and isinstance(v.mt, MRef): return ex.default_of(mt)   # arena
            if n.get("move") and isinstance(a, S.LV) and not isinstance(a, TempLV): ex.moved_from(a)
            return v
    if not name.startswith(MODEL_NS): return NotImplemented
    if name in ("tensorflow::Tensor", "tensorflow::TensorShape", "tensorflow::PartialTensorShape"):
        from . import tf
        return tf.ctor(ex, n, t, A)
    if name == "absl::AlphaNum": return S.Opq()
    mt = ex.mt(t)
    def is_alloc(a):
        ty = ex.ty(a["t"]); return ty.k == "rec" and ty.name in ("std::allocator", "std::__new_allocator")
    A = [a for a in A if not is_alloc(a)]
    used(ex, name + " constructor")
    if n.get("copy") or n.get("move"):
        a = ex.eval(A[0])
        if isinstance(a, S.LV):
            la = norm_lv(ex, a)
            v = la.read(ex)
            if n.get("move") and not isinstance(la, TempLV) and isinstance(la.mt, MT):
                if isinstance(v, (Z, S.StructVal)): ex.moved_from(la)
                elif isinstance(v, S.PtrLV): la.write(ex, Z(la.mt, z3.IntVal(0)))
            return v.copy() if isinstance(v, S.StructVal) else v
        return a
    if isinstance(mt, MRef):
        if not A: return Z(mt, z3.IntVal(0))
        v = ex.rv(ex.eval(A[0]))
        if isinstance(v, PyVal) and v.kind == "ctorpending": raise Unsupported("pending")
        if isinstance(v, S.PtrLV): return v
        src = ex.eval(A[0]) if False else None
        r = Z(mt, ex.z(v))
        # converting move of a smart pointer empties the source
        if is_rvalue_ref(ex, n, A[0]):
            pass
        return r
    if isinstance(mt, MStr):
        if not A: return Z(mt, str_lit(ex, ""))
        v = ex.rv(ex.eval(A[0]))
        if isinstance(v, Z) and isinstance(v.mt, MStr) and len(A) == 1: return v
        return ex.fresh_val(mt, "str")
    if isinstance(mt, MStatus):
        if not A: return stat(0)
        v = ex.rv(ex.eval(A[0]))
        return stat(ex.z(v, MInt(32, True)))
    if isinstance(mt, (MTime,)):
        if not A: return Z(mt, z3.IntVal(0))
        return ex.rv(ex.eval(A[0]))
    if isinstance(mt, (MCondVar, MMutex)): return Z(mt, z3.IntVal(0))
    if isinstance(mt, MSeq):
        if not A: return Z(mt, mt.empty())
        v = ex.rv(ex.eval(A[0]))
        if isinstance(v, Z) and isinstance(v.mt, MSeq): return v
        if isinstance(v, Z) and v.e.sort() == z3.IntSort() and not isinstance(v.mt, MRef):
            if len(A) > 1: dv = ex.rv(ex.eval(A[1]))
            else: dv = ex.default_of(mt.el)
            return Z(mt, mt.mk(v.e, z3.K(z3.IntSort(), ex.z(dv, mt.el))))
        if isinstance(v, S.PtrLV) and isinstance(v.lv, S.IndexLV) and len(A) == 2:
            k = ex.rv(ex.eval(A[1])); base = ex.z(v.lv.base.read(ex), v.lv.base.mt)
            if isinstance(k, Z):
                off = v.lv.idx
                arr = v.lv.base.mt.arr(base)
                return Z(mt, mt.mk(k.e, arr if z3.is_true(z3.simplify(off == 0)) else lam_shift(arr, off)))
        if isinstance(v, PyVal) and v.kind in ("seqiter", "riter") and len(A) >= 2: return seq_range(ex, v, ex.rv(ex.eval(A[1])), mt)
        raise Unsupported(f"sequence constructor {n['fn'][:60]} line {n.get('l')}")
    if isinstance(mt, (MMap, MSet)):
        if not A: 
            card_facts(ex, map_dom(mt, mt.empty())); return Z(mt, mt.empty())
        v = ex.rv(ex.eval(A[0]))
        if isinstance(v, Z) and v.mt == mt: return v
        if isinstance(v, Z) and isinstance(v.mt, MSeq) and isinstance(mt, MSet):
            ln = z3.simplify(v.mt.len(v.e))
            if z3.is_int_value(ln):
                d = mt.empty(); card_facts(ex, d)
                for i in range(ln.as_long()): d = card_insert(ex, d, z3.simplify(v.mt.at(v.e, i)))
                return Z(mt, d)
        if isinstance(v, PyVal) and v.kind == "seqiter" and isinstance(mt, MSet):
            w = ex.rv(ex.eval(A[1])); s = ex.z(v.lv.read(ex), v.lv.mt)
            r = ex.fresh(mt.sort(), "set"); k = z3.Const("sk", mt.k.sort()); i = z3.Const("qi", z3.IntSort())
            ex.assume(z3.ForAll([k], z3.Select(r, k) == z3.Exists([i], z3.And(v.idx <= i, i < w.idx, z3.Select(v.lv.mt.arr(s), i) == k))))
            return Z(mt, r)
        raise Unsupported("map constructor")
    if isinstance(mt, MList):
        if not A: card_facts(ex, z3.K(z3.IntSort(), z3.BoolVal(False))); return Z(mt, mt.empty())
    if isinstance(mt, MRec):
        if mt.name.startswith(("Opt[", "StatusOr[")):
            if not A: return ex.default_of(mt)
            a0 = ex.eval(A[0])
            if mt.name.startswith("Opt[") and isinstance(mt.ft("value"), MSeq):
                v = ex.rv(a0)
                if isinstance(v, Z) and isinstance(v.mt, MInt): vt = mt.ft("value"); return S.StructVal(mt, {"has": Z(MBool(), z3.BoolVal(True)), "value": Z(vt, vt.mk(v.e, z3.K(z3.IntSort(), z3.Const("undef_" + san(vt.el.name), vt.el.sort()))))})
                return conv(ex, v if isinstance(v, (PyVal, Z, S.StructVal)) else a0, mt)
            return conv(ex, a0, mt)
        if name in ("std::pair", "std::tuple"):
            if not A: return ex.default_of(mt)
            vals = [ex.eval(a) for a in A]
            if len(vals) == len(mt.fields): return S.StructVal(mt, {f: conv(ex, v, ft) for (f, ft), v in zip(mt.fields, vals)})
            v = ex.rv(vals[0])
            if isinstance(v, S.StructVal): return S.StructVal(mt, {f: x for (f, _), x in zip(mt.fields, v.f.values())})
            if isinstance(v, PyVal) and v.kind == "inserted": return v
    if name in ("std::function", "absl::AnyInvocable", "absl::FunctionRef"):
        if not A: return Z(mt, z3.Const("null_function", mt.sort()))
        v = ex.rv(ex.eval(A[0]))
        return v
    if isinstance(mt, MListIter):
        return ex.rv(ex.eval(A[0])) if A else Z(mt, z3.IntVal(0))
    if isinstance(mt, (MInt, MBool, MReal)):
        if not A: return ex.default_of(mt)
        v = ex.rv(ex.eval(A[0])); return Z(mt, ex.z(v, mt))
    if isinstance(mt, MOpaque):
        # iterators convert from each other
        if len(A) == 1:
            v = ex.rv(ex.eval(A[0]))
            if isinstance(v, PyVal) and v.kind in ITERS: return v
        if name.endswith("iterator") or name.endswith("_iterator"):
            pass
        return Z(mt, ex.fresh(mt.sort(), "obj"))
    raise Unsupported(f"no model of constructor {n['fn'][:80]} (line {n.get('l')})")
