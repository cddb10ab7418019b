"""Models of the TensorFlow values the code handles (trusted).

A tensor is its dtype, its shape and its rows: row i is the content at index i
of the first dimension (bit patterns in row-major order).  AS_ROW(t) is the
content of a whole tensor seen as one row, so adding a leading dimension of
size one to t gives a tensor whose row 0 is AS_ROW(t)."""
import z3
from .mtypes import *
from . import sym as S
def FA(vs, body, patterns=()):
    """a quantifier, without the patterns the solver cannot use"""
    from contracts.lib import usable
    pats = [p for p in patterns if usable(p)]
    if pats:
        try: return z3.ForAll(vs, body, patterns=pats)
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
def choose(ex, b, x, y, mt, base):
    """x if b else y, as a named value"""
    v = ex.fresh(mt.sort(), base); ex.assume(z3.Implies(b, v == x)); ex.assume(z3.Implies(z3.Not(b), v == y)); return Z(mt, v)
PyVal = S.PyVal; Z = S.Z; TempLV = S.TempLV
class MRow(MT):
    name = "Row"
    def sort(self): return z3.ArraySort(z3.IntSort(), z3.IntSort())
class MRows(MT):
    name = "Rows"
    def sort(self): return z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
I64 = MInt(64, True)
SHAPE = MRec("TShape", [("dims", MSeq(I64)), ("unknown", MBool())], proto="(value)")
TENSOR = MRec("Tensor", [("dtype", MInt(32, True)), ("shape", SHAPE), ("rows", MRows())], proto="(value)")
DIM = MRec("P_TensorShapeProto_Dim", [("size", I64), ("name", MStr())], proto="TensorShapeProto_Dim")
SHAPEP = MRec("P_TensorShapeProto", [("dim", MSeq(DIM)), ("unknown_rank", MBool())], proto="TensorShapeProto")
TPROTO = MRec("P_TensorProto", [("dtype", MInt(32, True)), ("tensor_shape", SHAPEP), ("has_tensor_shape", MBool()), ("tensor_content", MStr()), ("rest", MOpaque("TensorProto values"))], proto="TensorProto")
TYPES = {"tensorflow::Tensor": TENSOR, "tensorflow::TensorShape": SHAPE, "tensorflow::PartialTensorShape": SHAPE, "tensorflow::TensorProto": TPROTO,
         "tensorflow::TensorShapeProto": SHAPEP, "tensorflow::TensorShapeProto_Dim": DIM}
ROW, INT = MRow().sort(), z3.IntSort()
def AS_ROW(t): return z3.Function("as_row", TENSOR.sort(), ROW)(t)
def INNER(sh): return z3.Function("inner_elements", SHAPE.sort(), INT)(sh)
def BYTES(t): return z3.Function("tensor_bytes", TENSOR.sort(), MStr().sort())(t)
D = MSeq(I64)
def dims(sh): return SHAPE.get(sh, "dims")
def ndim(sh): return D.len(dims(sh))
def dim(sh, i): return z3.Select(D.arr(dims(sh)), i)
def same_shape(a, b):
    q = z3.Int("shq")
    return z3.And(ndim(a) == ndim(b), SHAPE.get(a, "unknown") == SHAPE.get(b, "unknown"), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(a)), dim(a, q) == dim(b, q)), patterns=[dim(a, q), dim(b, q)]))
def shift_shape(a, b):
    """a is b with a leading dimension of size one"""
    q = z3.Int("shq")
    return z3.And(ndim(a) == ndim(b) + 1, dim(a, 0) == 1, FA([q], z3.Implies(z3.And(0 <= q, q < ndim(b)), dim(a, q + 1) == dim(b, q)), patterns=[dim(b, q)]))
def g(t, f): return TENSOR.get(t, f)
def rows(t): return g(t, "rows")
def row(t, i): return z3.Select(rows(t), i)
def shp(t): return g(t, "shape")
def wf(ex, t):
    """facts of every tensor"""
    s = shp(t); q = z3.Int("wfq")
    ex.assume_once(z3.And(ndim(s) >= 0, ndim(s) <= 254, INNER(s) >= 0, z3.Not(SHAPE.get(s, "unknown"))))
    ex.assume_once(FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), dim(s, q) >= 0), patterns=[dim(s, q)]))
def fresh_tensor(ex, dtype, shape=None, base="tensor"):
    sh = shape if shape is not None else ex.fresh(SHAPE.sort(), "shape")
    t = TENSOR.mk(dtype, sh, ex.fresh(MRows().sort(), base + "_rows"))
    wf(ex, t); return Z(TENSOR, t)
def root(ex, lv):
    """where the content of a tensor lives: BitcastFrom makes two tensors share it"""
    k = getattr(lv, "key", None)
    a = getattr(ex, "tensor_alias", {}).get(k) if k is not None else None
    return a if a is not None else lv
class ElemLV(S.LV):
    """element (i, j) of the two-dimensional view of a tensor"""
    def __init__(self, lv, i, j, mt): self.lv, self.i, self.j, self.mt = lv, i, j, mt
    def read(self, ex):
        t = ex.z(self.lv.read(ex), TENSOR)
        e = z3.Select(row(t, self.i), self.j); lo, hi = self.mt.rng(); ex.assume_once(z3.And(e >= lo, e <= hi))
        return Z(self.mt, e)
    def write(self, ex, v):
        t = ex.z(self.lv.read(ex), TENSOR)
        S.FieldLV(self.lv, "rows", ex).write(ex, Z(MRows(), z3.Store(rows(t), self.i, z3.Store(row(t, self.i), self.j, ex.z(v, self.mt)))))
def A(ex, n): return [a for a in n["args"] if a is not None]
def method(ex, lv, cls, name, n):
    from . import models as M
    mt = lv.mt; a = A(ex, n)
    if isinstance(mt, MRec) and mt == TENSOR: return tensor_method(ex, lv, name, n, a)
    if isinstance(mt, MRec) and mt == SHAPE: return shape_method(ex, lv, name, n, a)
    raise Unsupported(f"method {cls}::{name}")
def tensor_method(ex, lv, name, n, a):
    from . import models as M
    t = ex.z(lv.read(ex), TENSOR); wf(ex, t)
    if name == "dtype": return Z(MInt(32, True), g(t, "dtype"))
    if name == "shape": return TempLV(Z(SHAPE, shp(t)), SHAPE)
    if name == "dims": return Z(MInt(32, True), ndim(shp(t)))
    if name == "dim_size":
        i = ex.evz(a[0]); ex.obligation("dimension exists", z3.And(i >= 0, i < ndim(shp(t))), ex.line, "safety"); return Z(I64, dim(shp(t), i))
    if name == "NumElements": v = ex.fresh(INT, "nelem"); ex.assume(v >= 0); return Z(I64, v)
    if name in ("IsAligned", "IsInitialized", "SharesBufferWith"): return Z(MBool(), ex.fresh(z3.BoolSort(), name))
    if name == "SubSlice":
        i = ex.evz(a[0]); ex.obligation("slice within bounds", z3.And(ndim(shp(t)) >= 1, i >= 0, i < dim(shp(t), 0)), ex.line, "safety")
        r = fresh_tensor(ex, g(t, "dtype"), base="sub"); q = z3.Int("ssq"); s0, s1 = shp(t), shp(r.e)
        ex.assume(z3.And(ndim(s1) == ndim(s0) - 1, FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s1)), dim(s1, q) == dim(s0, q + 1)), patterns=[dim(s1, q)])))
        ex.assume(AS_ROW(r.e) == row(t, i)); return r
    if name == "Slice":
        i, j = ex.evz(a[0]), ex.evz(a[1]); ex.obligation("slice within bounds", z3.And(ndim(shp(t)) >= 1, i >= 0, i <= j, j <= dim(shp(t), 0)), ex.line, "safety")
        return slice_of(ex, t, i, j)
    if name == "CopyFrom":
        o = ex.z(ex.rv(ex.eval(a[0])), TENSOR); sh = ex.z(ex.rv(ex.eval(a[1])), SHAPE); wf(ex, o)
        b = ex.fresh(z3.BoolSort(), "copied"); r = fresh_tensor(ex, g(o, "dtype"), sh, "copy").e
        ex.assume(z3.Implies(z3.Or(shift_shape(sh, shp(o)), shift_shape(shp(o), sh)), b))
        ex.assume(z3.Implies(shift_shape(sh, shp(o)), row(r, 0) == AS_ROW(o))); ex.assume(z3.Implies(shift_shape(shp(o), sh), AS_ROW(r) == row(o, 0)))
        lv.write(ex, choose(ex, b, r, t, TENSOR, "tensor")); return Z(MBool(), b)
    if name == "BitcastFrom":
        src = ex.eval(a[0]); o = ex.z(ex.rv(src), TENSOR); dt = ex.evz(a[1]); sh = ex.z(ex.rv(ex.eval(a[2])), SHAPE)
        if not hasattr(lv, "key"): raise Unsupported("BitcastFrom on something that is not a local variable")
        if not hasattr(ex, "tensor_alias"): ex.tensor_alias = {}
        srclv = src if isinstance(src, S.LV) else TempLV(Z(TENSOR, o), TENSOR)
        ok = z3.And(sh == shp(o), WIDTH(dt) == WIDTH(g(o, "dtype")))      # sharing is exact only for equal element sizes
        ex.obligation("reinterpreted elements have the same size", ok, ex.line, "safety")
        ex.tensor_alias[lv.key] = root(ex, srclv)
        lv.write(ex, Z(TENSOR, TENSOR.mk(dt, sh, rows(o)))); return Z(MStatus(), z3.IntVal(0))
    if name == "flat_outer_dims":
        ty = ex.ty(n["t"]); el = ty.args[0].args[0] if ty.args else None
        if el is None: raise Unsupported("element type of a tensor view")
        ex.obligation("view of a tensor with at least two dimensions", ndim(shp(t)) >= 2, ex.line, "safety")
        return PyVal("tview", lv=root(ex, lv), shape=shp(t), mt=ex.mt(el))
    if name == "scalar":
        ex.obligation("view of a scalar", ndim(shp(t)) == 0, ex.line, "safety"); return PyVal("tview", lv=root(ex, lv), shape=None, mt=None)
    if name == "flat": return PyVal("tview", lv=root(ex, lv), shape=shp(t), mt="flat")
    if name == "tensor_data": return PyVal("tdata", lv=lv, t=t)
    if name == "AsProtoTensorContent":
        o = ex.deref(ex.rv(ex.eval(a[0]))); o = M.norm_lv(ex, o); o.write(ex, Z(TPROTO, z3.Function("tensor_as_proto", TENSOR.sort(), TPROTO.sort())(t)))
        ex.assume(TPROTO.get(ex.z(o.read(ex), TPROTO), "dtype") == g(t, "dtype")); return None
    if name == "FromProto":
        p = ex.z(ex.rv(ex.eval(a[0])), TPROTO); b = ex.fresh(z3.BoolSort(), "parsed")
        r = z3.Function("tensor_from_proto", TPROTO.sort(), TENSOR.sort())(p); wf(ex, r); tt = z3.Const("tt", TENSOR.sort())
        AP = z3.Function("tensor_as_proto", TENSOR.sort(), TPROTO.sort())
        ex.assume_once(FA([tt], z3.Function("tensor_from_proto", TPROTO.sort(), TENSOR.sort())(AP(tt)) == tt, patterns=[AP(tt)]))
        ex.assume(FA([tt], z3.Implies(p == AP(tt), b), patterns=[AP(tt)]))
        lv.write(ex, choose(ex, b, r, t, TENSOR, "tensor")); return Z(MBool(), b)
    raise Unsupported(f"tensor method {name}")
def slice_of(ex, t, i, j):
    r = fresh_tensor(ex, g(t, "dtype"), base="slice").e; q = z3.Int("slq"); s0, s1 = shp(t), shp(r)
    ex.assume(z3.And(ndim(s1) == ndim(s0), dim(s1, 0) == j - i, FA([q], z3.Implies(z3.And(1 <= q, q < ndim(s1)), dim(s1, q) == dim(s0, q)), patterns=[dim(s1, q)]), INNER(s1) == INNER(s0)))
    ex.assume(FA([q], z3.Implies(z3.And(0 <= q, q < j - i), row(r, q) == row(t, q + i)), patterns=[row(r, q)])); return Z(TENSOR, r)
def WIDTH(dt): return z3.Function("element_bytes", INT, INT)(dt)
# DataType values with their element sizes
INTEGRAL = {3: 4, 4: 1, 5: 2, 6: 1, 9: 8, 17: 2, 22: 4, 23: 8}      # int32 uint8 int16 int8 int64 uint16 uint32 uint64
def widths(ex):
    for d, w in INTEGRAL.items(): ex.assume_once(WIDTH(z3.IntVal(d)) == w)
def shape_method(ex, lv, name, n, a):
    s = ex.z(lv.read(ex), SHAPE)
    ex.assume_once(ndim(s) >= 0)
    if name == "dims": return Z(MInt(32, True), ndim(s))
    if name == "dim_size":
        i = ex.evz(a[0]); ex.obligation("dimension exists", z3.And(i >= 0, i < ndim(s)), ex.line, "safety"); return Z(I64, dim(s, i))
    if name == "unknown_rank": return Z(MBool(), SHAPE.get(s, "unknown"))
    if name == "InsertDim":
        d, v = ex.evz(a[0]), ex.evz(a[1]); r = ex.fresh(SHAPE.sort(), "shape"); q = z3.Int("idq")
        ex.assume(z3.And(ndim(r) == ndim(s) + 1, SHAPE.get(r, "unknown") == SHAPE.get(s, "unknown"), dim(r, d) == v, FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), dim(r, z3.If(q < d, q, q + 1)) == dim(s, q)), patterns=[dim(s, q)])))
        lv.write(ex, Z(SHAPE, r)); return None
    if name == "RemoveDim":
        d = ex.evz(a[0]); ex.obligation("dimension exists", z3.And(d >= 0, d < ndim(s)), ex.line, "safety"); r = ex.fresh(SHAPE.sort(), "shape"); q = z3.Int("rdq")
        ex.assume(z3.And(ndim(r) == ndim(s) - 1, SHAPE.get(r, "unknown") == SHAPE.get(s, "unknown"), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(r)), dim(r, q) == dim(s, z3.If(q < d, q, q + 1))), patterns=[dim(r, q)])))
        lv.write(ex, Z(SHAPE, r)); return None
    if name == "IsCompatibleWith":
        o = ex.z(ex.rv(ex.eval(a[0])), SHAPE); q = z3.Int("cwq")
        return Z(MBool(), compatible(s, o))
    if name == "DebugString": return ex.fresh_val(MStr(), "dbg")
    if name.startswith("operator const tensorflow::PartialTensorShape") or name == "PartialTensorShape &": return lv
    if name == "AsProto":
        o = S.NS and ex.deref(ex.rv(ex.eval(a[0]))); from . import models as M
        o = M.norm_lv(ex, o); o.write(ex, shape_proto(ex, s)); return None
    raise Unsupported(f"shape method {name}")
def compatible(s, o):
    q = z3.Int("cwq")
    return z3.Or(SHAPE.get(s, "unknown"), SHAPE.get(o, "unknown"), z3.And(ndim(s) == ndim(o), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), z3.Or(dim(s, q) < 0, dim(o, q) < 0, dim(s, q) == dim(o, q))))))
PS = MSeq(DIM)
def pdim(p, i): return DIM.get(z3.Select(PS.arr(SHAPEP.get(p, "dim")), i), "size")
def same_proto_shape(p, s):
    q = z3.Int("spq"); P = SHAPEP.get(p, "dim")
    return z3.And(PS.len(P) == ndim(s), SHAPEP.get(p, "unknown_rank") == SHAPE.get(s, "unknown"), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), pdim(p, q) == dim(s, q)), patterns=[pdim(p, q)]), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), pdim(p, q) == dim(s, q)), patterns=[dim(s, q)]))
def shape_proto(ex, s):
    p = ex.fresh(SHAPEP.sort(), "shapeproto"); ex.assume(same_proto_shape(p, s)); return Z(SHAPEP, p)
def ctor(ex, n, t, a):
    name = t.name
    if name == "tensorflow::Tensor":
        if not a: return Z(TENSOR, ex.fresh(TENSOR.sort(), "undef_tensor"))
        if len(a) == 1:
            src = ex.eval(a[0]); v = ex.rv(src)
            if isinstance(v, Z) and v.mt == TENSOR or isinstance(v, S.StructVal): return Z(TENSOR, ex.z(v, TENSOR))
            raise Unsupported("tensor constructor")
        if len(a) == 2:
            dt = ex.evz(a[0]); sh = ex.z(ex.rv(ex.eval(a[1])), SHAPE); return fresh_tensor(ex, dt, sh, "new")
        raise Unsupported("tensor constructor")
    if name in ("tensorflow::TensorShape", "tensorflow::PartialTensorShape"):
        if not a:
            if name.endswith("PartialTensorShape"): return Z(SHAPE, SHAPE.mk(D.empty(), z3.BoolVal(True)))
            return Z(SHAPE, SHAPE.mk(D.empty(), z3.BoolVal(False)))
        if len(a) == 1:
            v = ex.rv(ex.eval(a[0]))
            if isinstance(v, (Z, S.StructVal)) and v.mt == SHAPE: return Z(SHAPE, ex.z(v, SHAPE))
            if isinstance(v, (Z, S.StructVal)) and v.mt == SHAPEP:
                p = ex.z(v, SHAPEP); s = ex.fresh(SHAPE.sort(), "shape"); ex.assume(same_proto_shape(p, s)); return Z(SHAPE, s)
            if isinstance(v, Z) and isinstance(v.mt, MSeq):
                s = ex.fresh(SHAPE.sort(), "shape"); q = z3.Int("scq"); sq = v.e
                ex.assume(z3.And(ndim(s) == v.mt.len(sq), z3.Not(SHAPE.get(s, "unknown")), FA([q], z3.Implies(z3.And(0 <= q, q < ndim(s)), dim(s, q) == z3.Select(v.mt.arr(sq), q)), patterns=[dim(s, q)]))); return Z(SHAPE, s)
    raise Unsupported(f"constructor of {name}")
def call(ex, n, full, name):
    from . import models as M
    a = A(ex, n)
    if full.startswith("tensorflow::DataTypeToEnum") and name == "v":
        import re
        ty = re.search(r"DataTypeToEnum<(.*)>::v", n["fn"]).group(1)
        m = {"unsigned char": 4, "unsigned short": 17, "unsigned int": 22, "unsigned long": 23, "unsigned long long": 23, "signed char": 6, "char": 6, "short": 5, "int": 3, "long": 9, "long long": 9, "double": 2, "float": 1}
        if ty not in m: raise Unsupported(full)
        widths(ex); return Z(MInt(32, True), z3.IntVal(m[ty]))
    if full == "tensorflow::DataTypeString": return ex.fresh_val(MStr(), "dt")
    if full == "tensorflow::tensor::DeepCopy": return Z(TENSOR, ex.z(ex.rv(ex.eval(a[0])), TENSOR))
    if full == "tensorflow::tensor::Concat":
        v = ex.rv(ex.eval(a[0])); mt = v.mt; sq = ex.z(v, mt); out = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(a[1]))))
        return concat(ex, mt, sq, out)
    raise Unsupported(f"function {full}")
def OFFS(sq): return z3.Function("row_offset", sq.sort(), INT, INT)
def fitting(mt, sq):
    """the same shapes apart from the first dimension (Concat does not check this)"""
    q, r = z3.Ints("ccq ccr"); el = lambda i: z3.Select(mt.arr(sq), i); s0 = shp(el(z3.IntVal(0)))
    return FA([q], z3.Implies(z3.And(0 <= q, q < mt.len(sq)), z3.And(ndim(shp(el(q))) == ndim(s0), FA([r], z3.Implies(z3.And(1 <= r, r < ndim(s0)), dim(shp(el(q)), r) == dim(s0, r)), patterns=[dim(shp(el(q)), r)]))), patterns=[el(q)])
def concat(ex, mt, sq, out):
    """rows of the inputs one after another; fails exactly if there is no input, one has no dimension, or the types differ"""
    n = mt.len(sq); q, r = z3.Ints("ccq ccr"); el = lambda i: z3.Select(mt.arr(sq), i); off = lambda i: OFFS(sq)(sq, i)
    st = ex.fresh(INT, "concat_status"); ex.assume(st >= 0)
    t = fresh_tensor(ex, g(el(z3.IntVal(0)), "dtype"), base="concat").e; s = shp(t); s0 = shp(el(z3.IntVal(0)))
    ok = st == 0
    alike = fitting(mt, sq)
    types = z3.And(n >= 1, FA([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(g(el(q), "dtype") == g(el(z3.IntVal(0)), "dtype"), ndim(shp(el(q))) >= 1)), patterns=[el(q)]))
    ex.obligation("concatenated tensors fit together", z3.Implies(types, alike), ex.line, "safety"); ex.assume(z3.Implies(types, alike)); ex.assume(ok == types)
    ex.assume(off(z3.IntVal(0)) == 0); ex.assume(FA([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(off(q + 1) == off(q) + dim(shp(el(q)), 0), dim(shp(el(q)), 0) >= 0)), patterns=[off(q), ]))
    ex.assume(FA([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(off(q + 1) == off(q) + dim(shp(el(q)), 0))), patterns=[off(q + 1)]))
    ex.assume(z3.Implies(ok, z3.And(n >= 1, ndim(s) == ndim(s0), ndim(s) >= 1, dim(s, 0) == off(n), FA([r], z3.Implies(z3.And(1 <= r, r < ndim(s)), dim(s, r) == dim(s0, r)), patterns=[dim(s, r)]), INNER(s) == INNER(s0))))
    ex.assume(z3.Implies(ok, FA([q, r], z3.Implies(z3.And(0 <= q, q < n, 0 <= r, r < dim(shp(el(q)), 0)), row(t, off(q) + r) == row(el(q), r)), patterns=[z3.MultiPattern(off(q), row(el(q), r))])))
    ones = FA([q], z3.Implies(z3.And(0 <= q, q < n), dim(shp(el(q)), 0) == 1))
    ex.assume(z3.Implies(z3.And(ok, ones), z3.And(off(n) == n, FA([q], z3.Implies(z3.And(0 <= q, q < n), row(t, q) == row(el(q), 0)), patterns=[row(t, q)]))))
    for h in getattr(ex, "concat_hooks", []): h(mt, sq)
    out.write(ex, choose(ex, ok, t, ex.z(out.read(ex), TENSOR), TENSOR, "concat")); return Z(MStatus(), st)
def cell(v):
    """the content of an element: integers are themselves"""
    return v if v.sort() == INT else z3.Function("bits_of_double", z3.RealSort(), INT)(v)
class ScalarLV(S.LV):
    """the only element of a scalar"""
    def __init__(self, lv, mt): self.lv, self.mt = lv, mt
    def read(self, ex): raise Unsupported("reading a scalar tensor")
    def write(self, ex, v):
        t = ex.z(self.lv.read(ex), TENSOR); r = fresh_tensor(ex, g(t, "dtype"), shp(t), "scalar"); ex.assume(z3.Select(AS_ROW(r.e), 0) == cell(ex.z(v, self.mt))); self.lv.write(ex, r)
def fill(ex, b, e, v):
    """std::fill over all elements of a tensor with one dimension"""
    t = ex.z(b.lv.read(ex), TENSOR); q = z3.Int("flq")
    ex.obligation("exactly the elements of a one-dimensional tensor are filled", z3.And(b.lv is e.lv or b.lv.key == e.lv.key, ndim(shp(t)) == 1, b.off == 0, e.off == dim(shp(t), 0)), ex.line, "safety")
    r = fresh_tensor(ex, g(t, "dtype"), shp(t), "filled"); ex.assume(FA([q], z3.Implies(z3.And(0 <= q, q < dim(shp(t), 0)), z3.Select(row(r.e, q), 0) == cell(v)), patterns=[row(r.e, q)])); b.lv.write(ex, r)
def opcall(ex, n, v, op):
    a = A(ex, n)
    if isinstance(v, PyVal) and v.kind == "tview" and op == "()" and v.shape is None and len(a) == 1: return ScalarLV(v.lv, ex.mt(ex.ty(n["t"]).strip()))
    if isinstance(v, PyVal) and v.kind == "tview" and op == "()":
        if len(a) != 3 or isinstance(v.mt, str): raise Unsupported("view index")
        i, j = ex.evz(a[1]), ex.evz(a[2])
        ex.obligation("element index within bounds", z3.And(i >= 0, i < dim(v.shape, 0), j >= 0, j < INNER(v.shape)), ex.line, "safety")
        return ElemLV(v.lv, i, j, v.mt)
    return None
def view_method(ex, v, name, n):
    a = A(ex, n)
    if name == "data" and isinstance(v.mt, str): return PyVal("tptr", lv=v.lv, off=z3.IntVal(0))
    if name == "dimension":
        i = ex.evz(a[0]); i = z3.simplify(i).as_long()
        return Z(I64, dim(v.shape, 0) if i == 0 else INNER(v.shape))
    raise Unsupported(f"view method {name}")
