"""Contracts of tensor compression (C14)."""
from z3 import *
from vc import tf
from vc.tf import TENSOR, TPROTO, SHAPE, ndim, dim, rows, row, shp, INNER, WIDTH, BYTES
from contracts.lib import fa, eqv
i, j = Ints("i j")
Row = tf.ROW
STR = 7
POW = Function("pow256", IntSort(), IntSort())
# UNDELTA(rows, width): the rows obtained by adding up the differences
UNDELTA = Function("undelta", tf.MRows().sort(), IntSort(), tf.MRows().sort())
COMP = Function("snappy_compress", tf.MStr().sort(), tf.MStr().sort())
UNCOMP = Function("snappy_uncompress", tf.MStr().sort(), tf.MStr().sort())
AP = Function("tensor_as_proto", TENSOR.sort(), TPROTO.sort())
# content of the first n elements of a row
CONTENT = Function("content", IntSort(), Row, IntSort())
def dt(t): return TENSOR.get(t, "dtype")
def integral(d): return Or(*[d == x for x in tf.INTEGRAL])
def delta_coded(t): return And(integral(dt(t)), ndim(shp(t)) >= 2)
def decoded_rows(t): return If(delta_coded(t), UNDELTA(rows(t), WIDTH(dt(t))), rows(t))
def wrap(v, w): return v % {1: 256, 2: 65536, 4: 2 ** 32, 8: 2 ** 64}[w]
def same_type(a, b): return And(dt(a) == dt(b), tf.same_shape(shp(a), shp(b)))
def same_tensor_def(a, b):
    """same type, shape and content in every row"""
    return And(same_type(a, b), fa([i, j], Implies(And(0 <= i, i < dim(shp(a), 0), 0 <= j, j < INNER(shp(a))), row(a, i)[j] == row(b, i)[j]), row(a, i)[j]))
def encodes_def(p, t):
    """the message p holds the tensor t, as CompressTensorAsProto writes it"""
    return And(TPROTO.get(p, "dtype") == dt(t), And(Implies(dt(t) == STR, p == AP(t)), Implies(dt(t) != STR, And(tf.same_proto_shape(TPROTO.get(p, "tensor_shape"), shp(t)), UNCOMP(TPROTO.get(p, "tensor_content")) == BYTES(t)))))
# names of the two relations above, for the callers of the functions whose contracts are about them
ENC = Function("encodes", TPROTO.sort(), TENSOR.sort(), BoolSort()); SAME = Function("same_tensor", TENSOR.sort(), TENSOR.sort(), BoolSort())
def impl(c): return getattr(c, "is_impl", False)
def encodes(p, t): return ENC(p, t)
def same_tensor(a, b): return SAME(a, b)
def register(S):
    sa, sb = Consts("st_a st_b", TENSOR.sort()); S.axioms.append(ForAll([sa, sb], Implies(SAME(sa, sb), same_tensor_def(sa, sb)), patterns=[SAME(sa, sb)]))
    ep, et = Const("enc_p", TPROTO.sort()), Const("enc_t", TENSOR.sort())
    S.axioms.append(ForAll([ep, et], Implies(ENC(ep, et), tf.same_proto_shape(TPROTO.get(ep, "tensor_shape"), shp(et))), patterns=[ENC(ep, et)]))
    S.axioms.append(ForAll([et], tf.same_proto_shape(TPROTO.get(AP(et), "tensor_shape"), shp(et)), patterns=[AP(et)]))
    S.assumptions.add("Tensor::AsProtoTensorContent records the tensor's shape")
    s = Const("snp_s", tf.MStr().sort()); a, b = Consts("cp_a cp_b", TENSOR.sort())
    S.axioms.append(ForAll([s], UNCOMP(COMP(s)) == s, patterns=[COMP(s)]))
    S.assumptions.add("snappy::Uncompress undoes snappy::Compress")
    S.axioms += [WIDTH(IntVal(d)) == w for d, w in tf.INTEGRAL.items()]
    S.axioms.append(ForAll([a, b], Implies(tf.same_shape(shp(a), shp(b)), INNER(shp(a)) == INNER(shp(b))), patterns=[MultiPattern(INNER(shp(a)), INNER(shp(b)))]))
    S.axioms.append(ForAll([a, b], Implies(And(BYTES(a) == BYTES(b), dt(a) == dt(b), dt(a) != STR, tf.same_shape(shp(a), shp(b))), fa([i, j], Implies(And(0 <= i, i < dim(shp(a), 0), 0 <= j, j < INNER(shp(a))), row(a, i)[j] == row(b, i)[j]), row(a, i)[j])), patterns=[MultiPattern(BYTES(a), BYTES(b))]))
    S.assumptions.add("the bytes of a tensor (Tensor::tensor_data) determine its content, given type and shape")
    delta(S); snappy(S); proto(S)
def undelta_at(R, w, x, y):
    """definition of UNDELTA at one element"""
    U = UNDELTA(R, IntVal(w)); return If(x == 0, U[0][y] == R[0][y], Implies(x >= 1, U[x][y] == wrap(R[x][y] + U[x - 1][y], w)))
def delta(S):
    for code, w in (("c", 1), ("s", 2), ("i", 4), ("l", 8)): instance(S, code, w)
    dispatch(S)
def instance(S, code, w):
    def inb(t): return And(0 <= i, i < dim(shp(t), 0), 0 <= j, j < INNER(shp(t)))
    def enc_at(src, out, x, y): return out[x][y] == If(x == 0, src[x][y], wrap(src[x][y] - src[x - 1][y], w))
    def ent(src, out, x, y): return out[x][y] == UNDELTA(src, IntVal(w))[x][y]
    def both(c, src, out, x, y): return And(Implies(c.args[1].e, enc_at(src, out, x, y)), Implies(Not(c.args[1].e), ent(src, out, x, y)))
    def done(L, upto, col=None):
        c = L.fctx; src = rows(c.arg(0).e); t = L.local("output").e; out = rows(t)
        f = lambda x, y: both(c, src, out, x, y)
        if col is not None:
            for y in (col[1], col[1] - 1): L.ex.assume_once(undelta_at(src, w, col[0], y))
        r = [("the output keeps its type", And(dt(t) == dt(c.arg(0).e), shp(t) == shp(c.arg(0).e)))]
        if upto is not None: r.append(("finished rows", fa([i, j], Implies(And(0 <= i, i < upto, 0 <= j, j < INNER(shp(t))), f(i, j)), out[i][j])))
        if col is not None: r.append(("finished part of the row", fa(j, Implies(And(0 <= j, j < col[1]), f(col[0], j)), out[col[0]][j])))
        return r
    def l0(L): n = L.counter(); return done(L, None, (IntVal(0), n)) + [("column counter", And(0 <= n, n <= INNER(shp(L.local("output").e))))]
    def l1(L): n = L.local("i"); s = shp(L.local("output").e); return done(L, n) + [("row counter", And(1 <= n, n <= dim(s, 0)))]
    def l2(L):
        n, m = L.local("i"), innerj(L); s = shp(L.local("output").e)
        return done(L, n, (n, m)) + [("counters", And(1 <= n, n < dim(s, 0), 0 <= m, m <= INNER(s)))]
    def innerj(L): return L.counter()
    def post(c):
        t, r = c.arg(0).e, c.res.e; src, out = rows(t), rows(r)
        res = [("type and shape are kept", same_type(t, r)),
               ("encoding takes differences of neighbouring rows", Implies(c.args[1].e, fa([i, j], Implies(inb(t), enc_at(src, out, i, j)), out[i][j]))),
               ("decoding adds the differences up", Implies(Not(c.args[1].e), fa([i, j], Implies(inb(t), ent(src, out, i, j)), out[i][j])))]
        return res
    def ens(c):
        t, r = c.arg(0).e, c.res.e; src, out = rows(t), rows(r); U = UNDELTA(out, IntVal(w)); ex = c.ex; o = post(c)
        if getattr(c, "is_impl", False):
            def cols(f): return fa(j, Implies(And(0 <= j, j < INNER(shp(t)), c.args[1].e), f(j)))
            for lab, f in o: ex.obligation(f"{lab} (postcondition)", f, ex.line, "post"); ex.assume(f)
            ex.assume(fa([i, j], Implies(inb(t), And(0 <= src[i][j], src[i][j] < 2 ** (8 * w))), src[i][j]))
            ex.induct("adding up the differences gives the original rows", dim(shp(t), 0), lambda e: fa(j, Implies(And(0 <= j, j < INNER(shp(t)), c.args[1].e), U[e][j] == src[e][j]), src[e][j]),
                      hint=lambda e: fa(j, Implies(And(0 <= j, j < INNER(shp(t)), c.args[1].e), And(enc_at(src, out, e, j), undelta_at(out, w, e, j))), src[e][j]))
        return o + [("decoding an encoded tensor gives back its rows", Implies(c.args[1].e, fa([i, j], Implies(inb(t), U[i][j] == src[i][j]), src[i][j])))]
    S.contract("DeltaEncode", static=True, usr=rf"DeltaEncode<#{code}>", tag=f"{8 * w} bit", nparams=2, requires=lambda c: [("an integral tensor with rows", And(ndim(shp(c.arg(0).e)) >= 2, WIDTH(dt(c.arg(0).e)) == w, dim(shp(c.arg(0).e), 0) >= 1))],
               opts={"exact_casts": True, "exact_unsigned": True}, ensures=ens, loops={0: l0, 1: l1, 2: l2})
def dispatch(S):
    S.contract("DeltaEncode", static=True, usr=r"F@DeltaEncode#", tag="dispatch", nparams=2, ensures=lambda c: coded(c.arg(0).e, c.res.e, c.args[1].e))
    k = Int("le_k")
    def each(ts, out, n, enc): return [(lab, fa(k, Implies(And(0 <= k, k < n), f), out.arr[k])) for lab, f in coded(ts.arr[k], out.arr[k], enc)]
    S.contract("DeltaEncodeList", static=True, nparams=2, ensures=lambda c: [("one result per tensor", c.res.len == c.arg(0).len)] + each(c.arg(0), c.res, c.res.len, c.args[1].e),
               loops={0: lambda L: [("one result per tensor so far", L.local("outputs").len == L.i)] + each(L.fctx.arg(0), L.local("outputs"), L.i, L.fctx.args[1].e)})
def coded(t, r, enc):
    """r is t encoded (or decoded)"""
    inb = And(0 <= i, i < dim(shp(t), 0), 0 <= j, j < INNER(shp(t)))
    return [("type and shape are kept", same_type(t, r)), ("other tensors are passed through", Implies(Not(delta_coded(t)), r == t)),
            ("decoding gives the decoded rows", Implies(Not(enc), fa([i, j], Implies(inb, row(r, i)[j] == decoded_rows(t)[i][j]), row(r, i)[j]))),
            ("encoding can be undone", Implies(enc, fa([i, j], Implies(inb, decoded_rows(r)[i][j] == row(t, i)[j]), row(t, i)[j], row(r, i)[j], UNDELTA(rows(r), WIDTH(dt(r)))[i][j])))]
def snappy(S):
    from vc import models as M, sym as X
    def compress(ex, n):
        src = ex.rv(ex.eval(n["args"][0])); out = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][1]))))
        if isinstance(src, X.PyVal) and src.kind == "tdata": b = BYTES(src.t)
        else: b = ex.z(src, tf.MStr())
        out.write(ex, X.Z(tf.MStr(), COMP(b))); v = ex.fresh(IntSort(), "nbytes"); ex.assume(v >= 0); return X.Z(tf.MInt(64, False), v)
    def uncompress(ex, n):
        src = ex.evz(n["args"][0]); cap = ex.evz(n["args"][1]); p = ex.rv(ex.eval(n["args"][2])); ok = ex.fresh(BoolSort(), "uncompressed")
        if not (isinstance(p, X.PyVal) and p.kind == "tbytes"): raise X.Unsupported("uncompressing into something that is not a tensor")
        t = ex.z(p.lv.read(ex), TENSOR)
        ex.obligation("the capacity handed over is the size of the buffer", cap == M.str_len(BYTES(t)), ex.line, "safety")
        r = ex.fresh(TENSOR.sort(), "filled"); ex.assume(And(dt(r) == dt(t), shp(r) == shp(t), Implies(M.str_len(UNCOMP(src)) == M.str_len(BYTES(t)), BYTES(r) == UNCOMP(src))))
        p.lv.write(ex, X.Z(TENSOR, r)); return X.Z(tf.MBool(), ok)
    S.call_models["deepmind::reverb::SnappyCompressFromString"] = compress
    S.call_models["deepmind::reverb::SnappyUncompressToString"] = uncompress
    a, b = Consts("sz_a sz_b", TENSOR.sort())
    S.axioms.append(ForAll([a, b], Implies(And(dt(a) == dt(b), dt(a) != STR, tf.same_shape(shp(a), shp(b))), M.str_len(BYTES(a)) == M.str_len(BYTES(b))), patterns=[MultiPattern(BYTES(a), BYTES(b))]))
    S.assumptions.add("SnappyCompressFromString / SnappyUncompressToString (platform/default/snappy.cc) hand the whole buffer to snappy; the native harness exercises them")
def proto(S):
    t = Const("dec_t", TENSOR.sort())
    S.contract("CompressTensorAsProto", static=True, on_call=lambda ex, c: setattr(ex, "compressed", c.arg(0).e), nonnull=(1,), modifies=[("arg", 1)], ensures=lambda c: [("the message holds the tensor", (encodes_def if impl(c) else encodes)(c.ptrpost(1).e, c.arg(0).e)), ("the message has the tensor's shape", tf.same_proto_shape(TPROTO.get(c.ptrpost(1).e, "tensor_shape"), shp(c.arg(0).e)))])
    def dec_post(c):
        if impl(c): x = c.ex.fresh(TENSOR.sort(), "held"); tf.wf(c.ex, x); f = Implies(encodes_def(c.arg(0).e, x), same_tensor_def(c.res.e, x))
        else: f = fa(t, Implies(encodes(c.arg(0).e, t), same_tensor(c.res.e, t)), encodes(c.arg(0).e, t))
        return [("the tensor held by the message is returned", f)]
    S.contract("DecompressTensorFromProto", static=True, may_abort=True, ensures=dec_post)
