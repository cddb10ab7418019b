"""Contracts of data references and their chunks, and of unpacking a chunk column (shared by C15, C20, C24)."""
from z3 import *
from vc.mtypes import *
from vc import tf
from vc.tf import TENSOR, shp, ndim, dim, row, INNER
from vc.specs import Monitor
from contracts.lib import fa
from contracts.compression import same_tensor_def, UNDELTA, WIDTH, delta_coded, undelta_at, encodes, decoded_rows, same_tensor, dt
CELL, BOX = "CellRef", "ChunkDataContainer"
r, a, b, j, i = Ints("r a b j i")
VAL = Function("appended_value", IntSort(), TENSOR.sort())          # the tensor a reference was created for
TENS = Function("column_of_chunk", IntSort(), TENSOR.sort())        # the tensor compressed into a chunk container
def rowsame(x, y, n): return fa(j, Implies(And(0 <= j, j < n), x[j] == y[j]), x[j])
def cell(v, f): return v.harr(f"{CELL}.{f}", v.ex.field_mt(CELL, f))
def key(v, x): return Select(cell(v, "chunk_key_"), x)
def off(v, x): return Select(cell(v, "offset_"), x)
def epi(v, x): return v.ex.field_mt(CELL, "episode_info_").get(Select(cell(v, "episode_info_"), x), "episode_id")
def step(v, x): return v.ex.field_mt(CELL, "episode_info_").get(Select(cell(v, "episode_info_"), x), "step")
def box(v, x): return Select(cell(v, "chunk_"), x)
def held(v, c): return Select(v.harr(f"{BOX}.chunk", v.ex.field_mt(BOX, "chunk")), c)
def data(v, c):
    mt = v.ex.mt(v.ex.field_mt(BOX, "chunk").to_ty); return mt, Select(v.harr("obj." + mt.name, mt), held(v, c))
def tensors(v, c):
    mt, d = data(v, c); t = mt.ft("data").get(mt.get(d, "data"), "tensors"); smt = mt.ft("data").ft("tensors"); return smt.len(t), smt.arr(t)
def decoded(d, t): return If(d, decoded_rows(t), tf.rows(t))
def holds(v, c, x):
    """the chunk in container c, if still there, holds the value of reference x at x's offset"""
    mt, d = data(v, c); n, arr = tensors(v, c); T = TENS(c); rg = mt.ft("sequence_range"); q = mt.get(d, "sequence_range"); V = VAL(x)
    return [("the container exists", And(c > 0, c < v.alloc)),
            ("the chunk has the key of the reference", Implies(held(v, c) != 0, And(held(v, c) > 0, mt.get(d, "chunk_key") == key(v, x)))),
            ("the chunk has a column with a row for the reference", Implies(held(v, c) != 0, And(n >= 1, encodes(arr[0], T), ndim(shp(T)) >= 1, 0 <= off(v, x), off(v, x) < dim(shp(T), 0)))),
            ("the row has the type and shape of the appended value", Implies(held(v, c) != 0, And(dt(T) == dt(V), Not(tf.SHAPE.get(shp(V), "unknown")), ndim(shp(V)) >= 0, ndim(shp(T)) == ndim(shp(V)) + 1, fa(i, Implies(And(0 <= i, i < ndim(shp(V))), dim(shp(T), i + 1) == dim(shp(V), i)), dim(shp(V), i))))),
            ("the row is the appended value", Implies(held(v, c) != 0, rowsame(decoded(mt.get(d, "delta_encoded"), T)[off(v, x)], tf.AS_ROW(V), INNER(shp(T))))),
            ("the recorded range contains the reference", Implies(held(v, c) != 0, And(mt.get(d, "has_sequence_range"), rg.get(q, "episode_id") == epi(v, x), rg.get(q, "start") <= step(v, x), step(v, x) <= rg.get(q, "end"))))]
def stay(v0, v1):
    """built chunks stay"""
    return fa(r, Implies(box(v0, r) != 0, box(v1, r) == box(v0, r)), box(v1, r))
def register(S):
    S.monitor(Monitor(f"{CELL}.mu_", CELL, [f"{CELL}.chunk_"],
        inv=lambda o: [(lab, Implies(o.chunk_ != 0, f)) for lab, f in holds(o._view, o.chunk_, o.ref)] + [("a container or none", o.chunk_ >= 0)]))
    impl = lambda c: getattr(c, "is_impl", False)
    me = lambda c: box(c.V1, c.thisref)
    S.contract(f"{CELL}::{CELL}", nparams=4, ensures=lambda c: [("the reference has the given key, offset and episode", And(c.post.chunk_key_ == c.arg(1), c.post.offset_ == c.arg(2), c.post.episode_info_.episode_id == c.arg(3).episode_id, c.post.episode_info_.step == c.arg(3).step)), ("its chunk is not built yet", c.post.chunk_ == 0)],
               on_call=lambda ex, c: ex.cell_hook(c) if hasattr(ex, "cell_hook") else None)
    S.contract(f"{BOX}::{BOX}", nparams=1, ensures=lambda c: [("the container has the given chunk", c.post.chunk == c.arg(0))], on_call=lambda ex, c: ex.assume(TENS(c.thisref) == ex.compressed) if hasattr(ex, "compressed") else None)
    for f, g in (("chunk_key", "chunk_key_"), ("offset", "offset_")):
        S.contract(f"{CELL}::{f}", modifies=[], ensures=lambda c, g=g: [("the value given at creation", c.res == getattr(c.pre, g))])
    S.contract(f"{CELL}::episode_id", modifies=[], ensures=lambda c: [("the value given at creation", c.res == epi(c.V0, c.thisref))])
    S.contract(f"{CELL}::episode_step", modifies=[], ensures=lambda c: [("the value given at creation", c.res == step(c.V0, c.thisref))])
    grown = lambda c: [] if impl(c) else [("built chunks stay", stay(c.V0, c.V1))]
    S.contract(f"{CELL}::IsReady", modifies=[("all", f"{CELL}.chunk_")], ensures=lambda c: grown(c) + [("ready means that the chunk is built", c.res == (me(c) != 0))])
    S.contract(f"{CELL}::GetChunk", modifies=[("all", f"{CELL}.chunk_")], ensures=lambda c: grown(c) + [("the chunk of the reference", c.res == me(c))] + [(lab, Implies(c.res != 0, f)) for lab, f in holds(c.V1, c.res, c.thisref)] + [("a container or none", c.res >= 0)])
    S.contract(f"{CELL}::SetChunk", nonnull=(0,), modifies=["chunk_"], requires=lambda c: holds(c.V0, c.arg(0), c.thisref), ensures=lambda c: [("the reference has its chunk", me(c) == c.arg(0))])
    S.assumptions.add("a data reference's chunk is set once (by FlushLocked, on references whose chunk is not built yet) and stays afterwards")
    S.assumptions.add("definition of ghost values: appended_value(ref) is the tensor Append created ref for; column_of_chunk(container) is the tensor FlushLocked compressed into it")
    unpack(S)
def rows_of(d, t, out, col_delta=None):
    """out is the decoded tensor t"""
    return And(fa([i, j], Implies(And(ndim(shp(t)) >= 1, 0 <= i, i < dim(shp(t), 0), 0 <= j, j < INNER(shp(t))), row(out, i)[j] == decoded(d, t)[i][j]), row(out, i)[j]))
def undelta_lemma(ex, c):
    """adding up the differences gives equal rows for tensors with equal rows"""
    x, y = ex.fresh(TENSOR.sort(), "la"), ex.fresh(TENSOR.sort(), "lb"); tf.wf(ex, x); tf.wf(ex, y)
    for w in (1, 2, 4, 8):
        X, Y = UNDELTA(tf.rows(x), IntVal(w)), UNDELTA(tf.rows(y), IntVal(w)); n, m = dim(shp(x), 0), INNER(shp(x))
        prem = lambda x, y: And(same_tensor_def(x, y), ndim(shp(x)) >= 2)
        def P(e): return Implies(prem(x, y), fa(j, Implies(And(0 <= j, j < m), X[e][j] == Y[e][j]), X[e][j]))
        def hint(e): return fa(j, Implies(And(0 <= j, j < m), And(undelta_at(tf.rows(x), w, e, j), undelta_at(tf.rows(y), w, e, j))), X[e][j])
        ex.induct(f"equal rows decode to equal rows ({8 * w} bit)", n, P, hint)
    A_, B_ = Consts("ul_a ul_b", TENSOR.sort())
    def U(x): return UNDELTA(tf.rows(x), WIDTH(dt(x)))
    def general(x, y, same=same_tensor_def): return Implies(And(same(x, y), delta_coded(x)), And(delta_coded(y), fa([i, j], Implies(And(0 <= i, i < dim(shp(x), 0), 0 <= j, j < INNER(shp(x))), U(x)[i][j] == U(y)[i][j]), U(x)[i][j])))
    g = general(x, y)
    for d in tf.INTEGRAL: ex.obligation(f"equal rows decode to equal rows (type {d})", Implies(dt(x) == d, g), ex.line, "lemma")
    ex.assume(fa([A_, B_], general(A_, B_, same_tensor), same_tensor(A_, B_)))
def unpack(S):
    impl = lambda c: getattr(c, "is_impl", False)
    t = Const("up_t", TENSOR.sort())
    INVALID = 3
    def col(c): return c.arg(0).data.tensors
    def uc_post(c):
        d = c.arg(0); n = col(c).len; k = c.arg(1); o = c.ptrpost(2).e
        return [("exactly the chunk's columns can be unpacked", (c.res == 0) == And(0 <= k, k < n)), ("other columns are invalid arguments", Implies(c.res != 0, And(c.res == INVALID, o == c.ptr(2).e))),
                ("the column is returned with its type and shape", Implies(c.res == 0, each(c, k, lambda t: Implies(encodes(col(c).arr[k], t), And(dt(o) == dt(t), tf.same_shape(shp(o), shp(t))))))),
                ("the decoded rows are returned", Implies(c.res == 0, each(c, k, lambda t: Implies(encodes(col(c).arr[k], t), rows_of(d.delta_encoded, t, o)))))]
    def each(c, k, f):
        """for every tensor the column may hold (an arbitrary one, when the implementation is verified)"""
        if impl(c): x = c.ex.fresh(TENSOR.sort(), "held"); tf.wf(c.ex, x); return f(x)
        return fa(t, f(t), encodes(col(c).arr[k], t))
    S.contract("internal::UnpackChunkColumn", static=True, nparams=3, nonnull=(2,), may_abort=True, modifies=[("arg", 2)], ensures=uc_post, setup=undelta_lemma)
    def slice_post(c, k, f, n, out):
        d = c.arg(0); o = c.ptrpost(out).e; T = col(c).arr[k]
        def inside(t): return And(f >= 0, n >= 0, f + n <= dim(shp(t), 0))
        def is_slice(t): return And(dt(o) == dt(t), ndim(shp(o)) == ndim(shp(t)), dim(shp(o), 0) == n, fa(i, Implies(And(1 <= i, i < ndim(shp(t))), dim(shp(o), i) == dim(shp(t), i)), dim(shp(o), i)),
            fa([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < INNER(shp(t))), row(o, i)[j] == decoded(d.delta_encoded, t)[f + i][j]), row(o, i)[j]))
        return [("columns that do not exist are refused", Implies(Not(And(0 <= k, k < col(c).len)), c.res != 0)),
                ("a refusal is an invalid argument", Or(c.res == 0, c.res == INVALID)),
                ("exactly the ranges inside the column are accepted", each(c, k, lambda t: Implies(And(0 <= k, k < col(c).len, encodes(T, t), ndim(shp(t)) >= 1), (c.res == 0) == inside(t)))),
                ("exactly the requested rows are returned", Implies(c.res == 0, each(c, k, lambda t: Implies(And(encodes(T, t), ndim(shp(t)) >= 1), is_slice(t)))))]
    S.contract("internal::UnpackChunkColumnAndSlice", static=True, nparams=5, nonnull=(4,), may_abort=True, modifies=[("arg", 4)], ensures=lambda c: slice_post(c, c.arg(1), c.arg(2), c.arg(3), 4))
    S.contract("internal::UnpackChunkColumnAndSlice", static=True, nparams=3, nonnull=(2,), may_abort=True, modifies=[("arg", 2)], ensures=lambda c: slice_post(c, c.arg(1).index, c.arg(1).offset, c.arg(1).length, 2))
