"""Contracts of the trajectory writer (C17, C18)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M, tf
from vc.tf import shp, ndim, dim
from contracts.lib import fa, same
from contracts.cells import CELL, key, off
from contracts.chunk_store import held
from contracts.trajectory import Traj
from vc.specs import Monitor
i, j, c_, k = Ints("i j c k")
OK, INVALID, FAILED, UNAVAILABLE, INTERNAL = 0, 3, 9, 14, 13
CLS, COL = "TrajectoryWriter", "TrajectoryColumn"
def expands(v, S, el, R, n, g, each=None):
    """the slices S are the references R[0..n) one by one: reference i is row PN(i) of slice SL(i) (each: for every c_, with a condition and a trigger)"""
    SL, PN, FI = g; f = lambda s, x: el.get(Select(S.arr, s), x); m = S.len
    if each is None: q = lambda cond, body, trig: fa(i, Implies(cond, body), trig); one = lambda body: body
    else: q = lambda cond, body, trig: fa([c_, i], Implies(And(each[0], cond), body), trig); one = lambda body: fa(c_, Implies(each[0], body), each[1])
    return [("slices exist exactly for references", one(And(m >= 0, (m == 0) == (n == 0)))),
            ("every reference is the row of its slice", q(And(0 <= i, i < n), And(0 <= SL(i), SL(i) < m, f(SL(i), "chunk_key") == key(v, R[i]), f(SL(i), "offset") + PN(i) == off(v, R[i]), 0 <= PN(i), PN(i) < f(SL(i), "length")), R[i])),
            ("every slice is used by a reference", q(And(0 <= i, i < m), And(0 <= FI(i), FI(i) < n, SL(FI(i)) == i, f(i, "chunk_key") == key(v, R[FI(i)])), S.arr[i] if each is None else FI(i))),
            ("rows follow one another as the references do", q(And(1 <= i, i < n), And(f(SL(i), "chunk_key") == key(v, R[i]), SL(i - 1) <= SL(i), SL(i) <= SL(i - 1) + 1, Implies(SL(i) == SL(i - 1), PN(i) == PN(i - 1) + 1), Implies(SL(i) != SL(i - 1), PN(i) == 0)), R[i])),
            ("a slice ends with its last reference", q(And(1 <= i, i < n), And(f(SL(i), "chunk_key") == key(v, R[i]), Implies(SL(i) == SL(i - 1) + 1, PN(i - 1) == f(SL(i - 1), "length") - 1)), R[i])),
            ("the first reference is the first row", one(Implies(n > 0, And(SL(0) == 0, PN(0) == 0)))),
            ("the last reference is the last row", one(Implies(n > 0, And(SL(n - 1) == m - 1, PN(n - 1) == f(m - 1, "length") - 1))))]
CONFIRMED = Function("confirmed_by_the_server", IntSort(), BoolSort())
def qkey(o, i): Q = o.write_queue_; el = Q._mt.el; return el.ft("item").get(el.get(Select(Q.arr, i), "item"), "key")
def moves(ex, a, b, role, own):
    """what one thread may do while it holds the lock (own), or what the others may have done meanwhile: items leave the queue only at its front,
    by the worker, once they are in flight or confirmed; they stop being in flight only when confirmed, or while they are still at the front of the queue"""
    P, Q = a.write_queue_, b.write_queue_; A, B = a.in_flight_items_.e, b.in_flight_items_.e
    kept = lambda d: And(d <= P.len, Q.len >= P.len - d, fa(j, Implies(And(d <= j, j < P.len), Q.arr[j - d] == P.arr[j]), P.arr[j]))
    done = lambda x: Or(B[x], CONFIRMED(x))
    stay = [("an unrecoverable error stays", Implies(a.unrecoverable_status_ != OK, b.unrecoverable_status_ != OK)), ("a closed writer stays closed", Implies(a.closed_, b.closed_))]
    worker_moves = (role == "worker") == own            # the worker itself, or seen by somebody else
    if role == "reader" and own: return stay + [("the reader does not touch the queue", Q.e == P.e), ("items leave the set of items in flight only when confirmed", fa(k, Implies(A[k], done(k)), B[k])), ("the reader adds nothing", fa(k, Implies(B[k], A[k]), B[k]))]
    if role == "worker" and not own: return stay + [("others only append", kept(0)), ("others do not add items in flight", fa(k, Implies(B[k], A[k]), B[k])), ("only confirmed items leave the set of items in flight", fa(k, Implies(A[k], done(k)), A[k]))]
    if role == "worker": 
        d = P.len - Q.len
        return stay + [("the worker removes at most the front item", And(0 <= d, d <= 1, kept(d))), ("an item leaves the queue only in flight or confirmed", Implies(d == 1, done(qkey(a, 0)))),
                       ("items stay in flight until confirmed, unless they are at the front of the queue", fa(k, Implies(A[k], Or(done(k), And(Q.len > 0, k == qkey(b, 0)))), A[k]))]
    if own: return stay + [("items are only appended", kept(0)), ("items in flight are left alone", B == A)]
    d = ex.fresh(IntSort(), "sent")
    return stay + [("items leave the queue at its front", And(0 <= d, kept(d))), ("an item leaves the queue only in flight or confirmed", fa(j, Implies(And(0 <= j, j < d), done(qkey(a, j))), qkey(a, j))),
                   ("items stay in flight until confirmed, unless they are at the front of the queue", fa(k, Implies(A[k], Or(done(k), And(Q.len > 0, k == qkey(b, 0)))), A[k]))]
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    def alive(ex, ref):
        b = ex.fresh(BoolSort(), "alive"); ex.assume(Implies(And(ref != 0, held(ref)), b)); return And(ref != 0, b)
    S.weak_alive_fn = alive
    # one column
    SLF, PNF, FIF = [Function(x, IntSort(), IntSort()) for x in ("slice_of_reference", "row_in_slice", "reference_of_slice")]
    def ghosts(c, impl_g):
        if impl(c): return impl_g
        c.ex.merged_arr = [c.ex.fresh(ArraySort(IntSort(), IntSort()), n) for n in ("slice", "row", "user")]; g = [(lambda A: lambda x: A[x])(A) for A in c.ex.merged_arr]; c.ex.merged = g; c.ex.merged_slices = c.res; return g
    def merge_loop(L):
        R = L.fctx.arg(0); sl = L.local("slices"); n = L.i
        if hasattr(L, "prev"): L.ex.assume_once(And(Implies(sl.len > L.slices_before, FIF(sl.len - 1) == n - 1), SLF(n - 1) == sl.len - 1, PNF(n - 1) == sl._mt.el.get(Select(sl.arr, sl.len - 1), "length") - 1))
        else: L.slices_before = sl.len
        return expands(L.fctx.V0, sl, sl._mt.el, R.arr, n, (SLF, PNF, FIF)) + [("no more slices than references", sl.len <= n), ("lengths", fa(j, Implies(And(0 <= j, j < sl.len), And(1 <= sl._mt.el.get(sl.arr[j], "length"), sl._mt.el.get(sl.arr[j], "length") <= n)), sl.arr[j]))]
    def refs_exist(v, R): return [("references exist", And(R.len >= 0, R.len < 2 ** 31, fa(i, Implies(And(0 <= i, i < R.len), And(0 <= R.arr[i], R.arr[i] < v.alloc, 0 <= off(v, R.arr[i]), off(v, R.arr[i]) < 2 ** 30)), R.arr[i])))]
    S.contract("MergeAdjacent", may_abort=True, modifies=[], requires=lambda c: refs_exist(c.V0, c.arg(0)), loops={0: merge_loop},
               ensures=lambda c: expands(c.V0, c.res, c.res._mt.el, c.arg(0).arr, c.arg(0).len, ghosts(c, (SLF, PNF, FIF))))
    def lock_loop(L):
        n = L.i; o, a = L.fctx.ptr(0), L.local0("locked_refs"); R = L.this.refs_
        P = L.ex.spec_value(L.ex.deref_quiet(L.raw("locked_refs")), L.ex.view(), post=True)
        return [("references locked so far", And(P.len == o.len + n, fa(j, Implies(And(0 <= j, j < o.len), P.arr[j] == o.arr[j]), P.arr[j]), fa(j, Implies(And(0 <= j, j < n), And(P.arr[o.len + j] == R.arr[j], R.arr[j] != 0)), R.arr[j]), fa(j, Implies(And(o.len <= j, j < P.len), And(P.arr[j] == R.arr[j - o.len], P.arr[j] != 0)), P.arr[j])))]
    def lock_post(c):
        o, P, R = c.ptr(0), c.ptrpost(0), c.pre.refs_
        return [("success means that all references are locked, in order", Implies(c.res, And(P.len == o.len + R.len, fa(j, Implies(And(0 <= j, j < o.len), P.arr[j] == o.arr[j]), P.arr[j]), fa(j, Implies(And(0 <= j, j < R.len), And(P.arr[o.len + j] == R.arr[j], R.arr[j] != 0)), R.arr[j]), fa(j, Implies(And(o.len <= j, j < P.len), And(P.arr[j] == R.arr[j - o.len], P.arr[j] != 0)), P.arr[j])))),
                ("references somebody holds can be locked", Implies(fa(j, Implies(And(0 <= j, j < R.len), And(R.arr[j] != 0, held(R.arr[j]))), R.arr[j]), c.res))]
    S.contract(f"{COL}::LockReferences", modifies=[("arg", 0)], nonnull=(0,), requires=lambda c: refs_exist(c.V0, c.pre.refs_) + [("size", c.ptr(0).len >= 0)], ensures=lock_post, loops={0: lock_loop})
    # a column is well formed
    SPEC = "Chunker.spec_"
    def chunker_of(v, x): return Select(v.harr(f"{CELL}.chunker_", v.ex.field_mt(CELL, "chunker_")), x)
    def spec(v, x, f): mt = v.ex.field_mt("Chunker", "spec_"); return mt.get(Select(v.harr("Chunker.spec_", mt), chunker_of(v, x)), f)
    def alike(v, x, y): return And(spec(v, x, "dtype") == spec(v, y, "dtype"), compatible(spec(v, x, "shape"), spec(v, y, "shape")))
    def compatible(a, b): return tf.compatible(a, b)
    def formed(v, R, squeeze, upto=None): return And(R.len >= 1, Implies(squeeze, R.len == 1), fa(j, Implies(And(1 <= j, j < (R.len if upto is None else upto)), alike(v, R.arr[j], R.arr[0])), R.arr[j]))
    def owned(v, R): return [("the references' columns exist", fa(j, Implies(And(0 <= j, j < R.len, R.arr[j] != 0), And(chunker_of(v, R.arr[j]) > 0, chunker_of(v, R.arr[j]) < v.alloc, held(chunker_of(v, R.arr[j])))), R.arr[j]))]
    S.assumptions.add("references given to a trajectory writer were created by its own columns, which live as long as the writer")
    def valid_loop(L): R = L.this.refs_; x = L.counter(); return [("references so far fit the first one", And(1 <= x, x <= If(R.len >= 1, R.len, 1), formed(L.ex.view(), R, L.this.squeeze_, x)))]
    def valid_post(c):
        R = c.pre.refs_; w = formed(c.V0, R, c.pre.squeeze_)
        return [("only well-formed columns are accepted", Implies(c.res == OK, And(w, fa(j, Implies(And(0 <= j, j < R.len), R.arr[j] != 0), R.arr[j])))), ("a refusal is an invalid argument", Or(c.res == OK, c.res == INVALID)),
                ("well-formed columns of references somebody holds are accepted", Implies(And(w, fa(j, Implies(And(0 <= j, j < R.len), And(R.arr[j] != 0, held(R.arr[j]))), R.arr[j])), c.res == OK))]
    S.contract(f"{COL}::Validate", modifies=[], requires=lambda c: refs_exist(c.V0, c.pre.refs_) + owned(c.V0, c.pre.refs_), ensures=valid_post, loops={0: valid_loop})
    # a column of the item
    def slices(p): w = p.chunk_slices; return w
    def proto_ok(v, P, R, squeeze, g): return expands(v, P, P._mt.el, R.arr, R.len, g)
    def to_post(c):
        P = c.ptrpost(0); S_ = P.chunk_slices
        if impl(c): g = c.ex.merged
        else: c.ex.merged_arr = [c.ex.fresh(ArraySort(IntSort(), IntSort()), n) for n in ("slice", "row", "user")]; g = [(lambda A: lambda x: A[x])(A) for A in c.ex.merged_arr]; c.ex.merged = g
        return expands(c.V0, S_, S_._mt.el, c.pre.refs_.arr, c.pre.refs_.len, g) + [("the column is squeezed if asked for", P.squeeze == c.pre.squeeze_)]
    def to_loop(L):
        P = L.ex.spec_value(L.ex.deref_quiet(L.raw("proto")), L.ex.view(), post=True).chunk_slices; Q = L.seq
        return [("slices copied so far", And(P.len == L.i, L.i <= L.ex.merged_slices.len, fa(j, Implies(And(0 <= j, j < L.i), P.arr[j] == L.ex.merged_slices.arr[j]), P.arr[j])))]
    S.contract(f"{COL}::ToProto", may_abort=True, modifies=[("arg", 0)], nonnull=(0,), requires=lambda c: refs_exist(c.V0, c.pre.refs_) + [("the column is new", c.ptr(0).chunk_slices.len == 0)], ensures=to_post, loops={0: to_loop})

    # creating items
    S.monitor(Monitor(f"{CLS}.mu_", CLS, [f"{CLS}.{f}" for f in ("unrecoverable_status_", "write_queue_", "in_flight_items_", "closed_", "episode_id_", "episode_step_", "context_")],
        inv=lambda o: queue_inv(o), guarantee=lambda ex, a, b: moves(ex, a, b, getattr(ex, "role", "caller"), True), rely=lambda ex, a, b: moves(ex, a, b, getattr(ex, "role", "caller"), False)))
    REFOF = {}
    def refof(el):
        if el.name not in REFOF: REFOF[el.name] = Function("reference_for_slice", el.sort(), IntSort(), IntSort(), IntSort())
        return REFOF[el.name]
    def item_ok(v, el, e, j, cond):
        """every slice of the item's trajectory is in the chunk of one of the references kept with it"""
        it = X.wrap(v, el, e); t = Traj(it.item.flat_trajectory); R = it.refs; x = refof(el)(e, c_, k)
        return fa([j, c_, k], Implies(And(cond, t.inside(c_, k)), And(0 <= x, x < R.len, R.arr[x] > 0, R.arr[x] < v.alloc, key(v, R.arr[x]) == t.f(c_, k, "chunk_key"))), t.sl(c_, k), x)
    def refs_ok(v, R, cond=None):
        y = R.arr[k]; b = And(y > 0, y < v.alloc, chunker_of(v, y) > 0, chunker_of(v, y) < v.alloc, held(chunker_of(v, y)))
        return fa(k, Implies(And(0 <= k, k < R.len), b), y) if cond is None else And(fa(j, Implies(cond, R.len >= 0), R.arr), fa([j, k], Implies(And(cond, 0 <= k, k < R.len), b), y))
    def queue_inv(o):
        Q = o.write_queue_; el = Q._mt.el; ex = o._view.ex; v = o._view
        if getattr(ex, "creating", False):      # refof picks a reference to the slice's chunk, if there is one
            e = Q.arr[Q.len - 1]; it = X.wrap(v, el, e); t = Traj(it.item.flat_trajectory); R = it.refs; good = lambda x: And(0 <= x, x < R.len, R.arr[x] > 0, R.arr[x] < v.alloc, key(v, R.arr[x]) == t.f(c_, k, "chunk_key")); y = START(c_) + G2[2](c_)[k]
            ex.assume_once(fa([c_, k], Implies(good(y), good(refof(el)(e, c_, k))), t.sl(c_, k), refof(el)(e, c_, k)))
        return [("a status is a status", o.unrecoverable_status_ >= 0), ("the queue has a size", Q.len >= 0), ("items keep references to all their chunks", item_ok(v, el, Q.arr[j], j, And(0 <= j, j < Q.len))), ("references of items exist and so do their columns", refs_ok(v, X.wrap(v, el, Q.arr[j]).refs, And(0 <= j, j < Q.len)))]
    START = Function("first_reference_of_column", IntSort(), IntSort()); A1 = ArraySort(IntSort(), IntSort()); G2 = [Function(x + "_of_column", IntSort(), A1) for x in ("slices", "rows", "users")]
    def cols(c): return c.arg(2)
    def col(T_, x): return X.wrap(T_._view, T_._mt.el, T_.arr[x])
    def create_pre(c):
        T_ = cols(c); R = col(T_, c_).refs_; q = R.arr[i]; v = c.V0
        return [("sizes", And(T_.len >= 0, T_.len < 2 ** 31, fa(c_, Implies(And(0 <= c_, c_ < T_.len), And(R.len >= 0, R.len < 2 ** 31)), T_.arr[c_]))),
                ("the references exist and so do their columns", fa([c_, i], Implies(And(0 <= c_, c_ < T_.len, 0 <= i, i < R.len), And(0 <= q, q < v.alloc, 0 <= off(v, q), off(v, q) < 2 ** 30, Implies(q != 0, And(chunker_of(v, q) > 0, chunker_of(v, q) < v.alloc, held(chunker_of(v, q)))))), q))]
    def locked(T_, R, n):
        C = col(T_, c_).refs_
        return [("the item keeps the references of the columns so far", And(R.len >= 0, fa(c_, Implies(And(0 <= c_, c_ < n), And(0 <= START(c_), START(c_) + C.len <= R.len)), T_.arr[c_]), fa([c_, i], Implies(And(0 <= c_, c_ < n, 0 <= i, i < C.len), And(R.arr[START(c_) + i] == C.arr[i], C.arr[i] != 0)), C.arr[i])))]
    def columns_formed(v, T_, n): C = col(T_, c_); return [("the columns so far are well formed", fa(c_, Implies(And(0 <= c_, c_ < n), formed(v, C.refs_, C.squeeze_)), T_.arr[c_]))]
    def lock_all(L):
        T_ = cols(L.fctx); n = L.counter(); I = L.local("item_and_refs"); R = I.refs
        if hasattr(L, "prev"): L.ex.assume_once(START(n - 1) == L.len_before)
        else: L.len_before = R.len
        return [("position", And(0 <= n, n <= T_.len)), ("the columns stay", L.local("trajectory").e == T_.e), ("references locked exist", refs_ok(L.fctx.V0, R)), ("the trajectory is empty", I.item.flat_trajectory.columns.len == 0)] + locked(T_, R, n) + columns_formed(L.fctx.V0, T_, n)
    def described(v, T_, t, n):
        """column c of the trajectory consists exactly of the references of column c"""
        C = col(T_, c_); el = t.smt.el; S_ = type("S", (), dict(len=t.len(c_), arr=t.smt.arr(t.slices(c_)))); g = [(lambda G: lambda x: G(c_)[x])(G) for G in G2]
        return [("columns: squeezed if asked for", fa(c_, Implies(And(0 <= c_, c_ < n), t.squeeze(c_) == C.squeeze_), t.cols[c_]))] + [("columns: " + l, f) for l, f in expands(v, S_, el, C.refs_.arr, C.refs_.len, g, each=(And(0 <= c_, c_ < n), t.slices(c_)))]
    def describe_all(L):
        T_ = cols(L.fctx); I = L.local("item_and_refs"); t = Traj(I.item.flat_trajectory); n = L.i
        if hasattr(L, "prev"): L.ex.assume_once(And(*[G(n - 1) == A for G, A in zip(G2, L.ex.merged_arr)]))
        return [("columns described", t.n == n), ("references locked exist", refs_ok(L.fctx.V0, I.refs)), ("the columns stay", L.local("trajectory").e == T_.e), ("the item has its table and priority", And(I.item.table == L.fctx.arg(0), I.item.priority == L.fctx.arg(1)))] + locked(T_, I.refs, T_.len) + described(L.fctx.V0, T_, t, n)
    def create_post(c):
        if not impl(c): return []
        if c.ex.snap_acq is None: return [("refused before looking at the queue", c.res == INVALID)]
        T_ = cols(c); a, b = c.ex.snap_acq.obj(c.thisref, CLS).write_queue_, c.ex.snap_rel.obj(c.thisref, CLS).write_queue_; e = X.wrap(c.V1, b._mt.el, b.arr[b.len - 1]); t = Traj(e.item.flat_trajectory); ok = c.res == OK
        f = columns_formed(c.V0, T_, T_.len) + [("the item has a column for each one given", t.n == T_.len)] + described(c.V0, T_, t, T_.len) + [("the item is appended to the queue", And(b.len == a.len + 1, fa(j, Implies(And(0 <= j, j < a.len), b.arr[j] == a.arr[j]), b.arr[j]))), ("the item has the given table and priority", And(e.item.table == c.arg(0), e.item.priority == c.arg(1)))]
        return [(l, Implies(ok, x)) for l, x in f] + [("a refused item changes nothing", Implies(Not(ok), And(b.len == a.len, b.arr == a.arr))), ("an item has columns", Implies(T_.len == 0, Not(ok)))]
    def creating(ex, c): ex.creating = True; ex.merged_arr = None
    S.contract("internal::KeyGenerator::Generate", modifies=[], abstract=True, ensures=lambda c: [])
    S.contract(f"{CLS}::Validate", abstract=True, modifies=[], nparams=1, ensures=lambda c: [("a status", c.res >= 0)])
    S.contract(f"{CLS}::CreateItem", may_abort=True, modifies=["write_queue_", ("all", f"{CELL}.chunk_")], setup=creating, requires=create_pre, loops={0: lock_all, 1: describe_all}, ensures=create_post)
