"""Contracts of the trajectory helpers (C16)."""
from z3 import *
from vc.mtypes import *
from contracts.lib import fa
i, k, k2, a, b, c_, s_ = Ints("i k k2 a b c s")
PS = Function("steps_of_chunks", ArraySort(IntSort(), IntSort()), IntSort(), IntSort())      # steps in the first k chunks
CL = {}
def steps_def(ex, L, *ks):
    """instances of the definition of PS"""
    ex.assume_once(PS(L, 0) == 0)
    for x in ks: ex.assume_once(Implies(x >= 1, PS(L, x) == PS(L, x - 1) + L[x - 1]))
class Traj:
    """a flat trajectory value"""
    def __init__(self, w): self.w = w; self.n = w.columns.len; self.cmt = w._mt.ft("columns"); self.smt = self.cmt.el.ft("chunk_slices"); self.cols = w.columns.arr
    def slices(self, c): return self.cmt.el.get(self.cols[c], "chunk_slices")
    def len(self, c): return self.smt.len(self.slices(c))
    def sl(self, c, s): return Select(self.smt.arr(self.slices(c)), s)
    def f(self, c, s, name): return self.smt.el.get(self.sl(c, s), name)
    def squeeze(self, c): return self.cmt.el.get(self.cols[c], "squeeze")
    def column(self, c): return self.slices(c)
    def LEN(self):
        """LEN(slices, k): steps in the first k slices"""
        so = self.smt.sort()
        if so.name() not in CL: CL[so.name()] = Function("steps_of_slices", so, IntSort(), IntSort())
        return CL[so.name()]
    def inside(self, c, s): return And(0 <= c, c < self.n, 0 <= s, s < self.len(c))
def wf(t): return [("sizes are not negative", And(t.n >= 0, fa(k, Implies(And(0 <= k, k < t.n), t.len(k) >= 0), t.slices(k))))]
def is_timestep(t):
    """all columns consist of the same ranges of the same chunks, each of its own column, without gaps"""
    return And(t.n >= 1, fa(s_, Implies(And(1 <= s_, s_ < t.len(0)), t.f(0, s_, "offset") <= 0), t.sl(0, s_)),
               fa(c_, Implies(And(0 <= c_, c_ < t.n), same_col(t, c_)), t.slices(c_)))
def same_col(t, c): return And(t.len(c) == t.len(0), fa(s_, Implies(And(0 <= s_, s_ < t.len(0)), same_slice(t, c, s_)), t.sl(c, s_)))
def same_slice(t, c, s): return And(t.f(c, s, "index") == c, *[t.f(c, s, f) == t.f(0, s, f) for f in ("chunk_key", "offset", "length")])
def run_pre(K, L, n, off, length):
    """a run of `length` steps starting at `off` in the first chunk and ending in the last one"""
    return [("one length per chunk", K.len == L.len), ("there is a chunk", L.len >= 1), ("chunks hold steps", fa(i, Implies(And(0 <= i, i < L.len), L.arr[i] >= 1), L.arr[i])),
            ("the run starts in the first chunk", And(0 <= off, off < L.arr[0])), ("the run has steps", length >= 1),
            ("the run ends in the last chunk", And(PS(L.arr, L.len - 1) < off + length, off + length <= PS(L.arr, L.len), PS(L.arr, L.len) < 2 ** 31))]
def covers(t, c, K, L, off, length, upto):
    """the first `upto` slices of column c cover the run's steps in order, chunk by chunk"""
    start = lambda x: PS(L, x) + t.f(c, x, "offset")
    return fa(i, Implies(And(0 <= i, i < upto), And(t.f(c, i, "chunk_key") == K[i], t.f(c, i, "index") == c, t.f(c, i, "offset") >= 0, t.f(c, i, "length") >= 1, t.f(c, i, "offset") + t.f(c, i, "length") <= L[i],
        t.f(c, i, "offset") == If(i == 0, off, 0), start(i) + t.f(c, i, "length") == If(PS(L, i) + L[i] <= off + length, PS(L, i) + L[i], off + length))), t.sl(c, i))
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    # keys
    # RANK(x): position of key x in the list; (FC(x), FS(x)): the slice with its first use; ghosts recorded when the list grows
    def ghosts(c=None):
        if c is None or impl(c): return [Function(f"key_{g}", IntSort(), IntSort()) for g in ("rank", "first_column", "first_slice")]
        return [(lambda A: lambda x: A[x])(c.ex.fresh(ArraySort(IntSort(), IntSort()), g)) for g in ("rank", "fcol", "fslice")]
    def keys_of(g, t, K, upto):
        """K lists the chunks of the slices for which upto holds, each once, in order of first use"""
        RANK, FC, FS = g; key = lambda c, s: t.f(c, s, "chunk_key"); seen = lambda c, s: And(t.inside(c, s), upto(c, s))
        upto_use = lambda x, c, s: Or(FC(x) < c, And(FC(x) == c, FS(x) <= s)); A = K.arr
        return [("no key is listed twice", fa(k, Implies(And(0 <= k, k < K.len), RANK(A[k]) == k), A[k])),
                ("every chunk is listed", fa([a, b], Implies(seen(a, b), And(0 <= RANK(key(a, b)), RANK(key(a, b)) < K.len, A[RANK(key(a, b))] == key(a, b))), t.sl(a, b))),
                ("every key listed is used", fa(k, Implies(And(0 <= k, k < K.len), And(seen(FC(A[k]), FS(A[k])), key(FC(A[k]), FS(A[k])) == A[k])), A[k])),
                ("the use recorded is the first one", fa([a, b], Implies(seen(a, b), upto_use(key(a, b), a, b)), t.sl(a, b))),
                ("keys are listed in order of first use", fa([k, k2], Implies(And(0 <= k, k < k2, k2 < K.len), And(upto_use(A[k], FC(A[k2]), FS(A[k2])), Or(FC(A[k]) != FC(A[k2]), FS(A[k]) != FS(A[k2])))), MultiPattern(A[k], A[k2])))]
    def in_seen(L, K):
        D = L.local("seen").dom; x = Int("x"); RANK = ghosts()[0]
        return [("the keys seen are those listed", And(fa(k, Implies(And(0 <= k, k < K.len), D[K.arr[k]]), K.arr[k]), fa(x, Implies(D[x], And(0 <= RANK(x), RANK(x) < K.len, K.arr[RANK(x)] == x)), D[x])))]
    def keys_outer(L): t = Traj(L.fctx.arg(0)); K = L.local("keys"); return [("size", K.len >= 0)] + keys_of(ghosts(), t, K, lambda c, s: c < L.i) + in_seen(L, K)
    def keys_inner(L):
        t = Traj(L.fctx.arg(0)); K = L.local("keys"); o = L.outer.i; g = ghosts()
        if hasattr(L, "prev"):      # end of an iteration: the ghosts of a key listed now
            before = L.prev_len; x = t.f(o, L.i - 1, "chunk_key")
            L.ex.assume_once(Implies(And(K.len == before + 1, K.arr[before] == x), And(g[0](x) == before, g[1](x) == o, g[2](x) == L.i - 1)))
        else: L.prev_len = K.len
        return [("size", K.len >= 0)] + keys_of(g, t, K, lambda c, s: Or(c < o, And(c == o, s < L.i))) + in_seen(L, K)
    S.contract("internal::GetChunkKeys", static=True, nparams=1, modifies=[], ensures=lambda c: keys_of(ghosts(c), Traj(c.arg(0)), c.res, lambda a, b: BoolVal(True)), loops={0: keys_outer, 1: keys_inner})
    # flat trajectories of a run of steps
    def flat_post(c):
        t = Traj(c.res); K, L, n, off, length = c.arg(0), c.arg(1), c.arg(2), c.arg(3), c.arg(4)
        return [("one column per column asked for", t.n == If(n > 0, n, 0)), ("one slice per chunk", fa(k, Implies(And(0 <= k, k < t.n), t.len(k) == L.len), t.slices(k))),
                ("every column covers exactly the run's steps, in order, inside the chunks", fa(k, Implies(And(0 <= k, k < t.n), covers(t, k, K.arr, L.arr, off, length, L.len)), t.slices(k))),
                ("columns are not squeezed", fa(k, Implies(And(0 <= k, k < t.n), Not(t.squeeze(k))), t.cols[k]))]
    def done(L):
        c = L.fctx; t = Traj(L.local("proto")); K, Ls, n, off, length = c.arg(0), c.arg(1), c.arg(2), c.arg(3), c.arg(4)
        return c, t, K, Ls, n, off, length, lambda hi: [("finished columns", fa(k, Implies(And(0 <= k, k < hi), And(t.len(k) == Ls.len, Not(t.squeeze(k)), covers(t, k, K.arr, Ls.arr, off, length, Ls.len))), t.slices(k)))]
    def flat_outer(L):
        c, t, K, Ls, n, off, length, fin = done(L)
        return [("columns added", And(0 <= t.n, Or(t.n <= n, t.n == 0)))] + fin(t.n)
    def flat_inner(L):
        c, t, K, Ls, n, off, length, fin = done(L); x = L.counter(); m = t.n - 1
        steps_def(L.ex, Ls.arr, x, x + 1, Ls.len)
        e = off + length
        return [("columns added", And(1 <= t.n, t.n <= n, t.n == Traj(L.local0("proto")).n))] + fin(m) + [("slices added", And(0 <= x, x <= Ls.len, t.len(m) == x, Not(t.squeeze(m)))), ("the slices so far", covers(t, m, K.arr, Ls.arr, off, length, x)),
                ("the position in the next chunk", L.local("col_offset") == If(x == 0, off, 0)), ("the steps left", L.local("col_remaining") == If(x == 0, length, If(PS(Ls.arr, x) <= e, e - PS(Ls.arr, x), 0)))]
    def flat_pre(c):
        if getattr(c.ex, "flat_hint", None): c.ex.flat_hint(c)
        L, R = c.arg(1).arr, getattr(c.ex, "rows_known", None)
        if R is not None:      # the steps of the first k chunks depend on the lengths of these only
            c.ex.induct("equal lengths add up to equal sums", c.arg(1).len + 1, lambda e: PS(L, e) == PS(R, e), lambda e: And(PS(L, 0) == 0, PS(R, 0) == 0, *[Implies(e >= 1, PS(X, e) == PS(X, e - 1) + X[e - 1]) for X in (L, R)]))
        return run_pre(c.arg(0), c.arg(1), c.arg(2), c.arg(3), c.arg(4))
    S.contract("internal::FlatTimestepTrajectory", static=True, nparams=5, modifies=[], requires=flat_pre, ensures=flat_post, loops={0: flat_outer, 1: flat_inner},
               setup=mono_lemma, on_call=lambda ex, c: getattr(ex, "flat_after", lambda c: None)(c))
    # ... of chunks: NR holds the number of rows of each of them
    NR = Const("rows_of_chunks", ArraySort(IntSort(), IntSort()))
    CH = "ChunkStore::Chunk"
    def chunk(v, ref): mt = v.ex.field_mt(CH, "data_"); return mt, Select(v.harr(f"{CH}.data_", mt), ref)
    def ckey(v, ref): mt, d = chunk(v, ref); return mt.get(d, "chunk_key")
    def ncols(v, ref): mt, d = chunk(v, ref); dm = mt.ft("data"); ln = mt.get(d, "data_tensors_len"); return If(ln != 0, ln, dm.ft("tensors").len(dm.get(mt.get(d, "data"), "tensors")))
    def nrows(v, ref): mt, d = chunk(v, ref); rg = mt.ft("sequence_range"); q = mt.get(d, "sequence_range"); return rg.get(q, "end") - rg.get(q, "start") + 1, And(-2 ** 31 <= rg.get(q, "end") - rg.get(q, "start"), rg.get(q, "end") - rg.get(q, "start") < 2 ** 31)
    def chunks_pre(c):
        A = c.arg(0).arr; n = c.arg(0).len; v = c.V0; ok = lambda x: nrows(v, A[x])
        return [("the chunks have rows", fa(i, Implies(And(0 <= i, i < n), And(A[i] > 0, A[i] < v.alloc, ok(i)[1], ok(i)[0] == NR[i], 0 <= NR[i], NR[i] < 2 ** 31)), A[i]))] + run_pre(c.arg(0), Fake(n, NR), 0, c.arg(1), c.arg(2)) + [("columns can be counted", And(0 <= ncols(v, A[0]), ncols(v, A[0]) < 2 ** 31))]
    class Fake:
        def __init__(self, n, arr): self.len, self.arr = n, arr
    def chunks_post(c):
        t = Traj(c.res); A = c.arg(0).arr; n = c.arg(0).len; K = Lambda([i], ckey(c.V0, A[i])); q = ncols(c.V0, A[0])
        return [("one column per column of the first chunk", t.n == q), ("one slice per chunk", fa(k, Implies(And(0 <= k, k < t.n), t.len(k) == n), t.slices(k))),
                ("every column covers exactly the run's steps, in order, inside the chunks", fa(k, Implies(And(0 <= k, k < t.n), covers(t, k, K, NR, c.arg(1), c.arg(2), n)), t.slices(k)))]
    def chunks_loop(L):
        c = L.fctx; x = L.counter(); K, R = L.local("chunk_keys"), L.local("chunk_lengths"); A = c.arg(0).arr; n = c.arg(0).len
        L.ex.rows_known = NR
        return [("position", And(0 <= x, x <= n, K.len == n, R.len == n)), ("keys and lengths so far", fa(i, Implies(And(0 <= i, i < x), And(K.arr[i] == ckey(c.V0, A[i]), R.arr[i] == NR[i])), K.arr[i])), ("lengths so far", fa(i, Implies(And(0 <= i, i < x), R.arr[i] == NR[i]), R.arr[i]))]
    S.contract("internal::FlatTimestepTrajectory", static=True, nparams=3, modifies=[], requires=chunks_pre, ensures=chunks_post, loops={0: chunks_loop})
    # lengths
    def len_post(c):
        t = Traj(c.arg(0)); F = t.LEN()
        return [("the length is the number of steps of all slices", c.res == F(t.slices(c.arg(1)), t.len(c.arg(1))))]
    def len_def(ex, t, col, *xs):
        F = t.LEN(); q = t.slices(col); ex.assume_once(F(q, 0) == 0)
        for x in xs: ex.assume_once(Implies(x >= 1, F(q, x) == F(q, x - 1) + t.f(col, x - 1, "length")))
    def len_loop(L):
        t = Traj(L.fctx.arg(0)); col = L.fctx.arg(1); len_def(L.ex, t, col, L.i, L.i + 1)
        return [("the steps of the slices seen", L.local("length") == t.LEN()(t.slices(col), L.i))]
    def small(t, col): return [("the trajectory's length is representable", fa(k, Implies(And(0 <= k, k <= t.len(col)), And(-2 ** 31 <= t.LEN()(t.slices(col), k), t.LEN()(t.slices(col), k) < 2 ** 31)), t.LEN()(t.slices(col), k)))]
    S.contract("internal::ColumnLength", static=True, modifies=[], requires=lambda c: [("the column exists", And(0 <= c.arg(1), c.arg(1) < Traj(c.arg(0)).n))] + small(Traj(c.arg(0)), c.arg(1)), ensures=len_post, loops={0: len_loop})
    S.contract("internal::TimestepTrajectoryLength", static=True, modifies=[], requires=lambda c: [("a column exists", Traj(c.arg(0)).n >= 1)] + small(Traj(c.arg(0)), 0), ensures=lambda c: [("the length of the first column", c.res == Traj(c.arg(0)).LEN()(Traj(c.arg(0)).slices(0), Traj(c.arg(0)).len(0)))])
    S.contract("internal::TimestepTrajectoryOffset", static=True, modifies=[], requires=lambda c: [("a slice exists", And(Traj(c.arg(0)).n >= 1, Traj(c.arg(0)).len(0) >= 1))], ensures=lambda c: [("the offset of the first slice", c.res == Traj(c.arg(0)).f(0, 0, "offset"))])
    # shape
    def no_gap(L): t = Traj(L.fctx.arg(0)); x = L.counter(); return [("no gap so far", And(x >= 1, fa(s_, Implies(And(1 <= s_, s_ < x, s_ < t.len(0)), t.f(0, s_, "offset") <= 0), t.sl(0, s_))))]
    def col_outer(L): t = Traj(L.fctx.arg(0)); x = L.counter(); return [("columns so far agree", And(0 <= x, x <= t.n, fa(c_, Implies(And(0 <= c_, c_ < x), same_col(t, c_)), t.slices(c_))))]
    def col_inner(L): t = Traj(L.fctx.arg(0)); x = L.counter(); o = L.outer.counter(); return [("slices so far agree", And(0 <= x, x <= t.len(o), fa(s_, Implies(And(0 <= s_, s_ < x), same_slice(t, o, s_)), t.sl(o, s_))))]
    S.contract("internal::IsTimestepTrajectory", static=True, modifies=[], ensures=lambda c: [("recognised exactly if all columns are the same gap-free ranges", c.res == is_timestep(Traj(c.arg(0))))], loops={0: no_gap, 1: col_outer, 2: col_inner})
def mono_lemma(ex, c):
    """the first chunks never hold more steps than all of them"""
    for lab, f in run_pre(*[c.arg(x) for x in range(5)]): ex.assume(f)
    L = c.arg(1); n = L.len; P_ = lambda x: PS(L.arr, x)
    def at(e): return And(P_(0) == 0, Implies(And(1 <= e, e <= n), P_(e) == P_(e - 1) + L.arr[e - 1]))
    ex.induct("chunks never hold fewer steps than their first ones", n + 1, lambda e: fa(k, Implies(And(0 <= k, k <= e), And(0 <= P_(k), P_(k) <= P_(e))), P_(k)), at)
    ex.assume(at(n)); 
    ex.assume(fa(k, Implies(And(0 <= k, k < n), P_(k) <= P_(n - 1)), P_(k)))
