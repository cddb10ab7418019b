"""Contracts of samples: reading step by step and as a whole (C20)."""
from z3 import *
from vc.mtypes import *
from vc import tf
from vc.tf import TENSOR, SHAPE, shp, ndim, dim, row, INNER, AS_ROW
from contracts.lib import fa, same
from contracts.compression import dt
SM = "Sample"
c_, j, k, r, q, e_ = Ints("c j k r q e")
_f = {}
def fn(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _f: _f[key] = Function(name, *sorts)
    return _f[key]
class Cols:
    """the columns of a sample: what is left of them and, as specification value, what they were at creation"""
    def __init__(self, o):
        self.mt = o._view.ex.field_mt(SM, "columns_"); self.col = self.mt.el; self.cc = self.col.el; self.ref = o.ref; self.w = o.columns_; self.n = self.w.len
        self.whole = fn("columns_at_creation", IntSort(), self.mt.sort())(o.ref)
    def CUM(self, W, x): return fn("rows_of_first_slices", self.col.sort(), IntSort(), IntSort())(W, x)
    def W(self, c): return Select(self.mt.arr(self.whole), c)
    def cur(self, c): return Select(self.w.arr, c)
    def len(self, s): return self.col.len(s)
    def T(self, s, x): return self.cc.get(Select(self.col.arr(s), x), "tensor")
    def at(self, s, x): return Select(self.col.arr(s), x)
    def off(self, s, x): return self.cc.get(Select(self.col.arr(s), x), "offset")
    def rows(self, s, x): return dim(shp(self.T(s, x)), 0)
    def F(self, c): return self.len(self.W(c)) - self.len(self.cur(c))
    def N(self, c): return self.CUM(self.W(c), self.len(self.W(c)))
    def read(self, c): return self.CUM(self.W(c), self.F(c)) + If(self.len(self.cur(c)) > 0, self.off(self.cur(c), 0), 0)
    def TS(self): return fa(c_, Implies(And(0 <= c_, c_ < self.n), self.N(c_) == self.N(0)), self.W(c_))
    def defs(self, ex, c, *xs):
        """instances of the definition of CUM for column c"""
        W = self.W(c); ex.assume_once(self.CUM(W, 0) == 0)
        for x in xs: ex.assume_once(Implies(x >= 1, self.CUM(W, x) == self.CUM(W, x - 1) + self.rows(W, x - 1)))
def slices_ok(C, W):
    return And(C.len(W) >= 0, 0 <= C.CUM(W, C.len(W)), C.CUM(W, C.len(W)) < 2 ** 31,
               fa(j, Implies(And(0 <= j, j < C.len(W)), And(ndim(shp(C.T(W, j))) >= 1, C.rows(W, j) >= 1, C.rows(W, j) < 2 ** 31, C.off(W, j) == 0,
                  ndim(shp(C.T(W, j))) == ndim(shp(C.T(W, 0))), fa(r, Implies(And(1 <= r, r < ndim(shp(C.T(W, 0)))), dim(shp(C.T(W, j)), r) == dim(shp(C.T(W, 0)), r)), dim(shp(C.T(W, j)), r)))), C.at(W, j)))
def inv(o):
    C = Cols(o); col = lambda f, *p: fa(c_, Implies(And(0 <= c_, c_ < C.n), f), *p)
    return [("columns stay", And(C.n >= 1, C.n == C.mt.len(C.whole))), ("the columns were made of slices with rows, of one shape", col(slices_ok(C, C.W(c_)), C.W(c_))),
            ("what is left is the end of each column", fa([c_, j], Implies(And(0 <= c_, c_ < C.n, 0 <= j, j < C.len(C.cur(c_))), And(C.T(C.cur(c_), j) == C.T(C.W(c_), C.F(c_) + j), Implies(j >= 1, C.off(C.cur(c_), j) == 0))), C.at(C.cur(c_), j))),
            ("the first slice left has rows left", col(And(0 <= C.len(C.cur(c_)), C.len(C.cur(c_)) <= C.len(C.W(c_)), Implies(C.len(C.cur(c_)) > 0, And(0 <= C.off(C.cur(c_), 0), C.off(C.cur(c_), 0) < C.rows(C.W(c_), C.F(c_))))), C.cur(c_))),
            ("columns of timesteps are read together", Implies(C.TS(), col(C.read(c_) == C.read(0), C.cur(c_)))),
            ("nothing was read before the first step", Implies(Not(o.next_timestep_called_), col(And(C.len(C.cur(c_)) == C.len(C.W(c_)), Implies(C.len(C.cur(c_)) > 0, C.off(C.cur(c_), 0) == 0)), C.cur(c_)))),
            ("reading by step needs columns of timesteps", Implies(o.next_timestep_called_, C.TS())),
            ("the number of steps is known", Implies(C.TS(), o.num_timesteps_ == C.N(0))), ("one squeeze flag per column", o.squeeze_columns_.len == C.n)]
def cum_lemma(ex, c):
    """facts of CUM: its start, and that it never decreases"""
    if isinstance(c.thisref, type(None)): return
    for o in (c.pre,):
        C = Cols(o); ex.assume(fa(c_, Implies(And(0 <= c_, c_ < C.n, C.F(c_) >= 0, C.F(c_) < C.len(C.W(c_))), C.CUM(C.W(c_), C.F(c_) + 1) == C.CUM(C.W(c_), C.F(c_)) + C.rows(C.W(c_), C.F(c_))), C.cur(c_)))
    mt = ex.field_mt(SM, "columns_").el; CUM = lambda W, x: fn("rows_of_first_slices", mt.sort(), IntSort(), IntSort())(W, x); cc = mt.el
    W = ex.fresh(mt.sort(), "somecolumn"); V = Const("cl_W", mt.sort()); rows = lambda W, x: dim(shp(cc.get(Select(mt.arr(W), x), "tensor")), 0)
    n = ex.fresh(IntSort(), "upto")
    ex.induct("more slices never hold fewer rows", n, lambda e: fa(k, Implies(And(0 <= k, k <= e), And(0 <= CUM(W, k), CUM(W, k) <= CUM(W, e))), CUM(W, k)), lambda e: And(CUM(W, 0) == 0, Implies(e >= 1, And(rows(W, e - 1) >= 0, CUM(W, e) == CUM(W, e - 1) + rows(W, e - 1)))))
    ex.assume(fa(V, CUM(V, 0) == 0, CUM(V, 0)))
    ex.assume(fa([V, k, e_], Implies(And(0 <= k, k <= e_), And(0 <= CUM(V, k), CUM(V, k) <= CUM(V, e_))), MultiPattern(CUM(V, k), CUM(V, e_))))
cell = tf.cell
def meta(o): return [o.key_, o.probability_, o.table_size_, o.priority_]
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    S.assumptions.add("the slices of a sample's column hold at least one row each, and have the same shape apart from the number of rows (items are made of valid slices)")
    for ty, d in (("unsigned long", 23), ("long", 9), ("double", 2)):
        S.contract("ScalarTensor", static=True, sig=f"({ty})", tag=ty, modifies=[], ensures=lambda c, d=d: [("a scalar with the value", And(dt(c.res.e) == d, ndim(shp(c.res.e)) == 0, AS_ROW(c.res.e)[0] == cell(c.args[0].e)))])
        S.contract("InitializeTensor", static=True, sig=f"({ty}, ", tag=ty, modifies=[], requires=lambda c: [("the length is not negative", c.arg(1) >= 0)],
                   ensures=lambda c, d=d: [("every element has the value", And(dt(c.res.e) == d, ndim(shp(c.res.e)) == 1, dim(shp(c.res.e), 0) == c.arg(1), fa(k, Implies(And(0 <= k, k < c.arg(1)), row(c.res.e, k)[0] == cell(c.args[0].e)), row(c.res.e, k))))])
    def scalars(o, d): return [("the first tensors are key, probability, table size and priority", And(*[And(ndim(shp(d.arr[x])) == 0, AS_ROW(d.arr[x])[0] == cell(v)) for x, v in enumerate(meta(o))]))]
    static = ["key_", "probability_", "table_size_", "priority_", "rate_limited_", "squeeze_columns_", "num_timesteps_"]
    # end of sample, shape
    S.contract(f"{SM}::is_end_of_sample", modifies=[], requires=lambda c: inv(c.pre), setup=cum_lemma, ensures=end_post)
    S.contract(f"{SM}::rate_limited", modifies=[], ensures=lambda c: [("as received", c.res == c.pre.rate_limited_)])
    def ts_outer(L):
        C = Cols(L.this0); p = L.local("prev_column_length"); x = L.i
        return [("columns so far have as many rows left as the first", And(Implies(x == 0, p == -1), Implies(x > 0, p == C.N(0) - C.read(0)), fa(c_, Implies(And(0 <= c_, c_ < x), C.N(c_) - C.read(c_) == C.N(0) - C.read(0)), C.cur(c_))))]
    def ts_inner(L):
        C = Cols(L.this0); o = L.outer.i; x = L.i; F = C.F(o); C.defs(L.ex, o, F + x, F + x + 1, C.len(C.W(o)))
        return [("rows counted", L.local("column_length") == C.CUM(C.W(o), F + x) - C.CUM(C.W(o), F) - If(x > 0, C.off(C.cur(o), 0), 0)), ("rows counted are some of the column's", And(F + x <= C.len(C.W(o)), F >= 0))]
    S.contract(f"{SM}::is_composed_of_timesteps", modifies=[], requires=lambda c: [x for x in inv(c.pre) if x[0] != "the number of steps is known"], setup=cum_lemma, ensures=lambda c: [("recognised exactly if all columns had the same number of rows", c.res == Cols(c.pre).TS())], loops={0: ts_outer, 1: ts_inner})
    # construction
    def chunks_of(c): return c.arg(5)
    def ctor_def(ex, c):
        a = chunks_of(c); C = Cols(c.post); ch = a._mt.el
        ex.assume(And(C.mt.len(C.whole) == a.len, fa(c_, Implies(And(0 <= c_, c_ < a.len), And(C.len(C.W(c_)) == ch.len(a.arr[c_]), fa(j, And(C.T(C.W(c_), j) == Select(ch.arr(a.arr[c_]), j), C.off(C.W(c_), j) == 0), C.at(C.W(c_), j)))), C.W(c_))))
        cum_lemma(ex, c)
    def ctor_pre(c):
        a = chunks_of(c); C = Cols(c.post); ch = a._mt.el
        return [("there are columns with slices", And(a.len >= 1, ch.len(a.arr[0]) >= 1)), ("one squeeze flag per column", c.arg(6).len == a.len), ("columns are made of slices with rows, of one shape", fa(c_, Implies(And(0 <= c_, c_ < a.len), slices_ok(C, C.W(c_))), C.W(c_)))]
    def ctor_post(c):
        o = c.post
        return inv(o) + [("the sample has the given metadata", And(o.key_ == c.arg(0), o.probability_ == c.args[1].e, o.table_size_ == c.arg(2), o.priority_ == c.args[3].e, o.rate_limited_ == c.args[4].e)), ("nothing was read", Not(o.next_timestep_called_))]
    def ctor_outer(L):
        C = Cols(L.this); x = L.i; a = chunks_of(L.fctx); ch = a._mt.el; now = L.local("column_chunks")
        return [("columns so far", And(C.n == x, fa(c_, Implies(And(0 <= c_, c_ < x), And(C.len(C.cur(c_)) == C.len(C.W(c_)), fa(j, Implies(And(0 <= j, j < C.len(C.W(c_))), And(C.T(C.cur(c_), j) == C.T(C.W(c_), j), C.off(C.cur(c_), j) == 0)), C.at(C.cur(c_), j)))), C.cur(c_)))),
                ("columns to come", And(now.len == a.len, fa(c_, Implies(And(x <= c_, c_ < a.len), now.arr[c_] == a.arr[c_]), now.arr[c_])))]
    def ctor_inner(L):
        C = Cols(L.this); o = L.outer.i; x = L.i; s = L.local("slices"); a = chunks_of(L.fctx); ch = a._mt.el; now = L.local("column_chunks")
        return [("slices so far", And(s.len == x, fa(j, Implies(And(0 <= j, j < x), And(C.cc.get(s.arr[j], "tensor") == C.T(C.W(o), j), C.cc.get(s.arr[j], "offset") == 0)), s.arr[j]))),
                ("slices to come", And(now.len == a.len, ch.len(now.arr[o]) == ch.len(a.arr[o]), fa(j, Implies(And(x <= j, j < ch.len(a.arr[o])), Select(ch.arr(now.arr[o]), j) == Select(ch.arr(a.arr[o]), j)), Select(ch.arr(now.arr[o]), j)))),
                ("columns to come", fa(c_, Implies(And(o < c_, c_ < a.len), now.arr[c_] == a.arr[c_]), now.arr[c_]))]
    def ctor_count(L):
        C = Cols(L.this); C.defs(L.ex, 0, L.i, L.i + 1)
        return [("steps counted", L.this.num_timesteps_ == C.CUM(C.W(0), L.i))]
    S.contract(f"{SM}::{SM}", nparams=7, setup=ctor_def, requires=ctor_pre, ensures=ctor_post, loops={0: ctor_outer, 1: ctor_inner, 2: ctor_count})
    # step by step
    def step_post(c):
        a, o = Cols(c.pre), Cols(c.post); d = c.res; n = a.read(0)
        h = lambda x, y: Implies(And(0 <= x, x < a.n, 0 <= y, y < a.len(a.W(x)), a.CUM(a.W(x), y) <= n, n < a.CUM(a.W(x), y) + a.rows(a.W(x), y)), And(dt(d.arr[x + 4]) == dt(a.T(a.W(x), y)), AS_ROW(d.arr[x + 4]) == row(a.T(a.W(x), y), n - a.CUM(a.W(x), y))))
        if impl(c):
            x, y = c.ex.fresh(IntSort(), "somecolumn"), c.ex.fresh(IntSort(), "someslice"); a.defs(c.ex, x, y + 1, a.F(x) + 1)
            c.ex.assume_once(And(*[Implies(And(0 <= u, u <= v), a.CUM(a.W(x), u) <= a.CUM(a.W(x), v)) for u, v in ((y + 1, a.F(x)), (a.F(x) + 1, y))])); here = h(x, y)
        else: here = fa([c_, j], h(c_, j), a.at(a.W(c_), j))
        return inv(c.post) + [("one tensor per column", d.len == a.n + 4)] + scalars(c.pre, d) + [("every column's next row is returned", here), ("one more step has been read", fa(c_, Implies(And(0 <= c_, c_ < a.n), o.read(c_) == n + 1), o.cur(c_))), ("the sample was read", c.post.next_timestep_called_)]
    def step_loop(L):
        a, o = Cols(L.this0), Cols(L.this); d = L.local("result"); x = L.i; n = a.read(0); ex = L.ex
        for y in (x, x - 1): a.defs(ex, y, a.F(y), a.F(y) + 1)
        me = lambda y: And(dt(d.arr[y + 4]) == dt(a.T(a.W(y), a.F(y))), AS_ROW(d.arr[y + 4]) == row(a.T(a.W(y), a.F(y)), a.off(a.cur(y), 0)))
        last = lambda y: a.off(a.cur(y), 0) + 1 == a.rows(a.W(y), a.F(y))
        return [("columns stay", And(o.n == a.n, d.len == x + 4))] + scalars(L.this0, d) + [("rows taken", fa(c_, Implies(And(0 <= c_, c_ < x), me(c_)), d.arr[c_ + 4], a.cur(c_))),
                ("columns advanced", fa(c_, Implies(And(0 <= c_, c_ < x), And(o.read(c_) == n + 1, o.len(o.cur(c_)) == a.len(a.cur(c_)) - If(last(c_), 1, 0), Implies(o.len(o.cur(c_)) > 0, And(o.off(o.cur(c_), 0) == If(last(c_), 0, a.off(a.cur(c_), 0) + 1), o.off(o.cur(c_), 0) < o.rows(o.W(c_), o.F(c_)))))), o.cur(c_))),
                ("what is left are the slices after it", fa([c_, j], Implies(And(0 <= c_, c_ < x, 0 <= j, j < o.len(o.cur(c_))), And(o.T(o.cur(c_), j) == a.T(a.cur(c_), If(last(c_), 1, 0) + j), Implies(j >= 1, o.off(o.cur(c_), j) == 0))), o.at(o.cur(c_), j))),
                ("columns to come", fa(c_, Implies(And(x <= c_, c_ < a.n), o.cur(c_) == a.cur(c_)), o.cur(c_)))]
    S.contract(f"{SM}::GetNextTimestep", setup=cum_lemma, requires=lambda c: inv(c.pre) + [("the columns have equally many rows", Cols(c.pre).TS()), ("steps are left", Cols(c.pre).read(0) < Cols(c.pre).N(0))], modifies=["columns_", "next_timestep_called_"], ensures=step_post, loops={0: step_loop})
    # as a whole
    def col_is(C, c, t):
        """t is column c as a whole"""
        W = C.W(c)
        return And(ndim(shp(t)) == ndim(shp(C.T(W, 0))), dim(shp(t), 0) == C.N(c), dt(t) == dt(C.T(W, 0)), fa(r, Implies(And(1 <= r, r < ndim(shp(t))), dim(shp(t), r) == dim(shp(C.T(W, 0)), r)), dim(shp(t), r)),
                   fa([j, r], Implies(And(0 <= j, j < C.len(W), 0 <= r, r < C.rows(W, j)), row(t, C.CUM(W, j) + r) == row(C.T(W, j), r)), MultiPattern(C.CUM(W, j), row(C.T(W, j), r))))
    def joinable(C, c): W = C.W(c); return And(C.len(W) >= 1, fa(j, Implies(And(0 <= j, j < C.len(W)), dt(C.T(W, j)) == dt(C.T(W, 0))), C.at(W, j)))
    def unread(o): return [("nothing was read", Not(o.next_timestep_called_))]
    def all_cols(C, f, hi=None): return fa(c_, Implies(And(0 <= c_, c_ < (C.n if hi is None else hi)), f(c_)), C.W(c_))
    def sums_agree(ex):
        def hook(mt, sq):
            L = ex.unpack_loop; C = Cols(L.this0); W = C.W(L.i); off = tf.OFFS(sq)
            ex.induct("the joined rows lie where the column has them", C.len(W) + 1, lambda e: off(sq, e) == C.CUM(W, e), lambda e: And(off(sq, 0) == 0, C.CUM(W, 0) == 0, Implies(e >= 1, And(off(sq, e) == off(sq, e - 1) + dim(shp(mt.at(sq, e - 1)), 0), C.CUM(W, e) == C.CUM(W, e - 1) + C.rows(W, e - 1)))), use=[C.len(W)])
        ex.concat_hooks = [hook]
    def unpack_setup(ex, c): cum_lemma(ex, c); sums_agree(ex)
    def unpack_post(c):
        C = Cols(c.pre); d, d0 = c.ptrpost(0), c.ptr(0)
        return [("the number of tensors stays", d.len == d0.len), ("the first tensors stay", And(*[d.arr[x] == d0.arr[x] for x in range(4)])), ("columns are joined exactly if possible", (c.res == 0) == all_cols(C, lambda x: joinable(C, x))),
                ("every column is returned as a whole", Implies(c.res == 0, fa(c_, Implies(And(0 <= c_, c_ < C.n), col_is(C, c_, d.arr[c_ + 4])), C.W(c_))))]
    def unpack_loop(L):
        L.ex.unpack_loop = L; C = Cols(L.this0); d, d0 = L.fctx.ptrpost(0), L.fctx.ptr(0); x = L.i
        for y in (x, x - 1): C.defs(L.ex, y, IntVal(1))
        return [("columns stay", L.this.columns_.e == L.this0.columns_.e), ("position", L.local("i") == x + 4), ("the number of tensors stays", d.len == d0.len), ("the first tensors stay", And(*[d.arr[y] == d0.arr[y] for y in range(4)])), ("columns so far could be joined", all_cols(C, lambda y: joinable(C, y), x)), ("columns so far", fa(c_, Implies(And(0 <= c_, c_ < x), col_is(C, c_, d.arr[c_ + 4])), C.W(c_)))]
    def unpack_inner(L):
        C = Cols(L.this0); o = L.outer.i; t = L.local("column_tensors")
        return [("columns stay", L.this.columns_.e == L.this0.columns_.e), ("slices so far", And(t.len == L.i, fa(j, Implies(And(0 <= j, j < L.i), t.arr[j] == C.T(C.W(o), j)), t.arr[j], C.at(C.W(o), j))))]
    S.contract(f"{SM}::UnpackColumns", nonnull=(0,), setup=unpack_setup, requires=lambda c: inv(c.pre) + unread(c.pre) + [("one tensor per column", c.ptr(0).len == Cols(c.pre).n + 4)], modifies=[("arg", 0)], ensures=unpack_post, loops={0: unpack_loop, 1: unpack_inner})
    def squeezed(c, x): return c.pre.squeeze_columns_.arr[x]
    def traj_post(c):
        C = Cols(c.pre); d, d0 = c.ptrpost(0), c.ptr(0); read = c.pre.next_timestep_called_
        ok = And(Not(read), all_cols(C, lambda x: joinable(C, x)), all_cols(C, lambda x: Implies(squeezed(c, x), C.N(x) == 1)))
        return [("a trajectory is returned exactly if nothing was read and the columns can be joined and squeezed", (c.res == 0) == ok), ("the result stays on errors", Implies(c.res != 0, d.e == d0.e)), ("one tensor per column", Implies(c.res == 0, d.len == C.n + 4))] + [(l, Implies(c.res == 0, f)) for l, f in scalars(c.pre, d)] + [
                ("every column is returned as a whole, squeezed when marked", Implies(c.res == 0, fa(c_, Implies(And(0 <= c_, c_ < C.n), If(squeezed(c, c_), And(ndim(shp(d.arr[c_ + 4])) == ndim(shp(C.T(C.W(c_), 0))) - 1, dt(d.arr[c_ + 4]) == dt(C.T(C.W(c_), 0)), AS_ROW(d.arr[c_ + 4]) == row(C.T(C.W(c_), 0), 0)), col_is(C, c_, d.arr[c_ + 4]))), C.W(c_))))]
    def traj_loop(L):
        C = Cols(L.this0); c = L.fctx; d, d0 = L.local("sequences"), L.local0("sequences"); x = L.counter()
        for y in (x, x - 1): C.defs(L.ex, y, IntVal(1))
        one = lambda y: And(ndim(shp(d.arr[y + 4])) == ndim(shp(C.T(C.W(y), 0))) - 1, dt(d.arr[y + 4]) == dt(C.T(C.W(y), 0)), AS_ROW(d.arr[y + 4]) == row(C.T(C.W(y), 0), 0))
        return [("position", And(0 <= x, x <= C.n, d.len == C.n + 4)), ("the first tensors stay", And(*[d.arr[y] == d0.arr[y] for y in range(4)])), ("squeezed columns had one row", all_cols(C, lambda y: Implies(squeezed(c, y), C.N(y) == 1), x)),
                ("columns so far", fa(c_, Implies(And(0 <= c_, c_ < x), If(squeezed(c, c_), one(c_), d.arr[c_ + 4] == d0.arr[c_ + 4])), C.W(c_))), ("columns to come", fa(c_, Implies(And(x <= c_, c_ < C.n), d.arr[c_ + 4] == d0.arr[c_ + 4]), d.arr[c_ + 4], C.W(c_)))]
    S.contract(f"{SM}::AsTrajectory", nonnull=(0,), setup=cum_lemma, requires=lambda c: inv(c.pre), modifies=[("arg", 0)], ensures=traj_post, loops={0: traj_loop})
    def batch_post(c):
        C = Cols(c.pre); d, d0 = c.ptrpost(0), c.ptr(0); read = c.pre.next_timestep_called_
        ok = And(Not(read), C.TS(), all_cols(C, lambda x: joinable(C, x)))
        return [("steps are returned exactly if nothing was read and the columns have equally many rows", (c.res == 0) == ok), ("the result stays on errors", Implies(c.res != 0, d.e == d0.e)), ("one tensor per column", Implies(c.res == 0, d.len == C.n + 4)),
                ("the first tensors repeat key, probability, table size and priority for every step", Implies(c.res == 0, And(*[And(ndim(shp(d.arr[x])) == 1, dim(shp(d.arr[x]), 0) == C.N(0), fa(k, Implies(And(0 <= k, k < C.N(0)), row(d.arr[x], k)[0] == cell(v)), row(d.arr[x], k))) for x, v in enumerate(meta(c.pre))]))),
                ("every column is returned as a whole", Implies(c.res == 0, fa(c_, Implies(And(0 <= c_, c_ < C.n), col_is(C, c_, d.arr[c_ + 4])), C.W(c_))))]
    S.contract(f"{SM}::AsBatchedTimesteps", nonnull=(0,), setup=cum_lemma, requires=lambda c: inv(c.pre), modifies=[("arg", 0)], ensures=batch_post)
def end_post(c):
    C = Cols(c.pre); o = c.pre
    c.ex.assume_once(BoolVal(True))
    return [("the end is reported exactly when every column is empty", c.res == fa(c_, Implies(And(0 <= c_, c_ < C.n), C.len(C.cur(c_)) == 0), C.cur(c_))),
            ("for columns of timesteps: exactly when all their steps were read", Implies(C.TS(), c.res == (C.read(0) == C.N(0))))]
