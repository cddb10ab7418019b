"""Contracts of the chunker (C15)."""
from z3 import *
from vc.mtypes import *
from vc import tf
from vc.tf import TENSOR, SHAPE, shp, ndim, dim, row, INNER, AS_ROW
from vc.specs import Monitor
from contracts.lib import fa, same
from contracts.compression import dt, impl
from contracts.cells import *
from contracts.chunker_options import KEEP, DELTA, MAXC, TUNED, in_range
CK, CO = "Chunker", "ChunkerOptions"
k, k2, r, q = Ints("k k2 r q")
INVALID, FAILED, INTERNAL = 3, 9, 13
def cap(o): return If(TUNED(o), KEEP(o), MAXC(o))
def valid(o): return And(o > 0, KEEP(o) >= 1, KEEP(o) < 2 ** 31, Implies(Not(TUNED(o)), in_range(MAXC(o), KEEP(o))))
def parts(o):
    n, m = o.buffer_.len, o.active_refs_.len
    return n, m, m - n, o.active_refs_.arr, o.buffer_.arr
def known(s): return And(Not(SHAPE.get(s, "unknown")), ndim(s) >= 0, fa(q, Implies(And(0 <= q, q < ndim(s)), dim(s, q) >= 0), dim(s, q)))
def cinv(o):
    v = o._view; n, m, F, A, B = parts(o); cur = And(F <= k, k < m)
    return [("the next offset is the number of buffered steps", o.offset_ == n), ("every buffered step has its reference", And(0 <= n, n <= m)), ("references exist", fa(k, Implies(And(0 <= k, k < m), And(A[k] > 0, A[k] < v.alloc)), A[k])),
            ("buffered steps have the key of the next chunk and their position as offset", fa(k, Implies(cur, And(key(v, A[k]) == o.next_chunk_key_, off(v, A[k]) == k - F)), A[k])),
            ("earlier steps belong to other chunks", fa(k, Implies(And(0 <= k, k < F), key(v, A[k]) != o.next_chunk_key_), A[k])),
            ("earlier steps have their chunk", fa(k, Implies(And(0 <= k, k < F), box(v, A[k]) != 0), A[k])),
            ("the buffer holds the appended values", fa(k, Implies(cur, buffered(B[k - F], VAL(A[k]))), A[k])),
            ("buffered values have the column's type and shape", fa(k, Implies(And(0 <= k, k < n), And(dt(B[k]) == o.spec_.dtype, ndim(shp(B[k])) == ndim(o.spec_.shape.e) + 1, dim(shp(B[k]), 0) == 1, fa(q, Implies(And(1 <= q, q <= ndim(o.spec_.shape.e)), dim(shp(B[k]), q) == dim(o.spec_.shape.e, q - 1)), dim(shp(B[k]), q)))), B[k])),
            ("buffered steps belong to one episode and are in order", fa([k, k2], Implies(And(F <= k, k < k2, k2 < m), And(epi(v, A[k]) == epi(v, A[k2]), step(v, A[k]) < step(v, A[k2]))), MultiPattern(A[k], A[k2]))),
            ("the buffer is shorter than a chunk", n < cap(o.options_)), ("no more references than configured are kept", m <= KEEP(o.options_))]
def buffered(t, v):
    return And(dt(t) == dt(v), Not(SHAPE.get(shp(v), "unknown")), ndim(shp(v)) >= 0, tf.shift_shape(shp(t), shp(v)), row(t, 0) == AS_ROW(v))
def static(o): return [("the options are valid", valid(o.options_)), ("the column's shape is fully known", known(o.spec_.shape.e)), ("a key generator exists", o.key_generator_ > 0)]
def register(S):
    state = ["buffer_", "offset_", "next_chunk_key_", "active_refs_"]
    S.monitor(Monitor(f"{CK}.mu_", CK, [f"{CK}.{f}" for f in state], inv=cinv))
    S.contract("internal::KeyGenerator::Generate", abstract=True, ensures=lambda c: [("a key no reference has", And(c.res >= 0, fa(r, key(c.V0, r) != c.res, key(c.V0, r))))])
    S.assumptions.add("generated chunk keys are unique (64 random bits)")
    S.assumptions.add("Chunker is created with a fully known shape (as TrajectoryWriter does) and valid options")
    cells = ("all", f"{CELL}.chunk_")
    def acq(c): return c.ex.snap_acq.obj(c.thisref, CK) if c.ex.snap_acq is not None else None
    def entry(c): return acq(c) if impl(c) else None
    def unchanged(a, o): return same(a, o, *state)
    # a flush
    def range_is(c, A, lo, hi, box_):
        v = c.V1; mt, d = data(v, box_); rg = mt.ft("sequence_range"); s = mt.get(d, "sequence_range")
        gap = lambda x: step(v, A[x]) != step(v, A[x - 1]) + 1
        return [("the chunk's range is the episode and steps of its references", And(mt.get(d, "has_sequence_range"), rg.get(s, "episode_id") == epi(v, A[lo]), rg.get(s, "start") == step(v, A[lo]), rg.get(s, "end") == step(v, A[hi - 1]))),
                ("the chunk is marked sparse exactly if steps are missing", rg.get(s, "sparse") == Exists(k, And(lo < k, k < hi, gap(k))))]
    def flush_post(c):
        a, o = c.pre, c.post; n, m, F, A, B = parts(a); v = c.V1; C = box(v, A[m - 1]); mt, d = data(v, C); cnt, arr = tensors(v, C)
        out = [("flushing succeeds", c.res == 0), ("other references keep their chunk", fa(r, Implies(key(v, r) != a.next_chunk_key_, box(v, r) == box(c.V0, r)), box(v, r))), ("nothing to flush: nothing changes", Implies(n == 0, unchanged(a, o))), ("references stay", same(a, o, "active_refs_")),
               ("the buffer is empty afterwards", And(o.buffer_.len == 0, o.offset_ == 0)), ("the next chunk has a new key", Implies(n > 0, fa(r, Implies(r < c.V0.alloc, key(v, r) != o.next_chunk_key_), key(v, r)))),
               ("every buffered step has its chunk", Implies(n > 0, fa(k, Implies(And(F <= k, k < m), And(box(v, A[k]) == C, C > 0)), A[k]))),
               ("the chunk is new", Implies(n > 0, And(C >= c.V0.alloc, held(v, C) > 0))),
               ("the chunk holds as many rows as steps were buffered", Implies(n > 0, And(cnt == 1, encodes(arr[0], TENS(C)), ndim(shp(TENS(C))) >= 1, dim(shp(TENS(C)), 0) == n))),
               ("no chunk is longer than configured", Implies(n > 0, n <= cap(a.options_))),
               ("the chunk is delta encoded exactly if configured", Implies(n > 0, mt.get(d, "delta_encoded") == DELTA(a.options_)))]
        return out + [(lab, Implies(n > 0, f)) for lab, f in range_is(c, A, F, m, C)]
    def flush_pre(c):     # called with one more step than the invariant allows
        return static(c.pre) + [(lab, f) for lab, f in cinv(c.pre) if lab not in ("the buffer is shorter than a chunk", "no more references than configured are kept")] + [("the buffer is not longer than a chunk", c.pre.buffer_.len <= cap(c.pre.options_))]
    def l_range(L):
        c = L.fctx; a = c.pre; n, m, F, A, B = parts(a); v = L.cur; p = L.local("chunk"); mt = v.ex.mt(v.ex.field_mt(BOX, "chunk").to_ty); ha = lambda w: Select(w.harr("obj." + mt.name, mt), p)
        d, d0 = ha(v), ha(L.entry); rg = mt.ft("sequence_range"); s = mt.get(d, "sequence_range"); i_ = L.i
        keep = And(*[mt.get(d, f) == mt.get(d0, f) for f in ("chunk_key", "data", "delta_encoded", "data_tensors_len") if mt.has(f)])
        return [("the rest of the chunk stays", keep), ("a range is recorded once a step of the chunk was seen", mt.get(d, "has_sequence_range") == (i_ > F)),
                ("the range covers the steps seen", Implies(i_ > F, And(rg.get(s, "episode_id") == epi(v, A[F]), rg.get(s, "start") == step(v, A[F]), rg.get(s, "end") == step(v, A[i_ - 1])))),
                ("not sparse means no step is missing", Implies(And(i_ > F, Not(rg.get(s, "sparse"))), fa(k, Implies(And(F < k, k < i_), step(v, A[k]) == step(v, A[k - 1]) + 1), A[k]))),
                ("sparse means a step is missing", Implies(And(i_ > F, rg.get(s, "sparse")), Exists(k, And(F < k, k < i_, step(v, A[k]) != step(v, A[k - 1]) + 1)))),
                ("no range, not sparse", Implies(i_ <= F, Not(rg.get(s, "sparse"))))]
    def l_set(L):
        c = L.fctx; n, m, F, A, B = parts(c.pre); v = L.cur; C = L.local("chunk_container")
        return [("references seen have the chunk", fa(k, Implies(And(F <= k, k < L.i), box(v, A[k]) == C), A[k])), ("other references keep theirs", fa(r, Implies(box(v, r) != box(L.entry, r), And(box(v, r) == C, key(v, r) == c.pre.next_chunk_key_)), box(v, r)))]
    S.contract(f"{CK}::FlushLocked", requires=flush_pre, ensures=flush_post, modifies=["buffer_", "offset_", "next_chunk_key_", ("alloc",), cells], loops={0: l_range, 1: l_set})
    # appending
    def kept_refs(c, a, o, ext, n1):
        """o's references are the newest of the n1 references ext"""
        ln = o.active_refs_.len
        return [("the newest references are kept, in order", And(ln == If(n1 <= KEEP(o.options_), n1, KEEP(o.options_)), fa(k, Implies(And(0 <= k, k < ln), o.active_refs_.arr[k] == ext(k + n1 - ln)), o.active_refs_.arr[k])))]
    def append_post(c):
        t = c.arg(0).e; ei = c.arg(1); o = c.post; new = c.ptrpost(2)
        fits_type = And(dt(t) == c.pre.spec_.dtype, tf.compatible(c.pre.spec_.shape.e, shp(t)))
        out = [("a value of another type or shape is refused", Implies(Not(fits_type), c.res == INVALID)), ("the status is OK, invalid argument or failed precondition", Or(c.res == 0, c.res == INVALID, c.res == FAILED)),
               ("other values are not invalid", Implies(fits_type, c.res != INVALID))]
        if not impl(c): return out + [("a reference to the value is returned", Implies(c.res == 0, And(new > 0, VAL(new) == t, epi(c.V1, new) == ei.episode_id, step(c.V1, new) == ei.step)))]
        a = acq(c)
        if a is None: return out
        n, m, F, A, B = parts(a); v = c.V1; last = A[m - 1]
        refuse = And(n > 0, Or(epi(v, last) != ei.episode_id, step(v, last) >= ei.step))
        r0 = c.res == 0
        return out + [("a step out of order or of a new episode is refused while steps are buffered", Implies(fits_type, (c.res == FAILED) == refuse)), ("a refused step changes nothing", Implies(c.res != 0, unchanged(a, o))),
                ("the returned reference is the newest one", Implies(r0, And(o.active_refs_.len >= 1, new == o.active_refs_.arr[o.active_refs_.len - 1], new >= c.V0.alloc))),
                ("it denotes the appended value, in its episode", Implies(r0, And(VAL(new) == t, epi(v, new) == ei.episode_id, step(v, new) == ei.step))),
                ("it is the next step of the chunk being filled", Implies(r0, And(key(v, new) == a.next_chunk_key_, off(v, new) == n))),
                ("the chunk is built exactly if it is full", Implies(r0, And(Or(o.buffer_.len == n + 1, And(o.buffer_.len == 0, box(v, new) != 0)), Implies(Not(TUNED(o.options_)), (o.buffer_.len == 0) == (n + 1 >= MAXC(o.options_)))))),
                ] + [(lab, Implies(r0, f)) for lab, f in kept_refs(c, a, o, lambda x: If(x == m, new, A[x]), m + 1)]
    def append_loop(L):
        c = L.fctx; o = L.this; v = L.cur; ln = o.active_refs_.len; e = L.thisentry; m1 = e.active_refs_.len
        return [("the newest references remain", And(ln <= m1, ln >= If(m1 <= KEEP(o.options_), m1, KEEP(o.options_)), fa(k, Implies(And(0 <= k, k < ln), o.active_refs_.arr[k] == e.active_refs_.arr[k + m1 - ln]), o.active_refs_.arr[k])))]
    def append_setup(ex, c): ex.cell_hook = lambda c2: ex.assume(VAL(c2.thisref) == c.arg(0).e)
    S.contract(f"{CK}::Append", setup=append_setup, nonnull=(2,), requires=lambda c: static(c.pre), modifies=state + [("alloc",), cells, ("arg", 2)], ensures=append_post, loops={0: append_loop})
    # everything else
    S.contract(f"{CK}::Flush", requires=lambda c: static(c.pre), modifies=state + [("alloc",), cells], ensures=lambda c: [("flushing succeeds", c.res == 0)] + ([] if not impl(c) else [("references stay", same(acq(c), c.post, "active_refs_")), ("every active reference has its chunk", fa(k, Implies(And(0 <= k, k < c.post.active_refs_.len), box(c.V1, c.post.active_refs_.arr[k]) != 0), c.post.active_refs_.arr[k])), ("the buffer is empty", c.post.buffer_.len == 0)]))
    S.contract(f"{CK}::Reset", requires=lambda c: static(c.pre), modifies=state + [("alloc",)], ensures=lambda c: [] if not impl(c) else [("nothing is buffered or kept", And(c.post.buffer_.len == 0, c.post.offset_ == 0, c.post.active_refs_.len == 0))])
    # RUN(k): number of runs of equal keys among the first k + 1 active references
    RUN = Function("key_runs", IntSort(), IntSort())
    def run_at(v, A, x): return RUN(x) == If(x == 0, 1, RUN(x - 1) + If(key(v, A[x]) == key(v, A[x - 1]), 0, 1))
    def listed(v, A, K, n): return [("one key per run of references", And(K.len == If(n == 0, 0, RUN(n - 1)), K.len >= 0)), ("the keys of all references are listed in order", fa(k, Implies(And(0 <= k, k < n), And(1 <= RUN(k), RUN(k) <= K.len, K.arr[RUN(k) - 1] == key(v, A[k]))), A[k], RUN(k)))]
    def keep_loop(L):
        A, K = L.this.active_refs_.arr, L.local("keys")
        for x in (L.i, L.i - 1): L.ex.assume_once(Implies(x >= 0, run_at(L.cur, A, x)))
        return listed(L.cur, A, K, L.i)
    def keep_post(c):
        if not impl(c): return []
        return listed(c.V1, c.post.active_refs_.arr, c.res, c.post.active_refs_.len) + [("the state stays", unchanged(acq(c), c.post))]
    S.contract(f"{CK}::GetKeepKeys", modifies=state + [("alloc",)], ensures=keep_post, loops={0: keep_loop})
    def config_post(c):
        o = c.arg(0); ok = And(KEEP(o) >= 1, Implies(Not(TUNED(o)), in_range(MAXC(o), KEEP(o))))
        out = [("refused configurations change nothing", Implies(c.res != 0, c.post.options_ == c.pre.options_)), ("the given options are used", Implies(c.res == 0, c.post.options_ == o)), ("only valid options are accepted", Implies(c.res == 0, ok))]
        if impl(c):
            a = acq(c); n, m, F, A, B = parts(a)
            out += [("options are refused while steps are buffered", Implies(n > 0, And(c.res == FAILED, unchanged(a, c.post)))), ("valid options are accepted if nothing is buffered", Implies(And(n == 0, ok), c.res == 0)), ("a refusal changes nothing", Implies(c.res != 0, unchanged(a, c.post)))]
            out += [(lab, Implies(c.res == 0, f)) for lab, f in kept_refs(c, a, c.post, lambda x: A[x], m)]
        return out
    S.contract(f"{CK}::ApplyConfig", requires=lambda c: static(c.pre) + [("options are given", And(c.arg(0) > 0, KEEP(c.arg(0)) < 2 ** 31))], modifies=state + ["options_", ("alloc",)], ensures=config_post, loops={0: append_loop})
    # reading a reference
    def value_post(c, ref, out):
        V = VAL(ref); t = c.ptrpost(out).e; C = box(c.V1, ref)
        return [("the value read has the type and shape of the appended one", Implies(c.res == 0, And(dt(t) == dt(V), tf.same_shape(shp(t), shp(V))))),
                ("the value read is the appended one", Implies(c.res == 0, Or(AS_ROW(t) == AS_ROW(V), And(C != 0, rowsame(AS_ROW(t), AS_ROW(V), INNER(shp(TENS(C))))))))]
    def copy_post(c):
        out = value_post(c, c.args[0].e, 1)
        if impl(c):
            a = acq(c); n, m, F, A, B = parts(a)
            out += [("active references can be read", Implies(Exists(k, And(0 <= k, k < m, A[k] == c.args[0].e)), c.res == 0)), ("reading changes nothing", unchanged(a, c.post))]
        return out
    def copy_loop(L):
        c = L.fctx; o = L.this; m = o.active_refs_.len; x = L.local("negative_offset")
        return [("position searched", And(0 <= x, x <= m, L.raw("it").idx == m - 1 - x)), ("not among the newest references", fa(k, Implies(And(m - x <= k, k < m), o.active_refs_.arr[k] != c.args[0].e), o.active_refs_.arr[k]))]
    S.contract(f"{CK}::CopyDataForCell", opts={"exact_casts": True, "exact_unsigned": True}, nonnull=(0, 1), may_abort=True, requires=lambda c: static(c.pre), modifies=state + [("alloc",), cells, ("arg", 1)], ensures=copy_post, loops={0: copy_loop})
    S.contract(f"{CELL}::GetData", nonnull=(0,), may_abort=True, requires=lambda c: [(lab, Implies(c.pre.chunker_ > 0, f)) for lab, f in static(c.V0.obj(c.pre.chunker_, CK))],
               modifies=[("all", f"{CK}.{f}") for f in state] + [("alloc",), cells, ("arg", 0)], ensures=lambda c: value_post(c, c.thisref, 0))
    S.contract(f"{CK}::{CK}", nparams=2, requires=lambda c: [("the options are valid", valid(c.arg(1))), ("the column's shape is fully known", known(c.arg(0).shape.e))], modifies=[("alloc",)],
               ensures=lambda c: [("the chunker has the given options", c.post.options_ == c.arg(1)), ("the column is the given one", And(c.post.spec_.dtype == c.arg(0).dtype, c.post.spec_.shape.e == c.arg(0).shape.e))])
    S.contract(f"{CK}::spec", modifies=[], ensures=lambda c: [("the column's type and shape", And(c.res.dtype == c.pre.spec_.dtype, c.res.shape.e == c.pre.spec_.shape.e))])
    # automatic tuning is told about exactly the references of this chunker
    def built(v, s): return fa(k, Implies(And(0 <= k, k < s.len), And(s.arr[k] > 0, box(v, s.arr[k]) != 0)), s.arr[k])
    S.contract(f"{CO}::OnItemFinalized", abstract=True, modifies=[cells], requires=lambda c: [("references are given", c.arg(1).len >= 1), ("every chunk has been built", built(c.V0, c.arg(1)))], ensures=lambda c: [("built chunks stay", stay(c.V0, c.V1))])
    S.contract(f"{CK}::OnItemFinalized", may_abort=True, modifies=[cells], requires=lambda c: [("every chunk has been built", built(c.V0, c.arg(1))), ("options exist", c.pre.options_ > 0)],
               loops={0: lambda L: [("the references passed on are built and belong to this chunker", fa(k, Implies(And(0 <= k, k < L.local("child_refs").len), And(L.local("child_refs").arr[k] > 0, box(L.cur, L.local("child_refs").arr[k]) != 0, Select(cell(L.cur, "chunker_"), L.local("child_refs").arr[k]) == L.fctx.thisref)), L.local("child_refs").arr[k]))]})
