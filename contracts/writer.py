"""Contracts of the legacy writer (C19)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M, tf
from vc.tf import shp, row, ndim, dim
from contracts.lib import fa, same
from contracts.compression import encodes
from contracts.trajectory import Traj, PS, steps_def
k, j, i_, c_, s_, x_, q_ = Ints("k j i_ c s x q_")
CLS = "Writer"; I64 = MInt(64, True); U64 = MInt(64, False); KEYS = MSet(U64); POS = MMap(U64, I64)
OK, INVALID, FAILED, UNAVAILABLE = 0, 3, 9, 14
_f = {}
def fn(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _f: _f[key] = Function(name, *sorts)
    return _f[key]
# ---- the chunks a writer holds
class Chunks:
    def __init__(self, w): self.w, self.n, self.arr, self.mt, self.el = w, w.len, w.arr, w._mt, w._mt.el
    def key(self, i): return self.el.get(Select(self.arr, i), "chunk_key")
    def rng(self, i, f): return self.el.ft("sequence_range").get(self.el.get(Select(self.arr, i), "sequence_range"), f)
    def start(self, i): return self.rng(i, "start")
    def end(self, i): return self.rng(i, "end")
    def columns(self, i): return self.el.ft("data").ft("tensors").len(self.el.ft("data").get(self.el.get(Select(self.arr, i), "data"), "tensors"))
    def has(self, x): return fn("a_chunk_has_key", self.mt.sort(), IntSort(), BoolSort())(self.w.e, x)
    def where(self, x): return fn("chunk_with_key", self.mt.sort(), IntSort(), IntSort())(self.w.e, x)
    def define(self, ex):
        """has(x): some chunk has key x"""
        ex.assume_once(fa(x_, Implies(self.has(x_), And(0 <= self.where(x_), self.where(x_) < self.n, self.key(self.where(x_)) == x_)), self.has(x_)))
        ex.assume_once(fa(k, Implies(And(0 <= k, k < self.n), self.has(self.key(k))), Select(self.arr, k)))
        ex.assume_once(Implies(unique(self)[1], fa(k, Implies(And(0 <= k, k < self.n), self.where(self.key(k)) == k), Select(self.arr, k))))
def item_traj(o, items, i): mt = items._mt.el; return Traj(X.wrap(o._view, mt.ft("flat_trajectory"), mt.get(Select(items.arr, i), "flat_trajectory")))
def total(o): return o.index_within_episode_ + o.buffer_.len
def unique(C): return ("no two chunks have the same key", fa([j, k], Implies(And(0 <= j, j < k, k < C.n), C.key(j) != C.key(k)), MultiPattern(C.arr[j], C.arr[k])))
def chunk_inv(o):
    C = Chunks(o.chunks_); L = o.chunk_length_
    return [("chunks hold between one and the configured number of steps", fa(k, Implies(And(0 <= k, k < C.n), And(C.start(k) >= 0, C.start(k) <= C.end(k), C.end(k) - C.start(k) < L, C.end(k) < o.index_within_episode_)), C.arr[k])),
            ("chunks have columns", fa(k, Implies(And(0 <= k, k < C.n), And(0 <= C.columns(k), C.columns(k) < 2 ** 31)), C.arr[k])),
            ("chunks follow one another", fa(k, Implies(And(1 <= k, k < C.n), C.start(k) == C.end(k - 1) + 1), C.arr[k])),
            ("the buffer continues where the last chunk ends", Implies(C.n >= 1, C.end(C.n - 1) + 1 == o.index_within_episode_)),
            unique(C),
            ("the next key is new", fa(k, Implies(And(0 <= k, k < C.n), C.key(k) != o.next_chunk_key_), C.arr[k]))]
def config(o): return [("the configuration is sensible", And(1 <= o.chunk_length_, o.chunk_length_ < 2 ** 31, 1 <= o.max_timesteps_, o.max_timesteps_ < 2 ** 31)), ("the episode is representable", And(0 <= o.index_within_episode_, total(o) < 2 ** 30, Implies(o.buffer_.len > 0, ncols(o) < 2 ** 31))),
                       ("signatures of the last steps are kept", And(o.inserted_dtypes_and_shapes_.len == o.max_timesteps_, 0 <= o.insert_dtypes_and_shapes_location_, o.insert_dtypes_and_shapes_location_ < o.max_timesteps_)),
                       ("sizes", And(o.buffer_.len >= 0, o.chunks_.len >= 0, o.pending_items_.len >= 0)), ("buffered steps have the same number of tensors", And(fa(k, Implies(And(0 <= k, k < o.buffer_.len), And(o.buffer_._mt.el.len(o.buffer_.arr[k]) == ncols(o), ncols(o) >= 0)), o.buffer_.arr[k])))]
def ncols(o): return o.buffer_._mt.el.len(Select(o.buffer_.arr, 0))
def refs(o, items=None, ready=False):
    """pending items refer to chunks the writer holds or to the one being filled"""
    C = Chunks(o.chunks_); items = items or o.pending_items_; t = item_traj(o, items, j); x = t.f(c_, s_, "chunk_key")
    return fa([j, c_, s_], Implies(And(0 <= j, j < items.len, t.inside(c_, s_)), C.has(x) if ready else Or(C.has(x), And(x == o.next_chunk_key_, o.buffer_.len >= 1))), t.sl(c_, s_))
def winv(o, full=False):
    return config(o) + chunk_inv(o) + [("the buffer is shorter than a chunk", o.buffer_.len <= o.chunk_length_ if full else o.buffer_.len < o.chunk_length_), ("items wait only for a chunk being filled", Implies(o.pending_items_.len > 0, o.buffer_.len > 0)), ("pending items refer to chunks of the writer", refs(o))] + streamed(o)
def streamed(o): return [("chunks marked as sent were sent on this stream", Or(o.stream_ == 0, fa(x_, Implies(o.streamed_chunk_keys_.e[x_], o.onstream.e[x_]), o.streamed_chunk_keys_.e[x_])))]
def covers_last(o, t, n, b):
    """every column of t covers exactly the last n steps, in order, chunk by chunk (b: 1 if the buffer holds steps)"""
    C = Chunks(o.chunks_); G = C.n + b; T = total(o)
    S = lambda g: If(g < C.n, C.start(g), If(g == C.n, o.index_within_episode_, T)) if b else If(g < C.n, C.start(g), T); KEY = lambda g: If(g < C.n, C.key(g), o.next_chunk_key_) if b else C.key(g)
    m = lambda c: t.len(c); first = lambda c: G - m(c)
    off = lambda c, s: t.f(c, s, "offset"); ln = lambda c, s: t.f(c, s, "length"); g = lambda c, s: first(c) + s
    parts = (("each slice names the next chunk", lambda c, s: t.f(c, s, "chunk_key") == KEY(g(c, s))), ("each slice is of its own column", lambda c, s: t.f(c, s, "index") == c), ("only the first slice of a column skips steps", lambda c, s: And(off(c, s) == If(s == 0, T - n - S(g(c, s)), 0), off(c, s) >= 0)), ("each slice has steps", lambda c, s: ln(c, s) >= 1), ("each slice ends at the end of its chunk (chunks before the last)", lambda c, s: Implies(g(c, s) + 1 < C.n, C.start(g(c, s)) + off(c, s) + ln(c, s) == C.start(g(c, s) + 1))), ("each slice ends at the end of its chunk (last chunk)", lambda c, s: Implies(g(c, s) == C.n - 1, C.start(g(c, s)) + off(c, s) + ln(c, s) == (o.index_within_episode_ if b else T)))) + ((("each slice ends at the end of its chunk (steps in the buffer)", lambda c, s: Implies(g(c, s) == C.n, o.index_within_episode_ + off(c, s) + ln(c, s) == T)),) if b else ())
    return [("the item's columns are the writer's", t.n == (ncols(o) if b else C.el.ft("data").ft("tensors").len(C.el.ft("data").get(C.el.get(C.arr[0], "data"), "tensors")))),
            ("the item's chunks are the latest ones", fa(c_, Implies(And(0 <= c_, c_ < t.n), And(1 <= m(c_), m(c_) <= G, Not(t.squeeze(c_)))), t.cols[c_]))] + [("the item covers exactly the last steps asked for, in order: " + lab, fa([c_, s_], Implies(t.inside(c_, s_), one(c_, s_)), t.sl(c_, s_))) for lab, one in parts]
def suffix(c, a, o):
    """items leave the queue at its front, one for each item sent"""
    m = o.sent - a.sent; P, Q = a.pending_items_, o.pending_items_
    return [("items leave the queue exactly when they are sent, in order", And(0 <= m, m <= P.len, Q.len == P.len - m, fa(k, Implies(And(0 <= k, k < Q.len), Q.arr[k] == P.arr[k + m]), Q.arr[k])))]
def register(S):
    S.list_as_seq = True
    impl = lambda c: getattr(c, "is_impl", False)
    KS = ArraySort(IntSort(), IntSort())
    S.ghost[f"{CLS}.sent"] = I64; S.ghost[f"{CLS}.onstream"] = KEYS; S.ghost[f"{CLS}.inreq"] = KEYS; S.ghost[f"{CLS}.reqpos"] = POS
    def reverse(ex, n):
        a, b = (ex.rv(ex.eval(x)) for x in n["args"]); lv, mt = a.lv, a.lv.mt; s = ex.z(lv.read(ex), mt); m, old = mt.len(s), mt.arr(s)
        if not (isinstance(a, X.PyVal) and a.kind == "seqiter" and simplify(a.idx).eq(IntVal(0)) and simplify(b.idx).eq(simplify(m))): return NotImplemented
        new = ex.fresh(old.sort(), "reversed")
        for p, q in ((new, old), (old, new)): ex.assume(fa(k, Implies(And(0 <= k, k < m), p[k] == q[m - 1 - k]), p[k]))
        lv.write(ex, X.Z(mt, mt.mk(m, new)))
    S.call_models["std::reverse"] = reverse
    S.contract(f"{CLS}::NewID", abstract=True, ensures=lambda c: [("a key no chunk has", And(c.res >= 0, fa(k, Implies(And(0 <= k, k < c.pre.chunks_.len), Chunks(c.pre.chunks_).key(k) != c.res), c.pre.chunks_.arr[k])))])
    S.assumptions.add("Writer::NewID returns keys that were not used before (64 random bits)"); S.assumptions.add("an episode has fewer than 2^30 steps")
    for f in ("ConfirmItems", "StartItemConfirmationWorker", "StopItemConfirmationWorker"):
        S.contract(f"{CLS}::{f}", abstract=True, modifies=["num_items_in_flight_"], ensures=lambda c, f=f: [("a status", c.res >= 0)] if f[:3] == "Sto" else [])
    S.assumptions.add("waiting for confirmations (ConfirmItems, Start/StopItemConfirmationWorker) does not touch buffered data or queued items")
    # the stream
    G = "grpc::internal::"
    def put(ex, f, mt, e): X.HeapLV(f"{CLS}.{f}", ex.me, mt).write(ex, X.Z(mt, e))
    def me(ex): return ex.view().obj(ex.me, CLS)
    def opened(ex, n): r = ex.new_ref(); put(ex, "onstream", KEYS, KEYS.empty()); return X.Z(ex.mt(ex.ty(n["t"])), r)
    def write(ex, n):
        r = M.norm_lv(ex, ex.eval(n["args"][0])).read(ex); mt = r.mt; e = ex.z(r); o = me(ex); get = lambda m, v, f: (m.ft(f), m.get(v, f))
        cmt, ch = get(mt, e, "chunks"); imt, it = get(mt, e, "item"); pmt, p = get(imt, it, "item"); has = mt.get(e, "has_item") if mt.has("has_item") else BoolVal(True)
        new = ex.fresh(KEYS.sort(), "onstream"); ck = lambda i: cmt.el.get(Select(cmt.arr(ch), i), "chunk_key")
        pos = lambda x: POS.val(o.reqpos.e)[x]; kmt = imt.ft("keep_chunk_keys"); kk = imt.get(it, "keep_chunk_keys")
        ex.obligation("chunks counted as part of the request are in it", fa(x_, Implies(o.inreq.e[x_], And(0 <= pos(x_), pos(x_) < cmt.len(ch), ck(pos(x_)) == x_)), o.inreq.e[x_]), ex.line, "pre")
        ex.assume(fa(x_, new[x_] == Or(o.onstream.e[x_], o.inreq.e[x_]), new[x_])); 
        t = Traj(X.wrap(ex.view(), pmt.ft("flat_trajectory"), pmt.get(p, "flat_trajectory"))); q = ex.queue
        ex.obligation("the item sent is the next one in the queue", Implies(has, And(o.sent - ex.sent0 < q.len, p == q.arr[o.sent - ex.sent0])), ex.line, "pre")
        ex.obligation("an item is sent after (or with) its chunks", Implies(has, fa([c_, s_], Implies(t.inside(c_, s_), new[t.f(c_, s_, "chunk_key")]), t.sl(c_, s_))), ex.line, "pre")
        ex.obligation("keys to keep are those of chunks the server has", Implies(has, fa(k, Implies(And(0 <= k, k < kmt.len(kk)), new[kmt.arr(kk)[k]]), kmt.arr(kk)[k])), ex.line, "pre")
        if not ex.choose(ex.fresh(BoolSort(), "written")): return X.Z(MBool(), BoolVal(False))
        put(ex, "onstream", KEYS, new); put(ex, "sent", I64, If(has, o.sent + 1, o.sent)); return X.Z(MBool(), BoolVal(True))
    RP = "google::protobuf::RepeatedPtrField::"
    def box(ex, n): lv = ex.eval(n["obj"]); return M.norm_lv(ex, ex.deref(ex.rv(lv)) if n.get("arrow") else lv)
    def add(ex, n):
        lv = box(ex, n); mt = lv.mt; v = ex.z(M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))).read(ex)); sq = ex.z(lv.read(ex), mt); x = mt.el.get(v, "chunk_key"); o = me(ex)
        put(ex, "inreq", KEYS, Store(o.inreq.e, x, True)); put(ex, "reqpos", POS, POS.mk(Store(POS.dom(o.reqpos.e), x, True), Store(POS.val(o.reqpos.e), x, mt.len(sq))))
        lv.write(ex, X.Z(mt, mt.mk(mt.len(sq) + 1, Store(mt.arr(sq), mt.len(sq), v)))); return None
    def drop(ex, n):
        lv = box(ex, n); mt = lv.mt; sq = ex.z(lv.read(ex), mt); o = me(ex)
        ex.obligation("the container is not empty", mt.len(sq) >= 1, ex.line)
        put(ex, "inreq", KEYS, Store(o.inreq.e, mt.el.get(Select(mt.arr(sq), mt.len(sq) - 1), "chunk_key"), False)); lv.write(ex, X.Z(mt, mt.mk(mt.len(sq) - 1, mt.arr(sq)))); return None
    S.call_models[RP + "UnsafeArenaAddAllocated"] = add; S.call_models[RP + "UnsafeArenaReleaseLast"] = drop
    S.call_models.update({G + "WriterInterface::Write": write, "deepmind::reverb::ReverbService::StubInterface::InsertStream": opened, "grpc::ClientReaderWriterInterface::WritesDone": lambda ex, n: X.Z(MBool(), ex.fresh(BoolSort(), "done")),
                          G + "ClientStreamingInterface::Finish": lambda ex, n: ex.fresh_val(ex.mt(ex.ty(n["t"])), "final"), "grpc::WriteOptions::set_no_compression": lambda ex, n: None})
    def status(ex, n):
        for a in n["args"]: ex.eval(a)
        v = ex.fresh(IntSort(), "status"); ex.assume(v >= 0)
        if getattr(ex, "broken_stream", False): ex.assume(v != OK)
        return X.Z(MStatus(), v)
    S.call_models["deepmind::reverb::FromGrpcStatus"] = status; S.call_models["deepmind::reverb::FormatGrpcStatus"] = lambda ex, n: ex.fresh_val(MStr(), "text")
    sends = ["streamed_chunk_keys_", "onstream", "sent", "pending_items_", "stream_", "context_", "num_items_in_flight_", "inreq", "reqpos", ("alloc",)]
    def ready(o, c=None):
        ex = o._view.ex; F = getattr(ex, "carry_from", None)
        if F is not None and c is not None and not impl(c): C = Chunks(o.chunks_); C.define(ex); carry(ex, F, C); ex.assume_once(Implies(C.n >= 1, C.has(C.key(C.n - 1))))
        return ready_(o)
    def ready_(o): return [("the chunks of pending items are held", refs(o, ready=True)), unique(Chunks(o.chunks_)), ("sizes", And(o.pending_items_.len >= 0, o.chunks_.len >= 0))] + streamed(o)
    def wsetup(ex, c): ex.me = c.thisref; ex.queue = c.pre.pending_items_; ex.sent0 = c.pre.sent; Chunks(c.pre.chunks_).define(ex)
    # creating items
    flush_on_call = lambda ex, c: None
    buf = ["chunks_", "buffer_", "index_within_episode_", "next_chunk_key_"]
    # sending
    def req(L): r = L.local("request").r; return r, r.chunks
    def request_ok(o, R, C, i):
        """the ghosts describe the chunks of the request; all are among the first i of the writer"""
        ck = lambda q: R._mt.el.get(Select(R.arr, q), "chunk_key"); pos = lambda x: POS.val(o.reqpos.e)[x]
        return [("chunks counted as part of the request are in it", fa(x_, Implies(o.inreq.e[x_], And(0 <= pos(x_), pos(x_) < R.len, ck(pos(x_)) == x_, C.has(x_), C.where(x_) < i)), o.inreq.e[x_])),
                ("the request's chunks are counted", And(R.len >= 0, fa(q_, Implies(And(0 <= q_, q_ < R.len), And(o.inreq.e[ck(q_)], pos(ck(q_)) == q_)), R.arr[q_])))]
    def wanted(o, D, items): 
        t = item_traj(o, items, j); return fa([j, c_, s_], Implies(And(0 <= j, j < items.len, t.inside(c_, s_)), D[t.f(c_, s_, "chunk_key")]), t.sl(c_, s_))
    def keep_ok(o, L): K = L.local("keep_chunk_keys"); return [("keys to keep are those of chunks sent or in the request", And(K.len >= 0, fa(q_, Implies(And(0 <= q_, q_ < K.len), Or(o.streamed_chunk_keys_.e[K.arr[q_]], o.inreq.e[K.arr[q_]])), K.arr[q_])))]
    def got(o, C, D, i): return [("chunks of pending items are sent or in the request", fa(q_, Implies(And(0 <= q_, q_ < i, D[C.key(q_)]), Or(o.streamed_chunk_keys_.e[C.key(q_)], o.inreq.e[C.key(q_)])), C.arr[q_]))]
    def open_(o): return [("there is a stream", o.stream_ != 0)] + streamed(o)
    DOM = lambda L: L.local("item_chunk_keys").dom
    def collect(L): o = L.this; P = o.pending_items_; D = DOM(L); t = item_traj(o, P, j); return open_(o) + [("without items nothing is wanted", fa(x_, Implies(D[x_], P.len > 0), D[x_]))] + [("keys of the items so far", fa([j, c_, s_], Implies(And(0 <= j, j < L.i, j < P.len, t.inside(c_, s_)), D[t.f(c_, s_, "chunk_key")]), t.sl(c_, s_)))]
    def collect_in(L): D = DOM(L); K = L.seq; return [("keys so far", fa(q_, Implies(And(0 <= q_, q_ < L.i), D[K.arr[q_]]), K.arr[q_])), ("keys before", fa(x_, Implies(L.local0("item_chunk_keys").dom[x_], D[x_]), D[x_]))]
    def gather(L): o = L.this; C = Chunks(o.chunks_); r, R = req(L); return open_(o) + request_ok(o, R, C, L.i) + keep_ok(o, L) + got(o, C, DOM(L), L.i) + [("no item in the request yet", Not(r._mt.get(r.e, "has_item")))] + suffix(L, L.this0, o)
    def mark(L): o = L.this; r, R = req(L); ck = lambda q: R._mt.el.get(Select(R.arr, q), "chunk_key"); return open_(o) + [("chunks sent are marked", fa(q_, Implies(And(0 <= q_, q_ < L.i), o.streamed_chunk_keys_.e[ck(q_)]), R.arr[q_])), ("marks stay", fa(x_, Implies(L.thisentry.streamed_chunk_keys_.e[x_], o.streamed_chunk_keys_.e[x_]), o.streamed_chunk_keys_.e[x_]))]
    def send_items(L): o = L.this; C = Chunks(o.chunks_); r, R = req(L); return open_(o) + request_ok(o, R, C, C.n) + keep_ok(o, L) + got(o, C, DOM(L), C.n) + [("wanted", wanted(o, DOM(L), o.pending_items_))] + suffix(L, L.this0, o)
    def clear_inv(L):
        o = ex_me(L); r = L.ex.spec_value(L.ex.deref_quiet(L.ex.this), L.ex.view(), post=True).r; R = r.chunks; ck = lambda q: R._mt.el.get(Select(R.arr, q), "chunk_key"); pos = lambda x: POS.val(o.reqpos.e)[x]
        return [("chunks counted as part of the request are in it", fa(x_, Implies(o.inreq.e[x_], And(0 <= pos(x_), pos(x_) < R.len, ck(pos(x_)) == x_)), o.inreq.e[x_])), ("the request's chunks are counted", And(R.len >= 0, fa(q_, Implies(And(0 <= q_, q_ < R.len), And(o.inreq.e[ck(q_)], pos(ck(q_)) == q_)), R.arr[q_])))] + kept_item(L)
    def kept_item(L):
        lv = L.ex.deref_quiet(L.ex.this)
        if not isinstance(lv, X.LocalLV) or lv.key not in L.entry_env: return []
        now, was = (L.ex.spec_value(v, L.ex.view(), post=True).r for v in (L.ex.env[lv.key], L.entry_env[lv.key])); return [("the request's item stays", now._mt.get(now.e, "has_item") == was._mt.get(was.e, "has_item"))]
    def ex_me(L): return L.ex.view().obj(L.ex.me, CLS)
    S.loop_invs[("deepmind::reverb::Writer::WritePendingData()::ArenaOwnedRequest::Clear", 0)] = clear_inv
    wloops = {0: collect, 1: collect_in, 2: gather, 3: mark, 4: send_items, 5: mark}
    def psetup(ex, c): wsetup(ex, c); put(ex, "inreq", KEYS, KEYS.empty())
    S.contract(f"{CLS}::WritePendingData", loops=wloops, modifies=sends, requires=lambda c: ready(c.pre, c), setup=psetup, ensures=lambda c: suffix(c, c.pre, c.post) + streamed(c.post) + [("success means that nothing is pending", c.res == (c.post.pending_items_.len == 0)), ("there is a stream", c.post.stream_ != 0)])
    def sent_hook(ex, c):
        h = getattr(ex, "before_send", None)
        if h: h(ex, c)
    S.assumptions.add("a stream on which a write failed finishes with an error status")
    S.contract("PositiveModulo", requires=lambda c: [("a positive modulus", c.arg(1) > 0)], opts={"exact_casts": True}, ensures=lambda c: [("a position below the modulus", And(0 <= c.res, c.res < c.arg(1))), ("positions wrap around", And(Implies(And(0 <= c.arg(0), c.arg(0) < c.arg(1)), c.res == c.arg(0)), Implies(And(-c.arg(1) <= c.arg(0), c.arg(0) < 0), c.res == c.arg(0) + c.arg(1))))])
    def rsetup(ex, c): wsetup(ex, c); ex.broken_stream = True
    S.contract(f"{CLS}::WriteWithRetries", modifies=sends, requires=lambda c: ready(c.pre, c), on_call=sent_hook, setup=rsetup, ensures=lambda c: suffix(c, c.pre, c.post) + streamed(c.post) + [("success means that nothing is pending", (c.res == OK) == (c.post.pending_items_.len == 0))],
               loops={0: lambda L: suffix(L, L.this0, L.this) + ready(L.this)})
    def csetup(ex, c):
        ex.me = c.thisref; o = c.pre; C = Chunks(o.chunks_); C.define(ex); ex.asked = (c.arg(1), o)
        def hint(f):
            Lw = f.arg(1); L = Lw.arr; m = Lw.len; b = 1 if ex.choose(o.buffer_.len > 0) else 0; base = C.n - m + b; steps_def(ex, L, m)
            P = lambda e: Implies(And(0 <= e, e <= m - b), PS(L, e) == If(e == 0, 0, C.end(base + e - 1) + 1 - C.start(base)))
            D = lambda e: And(PS(L, 0) == 0, Implies(e >= 1, PS(L, e) == PS(L, e - 1) + L[e - 1]), Implies(And(1 <= e, e <= m - b), L[e - 1] == C.end(base + e - 1) + 1 - C.start(base + e - 1)))
            ex.induct("the lengths of the latest chunks add up to their steps", m - b + 1, P, D)
            for e in (m - 1, m, m - b): ex.assume_once(P(e))
            ex.assume_once(fa(k, P(k), PS(L, k)))
            if b: ex.obligation("the last length is the buffer's", L[m - 1] == o.buffer_.len, ex.line, "pre"); ex.assume(L[m - 1] == o.buffer_.len)
            first = PS(L, m) == total(o) - If(m > b, C.start(base), o.index_within_episode_); ex.obligation("the lengths add up", first, ex.line, "pre"); ex.assume(first)
        def after(f):
            Lw, off, length = f.arg(1), f.arg(3), f.arg(4); L, m = Lw.arr, Lw.len; t = Traj(f.res)
            def step(lab, g): ex.obligation(lab, g, ex.line, "pre"); ex.assume(g)
            step("the steps asked for are the last ones of the chunks", PS(L, m) == off + length)
            step("no chunk ends after them", fa(k, Implies(And(0 <= k, k < m), PS(L, k) + L[k] <= PS(L, m)), PS(L, k), L[k]))
            step("each slice ends with its chunk", fa([c_, s_], Implies(And(0 <= c_, c_ < t.n, 0 <= s_, s_ < m), t.f(c_, s_, "length") == L[s_] - t.f(c_, s_, "offset")), t.sl(c_, s_)))
        ex.flat_hint, ex.flat_after = hint, after
        def send(ex, cc):
            v = cc.pre; P = v.pending_items_; t = item_traj(v, P, P.len - 1)
            for lab, f in covers_last(v, t, c.arg(1), 0): ex.obligation(lab + " (item sent at once)", f, ex.line, "pre")
        ex.before_send = send
    def create_post(c):
        a, o = c.pre, c.post; n = c.arg(1); P, Q = a.pending_items_, o.pending_items_; t = item_traj(o, Q, P.len); later = And(c.res == OK, a.buffer_.len > 0)
        return [("buffered data stays", same(a, o, *buf)), ("more steps than are held, than configured, or none are refused", Implies(c.res == OK, And(n >= 1, n <= a.max_timesteps_, n <= total(a) - If(a.chunks_.len > 0, Chunks(a.chunks_).start(0), a.index_within_episode_)))),
                ("a closed writer accepts nothing", Implies(a.closed_, c.res != OK)), ("a failure creates no item", Implies(c.res != OK, And(Q.len == P.len, o.sent == a.sent, fa(k, Implies(And(0 <= k, k < P.len), Q.arr[k] == P.arr[k]), Q.arr[k])))),
                ("an item of complete chunks is sent at once", Implies(And(c.res == OK, a.buffer_.len == 0), And(Q.len == 0, o.sent == a.sent + 1))),
                ("an item of buffered steps waits behind the others", Implies(later, And(Q.len == P.len + 1, o.sent == a.sent, fa(k, Implies(And(0 <= k, k < P.len), Q.arr[k] == P.arr[k]), Q.arr[k])))),
                ("the item has the table and priority asked for", Implies(later, And(Q._mt.el.get(Q.arr[P.len], "priority") == c.arg(2), Q._mt.el.get(Q.arr[P.len], "table") == c.arg(0))))] + [(lab, Implies(later, f)) for lab, f in covers_last(a, t, n, 1)]
    def avail(L):
        o = L.this; C = Chunks(o.chunks_); i = L.i; return [("steps counted", And(0 <= i, i <= C.n, L.local("num_available") == o.buffer_.len + If(i == 0, 0, C.end(i - 1) + 1 - C.start(0))))]
    def back(L):
        o = L.this; C = Chunks(o.chunks_); p = L.raw("rit").idx; ls, ks = L.local("chunk_lengths"), L.local("chunk_keys"); n = L.fctx.arg(1); rem = L.local("remaining"); got = total(o) - If(p < C.n - 1, C.start(p + 1), o.index_within_episode_)
        out = [("position", And(-1 <= p, p < C.n)), ("steps left", rem == n - got), ("the buffer comes first", Implies(o.buffer_.len > 0, And(ls.arr[0] == o.buffer_.len, ks.arr[0] == o.next_chunk_key_))), ("the last chunk is needed", Implies(ls.len >= 1, rem + ls.arr[ls.len - 1] > 0))]
        for b, when in ((0, o.buffer_.len == 0), (1, o.buffer_.len > 0)):
            at = lambda x: C.n - 1 + b - x
            out += [("as many chunks as visited", Implies(when, And(ls.len == b + C.n - 1 - p, ks.len == ls.len))), ("then the chunks, latest first", Implies(when, fa(k, Implies(And(b <= k, k < ls.len), And(ls.arr[k] == C.end(at(k)) + 1 - C.start(at(k)), ks.arr[k] == C.key(at(k)))), ls.arr[k]))), ("keys of chunks", Implies(when, fa(k, Implies(And(b <= k, k < ls.len), ks.arr[k] == C.key(at(k))), ks.arr[k])))]
        return out
    triv = lambda L: [("position", L.counter() >= 0)]
    S.contract(f"{CLS}::CreateItem", opts={"exact_casts": True}, modifies=sends, requires=lambda c: winv(c.pre), setup=csetup, loops={0: avail, 1: triv, 2: triv, 3: back}, ensures=lambda c: create_post(c) + winv(c.post))
    S.assumptions.add("Writer::GetFlatSignature returns a table's signature (protobuf maps of structured values)")
    S.contract(f"{CLS}::GetFlatSignature", abstract=True, modifies=[("arg", 1), ("alloc",)], nonnull=(1,), ensures=lambda c: [("a status", c.res >= 0), ("a signature on success", Implies(c.res == OK, c.ptrpost(1) > 0))])
    # completing a chunk
    def copy_loop(L):
        o = L.this; T = L.local("tensors"); i0 = L.outer.counter(); B = lambda q: Select(o.buffer_._mt.el.arr(o.buffer_.arr[q]), i0); J = L.counter()
        return [("tensors so far", And(0 <= J, J <= o.buffer_.len, T.len == o.buffer_.len)), ("copies so far", fa(q_, Implies(And(0 <= q_, q_ < J), And(held(T.arr[q_], B(q_)), tf.same_shape(shp(B(q_)), shp(B(0))))), T.arr[q_]))]
    def held(t, v): return And(tf.TENSOR.get(t, "dtype") == tf.TENSOR.get(v, "dtype"), tf.shift_shape(shp(t), shp(v)), dim(shp(t), 0) == 1, fa(s_, Implies(And(1 <= s_, s_ < ndim(shp(t))), dim(shp(t), s_) == dim(shp(v), s_ - 1)), dim(shp(t), s_)), row(t, 0) == tf.AS_ROW(v))
    def column(o, t, i): return And(ndim(shp(t)) >= 1, dim(shp(t), 0) == o.buffer_.len, fa(q_, Implies(And(0 <= q_, q_ < o.buffer_.len), row(t, q_) == tf.AS_ROW(Select(o.buffer_._mt.el.arr(o.buffer_.arr[q_]), i))), row(t, q_)))
    def batch_loop(L):
        o = L.this; B = L.local("batched_tensors"); i = L.counter()
        return [("columns so far", And(0 <= i, i <= ncols(o), B.len == i)), ("every column holds the buffered steps in order", fa(k, Implies(And(0 <= k, k < i), column(o, B.arr[k], k)), B.arr[k]))]
    def pack_loop(L):
        o = L.this; B = L.local("batched_tensors"); d = L.local("chunk_data"); T = d.data.tensors; rg = d.sequence_range
        return [("tensors so far", T.len == L.i), ("every column is packed", fa(q_, Implies(And(0 <= q_, q_ < L.i), encodes(T.arr[q_], B.arr[q_])), T.arr[q_])),
                ("the chunk's key and range", And(d.chunk_key == o.next_chunk_key_, rg.episode_id == o.episode_id_, rg.start == o.index_within_episode_, rg.end == o.index_within_episode_ + o.buffer_.len - 1, d.delta_encoded == o.delta_encoded_, d.data_tensors_len == ncols(o)))]
    def evict_loop(L):
        o, e = L.this, L.thisentry; C, E = Chunks(o.chunks_), Chunks(e.chunks_); d = E.n - C.n
        return [("the oldest chunks are dropped", And(C.n >= 1, d >= 0, fa(k, Implies(And(0 <= k, k < C.n), C.arr[k] == E.arr[k + d]), C.arr[k]))), ("as long as the others can hold the configured steps", Or(d == 0, C.n * o.chunk_length_ >= o.max_timesteps_))] + streamed(o)
    def finish_pre(c): return [x for x in winv(c.pre, full=True)] + [("there is something to send", c.pre.buffer_.len >= 1)]
    def finish_post(c):
        a, o = c.pre, c.post; A, C = Chunks(a.chunks_), Chunks(o.chunks_); ok = c.res == OK; d = A.n + 1 - C.n; last = C.n - 1
        if impl(c):
            for b in (a, o): Chunks(b.chunks_).define(c.ex)
            carry(c.ex, A, C)
        return suffix(c, a, o) + [(l, Implies(ok, f)) for l, f in (("the buffered steps are in a chunk, all items were sent", And(o.buffer_.len == 0, o.pending_items_.len == 0, o.index_within_episode_ == a.index_within_episode_ + a.buffer_.len)),
                ("the new chunk holds exactly the buffered steps", And(C.n >= 1, C.key(last) == a.next_chunk_key_, C.start(last) == a.index_within_episode_, C.end(last) == a.index_within_episode_ + a.buffer_.len - 1, C.columns(last) == ncols(a))),
                ("earlier chunks stay, except the oldest ones", And(d >= 0, fa(k, Implies(And(0 <= k, k < last), C.arr[k] == A.arr[k + d]), C.arr[k]))),
                ("chunks are dropped only if the others can hold the configured steps", Or(d == 0, C.n * a.chunk_length_ >= a.max_timesteps_)))] + [(l, Implies(Not(ok), f)) for l, f in (
                ("a failure keeps buffered data", And(C.n == A.n, fa(k, Implies(And(0 <= k, k < A.n), C.arr[k] == A.arr[k]), C.arr[k]), same(a, o, "buffer_", "index_within_episode_", "next_chunk_key_"))),)] + [(l, Implies(ok, f)) for l, f in winv(o)] + [(l, Implies(Not(ok), f)) for l, f in winv(o, full=True)]
    def carry(ex, A, C):
        """a key of A's chunks that is still at its place in C is a key of C's chunks"""
        ex.assume_once(fa(x_, Implies(And(A.has(x_), 0 <= A.where(x_), A.where(x_) < C.n, C.key(A.where(x_)) == x_), C.has(x_)), A.has(x_)))
    def fsetup(ex, c):
        ex.me = c.thisref; A = Chunks(c.pre.chunks_); A.define(ex)
        def send(e, cc):
            C = Chunks(cc.pre.chunks_); n = C.n - 1
            e.obligation("the chunk sent holds the buffered columns", And(C.columns(n) == ncols(cc.pre), C.key(n) == cc.pre.next_chunk_key_), e.line, "pre")
        ex.before_send = send; ex.carry_from = A
    S.contract(f"{CLS}::Finish", modifies=sends + buf, may_abort=True, requires=finish_pre, setup=fsetup, ensures=finish_post, loops={0: batch_loop, 1: copy_loop, 2: pack_loop, 3: evict_loop})
    def keeps(a, o):
        """the chunks and the buffered steps of a"""
        A, C = Chunks(a.chunks_), Chunks(o.chunks_)
        return And(C.n == A.n, fa(k, Implies(And(0 <= k, k < A.n), C.arr[k] == A.arr[k]), C.arr[k]), o.buffer_.len == a.buffer_.len, fa(k, Implies(And(0 <= k, k < a.buffer_.len), o.buffer_.arr[k] == a.buffer_.arr[k]), o.buffer_.arr[k]), same(a, o, "index_within_episode_", "next_chunk_key_"))
    def asetup(ex, c): ex.me = c.thisref; Chunks(c.pre.chunks_).define(ex)
    def post_winv(c): 
        if impl(c):
            for b in (c.pre, c.post): Chunks(b.chunks_).define(c.ex)
            carry(c.ex, Chunks(c.pre.chunks_), Chunks(c.post.chunks_))
        return winv(c.post)
    def chunked(a, o, steps):
        """the steps are now in a new chunk behind the others"""
        A, C = Chunks(a.chunks_), Chunks(o.chunks_); d = A.n + 1 - C.n; last = C.n - 1
        return And(o.buffer_.len == 0, o.pending_items_.len == 0, o.index_within_episode_ == a.index_within_episode_ + steps, C.n >= 1, C.key(last) == a.next_chunk_key_, C.start(last) == a.index_within_episode_, C.end(last) == a.index_within_episode_ + steps - 1, d >= 0,
                   fa(k, Implies(And(0 <= k, k < last), C.arr[k] == A.arr[k + d]), C.arr[k]), Or(d == 0, C.n * a.chunk_length_ >= a.max_timesteps_))
    def append_post(c):
        a, o = c.pre, c.post; n = a.buffer_.len; ok = c.res == OK; data = c.arg(0); sig = lambda w, q: w.inserted_dtypes_and_shapes_.arr[q]
        return [("a closed writer accepts nothing", Implies(a.closed_, Not(ok))),
                ("a failed append leaves the writer's data as it was", Implies(Not(ok), keeps(a, o))),
                ("and the signatures of its steps", Implies(Not(ok), And(same(a, o, "insert_dtypes_and_shapes_location_"), o.inserted_dtypes_and_shapes_.len == a.inserted_dtypes_and_shapes_.len, fa(q_, Implies(And(0 <= q_, q_ < a.max_timesteps_), sig(o, q_) == sig(a, q_)), sig(o, q_))))),
                ("the step is appended behind the others", Implies(And(ok, n + 1 < a.chunk_length_), And(same(a, o, "index_within_episode_", "next_chunk_key_", "chunks_", "pending_items_"), o.sent == a.sent, o.buffer_.len == n + 1, o.buffer_.arr[n] == data.e, fa(k, Implies(And(0 <= k, k < n), o.buffer_.arr[k] == a.buffer_.arr[k]), o.buffer_.arr[k])))),
                ("a full buffer becomes a chunk of exactly its steps", Implies(And(ok, n + 1 >= a.chunk_length_), chunked(a, o, n + 1)))] + suffix(c, a, o) + post_winv(c)
    S.contract(f"{CLS}::Append", modifies=sends + buf + ["inserted_dtypes_and_shapes_", "insert_dtypes_and_shapes_location_"], may_abort=True, setup=asetup, loops={0: lambda L: [("position", L.i >= 0)]},
               requires=lambda c: winv(c.pre) + [("an episode has fewer than 2^30 steps", And(total(c.pre) + 1 < 2 ** 30, c.arg(0).len >= 0, c.arg(0).len < 2 ** 31))], ensures=append_post)
    def flush_post(c):
        a, o = c.pre, c.post; ok = c.res == OK
        return [("a closed writer flushes nothing", Implies(a.closed_, Not(ok))), ("a flush leaves nothing pending", Implies(ok, o.pending_items_.len == 0)), ("a failed flush leaves the writer's data as it was", Implies(Not(ok), keeps(a, o))),
                ("without pending items the data stays", Implies(a.pending_items_.len == 0, keeps(a, o))), ("the buffered steps become a chunk", Implies(And(ok, a.pending_items_.len > 0), chunked(a, o, a.buffer_.len)))] + suffix(c, a, o) + post_winv(c)
    S.contract(f"{CLS}::Flush", modifies=sends + buf, may_abort=True, setup=asetup, requires=lambda c: winv(c.pre), ensures=flush_post)
    def close_post(c):
        a, o = c.pre, c.post; ok = c.res == OK
        return [("a closed writer cannot be closed again", Implies(a.closed_, Not(ok))), ("success means closed", o.closed_ == Or(a.closed_, ok)), ("closing sends everything that is pending, unless retries are off", Implies(And(ok, c.arg(0)), o.pending_items_.len == 0)),
                ("a failed close leaves the writer's data as it was", Implies(Not(ok), keeps(a, o)))] + suffix(c, a, o)
    S.contract(f"{CLS}::Close", modifies=sends + buf + ["closed_"], may_abort=True, setup=asetup, requires=lambda c: winv(c.pre), ensures=close_post)
