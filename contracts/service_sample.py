"""Contracts of the services' sample streams (C23)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M
from contracts.lib import fa
I64 = MInt(64, True)
i, j, k, q_ = Ints("i j k q")
OK = 0
CH, IT = "ChunkStore::Chunk", "TableItem"
RS = "ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext *)::WorkerlessSampleReactor"; WS = dict(cls="WorkerlessSampleReactor")
SI = "ReverbServiceImpl"
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    class Sample:
        """what one sample of a table consists of: the item's information and its chunks in order"""
        def __init__(self, v, s):
            it = v.obj(s.ref, IT); self.s, self.chunks = s, it.chunks; n = self.n = it.chunks.len; self.item = it.item
            mt = v.ex.field_mt(CH, "data_"); self.data = lambda p: Select(v.harr(f"{CH}.data_", mt), it.chunks.arr[p])
    def info_ok(e, sp):
        """an entry's information is that of the sample"""
        f = e.info; it = f.item
        return And(it.key == sp.item.key, eqv(it.table, sp.item.table), eqv(it.inserted_at, sp.item.inserted_at), eqv(it.flat_trajectory, sp.item.flat_trajectory), it.priority == sp.s.priority, it.times_sampled == sp.s.times_sampled, f.probability == sp.s.probability, f.table_size == sp.s.table_size, f.rate_limited == sp.s.rate_limited)
    eqv = lambda a, b: getattr(a, "e", a) == getattr(b, "e", b)
    has = lambda e, f: e._mt.get(e.e, f"has_{f}")
    def chunks_from(e, sp, p): D = e.data; return fa(j, Implies(And(0 <= j, j < D.len), D.arr[j] == sp.data(p + j)), D.arr[j])
    GH = {"chunks": I64, "fetched": I64, "requested": I64, "cancelled": MBool()}
    for f, mt in GH.items(): S.ghost[f"SampleSent.{f}"] = mt
    def ghost(v, st, f): return Select(v.harr(f"SampleSent.{f}", GH[f]), st)
    def put(ex, st, f, e): X.HeapLV(f"SampleSent.{f}", st, GH[f]).write(ex, X.Z(GH[f], e))
    def sent(v, st): return ghost(v, st, "chunks")
    def served(ex): v = ex.view(); return Or(ghost(v, ex.stream, "cancelled"), ghost(v, ex.stream, "fetched") == ghost(v, ex.stream, "requested"))
    # ---- grpc
    G = "grpc::internal::"
    def read(ex, n):
        ex.obligation("every request is served before the next one: as many samples as requested, unless the stream is cancelled", served(ex), ex.line, "pre")
        lv = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))); ex.wrote(lv) if hasattr(ex, "wrote") else None
        if not ex.choose(ex.fresh(BoolSort(), "read")): return X.Z(MBool(), BoolVal(False))
        e = ex.fresh(lv.mt.sort(), "request"); lv.write(ex, X.Z(lv.mt, e)); ex.typed(X.Z(lv.mt, e)); ex.rq = X.wrap(ex.view(), lv.mt, e)
        put(ex, ex.stream, "fetched", IntVal(0)); put(ex, ex.stream, "requested", ex.rq.num_samples); return X.Z(MBool(), BoolVal(True))
    def cancelled(ex, n):
        b = ex.fresh(BoolSort(), "cancelled"); put(ex, ex.stream, "cancelled", Or(b, ghost(ex.view(), ex.stream, "cancelled"))); return X.Z(MBool(), b)
    RP = "google::protobuf::RepeatedPtrField::"
    def box_(ex, n): lv = ex.eval(n["obj"]); return M.norm_lv(ex, ex.deref(ex.rv(lv)) if n.get("arrow") else lv)
    def add(ex, n):
        lv = box_(ex, n); mt = lv.mt; v = ex.z(M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))).read(ex)); sq = ex.z(lv.read(ex), mt); lv.write(ex, X.Z(mt, mt.mk(mt.len(sq) + 1, Store(mt.arr(sq), mt.len(sq), v)))); return None
    def drop(ex, n):
        lv = box_(ex, n); mt = lv.mt; sq = ex.z(lv.read(ex), mt); ex.obligation("the container is not empty", mt.len(sq) >= 1, ex.line); lv.write(ex, X.Z(mt, mt.mk(mt.len(sq) - 1, mt.arr(sq)))); return None
    def write(ex, n):
        for a in n["args"][1:]: ex.eval(a)
        st = ex.z(ex.rv(ex.eval(n["obj"]))); r = M.norm_lv(ex, ex.eval(n["args"][0])).read(ex); v = ex.view(); m = X.wrap(v, r.mt, ex.z(r)); E = m.entries; e = X.wrap(v, E._mt.el, E.arr[0]); sp = cur_sample(ex); P = sent(v, st); L = ex.line
        ex.obligation("a message has one entry", E.len == 1, L, "pre")
        ex.obligation("the chunks of a message are the next ones of the sample", And(e.data.len >= 1, P + e.data.len <= sp.n, chunks_from(e, sp, P)), L, "pre")
        ex.obligation("the first message of a sample has its information, and no other", And(has(e, "info") == (P == 0), Implies(P == 0, info_ok(e, sp))), L, "pre")
        ex.obligation("the last message of a sample is marked, and no other", e.end_of_sequence == (P + e.data.len == sp.n), L, "pre")
        b = ex.choose(ex.fresh(BoolSort(), "written"))
        if b: put(ex, st, "chunks", P + e.data.len)
        return X.Z(MBool(), BoolVal(b))
    S.call_models.update({RP + "UnsafeArenaAddAllocated": add, RP + "UnsafeArenaReleaseLast": drop, G + "WriterInterface::Write": write, G + "ReaderInterface::Read": read, "grpc::WriteOptions::set_no_compression": lambda ex, n: None,
                          "grpc::ServerContextBase::IsCancelled": cancelled, "grpc::ServerContext::IsCancelled": cancelled})
    S.assumptions.add("grpc's Write sends the whole message, in order, or returns false; messages arrive in the order in which they were written")
    # ---- the table
    S.contract("Table::DefaultFlexibleBatchSize", abstract=True, modifies=[], ensures=lambda c: [("at least one", c.res >= 1)])
    S.assumptions.add("Table::SampleFlexibleBatch returns between one and the requested number of samples on success, with the items' chunks at the time (C03, C05)")
    def samples_exist(v, Q):
        el = Q._mt.el; r = el.get(Q.arr[k], "ref"); ch = v.obj(r, IT).chunks
        return [("samples exist", fa(k, Implies(And(0 <= k, k < Q.len), And(r > 0, r < v.alloc, ch.len >= 0)), Q.arr[k])), ("their chunks exist", fa([k, q_], Implies(And(0 <= k, k < Q.len, 0 <= q_, q_ < ch.len), And(ch.arr[q_] > 0, ch.arr[q_] < v.alloc)), ch.arr[q_]))]
    def batch_pre(c):
        ex = c.ex; out = [("a new batch", c.ptr(0).len == 0)]
        if getattr(ex, "stream", None) is not None:
            g = lambda f: ghost(ex.view(), ex.stream, f); rq = ex.rq; fb = rq.flexible_batch_size
            out += [("only valid requests are served", And(rq.num_samples > 0, Or(fb > 0, fb == -1))), ("at least one and at most the remaining number of samples is asked for", And(1 <= c.arg(1), c.arg(1) <= g("requested") - g("fetched"))), ("a batch is not larger than requested", Implies(fb > 0, c.arg(1) <= fb))]
        return out
    def batched(ex, c):
        if getattr(ex, "stream", None) is None: return
        ex.batch = c.ptrpost(0); n = ghost(ex.view(), ex.stream, "fetched"); put(ex, ex.stream, "fetched", If(c.res == OK, n + ex.batch.len, n))
    S.contract("Table::SampleFlexibleBatch", nparams=3, abstract=True, requires=batch_pre, modifies=[("arg", 0), ("alloc",)], on_call=batched,
               ensures=lambda c: [("a status", c.res >= 0), ("a success yields one to the requested number of samples", Implies(c.res == OK, And(1 <= c.ptrpost(0).len, c.ptrpost(0).len <= c.arg(1))))] + samples_exist(c.V1, c.ptrpost(0)))
    # ---- synchronous sample streams
    def cur_sample(ex): return Sample(ex.view(), X.wrap(ex.view(), ex.batch._mt.el, ex.batch.arr[ex.which]))
    k_ = Const("name", MStr().sort())
    def setup(ex, c):
        ex.stream, ex.rq, ex.batch = c.arg(1), None, None
        for f, e in (("chunks", IntVal(0)), ("fetched", IntVal(0)), ("requested", IntVal(0)), ("cancelled", BoolVal(False))): put(ex, ex.stream, f, e)
    def requests(L): return [("the request was served", served(L.ex))]
    def batches(L):
        g = lambda f: ghost(L.ex.view(), L.ex.stream, f)
        return [("samples sent so far", And(g("fetched") == L.local("count"), 0 <= L.local("count"), L.local("count") <= g("requested"), g("requested") == L.local("request").num_samples))]
    def samples(L):
        ex = L.ex; out = []
        if hasattr(L, "prev"): out.append(("every chunk of the sample was sent", sent(ex.view(), ex.stream) == cur_sample(ex).n))
        ex.which = L.i; put(ex, ex.stream, "chunks", IntVal(0)); return out
    def chunks(L):
        ex = L.ex; v = ex.view(); sp = cur_sample(ex); P = sent(v, ex.stream); R = L.local("response"); E = R.entries; e = X.wrap(v, E._mt.el, E.arr[0]); n_ = L.i
        return at(L) + [("the message has one entry", E.len == 1), ("chunks sent so far", And(0 <= P, P <= n_, n_ <= sp.n, Implies(n_ == sp.n, P == n_))), ("the chunks of the message are the next ones", And(e.data.len == n_ - P, chunks_from(e, sp, P))), ("the first message of a sample has its information", And(has(e, "info") == And(P == 0, n_ > 0), Implies(And(P == 0, n_ > 0), info_ok(e, sp))))]
    def at(L): p = L.raw("entry"); return [("the entry being filled is the message's", p.lv.idx == 0)] if isinstance(p, X.PtrLV) and isinstance(p.lv, X.IndexLV) else []
    def release(L): E = L.local("response").entries; return [("the message has one entry", E.len == 1), ("length", E._mt.el.ft("data").len(E._mt.el.get(E.arr[0], "data")) >= 0)]
    S.contract(f"{SI}::SampleStreamInternal", nonnull=(0, 1), requires=lambda c: [("tables exist", fa(k_, Implies(c.pre.tables_.dom[k_], And(c.pre.tables_.val[k_] > 0, c.pre.tables_.val[k_] < c.V0.alloc)), c.pre.tables_.dom[k_]))], modifies=[("all", f"SampleSent.{f}") for f in GH] + [("alloc",)], setup=setup, loops={0: requests, 1: batches, 2: samples, 3: chunks, 4: release}, ensures=lambda c: [("success only after every request was served", Implies(c.res == OK, served(c.ex)))] if impl(c) else [])
    # ---- asynchronous sample streams: one sample becomes the entries of one or more messages
    POSA = MMap(I64, I64); S.ghost["WorkerlessSampleReactor.pos"] = POSA; m_ = Int("m")
    def pos(o): return lambda m: POSA.val(o.pos.e)[m]
    def put_pos(ex, me, m, x): lv = X.HeapLV("WorkerlessSampleReactor.pos", me, POSA); a = ex.z(lv.read(ex), POSA); lv.write(ex, X.Z(POSA, POSA.mk(Store(POSA.dom(a), m, True), Store(POSA.val(a), m, x))))
    def entries(v, R, m): return X.wrap(v, R._mt.el, R.arr[m]).payload.entries
    def entry(v, E, x): return X.wrap(v, E._mt.el, E.arr[x])
    def part(v, R, sp, p, e0, m, last, done, first):
        """the part of the sample message m carries: the chunks from p(m) on, the information in the first, the end marker in the last"""
        E = entries(v, R, m); e = entry(v, E, e0 if first else IntVal(0)); D = e.data; end = And(m == last, done == sp.n, done > 0)
        return [("one entry for the sample in each message", E.len == (e0 + 1 if first else 1)), ("the parts' chunks follow each other", And(D.len >= If(m == last, 0, 1), p(m) == 0 if first else p(m) >= 0, Implies(m < last, p(m + 1) == p(m) + D.len), Implies(m == last, p(m) + D.len == done))),
                ("the information accompanies the first chunk only", And(has(e, "info") == (done > 0), Implies(done > 0, info_ok(e, sp))) if first else Not(has(e, "info"))), ("only the last part is marked as the end", e.end_of_sequence == end)]
    def fragments(v, R0, R1, sp, p, m0, e0, done):
        last = R1.len - 1; out = [("messages", And(0 <= m0, m0 <= last, e0 >= 0))]
        for lab, f in part(v, R1, sp, p, e0, m0, last, done, True): out.append((lab + " (first part)", f))
        for lab, f in part(v, R1, sp, p, e0, m_, last, done, False): out.append((lab + " (later parts)", fa(m_, Implies(And(m0 < m_, m_ <= last), f), R1.arr[m_])))
        D0, D = entry(v, entries(v, R1, m0), e0).data, entry(v, entries(v, R1, m_), IntVal(0)).data
        return out + [("the first part has the sample's chunks in order", fa(j, Implies(And(0 <= j, j < D0.len), D0.arr[j] == sp.data(j)), D0.arr[j])), ("each later part has the sample's chunks in order", fa([m_, j], Implies(And(m0 < m_, m_ <= last, 0 <= j, j < D.len), D.arr[j] == sp.data(p(m_) + j)), D.arr[j]))]
    def others(v, R0, R1, m0, e0):
        """what was queued stays as it was"""
        E0, E1 = entries(v, R0, m0), entries(v, R1, m0)
        return [("messages before stay", fa(m_, Implies(And(0 <= m_, m_ < m0), R1.arr[m_] == R0.arr[m_]), R1.arr[m_])), ("entries before stay", Implies(m0 < R0.len, fa(j, Implies(And(0 <= j, j < e0), E1.arr[j] == E0.arr[j]), E1.arr[j])))]
    def items(v, R, m): return X.wrap(v, R._mt.el, R.arr[m]).table_items
    def first_place(ex, R0, R1, v):
        """where the sample starts, as the current state shows it"""
        E0, E1 = entries(v, R0, R0.len - 1), entries(v, R1, R0.len - 1)
        inold = And(R0.len > 0, E1.len > E0.len); m0, e0 = ex.fresh(IntSort(), "first_message"), ex.fresh(IntSort(), "first_entry")
        ex.assume(And(m0 == If(inold, R0.len - 1, R0.len), e0 == If(inold, E0.len, 0))); return m0, e0
    def chunks_exist(c):
        sp = sample_of(c); return [("the sample's chunks exist", And(sp.n >= 0, fa(k, Implies(And(0 <= k, k < sp.n), And(sp.chunks.arr[k] > 0, sp.chunks.arr[k] < c.V0.alloc)), sp.chunks.arr[k])))]
    def ps_setup(ex, c): ex.sample0 = c.pre.responses_to_send_
    def sample_of(c): return Sample(c.V0, c.ptr(0))
    def ps_loop(L):
        ex = L.ex; me = L.fctx.thisref; v = ex.view(); o, o0 = L.this, L.thisentry; R1 = o.responses_to_send_; R0 = L.this0.responses_to_send_; sp = sample_of(L.fctx); n_ = L.i
        if not hasattr(L, "seen"):
            L.seen = True; L.m0, L.e0 = ex.fresh(IntSort(), "first_message"), ex.fresh(IntSort(), "first_entry"); ex.assume(And(L.m0 == R1.len - 1, L.e0 == entries(v, R1, R1.len - 1).len - 1))
        m0, e0 = L.m0, L.e0
        if not hasattr(L, "prev") and not hasattr(L, "put"): L.put = True; put_pos(ex, me, m0, IntVal(0)); o = L.this
        if hasattr(L, "prev"):
            Rp = L.prev.obj(me, "WorkerlessSampleReactor").responses_to_send_
            if ex.choose(R1.len > Rp.len): put_pos(ex, me, R1.len - 1, n_); o = L.this
        out = [("chunks so far", And(0 <= n_, n_ <= sp.n)), ("the sample is not in the message being written", Implies(L.fctx.arg(1), Or(R0.len == 0, m0 >= 1)))]
        for nm, idx in (("response", R1.len - 1), ("entry", If(R1.len - 1 == m0, e0, 0))):
            p = L.raw(nm)
            if isinstance(p, X.LV) and not isinstance(p, X.PtrLV): p = p.read(ex)
            if isinstance(p, X.PtrLV) and isinstance(p.lv, X.IndexLV):
                out.append((f"{nm} is the one being filled", p.lv.idx == idx)); b = p.lv.base
                while not isinstance(b, X.IndexLV) and hasattr(b, "base"): b = b.base
                if nm == "entry" and isinstance(b, X.IndexLV): out.append(("entry of the message being filled", b.idx == R1.len - 1))
        return out + others(v, R0, R1, m0, e0) + fragments(v, R0, R1, sp, pos(o), m0, e0, n_) + [("items kept so far", And(fa(m_, Implies(And(R0.len <= m_, m_ < R1.len), items(v, R1, m_).len == 0), R1.arr[m_]), Implies(m0 < R0.len, items(v, R1, m0).e == items(v, R0, m0).e)))]
    def ps_post(c):
        v, R0, R1 = c.V1, c.pre.responses_to_send_, c.post.responses_to_send_; m0, e0 = first_place(c.ex, R0, R1, v); sp = sample_of(c); last = R1.len - 1; T = items(v, R1, last)
        return others(v, R0, R1, m0, e0) + fragments(v, R0, R1, sp, pos(c.post), m0, e0, sp.n) + [("the message being written does not change", Implies(And(c.arg(1), R0.len > 0), And(m0 >= 1, R1.arr[0] == R0.arr[0]))), ("the last part keeps the item until it was sent", And(T.len >= 1, T.arr[T.len - 1] == c.ptr(0).ref)), ("nothing else is released", Implies(And(m0 < R0.len, last == m0), T.len == items(v, R0, m0).len + 1))]
    S.contract(f"{RS}::ProcessSample", **WS, inv=True, nonnull=(0,), modifies=["responses_to_send_", "current_response_size_bytes_", ("all", "WorkerlessSampleReactor.pos")],
               requires=lambda c: [("sizes", And(c.pre.responses_to_send_.len >= 0, c.ptr(0).ref > 0)), ("messages have entries", fa(m_, entries(c.V0, c.pre.responses_to_send_, m_).len >= 0, c.pre.responses_to_send_.arr[m_]))] + [(l, f) for l, f in chunks_exist(c)], loops={0: ps_loop}, ensures=ps_post)
