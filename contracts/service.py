"""Contracts of the services' insert streams (C22)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M
from vc.specs import Monitor
from contracts.lib import fa, same
i, k, x_, q_ = Ints("i k x q")
OK = 0
RI = "ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext *)::WorkerlessInsertReactor"; WI = dict(cls="WorkerlessInsertReactor")
BASE = "ReverbServerTableReactor"
CH = "ChunkStore::Chunk"
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    def ckey(view, ref): mt = view.ex.field_mt(CH, "data_"); return mt.get(Select(view.harr(f"{CH}.data_", mt), ref), "chunk_key")
    class Keys:
        """the chunks a trajectory refers to, in order of first reference"""
        def __init__(self, t): self._f = (Function("number_of_chunks", t._mt.sort(), IntSort()), Function("chunk_of", t._mt.sort(), IntSort(), IntSort())); self.t = t.e; self.len = self._f[0](self.t)
        def at(self, i): return self._f[1](self.t, i)
    S.assumptions.add("GetChunkKeys returns the keys of the chunks a trajectory refers to, each once, in order of first reference (C16)")
    def keys_returned(c): K_ = Keys(c.arg(0)); return [("the keys of the trajectory", And(c.res.len == K_.len, K_.len >= 0, fa(q_, Implies(And(0 <= q_, q_ < K_.len), c.res.arr[q_] == K_.at(q_)), c.res.arr[q_], K_.at(q_))))]
    S.contract("internal::GetChunkKeys", static=True, nparams=1, abstract=True, modifies=[], ensures=keys_returned)
    S.globals["grpc::Status::OK"] = 0
    keep_set = lambda KK, x: Exists([q_], And(0 <= q_, q_ < KK.len, KK.arr[q_] == x))
    def CI(v, D): return [("every chunk kept is there under its key", fa(k, Implies(D.dom[k], And(D.val[k] > 0, D.val[k] < v.alloc, ckey(v, D.val[k]) == k)), D.dom[k]))]
    def save_post(c):
        D0, D1, R = c.pre.chunks_, c.post.chunks_, c.ptr(0).chunks
        r0, r1 = c.ptr(0), c.ptrpost(0)
        return [("status", c.res == OK), ("the item received stays", And(r1.item.e == r0.item.e, r1._mt.get(r1.e, "has_item") == r0._mt.get(r0.e, "has_item")))] + CI(c.V1, D1) + [("chunks of the request can be used", fa(q_, Implies(And(0 <= q_, q_ < R.len), D1.dom[R._mt.el.get(R.arr[q_], "chunk_key")]), R.arr[q_])), ("chunks kept so far can be used", fa(k, Implies(D0.dom[k], D1.dom[k]), D0.dom[k])), ("no other chunks", fa(k, Implies(D1.dom[k], Or(D0.dom[k], Exists([q_], And(0 <= q_, q_ < R.len, R._mt.el.get(R.arr[q_], "chunk_key") == k)))), D1.dom[k]))]
    def save_loop(L):
        D0, D1, R = L.thisentry.chunks_, L.this.chunks_, L.fctx.ptr(0).chunks
        r0, r1 = L.fctx.ptr(0), L.ex.spec_value(L.ex.deref_quiet(L.raw("request")), L.ex.view(), post=True)
        return CI(L.ex.view(), D1) + [("the item received stays", And(r1.item.e == r0.item.e, r1._mt.get(r1.e, "has_item") == r0._mt.get(r0.e, "has_item"))), ("so far", fa(q_, Implies(And(0 <= q_, q_ < L.i), D1.dom[R._mt.el.get(R.arr[q_], "chunk_key")]), R.arr[q_])), ("chunks kept so far can be used", fa(k, Implies(D0.dom[k], D1.dom[k]), D0.dom[k])), ("no other chunks", fa(k, Implies(D1.dom[k], Or(D0.dom[k], Exists([q_], And(0 <= q_, q_ < L.i, R._mt.el.get(R.arr[q_], "chunk_key") == k)))), D1.dom[k]))]
    S.contract(f"{RI}::SaveChunks", **WI, nonnull=(0,), modifies=["chunks_", ("arg", 0), ("alloc",)], requires=lambda c: CI(c.V0, c.pre.chunks_), loops={0: save_loop}, ensures=save_post)
    def stored(v, item, K): return And(item.chunks.len == K.len, fa(q_, Implies(And(0 <= q_, q_ < K.len), And(item.chunks.arr[q_] > 0, item.chunks.arr[q_] < v.alloc, ckey(v, item.chunks.arr[q_]) == K.at(q_))), item.chunks.arr[q_], K.at(q_)))
    def get_post(c):
        D, it0, it1 = c.pre.chunks_, c.ptr(1).item.item, c.ptrpost(0); K_ = Keys(it0.flat_trajectory)
        r0, r1 = c.ptr(1), c.ptrpost(1); same_ = lambda f: r1.item._mt.get(r1.item.e, f) == r0.item._mt.get(r0.item.e, f)
        return [("the rest of the request stays", And(same_("keep_chunk_keys"), same_("send_confirmation"), r1._mt.get(r1.e, "has_item") == r0._mt.get(r0.e, "has_item"))), ("an item with all of its chunks", Implies(c.res == OK, And(it1.item.e == it0.e, stored(c.V1, it1, K_), fa(q_, Implies(And(0 <= q_, q_ < K_.len), D.dom[K_.at(q_)]), K_.at(q_))))), ("an error only if a chunk is missing", Implies(c.res != OK, Exists([q_], And(0 <= q_, q_ < K_.len, Not(D.dom[K_.at(q_)])))))]
    def get_loop(L):
        it, D, K_ = L.ex.spec_value(L.ex.deref_quiet(L.raw("item")), L.ex.view(), post=True), L.this.chunks_, Keys(L.fctx.ptr(1).item.item.flat_trajectory)
        return [("chunks so far", And(it.chunks.len == L.i, fa(q_, Implies(And(0 <= q_, q_ < L.i), And(it.chunks.arr[q_] == D.val[K_.at(q_)], D.dom[K_.at(q_)])), it.chunks.arr[q_], K_.at(q_))))]
    S.contract(f"{RI}::GetItemWithChunks", **WI, nonnull=(0, 1), modifies=[("arg", 0), ("arg", 1)], requires=lambda c: CI(c.V0, c.pre.chunks_) + [("a new item", c.ptr(0).chunks.len == 0), ("an item was received", c.ptr(1)._mt.get(c.ptr(1).e, "has_item"))], loops={0: get_loop}, ensures=get_post)
    kept = lambda c, x: Exists([q_], And(0 <= q_, q_ < c.arg(0).len, c.arg(0).arr[q_] == x))
    def rel_post(c):
        D0, D1, KK = c.pre.chunks_, c.post.chunks_, c.arg(0)
        return CI(c.V1, D1) + [("only chunks asked for are kept", fa(k, Implies(D1.dom[k], And(D0.dom[k], kept(c, k))), D1.dom[k])), ("chunks asked for are kept", fa(q_, Implies(And(0 <= q_, q_ < KK.len, D0.dom[KK.arr[q_]]), D1.dom[KK.arr[q_]]), KK.arr[q_]))]
    def rel_loop(L):
        D0, D1, KK, it = L.thisentry.chunks_, L.this.chunks_, L.fctx.arg(0), L.counter(); left = it.left
        return CI(L.ex.view(), D1) + [("chunks left to look at are there", fa(k, Implies(left[k], And(D1.dom[k], D0.dom[k])), left[k])), ("chunks kept were asked for", fa(k, Implies(D1.dom[k], And(D0.dom[k], Or(left[k], kept(L.fctx, k)))), D1.dom[k])), ("chunks asked for are kept", fa(q_, Implies(And(0 <= q_, q_ < KK.len, D0.dom[KK.arr[q_]]), D1.dom[KK.arr[q_]]), KK.arr[q_]))]
    S.contract(f"{RI}::ReleaseOutOfRangeChunks", **WI, may_abort=True, modifies=["chunks_"], requires=lambda c: CI(c.V0, c.pre.chunks_), loops={0: rel_loop}, ensures=rel_post)
    S.contract("SampleTaskInfo::NextSampleSize", modifies=[], ensures=lambda c: [("batch size", c.res == If(c.pre.flexible_batch_size <= c.pre.requested_samples - c.pre.fetched_samples, c.pre.flexible_batch_size, c.pre.requested_samples - c.pre.fetched_samples))])
    # ---- asynchronous insert streams: one request
    BI = BASE + "<InsertStreamRequest, InsertStreamResponse, InsertStreamResponseCtx>"
    G = "grpc::ServerBidiReactor::"
    def order(o0, o1):
        """messages queued stay queued in order; the first one is being written and does not change"""
        A, B = o0.responses_to_send_, o1.responses_to_send_
        return And(B.len >= A.len, B.len >= 0, fa(i, Implies(And(0 <= i, i < A.len, Or(i == 0, i < A.len - 1)), B.arr[i] == A.arr[i]), B.arr[i], A.arr[i]))
    S.call_models.update({G + "StartRead": lambda ex, n: None, G + "Finish": lambda ex, n: ex.eval(n["args"][0]) and None})
    def startwrite(ex, n):
        for a in n["args"]: ex.eval(a)
        ex.started.append(True); return None
    S.call_models[G + "StartWrite"] = startwrite
    S.call_models["grpc::WriteOptions::set_no_compression"] = lambda ex, n: None
    def fresh_path(ex, c): ex.started, ex.accepted = [], []
    def enq_call(ex, c):
        if getattr(ex, "accepted", None) is None: return
        it = c.arg(0); D = ex.view().obj(ex.me, "WorkerlessInsertReactor").chunks_; f = ex.fctx0; rq = f.ptr(0)
        ex.obligation("the item is stored with all of its chunks", stored(ex.view(), it, Keys(rq.item.item.flat_trajectory)), ex.line, "pre")
        ex.obligation("the item is the one received", it.item.e == rq.item.item.e, ex.line, "pre")
        ex.obligation("at most one item per request, and only if one was received", And(BoolVal(not ex.accepted), rq._mt.get(rq.e, "has_item")), ex.line, "pre")
        ex.accepted.append(c.res == OK)
    S.contract("Table::InsertOrAssignAsync", abstract=True, modifies=[("arg", 1), ("alloc",)], ensures=lambda c: [("a status", c.res >= 0)], on_call=enq_call)
    def table_post(c): return [("the table with that name, if there is one", c.res == If(c.pre.tables_.dom[c.arg(0)], c.pre.tables_.val[c.arg(0)], 0))]
    S.contract("ReverbServiceAsyncImpl::TableByName", modifies=[], ensures=table_post)
    def proc_setup(ex, c): fresh_path(ex, c); ex.me = c.thisref; ex.fctx0 = c
    def proc_post(c):
        rq, R0, R1, D0, D1 = c.ptr(0), c.pre.responses_to_send_, c.post.responses_to_send_, c.pre.chunks_, c.post.chunks_; has = rq._mt.get(rq.e, "has_item"); ok = c.res == OK; conf = rq.item.send_confirmation; el = R0._mt.el; key = rq.item.item.key; KK = rq.item.keep_chunk_keys
        cur = lambda o: o.len > 0; kl = lambda q, p: el.ft("payload").ft("keys").len(el.ft("payload").get(el.get(q.arr[p], "payload"), "keys")); ka = lambda q, p: el.ft("payload").ft("keys").arr(el.ft("payload").get(el.get(q.arr[p], "payload"), "keys"))
        out = [("messages stay in order and the one being written does not change", order(c.pre, c.post))]
        if impl(c): out += [("success means that the item received was accepted by its table", Implies(And(ok, has), c.ex.accepted[0] if c.ex.accepted else BoolVal(False))),
                            ("a message is written iff there was none before", Implies(ok, BoolVal(bool(c.ex.started)) == And(R0.len == 0, R1.len > 0, Not(c.pre.is_finished_)))), ("one message at a time", BoolVal(len(c.ex.started) <= 1))]
        L = R1.len - 1; q0 = kl(R0, R0.len - 1)
        return out + [("nothing is confirmed without an accepted item that asked for it", Implies(Not(And(ok, has, conf)), R1.e == R0.e)),
                ("an accepted item that asked for it is confirmed", Implies(And(ok, has, conf), And(R1.len >= 1, If(R1.len == R0.len, And(R0.len >= 2, kl(R1, L) == q0 + 1, fa(i, Implies(And(0 <= i, i < q0), ka(R1, L)[i] == ka(R0, R0.len - 1)[i]), ka(R1, L)[i])), And(R1.len == R0.len + 1, kl(R1, L) == 1, Implies(R0.len > 0, R1.arr[R0.len - 1] == R0.arr[R0.len - 1]))), ka(R1, L)[kl(R1, L) - 1] == key))),
                ("exactly the chunks asked for are kept", Implies(And(ok, has), And(fa(k, Implies(D1.dom[k], Exists([q_], And(0 <= q_, q_ < KK.len, KK.arr[q_] == k))), D1.dom[k]), fa(q_, Implies(And(0 <= q_, q_ < KK.len, D0.dom[KK.arr[q_]]), D1.dom[KK.arr[q_]]), KK.arr[q_])))),
                ("chunks can be used by later items", Implies(And(ok, Not(has)), And(fa(k, Implies(D0.dom[k], D1.dom[k]), D0.dom[k]), fa(q_, Implies(And(0 <= q_, q_ < rq.chunks.len), D1.dom[rq.chunks._mt.el.get(rq.chunks.arr[q_], "chunk_key")]), rq.chunks.arr[q_]))))] + CI(c.V1, D1)
    S.contract(f"{RI}::ProcessIncomingRequest", **WI, inv=True, may_abort=True, nonnull=(0,), modifies=["chunks_", "responses_to_send_", ("arg", 0), ("alloc",)], requires=lambda c: CI(c.V0, c.pre.chunks_) + [("sizes", c.pre.responses_to_send_.len >= 0), ("the stream is not finished", Not(c.pre.is_finished_))], setup=proc_setup, ensures=proc_post)
    S.assumptions.add("grpc calls OnWriteDone once for each message written, after it was written, and delivers messages whole and in order")
    # ---- the reactor both streams are built on
    for B, tag, code in ((BI, "insert streams", "InsertStreamRequest"), (BASE + "<SampleStreamRequest, SampleStreamResponse, SampleStreamResponseCtx>", "sample streams", "SampleStreamRequest")):
        def minv(o): yield "sizes", o.responses_to_send_.len >= 0; yield "a finished stream has nothing to send", Implies(o.is_finished_, o.responses_to_send_.len == 0)
        def guar(ex, o0, o1):
            r = [("a finished stream stays finished", Implies(o0.is_finished_, o1.is_finished_)), ("a stream that ended is not read again", Implies(o1.still_reading_, o0.still_reading_))]
            return r + ([] if ex.role == "write_done" else [("messages queued stay queued in order, and the one being written does not change", Or(o1.is_finished_, order(o0, o1)))])
        mon = Monitor(f"{B}.mu_", B, [f"{B}.{f}" for f in ("responses_to_send_", "still_reading_", "is_finished_", "is_cancelled_")], inv=lambda o: list(minv(o)), guarantee=guar, rely=lambda ex, o0, o1: [])
        S.monitor(mon); W = dict(cls=B, usr=code, tag=tag); inv = lambda c, mon=mon: list(mon.inv(c.ex, c.pre)); U = lambda c: c.ex.snap_acq.obj(c.thisref, c.pre.cls if hasattr(c.pre, "cls") else B)
        plain = lambda ex, c: (fresh_path(ex, c), setattr(ex, "role", "other"))[0]
        S.contract(f"{BASE}::ShouldFinish", **W, inv=True, modifies=[], requires=inv, ensures=lambda c: [("it is time to finish", c.res == And(c.pre.responses_to_send_.len == 0, Not(c.pre.still_reading_), Not(c.pre.is_finished_)))])
        def sent(ex, c):
            if getattr(ex, "started", None) is not None and ex.choose(And(c.pre.responses_to_send_.len > 0, Not(c.pre.is_finished_))): ex.started.append(True)
        S.contract(f"{BASE}::MaybeSendNextResponse", **W, inv=True, modifies=[], requires=inv, setup=plain, on_call=sent, ensures=lambda c: [("the next message is written", BoolVal(bool(c.ex.started)) == And(c.pre.responses_to_send_.len > 0, Not(c.pre.is_finished_)))] if impl(c) else [])
        S.contract(f"{BASE}::SetReactorAsFinished", **W, inv=True, setup=plain, modifies=["responses_to_send_", "is_finished_"], requires=lambda c, inv=inv: inv(c) + [("the stream is not finished", Not(c.pre.is_finished_)), ("nothing is left to send on success", Or(c.arg(0) != OK, c.pre.responses_to_send_.len == 0))], ensures=lambda c: [("the stream is finished", And(c.post.is_finished_, c.post.responses_to_send_.len == 0))])
        S.contract(f"{BASE}::OnCancel", **W, setup=plain, modifies=["still_reading_", "is_cancelled_"], ensures=lambda c: [("cancelled", And(c.post.is_cancelled_, Not(c.post.still_reading_)))] if impl(c) else [])
        S.contract(f"{BASE}::MaybeStartRead", **W, setup=plain, modifies=[], ensures=lambda c: [])
        def processed(ex, c): ex.processed.append(c.res)
        S.contract(f"{BASE}::ProcessIncomingRequest", **W, abstract=True, inv=True, may_abort=True, modifies=["responses_to_send_"], on_call=processed, requires=lambda c: [("the stream is not finished", Not(c.pre.is_finished_))], ensures=lambda c: [("a status", c.res >= 0), ("messages stay in order", order(c.pre, c.post)), ("sizes", c.post.responses_to_send_.len >= 0)])
        def reading(ex, c): fresh_path(ex, c); ex.role, ex.processed = "other", []
        def read_post(c, B=B):
            if not impl(c): return []
            a, z = c.ex.snap_acq.obj(c.thisref, B), c.ex.snap_rel.obj(c.thisref, B); P = c.ex.processed
            return [("a request that fails ends the stream", And(*[Implies(r != OK, z.is_finished_) for r in P])), ("requests are processed unless the stream ended", Implies(And(c.arg(0), Not(a.is_finished_)), BoolVal(len(P) == 1))), ("after the last request the stream ends once everything was sent", Implies(Not(c.arg(0)), And(Not(z.still_reading_), z.is_finished_ == Or(a.is_finished_, a.responses_to_send_.len == 0)))), ("reading again needs a new message", Implies(And(c.arg(0), Not(a.is_finished_)), z.still_reading_ == a.still_reading_))]
        S.contract(f"{BASE}::OnReadDone", **W, setup=reading, may_abort=True, modifies=["responses_to_send_", "is_finished_", "still_reading_"], ensures=read_post)
        def writing(ex, c): fresh_path(ex, c); ex.role = "write_done"; ex.acq_hooks = (lambda o: Or(o.is_finished_, o.responses_to_send_.len >= 1),)
        def write_post(c, B=B):
            if not impl(c): return []
            a, z = c.ex.snap_acq.obj(c.thisref, B), c.ex.snap_rel.obj(c.thisref, B); A, Z_ = a.responses_to_send_, z.responses_to_send_; ok = And(c.arg(0), Not(a.is_finished_))
            return [("the message written is removed, the others stay in order", Implies(And(ok, Not(z.is_finished_)), And(Z_.len == A.len - 1, fa(i, Implies(And(0 <= i, i < Z_.len), Z_.arr[i] == A.arr[i + 1]), Z_.arr[i])))), ("the next message is written", BoolVal(len(c.ex.started) == 1) == And(ok, A.len > 1)), ("one message at a time", BoolVal(len(c.ex.started) <= 1)),
                    ("a stream whose requests ended finishes after its last message", Implies(ok, z.is_finished_ == And(Not(a.still_reading_), A.len == 1))), ("a failed write ends the stream", Implies(And(Not(c.arg(0)), Not(a.is_finished_)), z.is_finished_))]
        S.contract(f"{BASE}::OnWriteDone", **W, setup=writing, modifies=["responses_to_send_", "is_finished_"], ensures=write_post)
    # ---- synchronous insert streams
    SI = "ReverbServiceImpl"; Q = "deepmind::reverb::internal::Queue::"
    def boolean(name): return lambda ex, n: (lambda _: X.Z(MBool(), ex.fresh(BoolSort(), name)))([ex.eval(a) for a in n["args"]])
    def pop(ex, n):
        lv = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))); mt = lv.mt; e = ex.fresh(mt.sort(), "request"); lv.write(ex, X.Z(mt, e)); ex.typed(X.Z(mt, e))
        ex.accepted, ex.confirmed = [], []; ex.cur = X.wrap(ex.view(), mt, e); ch = ex.cur.chunks; ex.assume(ch.len >= 0); ex.assume(ex.cur.item.keep_chunk_keys.len >= 0)
        return X.Z(MBool(), ex.fresh(BoolSort(), "popped"))
    S.assumptions.add("requests are taken from the queue in the order in which they were read, each once (C08)")
    def start(ex, n):
        clo = ex.rv(ex.eval(n["args"][1]))
        if ex.choose(ex.fresh(BoolSort(), "in_the_thread")): ex.call_closure(clo, []); raise X.PathEnd()
        r = ex.new_ref(); return X.Z(ex.mt(ex.ty(n["t"])), r)
    def confirm(ex, n):
        for a in n["args"][1:]: ex.eval(a)
        r = M.norm_lv(ex, ex.eval(n["args"][0])).read(ex); v = X.wrap(ex.view(), r.mt, ex.z(r)); it = ex.cur.item
        ex.obligation("only an accepted item is confirmed, and only if that was asked for", And(it.send_confirmation, ex.accepted[0] if ex.accepted else BoolVal(False)), ex.line, "pre")
        ex.obligation("the confirmation names the item", And(v.keys.len == 1, v.keys.arr[0] == it.item.key), ex.line, "pre"); ex.obligation("an item is confirmed once", BoolVal(not ex.confirmed), ex.line, "pre")
        b = ex.fresh(BoolSort(), "written"); ex.confirmed.append(b); return X.Z(MBool(), b)
    S.call_models.update({Q + "Pop": pop, Q + "Push": boolean("pushed"), Q + "SetLastItemPushed": lambda ex, n: None, Q + "Close": lambda ex, n: None, "deepmind::reverb::internal::StartThread": start, "deepmind::reverb::internal::MakeCleanup": lambda ex, n: X.Opq(), "grpc::internal::ReaderInterface::Read": boolean("read"), "grpc::internal::WriterInterface::Write": confirm})
    def ioa_call(ex, c):
        if getattr(ex, "accepted", None) is None: return
        it = c.arg(0); rq = ex.cur
        ex.obligation("the item is stored with all of its chunks", stored(ex.view(), it, Keys(rq.item.item.flat_trajectory)), ex.line, "pre")
        ex.obligation("the item is the one received", it.item.e == rq.item.item.e, ex.line, "pre")
        ex.obligation("at most one item per request, and only if one was received", And(BoolVal(not ex.accepted), rq._mt.get(rq.e, "has_item")), ex.line, "pre")
        ex.accepted.append(c.res == OK)
    S.contract("Table::InsertOrAssign", abstract=True, modifies=[("alloc",)], ensures=lambda c: [("a status", c.res >= 0)], on_call=ioa_call)
    S.contract(f"{SI}::TableByName", modifies=[], ensures=table_post)
    def prev(L, name): v = L.prev_env.get(L._find(name)); return L.ex.spec_value(v, L.prev)
    def requests(L):
        D = L.local("chunks"); out = CI(L.ex.view(), D)
        if hasattr(L, "prev"):
            rq, D0 = L.ex.cur, prev(L, "chunks"); has = rq._mt.get(rq.e, "has_item"); ckq = rq.chunks._mt.el.get(rq.chunks.arr[q_], "chunk_key"); KK = rq.item.keep_chunk_keys
            out += [("every item received was accepted by its table", Implies(has, L.ex.accepted[0] if L.ex.accepted else BoolVal(False))), ("an item is confirmed if that was asked for", Implies(has, rq.item.send_confirmation == (L.ex.confirmed[0] if L.ex.confirmed else BoolVal(False)))),
                    ("exactly the chunks asked for are kept", Implies(has, And(fa(k, Implies(D.dom[k], Exists([q_], And(0 <= q_, q_ < KK.len, KK.arr[q_] == k))), D.dom[k]), fa(q_, Implies(And(0 <= q_, q_ < KK.len, D0.dom[KK.arr[q_]]), D.dom[KK.arr[q_]]), KK.arr[q_])))),
                    ("chunks can be used by later items", Implies(Not(has), And(fa(k, Implies(D0.dom[k], D.dom[k]), D0.dom[k]), fa(q_, Implies(And(0 <= q_, q_ < rq.chunks.len), D.dom[ckq]), rq.chunks.arr[q_]))))]
        return out
    def inserting(L):
        D, D0 = L.local("chunks"), L.local0("chunks"); rq = L.ex.cur; ckq = rq.chunks._mt.el.get(rq.chunks.arr[q_], "chunk_key"); now = L.local("request")
        return CI(L.ex.view(), D) + [("the item received stays", And(now.item.e == rq.item.e, now._mt.get(now.e, "has_item") == rq._mt.get(rq.e, "has_item"))), ("chunks to come", And(now.chunks.len == rq.chunks.len, fa(q_, Implies(And(L.i <= q_, q_ < rq.chunks.len), now.chunks.arr[q_] == rq.chunks.arr[q_]), now.chunks.arr[q_], rq.chunks.arr[q_]))), ("chunks kept so far can be used", fa(k, Implies(D0.dom[k], D.dom[k]), D0.dom[k])), ("so far", fa(q_, Implies(And(0 <= q_, q_ < L.i), D.dom[ckq]), rq.chunks.arr[q_]))]
    def collecting(L):
        it, D, K_ = L.local("item"), L.local("chunks"), Keys(L.ex.cur.item.item.flat_trajectory)
        return [("chunks so far", And(it.chunks.len == L.i, fa(q_, Implies(And(0 <= q_, q_ < L.i), And(it.chunks.arr[q_] == D.val[K_.at(q_)], D.dom[K_.at(q_)])), it.chunks.arr[q_], K_.at(q_))))]
    def dropping(L):
        D0, D1, KS, left = L.local0("chunks"), L.local("chunks"), L.local("keep_keys").e, L.counter().left
        return CI(L.ex.view(), D1) + [("chunks left to look at are there", fa(k, Implies(left[k], And(D1.dom[k], D0.dom[k])), left[k])), ("chunks kept were asked for", fa(k, Implies(D1.dom[k], And(D0.dom[k], Or(left[k], KS[k]))), D1.dom[k])), ("chunks asked for are kept", fa(k, Implies(And(KS[k], D0.dom[k]), D1.dom[k]), KS[k], D0.dom[k]))]
    def insert_setup(ex, c): ex.cur = None; ex.accepted, ex.confirmed = [], []
    S.contract(f"{SI}::InsertStreamInternal", may_abort=True, nonnull=(1,), setup=insert_setup, modifies=["chunk_store_", ("all", "ChunkStore.data_"), ("alloc",)], loops={0: lambda L: [], 1: requests, 2: inserting, 3: collecting, 4: dropping}, ensures=lambda c: [])
