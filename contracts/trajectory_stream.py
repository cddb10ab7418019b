"""Contracts of the trajectory writer's worker, of flushing and of closing (C18)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M
from contracts.lib import fa, same
from contracts.cells import CELL, key, box
from contracts.trajectory import Traj
from contracts.trajectory_writer import qkey, CONFIRMED, OK
i, j, c_, k, x_, q_ = Ints("i j c k x q")
CLS = "TrajectoryWriter"
MON = ["unrecoverable_status_", "write_queue_", "in_flight_items_", "closed_", "episode_id_", "episode_step_", "context_"]
def register(S):
    mon = S.monitors[f"{CLS}.mu_"] if isinstance(S.monitors, dict) else [m for m in S.monitors if m.mutex == f"{CLS}.mu_"][0]
    impl = lambda c: getattr(c, "is_impl", False)
    def held(ex, c): ex.held.append((mon, c.thisref)); ex.snap_acq = ex.view()
    now = lambda c: c.ex.view().obj(c.thisref, CLS) if impl(c) else c.post
    def pending(o):
        """items waiting to be written or confirmed (one being written counts once)"""
        Q = o.write_queue_; F = o.in_flight_items_; ex = o._view.ex; M.card_facts(ex, F.e); M.card_member(ex, F.e, qkey(o, 0)); return Q.len + M.card(F.e) - If(And(Q.len > 0, F.e[qkey(o, 0)]), 1, 0)
    def flush_post(c):
        o = c.post; ok = c.res == OK
        return [("success means that at most the permitted number of items waits for confirmation", Implies(ok, pending(o) <= c.arg(0))), ("an unrecoverable error is reported", Implies(o.unrecoverable_status_ != OK, Not(ok))), ("a status", c.res >= 0)]
    CELLS = ["data_cv_", ("all", f"{CELL}.chunk_")]; inv = lambda c: list(mon.inv(c.ex, c.pre))
    for f in ("Flush", "Reset"): S.contract(f"Chunker::{f}", abstract=True, modifies=CELLS[1:], ensures=lambda c: [("a status", c.res >= 0)] if c.res is not None else [])
    triv = lambda L: [("position", L.counter() >= 0)]
    S.contract(f"{CLS}::FlushLocked", inv=True, modifies=CELLS, setup=held, requires=inv, release_lock=True, loops={0: triv, 1: triv}, ensures=flush_post)
    S.contract(f"{CLS}::Flush", modifies=CELLS, ensures=lambda c: flush_post(c) if impl(c) else [])
    def end_post(c):
        o = c.post; ok = c.res == OK
        return [("success means that every item was confirmed", Implies(ok, And(o.write_queue_.len == 0, fa(k, Not(o.in_flight_items_.e[k]), o.in_flight_items_.e[k])))), ("an unrecoverable error is reported", Implies(o.unrecoverable_status_ != OK, Not(ok)))]
    flushed = lambda L: [("nothing waits for confirmation", And(L.this.write_queue_.len == 0, L.this.in_flight_items_.e == K(IntSort(), False))), ("no error so far", L.this.unrecoverable_status_ == OK)]
    S.contract(f"{CLS}::EndEpisode", modifies=CELLS + ["unrecoverable_status_", "episode_id_", "episode_step_"], loops={0: flushed}, ensures=lambda c: end_post(c) if impl(c) else [])
    # closing
    def woken(ex): ex.closing = True
    S.contract(f"{CLS}::Close", modifies=["closed_", "data_cv_", "stream_worker_", "context_"], setup=lambda ex, c: None, ensures=lambda c: [("the writer is closed and its worker joined", Implies(Not(c.ex.snap_acq.obj(c.thisref, CLS).closed_), And(c.ex.snap_rel.obj(c.thisref, CLS).closed_, c.post.stream_worker_ == 0)))] if impl(c) else [])
    # the stream: which chunks the server holds, whether the front item was sent
    KEYS = MSet(MInt(64, False)); G = "grpc::internal::"
    S.ghost["OnStream.held"] = KEYS; S.ghost["OnStream.unpopped"] = MBool()
    held_by_server = lambda v, r: Select(v.harr("OnStream.held", KEYS), r)
    unpopped = lambda v, r: Select(v.harr("OnStream.unpopped", MBool()), r)
    def put(ex, r, f, mt, e): X.HeapLV(f"OnStream.{f}", r, mt).write(ex, X.Z(mt, e))
    _k = {}
    def keysof(mt):
        """the keys of a sequence of chunks: none for the empty one, one more for each appended chunk"""
        if mt.name not in _k: _k[mt.name] = Function("keys_of_chunks", mt.sort(), KEYS.sort())
        return _k[mt.name]
    def request(ex, lv): e = ex.z(lv.read(ex), lv.mt); return lv.mt, e
    def chunks(ex, mt, e):
        cmt, ch = mt.ft("chunks"), mt.get(e, "chunks"); K_ = keysof(cmt)(ch); ex.assume_once(Implies(cmt.len(ch) == 0, K_ == KEYS.empty())); return K_
    def item_keys(v, imt, it, f):
        t = Traj(X.wrap(v, imt.ft("flat_trajectory"), imt.get(it, "flat_trajectory"))); return fa([c_, k], Implies(t.inside(c_, k), f(t.f(c_, k, "chunk_key"))), t.sl(c_, k))
    def write(ex, n):
        st = ex.z(ex.rv(ex.eval(n["obj"]))); r = M.norm_lv(ex, ex.eval(n["args"][0])).read(ex); mt, e = r.mt, ex.z(r); v = ex.view()
        K_ = chunks(ex, mt, e); H = held_by_server(v, st); imt, it = mt.ft("item"), mt.get(e, "item"); pmt, p = imt.ft("item"), imt.get(it, "item"); has = mt.get(e, "has_item"); kmt, kk = imt.ft("keep_chunk_keys"), imt.get(it, "keep_chunk_keys")
        there = lambda x: Or(H[x], K_[x])
        ex.obligation("an item is sent after (or with) its chunks", Implies(has, item_keys(v, pmt, p, there)), ex.line, "pre")
        ex.obligation("keys to keep are those of chunks the server has", Implies(has, fa(q_, Implies(And(0 <= q_, q_ < kmt.len(kk)), there(kmt.arr(kk)[q_])), kmt.arr(kk)[q_])), ex.line, "pre")
        ex.obligation("a confirmation is asked for", Implies(has, imt.get(it, "send_confirmation")), ex.line, "pre")
        if not ex.choose(ex.fresh(BoolSort(), "written")): return X.Z(MBool(), BoolVal(False))
        new = ex.fresh(KEYS.sort(), "held"); pos = Function(f"position_{new.decl().name()}", IntSort(), IntSort())
        ex.assume(Implies(Not(has), fa(x_, new[x_] == there(x_), new[x_])))
        ex.assume(Implies(has, And(fa(q_, Implies(And(0 <= q_, q_ < kmt.len(kk)), new[kmt.arr(kk)[q_]]), kmt.arr(kk)[q_]), fa(x_, Implies(new[x_], And(0 <= pos(x_), pos(x_) < kmt.len(kk), kmt.arr(kk)[pos(x_)] == x_)), new[x_]))))
        put(ex, st, "held", KEYS, new); return X.Z(MBool(), BoolVal(True))
    RP = "google::protobuf::RepeatedPtrField::"
    def box_(ex, n): lv = ex.eval(n["obj"]); return M.norm_lv(ex, ex.deref(ex.rv(lv)) if n.get("arrow") else lv)
    def add(ex, n):
        lv = box_(ex, n); mt = lv.mt; v = ex.z(M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))).read(ex)); sq = ex.z(lv.read(ex), mt); new = mt.mk(mt.len(sq) + 1, Store(mt.arr(sq), mt.len(sq), v))
        ex.assume_once(Implies(mt.len(sq) == 0, keysof(mt)(sq) == KEYS.empty())); ex.assume(keysof(mt)(new) == Store(keysof(mt)(sq), mt.el.get(v, "chunk_key"), True)); lv.write(ex, X.Z(mt, new)); return None
    def drop(ex, n):
        lv = box_(ex, n); mt = lv.mt; sq = ex.z(lv.read(ex), mt); ex.obligation("the container is not empty", mt.len(sq) >= 1, ex.line); lv.write(ex, X.Z(mt, mt.mk(mt.len(sq) - 1, mt.arr(sq)))); return None
    S.call_models.update({RP + "UnsafeArenaAddAllocated": add, RP + "UnsafeArenaReleaseLast": drop, G + "WriterInterface::Write": write, "grpc::WriteOptions::set_no_compression": lambda ex, n: None, "grpc::ClientContext::TryCancel": lambda ex, n: None})
    S.assumptions.add("a request is sent as it was built: grpc's Write sends the whole message, in order, or returns false")
    # sending chunks
    req = lambda c, a: (c.ptr(a) if not a.startswith("post") else None)
    def J(ex, T, st, R, v, exact=True):
        """chunks marked as sent are held by the server or are part of the request being built"""
        mt = R.r._mt; e = R.r.e; K_ = chunks(ex, mt, e); H = held_by_server(v, st)
        return [("chunks marked as sent are held by the server or in the request", fa(x_, Implies(T[x_], Or(H[x_], K_[x_])), T[x_]))] + ([("chunks held by the server or in the request are marked as sent", fa(x_, Implies(Or(H[x_], K_[x_]), T[x_]), H[x_], K_[x_]))] if exact else []) + [("the request has no item yet", And(Not(mt.get(e, "has_item")), mt.ft("item").ft("keep_chunk_keys").len(mt.ft("item").get(mt.get(e, "item"), "keep_chunk_keys")) == 0)), ("sizes", mt.ft("chunks").len(mt.get(e, "chunks")) >= 0)]
    def refs_exist(v, R): y = R.arr[k]; return [("references exist", And(R.len >= 0, fa(k, Implies(And(0 <= k, k < R.len), And(y > 0, y < v.alloc)), y)))]
    def send_loop(L):
        f = L.fctx; T = lambda view: L.ex.spec_value(L.ex.deref_quiet(L.raw("streamed_chunk_keys")), view, post=True).e; v = L.ex.view()
        R = L.ex.spec_value(L.ex.deref_quiet(L.raw("request")), v, post=True); t = T(v)
        return J(L.ex, t, L.raw_z("stream") if hasattr(L, "raw_z") else f.arg(0), R, v) + [("marks stay", fa(x_, Implies(f.ptr(1).e[x_], t[x_]), t[x_]))]
    S.contract("SendNotAlreadySentChunks", static=True, may_abort=True, nonnull=(0, 1, 3), modifies=lambda c: [("arg", 1), ("arg", 3), ("at", c.arg(0), "OnStream.held"), CELLS[1]], loops={0: send_loop},
               requires=lambda c: J(c.ex, c.ptr(1).e, c.arg(0), c.ptr(3), c.V0) + refs_exist(c.V0, c.arg(2)),
               ensures=lambda c: [(l, Implies(c.res, f)) for l, f in J(c.ex, c.ptrpost(1).e, c.arg(0), c.ptrpost(3), c.V1)] + [("marks stay", fa(x_, Implies(c.ptr(1).e[x_], c.ptrpost(1).e[x_]), c.ptrpost(1).e[x_])), ("sizes", c.ptrpost(3).r.chunks.len >= 0)])
    AR = "ArenaOwnedRequest"
    S.contract(f"{AR}::Clear", modifies=["r"], loops={0: lambda L: [("the item stays", L.this.r.item.e == L.thisentry.r.item.e), ("the presence of an item stays", L.this.r._mt.get(L.this.r.e, "has_item") == L.thisentry.r._mt.get(L.thisentry.r.e, "has_item")), ("sizes", L.this.r.chunks.len >= 0)]}, requires=lambda c: [("sizes", c.pre.r.chunks.len >= 0)],
               ensures=lambda c: [("the request is empty", And(c.post.r.chunks.len == 0, Not(c.post.r._mt.get(c.post.r.e, "has_item")), Implies(c.pre.r._mt.get(c.pre.r.e, "has_item"), c.post.r.item.keep_chunk_keys.len == 0), Implies(Not(c.pre.r._mt.get(c.pre.r.e, "has_item")), c.post.r.item.e == c.pre.r.item.e)))])
    def contains(c): R = c.arg(1); every = fa(k, Implies(And(0 <= k, k < R.len), c.arg(0).e[key(c.V0, R.arr[k])]), R.arr[k]); return [("true means that all keys are in the set", Implies(c.res, every)), ("false means that one is missing", Implies(every, c.res))]
    S.contract("ContainsAll", static=True, modifies=[], ensures=lambda c: contains(c))
    # the worker
    def worker(ex, c): ex.role = "worker"
    front = lambda o: o.write_queue_._mt.el.get(Select(o.write_queue_.arr, 0), "item")
    def copied(p, Q): el = Q._mt.el; return And(p.item.e == el.get(Select(Q.arr, 0), "item"), p.refs.e == el.get(Select(Q.arr, 0), "refs"))
    def next_post(c):
        if not impl(c): return []
        o = c.ex.snap_rel.obj(c.thisref, CLS); Q = o.write_queue_; return [("the item is the next one in the queue", Implies(c.res, And(Q.len > 0, copied(c.ptrpost(0), Q)))), ("only a closed writer has no next item", Or(c.res, o.closed_))]
    def next_call(ex, c):
        ex.acquire(mon, c.thisref, "GetNextPendingItem"); o = ex.view().obj(c.thisref, CLS); Q = o.write_queue_
        ex.assume(And(Implies(c.res, And(Q.len > 0, copied(c.ptrpost(0), Q))), Or(c.res, o.closed_))); ex.release(mon, c.thisref, "GetNextPendingItem")
    S.contract(f"{CLS}::GetNextPendingItem", nonnull=(0,), modifies=[("arg", 0)], setup=worker, ensures=next_post, on_call=next_call)
    KAT = Function("position_among_kept", IntSort(), IntSort(), IntSort()); KEPT = Function("chunker_keeps", IntSort(), IntSort(), BoolSort())
    S.assumptions.add("Chunker::GetKeepKeys returns the keys of the chunks a column still refers to (C15)")
    S.contract("Chunker::GetKeepKeys", abstract=True, modifies=[], ensures=lambda c: [("sizes", c.res.len >= 0), ("the keys the column keeps", And(fa(q_, Implies(And(0 <= q_, q_ < c.res.len), KEPT(c.thisref, c.res.arr[q_])), c.res.arr[q_]), fa(x_, Implies(KEPT(c.thisref, x_), And(0 <= KAT(c.thisref, x_), KAT(c.thisref, x_) < c.res.len, c.res.arr[KAT(c.thisref, x_)] == x_)), KEPT(c.thisref, x_))))])
    def keep_post(c):
        T, R, Q = c.arg(0).e, c.res.e, c.pre.write_queue_; el = Q._mt.el; it = X.wrap(c.V0, el, Q.arr[j]); y = it.refs.arr[k]
        Cm = c.pre.chunkers_; return [("chunks the columns still refer to are kept", fa([i, x_], Implies(And(Cm.dom[i], KEPT(Cm.val[i], x_), T[x_]), R[x_]), KEPT(Cm.val[i], x_))), ("only keys of chunks sent before are kept", fa(x_, Implies(R[x_], T[x_]), R[x_])), ("chunks of pending items are kept", fa([j, k], Implies(And(1 <= j, j < Q.len, 0 <= k, k < it.refs.len, T[key(c.V0, y)]), R[key(c.V0, y)]), y))]
    def only_sent(L): T = L.fctx.arg(0).e; R = L.local("keys").e; return [("only keys of chunks sent before", fa(x_, Implies(R[x_], T[x_]), R[x_]))]
    def keep_columns(L):
        T, R, Cm = L.fctx.arg(0).e, L.local("keys").e, L.this.chunkers_; return only_sent(L) + [("columns so far", fa([i, x_], Implies(And(Cm.dom[i], L.visited[i], KEPT(Cm.val[i], x_), T[x_]), R[x_]), KEPT(Cm.val[i], x_)))]
    def keep_column(L):
        T, R, S_ = L.fctx.arg(0).e, L.local("keys").e, L.seq; R0 = L.local0("keys").e
        return only_sent(L) + [("keys so far", fa(q_, Implies(And(0 <= q_, q_ < L.i, T[S_.arr[q_]]), R[S_.arr[q_]]), S_.arr[q_])), ("keys before", fa(x_, Implies(R0[x_], R[x_]), R[x_]))]
    def columns_stay(L): T, R, Cm = L.fctx.arg(0).e, L.local("keys").e, L.this.chunkers_; return [("columns", fa([i, x_], Implies(And(Cm.dom[i], KEPT(Cm.val[i], x_), T[x_]), R[x_]), KEPT(Cm.val[i], x_)))]
    def keep_items(L):
        f = L.fctx; T, R, Q = f.arg(0).e, L.local("keys").e, f.pre.write_queue_; el = Q._mt.el; it = X.wrap(f.V0, el, Q.arr[j]); y = it.refs.arr[k]; n = L.counter()
        return only_sent(L) + columns_stay(L) + [("position", And(0 <= n, n <= Q.len)), ("chunks of the items so far are kept", fa([j, k], Implies(And(1 <= j, j < n, 0 <= k, k < it.refs.len, T[key(f.V0, y)]), R[key(f.V0, y)]), y))]
    def keep_refs(L):
        f = L.fctx; T, R = f.arg(0).e, L.local("keys").e; S_ = L.seq; y = S_.arr[q_]; R0 = L.local0("keys").e
        return only_sent(L) + columns_stay(L) + [("chunks of the references so far are kept", fa(q_, Implies(And(0 <= q_, q_ < L.i, T[key(f.V0, y)]), R[key(f.V0, y)]), y)), ("keys before", fa(x_, Implies(R0[x_], R[x_]), R[x_]))]
    S.contract(f"{CLS}::GetKeepKeys", inv=True, modifies=[], requires=inv, loops={0: keep_columns, 1: keep_column, 2: keep_items, 3: keep_refs}, ensures=keep_post)
    # sending an item
    def sendable(c):
        R = c.ptr(3); K_ = chunks(c.ex, R.r._mt, R.r.e); H = held_by_server(c.V0, c.arg(0)); it = c.arg(2); there = lambda x: Or(H[x], K_[x])
        c.ex.before_send, c.ex.request_before = c.V0, K_
        return [("the item's chunks are held by the server or in the request", item_keys(c.V0, it._mt, it.e, there))] + J(c.ex, c.arg(1).e, c.arg(0), R, c.V0, False)
    def keep_loop(L):
        T = L.fctx.arg(1).e; r = L.ex.spec_value(L.ex.deref_quiet(L.raw("request")), L.ex.view(), post=True).r; it = r.item; kk = it.keep_chunk_keys; o = L.fctx.ptr(3).r; KPOS = Function("position_in_keep_list", IntSort(), IntSort())
        if hasattr(L, "prev"): L.ex.assume_once(KPOS(kk.arr[kk.len - 1]) == kk.len - 1)
        return [("the request's chunks stay", r.chunks.e == o.chunks.e), ("the item is part of the request", And(r._mt.get(r.e, "has_item"), it.item.e == L.fctx.arg(2).e, it.send_confirmation)), ("only keys to keep", And(kk.len >= 0, fa(q_, Implies(And(0 <= q_, q_ < kk.len), T[kk.arr[q_]]), kk.arr[q_]))),
                ("the keys so far", fa(x_, Implies(L.visited[x_], And(0 <= KPOS(x_), KPOS(x_) < kk.len, kk.arr[KPOS(x_)] == x_)), KPOS(x_)))]
    S.contract(f"{CLS}::SendItem", nonnull=(0, 3), modifies=lambda c: [("arg", 3), ("at", c.arg(0), "OnStream.held")], requires=sendable, loops={0: keep_loop}, setup=worker,
               ensures=lambda c: [("sizes", And(c.ptrpost(3).r.chunks.len >= 0, c.ptrpost(3).r.item.keep_chunk_keys.len >= 0)), ("the item is in the request", c.ptrpost(3).r._mt.get(c.ptrpost(3).r.e, "has_item")), ("the server keeps exactly the chunks asked for", Implies(c.res, fa(x_, held_by_server(c.V1, c.arg(0))[x_] == c.arg(1).e[x_], held_by_server(c.V1, c.arg(0))[x_], c.arg(1).e[x_]))), ("an item not sent changes nothing at the server", Implies(Not(c.res), held_by_server(c.V1, c.arg(0)) == held_by_server(c.V0, c.arg(0))))])
    # the worker's loop
    fresh_status = lambda ex, n: (lambda v: (ex.assume(v >= 0), X.Z(MStatus(), v))[1])(ex.fresh(IntSort(), "status"))
    def opened(ex, n):
        for a in n["args"]: ex.eval(a)
        r = ex.new_ref(); put(ex, r, "held", KEYS, KEYS.empty()); put(ex, r, "unpopped", MBool(), BoolVal(False)); ex.stream_ref = r; return X.Z(ex.mt(ex.ty(n["t"])), r)
    def start(ex, n):
        """the thread's function is verified on a path of its own, from the state at its start; the other threads' rely covers what it does"""
        clo = ex.rv(ex.eval(n["args"][1]))
        if ex.choose(ex.fresh(BoolSort(), "in_the_thread")):
            building = ex.role == "constructor"
            ex.role = "reader" if ex.role == "worker" else "worker"; ex.rel_hooks = (); ex.wait_hook = None; ex.call_closure(clo, [])
            if building:
                o = ex.snap_rel.obj(ex.me, CLS) if ex.snap_rel is not None else None
                ex.obligation("the worker stops only when the writer is closed or after an unrecoverable error", Or(o.closed_, o.unrecoverable_status_ != 0) if o is not None else BoolVal(False), ex.line)
            raise X.PathEnd()
        r = ex.new_ref(); return X.Z(ex.mt(ex.ty(n["t"])), r)
    def read(ex, n):
        lv = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))); mt = lv.mt; e = ex.fresh(mt.sort(), "response"); kmt, kk = mt.ft("keys"), mt.get(e, "keys")
        ex.assume(And(kmt.len(kk) >= 0, fa(q_, Implies(And(0 <= q_, q_ < kmt.len(kk)), CONFIRMED(kmt.arr(kk)[q_])), kmt.arr(kk)[q_]))); lv.write(ex, X.Z(mt, e))
        return X.Z(MBool(), ex.fresh(BoolSort(), "read"))
    S.call_models.update({"deepmind::reverb::FromGrpcStatus": lambda ex, n: fresh_status(ex, n), G + "ClientStreamingInterface::Finish": lambda ex, n: ex.fresh_val(ex.mt(ex.ty(n["t"])), "final"), "deepmind::reverb::ReverbService::StubInterface::InsertStream": opened,
                          "deepmind::reverb::internal::StartThread": start, G + "ReaderInterface::Read": read, "grpc::ClientContext::set_wait_for_ready": lambda ex, n: None})
    S.call_models["tsl::internal::Check_EQImpl"] = lambda ex, n: X.PyVal("check", cond=ex.evz(n["args"][0]) == ex.evz(n["args"][1]))
    S.call_models["tsl::internal::GetReferenceableValue"] = lambda ex, n: ex.eval(n["args"][0])
    S.assumptions.add("the server confirms an item (its key in a response) only when the item is in its table")
    S.contract("Chunker::OnItemFinalized", abstract=True, modifies=[], ensures=lambda c: [])
    for g in ("GetMaxChunkLength", "GetNumKeepAliveRefs"): S.contract(f"ChunkerOptions::{g}", abstract=True, modifies=[], ensures=lambda c: [])
    S.contract("AllReady", static=True, abstract=True, modifies=[CELLS[1]], ensures=lambda c: [])
    def rsetup(ex, c):
        ex.role = "worker"; ex.me = c.thisref; ex.stream_ref = None; ex.kept = None
        def popped(m, ref, a, b):
            if m is not mon or ex.stream_ref is None or a is None: return
            P, Q = a.obj(ref, CLS).write_queue_, b.obj(ref, CLS).write_queue_; was = unpopped(ex.view(), ex.stream_ref); gone = simplify(Q.len < P.len)
            ex.obligation("an item leaves the queue once it was sent", Implies(gone, was), ex.line, "monitor"); put(ex, ex.stream_ref, "unpopped", MBool(), And(was, Not(gone)))
        ex.rel_hooks = (popped,)
        def waiting(why):
            if "Wait" in why: ex.obligation("the worker does not wait once the writer is closed", Not(ex.view().obj(ex.me, CLS).closed_), ex.line, "monitor")
        ex.wait_hook = waiting
    def send_call(ex, c):
        if getattr(ex, "stream_ref", None) is None: return
        o = ex.snap_rel.obj(ex.me, CLS); Q = o.write_queue_; v = ex.view()
        ex.obligation("the item sent is the front of the queue", And(Q.len > 0, c.arg(2).e == front(o)), ex.line, "pre")
        ex.obligation("an item is sent at most once", Not(unpopped(v, c.arg(0))), ex.line, "pre"); ex.obligation("the item is in flight or confirmed", Or(o.in_flight_items_.e[qkey(o, 0)], CONFIRMED(qkey(o, 0))), ex.line, "pre")
        el = Q._mt.el; y = X.wrap(v, el, Q.arr[j]).refs.arr[k]; Hb = held_by_server(ex.before_send, c.arg(0)); R = ex.request_before
        ex.obligation("chunks pending items still need are listed as to be kept", fa([j, k], Implies(And(1 <= j, j < Q.len, 0 <= k, k < X.wrap(v, el, Q.arr[j]).refs.len, Or(Hb[key(v, y)], R[key(v, y)])), c.arg(1).e[key(v, y)]), y), ex.line, "pre")
        put(ex, c.arg(0), "unpopped", MBool(), Or(unpopped(v, c.arg(0)), c.res))
    S.contracts[f"{CLS}::SendItem"][0].on_call = send_call
    def main(L):
        ex, v = L.ex, L.ex.view(); st = ex.stream_ref; T = L.local("streamed_chunk_keys").e; R = L.local("request")
        return J(ex, T, st, R, v) + [("every item sent has left the queue", Not(unpopped(v, st)))]
    def confirming(L):
        if L.ex.role != "reader": return []
        A, B = L.ex.snap_acq.obj(L.ex.me, CLS).in_flight_items_.e, L.ex.view().obj(L.ex.me, CLS).in_flight_items_.e
        return [("only confirmed items leave the set of items in flight", fa(k, Implies(A[k], Or(B[k], CONFIRMED(k))), B[k])), ("the reader adds nothing", fa(k, Implies(B[k], A[k]), B[k]))]
    S.contract(f"{CLS}::RunStreamWorker", may_abort=True, setup=rsetup, modifies=["in_flight_items_", "write_queue_", "context_", "data_cv_", CELLS[1], ("all", "OnStream.held"), ("all", "OnStream.unpopped"), ("all", "ArenaOwnedRequest.r"), ("alloc",)], loops={0: lambda L: [], 1: confirming, 2: main, 3: lambda L: []}, ensures=lambda c: [("a status", c.res >= 0)], on_call=lambda ex, c: setattr(ex, "snap_rel", None))
    def stopping(ex, c):
        ex.me = c.thisref; ex.role, ex.stream_ref = "constructor", None
    S.contract(f"{CLS}::{CLS}", may_abort=True, nparams=2, setup=stopping, loops={0: lambda L: []}, ensures=lambda c: [("no items yet", And(c.post.write_queue_.len == 0, Not(c.post.closed_)))])
