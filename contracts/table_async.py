"""Contracts of the asynchronous entry points of the table (C26)."""
from z3 import *
from vc.mtypes import *
from vc.specs import Monitor
from contracts.lib import fa, eqv
from vc.models import TINF
OK, INVALID = 0, 3
CLS = "Table"
i, j = Ints("i j")
KRUNNING = 0
def register(S):
    own = ["pending_inserts_", "pending_sampling_", "deleted_items_", "notify_inserts_ok_", "worker_state_", "stop_worker_", "wakeup_worker_"]
    S.monitor(Monitor(f"{CLS}.worker_mu_", CLS, [f"{CLS}.{f}" for f in own], inv=lambda o: []))
    acq = lambda c: c.ex.snap_acq.obj(c.thisref, CLS)
    locked = lambda c: c.ex.snap_acq is not None
    def appended(a, p, f):
        q0, q1 = getattr(a, f), getattr(p, f)
        return [(f"one entry is added to {f}", q1.len == q0.len + 1), (f"earlier entries of {f} keep their places", fa(i, Implies(And(0 <= i, i < q0.len), q1.arr[i] == q0.arr[i]), q1.arr[i]))]
    def freed(a, p):
        n0, n1 = a.deleted_items_.len, p.deleted_items_.len
        return [("at most one deleted item is taken over", n1 == If(n0 > 0, n0 - 1, 0))]
    def awake(c, a): return [("a worker that is not running is woken", Implies(a.worker_state_ != KRUNNING, c.post.wakeup_worker_ >= 1))]
    # ---------------------------------------------------------------- sample requests
    def enq_post(c):
        a, p = acq(c), c.post; q = p.pending_sampling_; r = q.arr[a.pending_sampling_.len]; o = c.V1.obj(r, "Table::SampleRequest")
        res = c.ex.reserved
        return appended(a, p, "pending_sampling_") + freed(a, p) + awake(c, a) + [
            ("a new request is queued", And(r > 0, r >= c.V0.alloc)), ("nothing has been sampled for the request yet", o.samples.len == 0),
            ("the request carries the caller's callback", o.on_batch_done == c.arg(1)), ("the request has not failed", o.status == OK),
            ("the request asks for the number of samples the caller asked for", res[-1][1] == c.arg(0) if res else BoolVal(False)),
            ("the deadline of the request lies the timeout after now", If(c.arg(2) >= TINF, o.deadline >= TINF, Implies(c.arg(2) > -TINF, Or(And(o.deadline - c.arg(2) >= c.ex.now0, o.deadline - c.arg(2) <= c.ex.now), And(o.deadline >= TINF, c.arg(2) + c.ex.now >= TINF))))),
            ("queued inserts stay", p.pending_inserts_.e == a.pending_inserts_.e), ("writers to notify stay", p.notify_inserts_ok_.e == a.notify_inserts_ok_.e)]
    S.contract(f"{CLS}::EnqueSampleRequest", requires=lambda c: [("the table has a worker", c.pre.table_worker_ != 0), ("the number of samples is not negative", c.arg(0) >= 0)], modifies=[("alloc",), "wakeup_worker_"], ensures=enq_post)
    # ---------------------------------------------------------------- inserts
    def ins_post(c):
        if not locked(c): return [("without queueing an item is only rejected", c.res == INVALID)]
        a, p = acq(c), c.post; q = p.pending_inserts_; r = q.arr[a.pending_inserts_.len]; it = c.arg(0)
        v = c.V1; n0, n1 = a.notify_inserts_ok_, p.notify_inserts_ok_
        full = q.len >= p.max_enqueued_inserts_
        IT = "TableItem"; ch = Select(v.harr(f"{IT}.chunks", c.ex.field_mt(IT, "chunks")), r); SQ = c.ex.field_mt(IT, "chunks")
        return appended(a, p, "pending_inserts_") + freed(a, p) + awake(c, a) + [
            ("queueing succeeds", c.res == OK), ("a copy of the item is queued", And(r >= c.V0.alloc, Select(v.harr(f"{IT}.item", c.ex.field_mt(IT, "item")), r) == it.item.e, SQ.len(ch) == it.chunks.len, fa(i, Implies(And(0 <= i, i < it.chunks.len), SQ.arr(ch)[i] == it.chunks.arr[i]), SQ.arr(ch)[i]))),
            ("the writer is told whether the queue has room for more", c.ptrpost(1) == Not(full)),
            ("a writer told to wait is registered to be notified exactly once", And(n1.len == n0.len + If(full, 1, 0), Implies(full, n1.arr[n0.len] == c.arg(2)))),
            ("other writers stay registered", fa(i, Implies(And(0 <= i, i < n0.len), n1.arr[i] == n0.arr[i]), n1.arr[i])),
            ("queued sample requests stay", p.pending_sampling_.e == a.pending_sampling_.e)]
    S.contract(f"{CLS}::InsertOrAssignAsync", nonnull=(1,), requires=lambda c: [("the queue holds at least one insert", c.pre.max_enqueued_inserts_ >= 1), ("the chunks of the new item exist", fa(i, Implies(And(0 <= i, i < c.arg(0).chunks.len), c.arg(0).chunks.arr[i] > 0), c.arg(0).chunks.arr[i]))],
        modifies=[("arg", 1), ("alloc",), "wakeup_worker_"], ensures=ins_post)
    # ---------------------------------------------------------------- expired requests
    def exp_inv(L):
        c = L.fctx; n = L.i; q0, q1 = c.ptr(1), c.ptrpost(1); t0, t1 = c.ptr(2), c.ptrpost(2); dl = c.arg(0)
        H = L.cur.harr("Table::SampleRequest.deadline", L.ex.field_mt("Table::SampleRequest", "deadline"))
        past = lambda r: And(r != 0, H[r] <= dl)
        nx0, nx1 = c.ptr(3), c.ptrpost(3)
        return [("requests seen so far: expired ones are taken out, others stay", fa(i, Implies(And(0 <= i, i < q1.len), q1.arr[i] == If(And(i < n, past(q0.arr[i])), 0, q0.arr[i])), q1.arr[i])), ("number of requests", q1.len == q0.len),
                ("only expired requests are terminated", And(t1.len >= t0.len, fa(i, Implies(And(0 <= i, i < t1.len), If(i < t0.len, t1.arr[i] == t0.arr[i], past(t1.arr[i]))), t1.arr[i]))),
                ("the next deadline is the earliest one left", And(nx1 <= nx0, fa(i, Implies(And(0 <= i, i < n, q1.arr[i] != 0), nx1 <= H[q1.arr[i]]), q1.arr[i])))]
    def exp_step(L):
        c = L.fctx; n = L.step_i; t1 = c.ptrpost(2); mt = t1._mt; b = type(t1)(L.prev, mt, L.prev.harr("obj." + mt.name, mt)[c.args[2].e]); q0 = c.ptr(1); dl = c.arg(0)
        H = L.cur.harr("Table::SampleRequest.deadline", L.ex.field_mt("Table::SampleRequest", "deadline")); r = q0.arr[n]; past = And(r != 0, H[r] <= dl)
        return [("an expired request is terminated exactly once, in order", And(t1.len == b.len + If(past, 1, 0), Implies(past, t1.arr[b.len] == r), fa(i, Implies(And(0 <= i, i < b.len), t1.arr[i] == b.arr[i]), t1.arr[i])))]
    exp_inv.step = exp_step
    def exp_post(c):
        H = c.V1.harr("Table::SampleRequest.deadline", c.ex.field_mt("Table::SampleRequest", "deadline")); q0, q1 = c.ptr(1), c.ptrpost(1)
        return [("no expired request is left and no other request is lost", And(q1.len == q0.len, fa(i, Implies(And(0 <= i, i < q1.len), q1.arr[i] == If(And(q0.arr[i] != 0, H[q0.arr[i]] <= c.arg(0)), 0, q0.arr[i])), q1.arr[i]))),
                ("the next deadline does not lie after any remaining one", fa(i, Implies(And(0 <= i, i < q1.len, q1.arr[i] != 0), c.ptrpost(3) <= H[q1.arr[i]]), q1.arr[i]))]
    S.contract("GetExpiredRequests", static=True, nonnull=(1, 2, 3), requires=lambda c: [("requests and terminated requests are different lists", c.args[1].e != c.args[2].e)], modifies=[("arg", 1), ("arg", 2), ("arg", 3)], loops={0: exp_inv}, ensures=exp_post)
