"""Contracts of the sampler: how many samples are requested and returned (C21)."""
from z3 import *
from vc.mtypes import *
from vc.specs import Monitor
from vc import sym as X, models as M
from contracts.lib import fa, same
k = Int("k")
I64 = MInt(64, True)
OK, CANCELLED, INVALID, DEADLINE, OUT_OF_RANGE, UNAVAILABLE = 0, 1, 3, 4, 11, 14
CLS, SM = "Sampler", "Sample"
QN = "internal::Queue"
INT64_MAX = 2 ** 63 - 1
def valid(o):
    """the documented ranges of the options"""
    return And(Or(o.max_samples == -1, o.max_samples >= 1), o.max_in_flight_samples_per_worker >= 1, Or(o.num_workers == -1, o.num_workers >= 1), Or(o.max_samples_per_stream == -1, o.max_samples_per_stream >= 1),
               o.rate_limiter_timeout >= 0, Or(o.flexible_batch_size == -1, o.flexible_batch_size >= 1))
def ended(ex, seq, i):
    """whether entry i of the sequence ends a sample"""
    return seq._mt.el.get(Select(seq.arr, i), "end_of_sequence")
def ENDS(seq, i): return Function("end_markers_before", seq.e.sort(), IntSort(), IntSort())(seq.e, i)
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    S.contract(f"{CLS}::Options::Validate", modifies=[], ensures=lambda c: [("exactly the documented combinations are accepted", (c.res == OK) == valid(c.pre)), ("others are invalid arguments", Or(c.res == OK, c.res == INVALID))])
    S.contract("GetNumWorkers", static=True, modifies=[], requires=lambda c: [("the options are valid", valid(c.arg(0)))], ensures=lambda c: [("there is a worker", c.res >= 1), ("not more workers than configured", Or(c.arg(0).num_workers == -1, c.res <= c.arg(0).num_workers)),
               ("no more workers than are needed to fetch all samples", Or(c.arg(0).max_samples == -1, c.res == 1, c.res * c.arg(0).max_in_flight_samples_per_worker <= c.arg(0).max_samples))])
    # what the lock guards
    F = ["requested_", "returned_", "worker_status_", "closed_"]
    def shape(o): return [("no more samples are requested than configured", And(0 <= o.requested_, o.requested_ <= o.max_samples_)), ("no more samples are returned than configured", And(0 <= o.returned_, o.returned_ <= o.max_samples_))]
    def config(o): return [("configured limits", And(o.max_samples_ >= 1, o.max_samples_per_stream_ >= 1))]
    def rely(ex, a, b): return [("closing is final", Implies(a.closed_, b.closed_)), ("returned samples stay returned", b.returned_ >= a.returned_), ("an error stays", Implies(a.worker_status_ != OK, b.worker_status_ == a.worker_status_)), ("a status is a status", b.worker_status_ >= 0)]
    S.monitor(Monitor(f"{CLS}.mu_", CLS, [f"{CLS}.{f}" for f in F], inv=lambda o: shape(o) + [("a status is a status", o.worker_status_ >= 0)], guarantee=lambda ex, a, b: rely(ex, a, b)[:3], rely=rely))
    S.ghost[f"{SM}.left"] = I64; S.ghost[f"{SM}.composed"] = MBool()
    for w in ("LocalSamplerWorker", "GrpcSamplerWorker"): S.ghost[f"{w}.pushed"] = I64; S.ghost[f"{w}.owed"] = I64
    S.assumptions.add("counting across functions: every sample in the queue was requested (requested_ counts delivered and outstanding samples), and each popped sample is counted as returned at most once, so a sample not yet counted implies returned_ < max_samples_")
    S.assumptions.add("the queue of samples behaves as proved for internal::Queue (C13); every sample in it holds at least one step; samples behave as proved in C20")
    left = lambda v, r: Select(v.harr(f"{SM}.left", I64), r)
    stopped = lambda o: Or(o.closed_, o.returned_ == o.max_samples_, o.worker_status_ != OK)
    # the queue between workers and readers
    def pop(ex, n):
        out = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0]))))
        if ex.choose(ex.fresh(BoolSort(), "popped")):
            r = ex.new_ref(); e = ex.fresh(IntSort(), "steps"); ex.assume(e >= 1); X.HeapLV(f"{SM}.left", r, I64).write(ex, X.Z(I64, e)); out.write(ex, X.Z(out.mt, r)); ex.popped = 1
            return X.Z(MBool(), BoolVal(True))
        ex.popped = 0; ex.acq_hooks = list(ex.acq_hooks) + [stopped]; return X.Z(MBool(), BoolVal(False))
    def close(ex, n):
        v = ex.view() if ex.held else ex.snap_rel
        ex.obligation("the queue is closed only with the sampler, after its last sample or after an error", stopped(v.obj(ex.sampler, CLS)) if v is not None else BoolVal(False), ex.line, "pre"); ex.closes += 1; return None
    def push(ex, n):
        v = ex.rv(ex.eval(n["args"][0])); ex.obligation("a sample is pushed", ex.z(v) != 0, ex.line, "pre")
        if not ex.choose(ex.fresh(BoolSort(), "accepted")): return X.Z(MBool(), BoolVal(False))
        lv = X.HeapLV(f"{ex.me_cls}.pushed", ex.me, I64); lv.write(ex, X.Z(I64, lv.read(ex).e + 1))
        if ex.me_cls.startswith("Grpc"): lv = X.HeapLV(f"{ex.me_cls}.owed", ex.me, I64); lv.write(ex, X.Z(I64, lv.read(ex).e - 1))
        return X.Z(MBool(), BoolVal(True))
    def some(ex, n):
        v = ex.fresh(IntSort(), "waiting"); ex.assume(v >= 0); return X.Z(MInt(32, True), v)
    Q = "deepmind::reverb::internal::Queue::"
    S.call_models.update({Q + "Pop": pop, Q + "Close": close, Q + "Push": push, Q + "num_waiting_to_pop": some})
    def setup(ex, c): ex.sampler = c.thisref; ex.me, ex.me_cls = c.thisref, c.cls if hasattr(c, "cls") else None; ex.closes, ex.popped, ex.fetch, ex.acq_hooks = 0, None, None, []
    # samples
    S.contract(f"{SM}::is_end_of_sample", modifies=[], ensures=lambda c: [("no steps left", c.res == (left(c.V0, c.thisref) == 0))])
    S.contract(f"{SM}::is_composed_of_timesteps", modifies=[], ensures=lambda c: [("composed", c.res == c.pre.composed)])
    S.contract(f"{SM}::GetNextTimestep", requires=lambda c: [("steps are left", left(c.V0, c.thisref) >= 1), ("the columns have equally many rows", c.pre.composed)], modifies=["left"], ensures=lambda c: [("one step is read", left(c.V1, c.thisref) == left(c.V0, c.thisref) - 1)])
    S.contract(f"{SM}::rate_limited", modifies=[], ensures=lambda c: [])
    for f in ("AsBatchedTimesteps", "AsTrajectory"): S.contract(f"{SM}::{f}", modifies=[("arg", 0)], ensures=lambda c: [("a status", c.res >= 0)])
    S.contract(f"{CLS}::ValidateAgainstOutputSpec", modifies=[], ensures=lambda c: [("a status", c.res >= 0)])
    # readers
    S.contract(f"{CLS}::should_stop_workers", modifies=[], ensures=lambda c: [("workers stop after closing, after the last sample and after an error", c.res == stopped(c.pre))])
    def got(c, out): return ("a sample is handed out on success", Implies(c.res == OK, And(out > 0, left(c.V1, out) >= 1)))
    def uncounted(ex, c): ex.acq_hooks = list(ex.acq_hooks) + [lambda o, r=c.res: Implies(r == OK, o.returned_ < o.max_samples_)]
    def pop_post(c):
        out = c.ptrpost(0); out0 = c.ptr(0) if impl(c) else c.arg(0)
        base = [("a status", c.res >= 0), got(c, out), ("without a sample the result stays", Implies(c.res != OK, out == out0)), ("it is a new sample", Implies(c.res == OK, out >= c.V0.alloc))]
        if not impl(c): return base
        if c.ex.popped: return base + [("a sample from the queue is a success", c.res == OK)]
        a = c.ex.snap_acq.obj(c.thisref, CLS) if c.ex.snap_acq is not None else None
        return base + ([("after the last sample the end is reported", BoolVal(False))] if a is None else [("after the last sample the end is reported", Implies(a.returned_ == a.max_samples_, c.res == OUT_OF_RANGE)),
            ("a closed sampler reports that it was closed", Implies(And(a.returned_ != a.max_samples_, a.closed_), c.res == CANCELLED)), ("an error of a worker is reported to the reader", Implies(And(a.returned_ != a.max_samples_, Not(a.closed_)), c.res == a.worker_status_)), ("a read without a sample is no success", c.res != OK)])
    S.contract(f"{CLS}::PopNextSample", nonnull=(0,), setup=setup, modifies=[("arg", 0), ("alloc",)], ensures=pop_post, on_call=uncounted)
    def active(o): return [("the sample being read", Or(o.active_sample_ == 0, And(o.active_sample_ > 0, left(o._view, o.active_sample_) >= 0)))]
    def maybe_post(c):
        a = c.pre.active_sample_; more = And(a != 0, left(c.V0, a) > 0)
        return [("a status", c.res >= 0), got(c, c.post.active_sample_), ("a sample with steps left is read on", Implies(more, And(c.res == OK, c.post.active_sample_ == a))), ("otherwise the next sample is read", Implies(And(Not(more), c.res == OK), c.post.active_sample_ >= c.V0.alloc)), ("without a sample the result stays", Implies(c.res != OK, c.post.active_sample_ == a))]
    S.contract(f"{CLS}::MaybeSampleNext", setup=setup, requires=lambda c: active(c.pre), modifies=["active_sample_", ("alloc",)], ensures=maybe_post, on_call=uncounted)
    def counted(c, when):
        ex = c.ex; locked = ex.snap_acq is not None
        if not locked: return [("a sample is counted as returned exactly when it was read completely", Implies(c.res == OK, Not(when))), ("nothing is closed", BoolVal(ex.closes == 0))]
        a, r = ex.snap_acq.obj(c.thisref, CLS), ex.snap_rel.obj(c.thisref, CLS)
        return [("a sample is counted as returned exactly when it was read completely", And(c.res == OK, when, r.returned_ == a.returned_ + 1)), ("reading requests nothing and reports no errors", same(a, r, "requested_", "worker_status_", "closed_")), ("the queue is closed with the last sample", BoolVal(ex.closes >= 1) == (r.returned_ == r.max_samples_))]
    def step_post(c):
        end = left(c.V1, c.post.active_sample_) == 0; ptr = c.args[1].e
        return active(c.post) + counted(c, end) + [("the end of the sample is reported with its last step", Implies(And(c.res == OK, ptr != 0), c.ptrpost(1) == end))]
    out = lambda c, *ix: [("arg", 0), ("alloc",), "active_sample_", ("all", f"{SM}.left")] + [("arg", x) for x in ix]
    S.contract(f"{CLS}::GetNextTimestep", nparams=3, nonnull=(0,), setup=setup, requires=lambda c: config(c.pre) + active(c.pre) + [("separate results", Or(c.args[1].e == 0, c.args[1].e != c.args[2].e))], modifies=lambda c: out(c, 1, 2), ensures=step_post)
    for f in ("GetNextSample", "GetNextTrajectory"):
        S.contract(f"{CLS}::{f}", nparams=2, nonnull=(0,), setup=setup, requires=lambda c: config(c.pre), modifies=lambda c: [("arg", 0), ("arg", 1), ("alloc",), ("all", f"{SM}.left")], ensures=lambda c: counted(c, BoolVal(True)))
    # workers
    W = "SamplerWorker"
    def fetch_pre(c):
        ex = c.ex; a, r = ex.snap_acq.obj(ex.sampler, CLS), ex.snap_rel.obj(ex.sampler, CLS); n = c.arg(1)
        return [("at least one sample is fetched, not more than the limit per stream", And(1 <= n, n <= r.max_samples_per_stream_)), ("the samples to fetch were added to the requested ones", r.requested_ - a.requested_ == n), ("returned samples, status and closing stay", same(a, r, "returned_", "worker_status_", "closed_"))]
    def fetched(ex, c): ex.fetch = (c.arg(1), c.res.first, c.res.second)
    S.contract(f"{W}::FetchSamples", requires=fetch_pre, modifies=[("alloc",), ("all", f"{SM}.left")], ensures=lambda c: [("not more samples are delivered than requested", And(0 <= c.res.first, c.res.first <= c.arg(1))), ("a status", c.res.second >= 0)], on_call=fetched)
    S.contract(f"{W}::Cancel", modifies=[], ensures=lambda c: [])
    def settled(ex, this, done):
        n, k, st = ex.fetch; a, r = ex.snap_acq.obj(this, CLS), ex.snap_rel.obj(this, CLS); real = And(a.worker_status_ == OK, st != OK, st != UNAVAILABLE)
        return [("samples that were not delivered are requested again", r.requested_ == a.requested_ - (n - k)), ("the first error of a worker is kept, an unavailable server is retried", r.worker_status_ == If(real, st, a.worker_status_)), ("returned samples and closing stay", same(a, r, "returned_", "closed_")),
                ("an error ends the worker and wakes the readers", And(real, BoolVal(ex.closes == 1)) if done else And(Not(real), BoolVal(ex.closes == 0)))]
    def run_post(c):
        ex = c.ex
        if ex.fetch is not None: return settled(ex, c.thisref, True)
        a, r = ex.snap_acq.obj(c.thisref, CLS), ex.snap_rel.obj(c.thisref, CLS)
        return [("a worker ends only when the sampler stops", stopped(a)), ("ending changes nothing", And(same(a, r, *F), BoolVal(ex.closes == 0)))]
    def run_loop(L): return config(L.this)
    run_loop.step = lambda L: settled(L.ex, L.this.ref, False) if L.ex.fetch is not None else [("every turn fetches samples", BoolVal(False))]
    S.assumptions.add("of the time between reserving and settling, another worker's samples are not touched: requested_ is at least the reservation when it is settled")
    def run_setup(ex, c):
        setup(ex, c); ex.acq_hooks = [lambda o: Implies(BoolVal(ex.fetch is not None), o.requested_ >= ex.fetch[0] - ex.fetch[1] if ex.fetch is not None else BoolVal(True))]
    S.contract(f"{CLS}::RunWorker", nparams=1, nonnull=(0,), setup=run_setup, requires=lambda c: config(c.pre), modifies=[("alloc",), ("all", f"{SM}.left")], loops={0: run_loop}, ensures=run_post)
    def close_post(c):
        a, r = c.ex.snap_acq.obj(c.thisref, CLS), c.ex.snap_rel.obj(c.thisref, CLS)
        return [("the sampler is closed", r.closed_), ("nothing else changes", same(a, r, "requested_", "returned_", "worker_status_")), ("readers are woken by the first close", BoolVal(c.ex.closes == 1) == Not(a.closed_))]
    S.contract(f"{CLS}::Close", setup=setup, modifies=["worker_threads_"], requires=lambda c: [("workers exist", fa(k, Implies(And(0 <= k, k < c.pre.workers_.len), c.pre.workers_.arr[k] > 0), c.pre.workers_.arr[k]))], loops={0: lambda L: []}, ensures=close_post)
    S.contract("internal::StartThread", static=True, modifies=[("alloc",)], ensures=lambda c: [("a thread", c.res > 0)])
    def ctor_post(c):
        o, p = c.post, c.arg(2)
        return shape(o) + config(o) + [("nothing is requested or returned yet", And(o.requested_ == 0, o.returned_ == 0, o.worker_status_ == OK, Not(o.closed_), o.active_sample_ == 0)), ("the limit is the configured one", o.max_samples_ == If(p.max_samples == -1, INT64_MAX, p.max_samples)),
                ("the limit per stream is the configured one", o.max_samples_per_stream_ == If(p.max_samples_per_stream == -1, 10000, p.max_samples_per_stream)), ("the timeout is the configured one", o.rate_limiter_timeout_ == p.rate_limiter_timeout), ("one thread per worker", o.worker_threads_.len == o.workers_.len)]
    S.contract(f"{CLS}::{CLS}", nparams=4, sig="SamplerWorker", setup=setup, requires=lambda c: [("the options are valid", valid(c.arg(2)))], ensures=ctor_post, loops={0: lambda L: [("threads so far", And(L.this.worker_threads_.len == L.local("i"), 0 <= L.local("i"), L.local("i") <= L.this.workers_.len))]})
    # a worker reading from a table in this process
    S.contract("AsSample", static=True, sig="vector", tag="streamed", requires=lambda c: [("a sample consists of the entries up to the next end marker", And(c.arg(0).len >= 1, ended(c.ex, c.arg(0), c.arg(0).len - 1), fa(k, Implies(And(0 <= k, k < c.arg(0).len - 1), Not(ended(c.ex, c.arg(0), k))), c.arg(0).arr[k])))],
               modifies=[("arg", 1), ("alloc",)], ensures=lambda c: [("a sample or an error", And(c.res >= 0, Implies(c.res == OK, c.ptrpost(1) > 0)))])
    S.contract("AsSample", static=True, modifies=[("arg", 1), ("alloc",)], ensures=lambda c: [("a sample or an error", And(c.res >= 0, Implies(c.res == OK, c.ptrpost(1) > 0)))])
    def batch_pre(c):
        ex = c.ex; o = c.V0.obj(ex.me, ex.me_cls); n = ex.todo - (o.pushed - ex.pushed0)
        return [("not more samples are requested than are missing", And(1 <= c.arg(1), c.arg(1) <= n))]
    S.contract("Table::SampleFlexibleBatch", requires=batch_pre, modifies=[("arg", 0), ("alloc",)], ensures=lambda c: [("a status", c.res >= 0), ("a success yields one to the requested number of samples", Implies(c.res == OK, And(1 <= c.ptrpost(0).len, c.ptrpost(0).len <= c.arg(1))))])
    S.assumptions.add("Table::SampleFlexibleBatch returns between one and the requested number of samples on success (proved in C05); AsSample yields a sample on success")
    def wsetup(ex, c): setup(ex, c); ex.todo = c.arg(1); ex.pushed0 = c.pre.pushed
    def fetch_post(c):
        o = c.post.pushed - c.pre.pushed; n = c.arg(1)
        return [("not more samples are delivered than requested", And(0 <= c.res.first, c.res.first <= n, 0 <= o, o <= n)), ("the number of delivered samples is reported", Or(c.res.first == o, And(c.res.second == CANCELLED, c.res.first == 0))), ("success means that all were delivered", Implies(c.res.second == OK, c.res.first == n)), ("a status", c.res.second >= 0)]
    def n_of(L): return L.local("num_samples_returned")
    def loc0(L): return [("samples so far", And(n_of(L) == L.this.pushed - L.ex.pushed0, 0 <= n_of(L), n_of(L) <= L.ex.todo))]
    def loc1(L): return [("samples so far", And(n_of(L) == L.this.pushed - L.ex.pushed0, L.i <= n_of(L), n_of(L) - L.i + L.local("items").len <= L.ex.todo))]
    S.contract("LocalSamplerWorker::FetchSamples", nparams=3, nonnull=(0,), setup=wsetup, requires=lambda c: [("samples to fetch", c.arg(1) >= 1), ("batch size", c.pre.flexible_batch_size_ >= 1), ("the table exists", c.pre.table_ > 0)], modifies=["pushed", ("alloc",)], loops={0: loc0, 1: loc1}, ensures=fetch_post)

    # a worker reading from a server
    G = "grpc::internal::"
    def write(ex, n):
        r = M.norm_lv(ex, ex.eval(n["args"][0])).read(ex); mt = r.mt; get = lambda f: mt.get(ex.z(r), f); o = ex.view().obj(ex.me, ex.me_cls)
        ex.obligation("not more samples are requested than are missing", And(1 <= get("num_samples"), get("num_samples") <= ex.todo - (o.pushed - ex.pushed0)), ex.line, "pre")
        ex.obligation("not more samples are requested at a time than configured", get("num_samples") <= o.samples_per_request_, ex.line, "pre")
        ex.obligation("the request names the table and the batch size", And(get("table") == o.table_name_.e if hasattr(o.table_name_, "e") else get("table") == o.table_name_, get("flexible_batch_size") == o.flexible_batch_size_), ex.line, "pre")
        ex.obligation("a request is written when the previous one was answered", o.owed == 0, ex.line, "pre")
        if not ex.choose(ex.fresh(BoolSort(), "written")): return X.Z(MBool(), BoolVal(False))
        X.HeapLV(f"{ex.me_cls}.owed", ex.me, I64).write(ex, X.Z(I64, get("num_samples"))); return X.Z(MBool(), BoolVal(True))
    def read(ex, n):
        if not ex.choose(ex.fresh(BoolSort(), "received")): return X.Z(MBool(), BoolVal(False))
        lv = M.norm_lv(ex, ex.deref(ex.rv(ex.eval(n["args"][0])))); lv.write(ex, ex.fresh_val(lv.mt, "response"))
        v = X.wrap(ex.view(), lv.mt.ft("entries"), lv.mt.get(ex.z(lv.read(ex)), "entries")); ex.assume(v.len >= 0); o = ex.view().obj(ex.me, ex.me_cls)
        ex.assume(fa(k, Implies(And(0 <= k, k <= v.len), And(0 <= ENDS(v, k), ENDS(v, k) <= o.owed)), ENDS(v, k))); ex.assume(ENDS(v, IntVal(0)) == 0); ex.owed0 = o.owed; return X.Z(MBool(), BoolVal(True))
    def finish(ex, n): return ex.fresh_val(ex.mt(ex.ty(n["t"])), "final")
    def opened(ex, n): r = ex.new_ref(); X.HeapLV(f"{ex.me_cls}.owed", ex.me, I64).write(ex, X.Z(I64, IntVal(0))); return X.Z(ex.mt(ex.ty(n["t"])), r)
    def status(ex, n):
        for a in n["args"]: ex.eval(a)
        v = ex.fresh(IntSort(), "status"); ex.assume(v >= 0); return X.Z(MStatus(), v)
    S.call_models.update({G + "WriterInterface::Write": write, G + "ReaderInterface::Read": read, G + "ClientStreamingInterface::Finish": finish, "deepmind::reverb::FromGrpcStatus": status,
                          "deepmind::reverb::ReverbService::StubInterface::SampleStream": opened, "grpc::ClientContext::set_wait_for_ready": lambda ex, n: None})
    S.contract("NonnegativeDurationToInt64Millis", static=True, modifies=[], ensures=lambda c: [])
    S.contract("errors::IsRateLimiterTimeout", static=True, modifies=[], ensures=lambda c: [])
    S.assumptions.add("a server answers a request with at most the requested number of samples (what C23 claims of this server); gRPC delivers messages unchanged")
    def base(L): return [("samples so far", And(n_of(L) == L.this.pushed - L.ex.pushed0, 0 <= n_of(L), n_of(L) <= L.ex.todo))]
    def unended(L):
        p = L.local("parts_of_next_sample"); return [("the parts of the next sample were not ended yet", And(p.len >= 0, fa(k, Implies(And(0 <= k, k < p.len), Not(ended(L.ex, p, k))), p.arr[k])))]
    def open_(L):
        r = L.local("request"); r = r._mt.get(r.e, "num_samples"); return [("samples the server still owes", And(L.this.owed == r - L.local("sampled"), L.this.owed >= 0, L.this.owed <= L.ex.todo - n_of(L)))]
    def entries(L):
        e = L.seq; ex = L.ex
        for x in (L.i, L.i - 1): ex.assume_once(Implies(And(0 <= x, x < e.len), ENDS(e, x + 1) == ENDS(e, x) + If(ended(ex, e, x), 1, 0)))
        return base(L) + open_(L) + unended(L) + [("one sample per end marker", L.this.owed == ex.owed0 - ENDS(e, L.i))]
    S.contract("GrpcSamplerWorker::FetchSamples", nparams=3, nonnull=(0,), setup=wsetup, requires=lambda c: [("samples to fetch", c.arg(1) >= 1), ("samples per request", c.pre.samples_per_request_ >= 1), ("a stub", c.pre.stub_ > 0)], modifies=["pushed", "owed", "context_", ("alloc",)],
               loops={0: lambda L: base(L) + [("the last request was answered", L.this.owed == 0)], 1: lambda L: base(L) + open_(L) + unended(L), 2: entries},
               ensures=lambda c: [("not more samples are delivered than requested", And(0 <= c.res.first, c.res.first <= c.arg(1))), ("the number of delivered samples is reported", c.res.first == c.post.pushed - c.pre.pushed), ("a status", c.res.second >= 0)])

    # options are validated before a sampler is made; batch sizes of its workers
    for np in (3, 4):
        if np == 3: S.contract(f"{CLS}::{CLS}", nparams=3, abstract=True, requires=lambda c: [("the options are valid", valid(c.arg(1)))], ensures=lambda c: [])
    S.contract(f"{CLS}::{CLS}", nparams=4, sig="StubInterface", abstract=True, tag="grpc", make=True, requires=lambda c: [("the options are valid", valid(c.arg(2)))], ensures=lambda c: [])
    S.contract("Client::GetLocalTablePtr", modifies=[("arg", 1), ("alloc",)], ensures=lambda c: [("a status", c.res >= 0), ("a table on success", Implies(c.res == OK, c.ptrpost(1) > 0))])
    S.contract("Client::NewSampler", nparams=4, sig="std::optional", nonnull=(3,), modifies=[("arg", 3), ("alloc",)], ensures=lambda c: [("a sampler is made only with valid options", (c.res == OK) == valid(c.arg(1))), ("options outside their ranges are rejected", Or(c.res == OK, c.res == INVALID)), ("a sampler on success", Implies(c.res == OK, c.ptrpost(3) > 0))])
    def made(cls, f):
        def post(c):
            r = c.res; v = c.V1; o = lambda i: v.obj(r.arr[i], cls)
            return [("there are workers, not more than configured", And(r.len >= 1, Or(c.args[-1] is None, c.arg(OPT[cls]).num_workers == -1, r.len <= c.arg(OPT[cls]).num_workers))),
                    ("no worker asks for more than the configured number of samples at a time", fa(k, Implies(And(0 <= k, k < r.len), And(r.arr[k] > 0, 1 <= getattr(o(k), f), getattr(o(k), f) <= c.arg(OPT[cls]).max_in_flight_samples_per_worker)), r.arr[k]))]
        return post
    OPT = {"LocalSamplerWorker": 1, "GrpcSamplerWorker": 2}
    S.contract("Table::DefaultFlexibleBatchSize", modifies=[], ensures=lambda c: [("at least one", c.res >= 1)])
    def mk_loop(cls, f):
        def inv(L):
            w = L.local("workers"); i = L.local("i"); m = L.fctx.arg(OPT[cls]).max_in_flight_samples_per_worker; o = lambda x: L.cur.obj(w.arr[x], cls)
            return [("workers so far", And(0 <= i, w.len == i, i <= L.local("num_workers"))), ("their batches", fa(k, Implies(And(0 <= k, k < w.len), And(w.arr[k] > 0, 1 <= getattr(o(k), f), getattr(o(k), f) <= m)), w.arr[k]))]
        return inv
    for fnm, cls, f in (("MakeLocalWorkers", "LocalSamplerWorker", "flexible_batch_size_"), ("MakeGrpcWorkers", "GrpcSamplerWorker", "samples_per_request_")):
        S.contract(fnm, static=True, modifies=[("alloc",)], requires=lambda c, cls=cls: [("the options are valid", valid(c.arg(OPT[cls])))] + ([("a table", c.arg(0) > 0)] if cls[0] == "L" else []), loops={0: mk_loop(cls, f)}, ensures=made(cls, f))
