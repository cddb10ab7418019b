"""Contracts of the rate limiter (C01 admission, C02 waiting, cancellation and wake ups)."""
from z3 import *
from vc.specs import Monitor
from vc.mtypes import card
OK, CANCELLED, DEADLINE = 0, 1, 4
CLS = "RateLimiter"
INT64 = 1 << 63

# Specification functions, written from the property statement.
def can_sample(o, n=1):
    return And(o.inserts_ - o.deletes_ >= o.min_size_to_sample_,
               ToReal(o.inserts_) * o.samples_per_insert_ - ToReal(o.samples_) - ToReal(n if isinstance(n, ExprRef) else IntVal(n)) >= o.min_diff_)
def can_insert(o, n=1):
    n = n if isinstance(n, ExprRef) else IntVal(n)
    return Or(o.inserts_ + n - o.deletes_ <= o.min_size_to_sample_,
              ToReal(o.inserts_ + n) * o.samples_per_insert_ - ToReal(o.samples_) <= o.max_diff_)
COUNTERS = ["inserts_", "samples_", "deletes_"]
CVS = ["can_insert_cv_", "can_sample_cv_"]
STATS = ["insert_stats_", "sample_stats_"]
CONFIG = ["samples_per_insert_", "min_diff_", "max_diff_", "min_size_to_sample_"]

def signals(o):
    return [("waiting inserts are woken when the new state admits an insert", Implies(can_insert(o), o.can_insert_cv_ >= 1)),
            ("waiting samples are woken when the new state admits a sample", Implies(can_sample(o), o.can_sample_cv_ >= 1))]

def register(S):
    def inv(o):
        yield "minimum size is positive", o.min_size_to_sample_ > 0
        yield "event buffers are not empty", And(o.insert_stats_.events_.len > 0, o.sample_stats_.events_.len > 0)
    S.invariant(CLS, inv)
    flds = [f"{CLS}.{f}" for f in COUNTERS + ["cancelled_"] + CVS + STATS]
    def mon_inv(o):
        return [("event buffers are not empty", And(o.insert_stats_.events_.len > 0, o.sample_stats_.events_.len > 0))]
    mon = Monitor("Table.mu_::RateLimiter", CLS, flds, inv=mon_inv)
    def held(ex, ctx):
        ex.held.append((mon, ctx.thisref)); ex.snap_acq = ex.view()
        ex.acq_count = 0
    def acq(c): return c.ex.snap_acq.obj(c.thisref, CLS) if getattr(c, "is_impl", False) else c.pre     # callers: pre is the state after the lock was last reacquired
    def same(a, b, fs=COUNTERS + ["cancelled_"]): return And(*[getattr(a, f) == getattr(b, f) for f in fs])
    M = CVS
    S.contract(f"{CLS}::CanSample", inv=True, modifies=[], requires=lambda c: [("number of samples is positive", c.arg(1) >= 1)],
        ensures=lambda c: [("a sample is admitted iff the size and cursor conditions hold", c.res == can_sample(c.pre, c.arg(1)))])
    S.contract(f"{CLS}::CanInsert", inv=True, modifies=[], requires=lambda c: [("number of inserts is positive", c.arg(1) >= 1)],
        ensures=lambda c: [("an insert is admitted iff the size or cursor condition holds", c.res == can_insert(c.pre, c.arg(1)))])
    S.contract(f"{CLS}::MaybeSignalCondVars", inv=True, modifies=M, ensures=lambda c: signals(c.post) + [
        ("signals are never withdrawn", And(c.post.can_insert_cv_ >= c.pre.can_insert_cv_, c.post.can_sample_cv_ >= c.pre.can_sample_cv_))])
    def counter(name, f):
        S.contract(f"{CLS}::{name}", inv=True, modifies=COUNTERS + M, ensures=lambda c: f(c) + signals(c.post))
    counter("Insert", lambda c: [("exactly one insert is counted", And(c.post.inserts_ == c.pre.inserts_ + 1, c.post.samples_ == c.pre.samples_, c.post.deletes_ == c.pre.deletes_))])
    counter("Delete", lambda c: [("exactly one deletion is counted", And(c.post.deletes_ == c.pre.deletes_ + 1, c.post.samples_ == c.pre.samples_, c.post.inserts_ == c.pre.inserts_))])
    counter("Reset", lambda c: [("all counters restart at zero", And(c.post.inserts_ == 0, c.post.samples_ == 0, c.post.deletes_ == 0))])
    S.contract(f"{CLS}::Cancel", inv=True, modifies=["cancelled_"] + M, ensures=lambda c: [
        ("the limiter is cancelled", c.post.cancelled_),
        ("every waiting insert is woken", c.post.can_insert_cv_ == 2), ("every waiting sample is woken", c.post.can_sample_cv_ == 2)])
    S.contract(f"{CLS}::CheckIfCancelled", inv=True, modifies=[], ensures=lambda c: [
        ("the status reports cancellation", c.res == If(c.pre.cancelled_, IntVal(CANCELLED), IntVal(OK)))])
    S.contract(f"{CLS}::CreateInstantInsertEvent", inv=True, modifies=["insert_stats_"], ensures=lambda c: [
        ("the event is completed", c.post.insert_stats_.completed_ == c.pre.insert_stats_.completed_ + 1)])
    S.contract(f"{CLS}::MaybeCommitSample", inv=True, modifies=["samples_", "sample_stats_"] + M, ensures=lambda c: [
        ("a sample is committed iff it is admitted", c.res == can_sample(c.pre)),
        ("exactly one sample is counted iff committed", c.post.samples_ == c.pre.samples_ + If(c.res, 1, 0)),
    ] + [(l, Implies(c.res, f)) for l, f in signals(c.post)])
    # Blocking calls.  acq(c) is the state at the last time the lock was
    # (re)acquired, i.e. the state the decision was made in.
    def await_common(c, counted, admitted):
        a = acq(c)
        out = [("the status is OK, Cancelled or DeadlineExceeded", Or(c.res == OK, c.res == CANCELLED, c.res == DEADLINE)),
               ("a cancelled limiter never admits", Implies(c.res == OK, Not(c.post.cancelled_))),
               ("Cancelled is only reported by a cancelled limiter", Implies(c.res == CANCELLED, c.post.cancelled_))]
        out += [("success only when the state the decision was made in admits the operation", Implies(c.res == OK, admitted(a))),
                ("exactly one operation is counted on success, none on failure", And(
                    c.post.inserts_ == a.inserts_, c.post.deletes_ == a.deletes_, c.post.cancelled_ == a.cancelled_,
                    c.post.samples_ == a.samples_ + (If(c.res == OK, 1, 0) if counted else 0)))]
        if counted: out += [(l, Implies(c.res == OK, f)) for l, f in signals(c.post)]
        if getattr(c, "is_impl", False):
            out += [("a deadline error is only reported after having waited", Implies(c.res == DEADLINE, BoolVal(c.ex.snap_rel is not None)))]
        return out
    W = COUNTERS + ["cancelled_"] + CVS + STATS
    wait_inv = lambda L: [("counters are unchanged since the lock was acquired", same(L.this, L.ex.snap_acq.obj(L.this.ref, CLS))), ("event buffers are not empty", And(L.this.insert_stats_.events_.len > 0, L.this.sample_stats_.events_.len > 0))]
    S.contract(f"{CLS}::AwaitCanInsert", inv=True, modifies=W, setup=held, release_lock=True, loops={0: wait_inv},
        ensures=lambda c: await_common(c, False, can_insert))
    S.contract(f"{CLS}::AwaitAndFinalizeSample", inv=True, modifies=W, setup=held, release_lock=True, loops={0: wait_inv},
        ensures=lambda c: await_common(c, True, can_sample))
    S.contract(f"{CLS}::CheckpointReader", inv=True, modifies=[], ensures=lambda c: [
        ("checkpoint records the configuration", And(c.res.samples_per_insert == c.pre.samples_per_insert_, c.res.min_diff == c.pre.min_diff_, c.res.max_diff == c.pre.max_diff_, c.res.min_size_to_sample == c.pre.min_size_to_sample_)),
        ("checkpoint records the counters", And(c.res.insert_count == c.pre.inserts_, c.res.sample_count == c.pre.samples_, c.res.delete_count == c.pre.deletes_))])
    S.contract(f"{CLS}::InfoWithoutCallStats", inv=True, modifies=[], ensures=lambda c: [
        ("info reports the configuration", And(c.res.samples_per_insert == c.pre.samples_per_insert_, c.res.min_diff == c.pre.min_diff_, c.res.max_diff == c.pre.max_diff_, c.res.min_size_to_sample == c.pre.min_size_to_sample_))])
    S.contract(f"{CLS}::RateLimiter", nparams=4, inv_post=True, requires=lambda c: [("minimum size is positive", c.arg(1) > 0)], ensures=lambda c: [
        ("a new limiter has no counts", And(c.post.inserts_ == 0, c.post.samples_ == 0, c.post.deletes_ == 0, Not(c.post.cancelled_))),
        ("a new limiter has the given configuration", And(c.post.samples_per_insert_ == c.arg(0), c.post.min_size_to_sample_ == c.arg(1), c.post.min_diff_ == c.arg(2), c.post.max_diff_ == c.arg(3)))])
    S.contract(f"{CLS}::RateLimiter", nparams=1, inv_post=True, requires=lambda c: [("checkpointed minimum size is positive", c.arg(0).min_size_to_sample > 0)], ensures=lambda c: [
        ("restored counters equal the checkpointed ones", And(c.post.inserts_ == c.arg(0).insert_count, c.post.samples_ == c.arg(0).sample_count, c.post.deletes_ == c.arg(0).delete_count, Not(c.post.cancelled_))),
        ("restored configuration equals the checkpointed one", And(c.post.samples_per_insert_ == c.arg(0).samples_per_insert, c.post.min_size_to_sample_ == c.arg(0).min_size_to_sample, c.post.min_diff_ == c.arg(0).min_diff, c.post.max_diff_ == c.arg(0).max_diff))])
