"""Contracts of the bounded and the unbounded queue (C13)."""
from z3 import *
from vc.specs import Monitor
from vc.sym import UMOD
from vc.mtypes import card
from contracts.lib import fa, same
OK, CANCELLED, INVALID, DEADLINE, EXHAUSTED = 0, 1, 3, 4, 8
T = "unsigned long"
Q, UQ = f"internal::Queue<{T}>", f"internal::UnboundedQueue<{T}>"
n, a, b, c3 = Ints("n a b c")
def elem(o, e): return o.buffer_.arr[UMOD(e, o.buffer_.len)]     # the e-th item ever pushed, while it is buffered

def register(S):
    # distinct numbers closer than the modulus have distinct remainders
    S.axioms.append(ForAll([a, b, c3], Implies(And(0 <= a, a < b, b < a + c3), UMOD(a, c3) != UMOD(b, c3)), patterns=[MultiPattern(UMOD(a, c3), UMOD(b, c3))]))
    S.axioms.append(ForAll([a, c3], Implies(And(0 <= a, c3 > 0), And(0 <= UMOD(a, c3), UMOD(a, c3) < c3)), patterns=[UMOD(a, c3)]))
    S.assumptions.add("arithmetic fact about remainders: 0 <= a < b < a + c implies a % c != b % c")
    reg_bounded(S); reg_unbounded(S)

def reg_bounded(S):
    def shape(o):
        cap = o.buffer_.len
        yield "the buffer has room", cap >= 1
        yield "between zero and capacity items are buffered", And(0 <= o.pops_, o.pops_ <= o.pushes_, o.pushes_ - o.pops_ <= cap)
        yield "a drained queue without further items is closed", Implies(And(o.last_item_pushed_, o.pushes_ == o.pops_), o.closed_)
    F = ["buffer_", "pushes_", "pops_", "closed_", "last_item_pushed_", "num_waiting_to_pop_", "num_waiting_to_push_"]
    def rely(ex, o0, o1):      # what other threads may do between two of our critical sections
        return [("capacity is fixed", o1.buffer_.len == o0.buffer_.len), ("closing is final", And(Implies(o0.closed_, o1.closed_), Implies(o0.last_item_pushed_, o1.last_item_pushed_))),
                ("counters only grow", And(o1.pushes_ >= o0.pushes_, o1.pops_ >= o0.pops_)),
                ("no item is pushed after the last one was announced", Implies(Or(o0.last_item_pushed_, o0.closed_), o1.pushes_ == o0.pushes_)),
                ("a closed queue is not popped from", Implies(o0.closed_, o1.pops_ == o0.pops_)),
                ("buffered items stay in place until popped", fa(n, Implies(And(o1.pops_ <= n, n < o0.pushes_), elem(o1, n) == elem(o0, n)), UMOD(n, o0.buffer_.len)))]
    mon = Monitor(f"{Q}.mu_", Q, [f"{Q}.{f}" for f in F], inv=lambda o: list(shape(o)), guarantee=rely, rely=rely)
    S.monitor(mon)
    def acq(c): return c.ex.snap_acq.obj(c.thisref, Q)
    def keep(c, f): return f(acq(c)) if getattr(c, "is_impl", False) else []
    def others(c, a, lo):
        return ("buffered items stay in place", fa(n, Implies(And(lo <= n, n < a.pushes_), elem(c.post, n) == elem(a, n)), UMOD(n, a.buffer_.len)))
    N = "internal::Queue"
    def reg(name, f, np, **kw): S.contract(f"{N}::{name}", cls=Q, nparams=np, modifies=F, ensures=f, **kw)
    reg("Close", lambda c: keep(c, lambda a: [("the queue is closed, nothing else changes", And(c.post.closed_, same(a, c.post, "pushes_", "pops_", "last_item_pushed_", "buffer_")))]), 0)
    reg("SetLastItemPushed", lambda c: keep(c, lambda a: [
        ("the last item is announced", c.post.last_item_pushed_), ("an empty queue is closed at once, others stay open", c.post.closed_ == Or(a.closed_, a.pushes_ == a.pops_)),
        ("items are untouched", same(a, c.post, "pushes_", "pops_", "buffer_"))]), 0)
    reg("Push", lambda c: keep(c, lambda a: [
        ("a push is accepted iff the queue is neither closed nor complete", c.res == Not(Or(a.closed_, a.last_item_pushed_))),
        ("an accepted item is the next to be numbered", Implies(c.res, And(c.post.pushes_ == a.pushes_ + 1, elem(c.post, a.pushes_) == c.arg(0)))),
        ("a refused push changes nothing", Implies(Not(c.res), same(a, c.post, "pushes_", "buffer_"))),
        ("nothing is popped and nothing closed", same(a, c.post, "pops_", "closed_", "last_item_pushed_")), others(c, a, a.pops_)]), 1)
    def waited(c): return BoolVal(c.ex.snap_rel is not None)
    reg("Pop", lambda c: [] if not getattr(c, "is_impl", False) else keep(c, lambda a: [
        ("a pop fails exactly on a closed queue", c.res == Not(a.closed_)),
        ("a pop returns the oldest buffered item", Implies(c.res, And(a.pushes_ > a.pops_, c.ptrpost(0) == elem(a, a.pops_), c.post.pops_ == a.pops_ + 1))),
        ("a failed pop changes nothing", Implies(Not(c.res), same(a, c.post, "pops_", "closed_"))),
        ("nothing is pushed", same(a, c.post, "pushes_", "last_item_pushed_", "buffer_")),
        ("the queue is closed once the last item is popped", Implies(c.res, c.post.closed_ == And(a.last_item_pushed_, c.post.pushes_ == c.post.pops_)))]), 1, nonnull=(0,))
    S.contracts[f"{N}::Pop"][0]._mod = F + [("arg", 0)]
    def popbatch(c, dl=True):
        if not getattr(c, "is_impl", False): return []
        if c.ex.snap_acq is None: return [("only an impossible batch size is rejected without looking at the queue", And(c.res == INVALID, c.arg(0) > c.pre.buffer_.len))]
        a = acq(c); out0, out1 = c.ptr(2), c.ptrpost(2); k = c.arg(0)
        avail = a.pushes_ - a.pops_
        return [("closed: Cancelled", Implies(a.closed_, c.res == CANCELLED)),
                ("enough items and not closed: success, also after the last item was announced", Implies(And(Not(a.closed_), avail >= k), c.res == OK)),
                ("the queue is closed once the last item is popped, and not before", Implies(Not(a.closed_), c.post.closed_ == And(a.last_item_pushed_, c.post.pushes_ == c.post.pops_))),
                ("a batch that can never be filled is refused", Implies(And(Not(a.closed_), a.last_item_pushed_, avail < k), c.res == EXHAUSTED)),
                ("too few items: only a timeout ends the wait", Implies(And(Not(a.closed_), Not(a.last_item_pushed_), avail < k), c.res == DEADLINE)),
                ("success takes exactly the batch, failure nothing", c.post.pops_ == a.pops_ + If(c.res == OK, k, 0)),
                ("the batch holds the oldest items in order", Implies(c.res == OK, And(out1.len == out0.len + k, fa(n, Implies(And(a.pops_ <= n, n < a.pops_ + k), out1.arr[out0.len + n - a.pops_] == elem(a, n)), UMOD(n, a.buffer_.len))))),
                ("what was popped before stays", And(out1.len >= out0.len, fa(n, Implies(And(0 <= n, n < out0.len), out1.arr[n] == out0.arr[n]), out1.arr[n]))),
                ("failure yields no items", Implies(c.res != OK, out1.len == out0.len)),
                ("nothing is pushed", same(a, c.post, "pushes_", "last_item_pushed_", "buffer_"))]
    S.contract(f"{N}::PopBatch", cls=Q, nparams=3, modifies=F + [("arg", 2)], ensures=popbatch, loops={0: lambda L: pb_inv(L)}, requires=lambda c: [("batch size is not negative", c.arg(0) >= 0)], nonnull=(2,))
    def pb_inv(L):
        a = L.ex.snap_acq.obj(L.this.ref, Q); o = L.this; i = L.local("i"); k = L.local("batch_size")
        c = L.fctx; out0, out1 = c.ptr(2), c.ptrpost(2)
        return [("loop counter", And(0 <= i, i <= k)), ("the items so far are popped", o.pops_ == a.pops_ + i), ("nothing is pushed", And(o.pushes_ == a.pushes_, o.buffer_.e == a.buffer_.e, o.closed_ == a.closed_, o.last_item_pushed_ == a.last_item_pushed_)),
                ("items so far in order", And(out1.len == out0.len + i, fa(n, Implies(And(a.pops_ <= n, n < a.pops_ + i), out1.arr[out0.len + n - a.pops_] == elem(a, n)), UMOD(n, a.buffer_.len)))),
                ("what was popped before stays", fa(n, Implies(And(0 <= n, n < out0.len), out1.arr[n] == out0.arr[n]), out1.arr[n]))]
    S.contract(f"{N}::PopBatch", cls=Q, nparams=2, modifies=F + [("arg", 1)], nonnull=(1,), requires=lambda c: [("batch size is not negative", c.arg(0) >= 0)], ensures=lambda c: [])
    S.contract(f"{N}::size", cls=Q, modifies=[], ensures=lambda c: keep(c, lambda a: [("size is the number of buffered items", Implies(a.pushes_ - a.pops_ < 2 ** 31, c.res == a.pushes_ - a.pops_))]))
    S.contract(f"{N}::Queue", cls=Q, nparams=1, requires=lambda c: [("capacity is positive", c.arg(0) >= 1)], ensures=lambda c: list(shape(c.post)) + [
        ("a new queue is empty, open and of the given capacity", And(c.post.pushes_ == 0, c.post.pops_ == 0, Not(c.post.closed_), Not(c.post.last_item_pushed_), c.post.buffer_.len == c.arg(0)))])

def reg_unbounded(S):
    F = ["buffer_", "size_", "closed_", "last_item_pushed_"]
    def shape(o):
        yield "size is the number of buffered items", And(o.size_ == o.buffer_.len, o.size_ >= 0)
        yield "a drained queue without further items is closed", Implies(And(o.last_item_pushed_, o.buffer_.len == 0), o.closed_)
    def rely(ex, o0, o1):
        return [("closing is final", And(Implies(o0.closed_, o1.closed_), Implies(o0.last_item_pushed_, o1.last_item_pushed_)))]
    S.monitor(Monitor(f"{UQ}.mu_", UQ, [f"{UQ}.{f}" for f in F], inv=lambda o: list(shape(o)), guarantee=rely, rely=rely))
    def acq(c): return c.ex.snap_acq.obj(c.thisref, UQ)
    def keep(c, f): return f(acq(c)) if getattr(c, "is_impl", False) else []
    N = "internal::UnboundedQueue"
    def reg(name, f, np, mod=F, **kw): S.contract(f"{N}::{name}", cls=UQ, nparams=np, modifies=mod, **kw, ensures=lambda c: keep(c, lambda a: f(c, a)))
    def seq(a, p, d, shift=0): return fa(n, Implies(And(0 <= n, n < p.buffer_.len - d), p.buffer_.arr[n] == a.buffer_.arr[n + shift]), p.buffer_.arr[n])
    reg("Close", lambda c, a: [("the queue is closed, nothing else changes", And(c.post.closed_, same(a, c.post, "size_", "last_item_pushed_"), c.post.buffer_.len == a.buffer_.len, seq(a, c.post, 0)))], 0)
    reg("SetLastItemPushed", lambda c, a: [("the last item is announced", c.post.last_item_pushed_), ("an empty queue is closed at once, others stay open", c.post.closed_ == Or(a.closed_, a.buffer_.len == 0)),
        ("items are untouched", And(c.post.buffer_.len == a.buffer_.len, seq(a, c.post, 0)))], 0)
    reg("Push", lambda c, a: [("a push is accepted iff the queue is neither closed nor complete", c.res == Not(Or(a.closed_, a.last_item_pushed_))),
        ("an accepted item is appended", Implies(c.res, And(c.post.buffer_.len == a.buffer_.len + 1, c.post.buffer_.arr[a.buffer_.len] == c.arg(0), seq(a, c.post, 1)))),
        ("a refused push changes nothing", Implies(Not(c.res), And(c.post.buffer_.len == a.buffer_.len, seq(a, c.post, 0)))), ("nothing is closed", same(a, c.post, "closed_", "last_item_pushed_"))], 1)
    reg("Pop", lambda c, a: [("a pop fails exactly on a closed queue", c.res == Not(a.closed_)),
        ("a pop returns the oldest item and removes it alone", Implies(c.res, And(a.buffer_.len > 0, c.ptrpost(0) == a.buffer_.arr[0], c.post.buffer_.len == a.buffer_.len - 1, seq(a, c.post, 0, 1)))),
        ("a failed pop changes nothing", Implies(Not(c.res), And(c.post.buffer_.len == a.buffer_.len, seq(a, c.post, 0), same(a, c.post, "closed_")))),
        ("the queue is closed once the last item is popped", Implies(c.res, c.post.closed_ == And(a.last_item_pushed_, c.post.buffer_.len == 0)))], 1, F + [("arg", 0)], nonnull=(0,))
    S.contract(f"{N}::size", cls=UQ, modifies=[], ensures=lambda c: keep(c, lambda a: [("size is the number of buffered items", c.res == a.buffer_.len)]))
    S.contract(f"{N}::UnboundedQueue", cls=UQ, nparams=0, ensures=lambda c: list(shape(c.post)) + [("a new queue is empty and open", And(c.post.buffer_.len == 0, Not(c.post.closed_), Not(c.post.last_item_pushed_)))])
