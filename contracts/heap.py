"""Contracts of IntrusiveHeap<HeapNode> and the heap item selector (C10)."""
from z3 import *
from vc.mtypes import card
from contracts.lib import fa
I = IntSort()
INVALID = 3
IH = "IntrusiveHeap<HeapSelector::HeapNode, HeapSelector::HeapNodeCompare, DefaultIntrusiveHeapLinkAccess<HeapSelector::HeapNode>, std::allocator<HeapSelector::HeapNode *> >"
NODE = "HeapSelector::HeapNode"
par = Function("heap_parent", I, I)      # par(i) = (i-1)/2
i, j, x, k, k2 = Ints("i j x k k2")
PAR = [fa(i, Implies(i >= 1, And(2 * par(i) + 1 <= i, i <= 2 * par(i) + 2, par(i) >= 0)), par(i))]
def pardef(*es):      # ground instances of the definition of par
    return And(*[Implies(e >= 1, And(2 * par(e) + 1 <= e, e <= 2 * par(e) + 2, par(e) >= 0)) for e in es])

class Mem:
    """the node fields in one state"""
    def __init__(self, view):
        ex = view.ex
        def arr(f): return view.harr(f"{NODE}.{f}", ex.field_mt(NODE, f))
        self.prio, self.upd, self.key, self.link = arr("priority"), arr("update_number"), arr("key"), arr("heap")
        self.lmt = ex.field_mt(NODE, "heap")
    def pos(self, r): return self.lmt.get(Select(self.link, r), "pos_")
    def less(self, a, b): return Or(self.prio[a] < self.prio[b], And(self.prio[a] == self.prio[b], self.upd[a] < self.upd[b]))
    def p(self, r): return self.pos(r)
class Heap:
    def __init__(self, seq, view): self.n, self.a, self.m = seq.len, seq.arr, Mem(view)
    def has(self, r): return And(self.m.pos(r) >= 0, self.m.pos(r) < self.n, self.a[self.m.pos(r)] == r)
    def linked(self, hole=None):
        g = And(0 <= i, i < self.n) if hole is None else And(0 <= i, i < self.n, i != hole)
        return fa(i, Implies(g, And(self.a[i] > 0, self.m.pos(self.a[i]) == i)), self.a[i])
    def ordered(self): return fa(i, Implies(And(1 <= i, i < self.n), Not(self.m.less(self.a[i], self.a[par(i)]))), par(i))
    # ordered everywhere but around position h, whose value is taken to be t
    def ordered_but(self, h): return fa(i, Implies(And(1 <= i, i < self.n, i != h, par(i) != h), Not(self.m.less(self.a[i], self.a[par(i)]))), par(i))
    def grand(self, h): return Implies(h >= 1, fa(i, Implies(And(1 <= i, i < self.n, par(i) == h), Not(self.m.less(self.a[i], self.a[par(h)]))), par(i)))
    def kids(self, h, t): return fa(i, Implies(And(1 <= i, i < self.n, par(i) == h), Not(self.m.less(self.a[i], t))), par(i))

def H(o): return Heap(o.rep_.heap_, o._view)
LINK = ("all", f"{NODE}.heap")
def register(S):
    S.axioms += PAR
    def same_members(h0, h1, but=None):
        g = x > 0 if but is None else And(x > 0, x != but)
        return fa(x, Implies(g, h1.has(x) == h0.has(x)), h1.m.link[x]) if False else fa(x, Implies(g, h1.has(x) == h0.has(x)))
    def frame_links(h0, h1): # nodes outside the heap keep their link
        return fa(x, Implies(And(x > 0, Not(h0.has(x)), Not(h1.has(x))), h1.m.link[x] == h0.m.link[x]))
    def okpost(c, but=None):
        h0, h1 = H(c.pre), H(c.post)
        return [("every element knows its position", h1.linked()), ("heap order is restored", h1.ordered())]
    def pos_range(h, t): return And(t > 0, h.has(t))
    common = dict(cls=IH)
    def size(c, d): return ("number of elements", H(c.post).n == H(c.pre).n + d)

    def up_req(c):
        h = H(c.pre); t = c.arg(0); p = h.m.pos(t)
        return [("element is in the heap", pos_range(h, t)), ("positions agree", h.linked()), ("order holds elsewhere", And(h.ordered_but(p), h.grand(p))),
                ("element is not above its children's order", h.kids(p, t)), ("def", pardef(p))]
    def up_inv(L):
        h = H(L.this); h0 = H(L.this0); t = L.local("t"); p = L.local("h")
        return [("hole is in range", And(0 <= p, p < h.n, h.n == h0.n, t > 0)), ("def", pardef(p, par(p), 2 * p + 1, 2 * p + 2)), ("positions agree", h.linked(p)),
                ("element is nowhere else", fa(i, Implies(And(0 <= i, i < h.n, i != p), h.a[i] != t), h.a[i])),
                ("order holds elsewhere", h.ordered_but(p)), ("order around the hole", h.grand(p)), ("element belongs above the children", h.kids(p, t)),
                ("members are kept", fa(x, Implies(And(x > 0, x != t), And(0 <= h.m.pos(x), h.m.pos(x) < h.n, h.m.pos(x) != p, h.a[h.m.pos(x)] == x) == h0.has(x)))),
                ("links of other nodes are kept", fa(x, Implies(And(x > 0, x != t, Not(h0.has(x))), h.m.link[x] == h0.m.link[x])))]
    def members(c): return [("members are kept", same_members(H(c.pre), H(c.post))), ("links of other nodes are kept", frame_links(H(c.pre), H(c.post))), size(c, 0)]
    S.contract("IntrusiveHeap::FixHeapUp", modifies=["rep_", LINK], requires=up_req, loops={0: up_inv}, ensures=lambda c: okpost(c) + members(c), **common)
    def down_req(c):
        h = H(c.pre); t = c.arg(0); p = h.m.pos(t)
        return [("element is in the heap", pos_range(h, t)), ("positions agree", h.linked()), ("order holds elsewhere", And(h.ordered_but(p), h.grand(p))),
                ("element is not below its parent's order", Implies(p >= 1, Not(h.m.less(t, h.a[par(p)])))), ("def", pardef(p))]
    def down_inv(L):
        h = H(L.this); h0 = H(L.this0); t = L.local("t"); p = L.local("h")
        return [("hole is in range", And(0 <= p, p < h.n, h.n == h0.n, t > 0)), ("def", pardef(p, par(p), 2 * p + 1, 2 * p + 2)), ("positions agree", h.linked(p)),
                ("element is nowhere else", fa(i, Implies(And(0 <= i, i < h.n, i != p), h.a[i] != t), h.a[i])),
                ("order holds elsewhere", h.ordered_but(p)), ("order around the hole", h.grand(p)), ("element belongs below the parent", Implies(p >= 1, Not(h.m.less(t, h.a[par(p)])))),
                ("members are kept", fa(x, Implies(And(x > 0, x != t), And(0 <= h.m.pos(x), h.m.pos(x) < h.n, h.m.pos(x) != p, h.a[h.m.pos(x)] == x) == h0.has(x)))),
                ("links of other nodes are kept", fa(x, Implies(And(x > 0, x != t, Not(h0.has(x))), h.m.link[x] == h0.m.link[x])))]
    S.contract("IntrusiveHeap::FixHeapDown", modifies=["rep_", LINK], requires=down_req, loops={0: down_inv}, ensures=lambda c: okpost(c) + members(c), **common)
    def adj_req(c):
        h = H(c.pre); t = c.arg(0); p = h.m.pos(t)
        return [("element is in the heap", pos_range(h, t)), ("positions agree", h.linked()), ("order holds elsewhere", And(h.ordered_but(p), h.grand(p))), ("def", pardef(p))]
    S.contract("IntrusiveHeap::Adjust", modifies=["rep_", LINK], requires=adj_req, ensures=lambda c: okpost(c) + members(c), **common)
    def inv_req(c):
        h = H(c.pre)
        return [("positions agree", h.linked()), ("heap order", h.ordered())]
    S.contract("IntrusiveHeap::Push", modifies=["rep_", LINK], requires=lambda c: inv_req(c) + [("new element", And(c.arg(0) > 0, Not(H(c.pre).has(c.arg(0))))), ("def", pardef(H(c.pre).n))],
        ensures=lambda c: okpost(c) + [("the element is added and no other", And(H(c.post).has(c.arg(0)), same_members(H(c.pre), H(c.post), c.arg(0)))), ("links of other nodes are kept", frame_links(H(c.pre), H(c.post))), size(c, 1)], **common)
    S.contract("IntrusiveHeap::Remove", modifies=["rep_", LINK], requires=lambda c: inv_req(c) + [("element is in the heap", And(c.arg(0) > 0, H(c.pre).has(c.arg(0)))), ("def", pardef(H(c.pre).m.pos(c.arg(0)), H(c.pre).n - 1))],
        ensures=lambda c: okpost(c) + [("the element is removed and no other", And(Not(H(c.post).has(c.arg(0))), same_members(H(c.pre), H(c.post), c.arg(0)))), size(c, -1)], **common)
    S.contract("IntrusiveHeap::Clear", modifies=["rep_"], ensures=lambda c: [("no element is left", H(c.post).n == 0)], **common)
    S.contract("IntrusiveHeap::Contains", modifies=[], requires=lambda c: [("element exists", c.arg(0) > 0)], setup=lambda ex, c: ex.assume(H(c.pre).n < 2 ** 60), ensures=lambda c: [("containment", c.res == H(c.pre).has(c.arg(0)))], **common)

    # ------------------------------------------------ the selector
    cls = "HeapSelector"
    def hs(o): return Heap(o.heap_.rep_.heap_, o._view)
    def inv(o):
        h = hs(o); M = o.nodes_; m = h.m
        yield "every element knows its position", h.linked()
        yield "heap order", h.ordered()
        yield "every key has its node in the heap", fa(k, Implies(M.dom[k], And(M.val[k] > 0, m.key[M.val[k]] == k, h.has(M.val[k]))), M.dom[k])
        yield "heap elements are allocated nodes", fa(i, Implies(And(0 <= i, i < h.n), h.a[i] < o._view.alloc), h.a[i])
        yield "every heap element is the node of its key", fa(i, Implies(And(0 <= i, i < h.n), And(M.dom[m.key[h.a[i]]], M.val[m.key[h.a[i]]] == h.a[i])), h.a[i])
        yield "update numbers lie in the past", fa(k, Implies(M.dom[k], m.upd[M.val[k]] < o.update_count_), M.dom[k])
        yield "update numbers differ", fa([k, k2], Implies(And(M.dom[k], M.dom[k2], k != k2), m.upd[M.val[k]] != m.upd[M.val[k2]]), MultiPattern(M.dom[k], M.dom[k2]))
        yield "sign is one or minus one", Or(o.sign_ == 1, o.sign_ == -1)
    S.invariant(cls, inv)
    def dom(o): return o.nodes_.dom
    def prio(o, q): return Mem(o._view).prio[o.nodes_.val[q]]
    def upd(o, q): return Mem(o._view).upd[o.nodes_.val[q]]
    def unchanged(c, but):
        return fa(k, Implies(And(dom(c.pre)[k], k != but) if but is not None else dom(c.pre)[k], And(prio(c.post, k) == prio(c.pre, k), upd(c.post, k) == upd(c.pre, k))), dom(c.post)[k])
    def newest(c, q): return fa(k, Implies(And(dom(c.post)[k], k != q), upd(c.post, k) < upd(c.post, q)), dom(c.post)[k])
    NF = [("all", f"{NODE}.{f}") for f in ("priority", "update_number", "heap", "key")]
    MOD = ["nodes_", "heap_", "update_count_"] + NF
    S.contract(f"{cls}::Insert", inv=True, modifies=MOD, ensures=lambda c: [
        ("inserting a new key succeeds, a present key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(INVALID), IntVal(0))),
        ("the key set gains exactly the key", fa(k, dom(c.post)[k] == Or(dom(c.pre)[k], k == c.arg(0)), dom(c.post)[k])),
        ("the key has the given priority", Implies(c.res == 0, prio(c.post, c.arg(0)) == c.arg(1) * c.pre.sign_)),
        ("the key was changed last", Implies(c.res == 0, newest(c, c.arg(0)))),
        ("other keys are unchanged", unchanged(c, c.arg(0))),
        ("a rejected insert changes nothing", Implies(c.res != 0, unchanged(c, None)))])
    S.contract(f"{cls}::Update", inv=True, modifies=MOD, ensures=lambda c: [
        ("updating a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
        ("the key set is unchanged", fa(k, dom(c.post)[k] == dom(c.pre)[k], dom(c.post)[k])),
        ("the key has the given priority", Implies(c.res == 0, prio(c.post, c.arg(0)) == c.arg(1) * c.pre.sign_)),
        ("the key was changed last", Implies(c.res == 0, newest(c, c.arg(0)))),
        ("other keys are unchanged", unchanged(c, c.arg(0)))])
    S.contract(f"{cls}::Delete", inv=True, modifies=MOD, ensures=lambda c: [
        ("deleting a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
        ("the key set loses exactly the key", fa(k, dom(c.post)[k] == And(dom(c.pre)[k], k != c.arg(0)), dom(c.post)[k])),
        ("other keys are unchanged", unchanged(c, c.arg(0)))])
    def best(c):
        o = c.pre; h = hs(o)
        # lemma (induction over positions): the root precedes every element
        if getattr(c, "is_impl", False):
            c.ex.induct("the root of a heap precedes every element", h.n, lambda e: Not(h.m.less(h.a[e], h.a[0])), hint=lambda e: pardef(e))
        r = c.res.key
        return [("the sampled key is present", dom(o)[r]),
                ("the sampled key has the extreme priority, oldest change first", fa(k, Implies(And(dom(o)[k], k != r), Or(prio(o, r) < prio(o, k), And(prio(o, r) == prio(o, k), upd(o, r) < upd(o, k)))), dom(o)[k])),
                ("probability is exactly one", c.res.probability == 1)]
    S.contract(f"{cls}::Sample", inv=True, modifies=[], requires=lambda c: [("selector is not empty", Exists([k], dom(c.pre)[k]))], ensures=best)
    S.contract(f"{cls}::Clear", inv=True, modifies=MOD, ensures=lambda c: [("no key is left", fa(k, Not(dom(c.post)[k])))])
    S.contract(f"{cls}::HeapSelector", inv_post=True, ensures=lambda c: [("no key is present", fa(k, Not(dom(c.post)[k]))), ("sign selects minimum or maximum", c.post.sign_ == If(c.arg(0), RealVal(1), RealVal(-1)))])
    S.contract(f"{cls}::options", inv=True, modifies=[], ensures=lambda c: [
        ("options name the distribution", And(c.res.is_deterministic, c.res.heap.min_heap == (c.pre.sign_ == 1)))])
