"""Contracts of the prioritized item selector (C11), over the reals."""
from z3 import *
from vc.mtypes import card
from contracts.lib import fa
I, R = IntSort(), RealSort()
INVALID = 3
CLS = "PrioritizedSelector"
i, k, m = Ints("i k m")
fpow = Function("fn_pow", R, R, R)
isnan = Function("is_nan", R, BoolSort())

class T:
    """the sum tree in one state; n keys are present"""
    def __init__(self, o, n=None):
        ex = o._view.ex
        mt = ex.field_mt(CLS, "sum_tree_")
        self.el = mt.el
        self.seq = o.sum_tree_; self.len, self.a = self.seq.len, self.seq.arr
        self.M = o.key_to_index_
        self.n = card(self.M.dom) if n is None else n
        self.cap = o.capacity_
    def key(self, e): return self.el.get(Select(self.a, e), "key")
    def val(self, e): return self.el.get(Select(self.a, e), "value")
    def sum(self, e): return self.el.get(Select(self.a, e), "sum")
    def S(self, e): return If(e < self.n, self.sum(e), RealVal(0))
    def eq(self, e): return self.sum(e) == self.val(e) + self.S(2 * e + 1) + self.S(2 * e + 2)
    def keys(self):
        M = self.M
        yield "every key has its own slot", fa(k, Implies(M.dom[k], And(0 <= M.val[k], M.val[k] < self.n, self.key(M.val[k]) == k)), M.dom[k])
        yield "every slot below the number of keys holds a present key", fa(i, Implies(And(0 <= i, i < self.n), And(M.dom[self.key(i)], M.val[self.key(i)] == i)), Select(self.a, i))
    def shape(self): return And(self.n <= self.len, self.len == self.cap, self.cap >= 1, self.n >= 0)
    def weights(self): return fa(i, Implies(And(0 <= i, i < self.len), self.val(i) >= 0), Select(self.a, i))
    def sums(self): return fa(i, Implies(And(0 <= i, i < self.len), self.sum(i) >= 0), Select(self.a, i))
    def tree(self, but=None):
        g = And(0 <= i, i < self.n) if but is None else And(0 <= i, i < self.n, Not(but(i)))
        return fa(i, Implies(g, self.eq(i)), Select(self.a, i))
    def tail(self): return fa(i, Implies(And(self.n <= i, i < self.len), And(self.val(i) == 0, self.sum(i) == 0)), Select(self.a, i))
    def total(self):
        """sum of all weights: prefix sums, defined by recursion"""
        return prefix(self.a.sort())(self.a, self.n)
_pf = {}
def prefix(s, nm="psum"):
    if (nm, str(s)) not in _pf: _pf[nm, str(s)] = Function(nm + "_" + s.range().name(), s, I, R)
    return _pf[nm, str(s)]
def psums(t, e):     # definition of the prefix sums of weights at e and e+1
    P = prefix(t.a.sort())
    return And(P(t.a, 0) == 0, Implies(e >= 1, P(t.a, e) == P(t.a, e - 1) + t.val(e - 1)))
def weight(o, p): return If(p == 0, RealVal(0), fpow(p, o.priority_exponent_))

def register(S):
    x, y = Reals("x y")
    S.axioms.append(fa([x, y], Implies(x > 0, fpow(x, y) > 0), fpow(x, y)))     # std::pow of a positive base is positive
    S.assumptions.add("std::pow of a positive base is a positive real (no underflow); double arithmetic is treated as real arithmetic; NaN is a predicate on doubles")
    def inv(o):
        t = T(o)
        yield "the tree has room for every key", t.shape()
        yield from t.keys()
        yield "weights are not negative", t.weights()
        yield "sums are not negative", t.sums()
        yield "every node's sum is its weight plus its children's sums", t.tree()
        yield "slots beyond the keys are empty", t.tail()
    S.invariant(CLS, inv)
    def dom(o): return o.key_to_index_.dom
    def w(o, q): t = T(o); return t.val(o.key_to_index_.val[q])
    def bad(p): return Or(isnan(p), p < 0)
    def others(c, but):
        return fa(k, Implies(And(dom(c.pre)[k], k != but) if but is not None else dom(c.pre)[k], w(c.post, k) == w(c.pre, k)), dom(c.post)[k])
    MOD = ["sum_tree_", "key_to_index_", "capacity_"]
    S.contract(f"{CLS}::Insert", inv=True, modifies=MOD, ensures=lambda c: [
        ("invalid priority or present key is an InvalidArgument error, anything else succeeds", c.res == If(Or(bad(c.arg(1)), dom(c.pre)[c.arg(0)]), IntVal(INVALID), IntVal(0))),
        ("the key set gains exactly the key, on success", fa(k, dom(c.post)[k] == Or(dom(c.pre)[k], And(k == c.arg(0), c.res == 0)), dom(c.post)[k])),
        ("the key has weight priority^exponent", Implies(c.res == 0, w(c.post, c.arg(0)) == weight(c.pre, c.arg(1)))),
        ("other keys keep their weight", others(c, c.arg(0))), ("a rejected insert changes no weight", Implies(c.res != 0, others(c, None)))])
    S.contract(f"{CLS}::Update", inv=True, modifies=["sum_tree_"], ensures=lambda c: [
        ("invalid priority or absent key is an InvalidArgument error, anything else succeeds", c.res == If(Or(bad(c.arg(1)), Not(dom(c.pre)[c.arg(0)])), IntVal(INVALID), IntVal(0))),
        ("the key has weight priority^exponent", Implies(c.res == 0, w(c.post, c.arg(0)) == weight(c.pre, c.arg(1)))),
        ("other keys keep their weight", others(c, c.arg(0))), ("a rejected update changes no weight", Implies(c.res != 0, others(c, None)))])
    S.contract(f"{CLS}::Delete", inv=True, modifies=["sum_tree_", "key_to_index_"], ensures=lambda c: [
        ("deleting a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
        ("the key set loses exactly the key", fa(k, dom(c.post)[k] == And(dom(c.pre)[k], k != c.arg(0)), dom(c.post)[k])),
        ("other keys keep their weight", fa(k, Implies(dom(c.post)[k], w(c.post, k) == w(c.pre, k)), dom(c.post)[k]))])
    def sample_post(c):
        o = c.pre; t = T(o)
        tot = t.total()
        if getattr(c, "is_impl", False):
            # lemma: the root's sum is the sum of all weights.  For every e:
            # weights of 0..e-1 plus the subtree sums of e..2e make the root's sum
            P, Q = prefix(t.a.sort()), Function("ssum", I, R)       # Q(e) = S(0)+..+S(e-1)
            c.ex.assume(Q(0) == 0)
            qd = lambda e: Implies(e >= 1, Q(e) == Q(e - 1) + t.S(e - 1))
            c.ex.induct("the root's sum is the sum of all weights", t.n + 1, lambda e: t.S(IntVal(0)) == P(t.a, e) + Q(2 * e + 1) - Q(e),
                        hint=lambda e: And(psums(t, e), Q(0) == 0, qd(IntVal(1)), qd(e), qd(2 * e), qd(2 * e + 1), P(t.a, 0) == 0), use=[t.n])
            c.ex.induct("slots beyond the keys add nothing", t.n + 2, lambda e: Q(t.n + e) == Q(t.n), hint=lambda e: qd(t.n + e), use=[t.n + 1])
            c.ex.assume(And(psums(t, t.n)))
            c.ex.induct("the sum of weights is not negative and zero only if all are", t.n + 1, lambda e: And(P(t.a, e) >= 0, Implies(And(e >= 1), P(t.a, e) >= t.val(e - 1))), hint=lambda e: And(psums(t, e)), use=[t.n])
        r = c.res
        return [("the sampled key is present", dom(o)[r.key]),
                ("the reported probability is weight over the sum of all weights, uniform if that is zero", r.probability == If(tot == 0, 1 / ToReal(t.n), w(o, r.key) / tot)),
                ("a key of zero weight is not returned while the sum is positive", Implies(tot != 0, w(o, r.key) > 0))]
    def sample_loop(L):
        t = T(L.this); ix, tw = L.local("index"), L.local("target_weight")
        return [("the current node is present", And(0 <= ix, ix < t.n)), ("the target lies in the current subtree", And(0 <= tw, tw < t.sum(ix)))]
    S.contract(f"{CLS}::Sample", inv=True, modifies=[], requires=lambda c: [("selector is not empty", T(c.pre).n > 0)], ensures=sample_post, loops={0: sample_loop})
    def clear_loop(L):
        t, t0, p = T(L.this), T(L.this0), L.local("i")
        return [("slots below the counter are cleared, others untouched", And(0 <= p, fa(i, Implies(And(0 <= i, i < t.len), If(i < p, And(t.val(i) == 0, t.sum(i) == 0), Select(t.a, i) == Select(t0.a, i))), Select(t.a, i)), t.len == t0.len))]
    S.contract(f"{CLS}::Clear", inv=True, modifies=["sum_tree_", "key_to_index_"], loops={0: clear_loop}, ensures=lambda c: [("no key is left", fa(k, Not(dom(c.post)[k])))])
    S.contract(f"{CLS}::PrioritizedSelector", inv_post=True, may_abort=True, ensures=lambda c: [("no key is present", fa(k, Not(dom(c.post)[k]))), ("the exponent is the given one", c.post.priority_exponent_ == c.arg(0))])
    S.contract(f"{CLS}::options", inv=True, modifies=[], ensures=lambda c: [("options name the distribution", And(Not(c.res.is_deterministic), c.res.prioritized.priority_exponent == c.pre.priority_exponent_))])
    # ---- tree maintenance
    def setnode_req(c):
        t = T(c.pre); p = c.arg(0)
        return [("the tree has room for every key", t.shape()), ("slot holds a key", And(0 <= p, p < t.n)), ("the new weight is not negative", c.arg(1) >= 0),
                ("weights are not negative", t.weights()), ("sums are not negative", t.sums()), ("tree relation", t.tree()), ("slots beyond the keys are empty", t.tail())]
    def frame(t, t0, p, v):
        return fa(i, Implies(And(0 <= i, i < t.len), And(t.val(i) == If(i == p, v, t0.val(i)), t.key(i) == t0.key(i))), Select(t.a, i))
    def setnode_inv(L):
        t, t0, p, p0, v = T(L.this), T(L.this0), L.local("index"), L.local0("index"), L.local0("value")
        par = (p - 1) / 2
        # the parent of the current node misses the difference
        d = L.local("difference")
        return [("current node is present", And(0 <= p, p <= p0, p0 < t.n, t.len == t0.len)), ("only the weight of the slot changes", frame(t, t0, p0, v)),
                ("no approximation error over the reals", L.local("error") == 0),
                ("sums are not negative", t.sums()),
                ("tree relation holds but at the parent", t.tree(lambda e: And(p >= 1, Or(p == 2 * e + 1, p == 2 * e + 2)))),
                ("the parent misses exactly the difference", fa(i, Implies(And(0 <= i, i < t.n, Or(p == 2 * i + 1, p == 2 * i + 2)), t.sum(i) + d == t.val(i) + t.S(2 * i + 1) + t.S(2 * i + 2)), Select(t.a, i))),
                ("slots beyond the keys are empty", t.tail())]
    S.contract(f"{CLS}::SetNode", modifies=["sum_tree_"], requires=setnode_req, loops={0: setnode_inv}, ensures=lambda c: [
        ("the tree keeps its size", And(T(c.post).len == T(c.pre).len)), ("only the weight of the slot changes", frame(T(c.post), T(c.pre), c.arg(0), c.arg(1))),
        ("sums are not negative", T(c.post).sums()), ("tree relation", T(c.post).tree()), ("slots beyond the keys are empty", T(c.post).tail())])
    def reinit_inv(L):
        t, t0, p = T(L.this), T(L.this0), L.local("i")
        return [("weights and keys stay", And(t.len == t0.len, p < t.len, p >= -1, fa(i, Implies(And(0 <= i, i < t.len), And(t.val(i) == t0.val(i), t.key(i) == t0.key(i))), Select(t.a, i)))),
                ("relation holds above the counter", fa(i, Implies(And(p < i, i < t.len), And(t.sum(i) >= 0, Implies(i < t.n, t.eq(i)), Implies(i >= t.n, t.sum(i) == 0))), Select(t.a, i)))]
    S.contract(f"{CLS}::ReinitializeSumTree", modifies=["sum_tree_"], loops={0: reinit_inv},
        requires=lambda c: [("the tree has room for every key", T(c.pre).shape()), ("weights are not negative", T(c.pre).weights()), ("slots beyond the keys have no weight", fa(i, Implies(And(T(c.pre).n <= i, i < T(c.pre).len), T(c.pre).val(i) == 0), Select(T(c.pre).a, i)))],
        ensures=lambda c: [("the tree keeps its size", And(T(c.post).len == T(c.pre).len)),
            ("weights and keys stay", fa(i, Implies(And(0 <= i, i < T(c.post).len), And(T(c.post).val(i) == T(c.pre).val(i), T(c.post).key(i) == T(c.pre).key(i))), Select(T(c.post).a, i))),
            ("sums are not negative", T(c.post).sums()), ("tree relation", T(c.post).tree()), ("slots beyond the keys are empty", T(c.post).tail())])
