"""Contracts of the FIFO, LIFO and uniform item selectors (C08, C09)."""
from z3 import *
from vc.mtypes import card
I = IntSort()
def fa(vs, body, *pats):
    vs = vs if isinstance(vs, list) else [vs]
    return ForAll(vs, body, patterns=list(pats)) if pats else ForAll(vs, body)

INVALID = 3

def register(S):
    for cls, newest in (("FifoSelector", False), ("LifoSelector", True)):
        reg_list(S, cls, newest)
    reg_uniform(S)

def reg_list(S, cls, newest):
    k, k2, n = Ints("k k2 n")
    # abstract view: set of keys dom(key_to_iterator_), age order pos(key)
    def inv(o):
        K, M = o.keys_, o.key_to_iterator_
        dom, it, mem, val, pos = M.dom, M.val, K.mem, K.val, K.pos
        yield "index and list agree: every key has its own node", fa(k, Implies(dom[k], And(mem[it[k]], val[it[k]] == k, it[k] > 0, it[k] < K.nxt)), dom[k])
        yield "index and list agree: every node belongs to its key", fa(n, Implies(mem[n], And(dom[val[n]], it[val[n]] == n, n > 0, n < K.nxt)), mem[n])
        yield "positions lie in the list range", fa(n, Implies(mem[n], And(pos[n] >= K.lo, pos[n] <= K.hi)), mem[n])
        yield "positions of distinct keys differ", fa([k, k2], Implies(And(dom[k], dom[k2], k != k2), pos[it[k]] != pos[it[k2]]), MultiPattern(dom[k], dom[k2]))
        yield "node counter is positive", K.nxt > 0
    S.invariant(cls, inv)
    def pos_of(o): return lambda x: o.keys_.pos[o.key_to_iterator_.val[x]]
    # newer(a,b): a was inserted after b.  FIFO appends at the back, LIFO may
    # choose either end: direction is part of the contract below.
    def newer(o, a, b):
        p = pos_of(o)
        return p(a) > p(b) if not newest else p(a) < p(b)
    def same_order(c):
        return fa([k, k2], Implies(And(c.post.key_to_iterator_.dom[k], c.post.key_to_iterator_.dom[k2], c.pre.key_to_iterator_.dom[k], c.pre.key_to_iterator_.dom[k2]),
                                   newer(c.post, k, k2) == newer(c.pre, k, k2)), MultiPattern(c.post.key_to_iterator_.dom[k], c.post.key_to_iterator_.dom[k2]))
    def dom(o): return o.key_to_iterator_.dom
    S.contract(f"{cls}::Insert", inv=True, modifies=["keys_", "key_to_iterator_"], ensures=lambda c: [
        ("inserting a new key succeeds, a present key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(INVALID), IntVal(0))),
        ("the key set gains exactly the key", fa(k, dom(c.post)[k] == Or(dom(c.pre)[k], k == c.arg(0)), dom(c.post)[k])),
        ("other keys keep their order", same_order(c)),
        ("a new key is newer than all others", Implies(c.res == 0, fa(k, Implies(And(dom(c.post)[k], k != c.arg(0)), newer(c.post, c.arg(0), k)), dom(c.post)[k]))),
    ])
    S.contract(f"{cls}::Delete", inv=True, modifies=["keys_", "key_to_iterator_"], ensures=lambda c: [
        ("deleting a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
        ("the key set loses exactly the key", fa(k, dom(c.post)[k] == And(dom(c.pre)[k], k != c.arg(0)), dom(c.post)[k])),
        ("other keys keep their order", same_order(c)),
    ])
    S.contract(f"{cls}::Update", inv=True, modifies=[], ensures=lambda c: [
        ("updating a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
    ])
    S.contract(f"{cls}::Sample", inv=True, modifies=[], requires=lambda c: [
        ("selector is not empty", Exists([k], dom(c.pre)[k]))], ensures=lambda c: [
        ("the sampled key is present", dom(c.pre)[c.res.key]),
        ("the sampled key is the " + ("newest" if newest else "oldest"), fa(k, Implies(And(dom(c.pre)[k], k != c.res.key), newer(c.pre, c.res.key, k) if newest else newer(c.pre, k, c.res.key)), dom(c.pre)[k])),
        ("probability is exactly one", c.res.probability == 1),
    ])
    S.contract(f"{cls}::Clear", inv=True, modifies=["keys_", "key_to_iterator_"], ensures=lambda c: [
        ("no key is left", fa(k, Not(dom(c.post)[k]))),
    ])
    S.contract(f"{cls}::options", inv=True, modifies=[], ensures=lambda c: [
        ("options name the distribution", And(c.res.fifo == (not newest), c.res.lifo == newest, Not(c.res.uniform), c.res.is_deterministic)),
    ])

def reg_uniform(S):
    cls = "UniformSelector"
    k, i = Ints("k i")
    def dom(o): return o.key_to_index_.dom
    def inv(o):
        K, M = o.keys_, o.key_to_index_
        yield "every key has its own slot", fa(k, Implies(M.dom[k], And(0 <= M.val[k], M.val[k] < K.len, K.arr[M.val[k]] == k)), M.dom[k])
        yield "every slot holds a present key that points back", fa(i, Implies(And(0 <= i, i < K.len), And(M.dom[K.arr[i]], M.val[K.arr[i]] == i)), K.arr[i])
        yield "slot count is the number of keys", And(K.len >= 0, K.len == card(M.dom))
    S.invariant(cls, inv)
    S.contract(f"{cls}::Insert", inv=True, modifies=["keys_", "key_to_index_"], ensures=lambda c: [
        ("inserting a new key succeeds, a present key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(INVALID), IntVal(0))),
        ("the key set gains exactly the key", fa(k, dom(c.post)[k] == Or(dom(c.pre)[k], k == c.arg(0)), dom(c.post)[k])),
    ])
    S.contract(f"{cls}::Delete", inv=True, modifies=["keys_", "key_to_index_"], ensures=lambda c: [
        ("deleting a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
        ("the key set loses exactly the key", fa(k, dom(c.post)[k] == And(dom(c.pre)[k], k != c.arg(0)), dom(c.post)[k])),
    ])
    S.contract(f"{cls}::Update", inv=True, modifies=[], ensures=lambda c: [
        ("updating a present key succeeds, an absent key is an InvalidArgument error", c.res == If(dom(c.pre)[c.arg(0)], IntVal(0), IntVal(INVALID))),
    ])
    S.contract(f"{cls}::Sample", inv=True, modifies=[], requires=lambda c: [
        ("selector is not empty", Exists([k], dom(c.pre)[k]))], ensures=lambda c: [
        ("the sampled key is present", dom(c.pre)[c.res.key]),
        ("probability is exactly one over the number of keys", c.res.probability == 1 / ToReal(card(dom(c.pre)))),
    ])
    S.contract(f"{cls}::Clear", inv=True, modifies=["keys_", "key_to_index_"], ensures=lambda c: [
        ("no key is left", fa(k, Not(dom(c.post)[k]))),
    ])
    S.contract(f"{cls}::options", inv=True, modifies=[], ensures=lambda c: [
        ("options name the distribution", And(c.res.uniform, Not(c.res.fifo), Not(c.res.lifo), Not(c.res.is_deterministic))),
    ])
