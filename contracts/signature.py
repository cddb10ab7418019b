"""Contracts of signature flattening (C25)."""
from z3 import *
from vc.mtypes import *
from vc import sym as X, models as M, tf
from contracts.lib import fa, same
k, j, i_ = Ints("k j i_")
OK, INVALID = 0, 3
TSPEC, BSPEC, LIST, TUPLE, DICT, NT = 33, 35, 51, 52, 53, 54
SV = MOpaque("tensorflow::StructuredValue"); STR = MStr()
_f = {}
def fn(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _f: _f[key] = Function(name, *sorts)
    return _f[key]
def V(): return SV.sort()
def S_(): return STR.sort()
KIND = lambda v: fn("kind_of_value", V(), IntSort())(v)
LEN = lambda v: fn("values_in_value", V(), IntSort())(v)
CHILD = lambda v, i: fn("child_of_value", V(), IntSort(), V())(v, i)
NAME = lambda v, i: fn("name_of_child", V(), IntSort(), S_())(v, i)
CAT = lambda a, b: fn("concatenation", S_(), S_(), S_())(a, b)
NUM = lambda x: fn("decimal", IntSort(), S_())(x)
LT = lambda a, b: fn("less_as_text", S_(), S_(), BoolSort())(a, b)
VALID = lambda v: fn("only_tensor_leaves", V(), BoolSort())(v)
def EMPTY(ex): return M.str_lit(ex, "")
def EXT(ex, c, n): return CAT(CAT(c, If(And(M.str_len(c) != 0, M.str_len(n) != 0), M.str_lit(ex, "/"), M.str_lit(ex, ""))), n)
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    S.assumptions.add("protobuf accessors of tensorflow::StructuredValue return the stored message; a signature is a finite tree (the recursion ends)")
    # text
    def strcat(ex, n):
        out = None
        for a in n["args"]:
            while isinstance(a, dict) and (a.get("k") in ("mat", "cast") or a.get("k") == "ctor" and "AlphaNum" in str(a.get("fn"))): a = a["args"][0] if a["k"] == "ctor" else a["e"]
            v = ex.rv(ex.eval(a)); mt = getattr(v, "mt", None)
            e = v.e if isinstance(mt, MStr) else NUM(v.e) if isinstance(mt, MInt) else ex.fresh(S_(), "text")
            out = e if out is None else CAT(out, e)
        return X.Z(STR, out)
    S.call_models["absl::StrCat"] = strcat
    text = lambda ex, lv, n: ex.fresh_val(STR, "text")
    TF = "tensorflow::"
    OPQ = {m: MOpaque(TF + m) for m in ("TensorSpecProto", "BoundedTensorSpecProto", "ListValue", "TupleValue", "DictValue", "NamedTupleValue", "PairValue")}
    read = lambda ex, lv: ex.z(lv.read(ex))
    def part(m): return lambda ex, lv, n: X.Z(OPQ[m], fn("part_" + m, V(), OPQ[m].sort())(read(ex, lv)))
    part_of = lambda m, v: fn("part_" + m, V(), OPQ[m].sort())(v)
    for acc, m in (("tensor_spec_value", "TensorSpecProto"), ("bounded_tensor_spec_value", "BoundedTensorSpecProto"), ("list_value", "ListValue"), ("tuple_value", "TupleValue"), ("dict_value", "DictValue"), ("named_tuple_value", "NamedTupleValue")):
        S.opaque_models[TF + "StructuredValue::" + acc] = part(m)
    S.opaque_models[TF + "StructuredValue::kind_case"] = lambda ex, lv, n: X.Z(MInt(32, True), KIND(read(ex, lv)))
    for m in ("google::protobuf::Message", "google::protobuf::MessageLite"): S.opaque_models[m + "::DebugString"] = text; S.opaque_models[m + "::ShortDebugString"] = text
    LEAF = {"name": lambda m: fn("name_" + m, OPQ[m].sort(), S_()), "dtype": lambda m: fn("dtype_" + m, OPQ[m].sort(), IntSort()), "shape": lambda m: fn("shape_" + m, OPQ[m].sort(), tf.SHAPEP.sort())}
    for m in ("TensorSpecProto", "BoundedTensorSpecProto"):
        S.opaque_models[f"{TF}{m}::name"] = lambda ex, lv, n, m=m: X.Z(STR, LEAF["name"](m)(read(ex, lv)))
        S.opaque_models[f"{TF}{m}::dtype"] = lambda ex, lv, n, m=m: X.Z(MInt(32, True), LEAF["dtype"](m)(read(ex, lv)))
        S.opaque_models[f"{TF}{m}::shape"] = lambda ex, lv, n, m=m: X.Z(tf.SHAPEP, LEAF["shape"](m)(read(ex, lv)))
    def leaf(v, what): return If(KIND(v) == TSPEC, LEAF[what]("TensorSpecProto")(part_of("TensorSpecProto", v)), LEAF[what]("BoundedTensorSpecProto")(part_of("BoundedTensorSpecProto", v)))
    SEQ, PAIRS, MAP = MSeq(SV), MSeq(OPQ["PairValue"]), MMap(STR, SV)
    def vals(m, mt): return lambda ex, lv, n: X.Z(mt, fn("values_" + m, OPQ[m].sort(), mt.sort())(read(ex, lv)))
    values = lambda m, v, mt: fn("values_" + m, OPQ[m].sort(), mt.sort())(part_of(m, v))
    for m in ("ListValue", "TupleValue"): S.opaque_models[f"{TF}{m}::values"] = vals(m, SEQ)
    S.opaque_models[TF + "NamedTupleValue::values"] = vals("NamedTupleValue", PAIRS)
    S.opaque_models[TF + "DictValue::fields"] = vals("DictValue", MAP)
    def size(ex, lv, n): v = ex.fresh(IntSort(), "size"); ex.assume(v >= 0); return X.Z(MInt(32, True), v)
    S.opaque_models[TF + "DictValue::fields_size"] = size
    PKEY = lambda p: fn("pair_key", OPQ["PairValue"].sort(), S_())(p); PVAL = lambda p: fn("pair_value", OPQ["PairValue"].sort(), V())(p)
    S.opaque_models[TF + "PairValue::key"] = lambda ex, lv, n: X.Z(STR, PKEY(read(ex, lv)))
    S.opaque_models[TF + "PairValue::value"] = lambda ex, lv, n: X.Z(SV, PVAL(read(ex, lv)))
    # the tree a value stands for, and its leaves
    N = lambda v: fn("leaves", V(), IntSort())(v); CUM = lambda v, x: fn("leaves_before_child", V(), IntSort(), IntSort())(v, x)
    PATH = lambda v, c, q: fn("path_of_leaf", V(), S_(), IntSort(), S_())(v, c, q); DT = lambda v, q: fn("type_of_leaf", V(), IntSort(), IntSort())(v, q); SH = lambda v, q: fn("shape_of_leaf", V(), IntSort(), tf.SHAPEP.sort())(v, q)
    IDX = lambda v, s: fn("place_of_key", V(), S_(), IntSort())(v, s)
    isleaf = lambda v: Or(KIND(v) == TSPEC, KIND(v) == BSPEC); isnode = lambda v: Or(*[KIND(v) == x for x in (LIST, TUPLE, DICT, NT)])
    q_ = Int("q_"); t_ = Const("t_text", S_())
    S.assumptions.add("the keys of a dictionary value are a finite set of texts with a strict total order (std::sort's order on std::string); the sorted enumeration of them is unique (proved as a lemma)")
    def define(ex, v, ctx, *ix):
        """the definition of the tree and its leaves for value v"""
        A = ex.assume_once
        A(LEN(v) >= 0); A(CUM(v, 0) == 0)
        A(VALID(v) == Or(isleaf(v), And(isnode(v), fa(i_, Implies(And(0 <= i_, i_ < LEN(v)), VALID(CHILD(v, i_))), VALID(CHILD(v, i_))))))
        A(Implies(isleaf(v), And(N(v) == 1, PATH(v, ctx, 0) == EXT(ex, ctx, leaf(v, "name")), DT(v, 0) == leaf(v, "dtype"), SH(v, 0) == leaf(v, "shape"))))
        for m in ("TensorSpecProto", "BoundedTensorSpecProto"): P = LEAF["shape"](m)(part_of(m, v)); A(fa(sh_, SAME(P, sh_) == tf.same_proto_shape(P, sh_), SAME(P, sh_)))
        A(Implies(isnode(v), N(v) == CUM(v, LEN(v))))
        for m, kd in (("ListValue", LIST), ("TupleValue", TUPLE)):
            s = values(m, v, SEQ); A(SEQ.len(s) >= 0)
            A(Implies(KIND(v) == kd, And(SEQ.len(s) == LEN(v), fa(i_, Implies(And(0 <= i_, i_ < LEN(v)), And(Select(SEQ.arr(s), i_) == CHILD(v, i_), NAME(v, i_) == NUM(i_))), Select(SEQ.arr(s), i_)), fa(i_, Implies(And(0 <= i_, i_ < LEN(v)), And(Select(SEQ.arr(s), i_) == CHILD(v, i_), NAME(v, i_) == NUM(i_))), CHILD(v, i_)))))
        s = values("NamedTupleValue", v, PAIRS); A(PAIRS.len(s) >= 0)
        A(Implies(KIND(v) == NT, And(PAIRS.len(s) == LEN(v), fa(i_, Implies(And(0 <= i_, i_ < LEN(v)), And(PVAL(Select(PAIRS.arr(s), i_)) == CHILD(v, i_), PKEY(Select(PAIRS.arr(s), i_)) == NAME(v, i_))), Select(PAIRS.arr(s), i_)))))
        s = values("DictValue", v, MAP); dom, val = MAP.dom(s), MAP.val(s)
        A(Implies(KIND(v) == DICT, And(fa(i_, Implies(And(0 <= i_, i_ < LEN(v)), And(Select(dom, NAME(v, i_)), Select(val, NAME(v, i_)) == CHILD(v, i_))), NAME(v, i_)), fa([i_, j], Implies(And(0 <= i_, i_ < j, j < LEN(v)), LT(NAME(v, i_), NAME(v, j))), MultiPattern(NAME(v, i_), NAME(v, j))),
                                       fa(t_, Implies(Select(dom, t_), And(0 <= IDX(v, t_), IDX(v, t_) < LEN(v), NAME(v, IDX(v, t_)) == t_)), Select(dom, t_)))))
        for x in ix: child(ex, v, ctx, x)
    def child(ex, v, ctx, x):
        """the definition of the leaves of child x"""
        w, c = CHILD(v, x), EXT(ex, ctx, NAME(v, x)); p = CUM(v, x); r = And(0 <= x, x < LEN(v), isnode(v))
        ex.assume_once(Implies(r, And(CUM(v, x + 1) == p + N(w), N(w) >= 0, *[fa(q_, Implies(And(p <= q_, q_ < p + N(w)), a == b), a) for a, b in ((PATH(v, ctx, q_), PATH(w, c, q_ - p)), (DT(v, q_), DT(w, q_ - p)), (SH(v, q_), SH(w, q_ - p)))])))
    def order(ex):
        a, b, c = Consts("ta tb tc", S_())
        ex.assume_once(fa(a, Not(LT(a, a)), LT(a, a))); ex.assume_once(fa([a, b, c], Implies(And(LT(a, b), LT(b, c)), LT(a, c)), MultiPattern(LT(a, b), LT(b, c)))); ex.assume_once(fa([a, b], Or(a == b, LT(a, b), LT(b, a)), MultiPattern(LT(a, b), LT(b, a))))
    SAME = lambda p, sh: fn("same_shape_as_described", tf.SHAPEP.sort(), tf.SHAPE.sort(), BoolSort())(p, sh); sh_ = Const("sh_", tf.SHAPE.sort())
    def matches(el, e, v, c, q):
        return [("path", el.get(e, "name") == PATH(v, c, q)), ("type", el.get(e, "dtype") == DT(v, q)), ("shape", SAME(SH(v, q), el.get(e, "shape")))]
    def appended(ex, new, old, v, ctx, upto=None, base=None):
        """`new` is `old` followed by the leaves of v (the first `upto` of them)"""
        n = N(v) if upto is None else upto; el = new._mt.el; b = old.len
        return [("what was there stays", And(new.len == b + n, n >= 0, fa(k, Implies(And(0 <= k, k < b), new.arr[k] == old.arr[k]), new.arr[k])))]+[("every leaf follows once, in order, with its " + l, fa(k, Implies(And(b <= k, k < b + n), f), new.arr[k])) for l, f in matches(el, new.arr[k], v, ctx, k - b)]
    def opt(o): return X.wrap(o._view, o._mt.ft("value"), o._mt.get(o.e, "value")), o._mt.get(o.e, "has")
    FL = "internal::FlatSignatureFromStructuredValue"
    S.contract("internal::ExtendContext", static=True, modifies=[], sig=">)", tag="text", ensures=lambda c: [("the context, a slash unless one is empty, and the name", c.res == EXT(c.ex, c.arg(0), c.arg(1)))])
    S.contract("internal::ExtendContext", static=True, modifies=[], sig="long)", tag="number", ensures=lambda c: [("the context, a slash unless it is empty, and the number", c.res == EXT(c.ex, c.arg(0), NUM(c.arg(1))))], setup=lambda ex, c: ex.assume(M.str_len(NUM(c.arg(1))) > 0))
    # std::sort of texts: a permutation, in order; a sorted enumeration of a dictionary's keys is its list of keys
    def sort(ex, n):
        a = ex.rv(ex.eval(n["args"][0])); b = ex.rv(ex.eval(n["args"][1]))
        if len(n["args"]) != 2 or not (isinstance(a, X.PyVal) and a.kind == "seqiter" and isinstance(a.lv.mt, MSeq) and isinstance(a.lv.mt.el, MStr)): return NotImplemented
        lv, mt = a.lv, a.lv.mt; s = ex.z(lv.read(ex), mt); m, old = mt.len(s), mt.arr(s)
        if not (simplify(a.idx).eq(IntVal(0)) and simplify(b.idx).eq(simplify(m))): return NotImplemented
        new = ex.fresh(ArraySort(IntSort(), S_()), "sorted"); p, pi = (Function(str(ex.fresh(IntSort(), x)), IntSort(), IntSort()) for x in ("perm", "mrep")); order(ex)
        ex.assume(fa(k, Implies(And(0 <= k, k < m), And(0 <= p(k), p(k) < m, pi(p(k)) == k, new[k] == old[p(k)])), new[k])); ex.assume(fa(k, Implies(And(0 <= k, k < m), And(0 <= pi(k), pi(k) < m, p(pi(k)) == k, new[pi(k)] == old[k])), old[k]))
        ex.assume(fa([k, j], Implies(And(0 <= k, k < j, j < m), Or(new[k] == new[j], LT(new[k], new[j]))), MultiPattern(new[k], new[j])))
        lv.write(ex, X.Z(mt, mt.mk(m, new))); v = ex.value
        if v is not None:
            f = values("DictValue", v, MAP); dom = MAP.dom(f)
            ex.induct("a sorted enumeration of the keys is the list of keys", LEN(v), lambda e: And(e <= m, fa(k, Implies(And(0 <= k, k < e), new[k] == NAME(v, k)), new[k]), fa(k, Implies(And(0 <= k, k < e), new[k] == NAME(v, k)), NAME(v, k))), lambda e: Implies(And(1 <= e, e <= LEN(v)), And(Select(dom, NAME(v, e - 1)), IDX(v, new[e - 1]) >= 0, Select(dom, new[e - 1]))))
            x = LEN(v); ex.assume_once(Implies(x < m, Select(dom, new[x]))) if False else None
            ex.obligation("there are as many keys in the dictionary", Implies(And(x < m, Select(dom, new[x]), IDX(v, new[x]) >= 0, new[IDX(v, new[x])] == NAME(v, IDX(v, new[x]))), BoolVal(False)), ex.line, "lemma"); ex.obligation("every key is a key of the dictionary", fa(k, Implies(And(0 <= k, k < m), Select(dom, new[k])), new[k]), ex.line, "lemma"); ex.assume(m == LEN(v))
        return None
    S.call_models["std::sort"] = sort
    def setup(ex, c):
        ex.value = c.arg(0); ex.assume(opt(c.ptr(2))[0].len >= 0); define(ex, c.arg(0), c.arg(1)); ex.assume(fa(k, M.str_len(NUM(k)) > 0, NUM(k)))
    def pre(c):
        o, has = opt(c.ptr(2)); return [("there is a list to add to", has)]
    def post(c):
        v, ctx = c.arg(0), c.arg(1); a, _ = opt(c.ptr(2)); b, has = opt(c.ptrpost(2))
        return [("accepted exactly if every leaf is a tensor specification", (c.res == OK) == VALID(v)), ("the list stays a list", has)] + [(l, Implies(c.res == OK, f)) for l, f in appended(c.ex, b, a, v, ctx)]
    def loop(L):
        ex = L.ex; c = L.fctx; v, ctx = c.arg(0), c.arg(1); x = L.i; a, _ = opt(c.ptr(2)); b, has = opt(c.ptrpost(2)); child(ex, v, ctx, x); child(ex, v, ctx, x - 1)
        return [("the list stays a list", has), ("all children so far have only tensor leaves", fa(i_, Implies(And(0 <= i_, i_ < x), VALID(CHILD(v, i_))), CHILD(v, i_))), ("children so far", And(0 <= x, x <= LEN(v)))] + appended(ex, b, a, v, ctx, CUM(v, x))
    def collect(L):
        ks = L.local("keys"); s = L.visited
        return [("the keys so far, once each", And(ks.len >= 0, fa(k, Implies(And(0 <= k, k < ks.len), Select(s, ks.arr[k])), ks.arr[k]), fa([k, j], Implies(And(0 <= k, k < j, j < ks.len), ks.arr[k] != ks.arr[j]), MultiPattern(ks.arr[k], ks.arr[j])), fa(t_, Implies(Select(s, t_), Exists([k], And(0 <= k, k < ks.len, ks.arr[k] == t_))), Select(s, t_))))]
    S.contract(FL, static=True, nparams=3, nonnull=(2,), setup=setup, requires=pre, modifies=[("arg", 2)], loops={0: loop, 1: loop, 2: collect, 3: loop, 4: loop}, ensures=post)
    def post2(c):
        v = c.arg(0); a, _ = opt(c.ptr(1)); b, has = opt(c.ptrpost(1)); ctx = EMPTY(c.ex)
        return [("the list stays a list", has), ("accepted exactly if every leaf is a tensor specification", (c.res == OK) == VALID(v))] + [(l, Implies(c.res == OK, f)) for l, f in appended(c.ex, b, a, v, ctx)]
    S.contract(FL, static=True, nparams=2, nonnull=(1,), requires=lambda c: [("there is a list to add to", opt(c.ptr(1))[1])], modifies=[("arg", 1)], ensures=post2)
    def info_post(c):
        mt = c.arg(0)._mt; v = mt.get(c.arg(0).e, "signature"); has_sig = mt.get(c.arg(0).e, "has_signature") if mt.has("has_signature") else None; b, has = opt(c.ptrpost(1)); empty = X.wrap(c.V1, b._mt, b._mt.empty())
        return [("a table without a signature yields no constraint", Implies(Not(has_sig), And(c.res == OK, Not(has)))), ("accepted exactly if every leaf is a tensor specification", Implies(has_sig, (c.res == OK) == VALID(v)))] + [(l, Implies(And(has_sig, c.res == OK), And(has, f))) for l, f in appended(c.ex, b, empty, v, EMPTY(c.ex))]
    S.contract("internal::FlatSignatureFromTableInfo", static=True, nonnull=(1,), modifies=[("arg", 1)], ensures=info_post)
