"""Contracts of the table (C03, C04, C05, C06, C07)."""
from z3 import *
from vc.mtypes import *
from vc.specs import Monitor
from contracts.lib import fa, same, eqv
OK, INVALID = 0, 3
CLS, IT, SEL, RL = "Table", "TableItem", "ItemSelector", "RateLimiter"
I, B, R = IntSort(), BoolSort(), RealSort()
k, e, i, r, x = Ints("k e i r x")
KS, KV = ArraySort(I, B), ArraySort(I, I)
ACC = Function("accepts", I, R, B)        # the selector accepts the priority

def register(S):
    import contracts.rate_limiter as rl
    U64 = MInt(64, False)
    GP = MMap(U64, MReal())
    S.ghost[f"{SEL}.gp"] = GP                 # keys of the selector with their priorities
    S.ghost[f"{SEL}.last_key"] = U64          # what Sample returned last
    S.ghost[f"{SEL}.last_prob"] = MReal()
    S.ghost[f"{CLS}.restoring"] = MBool()     # items of a checkpoint are being put back
    # ---------------------------------------------------------------- selector interface
    def gp(c, post=False): return (c.post if post else c.pre).gp
    def unchanged(c): return And(c.post.gp.dom == c.pre.gp.dom, c.post.gp.val == c.pre.gp.val)
    A = dict(abstract=True)
    S.contract(f"{SEL}::Insert", modifies=["gp"], ensures=lambda c: [
        ("a key is inserted iff it is absent and its priority accepted", (c.res == OK) == And(Not(c.pre.gp.dom[c.arg(0)]), ACC(c.thisref, c.arg(1)))),
        ("inserted with the priority", Implies(c.res == OK, And(c.post.gp.dom == Store(c.pre.gp.dom, c.arg(0), True), c.post.gp.val == Store(c.pre.gp.val, c.arg(0), c.arg(1))))),
        ("or nothing changes", Implies(c.res != OK, unchanged(c)))], **A)
    S.contract(f"{SEL}::Delete", modifies=["gp"], ensures=lambda c: [
        ("a key is deleted iff it is present", (c.res == OK) == c.pre.gp.dom[c.arg(0)]),
        ("deleted", And(c.post.gp.dom == Store(c.pre.gp.dom, c.arg(0), False), c.post.gp.val == c.pre.gp.val))], **A)
    S.contract(f"{SEL}::Update", modifies=["gp"], ensures=lambda c: [
        ("a key is updated iff it is present and its priority accepted", (c.res == OK) == And(c.pre.gp.dom[c.arg(0)], ACC(c.thisref, c.arg(1)))),
        ("updated", Implies(c.res == OK, And(c.post.gp.dom == c.pre.gp.dom, c.post.gp.val == Store(c.pre.gp.val, c.arg(0), c.arg(1))))),
        ("or nothing changes", Implies(c.res != OK, unchanged(c)))], **A)
    S.contract(f"{SEL}::Clear", modifies=["gp"], ensures=lambda c: [("empty", c.post.gp.dom == K(I, False))], **A)
    def nonempty(c):
        from vc.sym import ObjW
        if not getattr(c, "is_impl", False) and c.ex.this is not None and "Table" == str(c.ex.this.mt.to_ty.s).split("::")[-1]:      # an empty set has no elements
            c.ex.M.card_facts(c.ex, ObjW(c.ex.view(), c.ex.this_ref(c.ex.this), CLS).data_.dom)
        return [("the selector is not empty", c.pre.gp.dom != K(I, False))]
    S.contract(f"{SEL}::Sample", modifies=["last_key", "last_prob"], requires=nonempty, ensures=lambda c: [
        ("a present key", c.pre.gp.dom[c.res.key]), ("recorded", And(c.post.last_key == c.res.key, c.post.last_prob == c.res.probability))], **A)
    S.contract(f"{SEL}::options", modifies=[], ensures=lambda c: [("the options of this selector", c.res.e == OPT(c.res.e.sort())(c.thisref))], **A)
    S.assumptions.add("table functions see selectors through the interface contract (insert/update/delete succeed iff the key is absent/present and, for priorities, accepted; rejected calls change nothing; sampling returns a present key): C08-C11 prove it for each selector")
    S.assumptions.add("sampler and remover are distinct objects and are used by one table only")
    S.assumptions.add("table extensions do not modify the table")
    for m in ("OnInsert", "OnSample", "OnUpdate", "OnDelete", "OnReset"): S.contract(f"TableExtension::{m}", abstract=True, modifies=[], ensures=lambda c: [])
    # ---------------------------------------------------------------- how often items reference an episode
    from vc.sym import Executor
    def heaps(v):
        ex = v.ex
        ich = v.harr(f"{IT}.chunks", ex.field_mt(IT, "chunks")); cd = v.harr("ChunkStore::Chunk.data_", ex.field_mt("ChunkStore::Chunk", "data_"))
        return ich, cd
    fns = {}
    def F(v):
        """the spec functions, for the sorts in use"""
        ich, cd = heaps(v); ex = v.ex
        if "PC" in fns: return fns
        SQ = ex.field_mt(IT, "chunks"); CD = ex.field_mt("ChunkStore::Chunk", "data_")
        def ep(cd, c): return CD.ft("sequence_range").get(CD.get(Select(cd, c), "sequence_range"), "episode_id")
        PC = Function("episode_count", KV, I, I, cd.sort(), I)      # among the first n chunks
        T = Function("episode_total", KS, KV, ich.sort(), cd.sort(), I, I)
        def cnt(ich, cd, r, ee): q = Select(ich, r); return PC(SQ.arr(q), SQ.len(q), ee, cd)
        fns.update(PC=PC, T=T, ep=ep, cnt=cnt, SQ=SQ)
        d, vv, ic, c = Const("d", KS), Const("v", KV), Const("ic", ich.sort()), Const("c", cd.sort())
        a = Const("a", KV); sq = Const("sq", SQ.sort()); n, m = Ints("n m")
        S.axioms += [
            ForAll([a, e, c], PC(a, 0, e, c) == 0, patterns=[PC(a, 0, e, c)]),
            ForAll([a, n, e, c], Implies(n >= 0, And(PC(a, n, e, c) >= 0)), patterns=[PC(a, n, e, c)]),
            ForAll([a, n, m, e, c], Implies(And(0 <= n, n <= m), PC(a, n, e, c) <= PC(a, m, e, c)), patterns=[MultiPattern(PC(a, n, e, c), PC(a, m, e, c))]),
            ForAll([d, vv, ic, c, e], T(d, vv, ic, c, e) >= 0, patterns=[T(d, vv, ic, c, e)]),
            ForAll([vv, ic, c, e], T(K(I, False), vv, ic, c, e) == 0, patterns=[T(K(I, False), vv, ic, c, e)]),
            ForAll([d, vv, ic, c, k, e], T(Store(d, k, True), vv, ic, c, e) == T(d, vv, ic, c, e) + If(d[k], 0, cnt(ic, c, vv[k], e)), patterns=[T(Store(d, k, True), vv, ic, c, e)]),
            ForAll([d, vv, ic, c, k, e], T(Store(d, k, False), vv, ic, c, e) == T(d, vv, ic, c, e) - If(d[k], cnt(ic, c, vv[k], e), 0), patterns=[T(Store(d, k, False), vv, ic, c, e)]),
            ForAll([d, vv, ic, c, k, x, e], Implies(Not(d[k]), T(d, Store(vv, k, x), ic, c, e) == T(d, vv, ic, c, e)), patterns=[T(d, Store(vv, k, x), ic, c, e)]),
            ForAll([d, vv, ic, c, r, sq, e], Implies(ForAll([k], Implies(d[k], vv[k] != r)), T(d, vv, Store(ic, r, sq), c, e) == T(d, vv, ic, c, e)), patterns=[T(d, vv, Store(ic, r, sq), c, e)]),
        ]
        S.assumptions.add("definition and elementary facts of finite sums: episode_total sums, over the stored items, how many of an item's chunks belong to an episode")
        return fns
    def total(o, ee): f = F(o._view); ich, cd = heaps(o._view); return f["T"](o.data_.dom, o.data_.val, ich, cd, ee)
    def part(v, arr, n, ee): f = F(v); return f["PC"](arr, n, ee, heaps(v)[1])
    def step(ex, v, arr, n):      # definition of the count at n + 1
        f = F(v); cd = heaps(v)[1]
        ex.assume(ForAll([e], f["PC"](arr, n + 1, e, cd) == f["PC"](arr, n, e, cd) + If(f["ep"](cd, Select(arr, n)) == e, 1, 0), patterns=[f["PC"](arr, n + 1, e, cd), f["PC"](arr, n, e, cd)]))
    def item(v, ref):
        mt = v.ex.field_mt(IT, "item"); q = Select(v.harr(f"{IT}.item", mt), ref)
        return lambda f: mt.get(q, f)
    def chunks(v, ref):
        SQ = F(v)["SQ"]; q = Select(heaps(v)[0], ref); return SQ.arr(q), SQ.len(q)
    # ---------------------------------------------------------------- the table invariant
    def shape(o):
        yield "sampler, remover and limiter exist", And(o.sampler_ > 0, o.remover_ > 0, o.sampler_ != o.remover_, o.rate_limiter_ > 0, o.sampler_ < o._view.alloc, o.remover_ < o._view.alloc, o.rate_limiter_ < o._view.alloc)
        v = o._view
        for i_ in S.invs_of(RL): yield from i_(v.obj(o.rate_limiter_, RL))
    def agree(o):
        v = o._view; D = o.data_; s, q = v.obj(o.sampler_, SEL).gp, v.obj(o.remover_, SEL).gp
        p = lambda kk: item(v, D.val[kk])
        yield "stored items are objects with their own key", fa(k, Implies(D.dom[k], And(D.val[k] > 0, D.val[k] < v.alloc, p(k)("key") == k)), D.dom[k])
        yield "the sampler knows exactly the stored keys", fa(k, s.dom[k] == D.dom[k], s.dom[k], D.dom[k])
        yield "the remover knows exactly the stored keys", fa(k, q.dom[k] == D.dom[k], q.dom[k], D.dom[k])
        yield "sampler and remover know each item's current priority", fa(k, Implies(D.dom[k], And(s.val[k] == p(k)("priority"), q.val[k] == p(k)("priority"), ACC(o.sampler_, s.val[k]), ACC(o.remover_, q.val[k]))), D.dom[k])
        yield "chunks of stored items exist", fa([k, i], Implies(And(D.dom[k], 0 <= i, i < chunks(v, D.val[k])[1]), chunks(v, D.val[k])[0][i] > 0), chunks(v, D.val[k])[0][i])
    def episodes(o):
        E = o.episode_refs_
        yield "an episode is listed iff a stored item references it", fa(e, E.dom[e] == (total(o, e) > 0), E.dom[e], total(o, e))
        yield "each listed episode has its number of references", fa(e, Implies(E.dom[e], E.val[e] == total(o, e)), E.dom[e])
    def counts(o, but=None):
        v = o._view; D = o.data_
        yield "sample counts are not negative and below the limit", fa(k, Implies(And(D.dom[k], k != but) if but is not None else D.dom[k], And(item(v, D.val[k])("times_sampled") >= 0, Implies(o.max_times_sampled_ > 0, item(v, D.val[k])("times_sampled") < o.max_times_sampled_))), D.dom[k])
    def size(o): return [("no more items than the capacity", card(o.data_.dom) <= o.max_size_)]
    def ledger(o):
        L = o._view.obj(o.rate_limiter_, RL)
        return [("the limiter counts exactly the stored items", Or(o.restoring, card(o.data_.dom) == L.inserts_ - L.deletes_))]
    core = lambda o, but=None: list(shape(o)) + list(agree(o)) + list(episodes(o)) + list(counts(o, but))
    full = lambda o: core(o) + size(o) + ledger(o)
    # ---------------------------------------------------------------- frames
    LIM = ["inserts_", "samples_", "deletes_", "can_insert_cv_", "can_sample_cv_", "insert_stats_", "sample_stats_", "cancelled_"]
    def lim(c, fs=LIM): return [("at", c.pre.rate_limiter_, f"{RL}.{f}") for f in fs]
    def sel(c): return [("at", c.pre.sampler_, f"{SEL}.gp"), ("at", c.pre.remover_, f"{SEL}.gp")]
    EXT = ["extension_requests_", "extension_work_available_cv_"]
    DATA = ["data_", "episode_refs_", "num_deleted_episodes_"] + EXT
    CV = ["can_insert_cv_", "can_sample_cv_"]
    def selgp(v, o, which): return v.obj(getattr(o, which), SEL).gp
    def gone(c, key, a, p):
        """key is removed from everything, nothing else changes"""
        D0, D1 = a.data_, p.data_; k0 = D0.dom[key]
        out = [("exactly the named item is removed", And(D1.dom == Store(D0.dom, key, False), fa(k, Implies(And(D0.dom[k], k != key), D1.val[k] == D0.val[k]), D1.val[k])))]
        for w in ("sampler_", "remover_"):
            g0, g1 = selgp(a._view, a, w), selgp(p._view, p, w)
            out.append((f"the {w[:-1]} forgets exactly the named key", And(g1.dom == Store(g0.dom, key, False), g1.val == g0.val)))
        return out
    def fixed(a, p, *fs): return [(f"{f} unchanged", eqv(getattr(p, f), getattr(a, f))) for f in fs]
    def limfix(a, p, **d):
        x0, x1 = a._view.obj(a.rate_limiter_, RL), p._view.obj(p.rate_limiter_, RL)
        return [(f"limiter counter {f} changes by the documented amount", getattr(x1, f) == getattr(x0, f) + d.get(f, 0)) for f in ("inserts_", "samples_", "deletes_")]
    def nsize(c): return [("number of chunks", True)]
    # ---------------------------------------------------------------- DeleteItem
    def setup_del(ex, c): F(ex.view())
    def cardfacts(c, o, *ks):
        for kk in ks: c.ex.M.card_remove(c.ex, o.data_.dom, kk); c.ex.M.card_insert(c.ex, o.data_.dom, kk)
        c.ex.M.card_facts(c.ex, o.data_.dom)
    def del_post(c):
        a, p, key = c.pre, c.post, c.arg(0)
        if not getattr(c, "is_impl", False): cardfacts(c, a, key)
        had = a.data_.dom[key]
        out = [("deleting succeeds", c.res == OK)] + gone(c, key, a, p) + list(core(p))
        out += [("the limiter counts the deletion of a stored item", x) for _, x in limfix(a, p, deletes_=If(had, 1, 0))]
        out += [("episodes no longer referenced are counted as deleted", p.num_deleted_episodes_ - a.num_deleted_episodes_ == card(a.episode_refs_.dom) - card(p.episode_refs_.dom))]
        return out
    def null(c, j):
        q = c.args[j]; q = getattr(q, "e", None)
        return q is not None and is_int_value(simplify(q)) and simplify(q).as_long() == 0
    def del_loop(L):
        o, a, v = L.this, L.this0, L.cur
        n = L.i; arr = L.seq.arr
        step(L.ex, v, arr, n)
        t = lambda ee: total(a, ee) - part(v, arr, n, ee)
        key = L.fctx.arg(0); E = o.episode_refs_
        return [("references counted down so far", fa(e, And(E.dom[e] == (t(e) > 0), Implies(E.dom[e], E.val[e] == t(e))), E.dom[e])),
                ("deleted episodes counted so far", o.num_deleted_episodes_ - a.num_deleted_episodes_ == card(a.episode_refs_.dom) - card(E.dom)),
                ("items are untouched", o.data_.e == a.data_.e)]
    def member(c):       # an item's count is part of the total
        ex, a = c.ex, c.pre; v = c.V0; f = F(v); ich, cd = heaps(v); key = c.arg(0)
        ex.assume(ForAll([e], Implies(a.data_.dom[key], total(a, e) >= f["cnt"](ich, cd, a.data_.val[key], e)), patterns=[total(a, e)]))
        q = f["SQ"].len(Select(ich, a.data_.val[key])); ex.assume(q >= 0)
    S.contract(f"{CLS}::DeleteItem", modifies=lambda c: DATA + sel(c) + lim(c, ["deletes_"] + CV) + ([] if null(c, 1) else [("arg", 1)]),
        requires=lambda c: core(c.pre, c.arg(0)), setup=lambda ex, c: member(c), ensures=del_post, loops={0: del_loop})
    S.core, S.full = core, full
    # ---------------------------------------------------------------- ExtensionOperation
    DELETE, RELEASE = 0, 4
    def ext_post(c):
        a, p, ty = c.pre, c.post, c.arg(0)
        q0, q1 = a.extension_requests_, p.extension_requests_
        add = And(a.extension_worker_ != 0, Or(a.has_async_extensions_, ty == DELETE, ty == RELEASE))
        REQ = c.ex.field_mt(CLS, "extension_requests_").el; EI = REQ.ft("item")
        last = Select(q1.arr, q0.len)
        return [("one request is queued for the extension worker iff it has to see the operation", q1.len == q0.len + If(add, 1, 0)),
                ("the request names operation and item", Implies(add, And(REQ.get(last, "call_type") == ty, EI.get(REQ.get(last, "item"), "ref") == c.arg(1)))),
                ("a sleeping extension worker is woken", Implies(And(add, q0.len == 0), p.extension_work_available_cv_ >= 1)),
                ("earlier requests stay", fa(i, Implies(And(0 <= i, i < q0.len), q1.arr[i] == q0.arr[i]), q1.arr[i]))]
    S.contract(f"{CLS}::ExtensionOperation", modifies=EXT, requires=lambda c: [("the item exists", And(c.arg(1) > 0, c.arg(1) < c.V0.alloc))], ensures=ext_post, loops={j: (lambda L: []) for j in range(4)},
               setup=lambda ex, c: exts(ex, c))
    def exts(ex, c):
        ex.assume(fa(i, Implies(And(0 <= i, i < c.pre.sync_extensions_.len), c.pre.sync_extensions_.arr[i] > 0), c.pre.sync_extensions_.arr[i]))
    S.assumptions.add("registered table extensions are not null")
    # ---------------------------------------------------------------- UpdateItem
    ITEMF = ("all", f"{IT}.item")
    def items_but(a, p, key=None, also=()):
        """no other object's item changes"""
        v0, v1 = a._view, p._view; mt = v0.ex.field_mt(IT, "item")
        h0, h1 = v0.harr(f"{IT}.item", mt), v1.harr(f"{IT}.item", mt)
        cond = [r > 0, r < v0.alloc] + ([Or(Not(a.data_.dom[key]), r != a.data_.val[key])] if key is not None else []) + [r != z for z in also]
        return ("no other item changes", fa(r, Implies(And(*cond), Select(h1, r) == Select(h0, r)), Select(h1, r)))
    def item_fix(a, p, ref, *but):
        mt = a._view.ex.field_mt(IT, "item"); q0, q1 = item(a._view, ref), item(p._view, ref)
        return And(*[q1(f) == q0(f) for f, _ in mt.fields if f not in but and f.replace("has_", "") not in but])
    def prio_set(a, p, key, pr):
        out = []
        for w in ("sampler_", "remover_"):
            g0, g1 = selgp(a._view, a, w), selgp(p._view, p, w)
            out.append((f"the {w[:-1]} gives exactly the named key its new priority", And(g1.dom == g0.dom, g1.val == Store(g0.val, key, pr))))
        return out
    def upd_post(c):
        a, p, key, pr = c.pre, c.post, c.arg(0), c.arg(1); had = a.data_.dom[key]
        ok = And(ACC(a.sampler_, pr), ACC(a.remover_, pr))
        ref = a.data_.val[key]
        out = [("an update fails exactly when a selector rejects the priority of a stored item", (c.res == OK) == Or(Not(had), ok)),
               ("the named item gets the priority", Implies(And(had, c.res == OK), item(c.V1, ref)("priority") == pr)),
               ("a rejected priority leaves the item as it was", Implies(And(had, c.res != OK), item(c.V1, ref)("priority") == item(c.V0, ref)("priority"))),
               ("nothing but the priority of the item changes", Implies(had, item_fix(a, p, ref, "priority"))), items_but(a, p, key)]
        out += [(l, Implies(And(had, c.res == OK), f)) for l, f in prio_set(a, p, key, pr)]
        for w in ("sampler_", "remover_"):
            g0, g1 = selgp(a._view, a, w), selgp(p._view, p, w)
            out.append((f"the {w[:-1]} is unchanged otherwise", Implies(Not(And(had, c.res == OK)), And(g1.dom == g0.dom, fa(k, Implies(g0.dom[k], g1.val[k] == g0.val[k]), g1.val[k])))))
        return out + list(core(p))
    S.contract(f"{CLS}::UpdateItem", modifies=lambda c: EXT + sel(c) + [ITEMF], requires=lambda c: core(c.pre), setup=setup_del_only(F), ensures=upd_post)
    S.tbl = dict(F=F, total=total, part=part, step=step, item=item, chunks=chunks, sel=sel, lim=lim, gone=gone)
    reg_insert(S, locals()); reg_sample(S, locals()); reg_public(S, locals())
_opt = {}
def OPT(s):
    if str(s) not in _opt: _opt[str(s)] = Function("options_of_" + str(s)[:40], I, s)
    return _opt[str(s)]
def setup_del_only(F): return lambda ex, c: F(ex.view())
def reg_insert(S, G):
    from types import SimpleNamespace
    g = SimpleNamespace(**G); item, chunks, part, total, F = g.item, g.chunks, g.part, g.total, g.F
    # ---------------------------------------------------------------- InsertOrAssignInternal
    def newitem(c, ref):
        q = item(c.V0, ref); arr, n = chunks(c.V0, ref)
        return [("the new item exists", And(ref > 0, ref < c.V0.alloc)),
                ("the new item is not stored", fa(k, Implies(c.pre.data_.dom[k], c.pre.data_.val[k] != ref), c.pre.data_.val[k])),
                ("the new item has not been sampled", And(q("times_sampled") >= 0, Implies(c.pre.max_times_sampled_ > 0, q("times_sampled") < c.pre.max_times_sampled_))),
                ("the chunks of the new item exist", fa(i, Implies(And(0 <= i, i < n), arr[i] > 0), arr[i]))]
    def inserted(c, a, p, key, ref, pr, victim, over, selectors=True):
        """the table after inserting ref under key and dropping victim if over capacity"""
        D0, D1 = a.data_, p.data_
        d = Store(D0.dom, key, True)
        out = [("the item is stored, and at most one item, chosen by the remover, is removed", And(D1.dom == If(over, Store(d, victim, False), d), Implies(over, d[victim]))),
               ("the item stored under the key is the inserted one", Implies(D1.dom[key], D1.val[key] == ref)),
               ("other items stay stored", fa(k, Implies(And(D1.dom[k], k != key), D1.val[k] == D0.val[k]), D1.val[k]))]
        out += g.limfix(a, p, inserts_=1, deletes_=If(over, 1, 0))
        return out
    def unchanged_all(c, a, p, limiter=True):
        out = [("stored items are unchanged", And(p.data_.dom == a.data_.dom, fa(k, Implies(a.data_.dom[k], p.data_.val[k] == a.data_.val[k]), p.data_.val[k])))]
        for w in ("sampler_", "remover_"):
            g0, g1 = g.selgp(a._view, a, w), g.selgp(p._view, p, w)
            out.append((f"the {w[:-1]} is unchanged", And(g1.dom == g0.dom, fa(k, Implies(g0.dom[k], g1.val[k] == g0.val[k]), g1.val[k]))))
        return out + (g.limfix(a, p) if limiter else [])
    def ins_post(c):
        a, p, ref = c.pre, c.post, c.arg(0)
        q = item(c.V0, ref); key, pr = q("key"), q("priority"); had = a.data_.dom[key]
        if not getattr(c, "is_impl", False): g.cardfacts(c, a, key)
        ok = And(ACC(a.sampler_, pr), ACC(a.remover_, pr))
        over = card(a.data_.dom) + 1 > a.max_size_
        victim = p._view.obj(a.remover_, SEL).last_key
        out = [("an insert or update fails exactly when a selector rejects the priority", (c.res == OK) == ok)]
        out += [(l, Implies(had, f)) for l, f in [("an update keeps the set of stored items", And(p.data_.dom == a.data_.dom, fa(k, Implies(a.data_.dom[k], p.data_.val[k] == a.data_.val[k]), p.data_.val[k])))] + g.limfix(a, p)]
        out += [("an accepted update sets the priority", Implies(And(had, ok), item(c.V1, a.data_.val[key])("priority") == pr)),
                ("an update changes nothing but the priority", Implies(had, g.item_fix(a, p, a.data_.val[key], "priority"))),
                ("a rejected update leaves the priority", Implies(And(had, Not(ok)), item(c.V1, a.data_.val[key])("priority") == item(c.V0, a.data_.val[key])("priority")))]
        out += [("nothing else changes: " + l, Implies(And(Not(had), Not(ok)), f)) for l, f in unchanged_all(c, a, p)]
        out += [(l, Implies(And(Not(had), ok), f)) for l, f in inserted(c, a, p, key, ref, pr, victim, over)]
        out += [("inserting changes no field of an item but its insertion time", Implies(Not(had), g.item_fix(a, p, ref, "inserted_at")))]
        out += [g.items_but(a, p, key, also=[ref])]
        return out + list(S.full(p))
    def ins_loop(L):
        o, a, v = L.this, L.this0, L.cur
        ref = L.fctx.arg(0); n, arr = L.i, L.seq.arr
        g.step(L.ex, v, arr, n)
        E = o.episode_refs_; t = lambda ee: total(a, ee) + part(v, arr, n, ee)
        return [("references counted up so far", fa(e, And(E.dom[e] == (t(e) > 0), Implies(E.dom[e], E.val[e] == t(e))), E.dom[e])),
                ("items are untouched while counting", o.data_.e == L.thisentry.data_.e)]
    S.contract(f"{CLS}::InsertOrAssignInternal", requires=lambda c: S.full(c.pre) + newitem(c, c.arg(0)) + [("no checkpoint is being loaded", Not(c.pre.restoring))],
        modifies=lambda c: g.DATA + g.sel(c) + g.lim(c, ["inserts_", "deletes_"] + g.CV) + [g.ITEMF, ("at", c.pre.remover_, f"{SEL}.last_key"), ("at", c.pre.remover_, f"{SEL}.last_prob")],
        setup=lambda ex, c: (F(ex.view()), g.exts(ex, c)), ensures=ins_post, loops={0: ins_loop}, nparams=1)
    def ins_loop2(L):      # the same loop in InsertOrAssign: `it` is the stored item
        o, v = L.this, L.cur; a = L.ex.snap_acq.obj(o.ref, CLS); e0 = L.thisentry
        n, arr = L.i, L.seq.arr
        g.step(L.ex, v, arr, n)
        E = o.episode_refs_; t = lambda ee: total(a, ee) + part(v, arr, n, ee)
        return [("references counted up so far", fa(e, And(E.dom[e] == (t(e) > 0), Implies(E.dom[e], E.val[e] == t(e))), E.dom[e])),
                ("items are untouched while counting", o.data_.e == e0.data_.e)]
    S.tbl.update(inserted=inserted, unchanged_all=unchanged_all, ins_loop=ins_loop, ins_loop2=ins_loop2)
def reg_sample(S, G):
    from types import SimpleNamespace
    g = SimpleNamespace(**G); item, chunks, part, total, F = g.item, g.chunks, g.part, g.total, g.F
    # ---------------------------------------------------------------- one sample (a: before, p: after, e: the returned sample)
    def ticked(a, p, ref):
        """only the sample count of ref changes, by one"""
        mt = a._view.ex.field_mt(IT, "item"); q0, q1 = item(a._view, ref), item(p._view, ref)
        return And(q1("times_sampled") == q0("times_sampled") + 1, g.item_fix(a, p, ref, "times_sampled"))
    def sampled(c, a, p, e, limited, base=None):
        D0, D1 = a.data_, p.data_; smp = p._view.obj(a.sampler_, SEL)
        key, ref = smp.last_key, D0.val[smp.last_key]
        q0, q1 = item(a._view, ref), item(p._view, ref)
        last = q0("times_sampled") + 1 == a.max_times_sampled_
        return [("the sampled item is a stored one", D0.dom[key]), ("the sampled item is the one chosen by the sampler", e("ref") == ref),
                ("the reported probability is the sampler's", e("probability") == smp.last_prob),
                ("the reported table size is the number of stored items", e("table_size") == card(D0.dom)),
                ("the reported priority is the item's", e("priority") == q0("priority")),
                ("the reported sample count includes this sample", e("times_sampled") == q0("times_sampled") + 1),
                ("the sample tells whether it was rate limited", e("rate_limited") == limited),
                ("the sample is counted for exactly the sampled item", ticked(a, p, ref)),
                ("no other item changes", g.items_but(a, p, key)[1]),
                ("the item is removed iff this was its last permitted sample", And(D1.dom == If(last, Store(D0.dom, key, False), D0.dom), fa(k, Implies(D1.dom[k], D1.val[k] == D0.val[k]), D1.val[k]))),
                ("items sampled for the first time are counted", p.num_unique_samples_ == a.num_unique_samples_ + If(q0("times_sampled") == 0, 1, 0)),
               ] + g.limfix(a, p, deletes_=If(last, 1, 0), **({"samples_": base} if base is not None else {}))
    def room(c): return [("sample counts do not overflow", fa(k, Implies(c.pre.data_.dom[k], item(c.V0, c.pre.data_.val[k])("times_sampled") < 2 ** 31 - 1), c.pre.data_.dom[k]))]
    S.assumptions.add("an item is sampled fewer than 2^31 times, a table has seen fewer than 2^63 operations")
    def entry(mt, q): return lambda f: mt.get(q, f)
    def res_entry(c): 
        r = c.ptrpost(1); return lambda f: r.__getattr__(f)
    SMPF = ["ref", "probability", "table_size", "priority", "times_sampled", "rate_limited"]
    SMOD = lambda c: g.DATA + ["num_unique_samples_"] + g.sel(c) + g.lim(c, ["deletes_"] + g.CV) + [g.ITEMF, ("at", c.pre.sampler_, f"{SEL}.last_key"), ("at", c.pre.sampler_, f"{SEL}.last_prob")]
    def facts(ex, c):
        F(ex.view()); g.exts(ex, c); c.ex.M.card_facts(c.ex, c.pre.data_.dom)
    S.contract(f"{CLS}::SampleInternal", nonnull=(1,), requires=lambda c: S.full(c.pre) + room(c) + [("no checkpoint is being loaded", Not(c.pre.restoring)), ("something is stored", c.pre.data_.dom != K(I, False))],
        modifies=lambda c: SMOD(c) + [("arg", 1)], setup=facts,
        ensures=lambda c: [("sampling succeeds", c.res == OK)] + sampled(c, c.pre, c.post, res_entry(c), c.arg(0)) + list(S.full(c.post)))
    S.tbl.update(sampled=sampled, room=room, facts=facts, SMOD=SMOD)
def reg_public(S, G):
    from types import SimpleNamespace
    g = SimpleNamespace(**{**G, **S.tbl}); item, chunks, part, total, F = G["item"], G["chunks"], G["part"], G["total"], G["F"]
    own = ["data_", "episode_refs_", "num_deleted_episodes_", "num_unique_samples_", "extension_requests_", "extension_work_available_cv_", "extension_buffer_available_cv_", "extension_worker_sleeps_", "sync_extensions_", "has_async_extensions_"]
    multi = [f"{RL}.{f}" for f in ("inserts_", "samples_", "deletes_", "cancelled_", "can_insert_cv_", "can_sample_cv_", "insert_stats_", "sample_stats_")] + [f"{SEL}.gp", f"{SEL}.last_key", f"{SEL}.last_prob", f"{IT}.item"]
    def wf(o):
        v = o._view; L = v.obj(o.rate_limiter_, RL)
        return S.full(o) + [("registered extensions exist", fa(i, Implies(And(0 <= i, i < o.sync_extensions_.len), o.sync_extensions_.arr[i] > 0), o.sync_extensions_.arr[i])),
                ("event buffers of the limiter are not empty", And(L.insert_stats_.events_.len > 0, L.sample_stats_.events_.len > 0))]
    S.monitor(Monitor(f"{CLS}.mu_", CLS, [f"{CLS}.{f}" for f in own] + multi, inv=wf, multi=multi))
    def acq(c): return c.ex.snap_acq.obj(c.thisref, CLS)
    def locked(c): return c.ex.snap_acq is not None
    import contracts.rate_limiter as rl
    def sync(c): return [("the table has no worker", And(c.pre.table_worker_ == 0, c.pre.extension_worker_ == 0)), ("no checkpoint is being loaded", Not(c.pre.restoring))]
    def exist(c): return list(g.shape(c.pre))[:1]
    def setF(ex, c): F(ex.view())
    # ---------------------------------------------------------------- InsertOrAssign, without a table worker
    def newitem(c, it):
        return [("the new item has not been sampled", And(it.item.times_sampled >= 0, Implies(c.pre.max_times_sampled_ > 0, it.item.times_sampled < c.pre.max_times_sampled_))),
                ("the chunks of the new item exist", fa(i, Implies(And(0 <= i, i < it.chunks.len), it.chunks.arr[i] > 0), it.chunks.arr[i]))]
    def ioa_post(c):
        if not locked(c): return [("without looking at the table an item is only rejected", c.res == INVALID)]
        a, p = acq(c), c.post; it = c.arg(0); key, pr = it.item.key, it.item.priority; had = a.data_.dom[key]
        L = a._view.obj(a.rate_limiter_, RL); waited = BoolVal(c.ex.snap_rel is not None and False)
        ok = And(ACC(a.sampler_, pr), ACC(a.remover_, pr)); over = card(a.data_.dom) + 1 > a.max_size_
        victim = p._view.obj(a.remover_, SEL).last_key; ref = p.data_.val[key]
        D0, D1 = a.data_, p.data_; d = Store(D0.dom, key, True)
        out = [("an update succeeds iff both selectors accept the priority, unless the operation waited as an insert", Implies(had, And(Implies(c.res == OK, ok), Implies(ok, Or(c.res == OK, c.res == 1, c.res == 4))))),
               ("an insert is counted and stored only when the limiter admits it and the selectors accept the priority", Implies(And(Not(had), c.res == OK), And(rl.can_insert(L), ok)))]
        out += [(l, Implies(had, f)) for l, f in [("an update keeps the set of stored items", And(D1.dom == D0.dom, fa(k, Implies(D0.dom[k], D1.val[k] == D0.val[k]), D1.val[k])))] + g.limfix(a, p)]
        out += [("an accepted update sets the priority", Implies(And(had, c.res == OK), item(p._view, D0.val[key])("priority") == pr)),
                ("an update changes nothing but the priority", Implies(had, g.item_fix(a, p, D0.val[key], "priority"))),
                ("a rejected update leaves the priority", Implies(And(had, c.res != OK), item(p._view, D0.val[key])("priority") == item(a._view, D0.val[key])("priority")))]
        out += [("nothing else changes: " + l, Implies(And(Not(had), c.res != OK), f)) for l, f in g.unchanged_all(c, a, p)]
        ins = [("the item is stored, and at most one item, chosen by the remover, is removed", And(D1.dom == If(over, Store(d, victim, False), d), Implies(over, d[victim]))),
               ("other items stay stored", fa(k, Implies(And(D1.dom[k], k != key), D1.val[k] == D0.val[k]), D1.val[k])),
               ("the stored item is a copy of the given one", Implies(D1.dom[key], And(ref >= a._view.alloc, *[item(p._view, ref)(f) == getattr(it.item, f).e if hasattr(getattr(it.item, f), "e") else item(p._view, ref)(f) == getattr(it.item, f) for f in ("key", "priority", "times_sampled", "table")],
                    chunks(p._view, ref)[1] == it.chunks.len, fa(i, Implies(And(0 <= i, i < it.chunks.len), chunks(p._view, ref)[0][i] == it.chunks.arr[i]), chunks(p._view, ref)[0][i]))))] + g.limfix(a, p, inserts_=1, deletes_=If(over, 1, 0))
        out += [(l, Implies(And(Not(had), c.res == OK), f)) for l, f in ins]
        out += [("no other item changes", g.items_but(a, p, key)[1])]
        return out
    S.contract("CheckItemValidity", static=True, requires=lambda c: [("chunks exist", fa(i, Implies(And(0 <= i, i < c.arg(0).chunks.len), c.arg(0).chunks.arr[i] > 0), c.arg(0).chunks.arr[i]))], modifies=[],
        loops={0: lambda L: [("counter", L.local("i") >= 0)]},
        ensures=lambda c: [("an item is valid or it is rejected", Or(c.res == OK, c.res == INVALID)), ("a valid item has a trajectory", Implies(c.res == OK, c.arg(0).item.flat_trajectory.columns.len > 0))])
    S.contract("internal::GetChunkKeys", nparams=1, static=True, abstract=True, modifies=[], ensures=lambda c: [])
    S.contract(f"{CLS}::InsertOrAssign", requires=lambda c: sync(c) + exist(c) + newitem(c, c.arg(0)), modifies=[("alloc",)], setup=setF, ensures=ioa_post, loops={0: g.ins_loop2})
    # ---------------------------------------------------------------- sampling without a table worker
    def batch_post(c):
        out = c.ptrpost(0)
        if not locked(c): return [("a non-empty output is rejected", And(c.res == INVALID, out.e == c.ptr(0).e))]
        a, p = acq(c), c.post; n = out.len; L = a._view.obj(a.rate_limiter_, RL); L1 = p._view.obj(a.rate_limiter_, RL)
        return [("at least one and at most the requested number of items is returned", Implies(c.res == OK, And(1 <= n, n <= c.arg(1)))),
                ("exactly the returned samples are counted", Implies(c.res == OK, And(L1.samples_ == L.samples_ + n, L1.inserts_ == L.inserts_))),
                ("the first sample is admitted", Implies(c.res == OK, rl.can_sample(L))),
                ("without success nothing is sampled", Implies(c.res != OK, And(n == 0, p.data_.e == a.data_.e, L1.samples_ == L.samples_, L1.deletes_ == L.deletes_)))]
    def batch_inv(L):
        o = L.this; a = L.ex.snap_acq.obj(o.ref, CLS); out = L.fctx.ptrpost(0); la, lo = a._view.obj(a.rate_limiter_, RL), o._view.obj(a.rate_limiter_, RL)
        L.ex.M.card_facts(L.ex, o.data_.dom)
        return S.full(o) + [("samples counted so far", And(lo.samples_ == la.samples_ + out.len, lo.inserts_ == la.inserts_)), ("the first sample was admitted", rl.can_sample(la)),
                ("number of samples so far", And(1 <= out.len, out.len <= L.fctx.arg(1)))] + wf(o)[len(S.full(o)):]
    def batch_step(L):
        o = L.this; v0 = L.prev; a = v0.obj(o.ref, CLS)
        sq = L.fctx.ptrpost(0); mt = sq._mt; before = type(sq)(v0, mt, v0.harr("obj." + mt.name, mt)[L.fctx.args[0].e]); n = before.len
        e = lambda f: mt.el.get(sq.arr[n], f)
        return [("one sample is added per iteration", sq.len == n + 1), ("earlier samples stay", fa(i, Implies(And(0 <= i, i < n), sq.arr[i] == before.arr[i]), sq.arr[i]))] + g.sampled(L, a, o, e, L.local("rate_limited"))
    batch_inv.step = batch_step
    S.contract(f"{CLS}::SampleFlexibleBatch", nparams=3, nonnull=(0,), requires=lambda c: sync(c) + exist(c) + [("at least one sample is requested", And(1 <= c.arg(1)))], modifies=[("arg", 0), ("alloc",)], setup=setF, ensures=batch_post, loops={0: batch_inv})
    # ---------------------------------------------------------------- MutateItems (other threads may work between two of its operations)
    def upd_rel(c, a, p, key, pr):
        had, ref = a.data_.dom[key], a.data_.val[key]
        out = [("the named item gets the priority", Implies(had, item(p._view, ref)("priority") == pr)), ("nothing but the priority of the item changes", Implies(had, g.item_fix(a, p, ref, "priority"))), g.items_but(a, p, key)]
        for w in ("sampler_", "remover_"):
            g0, g1 = g.selgp(a._view, a, w), g.selgp(p._view, p, w)
            out.append((f"the {w[:-1]} gives exactly the named stored key its new priority", And(g1.dom == g0.dom, fa(k, Implies(g0.dom[k], g1.val[k] == If(k == key, pr, g0.val[k])), g1.val[k]))))
        return out + [("the set of stored items stays", And(p.data_.dom == a.data_.dom, fa(k, Implies(a.data_.dom[k], p.data_.val[k] == a.data_.val[k]), p.data_.val[k])))] + g.limfix(a, p)
    def del_inv(L):
        j = L.local("i"); ds = L.fctx.arg(1)
        return wf(L.this) + [("loop counter", And(0 <= j, j <= ds.len, L.local("deleted_items").len == ds.len))]
    def del_step(L):
        o = L.this; a = L.ex.snap_acq.obj(o.ref, CLS); key = L.fctx.arg(1).arr[L.local("i") - 1]
        L.ex.M.card_facts(L.ex, a.data_.dom); had = a.data_.dom[key]
        return g.gone(None, key, a, o) + g.limfix(a, o, deletes_=If(had, 1, 0)) + [g.items_but(a, o)]
    del_inv.step = del_step
    def mu_inv(L): return wf(L.this)
    def mu_step(L):
        o = L.this; a = L.ex.snap_acq.obj(o.ref, CLS)
        u = L.seq; mt = u._mt.el; rec = u.arr[L.step_i]
        return upd_rel(None, a, o, mt.get(rec, "key"), mt.get(rec, "priority"))
    mu_inv.step = mu_step
    S.contract(f"{CLS}::MutateItems", requires=lambda c: [("no checkpoint is being loaded", Not(c.pre.restoring)), ("number of deletions fits an int", c.arg(1).len < 2 ** 31)] + exist(c), modifies=[("alloc",), "wakeup_worker_"], setup=setF, loops={0: del_inv, 1: mu_inv}, ensures=lambda c: [])
    from contracts.table import CLS as _c
    S.loop_invs[("deepmind::reverb::Table::AwaitExtensionBuffer", 0)] = lambda L: wf(L.this)
    # ---------------------------------------------------------------- Reset
    def reset_post(c):
        p = c.post; L = p._view.obj(p.rate_limiter_, RL)
        return [("a reset succeeds", c.res == OK), ("no item is left", And(p.data_.dom == K(I, False), p.episode_refs_.dom == K(I, False))),
                ("counters restart at zero", And(p.num_deleted_episodes_ == 0, p.num_unique_samples_ == 0, L.inserts_ == 0, L.samples_ == 0, L.deletes_ == 0)),
                ("sampler and remover are empty", And(g.selgp(p._view, p, "sampler_").dom == K(I, False), g.selgp(p._view, p, "remover_").dom == K(I, False)))]
    S.contract(f"{CLS}::Reset", requires=lambda c: [("no checkpoint is being loaded", Not(c.pre.restoring)), ("registered extensions exist", fa(i, Implies(And(0 <= i, i < c.pre.async_extensions_.len), c.pre.async_extensions_.arr[i] > 0), c.pre.async_extensions_.arr[i]))] + exist(c),
        modifies=["deleted_items_", "wakeup_worker_"], setup=setF, loops={0: lambda L: [], 1: lambda L: []}, ensures=reset_post)
    # ---------------------------------------------------------------- loading a checkpoint
    def ici_loop(L):
        o, v = L.this, L.cur; a = L.ex.snap_acq.obj(o.ref, CLS); n, arr = L.i, L.seq.arr
        g.step(L.ex, v, arr, n)
        E = o.episode_refs_; t = lambda ee: total(a, ee) + part(v, arr, n, ee)
        return [("references counted up so far", fa(e, And(E.dom[e] == (t(e) > 0), Implies(E.dom[e], E.val[e] == t(e))), E.dom[e])), ("items are untouched while counting", o.data_.e == L.thisentry.data_.e)]
    def ici_post(c):
        if not locked(c): return []
        a, p = acq(c), c.post; it = c.arg(0); key, pr = it.item.key, it.item.priority
        D0, D1 = a.data_, p.data_; ref = D1.val[key]; okk = And(ACC(a.sampler_, pr), ACC(a.remover_, pr))
        return [("a checkpointed item is put back iff the selectors accept its priority", (c.res == OK) == okk)] + \
            [("nothing else changes: " + l, Implies(Not(okk), f)) for l, f in g.unchanged_all(c, a, p)] + \
            [(l, Implies(okk, f)) for l, f in [("exactly the given item is added", And(Not(D0.dom[key]), D1.dom == Store(D0.dom, key, True), fa(k, Implies(D0.dom[k], D1.val[k] == D0.val[k]), D1.val[k]))),
                ("the added item equals the checkpointed one", And(ref >= a._view.alloc, Select(p._view.harr(f"{IT}.item", c.ex.field_mt(IT, "item")), ref) == it.item.e, chunks(p._view, ref)[1] == it.chunks.len, fa(i, Implies(And(0 <= i, i < it.chunks.len), chunks(p._view, ref)[0][i] == it.chunks.arr[i]), chunks(p._view, ref)[0][i])))]] + \
            g.limfix(a, p) + [("no other item changes", g.items_but(a, p)[1])]
    S.contract(f"{CLS}::InsertCheckpointItem", requires=lambda c: [("items of a checkpoint are being put back", c.pre.restoring)] + exist(c) + newitem(c, c.arg(0)), modifies=[("alloc",)], setup=setF, may_abort=True, ensures=ici_post, loops={0: ici_loop})
    # ---------------------------------------------------------------- observers
    def obs(name, f, **kw): S.contract(f"{CLS}::{name}", modifies=kw.pop("modifies", []), setup=setF, requires=kw.pop("requires", exist), ensures=f, **kw)
    obs("size", lambda c: [("the size is the number of stored items", c.res == card(acq(c).data_.dom))])
    obs("num_episodes", lambda c: [("the number of listed episodes", c.res == card(acq(c).episode_refs_.dom))])
    obs("num_deleted_episodes", lambda c: [("the number of deleted episodes", c.res == acq(c).num_deleted_episodes_)])
    def get_post(c):
        a = acq(c); D = a.data_; key = c.arg(0); out = c.ptrpost(1); ref = D.val[key]; v = a._view
        return [("an item is found iff it is stored", c.res == D.dom[key]), ("the returned item is a copy of the stored one", Implies(c.res, And(out.item.e == Select(v.harr(f"{IT}.item", c.ex.field_mt(IT, "item")), ref), out.chunks.e == Select(v.harr(f"{IT}.chunks", c.ex.field_mt(IT, "chunks")), ref)))),
                ("looking an item up changes nothing", And(c.post.data_.e == D.e))]
    def get_setup(ex, c):
        setF(ex, c); out = c.args[1].e
        ex.acq_hooks = [lambda o: fa(k, Implies(o.data_.dom[k], o.data_.val[k] != out), o.data_.val[k])]
    S.assumptions.add("Table::Get: the output object passed by the caller is not itself an item of the table")
    S.contract(f"{CLS}::Get", modifies=[("arg", 1)], nonnull=(1,), setup=get_setup, requires=exist, ensures=get_post)
    obs("CanSample", lambda c: [("reports what the limiter admits", c.res == rl.can_sample(acq(c)._view.obj(c.pre.rate_limiter_, RL), c.arg(0)))], requires=lambda c: exist(c) + [("a positive number", c.arg(0) > 0)])
    obs("CanInsert", lambda c: [("reports what the limiter admits", c.res == rl.can_insert(acq(c)._view.obj(c.pre.rate_limiter_, RL), c.arg(0)))], requires=lambda c: exist(c) + [("a positive number", c.arg(0) > 0)])
    def info_post(c):
        a = acq(c); r = c.res
        return [("the reported size is the number of stored items", r.current_size == card(a.data_.dom)), ("the reported episodes are the listed ones", r.num_episodes == card(a.episode_refs_.dom)),
                ("the reported deleted episodes", r.num_deleted_episodes == a.num_deleted_episodes_), ("the reported unique samples", r.num_unique_samples == a.num_unique_samples_),
                ("the reported limits", And(r.max_size == a.max_size_, r.max_times_sampled == a.max_times_sampled_)), ("the reported name", r.name == a.name_)]
    obs("info", info_post)
    S.contract(f"{RL}::Info", modifies=[], trusted=True, ensures=lambda c: [])
    obs("Close", lambda c: [("closing cancels the limiter", c.V1.obj(c.pre.rate_limiter_, RL).cancelled_), ("closing wakes every waiting insert and sample", And(c.V1.obj(c.pre.rate_limiter_, RL).can_insert_cv_ == 2, c.V1.obj(c.pre.rate_limiter_, RL).can_sample_cv_ == 2)),
                            ("closing wakes the worker", c.post.wakeup_worker_ >= 1), ("closing keeps every item", c.post.data_.e == acq(c).data_.e)], modifies=["wakeup_worker_"])
    obs("set_num_deleted_episodes_from_checkpoint", lambda c: [("the counter is restored", c.post.num_deleted_episodes_ == c.arg(0)), ("items stay", c.post.data_.e == acq(c).data_.e)], may_abort=True)
    obs("set_num_unique_samples_from_checkpoint", lambda c: [("the counter is restored", c.post.num_unique_samples_ == c.arg(0)), ("items stay", c.post.data_.e == acq(c).data_.e)], may_abort=True)
