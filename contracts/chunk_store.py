"""Contracts of the chunk store (C12)."""
from z3 import *
from vc.specs import Monitor
from contracts.lib import fa, same
CLS, CH = "ChunkStore", "ChunkStore::Chunk"
k, i = Ints("k i")
held = Function("held", IntSort(), BoolSort())      # some holder keeps the chunk alive throughout
NOT_FOUND = 5
def register(S):
    def alive(ex, ref):
        b = ex.fresh(BoolSort(), "alive")
        ex.assume(Implies(And(ref != 0, held(ref)), b))
        return And(ref != 0, b)
    S.weak_alive_fn = alive
    S.assumptions.add("std::weak_ptr::lock/expired report the object alive while a holder exists (held), and may report either otherwise")
    def ckey(view, ref):
        ex = view.ex; mt = ex.field_mt(CH, "data_")
        return mt.get(Select(view.harr(f"{CH}.data_", mt), ref), "chunk_key")
    def inv(o):
        D = o.data_
        yield "every entry is empty or refers to a chunk of its key", fa(k, Implies(And(D.dom[k], D.val[k] != 0), And(D.val[k] > 0, D.val[k] < o._view.alloc, ckey(o._view, D.val[k]) == k)), D.dom[k])
    def guar(ex, o0, o1):
        return [("the entry of a live chunk stays", fa(k, Implies(And(o0.data_.dom[k], o0.data_.val[k] != 0, held(o0.data_.val[k])), And(o1.data_.dom[k], o1.data_.val[k] == o0.data_.val[k])), o0.data_.dom[k]))]
    S.monitor(Monitor(f"{CLS}.mu_", CLS, [f"{CLS}.data_"], inv=lambda o: list(inv(o)), guarantee=guar, rely=guar))
    def acq(c): return c.ex.snap_acq.obj(c.thisref, CLS)
    def impl(c): return getattr(c, "is_impl", False)
    def live(o, e): return And(o.data_.dom[e], o.data_.val[e] != 0, held(o.data_.val[e]))
    def insert_post(c):
        out = [("a chunk is returned", c.res > 0), ("the returned chunk has the inserted key", ckey(c.V1, c.res) == c.arg(0).chunk_key)]
        if impl(c):
            a = acq(c); key = c.arg(0).chunk_key
            out += [("a live chunk of the key is returned instead of a second one", Implies(live(a, key), c.res == a.data_.val[key])),
                    ("the returned chunk can be found under its key", And(c.post.data_.dom[key], c.post.data_.val[key] == c.res)),
                    ("other entries stay", fa(k, Implies(k != key, And(c.post.data_.dom[k] == a.data_.dom[k], c.post.data_.val[k] == a.data_.val[k])), c.post.data_.dom[k])),
                    ("a new chunk holds the inserted data", Implies(c.res >= c.V0.alloc, Or(c.res < c.ex.snap_acq.alloc, c.V1.obj(c.res, CH).data_.e == c.arg(0).e)))]
        return out
    S.contract(f"{CLS}::Insert", modifies=["data_", ("alloc",)], ensures=insert_post)
    def get_post(c):
        ks, out = c.arg(0), c.ptrpost(1)
        r = [("the status is OK or NotFound", Or(c.res == 0, c.res == NOT_FOUND)),
             ("success returns one live chunk per key, in the requested order", Implies(c.res == 0, And(out.len == ks.len, fa(i, Implies(And(0 <= i, i < ks.len), And(out.arr[i] > 0, ckey(c.V1, out.arr[i]) == ks.arr[i])), out.arr[i]))))]
        if impl(c):
            a = acq(c)
            r += [("the returned chunks are the stored ones", Implies(c.res == 0, fa(i, Implies(And(0 <= i, i < ks.len), out.arr[i] == a.data_.val[ks.arr[i]]), out.arr[i]))),
                  ("success if every chunk is live", Implies(fa(i, Implies(And(0 <= i, i < ks.len), live(a, ks.arr[i]))), c.res == 0)),
                  ("fetching changes no entry", c.post.data_.e == a.data_.e)]
        return r
    def get_loop(L):
        c = L.fctx; out, ks, p = c.ptrpost(1), c.arg(0), L.local("i"); a = c.ex.snap_acq.obj(c.thisref, CLS)
        return [("loop counter", And(0 <= p, p <= ks.len, out.len == p)),
                ("so far every chunk was found", fa(i, Implies(And(0 <= i, i < p), And(out.arr[i] > 0, a.data_.dom[ks.arr[i]], out.arr[i] == a.data_.val[ks.arr[i]])), out.arr[i])), ("entries unchanged", L.this.data_.e == a.data_.e)]
    S.contract(f"{CLS}::Get", modifies=[("arg", 1), "data_"], nonnull=(1,), requires=lambda c: [("number of keys fits an int", c.arg(0).len < 2 ** 31)], ensures=get_post, loops={0: get_loop})
    S.contract(f"{CLS}::GetItem", modifies=[], requires=lambda c: list(inv(c.pre)), ensures=lambda c: [
        ("a live chunk of the key is found", Implies(live(c.pre, c.arg(0)), c.res == c.pre.data_.val[c.arg(0)])),
        ("nothing but the entry of the key is returned", Or(c.res == 0, And(c.pre.data_.dom[c.arg(0)], c.res == c.pre.data_.val[c.arg(0)])))])
    def clean_loop(L):
        a = L.ex.snap_acq.obj(L.this.ref, CLS)
        return [("entries of live chunks stay", fa(k, Implies(live(a, k), And(L.this.data_.dom[k], L.this.data_.val[k] == a.data_.val[k])), a.data_.dom[k]))] + \
               [("remaining entries are unchanged", fa(k, Implies(L.this.data_.dom[k], And(a.data_.dom[k], L.this.data_.val[k] == a.data_.val[k])), L.this.data_.dom[k]))]
    S.contract(f"{CLS}::CleanupInternal", modifies=["data_", ("all", "internal::Queue<unsigned long>.buffer_"), ("all", "internal::Queue<unsigned long>.pops_"), ("all", "internal::Queue<unsigned long>.pushes_"), ("all", "internal::Queue<unsigned long>.closed_"), ("all", "internal::Queue<unsigned long>.last_item_pushed_"), ("all", "internal::Queue<unsigned long>.num_waiting_to_pop_"), ("all", "internal::Queue<unsigned long>.num_waiting_to_push_")],
        requires=lambda c: [("batch size is not negative", c.arg(0) >= 0), ("the delete queue exists", c.pre.delete_keys_ > 0)], loops={0: clean_loop}, ensures=lambda c: [] if not impl(c) or c.ex.snap_acq is None else [
        ("entries of live chunks stay", fa(k, Implies(live(acq(c), k), And(c.post.data_.dom[k], c.post.data_.val[k] == acq(c).data_.val[k])), acq(c).data_.dom[k])),
        ("no entry is added or redirected", fa(k, Implies(c.post.data_.dom[k], And(acq(c).data_.dom[k], c.post.data_.val[k] == acq(c).data_.val[k])), c.post.data_.dom[k]))])
    S.contract(f"{CH}::Chunk", nparams=1, ensures=lambda c: [("the chunk holds the given data", c.post.data_.e == c.arg(0).e)])
    S.contract(f"{CH}::key", modifies=[], ensures=lambda c: [("key of the data", c.res == c.pre.data_.chunk_key)])
    S.contract(f"{CH}::episode_id", modifies=[], ensures=lambda c: [("episode of the data", c.res == c.pre.data_.sequence_range.episode_id)])
    S.contract(f"{CH}::num_rows", modifies=[], requires=lambda c: [("range fits", And(c.pre.data_.sequence_range.end - c.pre.data_.sequence_range.start < 2 ** 31 - 1, c.pre.data_.sequence_range.end - c.pre.data_.sequence_range.start >= -2 ** 31))],
               ensures=lambda c: [("number of steps of the recorded range", c.res == c.pre.data_.sequence_range.end - c.pre.data_.sequence_range.start + 1)])
    S.contract(f"{CH}::num_columns", modifies=[], ensures=lambda c: [("number of columns of the data", c.res == If(c.pre.data_.data_tensors_len != 0, c.pre.data_.data_tensors_len, c.pre.data_.data.tensors.len))])
