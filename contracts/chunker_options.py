"""Contracts of the chunking options (C24)."""
from z3 import *
from vc.mtypes import *
from vc.specs import Monitor
from contracts.lib import fa, eqv, same
from contracts.cells import box, stay
CO, CC, AC = "ChunkerOptions", "ConstantChunkerOptions", "AutoTunedChunkerOptions"
OK, INVALID = 0, 3
i, q = Ints("i q")
# settings of an options object; the chunk length of automatically tuned options may change between calls
KEEP = Function("opt_keep", IntSort(), IntSort())
DELTA = Function("opt_delta", IntSort(), BoolSort())
MAXC = Function("opt_max", IntSort(), IntSort())
TUNED = Function("opt_tuned", IntSort(), BoolSort())
def in_range(m, keep): return And(1 <= m, m <= keep)
def dom(x): return x.dom if hasattr(x, 'dom') else x.e if hasattr(x, 'e') else x
def register(S):
    impl = lambda c: getattr(c, "is_impl", False)
    # the interface, as callers see it
    def getmax(c): return [("constant options do not change", Implies(Not(TUNED(c.thisref)), c.res == MAXC(c.thisref))), ("tuned lengths stay in range", Implies(And(TUNED(c.thisref), KEEP(c.thisref) >= 1), in_range(c.res, KEEP(c.thisref))))]
    S.contract(f"{CO}::GetMaxChunkLength", abstract=True, modifies=[], ensures=getmax)
    S.contract(f"{CO}::GetNumKeepAliveRefs", abstract=True, modifies=[], ensures=lambda c: [("the setting", c.res == KEEP(c.thisref))])
    S.contract(f"{CO}::GetDeltaEncode", abstract=True, modifies=[], ensures=lambda c: [("the setting", c.res == DELTA(c.thisref))])
    def valid(c):
        o = c.args[0].e; m = MAXC(o)
        return [("constant options are accepted exactly when 1 <= chunk length <= window", Implies(Not(TUNED(o)), (c.res == OK) == in_range(m, KEEP(o)))),
                ("tuned options are accepted if the window is at least one", Implies(And(TUNED(o), KEEP(o) >= 1), c.res == OK)), ("options with an empty window are refused", Implies(KEEP(o) < 1, c.res != OK)),
                ("a refusal is an invalid argument", Or(c.res == OK, c.res == INVALID))]
    S.contract("ValidateChunkerOptions", static=True, nonnull=(0,), modifies=[], ensures=valid)
    # implementations
    S.contract(f"{CC}::{CC}", nparams=3, ensures=lambda c: [("the settings are the given ones", And(c.post.max_chunk_length_ == c.arg(0), c.post.num_keep_alive_refs_ == c.arg(1), c.post.delta_encode_ == c.args[2].e))])
    for f, g in (("GetMaxChunkLength", "max_chunk_length_"), ("GetNumKeepAliveRefs", "num_keep_alive_refs_"), ("GetDeltaEncode", "delta_encode_")):
        S.contract(f"{CC}::{f}", modifies=[], ensures=lambda c, g=g: [("the setting is returned", c.res == getattr(c.pre, g))])
    S.contract(f"{CC}::OnItemFinalized", modifies=[], ensures=lambda c: [("constant settings do not change", same(c.pre, c.post, "max_chunk_length_", "num_keep_alive_refs_", "delta_encode_"))])
    S.contract(f"{CC}::Clone", modifies=[("alloc",)], ensures=lambda c: [("a new object", And(c.res > 0, c.res >= c.V0.alloc)), ("the copy has the same settings", same(c.pre, c.V1.obj(c.res, CC), "max_chunk_length_", "num_keep_alive_refs_", "delta_encode_"))])
    own = ["max_chunk_length_", "prev_score_", "items_", "chunks_"]
    S.monitor(Monitor(f"{AC}.mu_", AC, [f"{AC}.{f}" for f in own], inv=lambda o: [("the tuned length stays between one and the window", Implies(o.num_keep_alive_refs_ >= 1, in_range(o.max_chunk_length_, o.num_keep_alive_refs_))), ("the histories are bounded", And(o.items_.len <= 10, o.chunks_.len <= 5))]))
    S.contract(f"{AC}::{AC}", nparams=3, ensures=lambda c: [("the settings are the given ones", And(c.post.num_keep_alive_refs_ == c.arg(0), c.post.throughput_weight_ == c.args[1].e, c.post.delta_encode_ == c.args[2].e)),
        ("tuning starts in range", Implies(c.arg(0) >= 1, in_range(c.post.max_chunk_length_, c.arg(0))))])
    S.contract(f"{AC}::GetMaxChunkLength", modifies=[], ensures=lambda c: [("the tuned length is in range", Implies(c.post.num_keep_alive_refs_ >= 1, in_range(c.res, c.post.num_keep_alive_refs_)))])
    for f, g in (("GetNumKeepAliveRefs", "num_keep_alive_refs_"), ("GetDeltaEncode", "delta_encode_")):
        S.contract(f"{AC}::{f}", modifies=[], ensures=lambda c, g=g: [("the setting is returned", c.res == getattr(c.pre, g))])
    S.contract(f"{AC}::Clone", modifies=[("alloc",)], ensures=lambda c: [("a new object", And(c.res > 0, c.res >= c.V0.alloc)), ("the copy has the same settings", same(c.pre, c.V1.obj(c.res, AC), "throughput_weight_", "num_keep_alive_refs_", "delta_encode_"))])
    # the references handed over have their chunks
    def built(c, k): return fa(i, Implies(And(0 <= i, i < c.arg(k).len), And(c.arg(k).arr[i] > 0, box(c.V0, c.arg(k).arr[i]) != 0)), c.arg(k).arr[i])
    def kept(L): return [("built chunks stay", stay(L.fctx.V0, L.cur))]
    cells = ("all", "CellRef.chunk_")
    def fin_pre(c): return [("references are given", c.arg(1).len >= 1), ("every chunk has been built", built(c, 1))]
    S.contract(f"{AC}::OnItemFinalized", requires=fin_pre, modifies=own + [cells], may_abort=True, ensures=lambda c: [])
    S.contract(f"{AC}::PushItem", requires=lambda c: [("references are given", c.arg(0).len >= 1), ("every chunk has been built", built(c, 0)), ("the history is bounded", c.pre.items_.len <= 10)], may_abort=True, modifies=["items_", cells], ensures=lambda c: [("built chunks stay", stay(c.V0, c.V1)), ("at most the newest items are kept", c.post.items_.len <= 10)],
        loops={0: lambda L: kept(L) + [("a chunk was seen", Implies(L.i >= 1, card(dom(L.local("seen_chunks"))) >= 1))]})
    S.contract(f"{AC}::PushChunks", requires=lambda c: [("every chunk has been built", built(c, 0))], may_abort=True, modifies=["chunks_", cells], ensures=lambda c: [("at most the newest chunks are kept", c.post.chunks_.len <= 5)], loops={0: lambda L: kept(L), 1: lambda L: []})
    S.contract(f"{AC}::ReduceAndClearBuffers", requires=lambda c: [("the histories are full", And(c.pre.items_.len == 10, c.pre.chunks_.len == 5))], modifies=["items_", "chunks_"], ensures=lambda c: [("the histories are cleared", And(c.post.items_.len == 0, c.post.chunks_.len == 0))], loops={0: lambda L: [], 1: lambda L: []})
