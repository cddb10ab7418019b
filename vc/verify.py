"""Generates and discharges the obligations of one function against its contract."""
import z3, time, sys, os, traceback, subprocess, tempfile, random
from .mtypes import *
from . import sym as S
from .sym import *
from .specs import short

def make_arg(ex, p, u, i, contract):
    """symbolic value of one parameter"""
    t = u.ty(p["t"])
    nm = f"arg{i}_{p['name']}"
    if t.k == "ref":
        to = t.to
        if to.k == "rec":
            mt = ex.mt(to)
            if isinstance(mt, MRec) and not mt.proto and to.name.startswith(S.NS):
                r = z3.Int(nm); ex.assume(z3.And(r > 0, r < ex.alloc))
                return PyVal("refvar", lv=ObjLV(r, to, ex))
            r = z3.Int(nm + "_at"); ex.assume(z3.And(r > 0, r < ex.alloc))
            if isinstance(mt, (MMap, MSet, MSeq, MList)) or (isinstance(mt, MRec)):
                lv = HeapLV("obj." + mt.name, r, mt); lv.read(ex)
                return PyVal("refvar", lv=lv)
        mt = ex.mt(to)
        v = ex.typed(Z(mt, z3.Const(nm, mt.sort())))
        if isinstance(mt, MRef): ex.assume(v.e < ex.alloc)
        return PyVal("refvar", lv=TempLV(v, mt))
    mt = ex.mt(t)
    if isinstance(mt, MRec) and not mt.proto and t.k == "rec" and t.name.startswith(S.NS):
        return explode(ex, Z(mt, z3.Const(nm, mt.sort())))
    v = ex.typed(Z(mt, z3.Const(nm, mt.sort())))
    if isinstance(mt, MRef): ex.assume(v.e < ex.alloc)
    return v
def explode(ex, z):
    mt = z.mt
    return StructVal(mt, {n: ex.typed(Z(t, mt.get(z.e, n))) for n, t in mt.fields})

def verify_function(ex, fn, c, extra_setup=None):
    """Explore `fn`; obligations are left in ex.obs."""
    specs = ex.specs
    u = fn["unit"]
    ex.cur_may_abort = c.may_abort
    def run():
        ex.unit = u
        ex.line = fn.get("line", 0)
        ex.callstack = [fn["usr"]]
        ex.snap_rel = None; ex.snap_acq = None
        ex.assume(ex.alloc > 0)
        this = None; thisref = None
        is_ctor = fn.get("ctor")
        if fn.get("cls") is not None and not fn.get("static"):
            ct = u.ty(fn["cls"])
            thisref = z3.Int("this")
            if is_ctor: thisref = ex.new_ref()
            else: ex.assume(z3.And(thisref > 0, thisref < ex.alloc))
            this = Z(MRef("ptr", ct), thisref)
        ex.this = this
        vals = []
        for i, p in enumerate(fn["params"]):
            v = make_arg(ex, p, u, i, c)
            vals.append(v)
            ex.env[(ex.unit_id, p["id"])] = v
        # parameters have to be copied: the body may assign to them
        sargs = []
        for v in vals:
            if isinstance(v, PyVal) and v.kind == "refvar":
                sargs.append(v.lv)
            else: sargs.append(v.copy() if isinstance(v, StructVal) else v)
        for i in c.nonnull:
            ex.assume(sargs[i].e != 0)
        pre = ex.view()
        for sv in sargs:
            if isinstance(sv, TempLV): sv._pre = sv.v
            elif isinstance(sv, HeapLV): sv._pre = sv.read(ex)
        ex.fn_pre = pre; ex.fn_args = sargs
        ctx = Ctx(ex, c.cls, thisref, sargs, pre, pre)
        ex.fn_ctx = ctx
        if c.setup: c.setup(ex, ctx)
        for lab, f in c.requires(ctx): ex.assume(f)
        pre = ex.view(); ex.fn_pre = pre
        ctx._pre = pre; ctx._post = pre
        res = None
        try:
            if is_ctor:
                ex.callstack = []
                ex.run_ctor(fn, vals, this, u.ty(fn["cls"]))
                ex.callstack = [fn["usr"]]
            else:
                ex.scopes = []
                ex.stmt(fn["body"])
                if u.ty(fn["ret"]).k != "void" : raise PathEnd()
        except ReturnEx as e:
            res = e.v
        ex.nreturns += 1
        post = ex.view()
        rt = u.ty(fn["ret"])
        if res is not None and rt.k != "void":
            if not (rt.k == "ref"):
                mt = ex.mt(rt)
                if isinstance(res, LV): res = res.read(ex)
                if isinstance(res, PyVal) and res.kind == "nullopt": res = ex.default_of(mt)
                if not isinstance(res, (PyVal, Closure, PtrLV)):
                    res = ex.M.conv(ex, res, mt)
        ctx = Ctx(ex, c.cls, thisref, sargs, pre, post, res)
        ctx.is_impl = True
        ex.reach.append(list(ex.pc))
        for lab, f in c.ensures(ctx):
            ex.obligation(f"{lab} (postcondition)", f, fn.get("line", 0), "post")
        if c.checks:
            for lab, f in c.checks(ctx): ex.obligation(f"{lab} (postcondition)", f, fn.get("line", 0), "post")
        # frame
        allowed = {}; byarg = set()
        for m in c.modifies(ctx):
            if isinstance(m, str):
                own, f = m.rsplit(".", 1) if "." in m else (ex.find_owner(c.cls, m), m)
                allowed.setdefault(f"{own}.{f}", []).append(thisref)
            elif m[0] == "at": allowed.setdefault(m[2], []).append(m[1])
            elif m[0] == "all": allowed[m[1]] = None
            elif m[0] == "arg":
                lv = sargs[m[1]]
                if isinstance(lv, HeapLV): allowed.setdefault(lv.fk, []).append(lv.ref)
                elif isinstance(lv, Z) and isinstance(lv.mt, MRef):
                    to = lv.mt.to_ty
                    mt = ex.mt(to)
                    if isinstance(mt, MRec) and not mt.proto:
                        for n, _ in mt.fields: byarg.add(f"{ex.field_owner(to, n)}.{n}"); allowed.setdefault(f"{ex.field_owner(to, n)}.{n}", []).append(lv.e)
                    else: allowed.setdefault("obj." + mt.name, []).append(lv.e)
        monfields = set()
        for mon in specs.monitors.values():
            for fk in mon.fields: monfields.add(fk)
        alloc0 = pre.alloc
        for fk, h in ex.heap.items():
            mt = ex.hmt[fk]
            h0 = pre.harr(fk, mt)
            if h.eq(h0): continue
            if isinstance(mt, (MMutex,)): continue
            if fk in monfields and (fk not in allowed or (fk in byarg and ex.snap_acq is not None)): continue
            al = allowed.get(fk, [])
            if al is None: continue
            r = z3.Int("frame_r")
            cond = [r > 0, r < alloc0] + [r != a for a in al]
            if is_ctor: cond.append(r != thisref)
            ex.obligation(f"frame: {fk} of other objects unchanged" if al else f"frame: {fk} not modified",
                          z3.Implies(z3.And(*cond), z3.Select(h, r) == z3.Select(h0, r)), fn.get("line", 0), "frame")
    return ex.explore(short(fn["sname"]), run)

# ------------------------------------------------------------------ solving
def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()
_sk = [0]
def pieces(g, hyps=(), depth=0):
    """[(extra hypotheses, subgoal)]: the goal holds if every subgoal does (skolemised, conjunctions split)"""
    hyps = list(hyps)
    if depth > 6: return [(hyps, g)]
    if z3.is_and(g): return [x for c in g.children() for x in pieces(c, hyps, depth + 1)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()): _sk[0] += 1; vs.append(z3.Const(f"{g.var_name(i)}!sk{_sk[0]}", g.var_sort(i)))
        return pieces(z3.substitute_vars(g.body(), *reversed(vs)), hyps, depth + 1)
    if z3.is_implies(g): return pieces(g.arg(1), hyps + [g.arg(0)], depth + 1)
    if z3.is_not(g) and z3.is_or(g.arg(0)): return [x for c in g.arg(0).children() for x in pieces(z3.Not(c), hyps, depth + 1)]
    if z3.is_or(g):
        cs = list(g.children()); big = [c for c in cs if z3.is_and(c) or z3.is_quantifier(c) and c.is_forall() or z3.is_not(c) and z3.is_or(c.arg(0))]
        if len(big) > 1: big = [c for c in big if z3.is_quantifier(c)] or big[-1:]
        if len(big) >= 1: return pieces(big[-1], hyps + [z3.Not(c) for c in cs if not c.eq(big[-1])], depth + 1)
    return [(hyps, g)]
def _prove_pieces(ob, tmo):
    ps = pieces(ob.goal)
    if len(ps) == 1 and ps[0][1].eq(ob.goal): return False
    for hy, g in ps:
        ok = False
        for inc, conf in ((0, {"smt.mbqi": False}), (1, {"smt.mbqi": False}), (1, {"smt.random_seed": 5, "smt.mbqi": False, "smt.arith.solver": 2})):
            s = z3.Solver(); s.set("timeout", tmo)
            for k, v in conf.items():
                try: s.set(k, v)
                except z3.Z3Exception: pass
            for h in ob.hyps: s.add(h)
            if inc: s.push()
            for h in hy: s.add(h)
            s.add(z3.Not(g))
            if s.check() == z3.unsat: ok = True; break
        if not ok: return False
    return True
def solve_one(ob, timeout_ms):
    """returns (status, detail, seconds, backend) with status proved/sat/unknown/timeout"""
    if z3.is_true(ob.goal): return "proved", "", 0.0, "simplifier"
    t0 = time.time()
    last = "unknown"; txt = None
    q = max(1500, timeout_ms // 12)
    plan = [("z3", q, {}), ("z3", q, {"smt.random_seed": 7, "smt.mbqi": False}), ("z3", q, {"smt.random_seed": 3, "smt.arith.solver": 2}), ("cvc5", 2 * q, None), ("pieces", 2 * q, None),
            ("z3", timeout_ms // 2, {}), ("z3", timeout_ms, {"smt.random_seed": 7, "smt.mbqi": False}), ("cvc5", timeout_ms, None), ("z3", timeout_ms, {"smt.random_seed": 3, "smt.arith.solver": 2})]
    for be, tmo, conf in plan:
        if be == "pieces":
            if _prove_pieces(ob, tmo): return "proved", "", time.time() - t0, "z3"
            continue
        if be == "z3":
            s = z3.Solver()
            s.set("timeout", tmo)
            for k, v in conf.items():
                try: s.set(k, v)
                except z3.Z3Exception: pass
            for h in ob.hyps: s.add(h)
            s.add(z3.Not(ob.goal))
            r = s.check()
            if r == z3.unsat: return "proved", "", time.time() - t0, "z3"
            if r == z3.sat:
                try: m = model_text(s.model())
                except Exception as e: m = "(model not printable)"
                return "sat", m, time.time() - t0, "z3"
            last = s.reason_unknown()
            continue
        try:        # second solver
            if txt is None: txt = to_smt2(ob.hyps, ob.goal)
            if "lambda" in txt: continue
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + txt); fn = f.name
            try:
                p = subprocess.run(["cvc5", f"--tlimit={tmo}", "--arrays-exp", fn], capture_output=True, text=True, timeout=tmo / 1000 + 10)
                if p.stdout.strip().startswith("unsat"): return "proved", "", time.time() - t0, "cvc5"
            finally: os.unlink(fn)
        except Exception: pass
    return ("timeout" if "timeout" in last or "cancel" in last else "unknown"), last, time.time() - t0, "z3+cvc5"
def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        n = d.name()
        if d.arity() == 0 and not n.startswith(("str:",)):
            v = str(m[d])
            if len(v) < 300: out.append(f"{n} = {v}")
    return "\n".join(out[:200])
