"""Symbolic executor / verification condition generator.

One path at a time, in direct style: the interpreter runs the extracted body;
whenever a condition is undetermined it asks `choose`, which follows a script
of decisions; the driver enumerates all scripts.  Loops are cut at invariants,
calls to functions under contract use the contract only.
"""
import z3, itertools
from .mtypes import *
from .mtypes import _dt
from .ast import strip_targs

NS = "deepmind::reverb::"
def short(n):
    return n.replace(NS, "").replace("(anonymous namespace)::", "")

# ------------------------------------------------------------------ control
class PathEnd(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Restart(Exception): pass

# ------------------------------------------------------------------ values
class Z:
    __slots__ = ("mt", "e")
    def __init__(self, mt, e): self.mt, self.e = mt, e
    def __repr__(self): return f"Z({self.mt.name},{self.e})"
class StructVal:
    """Exploded record value (fields may be any value)."""
    def __init__(self, mt, f): self.mt, self.f = mt, f
    def copy(self): return StructVal(self.mt, {k: (v.copy() if isinstance(v, StructVal) else v) for k, v in self.f.items()})
class PtrLV:
    """Pointer to an lvalue that is not a whole heap object."""
    def __init__(self, lv): self.lv = lv
class Closure:
    def __init__(self, node, env, unit, this): self.node, self.env, self.unit, self.this = node, env, unit, this
def place_shape(lv):
    if isinstance(lv, IndexLV): return ("[]", place_shape(lv.base))
    if isinstance(lv, FieldLV): return (lv.f, place_shape(lv.base))
    if isinstance(lv, LocalLV): return ("local", lv.key)
    if isinstance(lv, HeapLV): return ("heap", lv.fk, lv.ref.sexpr())
    return (type(lv).__name__,)
class PyVal:
    """Model-private value (iterators, check results, ...)."""
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
class Opq(PyVal):
    def __init__(self): self.kind = "opaque"

# ------------------------------------------------------------------ lvalues
class LV:
    mt = None
    def member(self, ex, f, owner):
        return FieldLV(self, f, ex)
class LocalLV(LV):
    def __init__(self, key, mt): self.key, self.mt = key, mt
    def read(self, ex):
        if self.key not in ex.env: raise Unsupported(f"uninitialised local {self.key}")
        return ex.env[self.key]
    def write(self, ex, v):
        old = ex.env.get(self.key)
        if isinstance(old, StructVal) and isinstance(v, StructVal) and set(old.f) == set(v.f):
            for f in v.f:
                a, b = old.f[f], v.f[f]
                if a is b or (isinstance(a, Z) and isinstance(b, Z) and a.e.eq(b.e)): continue
                ex.note_write(("L", self.key, f), None)
        else: ex.note_write(("L", self.key), None)
        ex.env[self.key] = v
class TempLV(LV):
    def __init__(self, v, mt): self.v, self.mt = v, mt
    def read(self, ex): return self.v
    def write(self, ex, v): self.v = v
class HeapLV(LV):
    def __init__(self, fk, ref, mt): self.fk, self.ref, self.mt = fk, ref, mt
    def read(self, ex):
        if getattr(ex, "active_monitors", None): ex.check_guard(self.fk, self.ref)
        e = z3.simplify(z3.Select(ex.harr(self.fk, self.mt), self.ref))
        return ex.typed(Z(self.mt, e))
    def write(self, ex, v):
        if getattr(ex, "active_monitors", None): ex.check_guard(self.fk, self.ref)
        ex.note_write(("H", self.fk), self.ref)
        ex.heap[self.fk] = z3.Store(ex.harr(self.fk, self.mt), self.ref, ex.z(v, self.mt))
        ex.hmt[self.fk] = self.mt
class ObjLV(LV):
    """Whole heap object of record type `ty` at address ref."""
    def __init__(self, ref, ty, ex): self.ref, self.ty = ref, ty; self._mt = None; self.ex = ex
    @property
    def mt(self):
        if self._mt is None: self._mt = self.ex.mt(self.ty)
        return self._mt
    def member(self, ex, f, owner):
        if isinstance(self.mt, MRec) and self.mt.proto: return FieldLV(HeapLV("obj." + self.mt.name, self.ref, self.mt), f, ex)
        return HeapLV(f"{owner}.{f}", self.ref, ex.field_mt(owner, f))
    def read(self, ex):
        mt = self.mt
        if isinstance(mt, MRec):
            own = ex.owner_name(self.ty)
            if mt.proto:
                return HeapLV("obj." + mt.name, self.ref, mt).read(ex)
            return StructVal(mt, {n: self.member(ex, n, ex.field_owner(self.ty, n)).read(ex) for n, _ in mt.fields})
        return HeapLV("obj." + mt.name, self.ref, mt).read(ex)
    def write(self, ex, v):
        mt = self.mt
        if isinstance(mt, MRec) and not mt.proto:
            for n, t in mt.fields:
                if isinstance(v, StructVal) and n not in v.f:     # left uninitialised: any value
                    self.member(ex, n, ex.field_owner(self.ty, n)).write(ex, Z(t, ex.fresh(t.sort(), "uninit"))); continue
                self.member(ex, n, ex.field_owner(self.ty, n)).write(ex, ex.field_of(v, n, mt))
            return
        HeapLV("obj." + mt.name, self.ref, mt).write(ex, v)
class FieldLV(LV):
    def __init__(self, base, f, ex):
        self.base, self.f = base, f
        bmt = base.mt
        if not isinstance(bmt, MRec): raise Unsupported(f"member {f} of non-record {bmt}")
        self.mt = bmt.ft(f)
    def read(self, ex): return ex.field_of(self.base.read(ex), self.f, self.base.mt)
    def write(self, ex, v):
        b = self.base.read(ex)
        if isinstance(b, StructVal):
            nb = StructVal(b.mt, dict(b.f)); nb.f[self.f] = v
            self.base.write(ex, nb)
        else:
            self.base.write(ex, Z(self.base.mt, self.base.mt.upd(b.e, self.f, ex.z(v, self.mt))))
class IndexLV(LV):
    def __init__(self, base, idx): self.base, self.idx = base, idx; self.mt = base.mt.el
    def read(self, ex):
        s = ex.z(self.base.read(ex), self.base.mt)
        return ex.typed(Z(self.mt, z3.simplify(z3.Select(self.base.mt.arr(s), self.idx))))
    def write(self, ex, v):
        t = self.base.mt
        s = ex.z(self.base.read(ex), t)
        self.base.write(ex, Z(t, t.mk(t.len(s), z3.Store(t.arr(s), self.idx, ex.z(v, self.mt)))))
class MapValLV(LV):
    def __init__(self, base, key): self.base, self.key = base, key; self.mt = base.mt.v
    def read(self, ex):
        s = ex.z(self.base.read(ex), self.base.mt)
        return ex.typed(Z(self.mt, z3.simplify(z3.Select(self.base.mt.val(s), self.key))))
    def write(self, ex, v):
        t = self.base.mt
        s = ex.z(self.base.read(ex), t)
        self.base.write(ex, Z(t, t.mk(t.dom(s), z3.Store(t.val(s), self.key, ex.z(v, self.mt)))))
class ListNodeLV(LV):
    def __init__(self, base, node): self.base, self.node = base, node; self.mt = base.mt.el
    def read(self, ex):
        s = ex.z(self.base.read(ex), self.base.mt)
        return ex.typed(Z(self.mt, z3.simplify(z3.Select(self.base.mt.get(s, "val"), self.node))))
    def write(self, ex, v):
        t = self.base.mt; s = ex.z(self.base.read(ex), t)
        self.base.write(ex, Z(t, t.upd(s, val=z3.Store(t.get(s, "val"), self.node, ex.z(v, self.mt)))))
class PairLV(LV):
    """Entry of a map seen through an iterator: first is the key, second the mapped value."""
    def __init__(self, base, key): self.base, self.key = base, key; self.mt = MRec("Pair", [("first", base.mt.k), ("second", base.mt.v)])
    def member(self, ex, f, owner):
        return TempLV(Z(self.base.mt.k, self.key), self.base.mt.k) if f == "first" else MapValLV(self.base, self.key)
    def read(self, ex):
        return StructVal(self.mt, {"first": Z(self.base.mt.k, self.key), "second": MapValLV(self.base, self.key).read(ex)})
    def write(self, ex, v): raise Unsupported("assign map entry")
class RefLV(LV):
    """(unused placeholder)"""

# ------------------------------------------------------------------ views for contracts
class W:
    """Value wrapper used in specifications."""
    __slots__ = ("_view", "_mt", "e")
    def __init__(self, view, mt, e): object.__setattr__(self, "_view", view); object.__setattr__(self, "_mt", mt); object.__setattr__(self, "e", e)
    def __getattr__(self, f):
        mt = self._mt
        if isinstance(mt, MRec): return wrap(self._view, mt.ft(f), z3.simplify(mt.get(self.e, f)))
        if isinstance(mt, MSeq):
            if f == "len": return z3.simplify(mt.len(self.e))
            if f == "arr": return z3.simplify(mt.arr(self.e))
        if isinstance(mt, MMap):
            if f == "dom": return z3.simplify(mt.dom(self.e))
            if f == "val": return z3.simplify(mt.val(self.e))
            if f == "size": return card(z3.simplify(mt.dom(self.e)))
        if isinstance(mt, MSet):
            if f == "dom": return self.e
            if f == "size": return card(self.e)
        if isinstance(mt, MList):
            if f == "size": return card(z3.simplify(mt.get(self.e, "mem")))
            return z3.simplify(mt.get(self.e, f))
        raise AttributeError(f"{f} on {mt.name}")
    def has(self, k):
        mt = self._mt
        return z3.Select(self.dom if isinstance(mt, (MMap, MSet)) else self.mem, k)
    def __getitem__(self, i):
        mt = self._mt
        if isinstance(mt, MSeq): return wrap(self._view, mt.el, z3.Select(self.arr, i))
        if isinstance(mt, MMap): return wrap(self._view, mt.v, z3.Select(self.val, i))
        raise AttributeError
def wrap(view, mt, e):
    if isinstance(mt, (MInt, MBool, MReal, MRef, MStatus, MTime, MStr, MOpaque, MCondVar, MListIter, MMutex)): return e
    return W(view, mt, e)
class ObjW:
    def __init__(self, view, ref, cls): self.__dict__.update(_view=view, ref=ref, _cls=cls)
    def __getattr__(self, f):
        v = self._view; ex = v.ex
        own = ex.find_owner(self._cls, f)
        mt = ex.field_mt(own, f)
        fk = f"{own}.{f}"
        return wrap(v, mt, z3.simplify(z3.Select(v.harr(fk, mt), self.ref)))
    def arr(self, f):
        v = self._view; ex = v.ex
        own = ex.find_owner(self._cls, f); mt = ex.field_mt(own, f)
        return v.harr(f"{own}.{f}", mt)
class View:
    def __init__(self, ex, heap, alloc, ghost): self.ex, self.heap, self.alloc, self.ghost = ex, heap, alloc, ghost
    def harr(self, fk, mt):
        if fk in self.heap: return self.heap[fk]
        return self.ex.harr0(fk, mt)
    def obj(self, ref, cls): return ObjW(self, ref, cls)

class Ctx:
    """What a specification sees."""
    def __init__(self, ex, cls, this, args, pre, post, res=None):
        self.ex, self.cls, self.thisref, self.args, self._pre, self._post, self._res = ex, cls, this, args, pre, post, res
    @property
    def pre(self): return ObjW(self._pre, self.thisref, self.cls) if self.thisref is not None else self._pre
    @property
    def post(self): return ObjW(self._post, self.thisref, self.cls) if self.thisref is not None else self._post
    this = post
    @property
    def V0(self): return self._pre
    @property
    def V1(self): return self._post
    def arg(self, i):
        v = self.args[i]
        return self.ex.spec_value(v, self._pre)
    def argpost(self, i):
        return self.ex.spec_value(getattr(self, "post_args", self.args)[i], self._post, post=True)
    def _ptr(self, v, view, post):
        ex = self.ex
        if isinstance(v, LV) and isinstance(v.mt, MRef): v = v.read(ex) if post or not hasattr(v, "_pre") else v._pre
        if isinstance(v, Z) and isinstance(v.mt, MRef):
            to = v.mt.to_ty
            mt = ex.mt(to)
            if isinstance(mt, MRec) and not mt.proto: return ObjW(view, v.e, short(to.s))
            return wrap(view, mt, z3.simplify(z3.Select(view.harr("obj." + mt.name, mt), v.e)))
        return ex.spec_value(v, view, post)
    def ptr(self, i): return self._ptr(self.args[i], self._pre, False)
    def ptrpost(self, i): return self._ptr(getattr(self, "post_args", self.args)[i], self._post, True)
    @property
    def res(self):
        v = self._res
        return self.ex.spec_value(v, self._post, post=True)

UMOD = z3.Function("umod", z3.IntSort(), z3.IntSort(), z3.IntSort())
# ------------------------------------------------------------------ executor
class Obligation:
    __slots__ = ("fn", "label", "hyps", "goal", "line", "tainted", "kind")
    def __init__(self, fn, label, hyps, goal, line, tainted, kind="assert"):
        self.fn, self.label, self.hyps, self.goal, self.line, self.tainted, self.kind = fn, label, hyps, goal, line, tainted, kind

MAX_PATHS = 4000

def has_quant(e, cache={}):
    i = e.get_id()
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False

def tfm():
    from . import tf
    return tf
class Executor:
    def __init__(self, prog, specs, protos, options=None):
        self.prog, self.specs, self.protos = prog, specs, protos
        self.opt = options or {}
        self._mtc = {}
        self._harr0 = {}
        self.hmt = {}
        self.loopmods = {}
        self.inlined = set()
        self.called = set()
        self.models_used = set()
        self.reset_path([])
        from . import models
        self.M = models

    # ---------------- types
    def mt(self, ty):
        key = ty.s + "|" + ty.k
        if key in self._mtc:
            r = self._mtc[key]
            if r is None: return MOpaque("rec:" + ty.s)   # recursive type
            return r
        self._mtc[key] = None
        r = self._mt(ty)
        self._mtc[key] = r
        return r
    def _mt(self, ty):
        k = ty.k
        if k == "ref": return self.mt(ty.to)
        if k == "int": return MInt(ty.d["bits"], ty.d["signed"])
        if k == "enum": return MInt(ty.d["bits"], True)
        if k == "bool": return MBool()
        if k == "float": return MReal()
        if k == "void": return MVoid()
        if k in ("ptr", "nullptr"):
            return MRef("ptr", ty.to if k == "ptr" else None)
        if k == "array": return MSeq(self.mt(ty.to))
        if k == "rec": return self._mt_rec(ty)
        return MOpaque(ty.s)
    def _mt_rec(self, ty):
        n = ty.name; a = ty.args
        last = n.split("::")[-1]
        if n in ("std::basic_string", "std::basic_string_view", "absl::string_view", "tsl::tstring", "tensorflow::tstring"): return MStr()
        if n in tfm().TYPES: return tfm().TYPES[n]
        if n in ("std::vector", "std::deque", "absl::Span", "absl::FixedArray", "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField",
                 "std::initializer_list", "absl::InlinedVector", "tsl::gtl::ArraySlice"): return MSeq(self.mt(a[0]))
        if n == "std::queue": return MSeq(self.mt(a[0]))
        if n == "std::array": return MSeq(self.mt(a[0]))
        if n in ("absl::flat_hash_map", "std::unordered_map", "std::map", "google::protobuf::Map", "absl::node_hash_map"): return MMap(self.mt(a[0]), self.mt(a[1]))
        if n in ("absl::flat_hash_set", "std::unordered_set", "std::set"): return MSet(self.mt(a[0]))
        if n == "std::list": return MSeq(self.mt(a[0])) if getattr(self.specs, "list_as_seq", False) else MList(self.mt(a[0]))
        if n in ("std::_List_iterator", "std::_List_const_iterator"): return MListIter()
        if n in ("std::shared_ptr", "std::__shared_ptr"): return MRef("shared", a[0])
        if n == "std::unique_ptr": return MRef("unique", a[0])
        if n == "std::weak_ptr": return MRef("weak", a[0])
        if n in ("absl::Status", "grpc::Status", "tsl::Status"): return MStatus()
        if n == "absl::StatusOr":
            v = self.mt(a[0]); return MRec(f"StatusOr[{v.name}]", [("code", MStatus()), ("value", v)])
        if n in ("std::optional", "absl::optional"):
            v = self.mt(a[0]); return MRec(f"Opt[{v.name}]", [("has", MBool()), ("value", v)], proto="(value)")
        if n == "std::pair":
            x, y = self.mt(a[0]), self.mt(a[1]); return MRec(f"Pair[{x.name},{y.name}]", [("first", x), ("second", y)])
        if n == "std::tuple":
            ts = [self.mt(x) for x in a]; return MRec("Tup[" + ",".join(t.name for t in ts) + "]", [(f"_{i}", t) for i, t in enumerate(ts)])
        if n in ("absl::Time", "absl::Duration"): return MTime()
        if n == "absl::CondVar": return MCondVar()
        if n == "absl::Mutex": return MMutex()
        if n == "std::atomic": return self.mt(a[0])
        if n.startswith(NS):
            p = n[len(NS):]
            if p in self.protos: return self.proto_mt(p)
        if n == "google::protobuf::Timestamp" or n == "google::protobuf::Duration":
            return MRec("P_" + last, [("seconds", MInt(64, True)), ("nanos", MInt(32, True))], proto=last)
        r = self.prog.records.get(ty.s)
        if r is not None and not ty.d.get("lambda"):
            fs = []
            for (own, f) in self.all_fields(r):
                fs.append((f["name"], self.mt(r["unit"].ty(f["t"])) if True else None))
            return MRec(short(ty.s), fs)
        return MOpaque(ty.s)
    def all_fields(self, r):
        u = r["unit"]
        out = []
        for b in r["bases"]:
            bt = u.ty(b)
            br = self.prog.records.get(bt.s)
            if br is not None: out += self.all_fields(br)
        own = short(u.ty(r["type"]).s)
        for f in r["fields"]:
            if f["name"]: out.append((own, f))
        return out
    def proto_mt(self, p):
        key = "proto:" + p
        if key in self._mtc:
            if self._mtc[key] is None: return MOpaque("recproto" + p)
            return self._mtc[key]
        self._mtc[key] = None
        m = self.protos[p]
        fs = []
        for f in m["fields"]:
            t = self._proto_ft(p, f["type"])
            if f["rep"]: t = MSeq(t)
            fs.append((f["name"], t))
            if not f["rep"] and (f["opt"] or isinstance(t, (MRec,)) or (isinstance(t, MOpaque)) or f["oneof"]):
                fs.append(("has_" + f["name"], MBool()))
        for o in m["oneofs"]: fs.append((o + "_case", MInt(32, True)))
        r = MRec("P_" + p, fs, proto=p)
        self._mtc[key] = r
        return r
    def _proto_ft(self, p, t):
        from .protos import SCALAR
        if isinstance(t, tuple): return MMap(self._proto_ft(p, t[1]), self._proto_ft(p, t[2]))
        if t in SCALAR:
            s = SCALAR[t]
            if s in ("double", "float"): return MReal()
            if s == "bool": return MBool()
            if s == "str": return MStr()
            return MInt(int(s[1:]), s[0] == "i")
        scope = p.split("_")
        for n in range(len(scope), -1, -1):
            q = "_".join(scope[:n] + [t])
            if q in self.protos: return self.proto_mt(q)
        if t in ("google.protobuf.Timestamp", "google.protobuf.Duration"):
            l = t.split(".")[-1]
            return MRec("P_" + l, [("seconds", MInt(64, True)), ("nanos", MInt(32, True))], proto=l)
        if t.replace(".", "::") in tfm().TYPES: return tfm().TYPES[t.replace(".", "::")]
        return MOpaque(t.replace(".", "::") if t.startswith("tensorflow.") else "proto:" + t)
    def owner_name(self, ty): return short(ty.s)
    def rec_by_short(self, own):
        c = self.opt.setdefault("_rbs", {})
        if own in c: return c[own]
        for n, r in self.prog.records.items():
            if short(n) == own:
                c[own] = r; return r
        raise Unsupported(f"unknown class {own}")
    def field_mt(self, own, f):
        g = self.specs.ghost.get(f"{own}.{f}")
        if g is not None: return g
        ov = self.specs.field_override.get(f"{own}.{f}")
        if ov is not None: return ov
        r = self.rec_by_short(own)
        for x in r["fields"]:
            if x["name"] == f: return self.mt(r["unit"].ty(x["t"]))
        raise Unsupported(f"no field {own}.{f}")
    def find_owner(self, cls, f):
        """class (or base) that declares field or ghost f"""
        if f"{cls}.{f}" in self.specs.ghost: return cls
        r = self.rec_by_short(cls)
        if any(x["name"] == f for x in r["fields"]): return cls
        for b in r["bases"]:
            bt = r["unit"].ty(b)
            try: return self.find_owner(short(bt.s), f)
            except Unsupported: pass
        raise Unsupported(f"no field {cls}.{f}")
    def field_owner(self, ty, f): return self.find_owner(short(ty.s), f)

    # ---------------- path state
    def reset_path(self, script):
        self.script = script; self.ndec = 0
        self.pending = getattr(self, "pending", [])
        self.env = {}; self.heap = {}; self.pc = []; self.ghost = {}
        self.fresh_n = 0
        self.oseq = 0
        self.tainted = []
        self.scopes = []
        self.held = []
        self.alloc = z3.Int("alloc0")
        self.now = self.now0 = z3.Int("now0"); self.reserved = []; self.tensor_alias = {}
        self.callstack = []
        self.snap_acq = None
        self.loopstack = []
        self.fs = z3.Solver(); self.fs.set("timeout", 400)
        self.atomic_events = []
        for a in self.specs.axioms: self.assume(a)
    def fresh(self, sort, base="v"):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)
    def fresh_val(self, mt, base="v"):
        return self.typed(Z(mt, self.fresh(mt.sort(), base)))
    def harr0(self, fk, mt):
        if fk not in self._harr0:
            self._harr0[fk] = z3.Const("H_" + fk, z3.ArraySort(z3.IntSort(), mt.sort()))
        return self._harr0[fk]
    def harr(self, fk, mt):
        self.hmt[fk] = mt
        if fk in self.heap: return self.heap[fk]
        return self.harr0(fk, mt)
    def view(self, snap=None):
        if snap is None: return View(self, dict(self.heap), self.alloc, dict(self.ghost))
        return snap
    def assume(self, f, q=True):
        if f is True: return
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f): return
        self.pc.append(f)
        if not has_quant(f): self.fs.add(f)
        if z3.is_false(f): raise PathEnd()
    def feasible(self, c):
        self.fs.push(); self.fs.add(c)
        r = self.fs.check()
        self.fs.pop()
        return r != z3.unsat
    def choose(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = self.ndec; self.ndec += 1
        if i < len(self.script):
            b = self.script[i]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                b = True
                self.pending.append(self.script[:i] + [False])
            else:
                b = ft
            self.script.append(b)
        self.assume(c if b else z3.Not(c))
        return b
    def choose_free(self, label="nondet"):
        return self.choose(self.fresh(z3.BoolSort(), label))
    def obligation(self, label, goal, line=0, kind="assert"):
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        self.oseq += 1
        key = (self.oseq, tuple(self.script[:self.ndec]))
        if key in self.seen_ob: return
        self.seen_ob.add(key)
        self.obs.append(Obligation(self.cur_name, label, list(self.pc), g, line, list(self.tainted), kind))
    def induct(self, label, n, P, hint=None, use=()):
        """strong induction over 0..n-1: the step is an obligation, the conclusion is assumed"""
        i0 = self.fresh(z3.IntSort(), "ind"); q = z3.Int("ind_q")
        hyp = [i0 >= 0, i0 < n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i0), P(q)))]
        hyp.append(z3.Implies(i0 >= 1, P(i0 - 1)))
        if hint is not None: hyp.append(hint(i0))
        self.obligation(f"{label} (induction step)", z3.Implies(z3.And(*hyp), P(i0)), self.line, "lemma")
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), P(q))))
        for e in use: self.assume(z3.Implies(z3.And(e >= 0, e < n), P(e)))
    def note_write(self, root, ref):
        for L in self.loopstack:
            refs = L["mods"].setdefault(root, None)
            if root[0] == "L" and root[1] in L.get("inner", ()): pass
            if refs is None:
                L["mods"][root] = set(); L["changed"] = True
            if ref is not None:
                s = L["mods"][root]
                if ref is not ANYREF and uses_fresh_since(ref, L["n0"]): ref1 = ANYREF     # differs between iterations
                else: ref1 = ref
                k = ref1.sexpr()
                if k not in {x.sexpr() for x in s}:
                    s.add(ref1); L["changed"] = True
            if root[0] == "L" and root not in L["seenroots"]:
                L["seenroots"].add(root)

    # ---------------- value helpers
    def typed(self, v):
        """assume type invariants of a freshly read value"""
        if isinstance(v, Z):
            mt = v.mt
            if isinstance(mt, MInt):
                if not z3.is_int_value(v.e):
                    lo, hi = mt.rng()
                    if not mt.signed:
                        self.assume_once(v.e >= 0)
                        if mt.bits <= 64 and self.opt.get("bounds"): self.assume_once(v.e <= hi)
                    elif self.opt.get("bounds") or mt.bits <= 8: self.assume_once(z3.And(v.e >= lo, v.e <= hi))
            elif isinstance(mt, MSeq):
                self.assume_once(mt.len(v.e) >= 0)
                self.assume_once(mt.len(v.e) < 2 ** 60)
            elif isinstance(mt, MMap):
                self.assume_once(card(mt.dom(v.e)) >= 0)
            elif isinstance(mt, MSet):
                self.assume_once(card(v.e) >= 0)
            elif isinstance(mt, MList):
                self.assume_once(mt.get(v.e, "lo") <= mt.get(v.e, "hi"))
            elif isinstance(mt, MRef):
                if not z3.is_int_value(v.e): self.assume_once(z3.And(v.e >= 0, v.e < self.alloc))
        return v
    def assume_once(self, f):
        f = z3.simplify(f)
        if z3.is_true(f): return
        for p in self.pc[-40:]:
            if p.eq(f): return
        self.assume(f)
    def field_of(self, v, f, mt):
        if isinstance(v, StructVal):
            if f not in v.f: raise Unsupported(f"field {f} of struct not initialised")
            return v.f[f]
        if isinstance(v, Z):
            return self.typed(Z(v.mt.ft(f), z3.simplify(v.mt.get(v.e, f))))
        raise Unsupported(f"field {f} of {type(v).__name__}")
    def z(self, v, mt=None):
        """z3 expression of a value, coerced to the sort of mt"""
        if isinstance(v, LV): v = v.read(self)
        if isinstance(v, Z):
            e = v.e
            if mt is not None:
                if isinstance(mt, MReal) and e.sort() == z3.IntSort(): return z3.ToReal(e)
                if isinstance(mt, MOpaque) and e.sort() != mt.sort(): return self.fresh(mt.sort(), "opq")
                if isinstance(mt, MBool) and e.sort() == z3.IntSort(): return e != 0
                if isinstance(mt, (MInt,)) and e.sort() == z3.BoolSort(): return z3.If(e, z3.IntVal(1), z3.IntVal(0))
                if isinstance(mt, MRec) and isinstance(v.mt, MRec) and e.sort() != mt.sort() and len(mt.fields) == len(v.mt.fields):
                    return mt.mk(*[self.z(Z(t2, v.mt.get(e, n2)), t1) for (n1, t1), (n2, t2) in zip(mt.fields, v.mt.fields)])
                if e.sort() != mt.sort(): raise Unsupported(f"sort mismatch {e.sort()} vs {mt.sort()} ({mt.name})")
            return e
        if isinstance(v, StructVal):
            t = v.mt if mt is None else mt
            if not isinstance(t, MRec): raise Unsupported(f"struct to {t}")
            if not t.fields: return t.mk()
            src = list(v.f.values()) if set(v.f) != set(n for n, _ in t.fields) and len(v.f) == len(t.fields) else None
            out = []
            for i, (n, ft) in enumerate(t.fields):
                if src is not None: x = src[i]
                elif n in v.f: x = v.f[n]
                else: out.append(self.fresh(ft.sort(), "uninit")); continue
                out.append(self.z(x, ft))
            return t.mk(*out)
        if isinstance(v, PtrLV):
            lv = v.lv
            if isinstance(lv, ObjLV): return lv.ref
            if mt is not None and isinstance(mt, MOpaque): return self.fresh(mt.sort(), "opq")
            if isinstance(mt, MRef): 
                # address of a sub-object: some non-null address, identity forgotten
                r = self.fresh(z3.IntSort(), "subaddr"); self.assume(r > 0); return r
            raise Unsupported("pointer to sub-object stored as value")
        if isinstance(v, Closure) or isinstance(v, PyVal):
            if mt is not None and isinstance(mt, MOpaque): return self.fresh(mt.sort(), "opq")
            if isinstance(v, PyVal) and v.kind == "listiter": return v.node
            if isinstance(v, PyVal) and hasattr(v, "zval"): return v.zval
        if v is None and isinstance(mt, MVoid): return z3.BoolVal(True)
        raise Unsupported(f"cannot turn {type(v).__name__}{getattr(v,'kind','')} into {mt}")
    def spec_value(self, v, view, post=False):
        if isinstance(v, Z): return wrap(view, v.mt, v.e)
        if isinstance(v, StructVal): return wrap(view, v.mt, self.z(v))
        if isinstance(v, PtrLV):
            return self.spec_value(v.lv, view, post)
        if isinstance(v, ObjLV):
            mt = v.mt
            if isinstance(mt, MRec) and not mt.proto: return ObjW(view, v.ref, short(v.ty.s))
            return wrap(view, mt, z3.Select(view.harr("obj." + mt.name, mt), v.ref))
        if isinstance(v, HeapLV):
            return wrap(view, v.mt, z3.simplify(z3.Select(view.harr(v.fk, v.mt), v.ref)))
        if isinstance(v, LV):
            if post or not hasattr(v, "_pre"): 
                x = v.read(self)
            else: x = v._pre
            return self.spec_value(x, view, post)
        if v is None: return None
        return v
    def default_of(self, mt):
        if isinstance(mt, (MInt, MTime, MCondVar, MMutex, MStatus, MRef)): return Z(mt, z3.IntVal(0))
        if isinstance(mt, MBool): return Z(mt, z3.BoolVal(False))
        if isinstance(mt, MReal): return Z(mt, z3.RealVal(0))
        if isinstance(mt, (MSeq, MMap, MSet, MList)): return Z(mt, mt.empty())
        if isinstance(mt, MStr): return Z(mt, self.M.str_lit(self, ""))
        if isinstance(mt, MRec):
            return StructVal(mt, {n: self.default_of(t) for n, t in mt.fields})
        if isinstance(mt, MOpaque): return Z(mt, z3.Const("default_" + mt.name, mt.sort()))
        return self.fresh_val(mt, "dflt")
    def new_ref(self):
        r = self.alloc
        self.assume_once(r > 0)
        self.alloc = z3.simplify(r + 1)
        return r
    def rv(self, v):
        """rvalue of an evaluated expression"""
        if isinstance(v, LV): return v.read(self)
        return v

    # ---------------- expressions
    def ty(self, i): return self.unit.ty(i)
    def eval(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m is None: raise Unsupported(f"expression {n['k']} {n.get('cls','')} line {n.get('l')}")
        self.line = n.get("l", 0)
        return m(n)
    def ev(self, n): return self.rv(self.eval(n))
    def evz(self, n, mt=None): return self.z(self.ev(n), mt)
    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, Z):
            if v.e.sort() == z3.BoolSort(): return v.e
            if v.e.sort() == z3.IntSort(): return v.e != 0
            if v.e.sort() == z3.RealSort(): return v.e != 0
            if isinstance(v.mt, MRec) and v.mt.has("has"): return v.mt.get(v.e, "has")
        if isinstance(v, PtrLV) or isinstance(v, Closure): return z3.BoolVal(True)
        if isinstance(v, StructVal) and "has" in v.f: return self.z(v.f["has"])
        if isinstance(v, PyVal) and v.kind == "check": return z3.Not(v.cond)
        if isinstance(v, PyVal) and v.kind == "opaque": return self.fresh(z3.BoolSort(), "opq")
        raise Unsupported(f"truth of {v}")

    def e_int(self, n): return Z(self.mt(self.ty(n["t"])), z3.IntVal(n["v"])) if self.ty(n["t"]).k != "bool" else Z(MBool(), z3.BoolVal(n["v"] != "0"))
    def e_bool(self, n): return Z(MBool(), z3.BoolVal(n["v"]))
    def e_float(self, n): return Z(MReal(), self.M.real_lit(n["v"]))
    def e_str(self, n): return Z(MStr(), self.M.str_lit(self, n["v"]))
    def e_null(self, n): return Z(MRef("ptr", None), z3.IntVal(0))
    def e_zero(self, n): return self.default_of(self.mt(self.ty(n["t"])))
    def e_enumc(self, n): return Z(MInt(32, True), z3.IntVal(n["v"]))
    def e_this(self, n):
        if self.this is None: raise Unsupported("no this")
        return self.this
    def e_mat(self, n):
        v = self.eval(n["e"])
        if isinstance(v, LV): return v
        mt = None
        try: mt = self.mt(self.ty(n["t"]))
        except Unsupported: pass
        return TempLV(v, v.mt if isinstance(v, (Z, StructVal)) else mt)
    def vkey(self, id): return (id(self.unit) if False else self.unit_id, id)
    @property
    def unit_id(self): return self.prog.units.index(self.unit)
    def e_var(self, n):
        key = (self.unit_id, n["id"])
        if key in self.env:
            v = self.env[key]
            if isinstance(v, PyVal) and v.kind == "refvar": return v.lv
            mt = v.mt if isinstance(v, (Z, StructVal)) else None
            if mt is None:
                try: mt = self.mt(self.ty(n["t"]))
                except Unsupported: mt = None
            return LocalLV(key, mt)
        if "cval" in n: return Z(self.mt(self.ty(n["t"])), z3.IntVal(n["cval"])) if self.ty(n["t"]).k != "bool" else Z(MBool(), z3.BoolVal(n["cval"] != "0"))
        if "cvalf" in n: return Z(MReal(), self.M.real_lit(n["cvalf"]))
        raise Unsupported(f"unknown variable {n['name']}")
    def e_binding(self, n):
        key = (self.unit_id, n.get("hold", n["id"]))
        if key not in self.env: key = (self.unit_id, n["id"])
        v = self.env.get(key)
        if v is None: raise Unsupported(f"unknown binding {n['name']}")
        if isinstance(v, PyVal) and v.kind == "refvar": return v.lv
        return LocalLV(key, getattr(v, "mt", None))
    def e_global(self, n):
        t = self.ty(n["t"])
        if "cval" in n:
            if t.k == "bool": return Z(MBool(), z3.BoolVal(n["cval"] != "0"))
            return Z(self.mt(t), z3.IntVal(n["cval"]))
        if "cvalf" in n: return Z(MReal(), self.M.real_lit(n["cvalf"]))
        if n["name"] in ("absl::nullopt", "std::nullopt"): return PyVal("nullopt")
        mt = self.mt(t)
        if n["name"] in self.specs.globals: return Z(mt, z3.IntVal(self.specs.globals[n["name"]]))
        if "init" in n and n["init"] is not None and isinstance(mt, (MTime,)):
            return self.ev(n["init"])
        # a mutable or opaque global: treated as an unknown constant
        return Z(mt, z3.Const("G_" + n["name"], mt.sort()))
    def e_func(self, n): return PyVal("func", node=n, unit=self.unit)
    def e_member(self, n):
        b = self.eval(n["b"])
        owner = short(self.ty(n["mt"]).s)
        f = n["f"]
        bv = b
        if isinstance(b, TempLV) or (isinstance(b, LV) and b.mt is None):
            try: bv = b.read(self)
            except Unsupported: bv = b
        if isinstance(bv, PyVal) and bv.kind == "inserted":
            return TempLV(bv.it, None) if f == "first" else TempLV(Z(MBool(), bv.ok), MBool())
        if n["arrow"]:
            p = self.rv(b)
            lv = self.deref(p, self.ty(n["b"]["t"]))
        else:
            lv = b
            if not isinstance(lv, LV): lv = TempLV(b, getattr(b, "mt", None))
        hook = self.specs.field_hooks.get(f"{owner}.{f}")
        if isinstance(lv, ObjLV):
            r = lv.member(self, f, owner)
        else:
            r = lv.member(self, f, owner)
        return r
    def deref(self, p, pty=None):
        """lvalue a pointer value points to"""
        if isinstance(p, PtrLV): return p.lv
        if isinstance(p, PyVal) and p.kind in self.M.ITERS: return self.M.iter_deref(self, p)
        if isinstance(p, Z) and isinstance(p.mt, MRef):
            to = p.mt.to_ty
            if to is None or isinstance(to, str): to = pty.to if pty is not None and pty.k == "ptr" else to
            if to is None: raise Unsupported("deref of untyped pointer")
            if self.opt.get("nullcheck", True) and not self.specs.assume_nonnull:
                self.obligation(f"null dereference: line {0}", p.e != 0, self.line, "safety")
                self.assume(p.e != 0)
            if to.k == "rec": return ObjLV(p.e, to, self)
            mt = self.mt(to)
            return HeapLV("obj." + mt.name, p.e, mt)
        if isinstance(p, StructVal) and "has" in p.f:
            return TempLV(p.f["value"], p.mt.ft("value"))
        raise Unsupported(f"deref {type(p).__name__} {getattr(p,'kind','')}")
    def e_cast(self, n):
        ck = n["ck"]; v = None
        if ck in ("LValueToRValue",):
            return self.rv(self.eval(n["e"]))
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast", "AtomicToNonAtomic", "NonAtomicToAtomic"):
            return self.eval(n["e"])
        if ck == "ArrayToPointerDecay":
            v = self.eval(n["e"])
            return v
        if ck in ("BaseToDerived", "BitCast", "Dynamic"):
            v = self.rv(self.eval(n["e"]))
            if isinstance(v, Z) and isinstance(v.mt, MRef):
                t = self.ty(n["t"])
                return Z(MRef(v.mt.kind, t.to if t.k == "ptr" else v.mt.to_ty), v.e)
            return v
        if ck == "NullToPointer": return Z(MRef("ptr", self.ty(n["t"]).to if self.ty(n["t"]).k == "ptr" else None), z3.IntVal(0))
        if ck == "ToVoid":
            self.eval(n["e"]); return None
        v = self.ev(n["e"])
        t = self.ty(n["t"])
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return Z(MBool(), self.truth(v))
        if ck == "IntegralCast":
            return self.int_cast(v, t)
        if ck == "BooleanToSignedIntegral": return Z(self.mt(t), z3.If(self.truth(v), z3.IntVal(1), z3.IntVal(0)))
        if ck == "IntegralToFloating": return Z(MReal(), z3.ToReal(self.z(v, MInt(64, True))))
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral":
            e = self.z(v, MReal())
            return Z(self.mt(t), z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
        if ck in ("PointerToIntegral",): return Z(self.mt(t), self.z(v))
        raise Unsupported(f"cast {ck}")
    def int_cast(self, v, t):
        mt = self.mt(t)
        e = self.z(v, MInt(64, True)) if not isinstance(v, Z) or v.e.sort() != z3.IntSort() else v.e
        src = v.mt if isinstance(v, Z) and isinstance(v.mt, MInt) else MInt(64, True)
        if isinstance(mt, MBool): return Z(mt, e != 0)
        if not isinstance(mt, MInt): raise Unsupported("integral cast to " + mt.name)
        if z3.is_int_value(e):
            val = e.as_long(); m = 1 << mt.bits
            val %= m
            if mt.signed and val >= m // 2: val -= m
            return Z(mt, z3.IntVal(val))
        if mt.signed:
            if mt.bits < src.bits or (mt.bits == src.bits and not src.signed):
                if self.opt.get("exact_casts"):
                    m = 1 << mt.bits; h = m // 2
                    wide = 1 << src.bits
                    return Z(mt, z3.If(z3.And(e >= -h, e < h), e, z3.If(z3.And(e >= wide - h, e < wide), e - wide, (e + h) % m - h)))
                self.note_assumption("signed narrowing conversions keep the value")
            return Z(mt, e)
        m = 1 << mt.bits
        if src.signed:
            if mt.bits >= src.bits: return Z(mt, z3.simplify(z3.If(e >= 0, e, e + m)))
        if mt.bits < src.bits:
            if self.opt.get("exact_casts"): return Z(mt, e % m)
            self.note_assumption("unsigned narrowing conversions keep the value")
        return Z(mt, e)
    def note_assumption(self, s): self.specs.assumptions.add(s)
    def e_un(self, n):
        op = n["op"]
        if op == "&":
            x = self.eval(n["e"])
            return self.addr_of(x)
        if op == "*":
            p = self.rv(self.eval(n["e"]))
            return self.deref(p, self.ty(n["e"]["t"]))
        if op == "!": return Z(MBool(), z3.Not(self.truth(self.eval(n["e"]))))
        if op in ("++", "--"):
            lv = self.eval(n["e"])
            v = lv.read(self)
            if not (isinstance(v, Z) and v.e.sort() in (z3.IntSort(), z3.RealSort())): raise Unsupported("++ on " + str(v))
            nv = Z(v.mt, self.arith("+" if op == "++" else "-", v.e, z3.IntVal(1) if v.e.sort() == z3.IntSort() else z3.RealVal(1), v.mt))
            lv.write(self, nv)
            return v if n.get("post") else lv
        v = self.ev(n["e"])
        if op == "-":
            if isinstance(v.mt, MInt) and not v.mt.signed and not z3.is_int_value(v.e): return Z(v.mt, z3.If(v.e == 0, v.e, (1 << v.mt.bits) - v.e))
            return Z(v.mt, -v.e)
        if op == "+": return v
        if op == "__extension__": return v
        if op == "~":
            if isinstance(v.mt, MInt): return Z(v.mt, -v.e - 1 if v.mt.signed else (1 << v.mt.bits) - 1 - v.e)
        raise Unsupported(f"unary {op}")
    def addr_of(self, x):
        if isinstance(x, ObjLV): return Z(MRef("ptr", x.ty), x.ref)
        if isinstance(x, LV): return PtrLV(x)
        if isinstance(x, PyVal) and x.kind == "func": return x
        raise Unsupported("address of rvalue")
    def arith(self, op, a, b, mt):
        if op == "+":
            r = a + b
            if isinstance(mt, MInt) and not mt.signed and self.opt.get("exact_unsigned"):
                m = 1 << mt.bits; r = z3.If(r >= m, r - m, r)
            return z3.simplify(r)
        if op == "-":
            r = a - b
            if isinstance(mt, MInt) and not mt.signed:
                m = 1 << mt.bits
                r = z3.If(a >= b, r, r + m)
            return z3.simplify(r)
        if op == "*": return z3.simplify(a * b)
        if op == "/":
            if a.sort() == z3.RealSort(): return a / b
            if isinstance(mt, MInt) and mt.signed:
                return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return a / b
        if op == "%":
            if not z3.is_int_value(z3.simplify(b)):      # symbolic modulus: specification function
                m = UMOD(a, b)
                self.assume_once(z3.Implies(z3.And(a >= 0, b > 0), z3.And(m >= 0, m < b, m <= a, z3.Implies(a < b, m == a), z3.Implies(z3.And(b <= a, a < 2 * b), m == a - b))))
                if not isinstance(mt, MInt) or mt.signed: self.assume_once(z3.Implies(z3.And(a < 0, b > 0), z3.And(m <= 0, -b < m, z3.Implies(-b < a, m == a), z3.Implies(a == -b, m == 0))))
                self.note_assumption("a % b with non-constant b: uninterpreted function with 0 <= a%b < b, a%b <= a, a%b = a for a < b, a-b for b <= a < 2b (a >= 0), -b < a%b <= 0, a for -b < a, 0 for a = -b (a < 0)")
                return m
            if isinstance(mt, MInt) and mt.signed:
                return z3.If(a >= 0, a % z3.If(b > 0, b, -b), -((-a) % z3.If(b > 0, b, -b)))
            return a % b
        if op in ("<<", ">>") and z3.is_int_value(b):
            p = 1 << b.as_long()
            return z3.simplify(a * p) if op == "<<" else a / p
        if op in ("&", "|", "^"):
            if a.sort() == z3.BoolSort(): return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a, b)
        raise Unsupported(f"arithmetic {op}")
    def e_bin(self, n):
        op = n["op"]
        if op in ("&&", "||"):
            l = self.truth(self.eval(n["L"]))
            ls = z3.simplify(l)
            if z3.is_true(ls): return Z(MBool(), ls) if op == "||" else Z(MBool(), self.truth(self.eval(n["R"])))
            if z3.is_false(ls): return Z(MBool(), ls) if op == "&&" else Z(MBool(), self.truth(self.eval(n["R"])))
            # evaluate the right side only when needed
            if self.choose(ls if op == "&&" else z3.Not(ls)):
                return Z(MBool(), self.truth(self.eval(n["R"])))
            return Z(MBool(), z3.BoolVal(op == "||"))
        if op == ",":
            self.eval(n["L"]); return self.eval(n["R"])
        a, b = self.ev(n["L"]), self.ev(n["R"])
        return self.binop(op, a, b, self.ty(n["t"]))
    def binop(self, op, a, b, t):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return Z(MBool(), self.compare(op, a, b))
        if not (isinstance(a, Z) and isinstance(b, Z)): 
            # pointer arithmetic on element pointers
            if isinstance(a, PtrLV) and isinstance(a.lv, IndexLV) and isinstance(b, Z) and op in "+-":
                return PtrLV(IndexLV(a.lv.base, z3.simplify(a.lv.idx + b.e if op == "+" else a.lv.idx - b.e)))
            if isinstance(a, PtrLV) and isinstance(b, PtrLV) and op == "-" and isinstance(a.lv, IndexLV) and isinstance(b.lv, IndexLV):
                return Z(MInt(64, True), z3.simplify(a.lv.idx - b.lv.idx))
            if isinstance(a, PyVal) and a.kind == "tptr" and isinstance(b, Z) and op in "+-": return PyVal("tptr", lv=a.lv, off=a.off + b.e if op == "+" else a.off - b.e)
            raise Unsupported(f"binary {op} on {type(a).__name__},{type(b).__name__}")
        mt = self.mt(t)
        x, y = a.e, b.e
        if x.sort() == z3.BoolSort() and y.sort() == z3.BoolSort() and op in "&|^": return Z(MBool(), self.arith(op, x, y, MBool()))
        if x.sort() != y.sort() or isinstance(mt, MReal):
            x, y = self.z(a, mt), self.z(b, mt)
        if op in ("/", "%"):
            self.obligation("division by zero", y != 0, self.line, "safety"); self.assume(y != 0)
        return Z(mt, self.arith(op, x, y, mt))
    def compare(self, op, a, b):
        if isinstance(a, PtrLV) or isinstance(b, PtrLV):
            if op in ("==", "!="):
                if isinstance(a, PtrLV) and isinstance(b, PtrLV):
                    la, lb = a.lv, b.lv
                    if isinstance(la, IndexLV) and isinstance(lb, IndexLV):
                        r = la.idx == lb.idx; return r if op == "==" else z3.Not(r)
                    if isinstance(la, LocalLV) and isinstance(lb, LocalLV):
                        return z3.BoolVal((la.key == lb.key) == (op == "=="))
                    r = self.fresh(z3.BoolSort(), "ptreq"); return r
                other = b if isinstance(a, PtrLV) else a
                if isinstance(other, Z) and z3.is_int_value(z3.simplify(other.e)) and z3.simplify(other.e).as_long() == 0:
                    return z3.BoolVal(op == "!=")
            if isinstance(a, PtrLV) and isinstance(b, PtrLV) and isinstance(a.lv, IndexLV) and isinstance(b.lv, IndexLV):
                x, y = a.lv.idx, b.lv.idx
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            raise Unsupported("pointer comparison")
        if isinstance(a, PyVal) or isinstance(b, PyVal):
            return self.M.iter_compare(self, op, a, b)
        if isinstance(a, Closure) or isinstance(b, Closure): return z3.BoolVal(op == "!=")
        x, y = self.z(a), self.z(b)
        if x.sort() != y.sort():
            if z3.RealSort() in (x.sort(), y.sort()): x, y = self.z(a, MReal()), self.z(b, MReal())
            elif z3.BoolSort() in (x.sort(), y.sort()): x, y = self.z(a, MInt(32, True)), self.z(b, MInt(32, True))
            elif isinstance(a, StructVal) or isinstance(b, StructVal):
                mt = a.mt if isinstance(a, Z) else b.mt
                x, y = self.z(a, mt), self.z(b, mt)
            else: raise Unsupported(f"comparison of {x.sort()} and {y.sort()}")
        if op == "==": return x == y
        if op == "!=": return x != y
        return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
    def e_assign(self, n):
        r = self.eval(n["R"])
        l = self.eval(n["L"])
        v = self.rv(r)
        self.assign(l, v)
        return l
    def assign(self, l, v):
        if isinstance(v, Z) and isinstance(l.mt, MT) and not isinstance(l, (LocalLV,)) : pass
        if isinstance(v, Z) and l.mt is not None and isinstance(l.mt, (MReal, MInt, MBool)) and v.e.sort() != l.mt.sort():
            v = Z(l.mt, self.z(v, l.mt))
        if isinstance(v, StructVal): v = v.copy()
        l.write(self, v)
    def e_cassign(self, n):
        r = self.ev(n["R"])
        l = self.eval(n["L"])
        a = l.read(self)
        if isinstance(a, PtrLV):
            l.write(self, self.binop(n["op"], a, r, self.ty(n["t"]))); return l
        ct = self.ty(n["ct"])
        mt = self.mt(ct)
        x = Z(mt, self.z(a, mt)) if isinstance(mt, MReal) or a.e.sort() != mt.sort() else a
        v = self.binop(n["op"], x, r, ct)
        lt = l.mt
        if isinstance(lt, MInt) and isinstance(v.mt, MReal):
            e = v.e; v = Z(lt, z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
        elif isinstance(lt, MInt) and isinstance(v.mt, MInt):
            v = self.int_cast(v, self.ty(n["t"])) if (lt.bits, lt.signed) != (v.mt.bits, v.mt.signed) else v
        elif isinstance(lt, MBool): v = Z(lt, self.truth(v))
        l.write(self, v)
        return l
    def pure_probe(self, n):
        return False
    def e_cond(self, n):
        c = self.truth(self.eval(n["c"]))
        if self.choose(c): return self.eval(n["a"])
        return self.eval(n["b"])
    def e_lambda(self, n):
        env = {}
        for c in n["caps"]:
            if c.get("this"): continue
            key = (self.unit_id, c["id"])
            if c["byref"]:
                cur = self.env.get(key)
                if isinstance(cur, PyVal) and cur.kind == "refvar": env[key] = cur
                else: env[key] = PyVal("refvar", lv=LocalLV(key, getattr(cur, "mt", None)))
            else:
                env[key] = self.rv(self.eval(c["init"])) if c.get("init") else self.rv(self.env[key])
        return Closure(n, env, self.unit, self.this)
    def e_index(self, n):
        b = self.eval(n["b"]); i = self.evz(n["i"])
        if isinstance(b, PtrLV) and isinstance(b.lv, IndexLV):
            return IndexLV(b.lv.base, z3.simplify(b.lv.idx + i))
        if isinstance(b, LV) and isinstance(b.mt, MSeq): return IndexLV(b, i)
        b = self.rv(b)
        if isinstance(b, PtrLV) and isinstance(b.lv, IndexLV):
            return IndexLV(b.lv.base, z3.simplify(b.lv.idx + i))
        raise Unsupported("array subscript")
    def e_ilist(self, n):
        t = self.ty(n["t"]); mt = self.mt(t)
        vals = [self.ev(x) for x in n["e"]]
        return self.make_init_list(mt, vals)
    def make_init_list(self, mt, vals):
        if isinstance(mt, MRec):
            f = {}
            for (nme, ft), v in itertools.zip_longest(mt.fields, vals):
                if nme is None: raise Unsupported("too many initialisers")
                f[nme] = self.coerce(v, ft) if v is not None else self.default_of(ft)
            return StructVal(mt, f)
        if isinstance(mt, MSeq):
            arr = mt.arr(mt.empty())
            for i, v in enumerate(vals): arr = z3.Store(arr, i, self.z(v, mt.el))
            return Z(mt, mt.mk(z3.IntVal(len(vals)), arr))
        if len(vals) == 0: return self.default_of(mt)
        if len(vals) == 1: return self.coerce(vals[0], mt)
        raise Unsupported(f"initialiser list for {mt}")
    def coerce(self, v, mt):
        if isinstance(v, Z) and v.e.sort() != mt.sort(): return Z(mt, self.z(v, mt))
        if isinstance(v, StructVal): return v.copy()
        return v
    def e_stdilist(self, n):
        v = self.rv(self.eval(n["e"]))
        return v
    def e_new(self, n):
        t = self.ty(n["at"])
        if n.get("array"): raise Unsupported("new[]")
        v = self.ev(n["e"]) if n["e"] is not None else None
        if t.name == "std::basic_string": return Z(MRef("ptr", t), self.new_ref())
        return self.alloc_object(t, v)
    def alloc_object(self, t, v):
        r = self.new_ref()
        if isinstance(v, PyVal) and v.kind == "ctorpending":
            self.construct_at(r, t, v)
        elif v is not None:
            ObjLV(r, t, self).write(self, v)
        p = Z(MRef("ptr", t), r)
        return p
    def construct_at(self, ref, t, cp):
        lv = ObjLV(ref, t, self)
        self.run_ctor(cp.fn, cp.args, Z(MRef("ptr", t), ref), t)
    def e_delete(self, n):
        self.eval(n["e"]); return None
    def e_memfn(self, n): return PyVal("memfn", node=n)

    # ---------------- constructors
    def e_ctor(self, n):
        t = self.ty(n["t"])
        r = self.M.ctor(self, n, t)
        if r is not NotImplemented: return r
        args = n["args"]
        if (n.get("copy") or n.get("move")) and len(args) >= 1:
            return self.copy_or_move(n, self.eval(args[0]), t)
        fn = self.prog.by_usr.get(n.get("usr"))
        mt = self.mt(t)
        if fn is not None and not fn["d"] if False else fn is not None:
            vals = self.bind_args(fn, args)
            # construct in a fresh anonymous object, then read it back as a value
            if isinstance(mt, MRec):
                tmp = TempLV(StructVal(mt, {}), mt)
                self.run_ctor(fn, vals, PtrLV(tmp), t)
                return tmp.v
        if isinstance(mt, MRec) and not mt.proto:
            if not args:
                return self.record_default(t, mt)
        if not args: return self.default_of(mt)
        raise Unsupported(f"constructor {n['fn'][:80]} line {n.get('l')}")
    def record_default(self, t, mt):
        r = self.prog.records.get(t.s)
        f = {}
        if r is not None:
            u = r["unit"]; save = self.unit
            for own, x in self.all_fields(r):
                if x.get("init") is not None:
                    self.unit = u
                    try: f[x["name"]] = self.coerce(self.ev(x["init"]), mt.ft(x["name"]))
                    finally: self.unit = save
                else:
                    ft = mt.ft(x["name"])
                    f[x["name"]] = self.fresh_val(ft, "uninit_" + x["name"]) if isinstance(ft, (MInt, MBool, MReal)) else self.default_of(ft)
            return StructVal(mt, f)
        return self.default_of(mt)
    def copy_or_move(self, n, src, t):
        v = self.rv(src)
        if isinstance(v, StructVal): v = v.copy()
        if n.get("move") and isinstance(src, LV) and not isinstance(src, TempLV):
            self.moved_from(src)
        return v
    def moved_from(self, lv):
        mt = lv.mt
        if isinstance(mt, MRef) and mt.kind in ("shared", "unique", "weak"): lv.write(self, Z(mt, z3.IntVal(0)))
        elif isinstance(mt, (MSeq, MMap, MSet, MList)): lv.write(self, Z(mt, mt.empty()))
        elif isinstance(mt, MStr): lv.write(self, self.fresh_val(mt, "moved"))
        elif isinstance(mt, MRec):
            if mt.proto: lv.write(self, self.fresh_val(mt, "moved"))
            else:
                for f, ft in mt.fields:
                    if isinstance(ft, (MRef, MSeq, MMap, MSet, MList, MStr, MRec)):
                        try:
                            m = lv.member(self, f, self.field_owner(lv.ty, f)) if isinstance(lv, ObjLV) else FieldLV(lv, f, self)
                            self.moved_from(m)
                        except Unsupported: raise
    def run_ctor(self, fn, vals, this, t):
        """runs a constructor body on `this` (pointer value)"""
        if isinstance(fn, dict) and "ctor" not in fn: raise Unsupported("not a ctor")
        sv = (self.unit, self.this)
        self.unit, self.this = fn["unit"], this
        self.callstack.append(fn["usr"])
        if self.callstack.count(fn["usr"]) > 2: raise Unsupported("recursive constructor")
        self.inlined.add(fn["sname"])
        try:
            lvobj = self.deref_quiet(this)
            for p, v in zip(fn["params"], vals): self.env[(self.unit_id, p["id"])] = v
            for i in fn.get("inits", []):
                if "field" in i:
                    ft = self.mt(self.ty(i["ft"])) if self.ty(i["ft"]).k != "ref" else None
                    if self.ty(i["ft"]).k == "ref":
                        v = self.eval(i["e"]); v = PyVal("refvar", lv=v)
                        self.init_field(lvobj, t, i["field"], v); continue
                    e = i["e"]
                    if e is None: continue
                    if e["k"] == "ctor" and e.get("dflt") and not i.get("written") :
                        v = self.try_default(e, ft)
                    else:
                        v = self.ev(e)
                    self.init_field(lvobj, t, i["field"], self.coerce(v, ft) if isinstance(v, (Z, StructVal)) else v)
                elif i.get("delegate"):
                    e = i["e"]
                    f2 = self.prog.by_usr.get(e.get("usr"))
                    if f2 is None: raise Unsupported("delegating constructor body unavailable")
                    vals2 = self.bind_args(f2, e["args"])
                    self.run_ctor(f2, vals2, this, t)
                else:
                    e = i["e"]
                    f2 = self.prog.by_usr.get(e.get("usr")) if e and e["k"] == "ctor" else None
                    if f2 is not None: self.run_ctor(f2, self.bind_args(f2, e["args"]), this, self.ty(i["base"]))
            self.init_unmentioned(fn, lvobj, t)
            try: self.stmt(fn["body"])
            except ReturnEx: pass
        finally:
            self.callstack.pop()
            self.unit, self.this = sv
    def try_default(self, e, ft):
        try: return self.ev(e)
        except Unsupported:
            return self.default_of(ft)
    def init_unmentioned(self, fn, lv, t): pass
    def init_field(self, lvobj, t, f, v):
        if isinstance(lvobj, TempLV):
            nb = StructVal(lvobj.v.mt, dict(lvobj.v.f)); nb.f[f] = v; lvobj.v = nb
        elif isinstance(lvobj, ObjLV):
            lvobj.member(self, f, self.field_owner(t, f)).write(self, v)
        else:
            FieldLV(lvobj, f, self).write(self, v)
    def deref_quiet(self, p):
        if isinstance(p, PtrLV): return p.lv
        return ObjLV(p.e, p.mt.to_ty, self)

    # ---------------- calls
    def bind_args(self, fn, args, evaluated=False):
        u = fn["unit"]
        out = []
        for i, p in enumerate(fn["params"]):
            if i >= len(args): raise Unsupported("missing argument")
            t = u.ty(p["t"])
            a = args[i] if evaluated else self.eval(args[i])
            if t.k == "ref":
                if isinstance(a, PyVal) and a.kind == "refvar": out.append(a)
                else: out.append(PyVal("refvar", lv=a if isinstance(a, LV) else TempLV(a, getattr(a, "mt", None))))
            else:
                v = self.rv(a)
                if isinstance(v, StructVal): v = v.copy()
                if isinstance(v, Z) and t.k in ("int", "float", "bool"): v = Z(self.mt(t), self.z(v, self.mt(t)))
                out.append(v)
        return out
    def e_call(self, n):
        if "callee" in n:
            c = self.ev(n["callee"])
            if isinstance(c, PyVal) and c.kind == "func":
                raise Unsupported("indirect call")
            return self.call_closure(c, [self.eval(a) for a in n["args"]])
        r = self.M.call(self, n)
        if r is not NotImplemented: return r
        return self.call_fn(n, None, n["args"])
    def e_mcall(self, n):
        r = self.M.mcall(self, n)
        if r is not NotImplemented: return r
        obj = self.eval(n["obj"])
        if isinstance(n.get("fn"), str) and n["fn"].startswith("lambda@") and not n["args"]:     # conversion to a function pointer
            v = obj.read(self) if isinstance(obj, (LocalLV, TempLV)) else obj
            if isinstance(v, Closure): return v
        if n["arrow"] or self.ty(n["obj"]["t"]).k == "ptr":
            this = self.rv(obj)
        else:
            this = self.addr_of(obj if isinstance(obj, LV) else TempLV(obj, getattr(obj, "mt", None)))
        return self.call_fn(n, this, n["args"])
    def e_opcall(self, n):
        r = self.M.opcall(self, n)
        if r is not NotImplemented: return r
        if n.get("ism"):
            obj = self.eval(n["args"][0])
            if isinstance(obj, LV):
                v = None
                if isinstance(obj, LocalLV) or isinstance(obj, TempLV):
                    try: v = obj.read(self)
                    except Unsupported: v = None
                if isinstance(v, Closure) and n["op"] == "()": return self.call_closure(v, [self.eval(a) for a in n["args"][1:]])
            elif isinstance(obj, Closure) and n["op"] == "()": return self.call_closure(obj, [self.eval(a) for a in n["args"][1:]])
            this = self.addr_of(obj if isinstance(obj, LV) else TempLV(obj, getattr(obj, "mt", None)))
            return self.call_fn(n, this, n["args"][1:])
        return self.call_fn(n, None, n["args"])
    def call_closure(self, c, args):
        if not isinstance(c, Closure): 
            return self.M.call_opaque_function(self, c, args)
        nd = c.node
        if nd.get("generic"): raise Unsupported("generic lambda")
        saved = {k: self.env.get(k) for k in c.env}
        sv = (self.unit, self.this)
        for k, v in c.env.items():
            # by-reference captures of live variables resolve to themselves
            if isinstance(v, PyVal) and v.kind == "refvar" and isinstance(v.lv, LocalLV) and v.lv.key == k: continue
            self.env[k] = v
        self.unit, self.this = c.unit, c.this
        try:
            for p, a in zip(nd["params"], args):
                t = self.ty(p["t"])
                key = (self.unit_id, p["id"])
                if t.k == "ref": self.env[key] = PyVal("refvar", lv=a if isinstance(a, LV) else TempLV(a, getattr(a, "mt", None)))
                else:
                    v = self.rv(a); self.env[key] = v.copy() if isinstance(v, StructVal) else v
            return self.run_body(nd["body"], self.ty(nd["ret"]))
        finally:
            self.unit, self.this = sv
            for k, v in c.env.items():
                if isinstance(v, PyVal) and v.kind == "refvar" and isinstance(v.lv, LocalLV) and v.lv.key == k: continue
                if saved[k] is None: self.env.pop(k, None)
                else: self.env[k] = saved[k]
    def run_body(self, body, ret):
        ss = self.scopes; self.scopes = []
        try:
            self.stmt(body)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.scopes = ss
        return r
    def call_fn(self, n, this, args):
        name = strip_targs(n["fn"])
        usr = n.get("usr")
        c = self.specs.lookup(name, n, self)
        if c is not None:
            u = self.unit
            vals = []
            for i, a in enumerate(args):
                v = self.eval(a)
                pt = self.ty(n["pt"][i]) if i < len(n.get("pt", [])) else None
                if pt is not None and pt.k != "ref":
                    v = self.rv(v)
                    if isinstance(v, Z) and pt.k in ("int", "float", "bool"): v = Z(self.mt(pt), self.z(v, self.mt(pt)))
                vals.append(v)
            return self.apply_contract(c, name, this, vals, self.ty(n["t"]), n)
        fn = self.prog.by_usr.get(usr)
        if fn is None or fn.get("body") is None:
            raise Unsupported(f"no body, model or contract for {name} (line {n.get('l')})")
        if n.get("virt") and not n.get("qual"):
            raise Unsupported(f"virtual call {name} without contract")
        return self.inline(fn, this, self.bind_args(fn, args))
    def inline(self, fn, this, vals):
        usr = fn["usr"]
        if usr in self.callstack: raise Unsupported(f"recursion in {fn['sname']}")
        if len(self.callstack) > 12: raise Unsupported("inlining too deep")
        self.inlined.add(fn["sname"])
        sv = (self.unit, self.this)
        self.unit, self.this = fn["unit"], this
        self.callstack.append(usr)
        try:
            for p, v in zip(fn["params"], vals): self.env[(self.unit_id, p["id"])] = v
            return self.run_body(fn["body"], self.ty(fn["ret"]))
        finally:
            self.callstack.pop()
            self.unit, self.this = sv

    # ---------------- contracts at call sites
    def this_ref(self, this):
        if this is None: return None
        if isinstance(this, Z): return this.e
        if isinstance(this, PtrLV):
            if isinstance(this.lv, ObjLV): return this.lv.ref
            if isinstance(this.lv, HeapLV) and isinstance(this.lv.mt, MRef): return None
        return None
    def apply_contract(self, c, name, this, vals, ret, n):
        self.called.add(c.name)
        cls = c.cls
        ref = None
        back = None
        if this is not None:
            ref = self.this_ref(this)
            if ref is None:
                # object stored by value inside another object: give it a
                # temporary identity, copy in / copy out
                lv = this.lv if isinstance(this, PtrLV) else None
                if lv is None or not isinstance(lv.mt, MRec): raise Unsupported(f"contract call {name} on embedded object")
                ref = self.new_ref()
                rec = self.rec_by_short(cls)
                ObjLV(ref, rec["unit"].ty(rec["type"]), self).write(self, lv.read(self))
                back = (lv, rec)
        pre = self.view()
        ctx = Ctx(self, cls, ref, self.spec_args(vals), pre, pre)
        ctx.call_node = n
        ctx.raw_args = vals
        for lab, f in c.requires(ctx):
            self.obligation(f"{lab} (precondition of {short(name)})", f, n.get("l", 0), "pre")
            self.assume(f)
        if c.release_lock: self.wait_point(f"call of {short(name)}")
        pre = self.view()
        # havoc frame
        argpre = [self.freeze(v) for v in self.spec_args(vals)]
        for m in c.modifies(ctx):
            if isinstance(m, str):
                own, f = m.rsplit(".", 1) if "." in m else (self.find_owner(cls, m), m)
                mt = self.field_mt(own, f)
                HeapLV(f"{own}.{f}", ref, mt).write(self, Z(mt, self.fresh(mt.sort(), "m_" + f)))
            elif m[0] == "arg":
                lv = vals[m[1]]
                lv = lv.lv if isinstance(lv, PtrLV) or (isinstance(lv, PyVal) and lv.kind == "refvar") else lv
                if isinstance(lv, Z) and isinstance(lv.mt, MRef): lv = self.deref(lv)
                if not isinstance(lv, LV): raise Unsupported("modified argument is not an lvalue")
                mt = lv.mt
                lv.write(self, self.fresh_val(mt, "out"))
            elif m[0] == "all":      # ("all", "Cls.f"): the field of every object
                own, f = m[1].rsplit(".", 1); mt = self.field_mt(own, f); fk = m[1]
                self.note_write(("H", fk), ANYREF)
                self.hmt[fk] = mt
                self.heap[fk] = self.fresh(z3.ArraySort(z3.IntSort(), mt.sort()), "H_" + fk)
            elif m[0] == "at":       # ("at", ref, "Cls.f")
                own, f = m[2].rsplit(".", 1); mt = self.field_mt(own, f)
                HeapLV(m[2], m[1], mt).write(self, Z(mt, self.fresh(mt.sort(), "m_" + f)))
            elif m[0] == "alloc":
                na = self.fresh(z3.IntSort(), "alloc"); self.assume(na >= self.alloc); self.alloc = na
        res = None
        rmt = None
        if ret.k != "void":
            if ret.k == "ref":
                rmt = self.mt(ret)
                res = Z(rmt, self.fresh(rmt.sort(), "res"))
            else:
                rmt = self.mt(ret)
                res = self.fresh_val(rmt, "res")
        post = self.view()
        ctx2 = Ctx(self, cls, ref, argpre, pre, post, res)
        ctx2.call_node = n
        ctx2.post_args = self.spec_args(vals)
        for lab, f in c.ensures(ctx2): self.assume(f)
        if back is not None:
            lv, rec = back
            lv.write(self, ObjLV(ref, rec["unit"].ty(rec["type"]), self).read(self))
        if c.on_call: c.on_call(self, ctx2)
        if ret.k == "ref": return TempLV(res, rmt)
        return res
    def spec_args(self, vals):
        return [v.lv if isinstance(v, PyVal) and v.kind == "refvar" else v for v in vals]
    def freeze(self, v):
        try:
            if isinstance(v, PtrLV): return self.freeze(v.lv)
            if isinstance(v, ObjLV): return v
            if isinstance(v, LV): return v.read(self)
        except Unsupported: return v
        return v

    # ---------------- monitors
    def acquire(self, mon, ref, why):
        for fk in mon.fields:
            own, f = fk.rsplit(".", 1); mt = self.field_mt(own, f)
            if mon.multi(fk):
                self.note_write(("H", fk), ANYREF)
                self.hmt[fk] = mt; self.heap[fk] = self.fresh(z3.ArraySort(z3.IntSort(), mt.sort()), "H_" + fk)
            else:
                HeapLV(fk, ref, mt).write(self, Z(mt, self.fresh(mt.sort(), "mon_" + f)))
        na = self.fresh(z3.IntSort(), "alloc"); self.assume(na >= self.alloc); self.alloc = na
        self.held.append((mon, ref))
        v = self.view()
        for lab, f in mon.inv(self, ObjW(v, ref, mon.cls)): self.assume(f)
        for h in self.acq_hooks: self.assume(h(ObjW(v, ref, mon.cls)))
        if mon.rely and self.snap_rel is not None:
            for lab, f in mon.rely(self, ObjW(self.snap_rel, ref, mon.cls), ObjW(v, ref, mon.cls)): self.assume(f)
        self.snap_acq = self.view()
    snap_rel = None
    acq_hooks = ()
    rel_hooks = ()      # called after a lock was released: (monitor, object, state at the acquisition, state now)
    wait_hook = None    # called before waiting

    def release(self, mon, ref, why):
        v = self.view()
        for lab, f in mon.inv(self, ObjW(v, ref, mon.cls)):
            self.obligation(f"{lab} (monitor invariant at {why})", f, self.line, "monitor")
        if mon.guarantee is not None and self.snap_acq is not None:
            for lab, f in mon.guarantee(self, ObjW(self.snap_acq, ref, mon.cls), ObjW(v, ref, mon.cls)):
                self.obligation(f"{lab} (at {why})", f, self.line, "monitor")
        self.held = [h for h in self.held if h[0] is not mon]
        for h in self.rel_hooks: h(mon, ref, self.snap_acq, v)
        self.snap_rel = v
    def wait_point(self, why):
        if self.wait_hook is not None: self.wait_hook(why)
        hs = list(self.held)
        self.note_write(("WAIT",), None)
        for mon, ref in hs: self.release(mon, ref, why)
        for mon, ref in hs: self.acquire(mon, ref, why)

    # ---------------- statements
    def stmt(self, s):
        if s is None: return
        k = s["k"]
        self.line = s.get("l", self.__dict__.get("line", 0))
        getattr(self, "s_" + k, self.s_unsupported)(s)
    def s_unsupported(self, s): raise Unsupported(f"statement {s.get('cls', s['k'])} line {s.get('l')}")
    def s_null(self, s): pass
    def s_block(self, s):
        self.scopes.append([])
        try:
            for x in s["b"]: self.stmt(x)
        except (ReturnEx, BreakEx, ContinueEx):
            self.leave_scope()
            raise
        except BaseException:
            self.scopes.pop(); raise
        else:
            self.leave_scope()
    def leave_scope(self):
        for d in reversed(self.scopes[-1]): d()
        self.scopes.pop()
    def s_expr(self, s):
        if self.M.expr_stmt(self, s["e"]): return
        v = self.eval(s["e"])
        if isinstance(v, StructVal) and s["e"].get("t") is not None:
            # a discarded temporary is destroyed at the end of the statement
            t = self.ty(s["e"]["t"])
            fn = self.dtor_of(t)
            if fn is not None:
                lv = TempLV(v, v.mt)
                self.inline(fn, PtrLV(lv), [])
    def s_decl(self, s):
        for d in s["d"]: self.var_decl(d)
    def var_decl(self, d):
        key = (self.unit_id, d["id"])
        t = self.ty(d["t"])
        if self.M.var_decl(self, d, t, key): return
        if d.get("bindings") is not None: return self.decompose(d, t, key)
        if t.k == "ref":
            v = self.eval(d["init"])
            self.env[key] = PyVal("refvar", lv=v if isinstance(v, LV) else TempLV(v, getattr(v, "mt", None)))
            return
        if d.get("static"):
            if d.get("init") is not None and t.d.get("const"):
                self.env[key] = self.ev(d["init"])
                return
            mt = self.mt(t)
            self.env[key] = Z(mt, z3.Const("S_" + d["name"], mt.sort())); return
        if d.get("init") is None:
            mt = self.mt(t)
            self.env[key] = self.fresh_val(mt, "uninit_" + d["name"]) if isinstance(mt, (MInt, MBool, MReal, MRef)) else self.default_of(mt)
        else:
            v = self.ev(d["init"])
            if isinstance(v, StructVal): v = v.copy()
            if isinstance(v, PyVal) and v.kind == "nullopt": v = self.default_of(self.mt(t))
            if isinstance(v, Z) and t.k in ("int", "float", "bool"): v = Z(self.mt(t), self.z(v, self.mt(t)))
            self.note_write(("L", key), None)
            self.env[key] = v
        self.register_dtor(t, key)
    def dtor_of(self, t):
        if t.k != "rec": return None
        r = self.prog.records.get(t.s)
        if r is None: return None
        for m in r["methods"]:
            if "::~" in m["fn"] and m["usr"] in self.prog.by_usr:
                fn = self.prog.by_usr[m["usr"]]
                if fn.get("body") is not None: return fn
        return None
    def register_dtor(self, t, key):
        if t.k != "rec": return
        r = self.prog.records.get(t.s)
        if r is None: return
        for m in r["methods"]:
            if "::~" in m["fn"] and m["usr"] in self.prog.by_usr:
                fn = self.prog.by_usr[m["usr"]]
                if fn.get("body") is not None and self.scopes:
                    def run(fn=fn, key=key, t=t):
                        lv = LocalLV(key, self.mt(t))
                        c = self.specs.lookup(fn["sname"], {"usr": fn["usr"], "np": 0}, self)
                        if c is not None:
                            v = self.env[key]
                            return self.apply_contract(c, fn["sname"], PtrLV(lv), [], fn["unit"].ty(fn["ret"]), {"l": self.line})
                        self.inline(fn, PtrLV(lv), [])
                    self.scopes[-1].append(run)
    def decompose(self, d, t, key):
        init = self.eval(d["init"])
        if t.k == "ref": lv = init if isinstance(init, LV) else TempLV(init, getattr(init, "mt", None))
        else:
            v = self.rv(init); lv = TempLV(v.copy() if isinstance(v, StructVal) else v, getattr(v, "mt", None))
        self.bind_decomposition(d, lv)
    def bind_decomposition(self, d, lv):
        ins = None
        if isinstance(lv, TempLV) and isinstance(lv.v, PyVal):
            ins = lv.v
            if ins.kind != "inserted": raise Unsupported("structured binding")
        for i, b in enumerate(d["bindings"]):
            mt = lv.mt
            if ins is not None:
                v = ins.it if i == 0 else Z(MBool(), ins.ok)
                self.env[(self.unit_id, b["id"])] = v
                if "hold" in b: self.env[(self.unit_id, b["hold"])] = v
                continue
            if isinstance(lv, PairLV): f = lv.member(self, ["first", "second"][i], None)
            elif isinstance(lv, ObjLV): 
                nm = mt.fields[i][0]; f = lv.member(self, nm, self.field_owner(lv.ty, nm))
            elif isinstance(mt, MRec): f = FieldLV(lv, mt.fields[i][0], self)
            else: raise Unsupported("structured binding")
            self.env[(self.unit_id, b["id"])] = PyVal("refvar", lv=f)
            if "hold" in b: self.env[(self.unit_id, b["hold"])] = PyVal("refvar", lv=f)
    def s_return(self, s):
        v = None
        if s["e"] is not None:
            rt = None
            v = self.eval(s["e"])
            if not (self.ret_is_ref()): 
                v = self.rv(v)
                if isinstance(v, StructVal): v = v.copy()
        raise ReturnEx(v)
    def ret_is_ref(self):
        return False if not self.callstack else self.prog.by_usr.get(self.callstack[-1], {}).get("ret") is not None and self.prog.by_usr[self.callstack[-1]]["unit"].ty(self.prog.by_usr[self.callstack[-1]]["ret"]).k == "ref"
    def s_break(self, s): raise BreakEx()
    def s_continue(self, s): raise ContinueEx()
    def s_if(self, s):
        self.scopes.append([])
        try:
            if s.get("init"): self.stmt(s["init"])
            if s.get("cv"): self.var_decl(s["cv"])
            c = self.truth(self.eval(s["c"]))
            if self.choose(c): self.stmt(s["t"])
            else: self.stmt(s["e"])
        except (ReturnEx, BreakEx, ContinueEx):
            self.leave_scope(); raise
        except BaseException:
            self.scopes.pop(); raise
        else: self.leave_scope()
    def s_switch(self, s):
        if s.get("init"): self.stmt(s["init"])
        v = self.evz(s["c"])
        body = s["b"]["b"]
        # flatten nested case labels
        entries = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(("default", None) if x["k"] == "default" else ("case", x["v"])); x = x["s"]
            entries.append((labels, x))
        start = None; dflt = None
        for i, (labels, x) in enumerate(entries):
            for kind, e in labels:
                if kind == "default": dflt = i; continue
                if start is None and self.choose(v == self.evz(e)): start = i
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for labels, x in entries[start:]: self.stmt(x)
        except BreakEx: pass

    # ---------------- loops
    def s_while(self, s):
        if s.get("cv") is not None:
            t = self.ty(s["cv"]["t"])
            if t.name.endswith("CheckOpString"):
                v = self.ev(s["cv"]["init"])
                if isinstance(v, PyVal) and v.kind == "check":
                    self.check_abort(v.cond, s.get("l", 0)); return
            h = find_call(s["cv"]["init"], "TfCheckOpHelper")
            if h is not None:       # TF_CHECK_OK
                self.check_abort(self.evz(h["args"][0]) == 0, s.get("l", 0)); return
            if find_call(s["cv"]["init"], "Check_EQImpl") is not None:
                v = self.ev(s["cv"]["init"])
                if isinstance(v, PyVal) and v.kind == "check":
                    self.check_abort(v.cond, s.get("l", 0)); return
            raise Unsupported(f"while with condition variable of {t.name}")
        self.loop(s, cond=lambda: self.truth(self.eval(s["c"])), body=s["b"], step=None)
    def check_abort(self, cond, line):
        if not self.cur_may_abort:
            self.obligation("check never fails (no abort)", cond, line, "safety")
        self.assume(cond)
    def s_do(self, s):
        # do { } while (false) from macros: run once
        c = s["c"]
        if c["k"] in ("int", "bool") and c["v"] in ("0", False) or (c["k"] == "cast" and c["e"]["k"] in ("int",) and c["e"]["v"] == "0"):
            try: self.stmt(s["b"])
            except (BreakEx, ContinueEx): pass
            return
        # general: body first, then a while loop
        first = {"v": True}
        def cond():
            if first["v"]: return z3.BoolVal(True)
            return self.truth(self.eval(s["c"]))
        self.loop(s, cond=cond, body=s["b"], step=None, dowhile=True)
    def s_for(self, s):
        i0 = s["i"]
        if i0 is not None and i0["k"] == "decl" and i0["d"][0]["name"].startswith("logging_internal"):
            if self.M.contains_log(s) == "fatal": raise Unsupported("fatal log-every-n")
            return
        self.scopes.append([])
        try:
            self.stmt(s["i"])
            self.loop(s, cond=(lambda: self.truth(self.eval(s["c"]))) if s["c"] is not None else (lambda: z3.BoolVal(True)),
                      body=s["b"], step=(lambda: self.eval(s["s"])) if s["s"] is not None else None)
        except (ReturnEx, BreakEx, ContinueEx):
            self.leave_scope(); raise
        except BaseException:
            self.scopes.pop(); raise
        else: self.leave_scope()
    def loop_id(self, s):
        return (tuple(self.callstack), id(s))
    def loop_spec(self, s):
        """invariant registered for this loop of the current function, by ordinal"""
        fnusr = self.callstack[-1] if self.callstack else None
        fn = self.prog.by_usr.get(fnusr)
        if fn is None: return None, -1
        if "loops" not in fn:
            ls = []
            def walk(x):
                if isinstance(x, dict):
                    if x.get("k") in ("while", "for", "rfor", "do") and not is_macro_loop(x): ls.append(id(x))
                    for v in x.values(): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(fn["body"]); walk(fn.get("inits") or [])
            fn["loops"] = ls
        o = fn["loops"].index(id(s)) if id(s) in fn["loops"] else -1
        c = self.specs.by_fn_usr(fn, self)
        inv = None
        if c is not None: inv = c.loops.get(o)
        if inv is None: inv = self.specs.loop_invs.get((fn["sname"], o))
        return inv, o
    def havoc_mods(self, mods, n0):
        for root, refs in mods.items():
            if root[0] == "WAIT":
                continue
            if root[0] == "L":
                key = root[1]
                if key not in self.env: continue      # declared inside the loop
                v = self.env[key]
                if len(root) == 3 and isinstance(v, StructVal):
                    v = v.copy(); v.f[root[2]] = self.havoc_value(v.f[root[2]], key)
                    self.env[key] = v
                else: self.env[key] = self.havoc_value(v, key)
            else:
                fk = root[1]; mt = self.hmt.get(fk)
                if mt is None: 
                    own, f = fk.rsplit(".", 1)
                    mt = self.field_mt(own, f)
                if refs and all(not uses_fresh_since(r, n0) for r in refs):
                    a = self.harr(fk, mt)
                    for r in sorted(refs, key=lambda x: x.sexpr()):
                        a = z3.Store(a, r, self.fresh(mt.sort(), "lh_" + fk))
                    self.heap[fk] = a
                else:
                    self.hmt[fk] = mt
                    self.heap[fk] = self.fresh(z3.ArraySort(z3.IntSort(), mt.sort()), "H_" + fk)
    def havoc_value(self, v, key):
        if isinstance(v, Z): return self.typed(Z(v.mt, self.fresh(v.mt.sort(), "loc")))
        if isinstance(v, StructVal):
            if v.f and all(isinstance(x, (Z, StructVal)) for x in v.f.values()): return StructVal(v.mt, {k: self.havoc_value(x, key) for k, x in v.f.items()})
            return self.fresh_val(v.mt, "loc")
        if isinstance(v, PtrLV): return self.havoc_ptr(v)
        if isinstance(v, PyVal) and v.kind == "refvar":
            return v
        if isinstance(v, PyVal): return self.M.havoc_iter(self, v)
        raise Unsupported(f"loop modifies a {type(v).__name__}")
    def same_places(self, L):
        for key, v0 in L.prev_env.items():
            if isinstance(v0, PtrLV) and isinstance(self.env.get(key), PtrLV) and place_shape(v0.lv) != place_shape(self.env[key].lv): raise Unsupported("a pointer refers to different places in a loop")
    def havoc_ptr(self, p):
        lv = p.lv
        def anew(x):
            """the same kind of place, at any positions"""
            if isinstance(x, IndexLV): return IndexLV(anew(x.base), self.fresh(z3.IntSort(), "pidx"))
            if isinstance(x, FieldLV): y = FieldLV(anew(x.base), x.f, self); return y
            return x
        if isinstance(lv, IndexLV): return PtrLV(anew(lv))
        raise Unsupported("loop modifies a pointer")
    def loop(self, s, cond, body, step, dowhile=False):
        inv, ordinal = self.loop_spec(s)
        # unrolled concretely when the condition is decided (e.g. literal bounds)
        if inv is None and not dowhile and s["k"] == "for":
            for it in range(9):
                save = (dict(self.env), dict(self.heap), len(self.pc), self.ndec)
                c = z3.simplify(cond())
                if z3.is_false(c): return
                if not z3.is_true(c) or it == 8: break
                if s["k"] == "while" or it == 8: break
                try: self.stmt(body)
                except BreakEx: return
                except ContinueEx: pass
                if step: step()
            else: pass
        lid = self.loop_id(s)
        mods = self.loopmods.setdefault(lid, {})
        if inv is None: 
            self.tainted.append(f"loop at line {s.get('l')} without invariant")
            inv = lambda L: []
        entry = self.view()
        entry_env = dict(self.env)
        L = LoopCtx(self, s, entry, entry_env)
        if not dowhile:
            for lab, f in inv(L): self.obligation(f"{lab} (loop invariant on entry, loop {ordinal})", f, s.get("l", 0), "loop")
            n0 = self.fresh_n
            self.havoc_mods(mods, n0)
            if ("WAIT",) in mods and self.snap_acq is not None: self.snap_acq = self.view()
            for lab, f in inv(L): self.assume(f)
        else:
            n0 = self.fresh_n
            if self.choose_free("first_iteration"):
                first = True
            else:
                self.havoc_mods(mods, n0)
                if ("WAIT",) in mods and self.snap_acq is not None: self.snap_acq = self.view()
                for lab, f in inv(L): self.assume(f)
                # state after some iteration, about to test the condition
                c = self.truth(self.eval(s["c"]))
                if not self.choose(c): return
        if dowhile or self.choose(cond()):
            rec = {"mods": mods, "changed": False, "seenroots": set(), "n0": n0, "L": L}
            self.loopstack.append(rec)
            L.prev = self.view(); L.prev_env = dict(self.env)
            try:
                try:
                    self.stmt(body)
                except ContinueEx: pass
                except BreakEx:
                    self.loopstack.remove(rec)
                    if rec["changed"]: raise Restart()
                    return
                if step: step()
                self.same_places(L)
                if getattr(inv, "step", None):
                    for lab, f in inv.step(L): self.obligation(f"{lab} (every iteration of loop {ordinal})", f, s.get("l", 0), "loop")
                for lab, f in inv(L): self.obligation(f"{lab} (loop invariant preserved, loop {ordinal})", f, s.get("l", 0), "loop")
            finally:
                if rec in self.loopstack: self.loopstack.remove(rec)
                if rec["changed"]: raise Restart()
            if dowhile:
                c = self.truth(self.eval(s["c"]))
                if self.choose(c): raise PathEnd()
                return
            raise PathEnd()
        return
    def s_rfor(self, s):
        r = self.eval(s["r"])
        lv = r if isinstance(r, LV) else TempLV(r, getattr(r, "mt", None))
        if isinstance(lv.mt, MSeq): return self.rfor_seq(s, lv)
        if isinstance(lv.mt, (MMap, MSet)): return self.rfor_map(s, lv)
        if isinstance(lv.mt, MList): raise Unsupported("range-for over list")
        raise Unsupported(f"range-for over {lv.mt}")
    def bind_loop_var(self, s, elem_lv):
        d = s["v"]; t = self.ty(d["t"]); key = (self.unit_id, d["id"])
        if d.get("bindings") is not None:
            if t.k != "ref":
                v = elem_lv.read(self)
                elem_lv = TempLV(v, elem_lv.mt)
            return self.bind_decomposition(d, elem_lv)
        if t.k == "ref": self.env[key] = PyVal("refvar", lv=elem_lv)
        else:
            v = elem_lv.read(self)
            if isinstance(v, StructVal): v = v.copy()
            if isinstance(v, Z) and t.k in ("int", "float", "bool"): v = Z(self.mt(t), self.z(v, self.mt(t)))
            self.env[key] = v
    def rfor_seq(self, s, lv):
        inv, ordinal = self.loop_spec(s)
        mt = lv.mt
        seq = self.z(lv.read(self), mt)
        n = z3.simplify(mt.len(seq))
        self.assume_once(n >= 0)
        if inv is None and z3.is_int_value(n) and n.as_long() <= 8:
            for i in range(n.as_long()):
                self.bind_loop_var(s, IndexLV(lv, z3.IntVal(i)))
                try: self.stmt(s["b"])
                except ContinueEx: pass
                except BreakEx: return
            return
        if inv is None and self.M.pure_loop(self, s):
            pass
        lid = self.loop_id(s); mods = self.loopmods.setdefault(lid, {})
        if inv is None:
            self.tainted.append(f"loop at line {s.get('l')} without invariant"); inv = lambda L: []
        L = LoopCtx(self, s, self.view(), dict(self.env)); L.seq = wrap(L.entry, mt, seq); L.n = n
        L.i = z3.IntVal(0)
        for lab, f in inv(L): self.obligation(f"{lab} (loop invariant on entry, loop {ordinal})", f, s.get("l", 0), "loop")
        n0 = self.fresh_n
        self.havoc_mods(mods, n0)
        if ("WAIT",) in mods and self.snap_acq is not None: self.snap_acq = self.view()
        L.i = self.fresh(z3.IntSort(), "it")
        self.assume(z3.And(L.i >= 0, L.i <= n))
        for lab, f in inv(L): self.assume(f)
        if self.choose(L.i < n):
            rec = {"mods": mods, "changed": False, "seenroots": set(), "n0": n0, "L": L}
            self.loopstack.append(rec)
            L.prev = self.view(); L.prev_env = dict(self.env); L.step_i = L.i
            try:
                self.bind_loop_var(s, IndexLV(lv, L.i))
                L.elem = IndexLV(lv, L.i)
                try: self.stmt(s["b"])
                except ContinueEx: pass
                except BreakEx:
                    self.loopstack.remove(rec)
                    if rec["changed"]: raise Restart()
                    return
                self.same_places(L)
                if getattr(inv, "step", None):
                    for lab, f in inv.step(L): self.obligation(f"{lab} (every iteration of loop {ordinal})", f, s.get("l", 0), "loop")
                L.i = L.i + 1
                for lab, f in inv(L): self.obligation(f"{lab} (loop invariant preserved, loop {ordinal})", f, s.get("l", 0), "loop")
                now_len = mt.len(self.z(lv.read(self), mt))
                self.obligation("container not resized during iteration", now_len == n, s.get("l", 0), "safety")
            finally:
                if rec in self.loopstack: self.loopstack.remove(rec)
                if rec["changed"]: raise Restart()
            raise PathEnd()
        L.i = n
        self.assume(True)
        return
    def rfor_map(self, s, lv):
        inv, ordinal = self.loop_spec(s)
        mt = lv.mt
        m = self.z(lv.read(self), mt)
        dom = z3.simplify(mt.dom(m)) if isinstance(mt, MMap) else m
        kmt = mt.k
        lid = self.loop_id(s); mods = self.loopmods.setdefault(lid, {})
        if inv is None:
            self.tainted.append(f"loop at line {s.get('l')} without invariant"); inv = lambda L: []
        L = LoopCtx(self, s, self.view(), dict(self.env)); L.map = wrap(L.entry, mt, m); L.dom = dom
        empty = z3.K(kmt.sort(), z3.BoolVal(False))
        L.visited = empty; self.M.card_facts(self, empty)
        for lab, f in inv(L): self.obligation(f"{lab} (loop invariant on entry, loop {ordinal})", f, s.get("l", 0), "loop")
        n0 = self.fresh_n
        self.havoc_mods(mods, n0)
        L.visited = self.fresh(z3.ArraySort(kmt.sort(), z3.BoolSort()), "visited")
        k = z3.Const("kv", kmt.sort())
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(L.visited, k), z3.Select(dom, k))))
        for lab, f in inv(L): self.assume(f)
        if self.choose_free("more"):
            rec = {"mods": mods, "changed": False, "seenroots": set(), "n0": n0, "L": L}
            self.loopstack.append(rec)
            L.prev = self.view(); L.prev_env = dict(self.env)
            try:
                key = self.fresh(kmt.sort(), "key")
                self.typed(Z(kmt, key))
                self.assume(z3.And(z3.Select(dom, key), z3.Not(z3.Select(L.visited, key))))
                self.M.card_member(self, dom, key)
                L.key = key
                el = PairLV(lv, key) if isinstance(mt, MMap) else TempLV(Z(kmt, key), kmt)
                self.bind_loop_var(s, el)
                try: self.stmt(s["b"])
                except ContinueEx: pass
                except BreakEx:
                    self.loopstack.remove(rec)
                    if rec["changed"]: raise Restart()
                    return
                nv = z3.Store(L.visited, key, z3.BoolVal(True))
                self.M.card_insert(self, L.visited, key)
                L.visited = nv
                for lab, f in inv(L): self.obligation(f"{lab} (loop invariant preserved, loop {ordinal})", f, s.get("l", 0), "loop")
            finally:
                if rec in self.loopstack: self.loopstack.remove(rec)
                if rec["changed"]: raise Restart()
            raise PathEnd()
        self.assume(L.visited == dom)
        return

    # ---------------- driver
    def explore(self, name, run, max_paths=MAX_PATHS):
        """Enumerates all paths of `run()`; returns the obligations."""
        self.cur_name = name
        restarts = 0
        while True:
            self.obs = []; self.seen_ob = set(); self.pending = [[]]
            self.npaths = 0; self.nreturns = 0
            self.reach = []
            try:
                while self.pending:
                    sc = self.pending.pop()
                    self.npaths += 1
                    if self.npaths > max_paths: raise Unsupported("too many paths")
                    pend = self.pending
                    self.reset_path(list(sc)); self.pending = pend
                    nax = len(self.specs.axioms)
                    try: run()
                    except PathEnd: pass
                    if len(self.specs.axioms) != nax: raise Restart()      # definitions were introduced on this path: all paths see them
                break
            except Restart:
                restarts += 1
                if restarts > 60: raise Unsupported("loop modification set does not stabilise")
        return self.obs

ANYREF = z3.Int("any!999999999")
class LoopCtx:
    def __init__(self, ex, s, entry, env):
        self.ex, self.s, self.entry, self.entry_env = ex, s, entry, env; self.elem = None
        self.outer = ex.loopstack[-1].get("L") if ex.loopstack else None
    def __getattr__(self, f):
        if f == "i": return self.counter()          # an index loop in place of a range-based one
        raise AttributeError(f)
    @property
    def cur(self): return self.ex.view()
    @property
    def this(self): return ObjW(self.ex.view(), self.ex.this_ref(self.ex.this), short(self.ex.this.mt.to_ty.s) if isinstance(self.ex.this, Z) else None)
    @property
    def this0(self): return ObjW(self.ex.fn_pre, self.ex.this_ref(self.ex.this), short(self.ex.this.mt.to_ty.s))
    @property
    def thisentry(self): return ObjW(self.entry, self.ex.this_ref(self.ex.this), short(self.ex.this.mt.to_ty.s))
    @property
    def fctx(self):
        """the function's own specification context, post state = current state"""
        c = self.ex.fn_ctx
        return Ctx(self.ex, c.cls, c.thisref, self.ex.fn_args, self.ex.fn_pre, self.ex.view())
    def _find(self, name):
        fn = self.ex.prog.by_usr[self.ex.callstack[-1]]
        c = fn.setdefault("_names", {})
        if not c:
            def walk(x):
                if isinstance(x, dict):
                    if "id" in x and "name" in x and ("t" in x) and x.get("k") is None: c.setdefault(x["name"], []).append(x["id"])
                    for k2, v in x.items():
                        if k2 != "unit" and not k2.startswith("_"): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(fn["params"]); walk(fn["body"])
        if name not in c: raise Unsupported(f"loop invariant refers to local '{name}' which does not exist")
        ks = [(self.ex.unit_id, i) for i in c[name]]
        return next((x for x in ks if self.ex.env.get(x) is not None), ks[0])
    def raw(self, name):
        key = self._find(name)
        v = self.ex.env.get(key)
        if v is None: raise Unsupported(f"local '{name}' not in scope")
        if isinstance(v, PyVal) and v.kind == "refvar": v = v.lv
        return v
    def counter(self):
        """the variable a for statement declares"""
        if "i" in self.__dict__: return self.i
        d = self.s.get("init") or self.s.get("i")
        ids = []
        def walk(x):
            if isinstance(x, dict):
                if "id" in x and "name" in x and "t" in x and x.get("k") is None: ids.append(x["id"])
                for k2, v in x.items():
                    if k2 != "unit" and not k2.startswith("_"): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(d)
        if len(ids) != 1: raise Unsupported("loop invariant refers to the loop's own counter")
        v = self.ex.env.get((self.ex.unit_id, ids[0]))
        if v is None: raise Unsupported("loop counter not in scope")
        if isinstance(v, LV): v = v.read(self.ex) if not isinstance(v, PyVal) else v
        if isinstance(v, PyVal) and v.kind == "seqiter": return v.idx
        if isinstance(v, PyVal) and v.kind == "mapiter": return v
        return self.ex.spec_value(v, self.ex.view(), post=True)
    def local(self, name):
        return self.ex.spec_value(self.raw(name), self.ex.view(), post=True)
    def local0(self, name):
        """value on loop entry"""
        v = self.entry_env.get(self._find(name))
        if v is None: raise Unsupported(f"local '{name}' not in scope at loop entry")
        if isinstance(v, PyVal) and v.kind == "refvar":
            v = v.lv
            if isinstance(v, ObjLV): return self.ex.spec_value(v, self.entry)
            raise Unsupported("entry value of reference")
        return self.ex.spec_value(v, self.entry)

def find_call(x, name):
    if isinstance(x, dict):
        if str(x.get("fn", "")).split("::")[-1] == name and "args" in x: return x
        for k, v in x.items():
            if k == "unit": continue
            r = find_call(v, name)
            if r is not None: return r
    elif isinstance(x, list):
        for v in x:
            r = find_call(v, name)
            if r is not None: return r
    return None
def is_macro_loop(x):
    if x["k"] == "while" and x.get("cv") is not None and find_call(x["cv"].get("init"), "TfCheckOpHelper") is not None: return True
    if x["k"] == "do":
        c = x["c"]
        return (c["k"] in ("int", "bool") and c["v"] in ("0", False)) or (c["k"] == "cast" and c["e"]["k"] == "int" and c["e"]["v"] == "0")
    if x["k"] == "while": return x.get("cv") is not None
    return False

def uses_fresh_since(e, n0):
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if "!" in nm:
                try:
                    if int(nm.rsplit("!", 1)[1]) > n0: return True
                except ValueError: pass
        stack.extend(x.children())
    return False
