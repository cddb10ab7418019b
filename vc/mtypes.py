"""Model types: the mathematical sort used for each C++ type."""
import z3

class Unsupported(Exception):
    """The verifier cannot interpret a construct: the function is undecided."""

_cache = {}
def _dt(name, fields):
    """Datatype with one constructor; fields = [(name, sort)]."""
    if name in _cache: return _cache[name]
    d = z3.Datatype(name)
    d.declare("mk_" + name, *[(f"{name}_{n}", s) for n, s in fields])
    s = d.create()
    _cache[name] = s
    return s

class MT:
    name = "?"
    def sort(self): raise NotImplementedError
    def __eq__(self, o): return isinstance(o, MT) and self.name == o.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return self.name
    def default(self, ex):
        return z3.FreshConst(self.sort(), "dflt")

class MInt(MT):
    def __init__(self, bits, signed): self.bits, self.signed = bits, signed; self.name = ("i" if signed else "u") + str(bits)
    def sort(self): return z3.IntSort()
    def rng(self):
        return (-(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1) if self.signed else (0, (1 << self.bits) - 1)
class MBool(MT):
    name = "bool"
    def sort(self): return z3.BoolSort()
class MReal(MT):
    name = "real"
    def sort(self): return z3.RealSort()
class MVoid(MT):
    name = "void"
    def sort(self): return z3.BoolSort()
class MRef(MT):
    """Pointer / shared_ptr / unique_ptr / weak_ptr to an object: an address (0 = null)."""
    def __init__(self, kind, to): self.kind, self.to_ty = kind, to; self.name = f"{kind}<{to.s if to is not None and hasattr(to,'s') else to}>"
    def sort(self): return z3.IntSort()
class MStatus(MT):
    name = "Status"
    def sort(self): return z3.IntSort()
class MTime(MT):
    name = "Time"
    def sort(self): return z3.IntSort()
class MCondVar(MT):
    """ghost: 0 nothing, 1 one waiter woken, 2 all waiters woken since function entry"""
    name = "CondVar"
    def sort(self): return z3.IntSort()
class MMutex(MT):
    name = "Mutex"
    def sort(self): return z3.IntSort()
class MStr(MT):
    name = "Str"
    def sort(self):
        if "Str" not in _cache: _cache["Str"] = z3.DeclareSort("Str")
        return _cache["Str"]
class MOpaque(MT):
    def __init__(self, n):
        self.name = "Op_" + "".join(c if c.isalnum() else "_" for c in n)[:60] + f"_{abs(hash(n)) % 99991 if False else (sum(ord(c)*(i+1) for i,c in enumerate(n)) % 99991)}"
    def sort(self):
        if self.name not in _cache: _cache[self.name] = z3.DeclareSort(self.name)
        return _cache[self.name]
class MSeq(MT):
    def __init__(self, el, fixed=None): self.el = el; self.name = f"Seq[{el.name}]"
    def sort(self): return _dt("Seq_" + san(self.el.name), [("len", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), self.el.sort()))])
    def len(self, e): return self.sort().accessor(0, 0)(e)
    def arr(self, e): return self.sort().accessor(0, 1)(e)
    def mk(self, n, a): return self.sort().constructor(0)(n, a)
    def at(self, e, i): return z3.Select(self.arr(e), i)
    def empty(self): return self.mk(z3.IntVal(0), z3.K(z3.IntSort(), z3.Const("undef_" + san(self.el.name), self.el.sort())))
class MMap(MT):
    def __init__(self, k, v): self.k, self.v = k, v; self.name = f"Map[{k.name},{v.name}]"
    def sort(self): return _dt("Map_" + san(self.k.name) + "__" + san(self.v.name), [("dom", z3.ArraySort(self.k.sort(), z3.BoolSort())), ("val", z3.ArraySort(self.k.sort(), self.v.sort()))])
    def dom(self, e): return self.sort().accessor(0, 0)(e)
    def val(self, e): return self.sort().accessor(0, 1)(e)
    def mk(self, d, v): return self.sort().constructor(0)(d, v)
    def empty(self): return self.mk(z3.K(self.k.sort(), z3.BoolVal(False)), z3.K(self.k.sort(), z3.Const("undef_" + san(self.v.name), self.v.sort())))
class MSet(MT):
    def __init__(self, k): self.k = k; self.name = f"Set[{k.name}]"
    def sort(self): return z3.ArraySort(self.k.sort(), z3.BoolSort())
    def empty(self): return z3.K(self.k.sort(), z3.BoolVal(False))
class MList(MT):
    """std::list: nodes with a position; iterators are node ids."""
    def __init__(self, el): self.el = el; self.name = f"List[{el.name}]"
    def sort(self): return _dt("List_" + san(self.el.name), [
        ("mem", z3.ArraySort(z3.IntSort(), z3.BoolSort())), ("val", z3.ArraySort(z3.IntSort(), self.el.sort())),
        ("pos", z3.ArraySort(z3.IntSort(), z3.IntSort())), ("lo", z3.IntSort()), ("hi", z3.IntSort()), ("nxt", z3.IntSort())])
    F = ["mem", "val", "pos", "lo", "hi", "nxt"]
    def get(self, e, f): return self.sort().accessor(0, self.F.index(f))(e)
    def mk(self, **kw): return self.sort().constructor(0)(*[kw[f] for f in self.F])
    def upd(self, e, **kw): return self.mk(**{f: kw.get(f, self.get(e, f)) for f in self.F})
    def empty(self): return self.mk(mem=z3.K(z3.IntSort(), z3.BoolVal(False)), val=z3.K(z3.IntSort(), z3.Const("undef_" + san(self.el.name), self.el.sort())),
                                    pos=z3.K(z3.IntSort(), z3.IntVal(0)), lo=z3.IntVal(0), hi=z3.IntVal(0), nxt=z3.IntVal(1))
class MListIter(MT):
    name = "ListIter"
    def sort(self): return z3.IntSort()
class MRec(MT):
    """Record with named fields (struct, pair, tuple, optional, protobuf message)."""
    def __init__(self, name, fields, proto=None): self.name = name; self.fields = fields; self.proto = proto
    def sort(self): return _dt("Rec_" + san(self.name), [(n, t.sort()) for n, t in self.fields] or [("unit", z3.BoolSort())])
    def idx(self, f):
        for i, (n, _) in enumerate(self.fields):
            if n == f: return i
        raise Unsupported(f"no field {f} in {self.name}")
    def has(self, f): return any(n == f for n, _ in self.fields)
    def ft(self, f): return self.fields[self.idx(f)][1]
    def get(self, e, f): return self.sort().accessor(0, self.idx(f))(e)
    def mk(self, *a): return self.sort().constructor(0)(*(a or [z3.BoolVal(True)]))
    def upd(self, e, f, v):
        return self.mk(*[v if n == f else self.sort().accessor(0, i)(e) for i, (n, _) in enumerate(self.fields)])

def san(n):
    r = []
    for c in n:
        r.append(c if c.isalnum() else {"[": "_", "]": "", ",": "_", ":": "", "<": "_", ">": "", " ": "", "*": "P"}.get(c, "_"))
    s = "".join(r)
    if len(s) > 90:
        import hashlib
        s = s[:60] + hashlib.md5(n.encode()).hexdigest()[:8]
    return s

def reset():
    _cache.clear()

# cardinality of finite sets, one uninterpreted function per key sort
_card = {}
def card(dom):
    ks = dom.sort().domain()
    key = ks.name()
    if key not in _card:
        _card[key] = z3.Function("card_" + key, z3.ArraySort(ks, z3.BoolSort()), z3.IntSort())
    return _card[key](dom)
