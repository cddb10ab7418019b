"""Contract registry (the specification language)."""
import z3, re
from .mtypes import *
from .ast import strip_targs
NS = "deepmind::reverb::"

def short(n): return n.replace(NS, "").replace("(anonymous namespace)::", "")

class Contract:
    def __init__(self, name, cls=None, requires=None, ensures=None, modifies=None, loops=None, nparams=None, sig=None,
                 release_lock=False, on_call=None, inv=None, inv_pre=None, inv_post=None, trusted=None, may_abort=False, abstract=False,
                 setup=None, opts=None, static=False, nonnull=(), alias=None, checks=None, bounded=None, usr=None, tag=None, make=False):
        self.name, self.cls = name, cls
        self._req, self._ens, self._mod = requires, ensures, modifies
        self.loops = loops or {}
        self.nparams, self.sig = nparams, sig
        self.release_lock, self.on_call = release_lock, on_call
        self.inv_pre = inv if inv_pre is None else inv_pre
        self.inv_post = inv if inv_post is None else inv_post
        self.trusted, self.may_abort, self.abstract = trusted, may_abort, abstract
        self.setup, self.opts, self.static, self.nonnull = setup, opts or {}, static, nonnull
        self.checks = checks     # extra obligations of the implementation, not assumed by callers
        self.tag, self.make = tag, make      # make: the contract std::make_unique/shared use
        self.usr = usr           # regular expression on the function's USR (tells template instances apart)
        self.reg = None
    def requires(self, c):
        out = []
        if self.inv_pre and c.thisref is not None:
            for i in self.reg.invs_of(self.cls): out += list(i(c.pre))
        if self._req: out += list(self._req(c))
        return out
    def ensures(self, c):
        out = []
        if self.inv_post and c.thisref is not None:
            for i in self.reg.invs_of(self.cls): out += list(i(c.post))
        if self._ens: out += list(self._ens(c))
        return out
    def modifies(self, c):
        m = self._mod
        if m is None: return []
        return m(c) if callable(m) else m

class Monitor:
    """Data guarded by a mutex: may only be assumed to satisfy inv when the
    lock is acquired; inv must be re-established before it is released."""
    def __init__(self, mutex, cls, fields, inv=None, guarantee=None, rely=None, multi=()):
        self.mutex, self.cls, self.fields = mutex, cls, fields
        self._inv, self.guarantee, self.rely, self._multi = inv, guarantee, rely, set(multi)
    def inv(self, ex, o): return self._inv(o) if self._inv else []
    def multi(self, fk): return fk in self._multi

class Specs:
    def __init__(self):
        self.contracts = {}       # short name -> [Contract]
        self.ghost, self.field_override, self.field_hooks = {}, {}, {}
        self.assume_nonnull = False
        self.assumptions = set()
        self.loop_invs = {}
        self.invs, self.monitors = {}, {}
        self.call_models, self.ctor_models, self.opaque_models = {}, {}, {}
        self.globals = {}          # values of constants defined in libraries
        self.opaque_call = None
        self.weak_alive_fn = None
        self.type_models = {}
        self.inherits = {}
        self.inline_only = set()
        self.axioms = []          # definitions of specification functions (conservative)
    # ---- registration
    def contract(self, name, **kw):
        cls = kw.pop("cls", None)
        if cls is None and not kw.get("static"):
            cls = name.rsplit("::", 1)[0] if "::" in name else None
        c = Contract(name, cls=cls, **kw)
        c.reg = self
        self.contracts.setdefault(name, []).append(c)
        return c
    def invariant(self, cls, f): self.invs.setdefault(cls, []).append(f)
    def invs_of(self, cls): return self.invs.get(cls, [])
    def monitor(self, m): self.monitors[m.mutex] = m
    # ---- lookup
    def _match(self, name, np, sig, usr=None):
        for c in self.contracts.get(name, []):
            if c.nparams is not None and np is not None and c.nparams != np: continue
            if c.usr is not None and (usr is None or not re.search(c.usr, usr)): continue
            if c.sig is not None and (sig is None or c.sig not in sig): continue
            return c
        return None
    def lookup(self, name, n, ex):
        name = short(strip_targs(name))
        if name not in self.contracts: return None
        sig = None
        f = ex.prog.by_usr.get(n.get("usr"))
        if f is not None: sig = f["sig"]
        c = self._match(name, n.get("np"), sig, n.get("usr"))
        return c
    def by_fn_usr(self, fn, ex):
        return self._match(short(fn["sname"]), len(fn["params"]), fn["sig"], fn["usr"])
    def fits(self, c, f):
        return (c.nparams is None or len(f["params"]) == c.nparams) and (c.sig is None or c.sig in f["sig"]) and (c.usr is None or re.search(c.usr, f["usr"])) and f.get("body") is not None
    def ctor_contract(self, ty, n, ex):
        s = short(strip_targs(ty.s)); nm = s + "::" + s.split("::")[-1]
        for c in self.contracts.get(nm, []):
            if c.make and c.nparams == n: return c
        return self._match(nm, n, None)
    # ---- hooks
    def weak_alive(self, ex, ref):
        """A weak reference is either dead (any time) or refers to its object."""
        if self.weak_alive_fn: return self.weak_alive_fn(ex, ref)
        b = ex.fresh(z3.BoolSort(), "alive")
        return z3.And(ref != 0, b)
    def opaque_method(self, ex, lv, full, name, n):
        h = self.opaque_models.get(full)
        if h is not None: return h(ex, lv, n)
        raise Unsupported(f"method {full} of an opaque object (line {n.get('l')})")
