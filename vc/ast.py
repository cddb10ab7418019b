"""Loads the JSON produced by the clang extractor and gives typed access."""
import json, re

def strip_targs(s):
    """Drop balanced <...> template argument lists from a qualified name."""
    out, depth, i = [], 0, 0
    while i < len(s):
        # keep operator<, operator<=, operator<<, operator->, operator> etc.
        if depth == 0 and s.startswith("operator", i):
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", s[i:])
            if m:
                out.append(m.group(0)); i += len(m.group(0)); continue
        ch = s[i]
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif depth == 0: out.append(ch)
        i += 1
    return "".join(out)

class Ty:
    __slots__ = ("unit", "i", "d")
    def __init__(self, unit, i, d): self.unit, self.i, self.d = unit, i, d
    @property
    def k(self): return self.d["k"]
    @property
    def s(self): return self.d["s"]
    @property
    def to(self): return self.unit.ty(self.d["to"])
    @property
    def name(self): return strip_targs(self.d.get("name", ""))
    @property
    def args(self):
        r = []
        for a in self.d.get("args", []):
            if isinstance(a, int) and not isinstance(a, bool): r.append(self.unit.ty(a))
            elif isinstance(a, list): r.extend(self.unit.ty(x) if isinstance(x, int) else x for x in a)
            else: r.append(a)
        return r
    def strip(self):
        t = self
        while t.k == "ref": t = t.to
        return t
    def __repr__(self): return f"Ty({self.s})"

class Unit:
    """One extracted translation unit."""
    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = [Ty(self, i, d) for i, d in enumerate(self.d["types"])]
        self.functions = {}
        for f in self.d["functions"]:
            f["unit"] = self
            self.functions[f["usr"]] = f
        self.records = {}
        for r in self.d["records"]:
            r["unit"] = self
            self.records[self.ty(r["type"]).s] = r
    def ty(self, i):
        if i is None or i < 0: return None
        return self.types[i]

class Program:
    """Several translation units; functions found by USR or by name."""
    def __init__(self, paths):
        self.units = [Unit(p) for p in paths]
        self.by_usr, self.by_name, self.records = {}, {}, {}
        for u in self.units:
            for usr, f in u.functions.items():
                if usr in self.by_usr: continue
                self.by_usr[usr] = f
                f["sname"] = strip_targs(f["name"])
                self.by_name.setdefault(f["sname"], []).append(f)
            for n, r in u.records.items():
                self.records.setdefault(n, r)
    def find(self, name, nparams=None, sig=None):
        c = self.by_name.get(name, [])
        if nparams is not None: c = [f for f in c if len(f["params"]) == nparams]
        if sig is not None: c = [f for f in c if sig in f["sig"]]
        return c
