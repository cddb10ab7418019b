"""Parses the .proto files of the repository into message descriptions."""
import re
SCALAR = {"double": "double", "float": "float", "int32": "i32", "int64": "i64", "uint32": "u32", "uint64": "u64",
          "sint32": "i32", "sint64": "i64", "fixed64": "u64", "fixed32": "u32", "bool": "bool", "string": "str", "bytes": "str"}

def parse_files(paths):
    msgs = {}
    for p in paths:
        src = open(p).read()
        src = re.sub(r"//[^\n]*", "", src)
        src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
        toks = re.findall(r"\"[^\"]*\"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]().-]", src)
        _parse(toks, 0, [], msgs, set())
    return msgs

def _skip_to(toks, i, ch):
    while toks[i] != ch: i += 1
    return i

def _skip_block(toks, i):
    depth = 0
    while True:
        if toks[i] == "{": depth += 1
        if toks[i] == "}":
            depth -= 1
            if depth == 0: return i + 1
        i += 1

def _parse(toks, i, scope, msgs, enums):
    while i < len(toks):
        t = toks[i]
        if t == "message":
            name = toks[i + 1]
            i = _message(toks, i + 3, scope + [name], msgs)
        elif t in ("enum", "service"):
            i = _skip_block(toks, i)
        elif t == ";" or t == "}":
            i += 1
        else:
            i = _skip_to(toks, i, ";") + 1
    return i

def _message(toks, i, scope, msgs):
    m = {"fields": [], "oneofs": {}, "nested": [], "enums": []}
    full = "_".join(scope)
    msgs[full] = m
    oneof = None
    while True:
        t = toks[i]
        if t == "}":
            if oneof: oneof = None; i += 1; continue
            return i + 1
        if t == "message":
            m["nested"].append(toks[i + 1])
            i = _message(toks, i + 3, scope + [toks[i + 1]], msgs); continue
        if t == "enum":
            m["enums"].append(toks[i + 1])
            i = _skip_block(toks, i); continue
        if t == "oneof":
            oneof = toks[i + 1]; m["oneofs"][oneof] = []; i += 3; continue
        if t in ("option", "reserved", "extensions"):
            i = _skip_to(toks, i, ";") + 1; continue
        if t == ";": i += 1; continue
        rep = opt = False
        if t == "repeated": rep = True; i += 1
        elif t == "optional": opt = True; i += 1
        if toks[i] == "map":
            k, v = toks[i + 2], toks[i + 4]
            typ = ("map", k, v); i += 6
        else:
            typ = toks[i]; i += 1
        name = toks[i]
        num = toks[i + 2]
        i = _skip_to(toks, i, ";") + 1
        f = {"name": name, "type": typ, "rep": rep, "opt": opt, "num": int(num), "oneof": oneof}
        m["fields"].append(f)
        if oneof: m["oneofs"][oneof].append(name)
