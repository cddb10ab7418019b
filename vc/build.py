"""Builds, from /repo's current working tree, everything a check needs.

All products live under /verif/build and are cached by the content of what
they are made from (never by time stamps), so a check started in an empty
build directory simply builds more.
"""
import os, sys, hashlib, subprocess, glob, fcntl, concurrent.futures as cf, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, "build")
GEN = os.path.join(B, "gen")
DEPS = "/opt/reverb-deps"
INC = ["-I" + REPO, "-I" + GEN, f"-I{DEPS}/overlay", f"-I{DEPS}/tf/include", f"-I{DEPS}/tf/include/external/snappy"]
CXX = ["-std=gnu++17", "-mavx", "-w", "-DNDEBUG", "-DEIGEN_MAX_ALIGN_BYTES=64"]
RES = ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
LIBS = """gmock gtest tensorflow_framework grpc++ grpc gpr absl_random_lts absl_random_seed_sequences
  absl_random_internal_pool_urbg absl_random_internal_randen absl_random_internal_randen_hwaes
  absl_random_internal_randen_hwaes_impl absl_random_internal_randen_slow
  absl_random_internal_seed_material absl_random_seed_gen_exception pthread dl rt m""".split()
PROTOS = ["reverb/cc/schema.proto", "reverb/cc/checkpointing/checkpoint.proto", "reverb/cc/reverb_service.proto"]

def die_with_parent():
    """a forked process ends when the one that started it ends"""
    import ctypes
    try: ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception: pass
class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()
class Lock:
    def __init__(self, name): self.name = name
    def __enter__(self):
        os.makedirs(os.path.join(B, "locks"), exist_ok=True)
        self.f = open(os.path.join(B, "locks", self.name.replace("/", "_")), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()
def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0: raise BuildError(" ".join(cmd[:3]) + " … failed:\n" + (p.stderr or p.stdout)[-3000:])
    return p.stdout
def stamp_ok(path, key):
    try: return os.path.exists(path) and rd(path + ".key") == key.encode()
    except OSError: return False
def put_stamp(path, key):
    with open(path + ".key", "w") as f: f.write(key)

_hdr = None
def headers_key():
    """content of every header and proto of /repo (a change of any rebuilds all)"""
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + "/reverb/cc/**/*.h", recursive=True) + glob.glob(REPO + "/reverb/cc/**/*.proto", recursive=True))
        _hdr = sha(*[x for f in fs for x in (f, rd(f))])
    return _hdr

def protos():
    key = sha(*[rd(os.path.join(REPO, p)) for p in PROTOS])
    mark = os.path.join(B, "gen.mark")
    with Lock("protos"):
        if stamp_ok(mark, key): return
        os.makedirs(GEN, exist_ok=True)
        for p in PROTOS:
            c = ["/usr/bin/protoc", f"-I{DEPS}/tf/include", "-I" + REPO, "-I/usr/include", "--cpp_out=" + GEN]
            if p.endswith("service.proto"): c += ["--plugin=protoc-gen-grpc=/usr/bin/grpc_cpp_plugin", "--grpc_out=generate_mock_code=true:" + GEN]
            run(c + [os.path.join(REPO, p)])
        open(mark, "w").close(); put_stamp(mark, key)

def extractor():
    src = os.path.join(VERIF, "extract/extract.cc"); key = sha(rd(src)); out = os.path.join(B, "extract")
    with Lock("extractor"):
        if stamp_ok(out, key): return out
        llvm = [x for x in run(["llvm-config-18", "--cxxflags"]).split() if not x.startswith("-std=")]
        run(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", src, "-o", out + ".tmp"] + llvm +
            ["/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        os.replace(out + ".tmp", out); put_stamp(out, key)
    return out

def tu_name(f): return f.replace("/", "_")
def extract(tu):
    """tu: path below reverb/cc without .cc, or an absolute path of a wrapper under /verif"""
    exe = extractor(); protos()
    f = f"{REPO}/reverb/cc/{tu}.cc" if not tu.startswith("/") else tu
    if not os.path.exists(f): raise BuildError(f"{f} does not exist")
    out = os.path.join(B, "x", tu_name(tu).strip("_") + ".json")
    key = sha(headers_key(), rd(f), rd(os.path.join(VERIF, "extract/extract.cc")))
    with Lock("x_" + tu_name(tu)):
        if stamp_ok(out, key): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run([exe, out + ".tmp", REPO + "/reverb/", f, "--"] + CXX + ["-O2"] + INC + RES)
        os.replace(out + ".tmp", out); put_stamp(out, key)
    return out

def obj(src, extra=(), tag=""):
    """compiles a source to an object; src absolute"""
    protos()
    out = os.path.join(B, "o", tu_name(os.path.relpath(src, "/")) + tag + ".o")
    hk = sha(*[rd(h) for h in sorted(glob.glob(VERIF + "/native/*.h"))]) if src.startswith(VERIF + "/native") else ""
    key = sha(headers_key(), rd(src), hk, " ".join(extra))
    with Lock("o_" + tu_name(src) + tag):
        if stamp_ok(out, key): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run(["g++"] + CXX + ["-O1", "-fPIC"] + list(extra) + INC + ["-I" + VERIF, "-c", src, "-o", out + ".tmp"])
        os.replace(out + ".tmp", out); put_stamp(out, key)
    return out
PB = ["reverb/cc/schema.pb.cc", "reverb/cc/checkpointing/checkpoint.pb.cc", "reverb/cc/reverb_service.pb.cc", "reverb/cc/reverb_service.grpc.pb.cc"]
def harness(name, tus, pool):
    """links native/<name>.cc with the given translation units of /repo, and
    with all of them when they turn out to need more"""
    try: return harness1(name, tus, pool)
    except BuildError as e:
        if tus == "all" or "undefined reference" not in str(e): raise
        return harness1(name, "all", pool)
def harness1(name, tus, pool):
    protos()
    srcs = [os.path.join(VERIF, "native", name + ".cc")]
    if tus == "all":
        srcs += [f for f in sorted(glob.glob(REPO + "/reverb/cc/**/*.cc", recursive=True)) if not f.endswith("_test.cc") and "/ops/" not in f and "/testing/" not in f]
        # what only the Python front end needs is left out
    else: srcs += [f"{REPO}/reverb/cc/{t}.cc" for t in tus]
    srcs += [os.path.join(GEN, p) for p in PB]
    objs = list(pool.map(obj, srcs))
    out = os.path.join(B, "bin", name)
    key = sha(*[rd(o + ".key") for o in objs], *objs)
    with Lock("bin_" + name):
        if stamp_ok(out, key): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run(["g++"] + objs + ["-o", out + ".tmp", f"-L{DEPS}/tf", f"-L{DEPS}/lib", f"-Wl,-rpath,{DEPS}/tf", f"-Wl,-rpath,{DEPS}/lib"] + ["-l" + l for l in LIBS])
        os.replace(out + ".tmp", out); put_stamp(out, key)
    return out
