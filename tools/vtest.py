"""debugging aid: verify functions: vtest.py module tu1,tu2 Fn1 Fn2 ..."""
import sys, glob, importlib, time, traceback
import faulthandler, os; faulthandler.dump_traceback_later(int(os.environ.get("DUMP", "1000")), exit=True)
sys.path.insert(0, "/verif")
from vc.ast import Program
from vc import protos, verify, specs as SP, sym
from vc import build as B
def tu(t): return B.extract("/verif/native/inst/" + t[18:] if t.startswith("verif_native_inst_") else t)
P = protos.parse_files(["/repo/reverb/cc/schema.proto", "/repo/reverb/cc/checkpointing/checkpoint.proto", "/repo/reverb/cc/reverb_service.proto"])
prog = Program([tu(t) for t in sys.argv[2].split(",")])
S = SP.Specs()
for m in sys.argv[1].split(","): importlib.import_module("contracts." + m).register(S)
names = sys.argv[3:] or list(S.contracts)
verbose = False
for nm in names:
    if nm == "-v": verbose = True; continue
    for c in S.contracts[nm]:
        if c.abstract: continue
        fs = [f for f in prog.by_name.get("deepmind::reverb::" + nm, prog.by_name.get(nm, [])) if S.fits(c, f)]
        if not fs: print(nm, "NOT FOUND"); continue
        fn = fs[0]
        ex = sym.Executor(prog, S, P, dict(c.opts))
        t0 = time.time()
        try:
            obs = verify.verify_function(ex, fn, c)
        except sym.Unsupported as e:
            print(f"{nm}: UNSUPPORTED {e}")
            if verbose: traceback.print_exc()
            continue
        t1 = time.time()
        bad = 0
        from vc import par
        res = par.solve_all(obs, int(os.environ.get('TO', '2500')), stop_after=int(os.environ.get("MAXBAD", "14")), hard=float(os.environ.get("HARD", "40")))
        if any(r is None for r in res): print("   stopped early")
        res = [r or ("not tried", "", 0, "") for r in res]
        for o, (st, d, s, b) in zip(obs, res):
            if s > 3: print(f"   slow {s:.1f}s [{o.label}] line {o.line} by {b}")
            if st == "not tried": continue
            if st != "proved" or o.tainted:
                    bad += 1
                    seen = globals().setdefault("_seen", {})
                    k = (nm, o.label); seen[k] = seen.get(k, 0) + 1
                    if seen[k] == 1 and len(seen) < 40: print(f"   {nm}:{o.line} [{o.label}] {st} {s:.1f}s {o.tainted} {d[:2500] if verbose and st=='sat' else d[:60]!r}")
        print(f"{nm}: {len(obs)} obligations, {bad} open, paths {ex.npaths} returns {ex.nreturns}, gen {t1-t0:.1f}s solve {time.time()-t1:.1f}s inlined {[x.split('::')[-1] for x in sorted(ex.inlined)]}")
