"""Entry point of every check: run.py <property> [--tier quick|thorough]."""
import sys, os, json, time, hashlib, fnmatch, subprocess, traceback, importlib, multiprocessing as mp, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vc import build as B, props
NS = "deepmind::reverb::"
REPLAYS = os.path.join(B.B, "replays")
T0 = time.time()
def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------ verification
_G = {}
def load(tus, contract_mods):
    from vc.ast import Program
    from vc import protos, specs as SP
    P = protos.parse_files([os.path.join(B.REPO, p) for p in B.PROTOS])
    prog = Program(tus)
    S = SP.Specs()
    for m in contract_mods: importlib.import_module("contracts." + m).register(S)
    _G.update(P=P, prog=prog, S=S)
def fn_for(c):
    prog = _G["prog"]
    fs = [f for f in prog.by_name.get(NS + c.name, prog.by_name.get(c.name, [])) if _G["S"].fits(c, f)]
    return fs[0] if fs else None
def fingerprint(ex, fn):
    """content of the functions an argument rests on, positions left out"""
    h = hashlib.sha256()
    def strip(x):
        if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("l", "unit", "loops", "id", "t", "usr", "pt", "type", "cls", "ret") and not k.startswith("_")}
        if isinstance(x, list): return [strip(v) for v in x]
        return x
    names = sorted({fn["sname"]} | set(ex.inlined))
    for n in names:
        for f in _G["prog"].by_name.get(n, []): h.update(json.dumps([n, strip(f.get("body"))], sort_keys=True, default=str).encode())
    return h.hexdigest()[:20]
def verify_one(a):
    name, idx, tier, sem, deadline = a
    t = time.time()
    from vc import verify, sym
    S, prog = _G["S"], _G["prog"]
    c = S.contracts[name][idx]
    r = dict(name=name + (f"/{c.tag or c.nparams}" if len(S.contracts[name]) > 1 else ""), status="proved", obligations=0, discharged=0, failed=[], undecided=[], by={}, solver_s=0.0, inlined=[], called=[], paths=0, assumptions=[], slowest=0.0)
    fn = fn_for(c)
    if fn is None: r.update(status="undecided", undecided=["function not found in the current source"]); return r
    r["file"] = fn.get("file", ""); r["line"] = fn.get("line", 0)
    ex = sym.Executor(prog, S, _G["P"], dict(c.opts))
    try: obs = verify.verify_function(ex, fn, c)
    except sym.Unsupported as e:
        r.update(status="undecided", undecided=[f"outside the verifier's subset: {e}"]); return r
    except Exception as e:
        r.update(status="undecided", undecided=[f"verification condition generator: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}"]); return r
    r["inlined"] = sorted(ex.inlined); r["called"] = sorted(ex.called); r["paths"] = ex.npaths
    r["assumptions"] = sorted(S.assumptions)
    r["fp"] = fingerprint(ex, fn)
    if not obs or (ex.nreturns == 0 and not c.may_abort):
        r.update(status="undecided", undecided=["vacuous: no path of the function returns"]); return r
    # reachability: at least one returning path has a satisfiable context
    import z3
    reach = "none"
    from vc import par
    for pc in ex.reach[:6]:
        k = par.check_sat(pc, 3000, 6)
        if k == "sat": reach = "sat"; break
        if k == "unknown": reach = "unknown"; break
    r["reach"] = reach
    if reach == "none": r.update(status="undecided", undecided=["vacuous: the precondition and path conditions are contradictory"]); return r
    tmo = 10000 if tier == "quick" else 40000
    nfail = 0
    r["gen_s"] = time.time() - t
    sem.release()
    try: res = par.solve_all(obs, tmo, sem=sem, stop_after=4, deadline=deadline - 10)
    finally: sem.acquire()
    for o, rr in zip(obs, res):
        if rr is None: continue
        st, d, s, b = rr
        r["obligations"] += 1; r["solver_s"] += s; r["slowest"] = max(r["slowest"], s)
        if st == "proved" and not o.tainted:
            r["discharged"] += 1; r["by"][b] = r["by"].get(b, 0) + 1
        elif o.tainted and st != "proved":
            r["undecided"].append(f"{o.label} (line {o.line}): depends on {o.tainted[0]}")
        elif o.tainted:      # proved without needing an invariant: sound, loops were havocked
            r["discharged"] += 1; r["by"][b] = r["by"].get(b, 0) + 1
        else:
            nfail += 1
            r["failed"].append(dict(label=o.label, line=o.line, kind=o.kind, result=st, detail=d[:6000]))
    r["not_tried"] = sum(x is None for x in res)
    if r["not_tried"] and not r["failed"]: r["undecided"].append("time limit")
    r["status"] = "failed" if r["failed"] else "undecided" if r["undecided"] else "proved"
    r["wall"] = time.time() - t
    return r

def run_jobs(jobs, limit):
    """one process per function; at most 8 processes work at a time"""
    ctx = mp.get_context("fork"); sem = ctx.Semaphore(8)
    end = time.time() + limit
    def blank(j, why): return dict(name=j[0], status="undecided", undecided=[why], obligations=0, discharged=0, failed=[], by={}, solver_s=0, inlined=[], called=[], assumptions=[])
    def work(j, w):
        B.die_with_parent()
        os.setpgid(0, 0)
        if os.environ.get("VERIF_DUMP"): import faulthandler; faulthandler.dump_traceback_later(int(os.environ["VERIF_DUMP"]))
        with sem:
            try: r = verify_one(j + (sem, end))
            except BaseException as e: r = blank(j, f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}")
        try: w.send(r)
        except Exception as e: w.send(blank(j, repr(e)[:500]))
    run = []
    for j in jobs:
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=work, args=(j, wr)); p.start(); wr.close(); run.append((j, p, rd))
    out = []
    for j, p, rd in run:
        try: out.append(rd.recv() if rd.poll(max(0.5, end - time.time())) else blank(j, "time limit"))
        except EOFError: out.append(blank(j, "verification process ended"))
        if p.is_alive():
            p.join(1)
        if p.is_alive():
            try: os.killpg(p.pid, 9)
            except OSError: p.kill()
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    cfg = props.P[pid]
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(REPLAYS, pid + ".txt")
    for f in (replay, replay + ".native"):
        if os.path.exists(f): os.unlink(f)
    pool = cf.ThreadPoolExecutor(9)
    # 1. build: extraction and native harness side by side
    notes = []
    hx = None
    if cfg.get("harness"): hx = pool.submit(lambda: B.harness(cfg["harness"], cfg["htus"], cf.ThreadPoolExecutor(7)))
    exs = [(t, pool.submit(B.extract, t)) for t in cfg["tus"]]
    files = []
    for t, f in exs:
        try: files.append(f.result())
        except Exception as e: notes.append(f"extraction of {t} failed: {str(e)[-800:]}"); log(notes[-1])
    log("extracted", len(files), "translation units")
    hbin = None
    results = []
    # 2. start the harness as soon as it is linked
    native = {}
    def run_native():
        if hx is None: return
        try: b = hx.result()
        except Exception as e:
            native.update(status="nobuild", detail=str(e)[-1500:]); return
        bud = cfg.get("budget", 6) if tier == "quick" else cfg.get("tbudget", 240)
        cmd = [b, "--prop", pid, "--seed", str(seed), "--budget", str(bud), "--replay", replay + ".native", "--thorough", "1" if tier == "thorough" else "0"]
        native["cmd"] = " ".join(cmd)
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=bud * 3 + 240, env=dict(os.environ, TF_ENABLE_ONEDNN_OPTS="0", GRPC_VERBOSITY="NONE"))
            native.update(rc=p.returncode, out=p.stdout, wall=time.time() - t, err=p.stderr[-2000:])
            native["status"] = "ok" if p.returncode == 0 and p.stdout.startswith("OK") else "fail" if p.returncode == 1 and "FAIL" in p.stdout else "inconclusive"
        except subprocess.TimeoutExpired: native.update(status="inconclusive", detail="harness timed out")
    nf = pool.submit(run_native)
    # 3. verification
    if files and cfg.get("functions"):
        try:
            load(files, cfg["contracts"])
            S = _G["S"]
            jobs = []
            for n in S.contracts:
                if any(fnmatch.fnmatch(n, pat) for pat in cfg["functions"]):
                    for i, c in enumerate(S.contracts[n]):
                        if not c.abstract and not c.trusted: jobs.append((n, i, tier))
            log(len(jobs), "functions under contract")
            results = run_jobs(jobs, 420 if tier == "quick" else 1500)
        except Exception as e:
            notes.append("verifier: " + traceback.format_exc()[-1500:]); log(notes[-1])
    log("verification done")
    nf.result()
    log("harness", native.get("status"))
    # 4. decision
    basel = {}
    try: basel = json.load(open(os.path.join(VERIF, "contracts", "baseline.json")))
    except Exception: pass
    failed = []
    for r in results:
        for f in r["failed"]:
            if f["result"] in ("timeout", "unknown") and basel.get(r["name"]) == r.get("fp"):
                r["undecided"].append(f"{f['label']}: solver time limit on unchanged code")
            else: failed.append((r, f))
    known = known_findings(pid)
    viol = 0
    for k in known: print(f"KNOWN-FINDING: property={pid} {k}")
    if native.get("status") == "fail":
        viol = 1
        with open(replay, "w") as o:
            o.write(open(replay + ".native").read() if os.path.exists(replay + ".native") else native.get("out", ""))
            o.write(f"\nreplay with: {native['cmd']} --trial <trial above>   (H_SCENARIO=<scenario above>)\n")
            for r, f in failed: o.write(f"\nfailed obligation: {r['name']} line {f['line']}: {f['label']} [{f['result']}]\n{f['detail'][:1500]}\n")
        print(f"VIOLATION property={pid} replay={replay}")
    elif failed:
        viol = 1
        with open(replay, "w") as o:
            o.write(f"property: {pid}\nno failing input found by the replay harness ({native.get('status')})\n")
            for r, f in failed:
                o.write(f"\nfailed obligation: {r['name']} ({r.get('file')}:{f['line']}): {f['label']}\nsolver: {f['result']}\nstate of the counterexample / solver output:\n{f['detail']}\n")
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
    evidence(pid, tier, seed, cfg, results, native, notes, viol)
    und = [r["name"] for r in results if r["status"] == "undecided"]
    ob = sum(r["obligations"] for r in results); di = sum(r["discharged"] for r in results)
    print(f"{pid}: {len(results)} functions under contract, {di}/{ob} obligations discharged, {len(und)} undecided {und[:5]}; bounded harness: {native.get('status', 'none')} {native.get('out', '').splitlines()[0] if native.get('out') else native.get('detail', '')[-300:]}")
    for r in results:
        for u in r["undecided"][:2]: print(f"  undecided {r['name']}: {u[:300]}")
        for f in r["failed"][:3]: print(f"  failed {r['name']}:{f['line']}: {f['label'][:200]} [{f['result']}]")
    if "--baseline" in sys.argv:
        for r in results:
            if r["status"] == "proved": basel[r["name"]] = r["fp"]
        with B.Lock("baseline"):
            cur = {}
            try: cur = json.load(open(os.path.join(VERIF, "contracts", "baseline.json")))
            except Exception: pass
            cur.update({r["name"]: r["fp"] for r in results if r["status"] == "proved"})
            json.dump(cur, open(os.path.join(VERIF, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)
    sys.stdout.flush()
    os._exit(1 if viol else 0)

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "): out.append(l.split(" ", 2)[2])
    except OSError: pass
    return out

def evidence(pid, tier, seed, cfg, results, native, notes, viol):
    from vc import trusted
    ob = sum(r["obligations"] for r in results); di = sum(r["discharged"] for r in results)
    by = {}
    for r in results:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    fn = [dict(function=r["name"], source=f"{r.get('file','')}:{r.get('line','')}", status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
               solver_seconds=round(r["solver_s"], 2), paths=r.get("paths"), inlined=[x.replace(NS, "") for x in r["inlined"]], checked_against_contract_of=r["called"],
               precondition_reachable=r.get("reach"), undecided=r["undecided"][:3], failed=[f["label"] for f in r["failed"]]) for r in results]
    S = _G.get("S")
    trusted_contracts = sorted({c.name for n in S.contracts for c in S.contracts[n] if c.trusted or c.abstract} & {x for r in results for x in r["called"]}) if S else []
    assum = sorted({a for r in results for a in r["assumptions"]})
    nat = {"status": native.get("status"), "seconds": round(native.get("wall", 0), 1), "covers (bounded, not counted as proved)": cfg.get("bounded", [])}
    out = native.get("out", "")
    if out:
        nat["result"] = out.splitlines()[0]
        nat["samples"] = [l[7:] for l in out.splitlines() if l.startswith("SAMPLE ")]
    cov = dict(obligations=ob, discharged=di, checker_cmd=f"python3-vt vc/run.py {pid} --tier {tier}",
               trusted_base=trusted.BASE + [f"assumed contract: {x}" for x in trusted_contracts],
               functions=fn, functions_proved=sum(r["status"] == "proved" for r in results), functions_undecided=[r["name"] for r in results if r["status"] == "undecided"],
               back_ends=by, solver_seconds=round(sum(r["solver_s"] for r in results), 2), bounded_standin=nat, notes=notes,
               not_under_contract=cfg.get("bounded", []))
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=trusted.ASSUMPTIONS + assum + cfg.get("assume", []), wall_s=round(time.time() - T0, 2), violations=viol)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        print("check could not decide anything on this tree (see stderr)")
        sys.stdout.flush()
        os._exit(0)
