"""Discharges the obligations of a function in parallel processes, with a hard
limit on each (a solver that ignores its own time limit is ended)."""
import multiprocessing as mp, os, time, signal, threading, queue as q
from . import verify
class _NoSem:
    def __enter__(self): return self
    def __exit__(self, *a): return False
def _child(obs, tmo, nxt, lock, cur, slot, out, sem, stop, first=None):
    from . import build; build.die_with_parent()
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try: signal.signal(signal.SIGINT, signal.SIG_IGN)
    except Exception: pass
    while not stop.value:
        with sem:
            if first is not None: i, first = first, None
            else:
                with lock:
                    i = nxt.value; nxt.value += 1
            if i >= len(obs): return
            cur[2 * slot] = i; cur[2 * slot + 1] = time.time()
            try: r = verify.solve_one(obs[i], tmo)
            except Exception as e: r = ("unknown", f"{type(e).__name__}: {e}", 0.0, "error")
            cur[2 * slot + 1] = 0.0
            out.put((i, r))
def solve_all(obs, tmo, nproc=8, sem=None, stop_after=4, hard=None, deadline=None):
    """results per obligation, None where solving stopped before it"""
    hard = hard or tmo * 5 / 1000 + 10
    res = [None] * len(obs)
    todo = []
    import z3
    for i, o in enumerate(obs):
        if z3.is_true(o.goal): res[i] = ("proved", "", 0.0, "simplifier")
        else: todo.append(i)
    if not todo: return res
    if len(todo) == 1 or nproc == 1: nproc = 1
    sub = [obs[i] for i in todo]
    ctx = mp.get_context("fork")
    sem = sem or _NoSem()
    nproc = min(nproc, len(sub))
    nxt, lock, stop = ctx.Value("q", 0, lock=False), ctx.Lock(), ctx.Value("b", 0, lock=False)
    cur = ctx.Array("d", 2 * nproc, lock=False)
    out = ctx.SimpleQueue()
    tries = {}
    def again(i):       # a solver that hung or crashed gets a second chance in a new process
        tries[i] = tries.get(i, 0) + 1
        return tries[i] < 3
    def start(s, first=None):
        cur[2 * s] = -1; cur[2 * s + 1] = 0.0
        p = ctx.Process(target=_child, args=(sub, tmo, nxt, lock, cur, s, out, sem, stop, first), daemon=False); p.start(); return p
    procs = [start(s) for s in range(nproc)]
    got, bad = 0, 0
    dead = []
    while got < len(sub):
        moved = False
        while not out.empty():
            i, r = out.get(); moved = True
            if res[todo[i]] is None:
                res[todo[i]] = r; got += 1
                if r[0] != "proved": bad += 1
        if bad >= stop_after or (deadline and time.time() > deadline): break
        now = time.time()
        for s in range(nproc):
            if cur[2 * s + 1] and now - cur[2 * s + 1] > hard:
                i = int(cur[2 * s]); procs[s].kill(); procs[s].join()
                if hasattr(sem, "release"): sem.release()
                if res[todo[i]] is None and again(i): procs[s] = start(s, i); continue
                if res[todo[i]] is None: res[todo[i]] = ("timeout", "solver ended after its time limit", hard, "z3+cvc5"); got += 1; bad += 1
                procs[s] = start(s)
            elif not procs[s].is_alive() and cur[2 * s + 1]:       # the solver crashed
                i = int(cur[2 * s])
                if hasattr(sem, "release"): sem.release()
                if out.empty() and res[todo[i]] is None and again(i): procs[s] = start(s, i); continue
                if out.empty() and res[todo[i]] is None: res[todo[i]] = ("unknown", "solver process ended", 0.0, "z3"); got += 1; bad += 1
                procs[s] = start(s)
        if not any(p.is_alive() for p in procs) and out.empty():
            time.sleep(0.05)
            if out.empty(): break
        if not moved: time.sleep(0.01)
    stop.value = 1
    for s, p in enumerate(procs):
        if p.is_alive() and got < len(sub):
            held = cur[2 * s + 1] != 0
            p.kill()
            if held and hasattr(sem, "release"): sem.release()
    for p in procs: p.join()
    return res
def check_sat(hyps, tmo, hard):
    """sat / unsat / unknown, in a process of its own with a hard limit"""
    import z3
    ctx = mp.get_context("fork"); rd, wr = ctx.Pipe(False)
    def work():
        from . import build; build.die_with_parent()
        s = z3.Solver(); s.set("timeout", tmo)
        for h in hyps: s.add(h)
        wr.send(str(s.check()))
    p = ctx.Process(target=work); p.start(); wr.close()
    try: out = rd.recv() if rd.poll(hard) else "unknown"
    except EOFError: out = "unknown"
    if p.is_alive(): p.kill()
    p.join()
    return out
