"""Builds the extractor, extracts the sources and builds the harnesses once (all cached by content)."""
import sys, os, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build as B, props
pool = cf.ThreadPoolExecutor(9); inner = cf.ThreadPoolExecutor(8)
jobs = [pool.submit(B.extract, t) for t in sorted({t for c in props.P.values() for t in c["tus"]})]
seen = set()
for c in props.P.values():
    if c.get("harness") and c["harness"] not in seen:
        seen.add(c["harness"]); jobs.append(pool.submit(B.harness, c["harness"], c["htus"], inner))
bad = 0
for j in jobs:
    try: j.result()
    except Exception as e: bad += 1; print("setup:", str(e)[-500:])
print("setup done,", len(jobs), "products,", bad, "failed")
sys.stdout.flush(); os._exit(0)
