#!/usr/bin/env python3
"""trybugs.py [id...]: applies each planted bug to a copy of /repo, runs every (or its property's) check against the copy, prints which report it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/trywork"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
allc = "--all" in sys.argv
os.makedirs(W, exist_ok=True)
subprocess.run(f"rm -rf {W}/repo && git clone -q {os.environ.get('MKREPO', '/repo')} {W}/repo", shell=True, check=True)
sys.path.insert(0, V)
from vp import registry
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    subprocess.run("git checkout -q -- . && git apply %s/seeded/%s/patch.diff" % (V, i), shell=True, cwd=W + "/repo", check=True)
    props = sorted(registry.CHECKS) if allc else [meta["property"]]
    hit = []
    for p in props:
        if p not in registry.CHECKS: continue
        r = subprocess.run([sys.executable, V + "/run.py", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W + "/repo", VERIF_SEED="1"))
        if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout: hit.append(p)
        elif r.returncode: hit.append(p + "!ERR"); print(r.stderr[-500:])
        if p == meta["property"]: first = [l for l in r.stderr.splitlines() if l.startswith("  ")][:1]
    print(f"{i}: property {meta['property']} caught by {' '.join(hit) or 'NOTHING'} {first[0][:200] if first else ''}", flush=True)
subprocess.run("git checkout -q -- .", shell=True, cwd=W + "/repo")
