#!/usr/bin/env python3
"""runseeds.py [ID...]: runs the check of each planted bug's property against a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    scratch = tempfile.mkdtemp(prefix="rs", dir="/tmp")
    repo = os.path.join(scratch, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
    t = time.time()
    r = subprocess.run(["python3-vt", "-B", os.path.join(HERE, "check.py"), prop, "--tier", "quick"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
    shutil.rmtree(scratch)
    lines = r.stdout.strip().splitlines()
    print(f"{i:32s} {prop} exit {r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 else 'MISSED'} | {lines[0][:150] if lines else r.stderr[-300:]}", flush=True)
