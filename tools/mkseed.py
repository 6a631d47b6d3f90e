#!/usr/bin/env python3
"""mkseed.py SPEC.json : builds and validates one planted bug under /verif/seeded/<id>/.

SPEC: {"id","property","needs","what","edits":[[file,old,new],...],"demo": python source}
The change is made in a scratch copy of /repo; kept only if the stable tests pass, the demo fails with it and passes without."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(open(sys.argv[1]))
d = os.path.join(HERE, "seeded", spec["id"])
os.makedirs(d, exist_ok=True)
scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
repo = os.path.join(scratch, "repo")
subprocess.run(["cp", "-a", "/repo", repo], check=True)
subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(repo, f)
    s = open(p, encoding="utf-8", newline="").read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "demo.py"), "w").write(spec["demo"])
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONHASHSEED="0", PYTHONPATH=repo, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider",
                    "--ignore=tests/test_charNames.py", "--ignore=tests/test_layoutProps.py", "--ignore=tests/test_normalizer2.py", "--ignore=tests/test_exhaustive.py"],
                   cwd=repo, env=env, capture_output=True, text=True)
which = subprocess.run(["/opt/venv/bin/python", "-c", "import UnicodeData; print(UnicodeData.__path__)"], cwd=repo, env=env, capture_output=True, text=True).stdout
shutil.rmtree(scratch)
ok = r0.returncode == 0 and r1.returncode not in (0, 124, 126, 127) and t.returncode == 0
print(spec["id"], "OK" if ok else "REJECTED", "demo clean:", r0.returncode, "demo bug:", r1.returncode, "tests:", t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-300:], which.strip()[-40:])
if not ok:
    print(r0.stdout[-500:], r0.stderr[-500:], r1.stdout[-500:], r1.stderr[-500:])
    shutil.rmtree(d)
