#!/opt/veriftools/pyvenv/bin/python -B
"""replay.py FILE: runs one counterexample on the unmodified code (plain imports, concrete inputs).

Exit 1 if the failure reproduces, 0 if not."""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.pycache_prefix = "/nonexistent-pycache"
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from symx import core  # noqa: E402


class Hang(BaseException):
    pass


def main():
    with open(sys.argv[1]) as f: r = json.load(f)
    import harness
    harness.SYMBOLIC = False
    H = importlib.import_module(r["harness"])
    eng = core.Concrete(r["inputs"])
    eng.tier = "quick"
    args = r["args"]
    def onalarm(*_): raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        from check import call
        if r.get("before"): eng.before(lambda: call(eng, H, *r["before"]))
        call(eng, H, r["func"], args, r.get("cube"))
    except core.Violation as v:
        print(f"REPRODUCED {v.label} {v.detail} {eng.names}")
        return 1
    except core.PathStop:
        print("not reproduced (assumption not met)")
        return 0
    except Hang:
        print("REPRODUCED: does not terminate within 60 s")
        return 1
    except Exception as e:
        print("REPRODUCED exception:", type(e).__name__, e)
        traceback.print_exc(limit=-4)
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
