#!/opt/veriftools/pyvenv/bin/python -B
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR]

Decides one property by symbolic execution of /repo's current sources (see DESIGN.md).
Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: a counterexample was found by the
solver and reproduced against the unmodified code.  Exit 2: no answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.pycache_prefix = "/nonexistent-pycache"
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/venv/lib/python3.12/site-packages")

GROUPS = {"S": "sets", "T": "tries", "P": "props", "K": "case", "B": "bidi", "N": "norm", "M": "names",
          "D": "datafile", "L": "labels", "X": "xml", "U": "util", "G": "builder"}
PATH_ALARM = 100       # seconds one execution path may take before it is taken for a candidate hang
REPLAY_LIMIT = 60


def harness_name(prop):
    return "harness." + GROUPS[prop[0]]


class Task:
    """One unit of work: fn(eng, *args), or for cubes fn(eng, c, *args) with c a symbolic code point."""
    def __init__(self, fn, args=(), cube=None, opts=None, weight=1):
        self.fn, self.args, self.cube, self.opts, self.weight = fn, tuple(args), cube, opts or {}, weight
        self.before = None         # (function, arguments, span) of an earlier call
        self.seed = self.limit = 0

    def key(self):
        b = f" after {self.before[0]}{list(self.before[1])}" if self.before else ""
        return f"{self.fn}{list(self.args)}" + (f"@{self.cube[0]:X}/{self.cube[1]}" if self.cube else "") + b


def code_point_cubes(fn, args=(), opts=None, big=(4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16), nbits=12, weight=1):
    """Cubes that together cover every code point."""
    out = []
    for p in range(17):
        if p in big:
            out.append(Task(fn, args, (p << 16, 16), opts, weight))
        else:
            out += [Task(fn, args, ((p << 16) + (k << nbits), nbits), opts, 2 * weight) for k in range(1 << (16 - nbits))]
    return out


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


HISTORY_S = {"quick": (15, 100, 150), "thorough": (300, 3600, 3600)}     # per task, per worker, for pairs of calls on code points
EVERYTHING = (0, 0x110000)
_hist = {"spent": 0.0, "tasks": 0, "truncated": 0}


def run_task(H, task, deadline, tier):
    """Explore one task; returns (stats, violation or None, number of cubes, what calls leave behind)."""
    from symx import core
    if task.before:
        try:
            total, viol, n, left = explore_task(H, task, min(deadline, time.time() + task.limit), tier, task.before, True)
            return total, viol, n, set()
        except core.Inconclusive:
            _hist["truncated"] += 1
            return core.Stats(), None, 0, set()
    total, viol, n, left = explore_task(H, task, deadline, tier)
    if task.cube is not None: return total, viol, n, left
    per, limit, _ = HISTORY_S.get(tier, HISTORY_S["quick"])
    if viol is None and left and _hist["spent"] < limit:
        # a call leaves something behind: also explore an earlier call with inputs of its own
        t0 = time.time()
        end = min(deadline, t0 + min(max(per, task.limit), limit - _hist["spent"]))
        _hist["tasks"] += 1
        runs = [x for x in ("module", "object") if x in left]
        for k, kind in enumerate(runs):
            try:
                st, viol, m, _ = explore_task(H, task, t0 + (end - t0) * (k + 1) / len(runs), tier,
                                              (task.fn, task.args, None) if kind == "module" else None, True)
                total.merge(st)
            except core.Inconclusive:
                _hist["truncated"] += 1
            if viol: break
        _hist["spent"] += time.time() - t0
    return total, viol, n, left


def explore_task(H, task, deadline, tier, before=None, history=False):
    """before: the inputs of an earlier call; history: second calls in the harness, paths in random order."""
    from symx import core
    total = core.Stats()
    stack = [task.cube]
    ncubes = 0
    left = set()
    while stack:
        cube = stack.pop()
        opts = dict(task.opts)
        mr = opts.pop("max_runs", 32)
        floor = opts.pop("floor", 4)
        if cube is None or cube[1] <= floor or history: mr = None
        eng = core.Engine(deadline=deadline, max_runs=mr, **opts)
        eng.tier = tier
        if history: eng.order, eng.seconds = random.Random(int(os.environ.get("VERIF_SEED", "1")) + task.seed), before is None

        def body():
            signal.setitimer(signal.ITIMER_REAL, PATH_ALARM)
            try:
                if before: eng.before(lambda: call(eng, H, *before))
                call(eng, H, task.fn, task.args, cube)
            except core.SymxAbort:
                raise
            except Hang:
                signal.setitimer(signal.ITIMER_REAL, 0)
                eng.deadline = max(eng.deadline or 0, time.time() + 60)
                eng._violate("no termination", eng._model(), f"path did not finish within {PATH_ALARM} s")
            except RecursionError as e:
                eng._violate("unexpected exception", eng._model(), f"{type(e).__name__}: {e}")
            except Exception as e:
                eng._violate("unexpected exception", eng._model(),
                             f"{type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        viol = None
        try:
            eng.explore(body)
            ncubes += 1
        except core.TooWide:
            b, n = cube
            stack += [(b + (1 << (n - 1)), n - 1), (b, n - 1)]
            eng.stats.checks = eng.stats.discharged = eng.stats.trivial = 0   # incomplete cube: not counted
            eng.stats.labels = {}
        except core.Violation as v:
            viol = {"label": v.label, "inputs": v.inputs, "detail": v.detail,
                    "func": task.fn, "args": task.args, "cube": cube, "before": list(before) if before else None}
        total.merge(eng.stats)
        if eng.stateful: left.add("module")
        if eng.inpath: left.add("object")
        if viol: return total, viol, ncubes, left
    return total, None, ncubes, left


def call(eng, H, fn, args, span):
    fn = getattr(H, fn)
    if span is None: fn(eng, *args)
    elif tuple(span) == EVERYTHING: fn(eng, eng.int("c", 0, 0x10FFFF), *args)
    else: fn(eng, eng.bits("c", *span), *args)


def history_tasks(groups, jobs, tier):
    """Pairs of calls on any two code points, for functions that leave something behind."""
    keys = sorted(groups, key=str)
    pairs = [(g, g) for g in keys]
    if len(pairs) < jobs: pairs = pairs * (jobs // len(pairs))
    others = [(g, h) for g in keys for h in keys if g != h]
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    pairs += others if tier != "quick" or len(others) <= jobs else rnd.sample(others, jobs)
    out = []
    for k, (b, g) in enumerate(pairs):
        opts = {x: y for x, y in groups[g].items() if x not in ("max_runs", "floor")}
        t = Task(g[0], g[1], EVERYTHING, opts)
        t.before, t.seed = (b[0], b[1], EVERYTHING), k
        t.limit = min(100, HISTORY_S.get(tier, HISTORY_S["quick"])[2] / -(-len(pairs) // jobs))
        out.append(t)
    return out


def _child(H, tasks, idxq, outq, deadline, tier):
    from symx import loader, state
    for name, m in list(sys.modules.items()):
        if name.startswith(("UnicodeData.", "module_builder.")): state.persist(m)
    import faulthandler
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.setrecursionlimit(20000)
    while True:
        try:
            i = idxq.get_nowait()
        except queue.Empty:
            break
        t0 = time.time()
        try:
            st, viol, n, left = run_task(H, tasks[i], deadline, tier)
            outq.put((i, "ok", st, viol, n, (time.time() - t0, left)))
        except BaseException as e:
            outq.put((i, "err", None, f"{tasks[i].key()}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", 0, time.time() - t0))
    outq.put((None, "done", sorted(loader.ENTERED), dict(_hist), 0, 0))
    outq.close()
    outq.join_thread()


def replay_file(prop, viol, n):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{n}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "harness": harness_name(prop), **viol}, f, indent=1, default=str)
    return p


def reproduce(path):
    """Run the replay in a fresh interpreter on the unmodified code; True if it fails there too."""
    try:
        r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "replay.py"), path], capture_output=True, text=True,
                           timeout=REPLAY_LIMIT + 60, env={**os.environ, "PYTHONHASHSEED": "0"})
    except subprocess.TimeoutExpired:
        return True, "the replay does not terminate"
    return r.returncode == 1, (r.stdout + r.stderr)[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", default="")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from symx import selftest
        selftest.run()
        return
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    deadline = t_start + (780 if tier == "quick" else 6 * 3600)

    from symx import loader, core
    loader.install({"UnicodeData": os.path.join(REPO, "UnicodeData"), "module_builder": os.path.join(REPO, "module_builder"), "harness": os.path.join(HERE, "harness")})
    import harness
    harness.SYMBOLIC = True
    H = importlib.import_module(harness_name(prop))
    spec = H.PROPS[prop]
    tasks = spec["tasks"](tier)
    if a.only: tasks = [t for t in tasks if a.only in t.key()]
    t_load = time.time() - t_start
    for t in tasks: t.limit = HISTORY_S.get(tier, HISTORY_S["quick"])[1] / -(-len(tasks) // a.jobs)
    total, entered, cubes, done = core.Stats(), set(), 0, 0
    viols, errs, slow = [], [], []
    seen = set()
    hist = {"tasks": 0, "truncated": 0}
    candidates = 0
    groups = {}

    def phase(tasks):
        nonlocal cubes, done, candidates
        order = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
        idxq, outq = mp.Queue(), mp.Queue()
        for i in order: idxq.put(i)
        time.sleep(0.05)
        procs = [mp.Process(target=_child, args=(H, tasks, idxq, outq, deadline, tier), daemon=True)
                 for _ in range(max(1, min(a.jobs, len(tasks))))]
        for p in procs: p.start()
        finished = 0
        while finished < len(procs):
            try:
                i, kind, st, info, n, dt = outq.get(timeout=5)
            except queue.Empty:
                if time.time() > deadline + 60:
                    errs.append("time budget exceeded")
                    break
                if not any(p.is_alive() for p in procs) and outq.empty():
                    errs.append("a worker died")
                    break
                continue
            if kind == "done":
                finished += 1
                entered.update(st)
                for k in hist: hist[k] += info[k]
                continue
            if kind == "err":
                errs.append(info)
                if a.verbose: print("ERR", info, file=sys.stderr)
                continue
            dt, left = dt
            t = tasks[i]
            if t.cube is not None and "module" in left: groups[t.fn, t.args] = t.opts
            total.merge(st)
            cubes += n
            done += 1
            slow.append((dt, t.key()))
            if a.verbose: print(f"{dt:6.1f}s {t.key()} q={st.queries} paths={st.paths} chk={st.checks} {info or ''}", file=sys.stderr)
            if info is not None:
                k = (info["func"], info["label"])
                if k in seen: continue
                seen.add(k)
                candidates += 1
                path = replay_file(prop, info, candidates)
                ok, out = reproduce(path)
                if ok:
                    viols.append((path, info, out))
                    break                     # one reproduced counterexample decides the check
                errs.append(f"counterexample did not reproduce on the real code ({path}): {info['label']} {info['inputs']} {info['detail']}\n{out}")
                if len(errs) > 5: break
        for p in procs:
            if p.is_alive(): p.terminate()

    phase(tasks)
    if groups and not viols and not errs:
        extra = history_tasks(groups, a.jobs, tier)
        hist["tasks"] += len(extra)
        tasks = tasks + extra
        deadline = min(deadline, time.time() + HISTORY_S.get(tier, HISTORY_S["quick"])[2] + 30)
        phase(extra)
    wall = time.time() - t_start
    funcs = sorted(e for e in entered if e.startswith(("UnicodeData.", "module_builder.")))
    slow.sort(reverse=True)
    cov = {
        "explanation": spec["explain"], "technique": "symbolic execution of the current sources, SMT (z3, bit-vectors/arrays)",
        "functions_encoded": funcs, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
        "outside_bounds": spec.get("outside", ""), "tasks": len(tasks), "tasks_completed": done, "cubes": cubes,
        "paths": total.paths, "obligations": total.checks, "discharged": total.discharged,
        "trivially_true": total.trivial, "obligations_by_assertion": dict(sorted(total.labels.items())),
        "queries": total.queries, "solver_s": round(total.solver_s, 2), "load_s": round(t_load, 2),
        "peak_rss_mb": resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024,
        "histories": f"{hist['tasks']} tasks leave state behind in a module or object and were also explored with an earlier call "
                     f"({hist['truncated']} of those explorations cut by their time limit)",
        "slowest_tasks": [f"{d:.1f}s {k}" for d, k in slow[:3]],
        "samples": [t.key() for t in tasks[:3]],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
                   "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
                   "violations": len(viols)}, f, indent=1)
    for path, v, out in viols:
        print(f"{v['func']}: {v['label']}: inputs {json.dumps(v['inputs'], default=str)[:1500]} {v['detail']}")
        print(out.strip()[-1200:])
        print(f"VIOLATION property={prop} replay={path}")
    if viols: sys.stdout.flush(); os._exit(1)
    missing = [e for e in spec.get("expect", []) if e not in total.labels] if not a.only and not errs else []
    if missing: errs.append(f"assertions never reached: {missing}")
    if done != len(tasks) and not errs: errs.append("not all tasks completed")
    if errs:
        for e in errs[:5]: print("ERROR", e)
        sys.stdout.flush()
        os._exit(2)
    print(f"{prop} {tier}: held; {len(tasks)} tasks, {cubes} cubes, {total.paths} paths, {total.discharged}/{total.checks} obligations discharged, "
          f"{total.queries} queries, solver {total.solver_s:.1f}s, wall {wall:.1f}s")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
