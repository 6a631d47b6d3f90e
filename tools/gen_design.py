#!/opt/veriftools/pyvenv/bin/python -B
"""gen_design.py: DESIGN.md = design_head.md + a section per property (from the harnesses) + the planted bugs (from seeded/
and tools/seed_results.txt, the output of runseeds.py)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.argv = ["x"]
import check
out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), "", "## 5. Properties", ""]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
def both(b):
    return b if isinstance(b, str) else f"quick: {b['quick']}; thorough: {b['thorough']}"
def cost(i):
    try:
        e = json.load(open(os.path.join(HERE, "tools/costs.json")))
        return e.get(i)
    except OSError: return None
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    out.append("")
    if i == "G01":
        out += ["Not applicable: see section 3.", ""]
        continue
    d = importlib.import_module(check.harness_name(i)).PROPS[i]
    fns = []
    for t in d["tasks"]("quick"):
        if t.fn not in fns: fns.append(t.fn)
    out.append(f"- decided by: {d.get('explain', '')} (`{check.harness_name(i).replace('.', '/')}.py`: {', '.join(fns)})")
    out.append(f"- bounds: {both(d['bounds'])}")
    if d.get("outside"): out.append(f"- outside: {d['outside']}")
    a = [x for x in d["assumptions"] if not x.startswith("Trusted")]
    if a: out.append(f"- assumed: {' '.join(x if x.endswith('.') else x + '.' for x in a)}")
    if cost(i): out.append(f"- cost (quick): {cost(i)}")
    out.append("")
out += ["## 6. Planted bugs", "", "Each is kept in `seeded/<id>`; all pass the existing tests.  `tools/runseeds.py` runs the check of the property on a scratch copy.", "",
        "| bug | property | needs | result |", "|---|---|---|---|"]
res = {}
try:
    for l in open(os.path.join(HERE, "tools/seed_results.txt")):
        w = l.split()
        if len(w) > 4: res[w[0]] = "caught" if "CAUGHT" in l else "missed"
except OSError: pass
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, 'not run')} |")
tail = os.path.join(HERE, "tools/design_tail.md")
if os.path.exists(tail): out += ["", open(tail).read().rstrip()]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
