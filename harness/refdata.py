"""Reference data (Unicode 13.0 from the JDK and perl, see DESIGN.md) as tables the engine can index symbolically."""
import json
import os

from symx.core import RunTable

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 0x110000
_cache = {}


def _load(name):
    with open(os.path.join(HERE, "refdata", name + ".json"), encoding="utf8") as f: return json.load(f)


def runs(name, conv=None, key=None):
    """The property as a table over all code points; conv maps the stored values."""
    k = (name, key)
    if k not in _cache:
        d = _load(name)
        starts, p = [], 0
        for x in d["starts"]:
            p += x
            starts.append(p)
        vals = [conv(v) if conv else v for v in d["values"]]
        out_s, out_v = [], []
        for s, i in zip(starts, d["ids"]):
            v = vals[i]
            if out_v and out_v[-1] == v and type(out_v[-1]) is type(v): continue
            out_s.append(s)
            out_v.append(v)
        _cache[k] = RunTable(out_s, out_v, N)
    return _cache[k]


def sparse(name):
    """{code point: [code points]}"""
    k = (name, "sparse")
    if k not in _cache:
        _cache[k] = {int(a, 16): [int(x, 16) for x in b.split()] for a, b in _load(name)["map"].items()}
    return _cache[k]


def sparse_table(name, fn, default, key=None):
    """A run table: fn(c, list) at the mapped code points, default elsewhere (default must not depend on c)."""
    k = (name, "table", key)
    if k not in _cache:
        starts, vals = [0], [default]
        def put(c, v):
            if starts[-1] == c: vals[-1] = v
            elif vals[-1] != v or type(vals[-1]) is not type(v):
                starts.append(c)
                vals.append(v)
        for c, l in sorted(sparse(name).items()):
            put(c, fn(c, l))
            if c + 1 < N:
                starts.append(c + 1)
                vals.append(default)
        # merge repeats
        s2, v2 = [], []
        for s, v in zip(starts, vals):
            if s2 and s2[-1] == s: v2[-1] = v; continue
            if v2 and v2[-1] == v and type(v2[-1]) is type(v): continue
            s2.append(s)
            v2.append(v)
        _cache[k] = RunTable(s2, v2, N)
    return _cache[k]
