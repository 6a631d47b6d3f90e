"""T01..T05: UTrie2 and CPTrie."""
import struct

import harness
from UnicodeData.Utrie2 import UTrie2
from UnicodeData.CPTrie import CPTrie
from symx.state import fingerprint, again
from UnicodeData import CharProps, BidiProps, CaseProps, Norm2NFCData

TOP = 0x110000


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def pick(eng, name, options):
    """A symbolic choice; the path forks over the options."""
    k = eng.int(name, 0, len(options) - 1)
    return options[k.__index__()]


# ---------------------------------------------------------------- T01
N16 = (0xFFFF << 2) + 64      # an index entry addresses at most 0xFFFF<<2 | 31


def utrie_get(eng, part):
    """get() of arbitrary contents against the format description."""
    index = eng.array("index", N16, 16)
    ilen = eng.int("indexLength", 0, 0x10000)
    hs = eng.int("highStart", 0x10000 >> 11, TOP >> 11) << 11
    hv = eng.int("highValueIndex", 0, 0x3FFFF)
    t = UTrie2(index, ilen, 0xFFFF, 0xFFFF, hs, hv, 0)
    mark = fingerprint(t)
    utrie_point(eng, "c", part, t, index, ilen, hs, hv)
    if again(eng, t, mark):            # a lookup left something behind in the table object: look up once more
        utrie_point(eng, "second", pick(eng, "second part", list(UPARTS)), t, index, ilen, hs, hv)


UPARTS = {"bmp": (0, 0xD7FF), "lead": (0xD800, 0xDBFF), "trail": (0xDC00, 0xDFFF), "bmp2": (0xE000, 0xFFFF),
          "supp": (0x10000, 0x10FFFF), "beyond": (TOP, 1 << 33)}


def utrie_point(eng, name, part, t, index, ilen, hs, hv):
    c = eng.int(name, *UPARTS[part])
    got = eng.noraise("lookup does not fail", t.get, c)
    if part == "beyond":
        want = index[ilen + 0x80]
    elif part == "supp" and c >= hs:
        want = index[hv]
    else:
        if part == "lead": e = index[2048 + ((c - 0xD800) >> 5)]
        elif part == "supp": e = index[index[2112 + ((c - 0x10000) >> 11)] + ((c >> 5) & 63)]
        else: e = index[c >> 5]
        want = index[e * 4 + (c & 31)]
    eng.check(got == want, f"get: the value stored for the code point ({part})")


def tasks_T01(tier):
    return [task("utrie_get", p, logic=None) for p in ("bmp", "lead", "trail", "bmp2", "supp", "beyond")]


# ---------------------------------------------------------------- T02
def real_tries():
    return {"props": CharProps.propsTrie, "vectors": CharProps.propsVectorTrie, "bidi": BidiProps.bidiPropsTrie, "case": CaseProps.casePropsTrie}


def low5(v, shift=0):
    return (v >> shift) & 0x1F


def check_ranges(eng, ranges, start, limit, expected, far=TOP):
    """Contiguity, maximality, and every code point of every range has the range's value.  expected: c -> value term.
    Code points from far on are covered by one symbolic code point per range, the others one by one."""
    eng.check(len(ranges) > 0, "some range is yielded")
    pos = start
    ok_pos, ok_val, ok_max = [], [], []
    for k, (r, v) in enumerate(ranges):
        ok_pos += [r.start == pos, r.stop > r.start, r.stop <= limit]
        pos = r.stop
        if k: ok_max.append(ranges[k - 1][1] != v)
    eng.check(eng.And(True, *ok_pos, pos == limit), "ranges are non-empty, contiguous and cover start..limit")
    eng.check(eng.And(True, *ok_max), "neighbouring ranges have different values")
    seen = set()
    for r, v in ranges:
        for c in range(int(r.start), min(far, int(r.stop))):
            e = expected(c)
            key = (id(e), id(v))
            if key in seen: continue
            seen.add(key)
            ok_val.append(e == v)
    eng.check(eng.And(True, *ok_val), "every code point of a range has the range's value")
    for k, (r, v) in enumerate(ranges):
        if r.stop > far:
            c = eng.int(f"c{k}", max(far, int(r.start)), int(r.stop) - 1)
            eng.check(expected(c) == v, "every code point of a range has the range's value")


def utable(eng, hs=TOP, i2null=True, dnull=True):
    """A UTrie2 with symbolic data values.  Returns (index list, offsets)."""
    base = 2112 + 512
    I2 = {"N": base, "A": base + 64, "B": base + 128}
    D0 = base + 192
    D = {"N": D0, "A": D0 + 32, "B": D0 + 64, "C": D0 + 96, "H": D0 + 128}
    init = eng.int("init", 0, 0xFFFF)
    a1, a2, b1, b2, cc, hv = (eng.int(n, 0, 0xFFFF) for n in ("a1", "a2", "b1", "b2", "cc", "hv"))
    index = [D["N"] >> 2] * 2080 + [0] * 32 + [I2["N"]] * 512 + [D["N"] >> 2] * 192
    assert len(index) == D0
    index += [init] * 32 + [a1] * 16 + [a2] * 16 + [b1] * 31 + [b2] + [cc] * 32 + [hv] * 32 + [0] * 32
    for k in range(0xD800 >> 5, 0xDC00 >> 5): index[k] = D["C"] >> 2      # lead code units: not the code points
    p = dict(index=index, indexLength=D0, index2NullOffset=I2["N"] if i2null else 0xFFFF,
             dataNullOffset=D["N"] if dnull else 0xFFFF, highStart=hs, highValueIndex=D0 + 128, initialValue=init)
    return p, I2, D


def slot_of(index, I2, c):
    """Position of the index-2 entry that governs code point c."""
    if 0xD800 <= c <= 0xDBFF: return 2048 + ((c - 0xD800) >> 5)
    if c <= 0xFFFF: return c >> 5
    return index[2112 + ((c - 0x10000) >> 11)] + ((c >> 5) & 63)


def utrie_enum_blocks(eng, base, nslots, starts, limits, fn, null):
    """Symbolic data blocks around a structural boundary."""
    p, I2, D = utable(eng, i2null=null, dnull=null)
    index = p["index"]
    if base >= 0x10000 or base + 32 * nslots > 0x10000:      # give the supplementary part its own index-2 blocks
        first = max(base, 0x10000)
        index[2112 + ((first - 0x10000) >> 11)] = I2["A"]
        last = base + 32 * nslots - 1
        if (last >> 11) != (first >> 11): index[2112 + ((last - 0x10000) >> 11)] = I2["B"]
    if base >= 0x10000: index[2112 + ((base - 0x10000) >> 11)] = I2["A"]
    for k in range(nslots):
        index[slot_of(index, I2, base + 32 * k)] = D[pick(eng, f"slot{k}", "NAB")] >> 2
    t = UTrie2(**p)
    start = pick(eng, "start", [base + s for s in starts])
    limit = pick(eng, "limit", [base + s for s in limits])
    eng.assume(start < limit)
    run_enum(eng, t, start, limit, fn)


def run_enum(eng, t, start, limit, fn, far=TOP):
    if fn:
        got = [r for r in t.enumerator(start, limit, low5, shift=1)]
        cache = {}
        def expected(c):
            v = t.get(c)
            k = id(v)
            if k not in cache: cache[k] = (low5(v, 1), v)        # (keeps v alive)
            return cache[k][0]
    else:
        got = [r for r in t.enumerator(start, limit)]
        expected = t.get
    check_ranges(eng, got, start, limit, expected, far)


def interleaved(eng, t, a, b):
    """Two enumerations of one table at the same time: the second begins while the first is under way."""
    g1 = t.enumerator(a[0], a[1])
    k = pick(eng, "taken", [1, 2])
    got1 = [r for _, r in zip(range(k), g1)]
    g2 = t.enumerator(b[0], b[1])
    got2 = [r for _, r in zip(range(1), g2)]
    t.get(b[0])
    got1 += list(g1)
    got2 += list(g2)
    check_ranges(eng, got1, a[0], a[1], t.get)
    check_ranges(eng, got2, b[0], b[1], t.get)


def utrie_interleaved(eng, base, far):
    p, I2, D = utable(eng)
    index = p["index"]
    if base + 128 > 0x10000: index[2112 + ((max(base, 0x10000) - 0x10000) >> 11)] = I2["A"]
    for k in range(4): index[slot_of(index, I2, base + 32 * k)] = D[pick(eng, f"slot{k}", "NA" if k & 1 else "AB")] >> 2
    interleaved(eng, UTrie2(**p), (base, base + 96), (base + far, base + 128))


def utrie_interleaved_index2(eng, far):
    """The same over whole index-2 blocks, each with one value throughout."""
    p, I2, D = utable(eng)
    index = p["index"]
    for k in range(64): index[I2["A"] + k], index[I2["B"] + k] = D["C"] >> 2, D["H"] >> 2
    for k in range(3): index[2112 + k] = I2[pick(eng, f"i1_{k}", "NAB")]
    interleaved(eng, UTrie2(**p), (0x10000, 0x11800), (0x10000 + far, 0x11800))


def utrie_enum_index2(eng, hs, nslots, style, starts, limits, fn):
    """Symbolic index-2 blocks (whole blocks are skipped)."""
    p, I2, D = utable(eng, hs=hs)
    index = p["index"]
    for k in range(64):
        index[I2["A"] + k] = (D["C"] if style == "uniform" else D["A"]) >> 2
        index[I2["B"] + k] = (D["B"] if k == 63 else D["C"]) >> 2
    base = 0x10000
    for k in range(nslots): index[2112 + k] = I2[pick(eng, f"i1_{k}", "NAB")]
    t = UTrie2(**p)
    start = pick(eng, "start", [base + s for s in starts])
    limit = pick(eng, "limit", [base + s for s in limits])
    eng.assume(start < limit)
    run_enum(eng, t, start, limit, fn)


def utrie_enum_points(eng, base, starts, limits, pattern):
    """Dense starts or limits over fixed block kinds; starts/limits: [first, count] relative to the window's ends."""
    p, I2, D = utable(eng)
    index = p["index"]
    n = 32 * len(pattern)
    if base + n > 0x10000:
        index[2112 + ((max(base, 0x10000) - 0x10000) >> 11)] = I2["A"]
        last = base + n - 1
        if (last >> 11) != (max(base, 0x10000) >> 11): index[2112 + ((last - 0x10000) >> 11)] = I2["B"]
    for k, ch in enumerate(pattern): index[slot_of(index, I2, base + 32 * k)] = D[ch] >> 2
    t = UTrie2(**p)
    start = eng.int("start", base + starts[0], base + starts[0] + starts[1] - 1).__index__()
    limit = eng.int("limit", base + n - limits[0] - limits[1] + 1, base + n - limits[0]).__index__()
    eng.assume(start < limit)
    run_enum(eng, t, start, limit, False)


def const_high(eng, hs, starts, limits):
    """Around highStart."""
    p, I2, D = utable(eng, hs=hs)
    index = p["index"]
    index[2112 + ((hs - 0x800 - 0x10000) >> 11)] = I2["A"]
    for k in range(64): index[I2["A"] + k] = D["C"] >> 2
    for k in (62, 63): index[I2["A"] + k] = D[pick(eng, f"slot{k}", "NAB")] >> 2
    t = UTrie2(**p)
    start = pick(eng, "start", [hs + s for s in starts])
    limit = pick(eng, "limit", [min(TOP, hs + s) for s in limits])
    eng.assume(start < limit)
    run_enum(eng, t, start, limit, False, hs + 64)


_real = {}


def gc_of(v, shift=0):
    return v & 0x1F


def real_ranges(name, fn, start, limit):
    k = (name, fn, start, limit)
    if k not in _real:
        t = real_tries()[name] if name != "nfc" else nfc_trie()
        if name == "nfc": _real[k] = list(t.enumerator(start, limit))
        else: _real[k] = list(t.enumerator(start, limit, gc_of) if fn else t.enumerator(start, limit))
    return _real[k]


def shape(eng, name, fn, start, limit):
    """Concrete part for a shipped table: contiguity and maximality."""
    r = real_ranges(name, fn, start, limit)
    ok = len(r) > 0 and r[0][0].start == start and r[-1][0].stop == limit
    for k, (q, v) in enumerate(r):
        ok = ok and len(q) > 0
        if k: ok = ok and r[k - 1][0].stop == q.start and r[k - 1][1] != v
    eng.check(ok, "shipped table: ranges are contiguous, maximal and cover start..limit")


def lookup(ranges):
    """The value the yielded ranges give to each code point from ranges[0].start on."""
    from symx.core import RunTable
    starts, vals = [0], [-1]
    for q, v in ranges:
        if q.start == 0: starts, vals = [], []
        starts.append(q.start)
        vals.append(v)
    return RunTable(starts, vals, TOP)


def real_values(eng, c, name, fn, start, limit):
    eng.assume(c >= start)
    eng.assume(c < limit)
    r = real_ranges(name, fn, start, limit)
    key = ("tab", name, fn, start, limit)
    if key not in _real: _real[key] = lookup(r)
    t = real_tries()[name] if name != "nfc" else nfc_trie()
    v = t.get(c)
    if fn: v = gc_of(v)
    eng.check(_real[key][c] == v, "shipped table: every code point of a range has the range's value")


EDGES = (0, 1, 0x1F, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10801, 0x1F7FF, 0xE0000, 0xE0800, 0x10FFFF)


def tasks_T02(tier):
    from check import Task, code_point_cubes
    out = []
    bases = (0x0, 0x7C0, 0xD7C0, 0xDBC0, 0xDFC0, 0xFFC0, 0x107C0, 0x10FF80)
    q = tier == "quick"
    for b in bases:
        for null in (True, False):
            if q:
                out.append(task("utrie_enum_blocks", b, 3, (0, 1, 33), (64, 95, 96), False, null, logic="INT", weight=30))
            else:
                for s0 in (0, 1, 31, 32, 33, 63, 64):
                    for l0 in (33, 65, 96, 127, 128):
                        if s0 < l0: out.append(task("utrie_enum_blocks", b, 4, (s0,), (l0,), False, null, logic="INT", weight=20))
        if q: out.append(task("utrie_enum_blocks", b, 4, (0,), (128,), False, True, logic="INT", weight=20))
        out.append(task("utrie_enum_blocks", b, 2 if q else 3, (0,), (64, 63) if q else (96, 95), True, True, weight=20))
        for pat in (("NABB",) if q else ("NABB", "BNNA", "AANB", "BBAN")):
            out.append(task("utrie_enum_points", b, (0, 40 if q else 65), (31, 1), pat, logic="INT", weight=20))
            out.append(task("utrie_enum_points", b, (1, 1), (0, 40 if q else 65), pat, logic="INT", weight=20))
            if not q: out.append(task("utrie_enum_points", b, (24, 18), (24, 18), pat, logic="INT", weight=50))
    for b, far in ((0x7C0, 32), (0x10800, 0), (0xD7C0, 65)): out.append(task("utrie_interleaved", b, far, logic="INT", weight=20))
    for far in (0, 0x800, 0x820): out.append(task("utrie_interleaved_index2", far, logic="INT", weight=40))
    for style in ("uniform", "stepped"):
        if q:
            for s0, l0 in ((0, 0x17E1), (0x21, 0x1800)):
                out.append(task("utrie_enum_index2", TOP, 3, style, (s0,), (l0,), False, logic="INT", weight=60))
            out.append(task("utrie_enum_index2", 0x11000, 2, style, (0x800,), (0x17E1,), False, logic="INT", weight=30))
        else:
            for s0 in (0, 0x21, 0x7FF, 0x800):
                for l0 in (0x1000, 0x17E1, 0x1FFF, 0x2000):
                    out.append(task("utrie_enum_index2", TOP, 4, style, (s0,), (l0,), False, logic="INT", weight=200))
                    out.append(task("utrie_enum_index2", 0x11000, 2, style, (s0,), (l0,), False, logic="INT", weight=60))
    for hs in (0x10800, 0x20000, 0xE0800):
        out.append(task("const_high", hs, (-64, -1, 0, 1, 5), (-30, -1, 0, 1, 70, TOP), logic="INT", weight=30))
    for name in ("props", "vectors", "bidi", "case"):
        for fn in (False, True):
            if fn and name != "props": continue
            out.append(task("shape", name, fn, 0, TOP))
            out += code_point_cubes("real_values", (name, fn, 0, TOP))
    pairs = [(a, b) for i, a in enumerate(EDGES) for b in EDGES[i + 1:]]
    if tier == "quick": pairs = pairs[::5]
    for a, b in pairs: out.append(task("shape", "props", False, a, b))
    for a, b in pairs: out.append(task("edge_values", "props", a, b))
    return out


def edge_values(eng, name, a, b):
    """First and last code points of a sub-range of a shipped table agree with the full enumeration."""
    full, sub = real_ranges(name, False, 0, TOP), real_ranges(name, False, a, b)
    clip = [(range(max(a, q.start), min(b, q.stop)), v) for q, v in full if q.start < b and q.stop > a]
    eng.check(clip == sub, "shipped table: a sub-range enumerates like the full range clipped to it")


# ---------------------------------------------------------------- T03
NIDX, NDAT = 0x10000 + 64, 0x40000 + 128


def cptrie_get(eng, kind, part):
    index = eng.array("index", NIDX, 16)
    data = eng.array("data", NDAT, 32)
    index = index.with_({0: 0, 1: 64})           # ASCII is always linear
    hs = eng.int("highStart", 0, TOP >> 9) << 9
    fast = kind == 0
    fastMax = 0xFFFF if fast else 0xFFF
    t = CPTrie(index, data, kind, 1, 0x7FFF, 0xFFFFF, hs, 0)
    mark = fingerprint(t)
    cptrie_point(eng, "c", part, t, index, data, fast, fastMax, hs)
    if again(eng, t, mark): cptrie_point(eng, "second", pick(eng, "second part", CPARTS), t, index, data, fast, fastMax, hs)


CPARTS = ["ascii", "low", "high", "beyond"]


def cptrie_point(eng, name, part, t, index, data, fast, fastMax, hs):
    lo, hi = {"ascii": (0, 0x7F), "low": (0x80, fastMax), "high": (fastMax + 1, 0x10FFFF), "beyond": (TOP, 1 << 33)}[part]
    c = eng.int(name, lo, hi)
    got = eng.noraise("lookup does not fail", t.get, c)
    if part == "beyond": want = data[NDAT - 1]
    elif part == "ascii": want = data[c]
    elif part == "low": want = data[index[c >> 6] + (c & 63)]
    elif c >= hs: want = data[NDAT - 2]
    else:
        i2 = index[(c >> 14) + (1020 if fast else 64)] + ((c >> 9) & 31)
        i3 = index[i2]
        k = (c >> 4) & 31
        if i3 < 0x8000:
            block = index[i3 + k]
        else:
            g = (i3 - 0x8000) + (k >> 3) * 9
            j = k & 7
            top = (index[g] >> (14 - 2 * j)) & 3          # two bits per entry, most significant first
            block = (top << 16) + index[g + 1 + j]
        want = data[block + (c & 15)]
    eng.check(got == want, f"get: the value stored for the code point ({part})")


def tasks_T03(tier):
    return [task("cptrie_get", k, p, logic=None) for k in (0, 1) for p in ("ascii", "low", "high", "beyond")]


# ---------------------------------------------------------------- T04
def reload(eng, kind, width, nindex, ndata, symbolic_body):
    """createFromData on a serialized trie with symbolic header fields and body."""
    opt_null, opt_res = eng.int("nullHigh", 0, 15), eng.int("reserved", 0, 7)
    i3n, dn, shs = eng.int("index3NullOffset", 0, 0xFFFF), eng.int("dataNullLow", 0, 0xFFFF), eng.int("shiftedHighStart", 0, TOP >> 9)
    options = ((ndata >> 16) << 12) | (opt_null << 8) | (kind << 6) | (opt_res << 3) | width
    head = [0x33, 0x69, 0x72, 0x54]
    for v in (options, nindex, ndata & 0xFFFF, i3n, dn, shs): head += [v & 0xFF, v >> 8]
    w = {0: 2, 1: 4, 2: 1}[width]
    if symbolic_body:
        idx = [eng.int(f"i{k}", 0, 0xFFFF) for k in range(nindex)]
        dat = [eng.int(f"d{k}", 0, (1 << (8 * w)) - 1) for k in range(ndata)]
    else:
        idx = [(k * 7) & 0xFFFF for k in range(nindex)]
        dat = [(k * 3) & 0xFF for k in range(ndata)]
    body = []
    for v in idx: body += [v & 0xFF, v >> 8]
    for v in dat: body += [(v >> (8 * j)) & 0xFF for j in range(w)]
    tail = [0xAA] * 3                                       # data may be followed by other items
    raw = bytes(head + body + tail)
    t = CPTrie.createFromData(raw)
    eng.check(t.trieType == kind, "kind")
    eng.check(t.valueWidth == width, "value width")
    eng.check(t.index3NullOffset == i3n, "index-3 null offset")
    eng.check(t.dataNullOffset == (opt_null << 16) + dn, "data null offset")
    eng.check(t.highStart == shs << 9, "high limit")
    eng.check(eng.And(len(t.index) == nindex, *[t.index[k] == idx[k] for k in range(nindex)]) if symbolic_body else list(t.index) == idx, "index array")
    eng.check(eng.And(len(t.data) == ndata, *[t.data[k] == dat[k] for k in range(ndata)]) if symbolic_body else list(t.data) == dat, "data array")
    x = eng.int("x", TOP, TOP + 0x1000)
    eng.check(t.get(x) == dat[ndata - 1], "error value of the reloaded trie")
    if not symbolic_body: return
    c = eng.int("c", 0x10000, 0x10FFFF)
    if c >= t.highStart: eng.check(t.get(c) == dat[ndata - 2], "high value of the reloaded trie")
    if ndata >= 8:
        a = eng.int("a", 0, 7)
        eng.check(t.get(a) == dat[a], "ASCII values of the reloaded trie")


def tasks_T04(tier):
    out = []
    for width in (0, 1, 2):
        for kind in (0, 1):
            for ni, nd in ((1, 2), (3, 5), (4, 8)) + (((32, 48), (64, 128)) if tier == "thorough" else ()):
                out.append(task("reload", kind, width, ni, nd, True, weight=ni + nd))
            out.append(task("reload", kind, width, 40, 0x10000 + 3, False, weight=90))
            if tier == "thorough": out.append(task("reload", kind, width, 0xFFFF, 0x20000 + 7, False, weight=200))
    return out


# ---------------------------------------------------------------- T05
def ctable(eng, kind, hs, null):
    """A CPTrie with symbolic values.  Data: 128 ASCII, N (64), A (64), B (64), high, error."""
    nv, a1, a2, a3, b1, b2, hv = (eng.int(n, 0, 0xFFFF) for n in ("nv", "a1", "a2", "a3", "b1", "b2", "hv"))
    D = {"N": 128, "A": 192, "M": 192 + 32, "B": 256}
    data = [nv] * 128 + [nv] * 64 + [a1] * 16 + [a2] * 24 + [a3] * 24 + [b1] * 63 + [b2] + [hv, 0xEEEE]
    index = [0, 64] + [D["N"]] * ((1024 if kind == 0 else 64) - 2)
    n1 = 64 if kind == 0 else 68
    i1 = len(index)
    i2 = i1 + n1                    # two index-2 blocks
    i3 = i2 + 64                    # index-3: null, A (16-bit), B (18-bit, 36 entries), C
    I3 = {"N": i3, "A": i3 + 32, "C": i3 + 64, "B": (i3 + 96) | 0x8000}
    index += [i2] * n1 + [I3["N"]] * 64 + [D["N"]] * 32 + [D["N"]] * 64
    for g in range(4): index += [0] + [D["N"]] * 8
    index += [0] * 64
    p = dict(index=index, data=data, trieType=kind, valueWidth=0, index3NullOffset=I3["N"] if null else 0x7FFF,
             dataNullOffset=D["N"] if null else 0xFFFFF, highStart=hs, shifted12HighStart=(hs + 0xFFF) >> 12)
    return p, D, i1, i2, I3


def set16(index, i3block, k, block):
    """Entry k of an index-3 block, 16-bit or packed 18-bit."""
    if i3block < 0x8000: index[i3block + k] = block
    else: index[(i3block - 0x8000) + (k >> 3) * 9 + 1 + (k & 7)] = block


def cp_enum_fast(eng, kind, base, nslots, starts, limits, null):
    """Symbolic 64-blocks in the directly indexed part."""
    p, D, i1, i2, I3 = ctable(eng, kind, TOP, null)
    for k in range(nslots): p["index"][(base >> 6) + k] = D[pick(eng, f"slot{k}", "NAB")]
    if base == 0: p["index"][0:2] = [0, 64]
    cp_run(eng, p, base, starts, limits)


def cp_run(eng, p, base, starts, limits, far=TOP):
    t = CPTrie(**p)
    start = pick(eng, "start", [base + s for s in starts])
    limit = pick(eng, "limit", [min(TOP, base + s) for s in limits])
    eng.assume(start < limit)
    check_ranges(eng, list(t.enumerator(start, limit)), start, limit, t.get, far)


def cp_enum_small(eng, kind, base, packed, nslots, starts, limits, null):
    """Symbolic 16-blocks in the multi-stage part, from base (a multiple of 512) on; the fast block before is symbolic too."""
    p, D, i1, i2, I3 = ctable(eng, kind, TOP, null)
    index = p["index"]
    blk = I3["B"] if packed else I3["A"]
    index[i1 + ((base >> 14) - (4 if kind == 0 else 0))] = i2 + 32
    index[i2 + 32 + ((base >> 9) & 31)] = blk
    for k in range(nslots): set16(index, blk, k, D[pick(eng, f"slot{k}", "NAMB")])
    if (kind == 0 and base == 0x10000) or (kind == 1 and base == 0x1000):
        index[(base >> 6) - 1] = D[pick(eng, "before", "NAB")]
    cp_run(eng, p, base, starts, limits)


def cp_interleaved(eng, kind, base, far):
    p, D, i1, i2, I3 = ctable(eng, kind, TOP, True)
    p["index"][i1 + ((base >> 14) - (4 if kind == 0 else 0))] = i2 + 32
    p["index"][i2 + 32 + ((base >> 9) & 31)] = I3["A"]
    for k in range(4): set16(p["index"], I3["A"], k, D[pick(eng, f"slot{k}", "NA" if k & 1 else "MB")])
    interleaved(eng, CPTrie(**p), (base, base + 48), (base + far, base + 64))


def cp_interleaved_i3(eng, kind, base, far):
    """The same over whole index-3 blocks, each with one value throughout."""
    p, D, i1, i2, I3 = ctable(eng, kind, TOP, True)
    index = p["index"]
    last = D["B"] + 64
    p["data"][last:last] = [p["data"][D["B"]]] * 16                    # one more 16-block, of B's first value
    p["data"][D["A"]:D["A"] + 16] = [p["data"][D["A"]]] * 16
    for k in range(32): index[I3["A"] + k], index[I3["C"] + k] = D["A"], last
    index[i1 + ((base >> 14) - (4 if kind == 0 else 0))] = i2 + 32
    for k in range(3): index[i2 + 32 + ((base >> 9) & 31) + k] = I3[pick(eng, f"i3_{k}", "NAC")]
    interleaved(eng, CPTrie(**p), (base, base + 0x600), (base + far, base + 0x600))


def cp_enum_i3(eng, kind, base, nslots, starts, limits, null, hs=TOP):
    """Symbolic index-3 blocks: null, uniform, stepped 16-bit, packed 18-bit."""
    p, D, i1, i2, I3 = ctable(eng, kind, hs, null)
    index = p["index"]
    for k in range(32):
        index[I3["A"] + k] = D["A"]
        index[I3["C"] + k] = D["A"] if k != 31 else D["M"]
        set16(index, I3["B"], k, D["A"] if k < 9 else D["B"])
    for k in range(nslots):
        c = base + 512 * k
        index[i1 + ((c >> 14) - (4 if kind == 0 else 0))] = i2 + (32 if (c >> 14) == (base >> 14) else 0)
    for k in range(nslots):
        c = base + 512 * k
        index[i2 + (32 if (c >> 14) == (base >> 14) else 0) + ((c >> 9) & 31)] = I3[pick(eng, f"i3_{k}", "NACB" if k < 2 else "NA" if k > 2 else "NAC")]
    cp_run(eng, p, base, starts, limits)


def cp_high(eng, kind, hs, starts, limits, null):
    p, D, i1, i2, I3 = ctable(eng, kind, hs, null)
    index = p["index"]
    c = hs - 512
    if c >= (0x10000 if kind == 0 else 0x1000):
        index[i1 + ((c >> 14) - (4 if kind == 0 else 0))] = i2 + 32
        index[i2 + 32 + ((c >> 9) & 31)] = I3["A"]
        for k in (30, 31): index[I3["A"] + k] = D[pick(eng, f"slot{k}", "NAB")]
    else:
        index[(hs >> 6) - 1] = D[pick(eng, "slot", "NAB")]
    cp_run(eng, p, hs, starts, limits, max(hs, 0x10000) + 64)


_nfc = []


def nfc_trie():
    if not _nfc:
        m = Norm2NFCData
        _nfc.append(CPTrie(m.norm2_nfc_data_trieIndex, m.norm2_nfc_data_trieData, m.norm2_nfc_data_type, m.norm2_nfc_data_valueWidth,
                           m.norm2_nfc_data_index3NullOffset, m.norm2_nfc_data_dataNullOffset, m.norm2_nfc_data_highStart,
                           m.norm2_nfc_data_shifted12HighStart))
        if harness.SYMBOLIC:
            from symx.state import persist
            persist(_nfc[0])
    return _nfc[0]


def tasks_T05(tier):
    from check import code_point_cubes
    out = []
    q = tier == "quick"
    for null in (True, False):
        for kind, bases in ((0, (0, 0x80, 0xFC0, 0xD7C0, 0xFF00)), (1, (0, 0x80, 0xF00))):
            for b in bases:
                if q:
                    out.append(task("cp_enum_fast", kind, b, 3, (0, 70), (129, 192), null, logic="INT", weight=30))
                else:
                    for s0 in (0, 1, 63, 64, 65, 127):
                        for l0 in (64, 127, 128, 129, 192, 255, 256):
                            if s0 < l0: out.append(task("cp_enum_fast", kind, b, 4, (s0,), (l0,), null, logic="INT", weight=30))
        if q: pairs, ns = ((-64, 33), (-16, 48), (1, 47)), 3
        else: pairs, ns = [(s0, l0) for s0 in (-64, -49, -48, -16, -1, 0, 1, 15, 17) for l0 in (31, 33, 48, 63, 64)], 4
        for kind, bases in ((0, (0x10000, 0x10200, 0x14000, 0x10FE00)), (1, (0x1000, 0x1200, 0x4000, 0x10000, 0x10FE00))):
            for b in bases:
                for packed in (False, True):
                    for s0, l0 in (pairs if not q else pairs[:1] if packed == null else pairs[1:]):
                        out.append(task("cp_enum_small", kind, b, packed, ns, (s0,), (l0,), null, logic="INT", weight=20))
        if q: pairs, ns = ((0, 0x600), (0x201, 0x5FF)), 3
        else: pairs, ns = [(s0, l0) for s0 in (0, 1, 0x200, 0x201) for l0 in (0x5FF, 0x600, 0x7E1, 0x800)], 4
        for kind, bases in ((0, (0x10000, 0x13C00)), (1, (0x1000, 0x3C00, 0xFE00))):
            for b in bases:
                for s0, l0 in pairs:
                    out.append(task("cp_enum_i3", kind, b, ns, (s0,), (l0,), null, logic="INT", weight=50))
        for kind, hss in ((0, (0x10200, 0x20000, 0x10F000)), (1, (0x1200, 0x8000, 0x20000))):
            for hs in hss:
                out.append(task("cp_high", kind, hs, (-32, -1, 0, 1, 9), (-1, 0, 1, 40, TOP), null, logic="INT", weight=30))
    for kind, b, far in ((0, 0x14000, 16), (1, 0x4000, 0), (1, 0x10200, 33)): out.append(task("cp_interleaved", kind, b, far, logic="INT", weight=20))
    for kind, b, far in ((0, 0x14000, 0x200), (1, 0x4000, 0), (1, 0x10200, 0x210)): out.append(task("cp_interleaved_i3", kind, b, far, logic="INT", weight=20))
    out.append(task("shape", "nfc", False, 0, TOP))
    out += code_point_cubes("real_values", ("nfc", False, 0, TOP))
    pairs = [(a, b) for i, a in enumerate(EDGES) for b in EDGES[i + 1:]]
    if q: pairs = pairs[::5]
    for a, b in pairs:
        out.append(task("shape", "nfc", False, a, b))
        out.append(task("edge_values", "nfc", a, b))
    return out


def _b(q, t): return {"quick": q, "thorough": t}


TR = ["Trusted: z3 and the symx executor (every alarm is replayed concretely before it is reported)."]
PROPS = {
    "T01": dict(tasks=tasks_T01, assumptions=TR, bounds="every code point and every integer up to 2^33; index/data arrays of arbitrary content (262204 16-bit elements: every offset an entry can express); every highStart in 0x10000..0x110000, every indexLength and highValueIndex",
                outside="tables whose highStart lies in the BMP; truncated arrays", explain="UTrie2.get is executed on a symbolic code point over an arbitrary symbolic array and compared with the lookup the format prescribes, for each part of the code space.",
                expect=["get: the value stored for the code point (supp)", "get: the value stored for the code point (beyond)"]),
    "T02": dict(tasks=tasks_T02, assumptions=TR + ["Table contents satisfy the format: null blocks hold the initial value; highStart is a multiple of 0x800 and at least 0x10000."],
                bounds=_b("shipped tables: full enumeration for every code point, 31 edge pairs; arbitrary contents (every block kind, arbitrary 16-bit values): windows of 3 data blocks (9 start/limit pairs) and 4 data blocks at 8 structural boundaries, with and without null blocks; all 40 starts and all 40 limits near the ends of a 4-block window; 3 index-2 blocks; highStart boundaries; 6 pairs of interleaved enumerations of one table (over data blocks, over index-2 blocks)",
                          "153 edge pairs; 4-block windows with 27 start/limit pairs; 65 starts, 65 limits and an 18x18 grid over 4 patterns; 4 index-2 blocks with 16 start/limit pairs"),
                outside="block contents with more than one value change; windows longer than stated; value functions other than identity and a field extraction",
                explain="The real enumerator runs over tables with symbolic block kinds and values; contiguity, maximality and agreement with the real get() are decided by the solver on every path. For the shipped tables the enumeration is compared with get() for a symbolic code point.",
                expect=["shipped table: every code point of a range has the range's value", "neighbouring ranges have different values"]),
    "T03": dict(tasks=tasks_T03, assumptions=TR + ["ASCII data are linear (index[0]=0, index[1]=64), as the format requires."],
                bounds="every code point and integer up to 2^33, both kinds, both packings, arbitrary index (65600 entries) and data (262272 entries) contents, every highStart",
                outside="truncated arrays", explain="CPTrie.get on a symbolic code point over arbitrary symbolic arrays against the format's lookup.",
                expect=["get: the value stored for the code point (high)"]),
    "T04": dict(tasks=tasks_T04, assumptions=TR, bounds=_b("all header field values; index lengths 1,3,4 and data lengths 2,5,8 with arbitrary body; plus data length 65539 with a fixed body", "also index/data lengths 32/48, 64/128 arbitrary and 65535/131079 fixed"),
                outside="other lengths; big-endian files", explain="createFromData is executed on symbolic bytes; every recovered parameter must equal the encoded one.",
                expect=["data null offset", "data array"]),
    "T05": dict(tasks=tasks_T05, assumptions=TR + ["Table contents satisfy the format: null blocks hold the null value; with small highStart the directly indexed part is consistent."],
                bounds=_b("shipped table fully; arbitrary contents: windows of 3 64-blocks, 16-blocks and index-3 blocks at structural boundaries for both kinds and packings, with and without null blocks, 1 to 4 start/limit pairs each; highStart boundaries; 6 pairs of interleaved enumerations", "windows of 4, 16 to 45 start/limit pairs, 153 edge pairs"),
                outside="block contents with more than two value changes; longer windows", explain="As T02, for CPTrie.enumerator.",
                expect=["every code point of a range has the range's value"]),
}
