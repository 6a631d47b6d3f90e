"""D01, D02: the data package reader and the layout properties.  Packages are synthetic; the real file is not in the tree."""
from harness import icudata
from harness.icudata import u16, u32, cstr
from harness.tries import pick
from harness.names import twice

TOP = 0x110000


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


# ---------------------------------------------------------------- D01
FIELDS = (("magic1", 2, 1), ("magic2", 3, 1), ("infoSize", 4, 2), ("reservedWord", 6, 2), ("isBigEndian", 8, 1), ("charsetFamily", 9, 1),
          ("sizeofUChar", 10, 1), ("reservedByte", 11, 1), ("dataFormat", 12, 4), ("fvMajor", 16, 1), ("fvMinor", 17, 1), ("fvMilli", 18, 1),
          ("fvMicro", 19, 1), ("dvMajor", 20, 1), ("dvMinor", 21, 1), ("dvMilli", 22, 1), ("dvMicro", 23, 1))


def raw_package(header_length, names, offsets, body, name_at=None, fill=0x41):
    """A package whose table of contents gives these names and data offsets; then the body.  Returns (bytes, offset of the body)."""
    toc = 4 + 8 * len(names)
    text, at = [], []
    for n in names:
        at.append(toc + len(text))
        text += n + [0]
    out = u32(len(names))
    for a, o in zip(at, offsets): out += u32(a) + u32(o)
    out += text
    start = len(out)
    return icudata.header(header_length, "CmnD", fill=[fill] * header_length) + out + list(body), start


def values_of(item):
    return {n: item[p] if w == 1 else item[p] + item[p + 1] * 256 if w == 2 else item[p:p + 4] for n, p, w in FIELDS}


def same_header(eng, got, item, label):
    eng.check(got.headerLength == item[0] + item[1] * 256, label)
    for n, v in values_of(item).items():
        g = getattr(got, n)
        if n == "dataFormat": eng.check(len(g) == 4 and eng.And(True, *[x == y for x, y in zip(g, v)]), label)
        else: eng.check(g == v, label)


NAMES = {"a": "icudt67l/unames.icu", "b": "icudt67l/curr/pool.res", "c": "x/y", "d": "/nfkc.nrm", "e": "icudt67l/brkitr/root/char.brk", "f": "p/", "g": "a/a/a"}


def directory(eng, header_length, which, gaps):
    """Every item is found under its name, with its own header; offsets are symbolic."""
    names = [[ord(x) for x in NAMES[w]] for w in which]
    items = [[eng.int(f"{w} byte {k}", 0, 255) for k in range(24)] for w in which]
    # the items may stand in any order in the body
    order = [int(k) for k in pick(eng, "order", {1: ["0"], 2: ["01", "10"], 3: ["012", "210", "120"]}[len(which)])]
    probe, start = raw_package(header_length, names, [0] * len(names), [])
    body, offsets = [], [0] * len(names)
    for j, k in enumerate(order):
        body += [0xEE] * gaps[j % len(gaps)]
        offsets[k] = start + len(body)
        body += items[k]
    data, _ = raw_package(header_length, names, offsets, body)
    with icudata.fresh(icudata.as_bytes(data), "ICUDataFile") as m:
        d = eng.noraise("the package can be read", m.ICUData)
        for w, item, off in zip(which, items, offsets):
            short = NAMES[w].split("/", 1)[1]
            got = eng.noraise("an item is found", d.getDataOffsetAndHeader, short)
            eng.check(got[0] == off + header_length, "an item is found where the table puts it")
            eng.check(d.getDataOffset(short) == off + header_length, "an item is found where the table puts it")
            same_header(eng, got[1], item, "the header of the item is decoded")
        try:
            d.getDataOffset("nothing.icu")
            eng.fail("an item that is not listed is not found")
        except KeyError:
            pass


def offsets(eng, header_length, which):
    """Any data offsets and any package header length field contents beyond the minimum."""
    names = [[ord(x) for x in NAMES[w]] for w in which]
    offs = [eng.int(f"offset {w}", 0, 0xFFFFFFFF) for w in which]
    data, _ = raw_package(header_length, names, offs, [0] * 40, fill=eng.int("fill", 0, 255))
    with icudata.fresh(icudata.as_bytes(data), "ICUDataFile") as m:
        d = eng.noraise("the package can be read", m.ICUData)
        for w, o in zip(which, offs):
            eng.check(d.getDataOffset(NAMES[w].split("/", 1)[1]) == o + header_length, "any offset: an item is found where the table puts it")


def item_names(eng, n, at):
    """Any names: the prefix up to the first slash is removed, nothing else."""
    chars = [eng.int(f"c{k}", 1, 127) for k in range(n)]
    for c in chars: eng.assume(eng.Or(c == 47, c == 46, c == 97, c == 122))
    for k in range(at): eng.assume(chars[k] != 47)
    eng.assume(chars[at] == 47)
    data, start = raw_package(32, [[ord(x) for x in "p/zz"], chars], [100, 200], [0] * 300)
    want = "".join([chr(x) for x in chars[at + 1:]])
    eng.assume(want != "zz")
    with icudata.fresh(icudata.as_bytes(data), "ICUDataFile") as m:
        d = eng.noraise("the package can be read", m.ICUData)
        got = eng.noraise("an item is found", d.getDataOffset, want)
        eng.check(got == 232, "an item is listed under its name without the package prefix")
        eng.check(d.getDataOffset("zz") == 132, "an item is listed under its name without the package prefix")


def raw_data(eng, n):
    """getData and getString return exactly the bytes of the file."""
    extra = [eng.int(f"x{k}", 0, 255) for k in range(n)]
    data, start = raw_package(32, [[ord(x) for x in "p/q"]], [0], extra)
    with icudata.fresh(icudata.as_bytes(data), "ICUDataFile") as m:
        d = eng.noraise("the package can be read", m.ICUData)
        a, b = eng.int("a", 0, len(data)), eng.int("b", 0, len(data))
        eng.assume(eng.And(a <= b, b - a <= 24))
        got = eng.noraise("data access does not fail", d.getData, a, b)
        content = tuple(data)
        eng.check(len(got) == b - a, "exactly the requested bytes")
        eng.check(eng.And(True, *[x == content[a + k] for k, x in enumerate(got)]), "exactly the requested bytes")


def text_at(eng, n, at):
    """getString reads up to the zero byte."""
    extra = [eng.int(f"x{k}", 0, 127) for k in range(n)]
    data, start = raw_package(32, [[ord(x) for x in "p/q"]], [0], extra + [0])
    with icudata.fresh(icudata.as_bytes(data), "ICUDataFile") as m:
        got = eng.noraise("reading a string does not fail", m.ICUData().getString, len(data) - 1 - n + at)
        want = []
        k = at
        while k < n and extra[k] != 0:
            want.append(extra[k])
            k += 1
        eng.check(len(got) == len(want) and eng.And(True, *[ord(x) == y for x, y in zip(got, want)]), "a string ends at the zero byte")


def tasks_D01(tier):
    q = tier == "quick"
    t = [task("directory", h, w, g) for h in ((24, 32, 40) if q else (24, 26, 32, 40, 48, 64, 96, 256, 1000))
         for w, g in (("a", [0]), ("ab", [8]), ("bd", [3, 0]), ("aeg", [16, 0, 5]), ("cfd", [0]))]
    t += [task("offsets", h, w) for h in (24, 32, 80) for w in ("a", "ab", "abceg")]
    t += [task("item_names", n, at) for n in ((1, 2, 4) if q else range(1, 6)) for at in range(n)]
    t += [task("raw_data", 12, weight=20)] + [task("text_at", n, at) for n in (0, 1, 4) for at in range(n + 1)]
    return t


# ---------------------------------------------------------------- D02
def table(eng, tag, kind, width, where, nvals):
    """A trie with symbolic values for 64 (fast) code points from `where` on; (bytes, value of a code point of these)."""
    top = {0: 0xFFFF, 1: 0xFFFFFFFF, 2: 0xFF}[width]
    vals = [eng.int(f"{tag} value {k}", 0, top) for k in range(nvals)]
    return icudata.cptrie(kind, width, *shape(kind, where, vals)), vals


def shape(kind, where, vals):
    index = [0, 64] + [128] * ((1024 if kind == 0 else 64) - 2)
    index[where >> 6] = 192
    data = [1] * 192 + [vals[k * len(vals) // 64] for k in range(64)] + [7, 8]
    return index, data


def layout(eng, header_length, count, kinds, widths, where, pads):
    """Three tables of different kinds and sizes after the indexes."""
    tries, vals = [], []
    for k, tag in enumerate(("InPC", "InSC", "vo")):
        b, v = table(eng, tag, kinds[k], widths[k], where, 2 + k)
        while len(b) % 16 or pads[k] and len(b) % 64: b.append(0)
        tries.append(b)
        vals.append(v)
    ix = [0] * count
    ix[0] = count
    at = count * 4
    for k, b in enumerate(tries):
        at += len(b)
        ix[k + 1] = at
    for k in range(4, count): ix[k] = at if k < 8 else 0
    item = icudata.header(header_length, "Layo")
    for v in ix: item += u32(v)
    for b in tries: item += b
    data = icudata.as_bytes(icudata.package({"ulayout.icu": item, "aa.icu": icudata.header(40), "zz.icu": icudata.header(24)}, header_length=header_length + 16))
    with icudata.fresh(data, "LayoutProps") as m:
        def ask(tag):
            c = eng.int(tag + "c", 0, TOP - 1)
            inside = eng.And(c >= where, c < where + 64)
            for fn, v, k in (("getInPC", vals[0], 0), ("getInSC", vals[1], 1), ("getVO", vals[2], 2)):
                got = eng.noraise("lookup does not fail", getattr(m, fn), c)
                index, stored = shape(kinds[k], where, v)
                if inside: eng.check(got == tuple(stored[192:256])[c - where], f"{fn}: the value in its own table")
                else: eng.check(got == 1 or got == 7 or got == 8, f"{fn}: the value in its own table elsewhere")
        twice(eng, m, ask)


def tasks_D02(tier):
    q = tier == "quick"
    t = []
    for h in (32, 48) if q else (24, 32, 40, 48, 64):
        for count, kinds, widths, where, pads in ((12, (0, 0, 0), (0, 0, 0), 0x900, (0, 0, 0)), (12, (0, 1, 0), (2, 0, 1), 0xC0, (1, 0, 0)),
                                                  (16, (1, 1, 0), (0, 2, 2), 0xE80, (0, 1, 1)), (8, (1, 0, 1), (1, 1, 0), 0x200, (0, 1, 0))):
            t.append(task("layout", h, count, kinds, widths, where, pads, weight=10))
    return t


SYNTHETIC = "the real data file is not part of the tree: open() of the data file is answered with a synthetic package; fontTools' sstruct is executed symbolically through its format strings"

PROPS = {
    "D01": dict(tasks=tasks_D01, assumptions=[SYNTHETIC, "package files are little-endian, as the reader's native byte order; item names are ASCII and contain the prefix separator"],
                bounds={"quick": "packages of 1..3 (5) items; header lengths 24, 32, 40, 80; any item header bytes; any 32-bit data offsets; names of 1..4 characters out of four (letters, dot, separator) with the first separator at any place; "
                                 "any byte ranges up to 24 bytes of a package; strings of up to 4 bytes",
                        "thorough": "nine header lengths from 24 to 1000; names up to 5 characters"},
                outside="larger directories; header lengths other than the listed ones; damaged packages",
                explain="ICUDataFile imported over a package whose bytes are symbolic; directory entries, headers, raw data and strings against the bytes that were written",
                expect=["an item is found where the table puts it", "any offset: an item is found where the table puts it", "the header of the item is decoded",
                        "an item is listed under its name without the package prefix", "exactly the requested bytes", "a string ends at the zero byte"]),
    "D02": dict(tasks=tasks_D02, assumptions=[SYNTHETIC, "the first table starts right after the indexes, as the format prescribes"],
                bounds="all code points; any values for 64 code points in each of the three tables; every mix of two table kinds and three value widths listed; index lengths 8, 12, 16; header lengths 32, 48 (quick), five of them (thorough)",
                outside="other index and header lengths; tables with more than one non-default block (T03, T04 cover the table lookup itself)",
                explain="LayoutProps imported over a package whose item holds three tables of symbolic values; the lookups on a symbolic code point against these values",
                expect=["getInPC: the value in its own table", "getInSC: the value in its own table", "getVO: the value in its own table"]),
}
