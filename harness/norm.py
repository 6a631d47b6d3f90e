"""N01..N04: Normalizer2."""
from harness import icudata, refdata
from harness.tries import pick

TOP = 0x110000
S_BASE, L_BASE, V_BASE, T_BASE, V_COUNT, T_COUNT, S_COUNT = 0xAC00, 0x1100, 0x1161, 0x11A7, 21, 28, 11172


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


def normalizer():
    return icudata.fixed("norm", icudata.nrm_package, "Normalizer2")


def nfc(): return normalizer().nfcTrie


def hangul_parts(eng, c):
    """(leading, vowel, trailing or the trailing base)"""
    s = c - S_BASE
    return L_BASE + s // (V_COUNT * T_COUNT), V_BASE + s % (V_COUNT * T_COUNT) // T_COUNT, T_BASE + s % T_COUNT


def expect(eng, name, c):
    """The reference decomposition of c as a list of codes (None if there is none); Hangul by arithmetic."""
    if eng.And(c >= S_BASE, c < S_BASE + S_COUNT):
        l, v, t = hangul_parts(eng, c)
        if t == T_BASE: return [l, v]
        return [l, v, t] if name == "nfd" else [c - (t - T_BASE), t]
    n = refdata.sparse_table(name, lambda c, l: len(l), 0, "len")[c]
    out = []
    while not n == len(out):
        i = len(out)
        out.append(refdata.sparse_table(name, lambda c, l: l[i] if i < len(l) else 0, 0, ("abs", i))[c])
    return out or None


def same(eng, got, want, what):
    eng.check((got is None) == (want is None), f"{what}: reported exactly where Unicode 13 has one")
    if want is None: return
    eng.check(len(got) == len(want), f"{what}: number of characters")
    eng.check(eng.And(True, *[ord(g) == w for g, w in zip(got, want)]), f"{what}: the Unicode 13 characters")


def full(eng, c):
    got = eng.noraise("decomposition does not fail", nfc().getDecomposition, c)
    same(eng, got, expect(eng, "nfd", c), "full decomposition")
    for x in got or ():
        eng.check(eng.noraise("decomposition does not fail", nfc().getDecomposition, ord(x)) is None, "no character of a full decomposition decomposes")


def expand(eng, c):
    r = eng.noraise("raw decomposition does not fail", nfc().getRawDecomposition, c)
    if r is None: return [c]
    out = []
    for x in r: out += expand(eng, ord(x))
    return out


def raw(eng, c):
    got = eng.noraise("raw decomposition does not fail", nfc().getRawDecomposition, c)
    same(eng, got, expect(eng, "raw", c), "raw decomposition")
    if got is not None:
        want = expect(eng, "nfd", c)
        ex = expand(eng, c)
        eng.check(want is not None and len(ex) == len(want), "expanded raw decomposition: number of characters")
        eng.check(eng.And(True, *[a == b for a, b in zip(ex, want)]), "expanded raw decomposition is the full one")


# ---------------------------------------------------------------- N03
def hangul(eng, lo, hi):
    c = eng.int("c", lo, hi)
    n = nfc()
    l, v, t = hangul_parts(eng, c)
    f = eng.noraise("decomposition does not fail", n.getDecomposition, c)
    r = eng.noraise("raw decomposition does not fail", n.getRawDecomposition, c)
    eng.check(f is not None and r is not None, "every syllable decomposes")
    lv = t == T_BASE
    eng.check(len(r) == 2, "raw: two characters")
    if lv:
        eng.check(len(f) == 2, "an LV syllable decomposes into two jamo")
        eng.check(eng.And(ord(r[0]) == l, ord(r[1]) == v), "raw: an LV syllable decomposes into its jamo")
    else:
        eng.check(len(f) == 3, "an LVT syllable decomposes into three jamo")
        eng.check(eng.And(ord(r[0]) == c - (t - T_BASE), ord(r[1]) == t), "raw: an LVT syllable decomposes into its LV syllable and the trailing jamo")
        eng.check(ord(f[2]) == t, "the trailing jamo")
    eng.check(eng.And(ord(f[0]) == l, ord(f[1]) == v), "the leading and the vowel jamo")
    li, vi = ord(f[0]) - L_BASE, ord(f[1]) - V_BASE
    ti = 0 if lv else ord(f[2]) - T_BASE
    eng.check(S_BASE + (li * V_COUNT + vi) * T_COUNT + ti == c, "recomposing the full decomposition gives the syllable")
    if not lv: eng.check(ord(r[0]) + (ord(r[1]) - T_BASE) == c, "recomposing the raw decomposition gives the syllable")


def tasks_N03(tier):
    step = 588 * 2
    return [task("hangul", S_BASE + k, min(S_BASE + S_COUNT, S_BASE + k + step) - 1) for k in range(0, S_COUNT, step)]


# ---------------------------------------------------------------- N04
IX = {"minDecompNoCP": 8, "minCompNoMaybeCP": 9, "minYesNo": 10, "minNoNo": 11, "limitNoNo": 12, "minMaybeYes": 13,
      "minYesNoMappingsOnly": 14, "minNoNoCompBoundaryBefore": 15, "minNoNoCompNoMaybeCC": 16, "minNoNoEmpty": 17, "minLcccCP": 18}
ORDER = ("minYesNo", "minYesNoMappingsOnly", "minNoNo", "minNoNoCompBoundaryBefore", "minNoNoCompNoMaybeCC", "minNoNoEmpty", "limitNoNo")


class Stored:
    """A trie that holds n1 for one code point and n2 for the others."""
    def __init__(self, eng, c, n1, n2): self.eng, self.c, self.n1, self.n2 = eng, c, n1, n2
    def get(self, x): return self.eng.Ite(x == self.c, self.n1, self.n2)


def thresholds(eng):
    """Symbolic thresholds in the order that the format prescribes."""
    maybe = pick(eng, "minMaybeYes", [0xFC00, 0xFBF0, 0xF000])
    t = {"minMaybeYes": maybe, "minDecompNoCP": eng.int("minDecompNoCP", 0, 0xFFFF), "minCompNoMaybeCP": eng.int("minCompNoMaybeCP", 0, 0xFFFF),
         "minLcccCP": eng.int("minLcccCP", 0, 0xFFFF)}
    for k in ORDER: t[k] = eng.int(k, 2, maybe)
    for a, b in zip(ORDER, ORDER[1:]): eng.assume(t[a] <= t[b])
    eng.assume(eng.And(t["minYesNo"] & 1 == 0, t["minYesNoMappingsOnly"] & 1 == 0, t["minYesNo"] < t["minYesNoMappingsOnly"], (t["minYesNoMappingsOnly"] | 1) < t["limitNoNo"]))
    ix = [0] * 20
    for k, v in t.items(): ix[IX[k]] = v
    return t, ix


def build(eng, ix, trie, content):
    start = (0xFC00 - ix[IX["minMaybeYes"]]) >> 1
    return normalizer().Normalizer2(trie, ix, tuple([0] * start + content))


def shapes(n):
    """The ways to cut n units into characters of one and two units (for long strings: at most one pair)."""
    if n > 4: return [[1] * n] + [[1] * k + [2] + [1] * (n - k - 2) for k in range(n - 1)]
    if n <= 0: return [[]] if n == 0 else []
    return [[1] + r for r in shapes(n - 1)] + [[2] + r for r in shapes(n - 2)]


def utf16(eng, name, units):
    """Assume that the units are well-formed UTF-16; returns the characters."""
    out, k = [], 0
    for m in pick(eng, name, shapes(len(units))):
        u = units[k]
        if m == 1:
            eng.assume(eng.Or(u < 0xD800, u > 0xDFFF))
            out.append(u)
        else:
            v = units[k + 1]
            eng.assume(eng.And(u >= 0xD800, u <= 0xDBFF, v >= 0xDC00, v <= 0xDFFF))
            out.append(0x10000 + (u - 0xD800) * 0x400 + (v - 0xDC00))
        k += m
    return out


def answers(eng, n, c, wantf, wantr, what):
    """Both decompositions; "skip" leaves one out."""
    for fn, want, label in ((n.getDecomposition, wantf, "decomposition"), (n.getRawDecomposition, wantr, "raw decomposition")):
        if want == "skip": continue
        got = eng.noraise(f"{label} does not fail", fn, c)
        label = f"{what}: {label} as the format prescribes"
        eng.check((got is None) == (want is None) and (got is None or len(got) == len(want)), label)
        if want is not None: eng.check(eng.And(True, *[ord(g) == w for g, w in zip(got, want)]), label)


def decode_none(eng, why):
    t, ix = thresholds(eng)
    c, n1 = eng.int("c", 0, TOP - 1), eng.int("norm16", 0, 0xFFFF)
    if why == "below": eng.assume(c < t["minDecompNoCP"])
    elif why == "lead": eng.assume(eng.And(c >= 0xD800, c <= 0xDBFF))
    else:
        eng.assume(eng.Or(c < 0xD800, c > 0xDBFF))
        eng.assume(n1 >= t["minMaybeYes"] if why == "maybe" else n1 < t["minYesNo"])
    answers(eng, build(eng, ix, Stored(eng, c, n1, n1), [0] * 8), c, None, None, "no mapping")


def decode_hangul(eng, lvt):
    t, ix = thresholds(eng)
    c = eng.int("c", S_BASE, S_BASE + S_COUNT - 1)
    eng.assume(c >= t["minDecompNoCP"])
    l, v, tr = hangul_parts(eng, c)
    eng.assume((tr != T_BASE) == lvt)
    n1 = (t["minYesNoMappingsOnly"] | 1) if lvt else t["minYesNo"]
    eng.assume(n1 < t["limitNoNo"])
    full = [l, v, tr] if lvt else [l, v]
    answers(eng, build(eng, ix, Stored(eng, c, n1, 0), [0] * 8), c, full, [c - (tr - T_BASE), tr] if lvt else full, "syllable")


def mapped(eng, t, ix):
    """A code point with an algorithmic mapping: (code point, its value, the mapped code point)."""
    c, n1 = eng.int("c", 0, TOP - 1), eng.int("norm16", 0, 0xFFFF)
    eng.assume(eng.And(c >= t["minDecompNoCP"], eng.Or(c < 0xD800, c > 0xDBFF), n1 >= t["limitNoNo"], n1 < t["minMaybeYes"]))
    d = c + (n1 >> 3) - ((t["minMaybeYes"] >> 3) - 0x40 - 1)
    eng.assume(eng.And(d >= 0, d < TOP, d != c))
    return c, n1, d


def decode_algorithmic(eng, then):
    """One-character mapping by a delta; the mapped character may decompose further."""
    t, ix = thresholds(eng)
    c, n1, d = mapped(eng, t, ix)
    n2 = eng.int("norm16 of the mapped character", 0, 0xFFFF)
    base = 12
    content = [0] * base + [eng.bits(f"w{k}", 0, 16) for k in range(8)]
    if then == "stop":
        eng.assume(n2 < t["minYesNo"])
        full = [d]
    elif then == "hangul":
        eng.assume(eng.And(d >= S_BASE, d < S_BASE + S_COUNT))
        l, v, tr = hangul_parts(eng, d)
        full = [l, v] if tr == T_BASE else [l, v, tr]
        eng.assume(n2 == (t["minYesNo"] if tr == T_BASE else t["minYesNoMappingsOnly"] | 1))
    else:
        eng.assume(eng.And(n2 > t["minYesNo"], n2 < t["limitNoNo"], n2 >> 1 == base, n2 != t["minYesNoMappingsOnly"] | 1))
        eng.assume(content[base] & 31 == then)
        full = utf16(eng, "shape", content[base + 1:base + 1 + then])
    answers(eng, build(eng, ix, Stored(eng, c, n1, n2), content), c, full, [d], "algorithmic mapping")


def record_value(eng, t, base):
    """A value that points to the record at the given word."""
    c, n1 = eng.int("c", 0, TOP - 1), eng.int("norm16", 0, 0xFFFF)
    eng.assume(eng.And(c >= t["minDecompNoCP"], eng.Or(c < 0xD800, c > 0xDBFF)))
    eng.assume(eng.And(n1 >> 1 == base, n1 > t["minYesNo"], n1 != t["minYesNoMappingsOnly"] | 1, n1 < t["limitNoNo"]))
    return c, n1


def decode_record(eng, base, n, kind, m):
    """kind: 'same' (no raw mapping of its own), 'explicit' (m units before the record), 'short' (first two units replaced)."""
    t, ix = thresholds(eng)
    c, n1 = record_value(eng, t, base)
    content = [0] * (base + 34)
    for k in range(max(0, base - 34), base + 34): content[k] = eng.bits(f"w{k - base}", 0, 16)
    first = content[base]
    eng.assume(first & 31 == n)
    mapping = content[base + 1:base + 1 + n]
    if kind == "same":
        eng.assume(first & 0x40 == 0)
        full = raw = utf16(eng, "shape", mapping)
        if n == 0: raw = "skip"
    else:
        eng.assume(first & 0x40 != 0)
        at = base - (2 if (first & 0x80) != 0 else 1)
        if kind == "explicit":
            eng.assume(content[at] == m)
            full = utf16(eng, "shape", mapping) if n <= 2 else "skip"
            raw = utf16(eng, "raw shape", content[at - m:at])
        else:
            rm0 = content[at]
            eng.assume(eng.And(rm0 > 31, eng.Or(rm0 < 0xD800, rm0 > 0xDFFF)))
            full = utf16(eng, "shape", mapping) if n <= 4 else "skip"
            raw = [rm0] + utf16(eng, "raw shape", mapping[2:])
    answers(eng, build(eng, ix, Stored(eng, c, n1, 0), content), c, full, raw,
            {"same": "mapping", "explicit": "explicit raw mapping", "short": "abbreviated raw mapping"}[kind])


def decode_anywhere(eng, n):
    """A record at any place of the data (an array of arbitrary content)."""
    t, ix = thresholds(eng)
    eng.assume(t["minMaybeYes"] == 0xFC00)
    c, n1 = eng.int("c", 0, TOP - 1), eng.int("norm16", 0, 0xFFFF)
    eng.assume(eng.And(c >= t["minDecompNoCP"], eng.Or(c < 0xD800, c > 0xDBFF)))
    eng.assume(eng.And(n1 > t["minYesNo"], n1 != t["minYesNoMappingsOnly"] | 1, n1 < t["limitNoNo"]))
    extra = eng.array("extra", 0x8000, 16)
    at = n1 >> 1
    eng.assume(extra[at] & 0x5F == n)
    full = utf16(eng, "shape", [extra[at + 1 + k] for k in range(n)])
    norm = normalizer().Normalizer2(Stored(eng, c, n1, 0), ix, Whole(extra))
    answers(eng, norm, c, full, full if n else "skip", "mapping")


class Whole:
    """Extra data without a part for compositions: the slice from 0 on is the array itself."""
    def __init__(self, a): self.a = a
    def __len__(self): return len(self.a)
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is None and (i.start is None or i.start == 0): return self
            return ()
        return self.a[i]


# data in the file against the same data passed directly
WHERE = (0xC0, 0x300, 0x1100, 0x4E00)     # 64 code points each get the symbolic values


def file_item(eng, tag, trie_kind, header_length, count, maybe, where):
    """An .nrm item with symbolic values, and the direct object of the same content."""
    vals = [eng.int(f"{tag} value {k}", 0, 0xFFFF) for k in range(3)]
    words = [eng.bits(f"{tag} word {k}", 0, 16) for k in range(3)]
    index = [0, 64] + [128] * ((1024 if trie_kind == 0 else 64) - 2)
    index[where >> 6] = 192
    data = [1] * 192 + [vals[0]] + [vals[1]] * 30 + [vals[2]] * 33 + [1, 1]
    start = (0xFC00 - maybe) >> 1
    extra = [(0x3000 + k) & 0xFFFF for k in range(start)]
    # two records: a mapping of up to three symbolic units, and one with an explicit raw mapping before it
    extra += [0, 0, 0, 3, words[0], words[1], words[2], 0x41, 0x42, 2, 0x42, 0x61, 0x301, 0x302, 0, 0]
    lim = 2 * 14
    ix = {8: 0xC0, 9: 0x300, 10: 4, 11: 8, 12: lim, 13: maybe, 14: 6, 15: 8, 16: 8, 17: lim, 18: 0xC0}
    for v in vals: eng.assume(eng.Or(v < 4, v >> 1 == 3, v >> 1 == 10, v >= maybe, eng.And(v >= maybe - 8 * 0x81, v < maybe)))
    for w in words: eng.assume(eng.Or(w < 0xD800, w > 0xDFFF))
    item = icudata.nrm(icudata.cptrie(trie_kind, 0, index, data, 0), extra, ix, header_length=header_length, count=count)
    ixs = [0] * 20
    for k, v in ix.items(): ixs[k] = v
    return item, (index, data, ixs, extra, vals)


def direct(parts, trie_kind, CPTrie, norm):
    index, data, ixs, extra, _ = parts
    return norm.Normalizer2(CPTrie(tuple(index), tuple(data), trie_kind, 0, 0x7FFF, 0xFFFFF, 0, 0), ixs, tuple(extra))


def from_file(eng, header_length, count, maybe, kinds, where):
    from UnicodeData.CPTrie import CPTrie
    a, pa = file_item(eng, "nfkc", kinds[0], header_length, count, maybe, where)
    b, pb = file_item(eng, "nfkc_cf", kinds[1], header_length + 16, count + 4, maybe - 16, where)
    blob = icudata.as_bytes(icudata.nrm_package(a, b, header_length=header_length))
    c = eng.int("c", where, where + 63)
    # the character that an algorithmic value maps to has no mapping itself
    for parts in (pa, pb):
        top = parts[2][13]
        for v in parts[4]:
            d = c + (v >> 3) - ((top >> 3) - 0x41)
            eng.assume(eng.Or(v < top - 8 * 0x81, v >= top, d < where, d > where + 63))
    wants = {}
    for parts, kind, name in ((pa, kinds[0], "nfkc"), (pb, kinds[1], "nfkc_cf")):     # each in a module of its own
        with icudata.fresh(blob, "Normalizer2") as norm:
            ref = direct(parts, kind, CPTrie, norm)
            for fn in ("getDecomposition", "getRawDecomposition"): wants[name, fn] = getattr(ref, fn)(c)
    with icudata.fresh(blob, "Normalizer2") as norm:
        for got, name in ((norm.nfkcTrie, "nfkc"), (norm.nfkc_cfTrie, "nfkc_cf")):
            for fn in ("getDecomposition", "getRawDecomposition"):
                want = wants[name, fn]
                res = eng.noraise("decomposition from loaded data does not fail", getattr(got, fn), c)
                label = f"{name}: data from the file behave like the same data passed directly"
                eng.check((res is None) == (want is None) and (res is None or len(res) == len(want)), label)
                if want is not None: eng.check(eng.And(True, *[ord(x) == ord(y) for x, y in zip(res, want)]), label)


def tasks_N04(tier):
    q = tier == "quick"
    t = [task("decode_none", w) for w in ("below", "lead", "maybe", "yes")] + [task("decode_hangul", x) for x in (False, True)]
    t += [task("decode_algorithmic", x) for x in (["stop", "hangul", 1, 3] if q else ["stop", "hangul", 0, 1, 2, 3, 4, 5])]
    for base in (40, 0x1234) if q else (36, 40, 0x1234, 0x7000):
        for n in (0, 1, 2, 3, 4, 31) if q else range(32): t.append(task("decode_record", base, n, "same", 0, weight=n + 1))
        for m in ((1, 2, 3, 31) if base == 40 else (1, 2, 3)) if q else range(1, 32): t.append(task("decode_record", base, 2, "explicit", m, weight=m + 1))
        for n in (2, 3, 4, 5) if q else range(2, 32): t.append(task("decode_record", base, n, "short", 0, weight=n + 1))
    t += [task("decode_anywhere", n, logic=None) for n in ((1, 2) if q else (0, 1, 2, 3))]
    for hl, count, maybe, kinds, where in ((32, 20, 0xFC00, (0, 0), 0xC0), (48, 24, 0xFBF0, (0, 1), 0x300), (64, 20, 0xFB00, (1, 0), 0xF00)) + \
            (() if q else tuple((24 + 8 * k, 20 + 4 * (k % 3), 0xFC00 - 16 * k, (k & 1, k >> 1 & 1), 0xC0 + 64 * k) for k in range(8))):
        t.append(task("from_file", hl, count, maybe, kinds, where, weight=40))
    return t


CUBED = "all code points U+0000..U+10FFFF, as symbolic cubes that cover the code space without sampling"
REF = ["the reference tables in /verif/refdata (JDK 17 = Unicode 13.0, perl 5.38 and CPython) are the Unicode 13.0 values",
       "the module also loads two data file items that are not in the tree; synthetic ones stand in for them and are not asked"]

PROPS = {
    "N01": dict(tasks=lambda tier: cubes("full"), assumptions=REF, bounds=CUBED,
                explain="nfcTrie.getDecomposition (built-in data) on a symbolic code point against the reference; every character of the result is looked up again",
                expect=["full decomposition: the Unicode 13 characters", "no character of a full decomposition decomposes"]),
    "N02": dict(tasks=lambda tier: cubes("raw"), assumptions=REF, bounds=CUBED,
                explain="nfcTrie.getRawDecomposition (built-in data) on a symbolic code point against the reference, and expanded recursively against the full reference decomposition",
                expect=["raw decomposition: the Unicode 13 characters", "expanded raw decomposition is the full one"]),
    "N03": dict(tasks=tasks_N03, assumptions=REF[1:], bounds="all 11172 syllables",
                explain="both decompositions of a symbolic syllable against the arithmetic of the standard, and recomposed",
                expect=["raw: an LV syllable decomposes into its jamo", "recomposing the full decomposition gives the syllable", "recomposing the raw decomposition gives the syllable"]),
    "N04": dict(tasks=tasks_N04,
                assumptions=["thresholds are in the order the format prescribes, minYesNo and minYesNoMappingsOnly are even and the two Hangul values lie below limitNoNo; mapping strings are well-formed UTF-16; a value never maps a character to itself; "
                             "Hangul values belong to Hangul syllables; an abbreviated raw mapping starts with a unit above 31 that is no surrogate"],
                bounds={"quick": "any code point, any value, any thresholds (minMaybeYes one of three), any record words: full mappings of 0..4 and 31 units, raw mappings of 1, 2, 3 and 31 units, abbreviated ones of 2..5 units, "
                                 "records at two places and (mappings of 1..2 units) at any of 32768 places; strings over four units with at most one surrogate pair; three data files of two items with symbolic values and mapping words",
                        "thorough": "all lengths 0..31, records at four places; eleven data files"},
                outside="records without characters in the raw mapping (the code reports none, ICU the empty string)",
                explain="Normalizer2 constructed on symbolic thresholds, values and data words, against the decoding that the ICU format prescribes; and the module imported over a synthetic data file whose items hold symbolic values, against the same data passed to the constructor",
                expect=["mapping: decomposition as the format prescribes", "explicit raw mapping: raw decomposition as the format prescribes",
                        "abbreviated raw mapping: raw decomposition as the format prescribes", "algorithmic mapping: decomposition as the format prescribes",
                        "nfkc: data from the file behave like the same data passed directly", "nfkc_cf: data from the file behave like the same data passed directly"]),
}
