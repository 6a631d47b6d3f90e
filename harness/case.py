"""K01..K04: CaseProps."""
from UnicodeData import CaseProps, CasePropsData
from harness import refdata
from harness.patching import replaced, attribute

TOP = 0x110000


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


SIMPLE = {"lower": ("toLower", "slc"), "upper": ("toUpper", "suc"), "title": ("toTitle", "stc")}
FULL = {"lower": ("toFullLower", "lc"), "upper": ("toFullUpper", "uc"), "title": ("toFullTitle", "tc")}


def simple(eng, c, kind):
    fn, ref = SIMPLE[kind]
    got = eng.noraise("simple mapping does not fail", getattr(CaseProps, fn), c)
    delta = refdata.sparse_table(ref, lambda c, l: l[0] - c, 0, "delta")
    eng.check(got == c + delta[c], f"simple {kind}case mapping is the Unicode 13 value")


def full(eng, c, kind):
    fn, ref = FULL[kind]
    got = eng.noraise("full mapping does not fail", getattr(CaseProps, fn), c)
    lens = refdata.sparse_table(ref, lambda c, l: len(l), 1, "len")
    n = len(got)
    eng.check(lens[c] == n, f"full {kind}case mapping has the Unicode 13 length")
    ok = []
    for i in range(n):
        d = refdata.sparse_table(ref, lambda c, l: l[i] - c if i < len(l) else 0, 0, ("delta", i))
        ok.append(ord(got[i]) == c + d[c])
    eng.check(eng.And(True, *ok), f"full {kind}case mapping is the Unicode 13 value")


def consistent(eng, c, kind):
    s = getattr(CaseProps, SIMPLE[kind][0])
    r = eng.noraise("simple mapping does not fail", s, c)
    eng.check(eng.And(r >= 0, r < TOP), f"simple {kind}case mapping is a code point")
    r2 = eng.noraise("simple mapping does not fail", s, r)
    eng.check(r2 == r, f"simple {kind}case mapping leaves its results unchanged")
    f = eng.noraise("full mapping does not fail", getattr(CaseProps, FULL[kind][0]), c)
    eng.check(1 <= len(f) <= 3, f"full {kind}case mapping has one to three characters")
    eng.check(eng.And(*[eng.And(ord(x) >= 0, ord(x) < TOP, eng.Or(ord(x) < 0xD800, ord(x) > 0xDFFF, ord(x) == c)) for x in f]),
              f"full {kind}case mapping consists of code points")
    if len(f) == 1:
        eng.check(ord(f[0]) == r, f"a single-character full {kind}case mapping equals the simple one")


# ---------------------------------------------------------------- K04
WORDS = 0x1100


def popcount(eng, w, n):
    """Number of set bits among the low n bits."""
    return sum([(w >> k) & 1 for k in range(n)], 0)


class Record:
    """The fields of an exception record at word index i, by the description of the format."""
    def __init__(self, eng, exc, i, words):
        self.eng, self.exc, self.i = eng, exc, i
        self.flags = exc[i]
        self.double = (self.flags >> 8) & 1

    def has(self, slot): return ((self.flags >> slot) & 1) == 1
    def negative(self): return (self.flags & 0x400) != 0
    def special(self): return (self.flags & 0x4000) != 0

    def slot(self, k):
        n = popcount(self.eng, self.flags, k)
        i = self.i + 1 + n + self.double * n
        if self.double == 1: return self.exc[i] * 65536 + self.exc[i + 1]
        return self.exc[i]

    def after(self):
        """Index of the first word after the slots (closure and full mapping strings)."""
        n = popcount(self.eng, self.flags, 8)
        return self.i + 1 + n + self.double * n


def setup(eng, base=None):
    """Symbolic tables: the whole exception array (base None), or a window of it that holds the record at a given index."""
    if base is None:
        return eng.array("exceptions", WORDS, 16), eng.bits("props", 0, 16)
    exc = [0] * WORDS
    for k in range(17 + 60 if WORDS > base + 77 else WORDS - base): exc[base + k] = eng.bits(f"w{k}", 0, 16)
    return exc, (base << 4) | eng.bits("props", 0, 4)


def run_case(fn, exc, props, c):
    trie = CaseProps.casePropsTrie
    with replaced(CasePropsData.ucase_props_exceptions, exc), attribute(trie, "get", lambda x: props):
        return getattr(CaseProps, fn)(c)


def delta16(props):
    d = props >> 7
    return d - 512 * (d >> 8)


def spec_simple(eng, kind, exc, props, c):
    """The mapping by the format description, as (value, is it taken from a slot that is present)."""
    applies = (props & 2) != 0 if kind == "lower" else (props & 3) == 1
    if (props & 8) == 0:
        return c + delta16(props) if applies else c
    r = Record(eng, exc, props >> 4, None)
    if eng.And(r.has(4), applies):
        d = r.slot(4)
        return c - d if r.negative() else c + d
    for k in {"lower": (0,), "upper": (2,), "title": (3, 2)}[kind]:
        if r.has(k): return r.slot(k)
    return c


def record_simple(eng, kind, exceptional, base):
    exc, props = setup(eng, base)
    eng.assume(((props & 8) != 0) == exceptional)
    c = eng.int("c", 0, TOP - 1)
    got = eng.noraise("simple mapping does not fail", run_case, SIMPLE[kind][0], exc, props, c)
    eng.check(got == spec_simple(eng, kind, exc, props, c), f"simple {kind}case: what the record encodes")


def record_full(eng, kind, part, base):
    """part: 'plain' (no exception), 'simple' (no full mapping string or a special rule), or (which string, its length)."""
    exc, props = setup(eng, base)
    c = eng.int("c", 0, TOP - 1)
    if kind == "lower": eng.assume(c != 0x130)
    else: eng.assume(c != 0x587)
    fn = FULL[kind][0]
    if part == "plain":
        eng.assume((props & 8) == 0)
    else:
        eng.assume((props & 8) != 0)
        r = Record(eng, exc, props >> 4, None)
        shift = {"lower": 0, "upper": 8, "title": 12}[kind]
        if part == "simple":
            if eng.And(r.has(7), eng.Not(r.special())):
                eng.assume(((r.slot(7) >> shift) & 15) == 0)
        else:
            eng.assume(r.has(7))
            eng.assume(eng.Not(r.special()))
            lengths = r.slot(7)
            eng.assume(((lengths >> shift) & 15) == part)
            p = r.after()
            for k in range(0, shift, 4): p = p + ((lengths >> k) & 15)
            words = [exc[p + k] for k in range(part)]
            for w in words: eng.assume(eng.Or(w < 0xD800, w > 0xDFFF))
            got = eng.noraise("full mapping does not fail", run_case, fn, exc, props, c)
            eng.check(len(got) == part, f"full {kind}case: length of the string the record encodes")
            eng.check(eng.And(True, *[ord(got[k]) == words[k] for k in range(len(got))]), f"full {kind}case: the string the record encodes")
            return
    want = spec_simple(eng, kind, exc, props, c)
    eng.assume(eng.And(want >= 0, want < TOP))
    got = eng.noraise("full mapping does not fail", run_case, fn, exc, props, c)
    eng.check(eng.And(len(got) == 1, ord(got[0]) == want), f"full {kind}case without a string: the simple mapping")


BASES = (0, 0x2A5, 0xFFF)


def tasks_K04(tier):
    top = 16 if tier == "thorough" else 4
    out = []
    for kind in SIMPLE:
        out.append(task("record_simple", kind, False, None, logic=None))
        out.append(task("record_full", kind, "plain", None, logic=None))
        for b in BASES if tier == "thorough" or kind != "title" else BASES[::2]:
            out.append(task("record_simple", kind, True, b))
            for part in ["simple"] + list(range(1, top)):
                out.append(task("record_full", kind, part, b))
    return out


CUBED = "all code points U+0000..U+10FFFF, as symbolic cubes that cover the code space without sampling"
REF = ["the reference mappings in /verif/refdata (JDK 17 = Unicode 13.0 and CPython) are the Unicode 13.0 values"]
SRC = "code and tables are loaded from the current CaseProps/CasePropsData sources"

PROPS = {
    "K01": dict(tasks=lambda tier: [t for k in SIMPLE for t in cubes("simple", k)], assumptions=REF, bounds=CUBED,
                explain="toLower/toUpper/toTitle on a symbolic code point against the reference; " + SRC,
                expect=[f"simple {k}case mapping is the Unicode 13 value" for k in SIMPLE]),
    "K02": dict(tasks=lambda tier: [t for k in FULL for t in cubes("full", k)], assumptions=REF, bounds=CUBED,
                explain="toFullLower/toFullUpper/toFullTitle on a symbolic code point against the reference, character by character; " + SRC,
                expect=[f"full {k}case mapping is the Unicode 13 value" for k in FULL]),
    "K03": dict(tasks=lambda tier: [t for k in SIMPLE for t in cubes("consistent", k)], assumptions=[], bounds=CUBED,
                explain="the mappings applied to a symbolic code point and again to their results; " + SRC,
                expect=[f"simple {k}case mapping leaves its results unchanged" for k in SIMPLE]),
    "K04": dict(tasks=tasks_K04, assumptions=["full mapping strings contain no surrogate code units (no mapping of Unicode needs one)",
                                              "the code points U+0130 and U+0587, whose rules are part of the code, are excluded here and covered by K02",
                                              "mapping results outside 0..10FFFF are excluded for the full mappings (no valid record produces them)"],
                bounds={"quick": "any props word, any exception words at the record indices 0, 0x2A5 and 0xFFF, any code point; full strings of up to 3 characters",
                        "thorough": "any props word, any exception words at the record indices 0, 0x2A5 and 0xFFF, any code point; full strings of up to 15 characters"},
                explain="the case mapping functions on a symbolic trie value and a symbolic exception array, against the format description; " + SRC,
                expect=[f"simple {k}case: what the record encodes" for k in SIMPLE] + [f"full {k}case: the string the record encodes" for k in SIMPLE]),
}
