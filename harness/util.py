"""U01, U02: Utilities."""
from UnicodeData import Utilities as U

TOP = 0x110000


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


# ---------------------------------------------------------------- U01
def predicates(eng, lo, hi):
    c = eng.int("c", lo, hi)
    got = eng.noraise("predicate does not fail", U.isUnicodeNoncharacter, c)
    want = eng.Or(eng.And(c >= 0xFDD0, c <= 0xFDEF), *[c == (p << 16) + k for p in range(17) for k in (0xFFFE, 0xFFFF)])
    eng.check(eng.Iff(got, want), "noncharacter: the 66 code points")
    if c < TOP:
        eng.check(eng.Iff(eng.noraise("predicate does not fail", U.isSurrogate, c), eng.And(c >= 0xD800, c <= 0xDFFF)), "surrogate: U+D800..U+DFFF")
        eng.check(eng.Iff(eng.noraise("predicate does not fail", U.isLead, c), eng.And(c >= 0xD800, c <= 0xDBFF)), "lead: U+D800..U+DBFF")
        eng.check(eng.Iff(eng.noraise("predicate does not fail", U.isTrail, c), eng.And(c >= 0xDC00, c <= 0xDFFF)), "trail: U+DC00..U+DFFF")


def halves(eng):
    """The lead/trail tests for surrogates."""
    c = eng.int("c", 0xD800, 0xDFFF)
    eng.check(eng.Iff(eng.noraise("predicate does not fail", U.isSurrogateLead, c), c <= 0xDBFF), "surrogate lead test")
    eng.check(eng.Iff(eng.noraise("predicate does not fail", U.isSurrogateTrail, c), c >= 0xDC00), "surrogate trail test")


def supplementary(eng):
    c = eng.int("c", 0x10000, 0x10FFFF)
    p = eng.noraise("conversion does not fail", U.surrogatesFromChar, c)
    eng.check(len(p) == 2, "two surrogates")
    lead, trail = p
    eng.check(eng.And(lead >= 0xD800, lead <= 0xDBFF, trail >= 0xDC00, trail <= 0xDFFF), "a lead and a trail surrogate")
    eng.check(eng.noraise("conversion does not fail", U.charFromSurrogates, lead, trail) == c, "the surrogates convert back to the code point")
    eng.check(eng.And(lead == 0xD800 + ((c - 0x10000) >> 10), trail == 0xDC00 + ((c - 0x10000) & 0x3FF)), "the surrogates of UTF-16")


def pair(eng):
    lead, trail = eng.int("lead", 0xD800, 0xDBFF), eng.int("trail", 0xDC00, 0xDFFF)
    c = eng.noraise("conversion does not fail", U.charFromSurrogates, lead, trail)
    eng.check(eng.And(c >= 0x10000, c <= 0x10FFFF), "a pair converts to a supplementary code point")
    p = eng.noraise("conversion does not fail", U.surrogatesFromChar, c)
    eng.check(eng.And(p[0] == lead, p[1] == trail), "the code point converts back to the pair")


# ---------------------------------------------------------------- U02
def high_bit(eng, lo, hi):
    v = eng.int("v", lo, hi)
    r = eng.noraise("highBit does not fail", U.highBit, v)
    if v == 0:
        eng.check(r is None, "highBit: nothing for zero")
    else:
        eng.check(r is not None, "highBit: a result for every other value")
        k = 0
        for j in range(1, 64): k = eng.Ite(v >= 1 << j, j, k)
        eng.check(r == k, "highBit: position of the highest set bit")


def shift(eng, width):
    v = eng.int("v", 0, (1 << width) - 1)
    for f in range(1, width + 1):
        r = eng.noraise("arithmeticShift does not fail", U.arithmeticShift, v, width, f)
        top = v >> (width - f)
        want = eng.Ite(top >= 1 << (f - 1), top - (1 << f), top)
        eng.check(r == want, "arithmeticShift: two's complement value of the top bits")


def hexdigits(eng, c, n):
    ds = []
    for k in range(n - 1, -1, -1):
        d = (c >> (4 * k)) & 15
        ds.append(eng.Ite(d < 10, 48 + d, 55 + d))
    return ds


def codes(eng, n):
    cs = [eng.int(f"c{i}", 0, 0x10FFFF) for i in range(n)]
    s = eng.noraise("listOfCodes does not fail", U.listOfCodes, list(cs))
    want = []
    for i, c in enumerate(cs):
        if i: want += [44, 32]
        want += hexdigits(eng, c, 4 if c < 0x10000 else 5 if c < 0x100000 else 6)
    eng.check(len(s) == len(want), "listOfCodes: length of the list")
    eng.check(eng.And(True, *[ord(s[k]) == w for k, w in enumerate(want)]), "listOfCodes: upper-case hexadecimal of at least four digits")


def tasks_U02(tier):
    t = [task("high_bit", 0, 1 << 16), task("high_bit", 1 << 16, 1 << 32), task("high_bit", 1 << 32, (1 << 64) - 1)]
    t += [task("shift", w) for w in range(1, 33)]
    return t + [task("codes", n) for n in range(0, 4 if tier == "quick" else 6)]


PROPS = {
    "U01": dict(tasks=lambda tier: [task("predicates", 0, TOP - 1), task("predicates", TOP, (1 << 32) - 1), task("halves"), task("supplementary"), task("pair")],
                assumptions=["isSurrogateLead and isSurrogateTrail are asked about surrogates only (their ICU contract)"],
                bounds="all code points, all integers to 2^32 for the noncharacter predicate, all surrogate pairs",
                explain="the predicates and conversions of Utilities on symbolic integers against the definitions of the standard; no stubs",
                expect=["noncharacter: the 66 code points", "lead: U+D800..U+DBFF", "the surrogates convert back to the code point", "the code point converts back to the pair"]),
    "U02": dict(tasks=tasks_U02, assumptions=[],
                bounds={"quick": "all values below 2^64; all word sizes 1..32 with all field sizes and all values; lists of 0..3 code points",
                        "thorough": "all values below 2^64; all word sizes 1..32 with all field sizes and all values; lists of 0..5 code points"},
                outside="longer code lists",
                explain="highBit, arithmeticShift and listOfCodes on symbolic integers against their arithmetic definition; no stubs",
                expect=["highBit: position of the highest set bit", "highBit: nothing for zero", "arithmeticShift: two's complement value of the top bits",
                        "listOfCodes: upper-case hexadecimal of at least four digits"]),
}
