"""P01..P08: CharProps against Unicode 13.0."""
from fractions import Fraction

from UnicodeData import CharProps
from UnicodeData import UCDTypeDictionaries as UD
from UnicodeData import uprops_h
from UnicodeData import uscript_h
from UnicodeData import uchar_h
from harness import refdata
from harness.patching import attribute
from symx.state import again, fingerprint

TOP = 0x110000


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


# ---------------------------------------------------------------- enumerated properties by name
ENUM = {
    "gc": ("getGeneralCategory", "generalCategoryNames"), "sc": ("getScript", "scriptNames"), "blk": ("getBlock", "blockNames"),
    "ea": ("getEastAsianWidth", "eastAsianWidthNames"), "lb": ("getLineBreak", "lineBreakNames"),
    "wb": ("getWordBreak", "wordBreakNames"), "sb": ("getSentenceBreak", "sentenceBreakNames"),
    "gcb": ("getGraphemeClusterBreak", "graphemeClusterBreakNames"), "dt": ("getDecompType", "decompositionTypeNames"),
}
LONG = {"gc": "general category", "sc": "script", "blk": "block", "ea": "East Asian width", "lb": "line break", "wb": "word break",
        "sb": "sentence break", "gcb": "grapheme cluster break", "dt": "decomposition type"}


def names_of(prop):
    """code -> name as compared with the reference."""
    d = getattr(UD, ENUM[prop][1])
    return {k: v.lower() for k, v in d.items()} if prop == "dt" else d


def enum_prop(eng, c, *props):
    for p in props:
        ref = refdata.runs(p, str.lower if p == "dt" else None)
        v = eng.noraise(f"{LONG[p]} lookup does not fail", getattr(CharProps, ENUM[p][0]), c)
        name = eng.noraise(f"{LONG[p]} code has a name", lambda: names_of(p)[v])
        eng.check(name == ref[c], f"{LONG[p]} is the Unicode 13 value")


def enum_tasks(*props):
    return lambda tier: [t for p in props for t in cubes("enum_prop", p)]


# ---------------------------------------------------------------- P02
def cats(*prefixes):
    """Table: is the Unicode 13 category of c one of these (or of these major classes)?"""
    return refdata.runs("gc", lambda v: any(v.startswith(p) for p in prefixes), key=prefixes)


def between(eng, c, *pairs):
    return eng.Or(*[eng.And(c >= a, c <= b) for a, b in pairs])


def iso_control(eng, c): return between(eng, c, (0, 0x1F), (0x7F, 0x9F))
def ascii_space(eng, c): return between(eng, c, (9, 0xD), (0x1C, 0x1F))
def ignorable(eng, c): return eng.Ite(c <= 0x9F, eng.And(iso_control(eng, c), eng.Not(ascii_space(eng, c))), cats("Cf")[c])


PRED = {
    "isLower": lambda e, c: cats("Ll")[c],
    "isUpper": lambda e, c: cats("Lu")[c],
    "isTitle": lambda e, c: cats("Lt")[c],
    "isDigit": lambda e, c: cats("Nd")[c],
    "isHexDigit": lambda e, c: e.Or(cats("Nd")[c], between(e, c, (0x41, 0x46), (0x61, 0x66), (0xFF21, 0xFF26), (0xFF41, 0xFF46))),
    "isalpha": lambda e, c: cats("L")[c],
    "isAlphabetic": lambda e, c: refdata.runs("Alphabetic")[c],
    "isalnum": lambda e, c: cats("L", "Nd")[c],
    "isalnumPOSIX": lambda e, c: e.Or(refdata.runs("Alphabetic")[c], cats("Nd")[c]),
    "isDefined": lambda e, c: e.Not(cats("Cn")[c]),
    "isbase": lambda e, c: cats("L", "N", "Mc", "Me")[c],
    "iscntrl": lambda e, c: cats("Cc", "Cf", "Zl", "Zp")[c],
    "isISOControl": iso_control,
    "isspace": lambda e, c: e.Or(cats("Z")[c], ascii_space(e, c), c == 0x85),
    "isJavaSpaceChar": lambda e, c: cats("Z")[c],
    "isWhiteSpace": lambda e, c: e.And(e.Or(cats("Z")[c], ascii_space(e, c)), c != 0xA0, c != 0x2007, c != 0x202F),
    "isBlank": lambda e, c: e.Ite(c <= 0x9F, e.Or(c == 9, c == 0x20), cats("Zs")[c]),
    "isUWhiteSpace": lambda e, c: refdata.runs("White_Space")[c],
    "isPrint": lambda e, c: e.Not(cats("C")[c]),
    "isPrintPOSIX": lambda e, c: e.Or(cats("Zs")[c], e.Not(cats("Cc", "Cs", "Cn", "Z")[c])),
    "isgraph": lambda e, c: e.Not(cats("Cc", "Cf", "Cs", "Cn", "Z")[c]),
    "isGraphPOSIX": lambda e, c: e.Not(cats("Cc", "Cs", "Cn", "Z")[c]),
    "ispunct": lambda e, c: cats("P")[c],
    "isIDStart": lambda e, c: cats("L", "Nl")[c],
    "isIDPart": lambda e, c: e.Or(cats("Nd", "Nl", "L", "Pc", "Mc", "Mn")[c], ignorable(e, c)),
    "isIDIgnorable": ignorable,
    "isJavaIDStart": lambda e, c: cats("L", "Sc", "Pc")[c],
    "isJavaIDPart": lambda e, c: e.Or(cats("Nd", "Nl", "L", "Sc", "Pc", "Mc", "Mn")[c], ignorable(e, c)),
}
PRED_GROUPS = [list(PRED)[k::4] for k in range(4)]


def predicates(eng, c, group):
    for name in PRED_GROUPS[group]:
        got = eng.noraise("predicate does not fail", getattr(CharProps, name), c)
        eng.check(eng.Iff(got, PRED[name](eng, c)), f"{name}: answers as defined")


def tasks_P02(tier):
    return [t for g in range(len(PRED_GROUPS)) for t in cubes("predicates", g)]


# ---------------------------------------------------------------- P05
def age_prop(eng, c):
    got = eng.noraise("age lookup does not fail", CharProps.getAge, c)
    major = refdata.runs("age", lambda v: int(v.split(".")[0]), key="major")
    minor = refdata.runs("age", lambda v: int(v.split(".")[1]), key="minor")
    eng.check(len(got) == 4, "age has four fields")
    eng.check(eng.And(got[0] == major[c], got[1] == minor[c], got[2] == 0, got[3] == 0), "age is the Unicode 13 value")


# ---------------------------------------------------------------- P06
NT = {"None": uchar_h.U_NT_NONE, "Decimal": uchar_h.U_NT_DECIMAL, "Digit": uchar_h.U_NT_DIGIT, "Numeric": uchar_h.U_NT_NUMERIC}


def numeric(eng, c):
    num = refdata.runs("nv", lambda v: 0 if v == "NaN" else Fraction(v).numerator, key="num")
    den = refdata.runs("nv", lambda v: 0 if v == "NaN" else Fraction(v).denominator, key="den")
    v = eng.noraise("numeric value lookup does not fail", CharProps.getNumericValue, c)
    if v is None:
        eng.check(den[c] == 0, "numeric value is the Unicode 13 value")
    else:
        eng.check(den[c] != 0, "only numeric characters have a numeric value")
        eng.check(v == num[c] / den[c], "numeric value is the Unicode 13 value")


def numeric_type(eng, c):
    t = eng.noraise("numeric type lookup does not fail", CharProps.getNumericType, c)
    eng.check(t == refdata.runs("nt", lambda v: NT[v], key="code")[c], "numeric type is the Unicode 13 value")
    d = eng.noraise("digit value lookup does not fail", CharProps.digitValue, c)
    eng.check(d == refdata.runs("digit", int, key="int")[c], "digit value is the Unicode 13 value")


def pick(eng, name, options): return options[eng.int(name, 0, len(options) - 1).__index__()]


def numeric_word(eng, part):
    """Any stored word, whether or not a character of Unicode 13 uses it, by the description of the encoding."""
    mark = fingerprint(CharProps)
    stored_word(eng, "", part, 0x41)
    if again(eng, CharProps, mark): stored_word(eng, "second ", pick(eng, "second part", NTV_PARTS), 0x4E00)


def stored_word(eng, tag, part, c):
    lo, hi = part
    ntv = eng.int(tag + "ntv", lo, hi)
    low = eng.bits(tag + "gc", 0, 6)
    props = (ntv << 6) | low
    asked = []
    def stored(c):
        asked.append(c)
        return props
    with attribute(CharProps.propsTrie, "get", stored):
        v = eng.noraise("numeric value decoding does not fail", CharProps.getNumericValue, c)
        t = eng.noraise("numeric type decoding does not fail", CharProps.getNumericType, c)
        g = eng.noraise("category decoding does not fail", CharProps.getGeneralCategory, c)
    if len(asked) < 3: return                   # the words come from somewhere else: nothing to be said here
    eng.check(g == (low & 31), "category bits")
    check_word(eng, ntv, v, t)


def check_word(eng, ntv, v, t):
    if ntv == 0:
        eng.check(eng.And(v is None, t == 0), "word without numeric value")
    elif ntv <= 10:
        eng.check(eng.And(v == ntv - 1, t == 1), "decimal digit")
    elif ntv <= 20:
        eng.check(eng.And(v == ntv - 11, t == 2), "other digit")
    elif ntv < 0xB0:
        eng.check(eng.And(v == ntv - 21, t == 3), "small integer")
    elif ntv < 0x1E0:
        n = (ntv >> 4) - 12
        eng.check(eng.And(v == n / ((ntv & 15) + 1), t == 3), "fraction")
    elif ntv < 0x300:
        e = int(ntv & 31) + 2
        m = (ntv >> 5) - 14
        eng.check(eng.And(v == m * 10 ** e if e <= 22 else True, t == 3), "large power of ten")
    elif ntv < 0x324:
        e = int(ntv & 3) + 1
        eng.check(eng.And(v == ((ntv >> 2) - 0xBF) * 60 ** e, t == 3), "sexagesimal")
    elif ntv < 0x33C:
        k = int((ntv - 0x324) >> 2)
        eng.check(eng.And(v == (2 * ((ntv - 0x324) & 3) + 1) / (20 * 2 ** k), t == 3), "twentieth fraction")
    elif ntv < 0x34C:
        k = int((ntv - 0x33C) >> 2)
        eng.check(eng.And(v == (2 * ((ntv - 0x33C) & 3) + 1) / (32 * 2 ** k), t == 3), "thirty-second fraction")
    else:
        eng.check(v is None, "reserved")


NTV_PARTS = [(0, 0xAF), (0xB0, 0x1DF), (0x1E0, 0x26F), (0x270, 0x2FF), (0x300, 0x323), (0x324, 0x33B), (0x33C, 0x34B), (0x34C, 0x3FF)]


def tasks_P06(tier):
    return cubes("numeric") + cubes("numeric_type") + [task("numeric_word", p) for p in NTV_PARTS]


# ---------------------------------------------------------------- P07
BIN1 = {
    "White_Space": "UPROPS_WHITE_SPACE", "Dash": "UPROPS_DASH", "Hyphen": "UPROPS_HYPHEN", "Quotation_Mark": "UPROPS_QUOTATION_MARK",
    "Terminal_Punctuation": "UPROPS_TERMINAL_PUNCTUATION", "Math": "UPROPS_MATH", "Hex_Digit": "UPROPS_HEX_DIGIT",
    "ASCII_Hex_Digit": "UPROPS_ASCII_HEX_DIGIT", "Alphabetic": "UPROPS_ALPHABETIC", "Ideographic": "UPROPS_IDEOGRAPHIC",
    "Diacritic": "UPROPS_DIACRITIC", "Extender": "UPROPS_EXTENDER", "Noncharacter_Code_Point": "UPROPS_NONCHARACTER_CODE_POINT",
    "Grapheme_Extend": "UPROPS_GRAPHEME_EXTEND", "Grapheme_Link": "UPROPS_GRAPHEME_LINK",
    "IDS_Binary_Operator": "UPROPS_IDS_BINARY_OPERATOR", "IDS_Trinary_Operator": "UPROPS_IDS_TRINARY_OPERATOR", "Radical": "UPROPS_RADICAL",
    "Unified_Ideograph": "UPROPS_UNIFIED_IDEOGRAPH", "Default_Ignorable_Code_Point": "UPROPS_DEFAULT_IGNORABLE_CODE_POINT",
    "Deprecated": "UPROPS_DEPRECATED", "Logical_Order_Exception": "UPROPS_LOGICAL_ORDER_EXCEPTION", "XID_Start": "UPROPS_XID_START",
    "XID_Continue": "UPROPS_XID_CONTINUE", "ID_Start": "UPROPS_ID_START", "ID_Continue": "UPROPS_ID_CONTINUE",
    "Grapheme_Base": "UPROPS_GRAPHEME_BASE", "Sentence_Terminal": "UPROPS_S_TERM", "Variation_Selector": "UPROPS_VARIATION_SELECTOR",
    "Pattern_Syntax": "UPROPS_PATTERN_SYNTAX", "Pattern_White_Space": "UPROPS_PATTERN_WHITE_SPACE",
    "Prepended_Concatenation_Mark": "UPROPS_PREPENDED_CONCATENATION_MARK",
}
EMOJI = {"Extended_Pictographic": "isExtendedPictograph", "Emoji_Component": "isEmojiComponent", "Emoji": "isEmoji",
         "Emoji_Presentation": "isEmojiPresentation", "Emoji_Modifier": "isEmojiModifier", "Emoji_Modifier_Base": "isEmojiModifierBase"}
EMOJI_BIT = {"Extended_Pictographic": "UPROPS_2_EXTENDED_PICTOGRAPHIC", "Emoji_Component": "UPROPS_2_EMOJI_COMPONENT",
             "Emoji": "UPROPS_2_EMOJI", "Emoji_Presentation": "UPROPS_2_EMOJI_PRESENTATION", "Emoji_Modifier": "UPROPS_2_EMOJI_MODIFIER",
             "Emoji_Modifier_Base": "UPROPS_2_EMOJI_MODIFIER_BASE"}
BIN_GROUPS = [list(BIN1)[k::4] for k in range(4)]


def binary(eng, c, group):
    for p in BIN_GROUPS[group]:
        got = eng.noraise("binary property lookup does not fail", CharProps.getBinaryProp, c, getattr(uprops_h, BIN1[p]))
        eng.check(eng.Iff(got, refdata.runs(p)[c]), f"{p} is the Unicode 13 value")


def emoji(eng, c):
    for p, fn in EMOJI.items():
        got = eng.noraise("emoji property lookup does not fail", getattr(CharProps, fn), c)
        eng.check(eng.Iff(got, refdata.runs(p)[c]), f"{p} is the Unicode 13 value")
        got = eng.noraise("emoji property lookup does not fail", CharProps.getBinaryProp, c, getattr(uprops_h, EMOJI_BIT[p]), 2)
        eng.check(eng.Iff(got, refdata.runs(p)[c]), f"{p} by number is the Unicode 13 value")


def no_binary(eng, column):
    c = eng.int("c", 0, 1 << 40)
    n = eng.int("number", 32, 1 << 40)
    got = eng.noraise("binary property lookup does not fail", CharProps.getBinaryProp, c, n, column)
    eng.check(eng.Not(got), "a property number that does not exist answers false")


def tasks_P07(tier):
    return [t for g in range(len(BIN_GROUPS)) for t in cubes("binary", g)] + cubes("emoji") + [task("no_binary", k) for k in (0, 1, 2)]


# ---------------------------------------------------------------- P08
FUNCS = ["getGeneralCategory", "getAge", "getScript", "getBlock", "getEastAsianWidth", "getLineBreak", "getSentenceBreak", "getWordBreak",
         "getGraphemeClusterBreak", "getDecompType", "getNumericType", "getNumericValue", "getNumericTypeValue", "digitValue"]


def beyond(eng):
    c = eng.int("c", TOP, 1 << 64)
    C = CharProps
    nr = lambda f, *a: eng.noraise("lookup does not fail", f, *a)
    eng.check(nr(C.getGeneralCategory, c) == 0, "beyond U+10FFFF: unassigned")
    eng.check(nr(C.getScript, c) == uscript_h.USCRIPT_INVALID_CODE, "beyond U+10FFFF: no script")
    for f in ("getBlock", "getEastAsianWidth", "getLineBreak", "getSentenceBreak", "getWordBreak", "getGraphemeClusterBreak", "getDecompType",
              "getNumericType", "getNumericTypeValue"):
        eng.check(nr(getattr(C, f), c) == 0, f"beyond U+10FFFF: {f} is the default")
    eng.check(nr(C.getNumericValue, c) is None, "beyond U+10FFFF: no numeric value")
    eng.check(nr(C.digitValue, c) == -1, "beyond U+10FFFF: no digit value")
    age = nr(C.getAge, c)
    eng.check(eng.And(len(age) == 4, *[a == 0 for a in age]), "beyond U+10FFFF: no age")
    for n in BIN1.values():
        eng.check(eng.Not(nr(C.getBinaryProp, c, getattr(uprops_h, n))), "beyond U+10FFFF: binary properties are false")
    for f in list(EMOJI.values()) + list(PRED):
        eng.check(eng.Not(nr(getattr(C, f), c)), f"beyond U+10FFFF: {f} is false")
    for col in (0, 1, 2):
        v = nr(C.getUnicodeProperties, c, col)
        eng.check(eng.And(v >= 0, v <= 0xFFFFFFFF), "a column is a 32-bit word")


def total(eng, c, k):
    """No accessor fails on a code point."""
    for f in FUNCS[k::3] + list(PRED)[k::3] + list(EMOJI.values())[k::3]:
        eng.noraise(f"{f} does not fail", getattr(CharProps, f), c)
    for n in list(BIN1.values())[k::3]:
        eng.noraise("getBinaryProp does not fail", CharProps.getBinaryProp, c, getattr(uprops_h, n))
    if k < 3:
        v = eng.noraise("getUnicodeProperties does not fail", CharProps.getUnicodeProperties, c, k)
        eng.check(eng.And(v >= 0, v <= 0xFFFFFFFF), "a column is a 32-bit word")


def no_column(eng):
    c = eng.int("c", 0, 1 << 64)
    col = eng.int("column", 3, 1 << 64)
    v = eng.noraise("getUnicodeProperties does not fail", CharProps.getUnicodeProperties, c, col)
    eng.check(v == 0, "a column that does not exist reads as zero")


def tasks_P08(tier):
    return [task("beyond"), task("no_column")] + [t for k in range(3) for t in cubes("total", k)]


CUBED = "all code points U+0000..U+10FFFF, as symbolic cubes that cover the code space without sampling"
REF = ["the reference tables in /verif/refdata (from JDK 17 = Unicode 13.0, perl 5.38 and CPython) are the Unicode 13.0 values"]
SRC = "code and tables are loaded from the current CharProps/CharPropsData sources"

PROPS = {
    "P01": dict(tasks=enum_tasks("gc"), assumptions=REF, bounds=CUBED, explain="getGeneralCategory and its name on a symbolic code point against the reference table; " + SRC,
                expect=["general category is the Unicode 13 value"]),
    "P02": dict(tasks=tasks_P02, assumptions=REF, bounds=CUBED, explain="each predicate on a symbolic code point against its definition over reference categories; " + SRC,
                expect=[f"{n}: answers as defined" for n in PRED]),
    "P03": dict(tasks=enum_tasks("sc", "blk", "ea"), assumptions=REF, bounds=CUBED, explain="getScript/getBlock/getEastAsianWidth and names against the reference tables; " + SRC,
                expect=["script is the Unicode 13 value", "block is the Unicode 13 value", "East Asian width is the Unicode 13 value"]),
    "P04": dict(tasks=enum_tasks("lb", "wb", "sb", "gcb"), assumptions=REF, bounds=CUBED, explain="break property lookups and names against the reference tables; " + SRC,
                expect=[f"{LONG[p]} is the Unicode 13 value" for p in ("lb", "wb", "sb", "gcb")]),
    "P05": dict(tasks=lambda tier: cubes("age_prop") + enum_tasks("dt")(tier), assumptions=REF, bounds=CUBED, explain="getAge and getDecompType against the reference tables; " + SRC,
                expect=["age is the Unicode 13 value", "decomposition type is the Unicode 13 value"]),
    "P06": dict(tasks=tasks_P06, assumptions=REF + ["numeric values are compared as exact rationals (int/int division in the code is exact or correctly rounded)"],
                bounds=CUBED + "; decoding additionally for every 10-bit numeric word (powers of ten up to 10^22)", outside="powers of ten above 10^22 (float rounding; no character uses them)",
                explain="getNumericValue/getNumericType/digitValue against the reference tables, and the decoder on every stored word; " + SRC,
                expect=["numeric value is the Unicode 13 value", "numeric type is the Unicode 13 value", "digit value is the Unicode 13 value", "large power of ten", "sexagesimal", "reserved"]),
    "P07": dict(tasks=tasks_P07, assumptions=REF, bounds=CUBED + "; property numbers 32..2^40", explain="getBinaryProp for every property number and the emoji accessors against the reference tables; " + SRC,
                expect=[f"{p} is the Unicode 13 value" for p in list(BIN1) + list(EMOJI)] + ["a property number that does not exist answers false"]),
    "P08": dict(tasks=tasks_P08, assumptions=[], bounds="all integers 0..2^64, column numbers 3..2^64", explain="every accessor on symbolic integers inside and beyond the code space; " + SRC,
                expect=["beyond U+10FFFF: unassigned", "a column that does not exist reads as zero"]),
}
