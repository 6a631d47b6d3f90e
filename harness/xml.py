"""X01, X02: records built from UCD XML elements."""
from xml.etree.ElementTree import Element

from UnicodeData.CharacterData import CharacterData
from harness.tries import pick


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


# record path -> attribute tag (UAX #42), written down independently of the code
TEXT = {
    "generalCategory": "gc", "numericType": "nt", "script": "sc", "joiningType": "jt", "lineBreak": "lb", "sentenceBreak": "SB",
    "wordBreak": "WB", "graphemeClusterBreak": "GCB", "eastAsianWidth": "ea", "hangulSyllableType": "hst", "jamoShortName": "JSN",
    "verticalOrientation": "vo", "bidiProperties.bidiClass": "bc", "bidiProperties.bidiPairedBracketType": "bpt",
    "decompProperties.decompositionType": "dt", "decompProperties.nfcQuickCheck": "NFC_QC", "decompProperties.nfdQuickCheck": "NFD_QC",
    "decompProperties.nfkcQuickCheck": "NFKC_QC", "decompProperties.nfkdQuickCheck": "NFKD_QC",
    "indicProperties.syllabicCategory": "InSC", "indicProperties.positionalCategory": "InPC",
}
BLANKED = {"block": "blk", "joiningGroup": "jg"}      # blanks for underscores
BOOL = {
    "isJoiningControl": "Join_C", "emoji": "Emoji", "emojiPresentation": "EPres", "emojiModifier": "EMod", "emojiModifierBase": "EBase",
    "emojiComponent": "EComp", "extendedPictograph": "ExtPict",
    "bidiProperties.bidiMirrored": "Bidi_M", "bidiProperties.bidiControl": "Bidi_C",
    "decompProperties.compositionExclusion": "CE", "decompProperties.fullCompositionExclusion": "Comp_Ex",
    "decompProperties.expandOnNFC": "XO_NFC", "decompProperties.expandOnNFD": "XO_NFD", "decompProperties.expandOnNFKC": "XO_NFKC",
    "decompProperties.expandOnNFKD": "XO_NFKD",
    "caseProperties.upper": "Upper", "caseProperties.lower": "Lower", "caseProperties.otherUpper": "OUpper", "caseProperties.otherLower": "OLower",
    "caseProperties.caseIgnorable": "CI", "caseProperties.cased": "Cased", "caseProperties.changesWhenCaseFolded": "CWCF",
    "caseProperties.changesWhenCasedMapped": "CWCM", "caseProperties.changesWhenLowercased": "CWL",
    "caseProperties.changesWhenNFKCCaseFolded": "CWKCF", "caseProperties.changesWhenTitlecased": "CWT",
    "caseProperties.changesWhenUppercased": "CWU",
}
BOOL.update({"binaryProperties." + k: v for k, v in {
    "whitespace": "WSpace", "dash": "Dash", "hyphen": "Hyphen", "quotationMark": "QMark", "terminalPunctuation": "Term",
    "sentenceTerminalPunctuation": "STerm", "diacritic": "Dia", "extender": "Ext", "prependedConcatenationMark": "PCM", "softDotted": "SD",
    "alphabetic": "Alpha", "otherAlphabetic": "OAlpha", "math": "Math", "otherMath": "OMath", "hexDigit": "Hex", "asciiHexDigit": "AHex",
    "defaultIgnorable": "DI", "otherDefaultIgnorable": "ODI", "logicalOrderException": "LOE", "regionalIndicator": "RI",
    "graphemeBase": "Gr_Base", "graphemeExtended": "Gr_Ext", "otherGraphemeExtended": "OGr_Ext", "graphemeLink": "Gr_Link",
    "ideographic": "Ideo", "unifiedIdeographic": "UIdeo", "idsBinaryOperator": "IDSB", "idsTrinaryOperator": "IDST", "radical": "Radical",
    "deprecated": "Dep", "variationSelector": "VS", "nonCharacterCodePoint": "NChar", "idStart": "IDS", "otherIDStart": "OIDS",
    "xIDStart": "XIDS", "idContinue": "IDC", "otherIDContinue": "OIDC", "xIDContinue": "XIDC", "patternSyntax": "Pat_Syn",
    "patternWhitespace": "Pat_WS"}.items()})
CODES = {   # path: (tag, how a missing value reads, how the self marker reads)
    "caseProperties.simpleUpperCase": ("suc", "self", "self"), "caseProperties.simpleLowerCase": ("slc", "self", "self"),
    "caseProperties.simpleTitleCase": ("stc", "self", "self"), "caseProperties.upperCase": ("uc", "self", "self"),
    "caseProperties.lowerCase": ("lc", "self", "self"), "caseProperties.titleCase": ("tc", "self", "self"),
    "caseProperties.simpleCaseFolding": ("scf", "self", "self"), "caseProperties.caseFolding": ("cf", "self", "self"),
    "caseProperties.nkfcCasefold": ("NFKC_CF", "self", "self"),
    "decompProperties.decomposition": ("dm", None, None), "decompProperties.nfkcFullClosure": ("FC_NFKC", None, None),
    "decompProperties.nfkcCaseFolded": ("NFKC_CF", None, "self"),
}
GLYPHS = {"bidiProperties.bidiMirroredGlyph": ("bmg", "self", None), "bidiProperties.bidiPairedBracket": ("bpb", None, "self")}

# a complete record; every text is valid for its field, and the texts of different fields differ where they may
BASE = {"ccc": "9", "na": "BASE NAME", "nv": "NaN", "scx": "Qaaa Qaab", "na1": "OLD NAME", "age": "5.2", "bmg": "", "bpb": "#",
        "blk": "Base_Block", "jg": "Base_Group", "sc": "Qaac", "gc": "Q1"}
for _p, _t in TEXT.items(): BASE.setdefault(_t, "v_" + _t)
for _p, _t in BOOL.items(): BASE.setdefault(_t, "N")
for _p, (_t, _m, _s) in CODES.items(): BASE.setdefault(_t, "#")


def text(eng, name, n, lo=1, hi=0x10FFFF):
    """A symbolic text of n characters, and its characters."""
    cs = [eng.int(f"{name}{k}", lo, hi) for k in range(n)]
    return "".join([chr(c) for c in cs]), cs


def field(rec, path):
    for k in path.split("."): rec = getattr(rec, k)
    return rec


def record(eng, tag, value_char, value_group, base, cp="0041"):
    """The record of a character whose tag is given as stated (None: absent) and whose other tags all have values in the given element."""
    a = {"cp": cp}
    g = {}
    for t, v in BASE.items():
        if t != tag: (a if base == "char" else g)[t] = v
    if base == "both":      # the character's attributes win, so the group may hold anything
        for t in list(g):
            a[t] = g[t]
            g[t] = {"N": "Y", "Y": "N"}.get(g[t], "0" if t in ("ccc", "nv") else "0042" if t in ("bmg", "bpb", "dm") else "other")
    if value_char is not None: a[tag] = value_char
    if value_group is not None: g[tag] = value_group
    return eng.noraise("a record can be built", CharacterData, Element("char", a), Element("group", g))


def elements(eng, tag, maxlen, lo=1, hi=0x10FFFF, present=False):
    """Symbolic attributes in every presence combination; returns the record and the characters of the text that counts (None: absent)."""
    where = pick(eng, "where", ["char", "group", "both"] + ([] if present else ["none"]))
    base = pick(eng, "base", ["char", "group", "both"])
    vc = vg = cc = cg = None
    if where in ("char", "both"): vc, cc = text(eng, "c", eng.int("len(c)", 1 if present else 0, maxlen).__index__(), lo, hi)
    if where in ("group", "both"): vg, cg = text(eng, "g", eng.int("len(g)", 1 if present else 0, maxlen if where == "group" else 2).__index__(), lo, hi)
    rec = record(eng, tag, vc, vg, base)
    return rec, cc if cc is not None else cg


def spells(eng, got, cs):
    """got is the string of these character codes."""
    if len(got) != len(cs): return False
    return eng.And(True, *[ord(got[k]) == c for k, c in enumerate(cs)])


def text_field(eng, path, maxlen):
    rec, cs = elements(eng, TEXT[path], maxlen)
    eng.check(spells(eng, eng.noraise("the field is there", field, rec, path), cs or []), "text field: the character's own text, else the group's, else empty", path)


def blanked_field(eng, path, maxlen):
    rec, cs = elements(eng, BLANKED[path], maxlen)
    want = [eng.Ite(c == ord("_"), 32, c) for c in cs or []]
    eng.check(spells(eng, field(rec, path), want), "block and joining group: the text with blanks for underscores", path)


def bool_field(eng, path, maxlen):
    rec, cs = elements(eng, BOOL[path], maxlen)
    want = False if not cs or len(cs) != 1 else cs[0] == ord("Y")
    eng.check(eng.Iff(eng.noraise("the field is there", field, rec, path), want), "yes/no field: true exactly for Y", path)


def name_field(eng, maxlen):
    rec, cs = elements(eng, "na", maxlen)
    want = []
    for c in cs or []:
        if c == ord("#"): want += [ord(x) for x in "0041"]
        else: want.append(c)
    eng.check(spells(eng, rec.name, want), "name: the text with the code for the number sign")


def extensions_field(eng, maxlen):
    rec, cs = elements(eng, "scx", maxlen)
    parts = [[]]
    for c in cs or []:
        if c == 32: parts.append([])
        else: parts[-1].append(c)
    got = rec.scriptExtensions
    eng.check(len(got) == len(parts), "script extensions: one entry per blank-separated part")
    eng.check(eng.And(True, *[spells(eng, g, p) for g, p in zip(got, parts)]), "script extensions: the parts of the text")


def class_field(eng, maxlen):
    rec, cs = elements(eng, "ccc", maxlen, 48, 57, present=True)
    v = 0
    for c in cs: v = v * 10 + (c - 48)
    eng.check(rec.combiningClass == v, "combining class: the number")


def number_field(eng):
    values = {"NaN": None, "0": 0, "7": 7, "1/2": 0.5, "-1/2": -0.5, "3/80": 3 / 80, "1000000000000": 10 ** 12, "216000": 216000}
    a, b = pick(eng, "char", sorted(values)), pick(eng, "group", sorted(values))
    where = pick(eng, "where", ["char", "group", "both"])
    base = pick(eng, "base", ["char", "group", "both"])
    rec = record(eng, "nv", a if where != "group" else None, b if where != "char" else None, base)
    want = values[b if where == "group" else a]
    got = rec.numericValue
    eng.check((got is None) == (want is None) and (got is None or got == want), "numeric value: the number or none")


def tasks_X01(tier):
    n = 3 if tier == "quick" else 5
    return ([task("text_field", p, n) for p in TEXT] + [task("blanked_field", p, n) for p in BLANKED] + [task("bool_field", p, n) for p in BOOL]
            + [task("name_field", n), task("extensions_field", n), task("class_field", 3), task("number_field")])


# ---------------------------------------------------------------- X02
def hexcode(eng, name, digits):
    """A symbolic code point written with the given number of upper-case hexadecimal digits: (text, value)."""
    ds = [eng.int(f"{name}.{k}", 0, 15) for k in range(digits)]
    v = 0
    for d in ds: v = v * 16 + d
    eng.assume(v <= 0x10FFFF)
    eng.assume(eng.Or(digits == 4, ds[0] != 0))      # no leading zeros beyond four digits
    return "".join([chr(eng.Ite(d < 10, d + 48, d + 55)) for d in ds]), v


def codes_field(eng, path, most, shapes):
    """shapes: vary the spelling of the code points; otherwise vary where the values are."""
    tag, missing, marker = CODES[path] if path in CODES else GLYPHS[path]
    glyph = path in GLYPHS
    cp, me = hexcode(eng, "cp", pick(eng, "cp digits", [4, 5, 6] if shapes else [4]))
    kinds = ["codes"]
    if missing is not None or not glyph: kinds.append("missing")
    if marker is not None or tag == "dm": kinds.append("#")
    kind = pick(eng, "kind", kinds)
    where = pick(eng, "where", ["char"] if shapes else ["char", "group", "both"])
    base = pick(eng, "base", ["group"] if shapes else ["char", "group", "both"])
    if kind == "codes":
        n = 1 if glyph or not shapes else eng.int("n", 1, most).__index__()
        parts = [hexcode(eng, f"x{k}", pick(eng, f"x{k} digits", [4, 5, 6] if shapes else [4, 6])) for k in range(n)]
        value, want = " ".join([p[0] for p in parts]), [p[1] for p in parts]
    else:
        value = "#" if kind == "#" else None
        want = [me] if (marker if kind == "#" else missing) == "self" else None
    other = pick(eng, "other", ["0042", "#"] if (not glyph or tag == "bpb") and not shapes else ["0042"])
    if kind == "missing": rec = record(eng, tag, None, None, base, cp)
    else: rec = record(eng, tag, value if where != "group" else None, value if where == "group" else other if where == "both" else None, base, cp)
    got = eng.noraise("the field is there", field, rec, path)
    label = {"codes": "the characters that the code points list", "missing": "a missing value", "#": "the self marker"}[kind]
    if want is None:
        eng.check(got is None, f"{label} stands for none", path)
    elif glyph:
        eng.check(got == want[0], label, path)
    else:
        eng.check(got is not None and len(got) == len(want), label + ": number of characters", path)
        eng.check(spells(eng, got, want), label, path)
    eng.check(rec.codePoint == me, "the record's own code point")


def tasks_X02(tier):
    n = 2 if tier == "quick" else 4
    return [task("codes_field", p, n, s) for s in (True, False) for p in list(CODES) + list(GLYPHS)]


SPEC = ["the field-to-tag table in harness/xml.py, written from UAX #42, names the right attribute for each field"]
PROPS = {
    "X01": dict(tasks=tasks_X01, assumptions=SPEC + ["combining class, numeric value and paired bracket are present in the record, as they always are in the UCD"],
                bounds={"quick": "every field, every presence combination in character and group, symbolic text of 0..3 arbitrary characters; the other tags given in the character, in the group or in both",
                        "thorough": "as quick with texts of 0..5 characters"},
                outside="longer texts; numeric values are eight concrete spellings (the code evaluates them as Python expressions)",
                explain="CharacterData built from real Element objects whose attribute values are symbolic strings; each field read back from the record and its nested records",
                expect=["text field: the character's own text, else the group's, else empty", "yes/no field: true exactly for Y",
                        "name: the text with the code for the number sign", "script extensions: the parts of the text", "combining class: the number"]),
    "X02": dict(tasks=tasks_X02, assumptions=SPEC + ["code points are written in upper-case hexadecimal of four to six digits"],
                bounds={"quick": "every code point field, lists of 1..2 symbolic code points of 4..6 digits, the self marker and absence, in character or group, for a symbolic own code point",
                        "thorough": "as quick with lists of 1..4 code points"},
                outside="present-but-empty code point lists; the self marker in FC_NFKC",
                explain="CharacterData built from real Element objects whose code point lists have symbolic digits",
                expect=["the characters that the code points list", "a missing value", "the self marker", "a missing value stands for none", "the record's own code point"]),
}
