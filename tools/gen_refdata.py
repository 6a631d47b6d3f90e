#!/usr/bin/env python3
"""gen_refdata.py DIR : writes /verif/refdata from the dumps that RefDump.java (JDK 17: Unicode 13.0), refdump.pl and
refalias.pl (perl 5.38: Unicode 15.0) left in DIR.  Not run by the checks: the result is committed.

The reference never comes from /repo.  15.0 data are brought back to 13.0 by these rules:
 - a code point unassigned in 13.0 (JDK 17) has the property's default for unassigned code points;
 - code points whose value changed between 13.0 and 15.0 are listed in CHANGED with their 13.0 value.
Format: {"starts": hex deltas, "ids": indices into values, "values": [...]} run-length over 0..10FFFF.
"""
import json, os, sys, unicodedata
D = sys.argv[1]
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "refdata")
N = 0x110000


def load(fn):
    st, vals = [], []
    for l in open(os.path.join(D, fn), encoding="utf8"):
        if l[0] == "#": continue
        a = l.rstrip("\n").split("\t")
        st.append(int(a[0], 16))
        vals.append(a[1])
    out = []
    for i, s in enumerate(st): out += [vals[i]] * ((st[i + 1] if i + 1 < len(st) else N) - s)
    return out


def sparse(fn):
    out = {}
    for l in open(os.path.join(D, fn), encoding="utf8"):
        a = l.rstrip("\n").split("\t")
        out[int(a[0], 16)] = a[1]
    return out


def binload(p):
    pts = [int(l, 16) for l in open(os.path.join(D, f"perlb_{p}.txt")) if l.strip()]
    out = [False] * N
    for i in range(0, len(pts), 2):
        for c in range(pts[i], pts[i + 1] if i + 1 < len(pts) else N): out[c] = True
    return out


al, longs = {}, {}
for l in open(os.path.join(D, "perl_aliases.txt")):
    a = l.rstrip("\n").split("\t")
    for x in a[1:]: al[(a[0], x)] = a[1]
    for x in a[1:]: longs[(a[0], x.replace("_", "").replace(" ", "").replace("-", "").upper())] = a[1]

GC = {0: "Cn", 1: "Lu", 2: "Ll", 3: "Lt", 4: "Lm", 5: "Lo", 6: "Mn", 7: "Me", 8: "Mc", 9: "Nd", 10: "Nl", 11: "No", 12: "Zs", 13: "Zl", 14: "Zp",
      15: "Cc", 16: "Cf", 18: "Co", 19: "Cs", 20: "Pd", 21: "Ps", 22: "Pe", 23: "Pc", 24: "Po", 25: "Sm", 26: "Sc", 27: "Sk", 28: "So", 29: "Pi", 30: "Pf"}
BC = {0: "L", 1: "R", 2: "AL", 3: "EN", 4: "ES", 5: "ET", 6: "AN", 7: "CS", 8: "NSM", 9: "BN", 10: "B", 11: "S", 12: "WS", 13: "ON", 14: "LRE",
      15: "LRO", 16: "RLE", 17: "RLO", 18: "PDF", 19: "LRI", 20: "RLI", 21: "FSI", 22: "PDI"}
gc = [GC[int(v)] for v in load("java_gc.txt")]
un13 = [v == "Cn" for v in gc]
notes = {}


def write(name, vals, src, note=""):
    starts, ids, table = [], [], {}
    prev = object()
    last = 0
    for c, v in enumerate(vals):
        if v != prev:
            starts.append(c - last)
            last = c
            ids.append(table.setdefault(v if not isinstance(v, list) else tuple(v), len(table)))
            prev = v
    json.dump({"source": src, "note": note, "values": list(table), "ids": ids, "starts": starts},
              open(os.path.join(OUT, name + ".json"), "w"), separators=(",", ":"))
    print(name, len(starts), "runs", len(table), "values")


def inr(c, *rs): return any(a <= c <= b for a, b in rs)


DT = {"canonical": "can", "compat": "com", "circle": "enc", "final": "fin", "font": "font", "fraction": "fra", "initial": "init", "isolated": "iso",
      "medial": "med", "narrow": "nar", "nobreak": "nb", "none": "none", "small": "sml", "square": "sqr", "sub": "sub", "super": "sup", "vertical": "vert", "wide": "wide"}
PERL = "perl 5.38 (Unicode 15.0) reduced to 13.0"
JAVA = "JDK 17 java.lang.Character (Unicode 13.0)"
# values that changed after 13.0: (property, code points) -> value in 13.0
CHANGED = {
    "lb": {**{c: "CM" for c in (0x1DCD, 0x1DFC)}, 0x2057: "AL"},
    "gcb": {0x11720: "SM", 0x11721: "SM", 0x1734: "EX"},
    "sb": {0x10FC: "LE", 0xAB69: "LE"},
    "jt": {0x1734: "T"},
    "Alphabetic": {c: False for c in (0xC04, 0xF82, 0xF83, 0x11080, 0x11081)},
    "Diacritic": {c: False for c in (0x1714, 0x1ABE, 0x1DFB, 0x1DFC, 0x11046)},
    "Grapheme_Extend": {0x1734: True}, "Grapheme_Base": {0x1734: False},
}


def reduce13(name, ref, default):
    ch = CHANGED.get(name, {})
    out = []
    for c in range(N):
        if c in ch: out.append(ch[c])
        elif un13[c]: out.append(default(c, ref[c]) if callable(default) else default)
        else: out.append(ref[c])
    write(name, out, PERL, "13.0 values of changed code points: " + ", ".join(f"{c:04X}={v}" for c, v in ch.items()))


def short(p, vals): return [al.get((p, v), v).replace("_", " ") for v in vals]


write("gc", gc, JAVA)
bc = [int(v) for v in load("java_bc.txt")]
# the JDK reports "undefined" (-1) for unassigned code points: their class follows DerivedBidiClass.txt (13.0)


def bc_default(c):
    # noncharacters and unassigned default ignorables are BN; ranges reserved for right-to-left scripts are R or AL
    if inr(c, (0xFDD0, 0xFDEF)) or c & 0xFFFE == 0xFFFE: return "BN"
    if inr(c, (0x2065, 0x2065), (0xFFF0, 0xFFF8), (0xE0000, 0xE0FFF)): return "BN"
    if inr(c, (0x600, 0x7BF), (0x860, 0x86F), (0x8A0, 0x8FF), (0xFB50, 0xFDCF), (0xFDF0, 0xFDFF), (0xFE70, 0xFEFF), (0x10D00, 0x10D3F), (0x10F30, 0x10F6F), (0x1EC70, 0x1ECBF),
           (0x1ED00, 0x1ED4F), (0x1EE00, 0x1EEFF)): return "AL"
    if inr(c, (0x590, 0x5FF), (0x7C0, 0x85F), (0x870, 0x89F), (0xFB1D, 0xFB4F), (0x10800, 0x10CFF), (0x10D40, 0x10F2F), (0x10F70, 0x10FFF), (0x1E800, 0x1EC6F), (0x1ECC0, 0x1ECFF),
           (0x1ED50, 0x1EDFF), (0x1EF00, 0x1EFFF)): return "R"
    if inr(c, (0x20A0, 0x20CF)): return "ET"
    return "L"


write("bc", [BC[bc[c]] if bc[c] >= 0 else bc_default(c) for c in range(N)], JAVA + "; unassigned: DerivedBidiClass.txt 13.0 rules")
write("Bidi_Mirrored", [v == "true" for v in load("java_mirrored.txt")], JAVA)
write("sc", [longs[("sc", v.replace("_", ""))] for v in load("java_script.txt")], JAVA)
JB = {"NO_BLOCK": "NB"}
blk = []
for v in load("java_block.txt"):
    if v not in JB: JB[v] = None
def jblock(v):
    k = v.replace("_", "").upper()
    k = {"SURROGATESAREA": None}.get(k, k)
    for cand in (k, {"GREEK": "GREEKANDCOPTIC"}.get(k), {"COMBININGMARKSFORSYMBOLS": "COMBININGDIACRITICALMARKSFORSYMBOLS", "CYRILLICSUPPLEMENTARY": "CYRILLICSUPPLEMENT",
                                                     "PHONETICEXTENSIONS": "PHONETICEXTENSIONS", "PRIVATEUSEAREA": "PRIVATEUSEAREA"}.get(k)):
        if cand and ("blk", cand) in longs: return longs[("blk", cand)].replace("_", " ")
    raise KeyError(v)
write("blk", [JB[v] if JB[v] else JB.__setitem__(v, jblock(v)) or JB[v] for v in load("java_block.txt")], JAVA)


def ea_default(c, ref):
    return "W" if inr(c, (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xF900, 0xFAFF), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)) else "N"


def lb_default(c, ref):
    if inr(c, (0x20A0, 0x20CF)): return "PR"
    if inr(c, (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xF900, 0xFAFF), (0x1F000, 0x1FAFF), (0x1FC00, 0x1FFFD), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)): return "ID"
    return "XX"


def gcb_default(c, ref):       # unassigned default ignorable code points are controls
    return "CN" if inr(c, (0x2065, 0x2065), (0xFFF0, 0xFFF8), (0xE0000, 0xE0FFF)) else "XX"


reduce13("ea", short("ea", load("perl_East_Asian_Width.txt")), ea_default)
reduce13("lb", short("lb", load("perl_Line_Break.txt")), lb_default)
tail = {"ExtPict_XX": "XX", "ExtPict_LE": "LE"}
reduce13("gcb", [tail.get(v.replace(" ", "_"), v) for v in short("GCB", load("perl_Grapheme_Cluster_Break.txt"))], gcb_default)
wb0 = load("perl_Word_Break.txt")
wb = []
for c, v in enumerate(short("WB", wb0)):
    v = tail.get(v.replace(" ", "_"), v)
    if v == "Perl Tailored HSpace": v = "WSegSpace" if gc[c] == "Zs" and c not in (0xA0, 0x2007, 0x202F) else "XX"
    wb.append(v)
reduce13("wb", wb, "XX")
reduce13("sb", short("SB", load("perl_Sentence_Break.txt")), "XX")
reduce13("jt", short("jt", load("perl_Joining_Type.txt")), lambda c, r: "T" if r == "T" and unicodedata.category(chr(c)) == "Cn" else "U")
reduce13("jg", short("jg", load("perl_Joining_Group.txt")), "No Joining Group")
reduce13("dt", [DT.get(v.lower(), v.lower()) for v in load("perl_Decomposition_Type.txt")], "none")
age = load("perl_Age.txt")
write("age", ["0.0" if v in ("Unassigned", "14.0", "15.0") else v for v in age], PERL)
reduce13("nt", load("perl_Numeric_Type.txt"), "None")
nv, run = [], 0
pnv = load("perl_Numeric_Value.txt")
starts = {int(l.split("\t")[0], 16) for l in open(os.path.join(D, "perl_Numeric_Value.txt")) if l[0] != "#"}
for c in range(N):                        # the map is "adjusted": integers count up within a range
    if c in starts: run = c
    nv.append(str(int(pnv[c]) + c - run) if pnv[c].lstrip("-").isdigit() else pnv[c])
reduce13("nv", nv, "NaN")
write("digit", [int(v) for v in load("java_digit.txt")], JAVA + ".digit(c,10); fullwidth and ASCII letters are not digits in base 10")

PRE = {"Extended_Pictographic", "Pattern_Syntax", "Noncharacter_Code_Point", "Default_Ignorable_Code_Point"}
for f in sorted(os.listdir(D)):
    if not f.startswith("perlb_"): continue
    p = f[6:-4]
    if p in ("Bidi_Mirrored", "Lowercase", "Uppercase", "Cased", "Case_Ignorable", "Soft_Dotted", "Regional_Indicator"): continue
    if p == "Default_Ignorable_Code_Point": CHANGED[p] = {0x180F: False}
    reduce13(p, binload(p), (lambda c, r: r) if p in PRE else False)
ccc = load("perl_Canonical_Combining_Class.txt")
write("Grapheme_Link", [not un13[c] and unicodedata.combining(chr(c)) == 9 for c in range(N)], "canonical combining class 9 (Virama): CPython unicodedata 15.0 reduced to 13.0")

bmg, bpb, bpt = load("perl_Bidi_Mirroring_Glyph.txt"), load("perl_Bidi_Paired_Bracket.txt"), load("perl_Bidi_Paired_Bracket_Type.txt")
for name, t in (("bmg", bmg), ("bpb", bpb)):
    json.dump({"source": PERL, "map": {f"{c:X}": f"{int(v):X}" for c, v in enumerate(t) if v and not un13[c] and int(v) != c}}, open(os.path.join(OUT, name + ".json"), "w"), separators=(",", ":"))
write("bpt", [v if not un13[c] else "n" for c, v in enumerate(bpt)], PERL)


def sp(name, m, src): json.dump({"source": src, "map": {f"{c:X}": v for c, v in sorted(m.items())}}, open(os.path.join(OUT, name + ".json"), "w"), separators=(",", ":")); print(name, len(m))


for n in ("slc", "suc", "stc", "lc", "uc", "nfd"): sp(n, sparse(f"java_{n}.txt"), JAVA.replace("Character", "*"))
# full titlecase and raw decompositions: CPython / perl
tc = {}
for c in range(N):
    if un13[c] or 0xD800 <= c < 0xE000: continue
    t = chr(c).title()
    if t != chr(c): tc[c] = " ".join(f"{ord(x):04X}" for x in t)
sp("tc", tc, "CPython 3.12 str.title (Unicode 15.0) reduced to 13.0")
raw = {}
for c in range(N):
    if un13[c]: continue
    d = unicodedata.decomposition(chr(c))
    if d and d[0] != "<": raw[c] = d
sp("raw", raw, "CPython 3.12 unicodedata.decomposition (Unicode 15.0) reduced to 13.0; canonical only, without Hangul")
json.dump({"source": "perl 5.38 PropertyValueAliases (Unicode 15.0)", "aliases": [l.rstrip("\n").split("\t") for l in open(os.path.join(D, "perl_aliases.txt"))]},
          open(os.path.join(OUT, "value_aliases.json"), "w"), separators=(",", ":"))
