"""B01..B04: BidiProps."""
from UnicodeData import BidiProps
from UnicodeData import UCDTypeDictionaries as UD
from UnicodeData import uchar_h
from harness import refdata

TOP = 0x110000


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


def direction(eng, c):
    v = eng.noraise("bidi class lookup does not fail", BidiProps.getCharDirection, c)
    name = eng.noraise("bidi class has a name", lambda: UD.bidiClassNames[v])
    eng.check(name == refdata.runs("bc")[c], "bidi class is the Unicode 13 value")


FLAGS = {"isMirrored": "Bidi_Mirrored", "isBidiControl": "Bidi_Control", "isJoinControl": "Join_Control"}


def flags(eng, c):
    for fn, ref in FLAGS.items():
        v = eng.noraise("flag lookup does not fail", getattr(BidiProps, fn), c)
        eng.check(eng.Iff(v, refdata.runs(ref)[c]), f"{ref} is the Unicode 13 value")


def delta_table(name):
    return refdata.sparse_table(name, lambda c, l: l[0] - c, 0, "delta")


def mirror(eng, c):
    m = eng.noraise("mirror lookup does not fail", BidiProps.getMirror, c)
    eng.check(m == c + delta_table("bmg")[c], "mirror image is the Unicode 13 value")
    eng.check(eng.And(m >= 0, m < TOP), "mirror image is a code point")
    if m != c:
        eng.check(BidiProps.isMirrored(c), "only mirrored characters have another mirror image")
        eng.check(eng.noraise("mirror lookup does not fail", BidiProps.getMirror, m) == c, "mirroring twice returns the code point")


BPT = {"n": uchar_h.U_BPT_NONE, "O": uchar_h.U_BPT_OPEN, "C": uchar_h.U_BPT_CLOSE}


def bracket(eng, c):
    t = eng.noraise("bracket type lookup does not fail", BidiProps.getPairedBracketType, c)
    eng.check(t == refdata.runs("bpt", lambda v: BPT[v], key="code")[c], "paired bracket type is the Unicode 13 value")
    p = eng.noraise("paired bracket lookup does not fail", BidiProps.getPairedBracket, c)
    eng.check(p == c + delta_table("bpb")[c], "paired bracket is the Unicode 13 value")
    if t == BPT["n"]:
        eng.check(p == c, "a character that is no bracket pairs with itself")
    else:
        t2 = eng.noraise("bracket type lookup does not fail", BidiProps.getPairedBracketType, p)
        eng.check(eng.And(p != c, t2 == BPT["O"] + BPT["C"] - t), "an opening bracket pairs with a closing one and vice versa")
        eng.check(eng.noraise("paired bracket lookup does not fail", BidiProps.getPairedBracket, p) == c, "the pair of the pair is the bracket itself")


def joining_type(eng, c):
    v = eng.noraise("joining type lookup does not fail", BidiProps.getJoiningType, c)
    name = eng.noraise("joining type has a name", lambda: UD.joiningTypeNames[v])
    eng.check(name == refdata.runs("jt")[c], "joining type is the Unicode 13 value")


def joining_group(eng, c):
    v = eng.noraise("joining group lookup does not fail", BidiProps.getJoiningGroup, c)
    name = eng.noraise("joining group has a name", lambda: UD.joiningGroupNames[v])
    eng.check(name == refdata.runs("jg")[c], "joining group is the Unicode 13 value")


CUBED = "all code points U+0000..U+10FFFF, as symbolic cubes that cover the code space without sampling"
REF = ["the reference tables in /verif/refdata (JDK 17 = Unicode 13.0, perl 5.38 and CPython) are the Unicode 13.0 values"]
SRC = "code and tables are loaded from the current BidiProps/BidiPropsData sources"

PROPS = {
    "B01": dict(tasks=lambda tier: cubes("direction") + cubes("flags"), assumptions=REF, bounds=CUBED,
                explain="getCharDirection and its name, isMirrored, isBidiControl, isJoinControl on a symbolic code point against the reference; " + SRC,
                expect=["bidi class is the Unicode 13 value"] + [f"{r} is the Unicode 13 value" for r in FLAGS.values()]),
    "B02": dict(tasks=lambda tier: cubes("mirror"), assumptions=REF, bounds=CUBED,
                explain="getMirror on a symbolic code point against the reference, applied twice; " + SRC,
                expect=["mirror image is the Unicode 13 value", "mirroring twice returns the code point"]),
    "B03": dict(tasks=lambda tier: cubes("bracket"), assumptions=REF, bounds=CUBED,
                explain="getPairedBracketType/getPairedBracket on a symbolic code point against the reference, applied twice; " + SRC,
                expect=["paired bracket is the Unicode 13 value", "the pair of the pair is the bracket itself"]),
    "B04": dict(tasks=lambda tier: cubes("joining_type") + cubes("joining_group"), assumptions=REF, bounds=CUBED,
                explain="getJoiningType/getJoiningGroup and names against the reference; " + SRC,
                expect=["joining type is the Unicode 13 value", "joining group is the Unicode 13 value"]),
}
