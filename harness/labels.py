"""L01: the name tables of the enumerated properties."""
from UnicodeData import BidiProps, CharProps
from UnicodeData import UCDTypeDictionaries as UD
from UnicodeData import Blocks, Boundaries, CharDirection, DecompositionType, EastAsianWidth, GeneralCategories
from UnicodeData import JoiningTypesAndGroups, LayoutTypes, Scripts
from harness import refdata


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


# property: (lookup, the two tables, reference run table or None, alias property or None)
TABLES = {
    "gc": (CharProps, "getGeneralCategory", "generalCategoryNames", (GeneralCategories, "generalCategories"), "gc", "gc"),
    "sc": (CharProps, "getScript", "scriptNames", (Scripts, "scriptCodes"), "sc", None),
    "blk": (CharProps, "getBlock", "blockNames", (Blocks, "blockNames"), "blk", "blk"),
    "ea": (CharProps, "getEastAsianWidth", "eastAsianWidthNames", (EastAsianWidth, "eastAsianWidthNames"), "ea", "ea"),
    "lb": (CharProps, "getLineBreak", "lineBreakNames", (Boundaries, "lineBreakNames"), "lb", "lb"),
    "wb": (CharProps, "getWordBreak", "wordBreakNames", (Boundaries, "wordBreakNames"), "wb", "WB"),
    "sb": (CharProps, "getSentenceBreak", "sentenceBreakNames", (Boundaries, "sentenceBreakNames"), "sb", "SB"),
    "gcb": (CharProps, "getGraphemeClusterBreak", "graphemeClusterBreakNames", (Boundaries, "graphemeClusterBreakNames"), "gcb", "GCB"),
    "dt": (CharProps, "getDecompType", "decompositionTypeNames", (DecompositionType, "decompositionTypeNames"), "dt", "dt"),
    "bc": (BidiProps, "getCharDirection", "bidiClassNames", (CharDirection, "bidiClassNames"), "bc", "bc"),
    "jt": (BidiProps, "getJoiningType", "joiningTypeNames", (JoiningTypesAndGroups, "joiningTypes"), "jt", "jt"),
    "jg": (BidiProps, "getJoiningGroup", "joiningGroupNames", (JoiningTypesAndGroups, "joiningGroups"), "jg", "jg"),
    "inpc": (None, None, "indicPositionalCategoryNames", (LayoutTypes, "inpcNames"), None, "InPC"),
    "insc": (None, None, "indicSyllabicCategoryNames", (LayoutTypes, "inscNames"), None, "InSC"),
    "vo": (None, None, "verticalOrientationNames", (LayoutTypes, "voNames"), None, "vo"),
    "nt": (CharProps, "getNumericType", "numberTypeNames", None, None, "nt"),
    "hst": (None, None, "hangulSyllableTypeNames", None, None, "hst"),
}
REPORTED = [p for p in TABLES if TABLES[p][0] is not None and TABLES[p][4]]


def tables(prop):
    first = getattr(UD, TABLES[prop][2])
    second = TABLES[prop][3]
    return [first] + ([getattr(*second)] if second else [])


def canon(prop, name):
    """Names are compared the way the tables print them: blanks for underscores; decomposition types in lower case."""
    name = name.replace("_", " ")
    return name.lower() if prop == "dt" else name


def canonical(prop, table):
    return {k: canon(prop, v) if isinstance(v, str) else v for k, v in table.items()}


def reported(eng, c, prop):
    """Every code that the lookup reports has the reference's name, in each table."""
    mod, fn = TABLES[prop][:2]
    v = eng.noraise(f"{prop}: lookup does not fail", getattr(mod, fn), c)
    ref = refdata.runs(TABLES[prop][4], lambda n: canon(prop, n), key=("label", prop))
    for t in tables(prop):
        name = eng.noraise(f"{prop}: every reported code has a name", lambda: canonical(prop, t)[v])
        eng.check(name == ref[c], f"{prop}: the reported code has the official short name")


def official(prop):
    ali = TABLES[prop][5]
    return {canon(prop, r[1]) for r in refdata._load("value_aliases")["aliases"] if r[0] == ali}


def table(eng, prop):
    """All pairs of codes of each table."""
    ts = tables(prop)
    keys = sorted(k for k in ts[0] if isinstance(k, int))
    eng.check(all(isinstance(k, int) for t in ts for k in t), f"{prop}: codes are integers")
    eng.check(all(isinstance(n, str) and n for t in ts for n in t.values()), f"{prop}: names are strings")
    i = eng.int("i", 0, len(keys) - 1)
    a = keys[i]
    for t in ts:
        eng.check(sorted(t) == keys, f"{prop}: the tables name the same codes")
        ct = canonical(prop, t)
        na = eng.noraise(f"{prop}: the code has a name", lambda: ct[a])
        if TABLES[prop][5]:
            eng.check(na in official(prop), f"{prop}: the name is an official short alias")
        eng.check(na == canonical(prop, ts[0])[a], f"{prop}: the tables agree on the name")
        if len(keys) > 1:
            j = eng.int("j", 0, len(keys) - 1)
            eng.check(eng.Implies(i != j, ct[keys[j]] != na), f"{prop}: distinct codes have distinct names")


def tasks_L01(tier):
    return [task("table", p) for p in TABLES] + [t for p in REPORTED for t in cubes("reported", p)]


PROPS = {
    "L01": dict(tasks=tasks_L01,
                assumptions=["the reference tables in /verif/refdata (JDK 17 = Unicode 13.0) and perl's PropertyValueAliases are the official values and short names",
                             "blanks for underscores, and lower case for decomposition types, do not make another name"],
                bounds="all code points (symbolic cubes) for the codes that lookups report; all pairs of codes of all 17 enumerated properties' tables (symbolic indices)",
                outside="script codes that no Unicode 13 character has are checked for distinctness and agreement only; properties without a lookup in this tree (hst) or with a data file lookup (InPC, InSC, vo) for table contents only",
                explain="code from the real lookup on a symbolic code point, named through both name tables, against the reference; and a symbolic pair of codes per table",
                expect=["sc: the reported code has the official short name", "blk: distinct codes have distinct names", "jg: the tables agree on the name",
                        "insc: the name is an official short alias"]),
}
