"""G02: dictionaries that the module builder makes from ICU's alias records."""
import csv
import functools
import importlib
import json
import os
import sys
from pathlib import PurePosixPath

import harness
from harness.xml import pick, task, text

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (constant prefix, dictionary, how the short name is shown), written from ICU's headers and the shipped module's interface
KINDS = {"bc": ("U", "bidiClass", "blank"), "blk": ("UBLOCK", "block", "blank"), "dt": ("U_DT", "decompositionType", "lower"),
         "ea": ("U_EA", "eastAsianWidth", "blank"), "gc": ("U", "generalCategory", "blank"), "GCB": ("U_GCB", "graphemeClusterBreak", "blank"),
         "hst": ("U_HST", "hangulSyllableType", "blank"), "InPC": ("U_INPC", "indicPositionalCategory", "same"),
         "InSC": ("U_INSC", "indicSyllabicCategory", "same"), "jg": ("U_JG", "joiningGroup", "blank"), "jt": ("U_JT", "joiningType", "blank"),
         "lb": ("U_LB", "lineBreak", "blank"), "nt": ("U_NT", "numberType", "blank"), "SB": ("U_SB", "sentenceBreak", "blank"),
         "sc": ("USCRIPT", "script", "blank"), "vo": ("U_VO", "verticalOrientation", "blank"), "WB": ("U_WB", "wordBreak", "blank")}
OTHER = ["ccc", "age", "WSpace", "GC", "NFC_QC"]


class Source:
    """The opened record file: lines of fields joined by semicolons."""
    def __init__(self, rows): self.rows, self.closed, self.at = rows, False, 0
    def __iter__(self): return self
    def __next__(self):
        line = self.readline()
        if len(line) == 0: raise StopIteration
        return line
    def readline(self):
        if self.at == len(self.rows): return ""
        self.at += 1
        return ";".join(self.rows[self.at - 1]) + "\n"
    def readlines(self): return list(self)
    def read(self): return "".join(list(self))
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class Sink:
    """The opened result."""
    def __init__(self): self.parts, self.closed = [], False
    def write(self, s): self.parts.append(s)
    def writelines(self, ss): self.parts += list(ss)
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class StubPath(PurePosixPath):
    """A path whose files are opened by the harness."""
    opener = None
    def open(self, mode="r", *a, **kw): return StubPath.opener(self, mode)
    def read_text(self, *a, **kw): return StubPath.opener(self, "r").read()
    def write_text(self, data, *a, **kw):
        with StubPath.opener(self, "w") as f: f.write(data)
        return len(data)
    def exists(self): return True
    is_file = is_dir = exists
    def mkdir(self, *a, **kw): pass


class Csv:
    """csv, with a reader that takes the fields of a Source as they are (no field holds a quote, separator or line end)."""
    def __getattr__(self, name): return getattr(csv, name)
    def reader(self, f, *a, **kw):
        if not isinstance(f, Source) or kw.get("delimiter", a[0] if a else ",") != ";": return csv.reader(f, *a, **kw)
        rows, f.at = f.rows[f.at:], len(f.rows)
        return iter([list(r) for r in rows])


class Silent:
    """A stub for a module of the builder's environment that is not installed here."""
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return Silent


def module(name):
    m = sys.modules.get("module_builder." + name)
    if m is None:
        m = importlib.import_module("module_builder." + name)
        if harness.SYMBOLIC:
            from symx.state import persist
            persist(m)
    return m


def generate(eng, rows):
    """What the reader writes for these records; [(dictionary, [line, ..]), ..]."""
    m = module("UCDReader")
    source, sinks = Source([list(r) for r in rows]), []

    def open_(path, mode="r", *a, **kw):
        if "w" in mode or "x" in mode:
            sinks.append((str(path), Sink()))
            return sinks[-1][1]
        return source if str(path).endswith("ppucd.txt") else open(path, mode, *a, **kw)
    m.open, m.csv, StubPath.opener = open_, Csv(), open_
    def run():
        r = m.UCDReader(StubPath("/nonexistent/icu"), StubPath("/nonexistent/out"))
        r.generateDictionaries()
        v = r.ucdVersion
        r.writeFile()
        return v
    try:
        version = eng.noraise("alias records of any names are accepted", run)
    finally:
        m.csv = csv
        del m.open
    eng.check(len(sinks) == 1 and sinks[0][0].endswith("UCDTypeDictionaries.py"), "one module is written")
    eng.check(sinks[0][1].closed, "the result is closed")
    return "".join(sinks[0][1].parts), version


def shown(eng, style, cs):
    if style == "blank": return [eng.Ite(c == ord("_"), 32, c) for c in cs]
    if style == "lower": return [eng.Ite(eng.And(c >= 65, c <= 90), c + 32, c) for c in cs]
    return list(cs)


def upper(eng, cs): return [eng.Ite(eng.And(c >= 97, c <= 122), c - 32, c) for c in cs]


def expect(eng, got, blocks):
    """The written text is a head without dictionaries, then the expected dictionaries."""
    want = []
    for name, lines in blocks:
        want += [ord(x) for x in name + "Names = {\n"]
        for k, (const, short) in enumerate(lines):
            if k: want += [44, 10]
            want += [32] * 4 + list(const) + [58, 32, 34] + list(short) + [34]
        want += [ord(x) for x in "\n}\n\n"]
    n = len(got) - len(want)
    eng.check(n >= 0, "the dictionaries have the expected length")
    head = got[:n]
    eng.check("from .uchar_h import *\n" in head and "from .uscript_h import *\n" in head, "the module imports the constants")
    eng.check("Names = {" not in head, "no other dictionary")
    eng.check(eng.And(True, *[ord(got[n + k]) == w for k, w in enumerate(want)]), "one entry per alias record: constant and short name")


def identifier(eng, name, n):
    """A symbolic name of n letters, digits and underscores, and its characters."""
    t, cs = text(eng, name, n, 48, 122)
    for c in cs: eng.assume(eng.Or(c <= 57, eng.And(c >= 65, c <= 90), c == 95, c >= 97))
    return t, cs


def one(eng, kind, ns, nl):
    """One record of any names."""
    short, cs = identifier(eng, "s", ns)
    long, cl = identifier(eng, "l", nl)
    extra = pick(eng, "further aliases", [[], ["More"], ["More", "Still_More"]])
    got, _ = generate(eng, [["value", kind, short, long] + extra])
    p, name, style = KINDS[kind]
    expect(eng, got, [(name, [([ord(x) for x in p + "_"] + upper(eng, cl), shown(eng, style, cs))])])


def several(eng, kinds, n):
    """n records of any of these kinds (or of others, which are left out), with blank lines and other records between them."""
    rows, blocks = [["# comment"], [], ["ucd", "13.0.0"]], {}
    for k in range(n):
        kind = pick(eng, f"kind{k}", list(kinds))
        short, cs = identifier(eng, f"s{k}.", 1)
        long, cl = identifier(eng, f"l{k}.", 2)
        rows.append(["value", kind, short, long])
        if k == 0: rows += [["property", "Enum", kind, "Long"], [], ["cp", "0041", "value"]]
        if kind in KINDS:
            p, name, style = KINDS[kind]
            blocks.setdefault(name, []).append(([ord(x) for x in p + "_"] + upper(eng, cl), shown(eng, style, cs)))
    got, version = generate(eng, rows)
    eng.check(version == "13.0.0", "the version is that of the file")
    expect(eng, got, list(blocks.items()))


@functools.lru_cache(None)
def aliases():
    """The official aliases (perl) of the properties, as far as this tree's constants and dictionaries have them."""
    from UnicodeData import UCDTypeDictionaries as UD
    out = []
    data = json.load(open(os.path.join(HERE, "refdata/value_aliases.json")))["aliases"]
    for r in data:
        if len(r) < 3: continue
        for kind, (p, name, style) in KINDS.items():
            if r[0].lower() != kind.lower(): continue
            d = getattr(UD, name + "Names", None)
            if d is None: continue
            s = r[1].replace("_", " ") if style == "blank" else r[1].lower() if style == "lower" else r[1]
            codes = [k for k, v in d.items() if v.replace("_", " ") == s.replace("_", " ")]
            if len(codes) == 1: out.append((kind, r[1], r[2], codes[0]))
            elif not codes and kind == "gc": out.append((kind, r[1], r[2], None))       # groups of categories have no constant
    return out


def official(eng, kind, part):
    """Every official alias record of this tree's version: the entry's constant is the one that means it."""
    from UnicodeData import uchar_h, uscript_h
    rs = [r for r in aliases() if r[0] == kind]
    k = eng.int("record", part, min(part + 31, len(rs) - 1)).__index__()
    _, short, long, code = rs[k]
    got, _ = generate(eng, [["value", kind, short, long]])
    p, name, style = KINDS[kind]
    body = got[got.index(name + "Names = {\n") + len(name) + 10:] if name + "Names = {\n" in got else ""
    body = body.strip().rstrip("}").strip()
    if code is None:
        eng.check(body == "", "a group of categories has no entry")
        return
    const, _, shown_ = body.partition(": ")
    vals = {**vars(uscript_h), **vars(uchar_h)}
    eng.check(const in vals and vals[const] == code, "an official alias is entered under the constant that means it", f"{kind} {short} {long}: {const}")
    s = short.replace("_", " ") if style == "blank" else short.lower() if style == "lower" else short
    eng.check(shown_ == f'"{s}"', "an official alias is entered under the constant that means it")


def tasks_G02(tier):
    q = tier == "quick"
    out = []
    for kind in KINDS:
        for ns, nl in ((1, 1), (2, 3), (3, 2), (0, 2)) if q else ((1, 1), (2, 3), (3, 2), (0, 2), (4, 3), (2, 20), (12, 2)):
            out.append(task("one", kind, ns, nl))
        out += [task("official", kind, k) for k in range(0, len([r for r in aliases() if r[0] == kind]), 32)]
    ks = list(KINDS)
    for k in range(len(ks)):
        out.append(task("several", (ks[k], ks[(k + 5) % len(ks)], OTHER[k % len(OTHER)]), 3 if q else 4))
    return out


PROPS = {
    "G02": dict(tasks=tasks_G02,
                assumptions=["the table of constant prefixes and dictionary names in harness/builder.py; csv splits a line at the semicolons (its model takes the fields as they are)",
                             "names are ASCII letters, digits and underscores; symbolic long names have lengths no irregular name of ICU has, official names are all taken as they are"],
                bounds={"quick": "one record of every one of 17 properties with any short name of 0..3 and any long name of 1..3 characters and up to two more aliases; 3 records of any of three kinds each, between other records; every official alias (perl's list) of the properties in this tree",
                        "thorough": "names of up to 12 and 20 characters; 4 records"},
                outside="quoted fields; names ICU's constants spell irregularly and the official list does not have",
                explain="UCDReader is run over records with symbolic names; the text it writes is compared character by character with the dictionaries that the records describe",
                expect=["one entry per alias record: constant and short name", "an official alias is entered under the constant that means it", "the version is that of the file"]),
}
