"""M01..M04: character names.  The name data file is not in the tree; the module is imported over a synthetic package."""
from harness import icudata, refdata
from harness.icudata import u16, u32, cstr
from harness.tries import pick
from symx.state import fingerprint, again

TOP = 0x110000
HEX = "0123456789ABCDEF"
NAME, NAME_1_0, EXTENDED, ALIAS, COMMENT = 0, 1, 2, 3, 4


def task(fn, *args, weight=1, **opts):
    from check import Task
    o = {"max_runs": None}
    o.update(opts)
    return Task(fn, args, None, o, weight)


def cubes(fn, *args, **kw):
    from check import code_point_cubes
    return code_point_cubes(fn, args, **kw)


# ---------------------------------------------------------------- the format
def unames(groups=(), ranges=(), tokens=(), token_text=(0,), header_length=32):
    """groups: [(block number, bytes of packed lengths and strings)] (equal byte lists are not shared); ranges: [bytes]."""
    out = u16(len(tokens))
    for t in tokens: out += u16(t)
    text_at = 16 + len(out)
    out += list(token_text)
    groups_at = 16 + len(out)
    out += u16(len(groups))
    body = []
    for msb, data in groups:
        out += u16(msb) + u16(len(body) >> 16) + u16(len(body) & 0xFFFF)
        body += list(data)
    while (len(out) + len(body)) % 4: body.append(0)
    strings_at = 16 + len(out)
    out += body
    alg_at = 16 + len(out)
    out += u32(len(ranges))
    for r in ranges: out += list(r)
    return icudata.header(header_length, "unam") + u32(text_at) + u32(groups_at) + u32(strings_at) + u32(alg_at) + out


def nibbles(length, double):
    return [0xC | (length - 12) >> 4, (length - 12) & 15] if double else [length]


def pack(ns):
    if len(ns) & 1: ns = ns + [0]
    return [a << 4 | b for a, b in zip(ns[::2], ns[1::2])]


def group(strings):
    """Packed lengths and text of 32 concrete strings."""
    ns, body = [], []
    for s in strings:
        ns += nibbles(len(s), len(s) > 11)
        body += [x if isinstance(x, int) else ord(x) for x in s]
    return pack(ns) + body


def algorithmic(start, end, variant, prefix, gap=0):
    body = list(prefix) + [0] + [0] * gap
    return u32(start) + u32(end) + [0, variant] + u16(12 + len(body)) + body


def factorised(start, end, factors, prefix, elements):
    body = []
    for f in factors: body += u16(f)
    body += list(prefix) + [0]
    for e in elements: body += list(e) + [0]
    return u32(start) + u32(end) + [1, len(factors)] + u16(12 + len(body)) + body


def names_module(*args, **kw):
    """Context: the module over this data."""
    return icudata.fresh(icudata.as_bytes(icudata.package({"unames.icu": unames(*args, **kw), "aaaa.icu": icudata.header(32)})), "CharNames")


def same(eng, got, chars, label):
    """The text has exactly these characters."""
    eng.check(len(got) == len(chars) and eng.And(True, *[ord(g) == w for g, w in zip(got, chars)]), label)


def twice(eng, m, ask):
    """Runs a query; when it leaves something behind in the module, another one with inputs of its own."""
    mark = fingerprint(m)
    ask("")
    if again(eng, m, mark): ask("second ")


def hexdigits(eng, code, least):
    n = least
    while n < 6 and code >= 16 ** n: n += 1
    return [ord(HEX[(code >> 4 * k) & 15]) for k in range(n - 1, -1, -1)]


# ---------------------------------------------------------------- M01
def text(eng, name, n):
    return [eng.int(f"{name}{k}", 1, 127) for k in range(n)]


def alg_hex(eng, n, variant, place):
    """A range of type 0, alone or next to others."""
    start, end = eng.int("start", 0, TOP - 1), eng.int("end", 0, TOP - 1)
    eng.assume(start <= end)
    prefix = text(eng, "p", n)
    this = algorithmic(start, end, variant, prefix)
    a = algorithmic(0x100, 0x1FF, 4, [ord("A")], gap=3)
    b = factorised(0x200, 0x205, [2, 3], [ord("B")], [[97], [98], [99, 99], [100], []])
    ranges = {"alone": [this], "last": [a, b, this], "middle": [b, this, a]}[place]
    if place != "alone": eng.assume(eng.Or(end < 0x100, start > 0x205))
    with names_module(ranges=ranges) as m:
        def ask(tag):
            code = eng.int(tag + "code", 0, TOP - 1)
            eng.assume(eng.And(start <= code, code <= end))
            for choice in (NAME, EXTENDED):
                got = eng.noraise("algorithmic name lookup does not fail", m.CharNames.getCharName, code, choice)
                same(eng, got, prefix + hexdigits(eng, code, variant), "hexadecimal names: prefix and upper-case digits")
            for choice in (NAME_1_0, ALIAS, COMMENT):
                eng.check(m.CharNames.getCharName(code, choice) == "", "other name choices have no algorithmic name")
        twice(eng, m, ask)


JAMO = [["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"],
        ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"],
        ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"]]
SHAPES = {"hangul": (0xAC00, JAMO), "one": (0x50, [["", "x", "yy", "z"]]), "two": (0x1000, [["a", "bb", "c"], ["", "d"]]),
          "wide": (0x3000, [["k%d" % k for k in range(40)], ["l" + chr(97 + k) for k in range(26)]]),
          "four": (0x10FF00, [["a", "b"], ["c", "d", "e"], ["f", "g"], ["hh", "i", "", "jjj", "k"]]),
          "five": (0x20000, [["a", "b"]] * 5)}


def product(xs):
    n = 1
    for x in xs: n *= x
    return n


def build_factorised(shape, start, missing=0):
    factors = [len(e) for e in SHAPES[shape][1]]
    return factorised(start, start + product(factors) - 1 - missing, factors, [ord(x) for x in "PRE "],
                      [[ord(x) for x in e] for es in SHAPES[shape][1] for e in es])


def digits_of(code, start, factors):
    """Mixed radix digits of the offset, the last varying fastest."""
    out, n = [], code - start
    for f in reversed(factors):
        out.insert(0, n % f)
        n = n // f
    return out


def alg_factors(eng, shape, free, place):
    """A range of type 1 against the mixed radix digits of the offset."""
    start, sets = SHAPES[shape]
    total = product(len(e) for e in sets)
    if free: start = eng.int("start", 0, TOP - total)
    this, other = build_factorised(shape, start), algorithmic(TOP - 1, TOP - 1, 6, [])
    with names_module(ranges={"alone": [this], "first": [this, other]}[place]) as m:
        def ask(tag):
            code = eng.int(tag + "code", 0, TOP - 1)
            eng.assume(eng.And(code >= start, code < start + total))
            got = eng.noraise("factorised name lookup does not fail", m.CharNames.getCharName, code, NAME)
            want = "PRE "
            for d, es in zip(digits_of(code, start, [len(e) for e in sets]), sets): want = want + tuple(es)[d]
            eng.check(got == want, "factorised names: prefix and the selected elements")
            eng.check(m.CharNames.getCharName(code, EXTENDED) == want, "extended choice gives the algorithmic name")
            for choice in (NAME_1_0, ALIAS, COMMENT):
                eng.check(m.CharNames.getCharName(code, choice) == "", "other name choices have no algorithmic name")
        twice(eng, m, ask)


def alg_symbolic_elements(eng, factors, lens, nprefix):
    """Elements of any text: lens[i][j] is the length of element j of factor i."""
    start = eng.int("start", 0, TOP - product(factors))
    els = [[text(eng, f"e{i}.{j}.", n) for j, n in enumerate(ls)] for i, ls in enumerate(lens)]
    prefix = text(eng, "p", nprefix)
    data = factorised(start, start + product(factors) - 1, factors, prefix, [e for es in els for e in es])
    with names_module(ranges=[data]) as m:
        def ask(tag):
            code = eng.int(tag + "code", 0, TOP - 1)
            eng.assume(eng.And(code >= start, code < start + product(factors)))
            got = eng.noraise("factorised name lookup does not fail", m.CharNames.getCharName, code, NAME)
            want = list(prefix)
            for d, es in zip(digits_of(code, start, factors), els):
                k = 0
                while k < len(es) - 1 and d != k: k += 1
                want = want + es[k]
            same(eng, got, want, "factorised names: prefix and the selected elements")
        twice(eng, m, ask)


def injective(eng, shape):
    """Two code points of one range have different names."""
    start, sets = SHAPES[shape]
    total = product(len(e) for e in sets)
    a, b = eng.int("a", start, start + total - 1), eng.int("b", start, start + total - 1)
    eng.assume(a < b)
    m = icudata.fixed("factors " + shape, lambda: icudata.package({"unames.icu": unames(ranges=[build_factorised(shape, start)])}), "CharNames")
    eng.check(eng.Not(m.CharNames.getCharName(a) == m.CharNames.getCharName(b)), "names of a range are pairwise different")


def injective_hex(eng, variant):
    start, end = eng.int("start", 0, TOP - 1), eng.int("end", 0, TOP - 1)
    a, b = eng.int("a", 0, TOP - 1), eng.int("b", 0, TOP - 1)
    eng.assume(eng.And(start <= a, a < b, b <= end))
    with names_module(ranges=[algorithmic(start, end, variant, [ord("X"), ord("-")])]) as m:
        eng.check(eng.Not(m.CharNames.getCharName(a) == m.CharNames.getCharName(b)), "names of a range are pairwise different")


def tasks_M01(tier):
    q = tier == "quick"
    t = [task("alg_hex", n, v, p) for n in ((0, 2) if q else (0, 1, 2, 5, 20)) for v in (4, 5, 6) for p in ("alone", "last", "middle")]
    t += [task("alg_factors", s, free, p, weight=30 if s == "hangul" else 5, logic="QF_BV" if free else "INT")
          for s in SHAPES for free in (False, True) for p in ("alone", "first") if not q or (p == "first" and not (free and s == "hangul"))]
    t += [task("alg_symbolic_elements", f, l, n) for f, l, n in
          ([[2], [[1, 2]], 1], [[3], [[0, 1, 1]], 0], [[2, 2], [[1, 1], [2, 0]], 2], [[2, 3], [[0, 1], [1, 1, 2]], 0], [[2, 1, 2], [[1, 1], [3], [1, 0]], 1]) +
          (() if q else ([[3, 3, 3], [[1, 1, 1]] * 3, 1], [[2] * 5, [[1, 2]] * 5, 0], [[5, 4], [[0, 1, 2, 3, 4], [1, 1, 1, 1]], 3]))]
    t += [task("injective", s, weight=40, logic="INT") for s in SHAPES if s not in ("two", "four")] + [task("injective_hex", v) for v in (4, 5, 6)]
    return t


# ---------------------------------------------------------------- M02
FILLER = [33 + (k * k * 7 + k * 13 + (k >> 3) * 5) % 90 for k in range(32 * 76)]
FILLER = [x if x != 0x3B else 0x7E for x in FILLER]


def lengths(eng, at, shape, before, query, shift):
    """Strings at..at+len(shape) have any lengths ('d': 12..75, 's': 0..11); the others are `before` long, up to 11."""
    ls, ns = [], []
    for k in range(32):
        if at <= k < at + len(shape):
            d = shape[k - at] == "d"
            n = eng.int(f"length {k}", 12 if d else 0, 75 if d else 11)
        else:
            d, n = False, before[k % len(before)]
        ls.append(n)
        ns += nibbles(n, d)
    pad = [0xCF] * shift
    groups = [(1, group([[65]] * 32) + pad), (3, pack(ns) + FILLER), (5, group([[66]] * 32))]
    with names_module(groups=groups, ranges=[algorithmic(TOP - 1, TOP - 1, 6, [])]) as m:
        def ask(tag):
            line = pick(eng, "second line", [query, at, (query + 1) % 32, 0, 31]) if tag else query
            if tag and pick(eng, "second group", [3, 1]) == 1:
                return eng.check(m.CharNames.getCharName(0x20 + line, NAME) == "A", "a string has its encoded length")
            start = sum(ls[:line])
            got = eng.noraise("name lookup does not fail", m.CharNames.getCharName, 0x20 * 3 + line, NAME)
            eng.check(len(got) == ls[line], "a string has its encoded length")
            content = tuple(FILLER)
            eng.check(eng.And(True, *[ord(g) == content[start + k] for k, g in enumerate(got) if k in (0, 1, 2, len(got) - 1)]), "a string starts where the strings before it end")
        twice(eng, m, ask)


LITERAL, LEAD = 0xFFFF, 0xFFFE


def expand(eng, tokens, text, units):
    out, i = [], 0
    while i < len(units):
        c = units[i]
        i += 1
        if c < len(tokens):
            t = tokens[c]
            if t == LEAD:
                if i == len(units): eng.assume(False)       # a lead byte at the end is not well-formed
                t = tokens[c * 256 + units[i]]
                i += 1
            if t != LITERAL:
                while text[t] != 0:
                    out.append(text[t])
                    t = t + 1
                continue
        out.append(c)
    return out


def split(eng, units):
    fields = [[]]
    for u in units:
        if u == 0x3B: fields.append([])
        else: fields[-1].append(u)
    return fields


def token_table(eng, kind):
    """(tokens, token text)"""
    if kind == "none": return [], [0]
    if kind == "few":      # the first bytes are tokens of any text
        words = [0] + [eng.int(f"w{k}", 0, 127) for k in range(4)] + [0]
        return [eng.bits(f"t{k}", 0, 3) for k in range(3)] + [LITERAL], words + [0, 0, 0]
    text, at = [], []
    for w in ("", "A", "OF", "LETTER ", "WITH", "x"):
        at.append(len(text))
        text += [ord(x) for x in w] + [0]
    if kind == "single": return [LITERAL if k in (0x20, 0x3B, 0x2D) or 0x41 <= k < 0x5B else at[k % 6] for k in range(0x80)], text
    tokens = [LITERAL if k & 0xFF in (0x20, 0x3B, 0x2D) or k & 0x70 == 0x40 else at[(k * 5 + (k >> 8)) % 6] for k in range(0x300)]
    tokens[1] = tokens[2] = LEAD
    return tokens, text


def strings(eng, kind, start, n, choice, line):
    """A string that starts as given and goes on with n arbitrary bytes, read through a table of tokens."""
    tokens, words = token_table(eng, kind)
    units = [ord(x) for x in start] + [eng.int(f"s{k}", 0, 255) for k in range(n)]
    if kind == "double":
        for a, b in zip(units, units[1:]): eng.assume(eng.Or(b != 0x3B, eng.And(a != 1, a != 2)))
    if kind == "few":
        for t in tokens[:3]: eng.assume(t < len(words))
    others = [[0x41] * (k % 3) for k in range(32)]
    others[line] = units
    fields = split(eng, units)
    with names_module(groups=[(0, group([[66]] * 32)), (0x77, group(others))], tokens=tokens, token_text=words) as m:
        def ask(tag):
            ch = pick(eng, "second choice", [NAME, NAME_1_0, COMMENT, ALIAS]) if tag else choice
            field = {NAME: 0, NAME_1_0: 1, COMMENT: 2, ALIAS: 3}[ch]
            want = expand(eng, tokens, words, fields[field]) if field < len(fields) else []
            got = eng.noraise("name expansion does not fail", m.CharNames.getCharName, 0x77 * 32 + line, ch)
            same(eng, got, want, "the chosen field with its tokens replaced")
        twice(eng, m, ask)


def tasks_M02(tier):
    q = tier == "quick"
    t = []
    for at in (0, 1, 13, 14, 29, 30) if q else range(31):
        for shape in ("s", "d", "sd", "ds", "dd") if q else ("s", "d", "ss", "sd", "ds", "dd", "sds", "dsd", "ddd"):
            for query in sorted({at, at + len(shape) - 1, min(31, at + len(shape)), 31}):
                if at + len(shape) > 32: continue
                b = [[1, 0, 2], [1], [11, 3]][(at + query) % 3]
                t.append(task("lengths", at, shape, b, query, (at * 3 + query) % 7, weight=20 if len(shape) > 1 else 8))
    if not q: t += [task("lengths", at, s, [1], at + query, 0, weight=100) for s in ("s" * 8, "sd" * 3) for at in (0, 7, 24) for query in (3, len(s) - 1)]
    for kind, top in (("none", 5), ("few", 3), ("single", 3), ("double", 2)) if q else (("none", 7), ("few", 4), ("single", 4), ("double", 3)):
        for n in range(top + 1):
            for choice in (NAME, NAME_1_0, ALIAS, COMMENT): t.append(task("strings", kind, "", n, choice, (n * 7 + choice) % 32, weight=4 ** n))
        for start, choice in (("a;", NAME_1_0), (";x;", COMMENT), ("C;;D;", ALIAS), (";;;E", ALIAS), ("O;P;;", COMMENT)):
            t.append(task("strings", kind, start, min(top - 1, 2), choice, len(start), weight=16))
    t += [task("strings", "double", lead, 2, NAME, 9, weight=30) for lead in ("\1", "\2")]
    return t


# ---------------------------------------------------------------- M03
NOT_FOUND = 0xFFFFFFFF


def sample_strings(g, aliases, lines=None):
    """32 strings, some of them empty; some texts occur in several groups."""
    out = []
    for k in range(32):
        x = "" if (k % 3 == 2 if lines is None else k not in lines) else chr(65 + (k + 3 * g) % 26) + ("Z" if k % 5 == 0 else "")
        if aliases and (lines is None or x): x = x + ";;;" + ("" if k % 4 and lines is None or k == 9 else "C" + chr(97 + (k + g) % 26))
        out.append(x)
    return out


def layout(eng, top, count, sizes, aliases, lines=None):
    """Groups at any ascending block numbers up to top, disjoint ranges of the given sizes anywhere (None: any size)."""
    blocks = [eng.int(f"block {k}", 0, top) for k in range(count)]
    for a, b in zip(blocks, blocks[1:]): eng.assume(a < b)
    ranges, before = [], -1
    for k, n in enumerate(sizes):
        a = eng.int(f"start {k}", 0, top * 32 + 40)
        z = eng.int(f"end {k}", 0, TOP - 1) if n is None else a + n - 1
        eng.assume(eng.And(a > before, z >= a))
        ranges.append((a, z))
        before = z
    texts = [sample_strings(g, aliases, lines) for g in range(count)]
    data = dict(groups=[(b, group(t)) for b, t in zip(blocks, texts)],
                ranges=[algorithmic(a, z, 4, [ord("R"), ord("0") + k]) for k, (a, z) in enumerate(ranges)])
    return blocks, texts, ranges, data


def lookup(eng, count, nranges, choice):
    """The name of any code point, for any block numbers and ranges."""
    blocks, texts, ranges, data = layout(eng, (TOP >> 5) - 1, count, [None] * nranges, choice == ALIAS)
    with names_module(**data) as m:
        def ask(tag):
            c, ch = eng.int(tag + "c", 0, TOP - 1), pick(eng, "second choice", [NAME, ALIAS]) if tag else choice
            got = eng.noraise("name lookup does not fail", m.CharNames.getCharName, c, ch)
            for k, (a, z) in enumerate(ranges):
                if eng.And(c >= a, c <= z):
                    want = [82, 48 + k] + hexdigits(eng, c, 4) if ch == NAME else []
                    return same(eng, got, want, "a code point in a range has its algorithmic name")
            for b, t in zip(blocks, texts):
                if c >> 5 == b:
                    want = tuple((x + ";;;").split(";")[ch] for x in t)[c & 31]
                    return eng.check(got == want, "a code point in a group has the name of its line")
            eng.check(got == "", "a code point outside all groups and ranges has no name")
        twice(eng, m, ask)


def iterate(eng, top, count, sizes, choice):
    """Iteration: ascending, with the names of the lookup, and complete."""
    blocks, texts, ranges, data = layout(eng, top, count, sizes, choice == ALIAS, (0, 8, 9, 31))
    with names_module(**data) as m:
        items = eng.noraise("iteration does not fail", lambda: list(m.CharNames.nameIterator(choice)))
        codes = [c for c, n in items]
        eng.check(eng.And(True, *[a < b for a, b in zip(codes, codes[1:])]), "iteration is in ascending order, without repetition")
        for c, n in items:
            eng.check(n == m.CharNames.getCharName(c, choice), "iteration yields the name that the lookup gives")
            eng.check(n != "", "iteration yields named code points only")
        q = eng.int("q", 0, TOP - 1)
        if m.CharNames.getCharName(q, choice) != "":
            eng.check(eng.Or(False, *[c == q for c in codes]), "iteration yields every named code point")


def interleaved(eng, top, count, sizes):
    """Two iterations that advance in turn do not disturb each other, nor does a lookup in between."""
    blocks, texts, ranges, data = layout(eng, top, count, sizes, True, (0, 9, 31))
    with names_module(**data) as m:
        def run(): return [list(m.CharNames.nameIterator(choice)) for choice in (NAME, ALIAS)]
        alone = eng.noraise("iteration does not fail", run)
        c = eng.int("c", 0, TOP - 1)
        def both():
            its, got, live = [m.CharNames.nameIterator(choice) for choice in (NAME, ALIAS)], [[], []], [0, 1]
            while live:
                for k in list(live):
                    try: got[k].append(next(its[k]))
                    except StopIteration: live.remove(k)
                if len(got[0]) == 2: m.CharNames.getCharName(c, ALIAS)
            return got
        got = eng.noraise("iteration does not fail", both)
        for x, y in zip(got, alone):
            eng.check(len(x) == len(y) and eng.And(True, *[eng.And(a == c, b == d) for (a, b), (c, d) in zip(x, y)]), "iterations in turn yield what each yields alone")


def reverse(eng, top, count, sizes, choice, n):
    """charFromName gives the first code point of the name, or the not-found value."""
    blocks, texts, ranges, data = layout(eng, top, count, sizes, choice == ALIAS, (0, 8, 9, 31))
    with names_module(**data) as m:
        def ask(tag):
            ch = pick(eng, "second choice", [NAME, ALIAS]) if tag else choice
            name = "".join([chr(eng.int(f"{tag}n{k}", 32, 126)) for k in range(n)])
            got = eng.noraise("reverse lookup does not fail", m.CharNames.charFromName, name, ch)
            q = eng.int(tag + "q", 0, TOP - 1)
            if got == NOT_FOUND:
                eng.check(eng.Not(m.CharNames.getCharName(q, ch) == name), "not found: no code point has the name")
            else:
                eng.check(eng.And(got >= 0, got < TOP), "found: a code point")
                eng.check(m.CharNames.getCharName(got, ch) == name, "found: the code point has the name")
                if q < got: eng.check(eng.Not(m.CharNames.getCharName(q, ch) == name), "found: no earlier code point has the name")
        twice(eng, m, ask)


def tasks_M03(tier):
    q = tier == "quick"
    t = [task("lookup", n, r, ch, weight=5 * n) for n in ((1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 6, 7, 8)) for r in (1, 2) for ch in (NAME, ALIAS)]
    for sizes in ([1], [5], [40]):
        for n in (1, 2): t.append(task("iterate", 2, n, sizes, NAME, weight=40))
    t.append(task("iterate", 1, 1, [3, 4], NAME, weight=90))
    t.append(task("iterate", 2, 2, [6], ALIAS, weight=40))
    t.append(task("interleaved", 1, 1, [3], weight=40))
    if not q: t += [task("iterate", 3, n, s, ch, weight=200) for n in (1, 2, 3) for s in ([1, 1], [3, 31], [64, 2]) for ch in (NAME, ALIAS)]
    t += [task("reverse", 1, n, s, ch, k, weight=30) for n, s, ch, k in
          ((1, [1], NAME, 1), (2, [2], NAME, 1), (2, [2], NAME, 2), (2, [5], NAME, 6), (2, [2], ALIAS, 2)) +
          (() if q else ((3, [3], NAME, 1), (3, [3], ALIAS, 2), (3, [3], NAME, 2), (2, [1, 2], NAME, 2), (2, [2, 1], NAME, 6), (1, [40], NAME, 3)))]
    return t


# ---------------------------------------------------------------- M04
LABELS = {"Cn": "unassigned", "Lu": "uppercase letter", "Ll": "lowercase letter", "Lt": "titlecase letter", "Lm": "modifier letter", "Lo": "other letter",
          "Mn": "non spacing mark", "Me": "enclosing mark", "Mc": "combining spacing mark", "Nd": "decimal digit number", "Nl": "letter number",
          "No": "other number", "Zs": "space separator", "Zl": "line separator", "Zp": "paragraph separator", "Cc": "control", "Cf": "format",
          "Co": "private use area", "Pd": "dash punctuation", "Ps": "start punctuation", "Pe": "end punctuation",
          "Pc": "connector punctuation", "Po": "other punctuation", "Sm": "math symbol", "Sc": "currency symbol", "Sk": "modifier symbol",
          "So": "other symbol", "Pi": "initial punctuation", "Pf": "final punctuation"}


def plain():
    """One group of names (U+0040..U+005F), no algorithmic range."""
    return icudata.package({"unames.icu": unames(groups=[(2, group([[65 + k % 26] for k in range(32)]))])})


def extended(eng, c):
    m = icudata.fixed("plain", plain, "CharNames")
    got = eng.noraise("extended name lookup does not fail", m.CharNames.getCharName, c, EXTENDED)
    if eng.Or(c & 0xFFFE == 0xFFFE, eng.And(c >= 0xFDD0, c <= 0xFDEF)): want = "noncharacter"
    elif eng.And(c >= 0xD800, c <= 0xDBFF): want = "lead surrogate"
    elif eng.And(c >= 0xDC00, c <= 0xDFFF): want = "trail surrogate"
    else: want = LABELS[refdata.runs("gc")[c]]
    digits = hexdigits(eng, c, 4)
    label = "extended name is the category label and the code"
    i = len(got) - len(digits) - 2
    eng.check(i >= 1 and got[:i] == "<" + want and got[i] == "-" and got[-1] == ">", label)
    eng.check(i >= 1 and eng.And(True, *[ord(g) == w for g, w in zip(got[i + 1:-1], digits)]), label)


SYNTHETIC = "the real name data file is not part of the tree: open() of the data file is answered with a synthetic package; fontTools' sstruct is executed symbolically through its format strings"

PROPS = {
    "M01": dict(tasks=tasks_M01, assumptions=[SYNTHETIC, "ranges are disjoint; prefix and element bytes are ASCII; a range of factors has as many code points as there are combinations"],
                bounds={"quick": "hexadecimal ranges: any bounds, any code point, prefixes of 0 and 2 arbitrary characters, 4, 5, 6 digits, alone and next to other ranges; factors: the Hangul shape at U+AC00, "
                                 "five other shapes of 1..5 factors with fixed texts at any place, five shapes of 1..3 factors with arbitrary texts; distinctness of names: all pairs of code points of four shapes and of any hexadecimal range",
                        "thorough": "prefixes up to 20 characters, the Hangul shape at any place, three larger shapes with arbitrary texts"},
                outside="other factor shapes; distinctness where element texts themselves make combinations collide",
                explain="getCharName on a symbolic code point over ranges with symbolic bounds and texts, against prefix and digits, or the mixed radix selection of elements",
                expect=["hexadecimal names: prefix and upper-case digits", "factorised names: prefix and the selected elements", "other name choices have no algorithmic name",
                        "extended choice gives the algorithmic name", "names of a range are pairwise different"]),
    "M02": dict(tasks=tasks_M02, assumptions=[SYNTHETIC, "the separator is no token and no second byte of a token; a lead byte is followed by a byte; token texts end with a zero byte"],
                bounds={"quick": "packed lengths: windows of one and two strings of any length 0..75 at six places of the group, the others 0..3 or 11 long, all strings of and after the window; expansion: strings of up to 5 arbitrary bytes without tokens, "
                                 "3 with single-byte tokens of arbitrary text, 2 (3 after a lead byte) with two-byte tokens, all four name choices",
                        "thorough": "windows of up to three strings at all places and of eight at three; strings of up to 7, 4 and 3 bytes"},
                outside="longer windows and strings; groups with arbitrary lengths of all 32 strings at once",
                explain="getCharName over a group whose length nibbles (and with them the places of all strings) or text bytes and token texts are symbolic, against the lengths, fields and texts that were encoded",
                expect=["a string has its encoded length", "a string starts where the strings before it end", "the chosen field with its tokens replaced"]),
    "M03": dict(tasks=tasks_M03, assumptions=[SYNTHETIC, "at least one group and one range; groups ascending, ranges ascending and disjoint, as the format prescribes"],
                bounds={"quick": "lookup: 1, 2, 3, 5 groups at any block numbers, 1 and 2 ranges with any bounds, any code point; iteration and reverse lookup: up to 2 groups at any of 3 blocks, one range of 1, 2, 5, 6 or 40 code points (or two of 3 and 4) anywhere in them, "
                                 "any name of 1, 2 or 6 characters",
                        "thorough": "lookup in up to 8 groups; iteration over 1..3 groups in 4 blocks with two ranges; more shapes of reverse lookup"},
                outside="iteration over more blocks, groups or ranges",
                explain="getCharName, nameIterator and charFromName over groups and ranges at symbolic places, against each other and the layout",
                expect=["a code point in a range has its algorithmic name", "a code point in a group has the name of its line", "a code point outside all groups and ranges has no name",
                        "iteration is in ascending order, without repetition", "iteration yields the name that the lookup gives", "iteration yields every named code point", "iterations in turn yield what each yields alone",
                        "found: the code point has the name", "found: no earlier code point has the name", "not found: no code point has the name"]),
    "M04": dict(tasks=lambda tier: cubes("extended"), assumptions=["the reference tables in /verif/refdata are the Unicode 13.0 general categories", SYNTHETIC],
                bounds="all code points, as symbolic cubes", explain="getCharName with the extended choice on a symbolic code point, over name data without algorithmic ranges",
                expect=["extended name is the category label and the code"]),
}
