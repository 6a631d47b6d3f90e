"""S01..S06: UnicodeSet.  One step from an arbitrary canonical set of bounded size, symbolic boundaries."""
from UnicodeData.UnicodeSet import UnicodeSet

HIGH = 0x110000
BIG = 1 << 33


def task(fn, *args, weight=1):
    from check import Task
    return Task(fn, args, None, {"max_runs": None, "logic": "INT"}, weight)


def boundaries(eng, name, m):
    """m strictly ascending code points: the canonical boundary list of an arbitrary set."""
    bs = []
    for k in range(m):
        b = eng.int(f"{name}{k}", 0, HIGH - 1)
        if bs: eng.assume(bs[-1] < b)
        bs.append(b)
    return bs


def mkset(bs):
    s = UnicodeSet()
    if getattr(s, "list", None) == [HIGH] and set(vars(s)) == {"list"}:
        s.list = list(bs) + [HIGH]
    else:                                  # another representation: build it through the interface
        lim = list(bs) + [HIGH]
        for k in range(0, len(lim) - 1, 2): s.addRange(lim[k], lim[k + 1] - 1)
    return s


def ladder(n):
    """n fixed ascending boundaries with gaps of 3 to 11."""
    out, b = [], 4
    for k in range(n):
        out.append(b)
        b += 3 + (k * 5) % 9
    return out


def window(bs, where):
    """An interval of code points around the start, the middle or the end of a ladder."""
    c = {"start": 0, "middle": bs[len(bs) // 2], "quarter": bs[len(bs) // 4], "end": bs[-1], "top": HIGH - 8}[where]
    return max(0, c - 8), min(HIGH - 1, c + 8)


def member(eng, bs, x):
    """x in the set with boundary list bs (without the final HIGH)."""
    lim = list(bs) + [HIGH]
    return eng.Or(*[eng.And(lim[k] <= x, x < lim[k + 1]) for k in range(0, len(lim) - 1, 2)]) if len(lim) > 1 else False


def reported(s):
    """The reported ranges as (start, end) pairs."""
    return [(s.getRangeStart(k), s.getRangeEnd(k)) for k in range(s.getRangeCount())]


def rmember(eng, ranges, x):
    return eng.Or(*[eng.And(a <= x, x <= b) for a, b in ranges]) if ranges else False


def canonical(eng, s):
    r = reported(s)
    conds = []
    for k, (a, b) in enumerate(r):
        conds.append(a <= b)
        conds.append(r[k - 1][1] + 1 < a if k else a >= 0)
    if r: conds.append(r[-1][1] <= HIGH - 1)
    g = s.getRanges()
    conds.append(len(g) == len(r))
    for (a, b), q in zip(r, g):
        conds += [q.start == a, q.stop == b + 1]
    return eng.And(*conds) if conds else True


def rebuilt(eng, s):
    """s compares equal (both ways) to a fresh set with the ranges it reports."""
    bs = []
    for a, b in reported(s): bs += [a, b + 1]
    if bs and bs[-1] == HIGH: bs.pop()
    t = mkset(bs)
    return eng.And(s == t, t == s, eng.Not(s != t))


def same(eng, s, bs):
    """s still reports exactly the boundaries bs."""
    r = reported(s)
    lim = list(bs) + [HIGH]
    n = len(lim) // 2
    if len(r) != n: return False
    return eng.And(*[eng.And(r[k][0] == lim[2 * k], r[k][1] == lim[2 * k + 1] - 1) for k in range(n)]) if n else True


def combine(eng, op, p, q):
    if op == "union": return eng.Or(p, q)
    if op == "intersection": return eng.And(p, q)
    if op == "difference": return eng.And(p, eng.Not(q))
    return eng.Not(eng.Iff(p, q))


FORMS = {
    "union": (lambda a, b: a.union(b), lambda a, b: a | b, lambda a, b: a.addAll(b), "or"),
    "intersection": (lambda a, b: a.intersection(b), lambda a, b: a & b, lambda a, b: a.retainAll(b), "and"),
    "difference": (lambda a, b: a.difference(b), lambda a, b: a - b, lambda a, b: a.removeAll(b), "sub"),
    "symmetric_difference": (lambda a, b: a.symmetric_difference(b), lambda a, b: a ^ b, lambda a, b: a.complementAll(b), "xor"),
}


def inplace(op, a, b):
    if op == "or": a |= b
    elif op == "and": a &= b
    elif op == "sub": a -= b
    else: a ^= b
    return a


# ---------------------------------------------------------------- S01
def algebra(eng, op, m1, m2):
    bs1, bs2 = boundaries(eng, "a", m1), boundaries(eng, "b", m2)
    x = eng.int("x", 0, HIGH - 1)
    y = eng.int("y", 0, HIGH - 1)
    want = combine(eng, op, member(eng, bs1, x), member(eng, bs2, x))
    named, binop, bulk, inp = FORMS[op]
    for form, f in (("method", named), ("operator", binop)):
        a, b = mkset(bs1), mkset(bs2)
        r = f(a, b)
        eng.check(eng.Iff(rmember(eng, reported(r), x), want), f"{form}: exactly the prescribed members")
        eng.check(eng.And(same(eng, a, bs1), same(eng, b, bs2)), f"{form}: operands unchanged")
        eng.check(r is not a and r is not b, f"{form}: result is a new set")
        if m1 + m2 <= 4:
            r.add(y)
            eng.check(eng.And(same(eng, a, bs1), same(eng, b, bs2)), f"{form}: changing the result leaves the operands alone")
            r = f(a, b)
            a.add(y)
            b.remove(y)
            eng.check(eng.Iff(rmember(eng, reported(r), x), want), f"{form}: changing the operands leaves the result alone")
    for form, f in (("bulk mutator", bulk), ("in-place operator", lambda a, b: inplace(inp, a, b))):
        a, b = mkset(bs1), mkset(bs2)
        r = f(a, b)
        eng.check(r is a, f"{form}: returns the receiver")
        eng.check(eng.Iff(rmember(eng, reported(a), x), want), f"{form}: exactly the prescribed members")
        eng.check(same(eng, b, bs2), f"{form}: argument unchanged")
        if m1 + m2 <= 4:
            a.add(y)
            eng.check(same(eng, b, bs2), f"{form}: changing the receiver leaves the argument alone")


def algebra_self(eng, op, m):
    """Both operands are the same object."""
    bs = boundaries(eng, "a", m)
    x = eng.int("x", 0, HIGH - 1)
    p = member(eng, bs, x)
    want = combine(eng, op, p, p)
    named, binop, bulk, inp = FORMS[op]
    for form, f in (("method", named), ("operator", binop)):
        a = mkset(bs)
        r = f(a, a)
        eng.check(eng.Iff(rmember(eng, reported(r), x), want), f"{form}: set with itself")
        eng.check(same(eng, a, bs), f"{form}: operand unchanged (set with itself)")
    for form, f in (("bulk mutator", bulk), ("in-place operator", lambda a, b: inplace(inp, a, b))):
        a = mkset(bs)
        r = f(a, a)
        eng.check(r is a, f"{form}: returns the receiver (set with itself)")
        eng.check(eng.Iff(rmember(eng, reported(a), x), want), f"{form}: set with itself")


def long_algebra(eng, op, n, m, where):
    """A set with many fixed ranges and a small symbolic one, both ways round."""
    bs1 = ladder(n)
    lo, hi = window(bs1, where)
    bs2 = []
    for k in range(m):
        b = eng.int(f"b{k}", lo, hi)
        if bs2: eng.assume(bs2[-1] < b)
        bs2.append(b)
    x = eng.int("x", 0, HIGH - 1)
    p, q = member(eng, bs1, x), member(eng, bs2, x)
    named, binop, bulk, inp = FORMS[op]
    for form, f in (("method", named), ("operator", binop), ("bulk mutator", bulk), ("in-place operator", lambda a, b: inplace(inp, a, b))):
        for swap in (False, True):
            a, b = mkset(bs1), mkset(bs2)
            if swap: a, b = b, a
            r = f(a, b)
            want = combine(eng, op, q, p) if swap else combine(eng, op, p, q)
            eng.check(eng.Iff(rmember(eng, reported(r), x), want), f"{form}: exactly the prescribed members")
            eng.check(canonical(eng, r), f"{form}: result is canonical")
            eng.check(same(eng, b, bs1 if swap else bs2), f"{form}: argument unchanged")
            if form in ("method", "operator"): eng.check(same(eng, a, bs2 if swap else bs1), f"{form}: operands unchanged")


def long_pair(eng, op, n1, n2, shift):
    """Two sets with many fixed ranges; a few boundaries are symbolic."""
    bs1, bs2 = ladder(n1), [shift + b for b in ladder(n2)]
    for bs, nm in ((bs1, "a"), (bs2, "b")):
        if len(bs) > 2:
            k = len(bs) // 2
            bs[k] = eng.int(nm, bs[k - 1] + 1, bs[k + 1] - 1)
    x = eng.int("x", 0, HIGH - 1)
    want = combine(eng, op, member(eng, bs1, x), member(eng, bs2, x))
    for form, f in zip(("method", "operator", "bulk mutator"), FORMS[op]):
        a, b = mkset(bs1), mkset(bs2)
        r = f(a, b)
        eng.check(eng.Iff(rmember(eng, reported(r), x), want), f"{form}: exactly the prescribed members")
        eng.check(same(eng, b, bs2), f"{form}: argument unchanged")


def tasks_S01(tier):
    n = 5 if tier == "quick" else 7
    lim = 9 if tier == "quick" else 13
    out = []
    for op in FORMS:
        for i in range(n + 1):
            for j in range(n + 1):
                if i + j <= lim: out.append(task("algebra", op, i, j, weight=1 + 3 ** min(i, j) + i + j))
            out.append(task("algebra_self", op, i))
        for size in (33, 260, 1031) if tier == "quick" else (33, 64, 129, 260, 1031, 4100):
            for where in ("start", "middle", "end", "top"):
                out.append(task("long_algebra", op, size, 2 if size < 1000 else 1, where, weight=size // 10))
        for n1, n2 in ((40, 41), (130, 64), (31, 300)): out += [task("long_pair", op, n1, n2, sh, weight=n1) for sh in (0, 2, 90)]
    return out


# ---------------------------------------------------------------- S02
def canonical_result(eng, op, m1, m2):
    bs1, bs2 = boundaries(eng, "a", m1), boundaries(eng, "b", m2)
    for f in FORMS[op][:3]:
        a, b = mkset(bs1), mkset(bs2)
        r = f(a, b)
        eng.check(canonical(eng, r), f"{op}: result is canonical")
        eng.check(rebuilt(eng, r), f"{op}: result equals the set of the ranges it reports")


def canonical_mutators(eng, mut, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    lo, hi = eng.int("lo", -BIG, BIG), eng.int("hi", -BIG, BIG)
    mutate(eng, s, mut, lo, hi)
    eng.check(canonical(eng, s), f"{mut}: result is canonical")
    eng.check(rebuilt(eng, s), f"{mut}: result equals the set of the ranges it reports")


def canonical_new(eng, kind):
    lo, hi = eng.int("lo", 0, HIGH - 1), eng.int("hi", 0, HIGH)
    eng.assume(lo <= hi)
    if kind == "empty": s = UnicodeSet()
    elif kind == "point": s = UnicodeSet(lo)
    elif kind == "range": s = UnicodeSet(range(lo, hi))
    elif kind == "copy": s = UnicodeSet(UnicodeSet(range(lo, hi)))
    else:
        s = UnicodeSet(range(lo, hi))
        s.clear()
    eng.check(canonical(eng, s), f"new set ({kind}) is canonical")
    eng.check(rebuilt(eng, s), f"new set ({kind}) equals the set of the ranges it reports")


def equality(eng, m1, m2):
    bs1, bs2 = boundaries(eng, "a", m1), boundaries(eng, "b", m2)
    a, b = mkset(bs1), mkset(bs2)
    x = eng.int("x", 0, HIGH - 1)
    eq = a == b
    ne = a != b
    eng.check(eng.Iff(ne, eng.Not(eq)), "!= is the negation of ==")
    eng.check(eng.Implies(eq, eng.Iff(member(eng, bs1, x), member(eng, bs2, x))), "equal sets have the same members")
    diff = [eng.Not(eng.Iff(member(eng, bs1, w), member(eng, bs2, w))) for w in bs1 + bs2]
    eng.check(eng.Or(eq, *diff), "unequal sets differ in a member")


def built_twice(eng, m):
    """The same members reached by another history compare equal."""
    bs = boundaries(eng, "a", m)
    a, b = mkset(bs), UnicodeSet()
    r = reported(a)
    for lo, hi in reversed(r): b.addRange(lo, hi)
    eng.check(a == b, "rebuilt from its ranges in descending order")
    c = UnicodeSet()
    for lo, hi in r: c.addRange(lo, hi)
    eng.check(a == c, "rebuilt from its ranges in ascending order")
    d = UnicodeSet(range(0, HIGH))
    prev = 0
    for lo, hi in r:
        d.removeRange(prev, lo - 1)
        prev = hi + 1
    d.removeRange(prev, HIGH - 1) if prev < HIGH else None
    eng.check(a == d, "carved out of the full set")


def long_canonical(eng, mut, n, where):
    bs = ladder(n)
    a, b = window(bs, where)
    s, lo = mkset(bs), eng.int("lo", a, b)
    hi = eng.int("hi", a, b) if n < 300 else lo
    mutate(eng, s, mut, lo, hi)
    eng.check(canonical(eng, s), f"{mut}: result is canonical")
    eng.check(rebuilt(eng, s), f"{mut}: result equals the set of the ranges it reports")


def long_equality(eng, n, k):
    """Two long sets that differ, or not, in one boundary."""
    bs = ladder(n)
    bs2 = list(bs)
    k = n - 1 if k < 0 else k
    bs2[k] = eng.int("b", bs[k - 1] + 1 if k else 0, bs[k + 1] - 1 if k + 1 < n else HIGH - 1)
    a, b = mkset(bs), mkset(bs2)
    eng.check(eng.Iff(a == b, bs[k] == bs2[k]), "long sets are equal exactly if all boundaries are")
    eng.check(eng.Iff(a != b, bs[k] != bs2[k]), "long sets are equal exactly if all boundaries are")
    c = mkset(bs[:-1])
    eng.check(eng.Not(a == c), "long sets of different length differ")


MUTS = ["add", "remove", "retain", "complement1", "addRange", "removeRange", "retainRange", "complementRange",
        "complement_range", "complement"]


def tasks_S02(tier):
    n = 5 if tier == "quick" else 7
    lim = 9 if tier == "quick" else 13
    out = [task("canonical_result", op, i, j, weight=1 + 3 ** min(i, j)) for op in FORMS for i in range(n + 1)
           for j in range(n + 1) if i + j <= lim]
    out += [task("canonical_mutators", mu, m, weight=m * m) for mu in MUTS for m in range(n + 3)]
    out += [task("canonical_new", k) for k in ("empty", "point", "range", "copy", "clear")]
    out += [task("equality", i, j) for i in range(n + 1) for j in range(n + 1)]
    out += [task("built_twice", m) for m in range(n + 1)]
    for size in LONG[tier]:
        out += [task("long_canonical", mu, size, w, weight=size // 10) for mu in MUTS[:-1] for w in ("start", "middle", "end", "top")]
        out += [task("long_equality", size, k) for k in (0, 1, size // 2, -1)]
    return out


LONG = {"quick": (33, 258, 1030), "thorough": (33, 64, 129, 258, 1030, 4099)}


# ---------------------------------------------------------------- S03
def pin(eng, v):
    return eng.Ite(v < 0, 0, eng.Ite(v > HIGH - 1, HIGH - 1, v))


def mutate(eng, s, mut, lo, hi):
    if mut == "add": return s.add(lo)
    if mut == "remove": return s.remove(lo)
    if mut == "retain": return s.retain(lo)
    if mut == "complement1": return s.complement(lo)
    if mut == "addRange": return s.addRange(lo, hi)
    if mut == "removeRange": return s.removeRange(lo, hi)
    if mut == "retainRange": return s.retainRange(lo, hi)
    if mut == "complementRange": return s.complementRange(lo, hi)
    if mut == "complement_range": return s.complement(range(lo, hi + 1))
    return s.complement()


def mutator(eng, mut, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    lo, hi = eng.int("lo", -BIG, BIG), eng.int("hi", -BIG, BIG)
    x = eng.int("x", 0, HIGH - 1)
    point = mut in ("add", "remove", "retain", "complement1")
    if point: hi = lo
    plo, phi = pin(eng, lo), pin(eng, hi)
    if not point and mut != "complement":
        if mut == "retainRange": eng.assume(lo <= hi)        # retaining an empty range: unspecified
    r = mutate(eng, s, mut, lo, hi)
    p = member(eng, bs, x)
    inside = eng.And(lo <= hi, plo <= x, x <= phi)       # a reversed range is empty
    if mut == "complement": want = eng.Not(p)
    elif mut.startswith("add"): want = eng.Or(p, inside)
    elif mut.startswith("remove"): want = eng.And(p, eng.Not(inside))
    elif mut.startswith("retain"): want = eng.And(p, inside)
    else: want = eng.Not(eng.Iff(p, inside))
    eng.check(eng.Iff(rmember(eng, reported(s), x), want), f"{mut}: exactly its targets change")
    eng.check(r is s, f"{mut}: returns the set itself")


def long_mutator(eng, mut, n, where):
    """A mutator on a set with many fixed ranges."""
    bs = ladder(n)
    a, b = window(bs, where)
    s = mkset(bs)
    lo = eng.int("lo", a, b)
    hi = lo if mut in ("add", "remove", "retain", "complement1") else eng.int("hi", a, b) if n < 300 else lo + 11
    x = eng.int("x", 0, HIGH - 1)
    if mut == "retainRange": eng.assume(lo <= hi)
    r = mutate(eng, s, mut, lo, hi)
    p = member(eng, bs, x)
    inside = eng.And(lo <= x, x <= hi)
    if mut == "complement": want = eng.Not(p)
    elif mut.startswith("add"): want = eng.Or(p, inside)
    elif mut.startswith("remove"): want = eng.And(p, eng.Not(inside))
    elif mut.startswith("retain"): want = eng.And(p, inside)
    else: want = eng.Not(eng.Iff(p, inside))
    eng.check(eng.Iff(rmember(eng, reported(s), x), want), f"{mut}: exactly its targets change")
    eng.check(r is s, f"{mut}: returns the set itself")


def badtype(eng, what):
    s = UnicodeSet()
    arg = {"str": "a", "float": 1.0, "list": [1, 2], "tuple": (1, 2), "bytes": b"a", "set": {1}}[what]
    for name, f in (("complement", lambda: s.complement(arg)),):
        try:
            f()
        except TypeError:
            continue
        eng.fail(f"{name}: other argument types raise TypeError")
    eng.check(True, "complement: other argument types raise TypeError")


def chain(eng, m):
    """A chained sequence of mutators."""
    bs = boundaries(eng, "a", m)
    p, q, r = (eng.int(n, 0, HIGH - 1) for n in "pqr")
    x = eng.int("x", 0, HIGH - 1)
    eng.assume(p <= q)
    s = mkset(bs)
    t = s.addRange(p, q).remove(r).add(q).removeRange(p, p).complement(r).retainRange(0, q)
    eng.check(t is s, "chained calls return the set")
    w = eng.Or(member(eng, bs, x), eng.And(p <= x, x <= q))
    w = eng.And(w, x != r)
    w = eng.Or(w, x == q)
    w = eng.And(w, x != p)
    w = eng.Not(eng.Iff(w, x == r))
    w = eng.And(w, x <= q)
    eng.check(eng.Iff(rmember(eng, reported(s), x), w), "a chained sequence has the composed effect")


def tasks_S03(tier):
    n = 9 if tier == "quick" else 14
    out = [task("mutator", mu, m, weight=1 + m * m) for mu in MUTS for m in range(n + 1)]
    out += [task("chain", m, weight=50 * (m + 1)) for m in range(3 if tier == "quick" else 5)]
    out += [task("badtype", w) for w in ("str", "float", "list", "tuple", "bytes")]
    out += [task("long_mutator", mu, size, w, weight=size // 10) for size in LONG[tier] for mu in MUTS for w in ("start", "quarter", "middle", "end", "top")]
    return out


# ---------------------------------------------------------------- S04
def construct(eng, kind, m):
    x = eng.int("x", 0, HIGH - 1)
    if kind == "empty":
        s, want = UnicodeSet(), False
        s2 = UnicodeSet(None)
        eng.check(eng.Not(rmember(eng, reported(s2), x)), "None makes an empty set")
        s.add(x)
        eng.check(len(reported(UnicodeSet())) == 0, "a new set is empty whatever happened to others")
        s = UnicodeSet()
    elif kind == "point":
        c = eng.int("c", 0, HIGH - 1)
        s, want = UnicodeSet(c), x == c
    elif kind == "range":
        a, b = eng.int("a", 0, HIGH), eng.int("b", 0, HIGH)
        eng.assume(a <= b)
        s, want = UnicodeSet(range(a, b)), eng.And(a <= x, x < b)
    else:
        bs = boundaries(eng, "a", m)
        o = mkset(bs)
        s, want = UnicodeSet(o), member(eng, bs, x)
        eng.check(same(eng, o, bs), "copying leaves the original unchanged")
    eng.check(eng.Iff(rmember(eng, reported(s), x), want), f"new set ({kind}) has exactly the given members")


STEPS = ["add", "remove", "addRange", "removeRange", "complement1", "complement", "clear", "retainRange"]


def independent(eng, step, m, who):
    bs = boundaries(eng, "a", m)
    o = mkset(bs)
    c = UnicodeSet(o)
    lo, hi = eng.int("lo", 0, HIGH - 1), eng.int("hi", 0, HIGH - 1)
    eng.assume(lo <= hi)
    t, other = (c, o) if who == "copy" else (o, c)
    if step == "clear": t.clear()
    else: mutate(eng, t, step, lo, hi)
    eng.check(same(eng, other, bs), f"{step} on the {who} does not show in the other")


def long_independent(eng, step, n, who):
    """Copies of sets with many ranges share nothing either."""
    bs = ladder(n)
    k = n // 2
    bs[k] = eng.int("a", bs[k - 1] + 1, bs[k + 1] - 1)
    o = mkset(bs)
    c = UnicodeSet(o)
    eng.check(same(eng, c, bs), "a copy of a long set has the same ranges")
    lo = eng.int("lo", *window(ladder(n), "middle" if n & 1 else "start"))
    t, other = (c, o) if who == "copy" else (o, c)
    if step == "clear": t.clear()
    else: mutate(eng, t, step, lo, lo + 20)
    eng.check(same(eng, other, bs), f"{step} on the {who} does not show in the other")
    d = UnicodeSet(other)
    t.clear()
    other.add(lo)
    eng.check(same(eng, d, bs), "a later copy is unaffected as well")
    eng.check(len(reported(t)) == 0, "clear empties the set")


def clearing(eng, m):
    bs = boundaries(eng, "a", m)
    s, x = mkset(bs), eng.int("x", 0, HIGH - 1)
    k = UnicodeSet(s)
    e = UnicodeSet()
    s.clear()
    eng.check(len(reported(s)) == 0, "clear empties the set")
    eng.check(same(eng, k, bs), "clear empties nothing else")
    s.add(x)
    eng.check(eng.And(len(reported(e)) == 0, len(reported(UnicodeSet())) == 0), "cleared sets share nothing")
    eng.check(eng.And(len(reported(s)) == 1, reported(s)[0][0] == x, reported(s)[0][1] == x), "a cleared set is usable")


def badnew(eng, what):
    arg = {"str": "a", "float": 1.0, "list": [1, 2], "tuple": (1, 2), "bytes": b"a", "pyset": {1}, "dict": {}}[what]
    try:
        UnicodeSet(arg)
    except TypeError:
        eng.check(True, "other argument types are refused with TypeError")
        return
    eng.fail("other argument types are refused with TypeError")


def tasks_S04(tier):
    n = 5 if tier == "quick" else 10
    out = [task("construct", k, 0) for k in ("empty", "point", "range")]
    out += [task("construct", "copy", m) for m in range(n + 1)]
    out += [task("independent", st, m, w, weight=m * m) for st in STEPS for m in range(n) for w in ("copy", "original")]
    out += [task("clearing", m) for m in range(n + 1)]
    out += [task("long_independent", st, size, w, weight=size // 100) for st in STEPS for w in ("copy", "original")
            for size in ((101, 1025, 4098, 9001) if tier == "quick" else (33, 64, 101, 500, 1025, 2050, 4098, 9001, 20001))]
    out += [task("badnew", w) for w in ("str", "float", "list", "tuple", "bytes", "pyset", "dict")]
    return out


# ---------------------------------------------------------------- S05
def contains_int(eng, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    x = eng.int("x", -BIG, BIG)
    want = eng.And(0 <= x, x < HIGH, member(eng, bs, x))
    eng.check(eng.Iff(s.contains(x), want), "contains(int)")
    eng.check(eng.Iff(x in s, want), "int in set")
    eng.check(same(eng, s, bs), "asking changes nothing")


def contains_range(eng, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    lo, hi = eng.int("lo", -BIG, BIG), eng.int("hi", -BIG, BIG)
    eng.assume(lo < hi)
    lim = list(bs) + [HIGH]
    want = eng.Or(False, *[eng.And(lim[k] <= lo, hi <= lim[k + 1]) for k in range(0, len(lim) - 1, 2)])
    eng.check(eng.Iff(s.contains(range(lo, hi)), want), "contains(range)")
    eng.check(eng.Iff(range(lo, hi) in s, want), "range in set")


def long_contains(eng, n, where):
    bs = ladder(n)
    s = mkset(bs)
    a, b = (-BIG, BIG) if where == "all" else window(bs, where)
    x, y = eng.int("x", a, b), eng.int("y", a, b)
    want = eng.And(0 <= x, x < HIGH, member(eng, bs, x))
    eng.check(eng.Iff(s.contains(x), want), "contains(int)")
    if where == "all": return
    eng.check(eng.Iff(x in s, want), "int in set")
    eng.assume(x < y)
    lim = bs + [HIGH]
    want = eng.Or(False, *[eng.And(lim[k] <= x, y <= lim[k + 1]) for k in range(0, len(lim) - 1, 2)])
    eng.check(eng.Iff(s.contains(range(x, y)), want), "contains(range)")


HSTEPS = ["add", "remove", "retain", "complement1", "addRange", "removeRange", "retainRange", "complementRange", "complement", "clear",
          "or", "and", "sub", "xor", "addAll", "retainAll", "removeAll", "complementAll"]


def history(eng, what, step, m):
    """Queries, a change, the same queries: the answers describe the set as it is now."""
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    lo, hi, y = eng.int("lo", 0, HIGH - 1), eng.int("hi", 0, HIGH - 1), eng.int("y", 0, HIGH - 1)
    eng.assume(lo <= hi)
    x = eng.int("x", 0, HIGH - 1)
    if what == "contains":
        s.contains(y)
        x in s
        s.contains(range(y, y + 1))
        range(lo, hi + 1) in s
    else:
        s.size(), s.getRanges(), reported(s), s.indexOf(y), s.charAt(y), str(s) if m < 2 else None
        for _ in zip(range(2), s): pass
    other = mkset([lo, hi + 1]) if hi < HIGH - 1 else mkset([lo])
    if step == "clear": s.clear()
    elif step in ("or", "and", "sub", "xor"): s = inplace(step, s, other)
    elif step in ("addAll", "retainAll", "removeAll", "complementAll"): getattr(s, step)(other)
    else: mutate(eng, s, step, lo, hi)
    if step in ("add", "remove", "retain", "complement1"): hi = lo
    p, inside = member(eng, bs, x), eng.And(lo <= x, x <= hi)
    if step == "clear": want = False
    elif step == "complement": want = eng.Not(p)
    elif step.startswith(("add", "or")): want = eng.Or(p, inside)
    elif step.startswith(("remove", "sub")): want = eng.And(p, eng.Not(inside))
    elif step.startswith(("retain", "and")): want = eng.And(p, inside)
    else: want = eng.Not(eng.Iff(p, inside))
    if what == "contains":
        eng.check(eng.Iff(s.contains(x), want), "contains(int) after a change")
        eng.check(eng.Iff(range(x, x + 1) in s, want), "range in set after a change")
        return
    r = reported(s)
    eng.check(eng.Iff(rmember(eng, r, x), want), "ranges after a change")
    size = 0
    for a, b in r: size = size + b - a + 1
    eng.check(s.size() == size, "size after a change")
    g = s.getRanges()
    eng.check(eng.And(len(g) == len(r), *[eng.And(q.start == a, q.stop == b + 1) for q, (a, b) in zip(g, r)]), "ranges describe the members after a change")
    k = s.indexOf(x)
    eng.check(eng.Iff(k is not None, want), "indexOf answers for members only, after a change")
    if k is not None: eng.check(s.charAt(k) == x, "charAt inverts indexOf after a change")
    first = [c for _, c in zip(range(1), s)]
    eng.check(eng.And(len(first) == (1 if r else 0), *[c == r[0][0] for c in first]), "iteration begins at the first member after a change")


def mutated_while_iterating(eng, m):
    """An abandoned iteration leaves later ones alone."""
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    it = iter(s)
    for _ in zip(range(2), it): pass
    again = [c for _, c in zip(range(2), s)]
    r = reported(s)
    want = []
    for a, b in r[:2]:
        want.append(a)
        if b > a: want.append(a + 1)
    eng.check(eng.And(len(again) == len(want[:2]), *[c == w for c, w in zip(again, want)]), "a new iteration starts at the first member")


def badcontains(eng, what, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    arg = {"str": "a", "float": 1.0, "none": None, "list": [1], "set": UnicodeSet()}[what]
    for f in (lambda: s.contains(arg), lambda: arg in s):
        try:
            f()
        except TypeError:
            continue
        eng.fail("other argument types raise TypeError")
    eng.check(True, "other argument types raise TypeError")


def tasks_S05(tier):
    n = 13 if tier == "quick" else 30
    out = [task(f, m, weight=m) for f in ("contains_int", "contains_range") for m in range(n + 1)]
    for size in LONG[tier]: out += [task("long_contains", size, w, weight=size // 10) for w in ("start", "quarter", "middle", "end", "top")]
    out += [task("long_contains", size, "all", weight=size) for size in ((65, 258) if tier == "quick" else (65, 258, 1030))]
    out += [task("history", "contains", st, m, weight=5 * m) for st in HSTEPS for m in range(4 if tier == "quick" else 7)]
    out += [task("badcontains", w, m) for w in ("str", "float", "none", "list", "set") for m in (0, 2, 3)]
    return out


# ---------------------------------------------------------------- S06
def views(eng, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    lim = list(bs) + [HIGH]
    n = len(lim) // 2
    size = 0
    for k in range(n): size = size + lim[2 * k + 1] - lim[2 * k]
    eng.check(s.size() == size, "size")
    eng.check(s.getRangeCount() == n, "range count")
    eng.check(same(eng, s, bs), "range start/end")
    g = s.getRanges()
    eng.check(len(g) == n, "one range per run of members")
    for k in range(n): eng.check(eng.And(g[k].start == lim[2 * k], g[k].stop == lim[2 * k + 1]), "ranges describe the members")


def rank(eng, bs, x):
    lim = list(bs) + [HIGH]
    n = 0
    for k in range(0, len(lim) - 1, 2):
        a, b = lim[k], lim[k + 1]
        n = n + eng.Ite(x <= a, 0, eng.Ite(x >= b, b - a, x - a))
    return n


def index_of(eng, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    x = eng.int("x", -BIG, BIG)
    r = s.indexOf(x)
    if r is None:
        eng.check(eng.Not(eng.And(0 <= x, x < HIGH, member(eng, bs, x))), "indexOf: no result only for non-members")
    else:
        eng.check(eng.And(0 <= x, x < HIGH, member(eng, bs, x)), "indexOf: a result only for members")
        eng.check(r == rank(eng, bs, x), "indexOf: the number of smaller members")


def char_at(eng, m):
    bs = boundaries(eng, "a", m)
    s = mkset(bs)
    i = eng.int("i", -BIG, BIG)
    size = rank(eng, bs, HIGH)
    c = s.charAt(i)
    if c is None:
        eng.check(eng.Or(i < 0, i >= size), "charAt: no result only outside 0..size-1")
    else:
        eng.check(eng.And(0 <= i, i < size), "charAt: a result only inside 0..size-1")
        eng.check(eng.And(0 <= c, c < HIGH, member(eng, bs, c)), "charAt: a member")
        eng.check(rank(eng, bs, c) == i, "charAt: the i-th smallest member")


def iterate(eng, m, width):
    bs = boundaries(eng, "a", m)
    lim = list(bs) + [HIGH]
    for k in range(0, len(lim) - 1, 2): eng.assume(lim[k + 1] - lim[k] <= width)
    s = mkset(bs)
    got = []
    for c in s: got.append(c)
    exp = []
    for k in range(0, len(lim) - 1, 2):
        c = lim[k]
        while c < lim[k + 1]:
            exp.append(c)
            c = c + 1
    eng.check(len(got) == len(exp), "iteration yields every member once")
    eng.check(eng.And(True, *[g == e for g, e in zip(got, exp)]), "iteration ascends through the members")
    eng.check(same(eng, s, bs), "iterating changes nothing")


def long_views(eng, n, where):
    bs = ladder(n)
    k = n // 2
    bs[k] = eng.int("a", bs[k - 1] + 1, bs[k + 1] - 1)
    s = mkset(bs)
    lim = bs + [HIGH]
    size = 0
    for k in range(0, len(lim) - 1, 2): size = size + lim[k + 1] - lim[k]
    eng.check(s.size() == size, "size")
    eng.check(same(eng, s, bs), "range start/end")
    g = s.getRanges()
    eng.check(eng.And(len(g) == len(lim) // 2, *[eng.And(g[j].start == lim[2 * j], g[j].stop == lim[2 * j + 1]) for j in range(len(g))]), "ranges describe the members")
    a, b = window(ladder(n), where)
    x = eng.int("x", a, b)
    r = s.indexOf(x)
    mem = member(eng, bs, x)
    eng.check(eng.Iff(r is not None, mem), "indexOf: a result only for members")
    if r is None: return
    eng.check(r == rank(eng, bs, x), "indexOf: the number of smaller members")
    eng.check(s.charAt(r) == x, "charAt: the i-th smallest member")


def long_iterate(eng, n):
    bs = ladder(n)
    bs[-1] = eng.int("a", bs[-2] + 1, bs[-2] + 3)
    if n % 2: bs.append(bs[-1] + 4)
    got = list(mkset(bs))
    exp = []
    for k in range(0, len(bs), 2):
        c = bs[k]
        while c < bs[k + 1]:
            exp.append(c)
            c = c + 1
    eng.check(eng.And(len(got) == len(exp), *[g == e for g, e in zip(got, exp)]), "iteration ascends through the members")


def tasks_S06(tier):
    n = 12 if tier == "quick" else 24
    out = [task(f, m, weight=m) for f in ("views", "index_of", "char_at") for m in range(n + 1)]
    out += [task("iterate", m, 3 if m < 5 else 2, weight=3 ** m) for m in range(5 if tier == "quick" else 8)]
    out += [task("long_views", size, w, weight=size // 10) for size in LONG[tier] for w in ("start", "quarter", "middle", "end")]
    out += [task("long_iterate", size) for size in (64, 65, 1030)]
    out += [task("history", "views", st, m, weight=5 * m) for st in HSTEPS for m in range(3 if tier == "quick" else 7)]
    out += [task("mutated_while_iterating", m) for m in range(5)]
    return out


# ---------------------------------------------------------------- S07
def printed(eng, s, bs):
    """str(s) lists the boundaries bs and the final one."""
    from harness.util import hexdigits
    t = eng.noraise("a set can be printed", lambda: str(s))
    want = [91]
    for k, b in enumerate(bs):
        if k: want += [44, 32]
        want += hexcode(eng, hexdigits, b)
    if bs: want += [44, 32]
    want += [ord(x) for x in "0x110000]"]
    eng.check(len(t) == len(want), "the printed form lists the boundaries")
    eng.check(eng.And(True, *[ord(t[k]) == w for k, w in enumerate(want)]), "the printed form lists the boundaries")


def hexcode(eng, hexdigits, b):
    return [48, 120] + hexdigits(eng, b, 4 if b < 0x10000 else 5 if b < 0x100000 else 6)


def rendering(eng, m):
    bs = boundaries(eng, "a", m)
    printed(eng, mkset(bs), bs)


def printed_again(eng, step, m):
    """Printed, changed, printed again: the form of a fresh set of the same members."""
    bs = boundaries(eng, "a", m)
    for b in bs: eng.assume(b < 0x10000)
    s = mkset(bs)
    lo = eng.int("lo", 0, 0xFFFF)
    str(s)
    other = mkset([lo, lo + 1])
    if step == "clear": s.clear()
    elif step in ("or", "and", "sub", "xor"): s = inplace(step, s, other)
    elif step in ("addAll", "retainAll", "removeAll", "complementAll"): getattr(s, step)(other)
    else: mutate(eng, s, step, lo, lo)
    r = reported(s)
    lim = []
    for a, b in r: lim += [a, b + 1]
    if lim and lim[-1] == HIGH: lim.pop()
    printed(eng, s, lim)


def tasks_S07(tier):
    n = 5 if tier == "quick" else 8
    return ([task("rendering", m, weight=3 ** m) for m in range(n + 1)]
            + [task("printed_again", st, m, weight=9) for st in HSTEPS for m in range(3 if tier == "quick" else 5)])


ASSUME = ["Sets enter the step through their canonical boundary list (attribute `list`, or addRange if there is no such attribute); "
          "S02 shows that every operation keeps that form, so bounded-size results extend to every history that stays within the bound.",
          "Trusted: z3, the symx executor (validated by concrete replay of every counterexample)."]


def _b(q, t): return {"quick": q, "thorough": t}


PROPS = {
    "S07": dict(tasks=tasks_S07, assumptions=ASSUME,
                bounds=_b("sets with up to 5 boundaries anywhere; print-change-print histories for 18 kinds of change on sets with up to 2 boundaries below U+10000", "8 boundaries; histories up to 4"),
                outside="larger sets", explain="str() of a symbolic set against the digits of its boundaries, before and after changes.",
                expect=["the printed form lists the boundaries"]),
    "S01": dict(tasks=tasks_S01, assumptions=ASSUME,
                bounds=_b("operands with up to 5 boundaries each (3 ranges, with and without U+10FFFF), at most 9 together; all boundary values and all witness code points; sets with 33, 260 and 1031 fixed boundaries against 1-2 symbolic ones in a window of 17 code points at the start, middle, end and at U+10FFFF, and pairs of sets with 31..300 boundaries of which one each is symbolic",
                          "operands with up to 7 boundaries each, at most 13 together; fixed parts of 33, 64, 129, 260, 1031 and 4100 boundaries"),
                outside="operands with more ranges",
                explain="Each of the four operations in its four forms is run on two symbolic canonical sets; for a symbolic code point x the solver shows that x is in the reported ranges of the result exactly if the boolean combination of its memberships prescribes it; operands, aliasing and returned object are checked on every path.",
                expect=["method: exactly the prescribed members", "in-place operator: returns the receiver"]),
    "S02": dict(tasks=tasks_S02, assumptions=ASSUME,
                bounds=_b("as S01 for binary operations; mutators on sets with up to 7 boundaries; equality for up to 5 boundaries per side; mutators and equality on sets with 33, 258 and 1030 fixed boundaries",
                          "7 boundaries; mutators 9; fixed parts up to 4099 boundaries"),
                outside="larger sets", explain="Inductive step: from canonical sets every operation yields a canonical set, constructors yield canonical sets, and == on canonical sets is equality of members (a differing boundary is the witness for inequality).",
                expect=["unequal sets differ in a member"]),
    "S03": dict(tasks=tasks_S03, assumptions=ASSUME + ["Not specified: retainRange with an empty range."],
                bounds=_b("sets with up to 9 boundaries, arguments -2^33..2^33; sets with 33, 258, 1030 fixed boundaries with arguments in five windows", "sets with up to 14 boundaries, arguments -2^33..2^33; fixed sets up to 4099 boundaries"),
                outside="larger sets", explain="Each mutator is run on a symbolic canonical set with symbolic (also out-of-range and reversed) arguments; for a symbolic x the membership after the call must be the prescribed function of the membership before it.",
                expect=["a chained sequence has the composed effect"]),
    "S04": dict(tasks=tasks_S04, assumptions=ASSUME, bounds=_b("all single points and ranges; copied sets with up to 5 boundaries, and with 101, 1025, 4098, 9001 mostly fixed ones", "copied sets with up to 10 boundaries, and up to 20001 mostly fixed ones"),
                outside="ranges with a step; larger sets", explain="Constructors are run on symbolic arguments and compared through a symbolic member; a copy and its original are mutated in turn and the other one must report unchanged boundaries.",
                expect=["clear empties the set"]),
    "S05": dict(tasks=tasks_S05, assumptions=ASSUME, bounds=_b("sets with up to 13 boundaries, integers and range ends -2^33..2^33; fixed sets of up to 1030 boundaries (258 for every integer); query-change-query histories for 18 kinds of change on sets with up to 3 boundaries", "sets with up to 30 boundaries; histories up to 6"),
                outside="larger sets; empty ranges", explain="contains/in are run on a symbolic set and a symbolic integer or range and compared with the definition.",
                expect=["contains(range)"]),
    "S06": dict(tasks=tasks_S06, assumptions=ASSUME, bounds=_b("sets with up to 12 boundaries; iteration: up to 4 boundaries, ranges of up to 3 members; fixed sets of up to 1030 boundaries with one symbolic; query-change-query histories for 18 kinds of change on sets with up to 2 boundaries", "sets with up to 24 boundaries; iteration up to 7 boundaries; histories up to 6"),
                outside="larger sets; iteration of longer ranges", explain="size, ranges, accessors, indexOf, charAt and iteration of a symbolic set against rank/membership arithmetic.",
                expect=["charAt: the i-th smallest member", "iteration ascends through the members"]),
}
