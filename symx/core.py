"""symx.core: symbolic values and the path explorer.

A symbolic integer is a z3 bit-vector term together with an interval (and, when small, a set) that
over-approximates its values.  Every operation picks a result width from the interval of the result, so the
terms compute exactly what Python's unbounded ints compute: there is no wrap-around to model.

Exploration is by re-execution: a path is a list of decisions; `Engine.branch` follows the recorded prefix and
asks the solver only at its end.
"""
import time
import z3

VS_MAX = 4096          # largest value set that is tracked explicitly
CONC_MAX = 70000       # largest number of values one concretisation may fork over


class SymxAbort(BaseException):
    """Base of the engine's own control-flow exceptions (never caught by code under test)."""


class Infeasible(SymxAbort):
    pass


class Inconclusive(SymxAbort):
    """The engine cannot decide (solver unknown, unsupported construct, bound exceeded)."""


class PathStop(SymxAbort):
    """Ends the current path early (assumption not met)."""


class Violation(SymxAbort):
    def __init__(self, label, inputs, detail=""):
        super().__init__(label)
        self.label, self.inputs, self.detail = label, inputs, detail


class TooWide(Inconclusive):
    """The encoding of a lookup exceeds the task's size limit: split the input cube."""


class Unsupported(Inconclusive):
    pass


ENG = None  # the engine of the current exploration


def _bits(lo, hi):
    a = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    b = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    return max(a, b) + 1


def _size(t):
    """Width of a bit-vector term; 0 for an integer-theory term."""
    return t.size() if t.sort_kind() == z3.Z3_BV_SORT else 0


def _ext(t, w):
    if t.sort_kind() != z3.Z3_BV_SORT:
        return t
    tw = t.size()
    if tw == w:
        return t
    if tw < w:
        return z3.SignExt(w - tw, t)
    return z3.Extract(w - 1, 0, t)


def bvc(v, w):
    if ENG is not None and ENG.intmode:
        return z3.IntVal(v)
    return z3.BitVecVal(v, w)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()


class SymInt(Sym):
    """Exact symbolic integer."""
    __slots__ = ("t", "lo", "hi", "vs", "ite")

    def __init__(self, t, lo, hi, vs=None, ite=None):
        self.t, self.lo, self.hi, self.vs, self.ite = t, lo, hi, vs, ite

    # ---- construction -------------------------------------------------
    @staticmethod
    def make(t, lo, hi, vs=None, ite=None):
        if vs is not None:
            if len(vs) == 1:
                return next(iter(vs))
            lo, hi = max(lo, min(vs)), min(hi, max(vs))
        if lo == hi:
            return lo
        w = _bits(lo, hi)
        return SymInt(_ext(t, w), lo, hi, vs, ite)

    def rng(self):
        """Current interval: the base interval, narrowed by what the path has decided about this term."""
        r = ENG.refine.get(self.t.get_id()) if ENG is not None else None
        if r is None:
            return self.lo, self.hi
        return max(self.lo, r[0]), min(self.hi, r[1])

    def values(self):
        if self.vs is None:
            return None
        lo, hi = self.rng()
        if lo <= self.lo and hi >= self.hi:
            return self.vs
        return frozenset(v for v in self.vs if lo <= v <= hi)

    def __repr__(self):
        return f"SymInt[{self.lo}..{self.hi}]"

    # ---- arithmetic ---------------------------------------------------
    def _bin(self, o, op, swap=False):
        if isinstance(o, SymBool):
            o = o.to_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float):
            if o != int(o):
                return NotImplemented
            o = int(o)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return _arith(op, a, b)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, "mul")
    __rmul__ = __mul__
    def __floordiv__(self, o): return self._bin(o, "div")
    def __rfloordiv__(self, o): return self._bin(o, "div", True)
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, "mod", True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __and__(self, o): return self._bin(o, "and")
    def __rand__(self, o): return self._bin(o, "and", True)
    def __or__(self, o): return self._bin(o, "or")
    def __ror__(self, o): return self._bin(o, "or", True)
    def __xor__(self, o): return self._bin(o, "xor")
    def __rxor__(self, o): return self._bin(o, "xor", True)
    def __lshift__(self, o): return self._bin(o, "shl")
    def __rlshift__(self, o): return self._bin(o, "shl", True)
    def __rshift__(self, o): return self._bin(o, "shr")
    def __rrshift__(self, o): return self._bin(o, "shr", True)
    def __neg__(self): return _arith("sub", 0, self)
    def __pos__(self): return self
    def __invert__(self): return _arith("sub", -1, self)
    def __abs__(self):
        return self if bool(self >= 0) else -self
    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 8 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o if isinstance(o, int) else o.__index__(), m)
    def __rpow__(self, o):
        return pow(o, self.__index__())
    def __truediv__(self, o):
        return SymRat.of(self) / o
    def __rtruediv__(self, o):
        return SymRat.of(o) / self

    # ---- comparison ---------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.to_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")):
                return NotImplemented
            if o != int(o):
                return SymRat.of(self)._cmp(o, op)
            o = int(o)
        if isinstance(o, SymRat):
            return SymRat.of(self)._cmp(o, op)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        return _compare(op, self, o)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    # ---- concretisation points ----------------------------------------
    def __index__(self):
        return ENG.concretise(self)
    __int__ = __index__
    def __trunc__(self): return self
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __bool__(self):
        return bool(self != 0)
    def __format__(self, spec): return format(self.__index__(), spec)
    def __str__(self): return str(self.__index__())
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # ---- int API ------------------------------------------------------
    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        n = 0
        while a >= (1 << n):
            n += 1
        return n
    def conjugate(self): return self
    def is_integer(self): return True
    def bit_count(self): return self.__index__().bit_count()
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            return self.__index__().to_bytes(length, byteorder, signed=True)
        if self < 0 or self >= (1 << (8 * length)):
            raise OverflowError("int too big to convert")
        parts = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            parts.reverse()
        return SymBytes(parts)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


def _rng(x):
    return (x, x) if isinstance(x, int) else x.rng()


def _vals(x):
    return frozenset((x,)) if isinstance(x, int) else x.values()


def _term(x, w):
    return bvc(x, w) if isinstance(x, int) else _ext(x.t, w)


_PY = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a // b, "mod": lambda a, b: a % b, "and": lambda a, b: a & b,
    "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b,
    "shr": lambda a, b: a >> b,
}


def _arith(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return _PY[op](a, b)
    # identities
    if isinstance(b, int):
        if b == 0:
            if op in ("add", "sub", "or", "xor", "shl", "shr"):
                return a
            if op in ("mul", "and"):
                return 0
            if op in ("div", "mod"):
                raise ZeroDivisionError("integer division or modulo by zero")
        if b == 1 and op in ("mul", "div"):
            return a
        if b == 1 and op == "mod":
            return 0
        if b < 0 and op in ("shl", "shr"):
            raise ValueError("negative shift count")
    if isinstance(a, int):
        if a == 0:
            if op in ("add", "or", "xor"):
                return b
            if op in ("mul", "and"):
                return 0
            if op in ("shl", "shr"):
                if b < 0:
                    raise ValueError("negative shift count")
                return 0
        if a == 1 and op == "mul":
            return b
    if op in ("div", "mod") and not isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    if op in ("shl", "shr") and not isinstance(b, int):
        if b < 0:
            raise ValueError("negative shift count")
    if op == "shl" and _rng(b)[1] > 512:
        if not isinstance(b, int): return _arith(op, a, b.__index__())       # (forks over the counts)
        if b > 1 << 24: raise Unsupported(f"shift by {b}")
        return (a if isinstance(a, int) else a.__index__()) << b
    if op in ("div", "mod") and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        if op == "div":
            op, b = "shr", b.bit_length() - 1
        else:
            op, b = "and", b - 1
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    av, bv = _vals(a), _vals(b)
    vs = None
    if av is not None and bv is not None and len(av) * len(bv) <= 4 * VS_MAX \
            and not (op in ("div", "mod") and 0 in bv) and not (op in ("shl", "shr") and (bl < 0 or bh > 256)):
        f = _PY[op]
        vs = frozenset(f(x, y) for x in av for y in bv)
        if len(vs) > VS_MAX:
            vs = None
    if vs is not None:
        lo, hi = min(vs), max(vs)
    elif op == "add":
        lo, hi = al + bl, ah + bh
    elif op == "sub":
        lo, hi = al - bh, ah - bl
    elif op == "mul":
        c = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(c), max(c)
    elif op == "and":
        if bl >= 0 and al >= 0:
            lo, hi = 0, min(ah, bh)
        elif bl >= 0:
            lo, hi = 0, bh
        elif al >= 0:
            lo, hi = 0, ah
        else:
            n = max(_bits(al, ah), _bits(bl, bh))
            lo, hi = -(1 << (n - 1)), max(ah, bh)
    elif op in ("or", "xor"):
        n = max(_bits(al, ah), _bits(bl, bh))
        if al >= 0 and bl >= 0:
            lo, hi = (max(al, bl) if op == "or" else 0), (1 << (n - 1)) - 1
        else:
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    elif op == "shl":
        c = (al << bl, al << bh, ah << bl, ah << bh)
        lo, hi = min(c), max(c)
    elif op == "shr":
        bh2 = min(bh, 512)
        bl2 = min(bl, 512)
        c = (al >> bl2, al >> bh2, ah >> bl2, ah >> bh2)
        lo, hi = min(c), max(c)
    elif op == "div":
        if bl > 0:
            c = (al // bl, al // bh, ah // bl, ah // bh)
            lo, hi = min(c), max(c)
        else:
            m = max(abs(al), abs(ah))
            lo, hi = -m - 1, m + 1
    elif op == "mod":
        if bl > 0:
            lo, hi = 0, (bh - 1 if not (al >= 0 and ah < bh) else min(ah, bh - 1))
            if al >= 0 and ah < bl:
                return a
        else:
            m = max(abs(bl), abs(bh))
            lo, hi = -m, m
    if ENG.intmode:
        return _arith_int(op, a, b, lo, hi, vs)
    w = max(_bits(al, ah), _bits(bl, bh), _bits(lo, hi))
    if op == "shl":
        ta, tb = _term(a, w), _term(b, max(w, 1))
        t = ta << tb
    elif op == "shr":
        ta, tb = _term(a, w), _term(b, w)
        t = ta >> tb          # arithmetic
    else:
        if op in ("div", "mod"):
            w += 1
        ta, tb = _term(a, w), _term(b, w)
        if op == "add":
            t = ta + tb
        elif op == "sub":
            t = ta - tb
        elif op == "mul":
            t = ta * tb
        elif op == "and":
            t = ta & tb
        elif op == "or":
            t = ta | tb
        elif op == "xor":
            t = ta ^ tb
        elif op == "div":
            if al >= 0 and bl > 0:
                t = z3.UDiv(ta, tb)
            else:
                m = _smod(ta, tb)
                t = (ta - m) / tb
        elif op == "mod":
            t = z3.URem(ta, tb) if al >= 0 and bl > 0 else _smod(ta, tb)
    return SymInt.make(t, lo, hi, vs)


def _arith_int(op, a, b, lo, hi, vs):
    """Integer-theory terms (used where only order and differences matter)."""
    ta, tb = _term(a, 0), _term(b, 0)
    if op == "add": t = ta + tb
    elif op == "sub": t = ta - tb
    elif op == "mul" and (isinstance(a, int) or isinstance(b, int)): t = ta * tb
    elif op == "shl" and isinstance(b, int): t = ta * z3.IntVal(1 << b)
    elif op == "shr" and isinstance(b, int): t = ta / z3.IntVal(1 << b)
    elif op == "div" and isinstance(b, int) and b > 0: t = ta / tb
    elif op == "mod" and isinstance(b, int) and b > 0: t = ta % tb
    elif op == "and" and isinstance(b, int) and b >= 0 and b & (b + 1) == 0: t = ta % z3.IntVal(b + 1)
    elif op == "and" and isinstance(b, int) and b < 0 and ~b & (~b + 1) == 0: t = ta - ta % z3.IntVal(~b + 1)
    else:
        c = a if isinstance(a, int) else a.__index__()
        d = b if isinstance(b, int) else b.__index__()
        return _PY[op](c, d)
    return SymInt.make(t, lo, hi, vs)


def _long(v):
    return v.as_long() if z3.is_int_value(v) else v.as_signed_long()


def _smod(a, b):
    return z3.BitVecRef(z3.Z3_mk_bvsmod(a.ctx_ref(), a.as_ast(), b.as_ast()), a.ctx)


_NEG = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
_SWP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def _compare(op, a, b):
    """a is a SymInt, b an int or SymInt."""
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    if op == "lt":
        if ah < bl: return True
        if al >= bh: return False
    elif op == "le":
        if ah <= bl: return True
        if al > bh: return False
    elif op == "gt":
        if al > bh: return True
        if ah <= bl: return False
    elif op == "ge":
        if al >= bh: return True
        if ah < bl: return False
    else:
        same = isinstance(b, SymInt) and a.t.get_id() == b.t.get_id()
        disjoint = ah < bl or bh < al
        if not same and not disjoint:
            av, bv = _vals(a), _vals(b)
            if av is not None and bv is not None:
                if av.isdisjoint(bv):
                    disjoint = True
            elif av is not None and isinstance(b, int) and b not in av:
                disjoint = True
        if same: return op == "eq"
        if disjoint: return op == "ne"
        if al == ah == bl == bh: return op == "eq"
    if isinstance(b, SymInt) and a.t.get_id() == b.t.get_id():
        return op in ("le", "ge")
    if isinstance(b, int) and op in ("lt", "le", "gt", "ge"):
        if op == "gt": op, b = "ge", b + 1
        elif op == "le": op, b = "lt", b + 1
    w = max(_bits(al, ah), _bits(bl, bh), _size(a.t), _size(b.t) if isinstance(b, SymInt) else 0)
    ta, tb = _term(a, w), _term(b, w)
    if op == "lt": t = ta < tb
    elif op == "le": t = z3.Not(tb < ta)
    elif op == "gt": t = tb < ta
    elif op == "ge": t = z3.Not(ta < tb)
    elif op == "eq": t = ta == tb if ta.get_id() <= tb.get_id() else tb == ta
    else: t = z3.Not(ta == tb if ta.get_id() <= tb.get_id() else tb == ta)
    return SymBool(t, (a, op, b) if isinstance(b, int) else None)


class SymBool(Sym):
    __slots__ = ("t", "meta")

    def __init__(self, t, meta=None):
        self.t, self.meta = t, meta

    @staticmethod
    def make(t):
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return SymBool(t)

    def __bool__(self):
        return ENG.branch(self.t, self.meta)

    def to_int(self):
        return SymInt(z3.If(self.t, bvc(1, 2), bvc(0, 2)), 0, 1, frozenset((0, 1)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_iff(self, o)
        if isinstance(o, (int, SymInt, SymRat)):
            return self.to_int() == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return sym_not(r)
    def __and__(self, o):
        if isinstance(o, (bool, SymBool)): return sym_and(self, o)
        return self.to_int() & o
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SymBool)): return sym_or(self, o)
        return self.to_int() | o
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)): return sym_not(sym_iff(self, o))
        return self.to_int() ^ o
    __rxor__ = __xor__
    def __add__(self, o): return self.to_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self.to_int() - o
    def __rsub__(self, o): return o - self.to_int()
    def __mul__(self, o): return self.to_int() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self.to_int() << o
    def __rlshift__(self, o): return o << self.to_int()
    def __lt__(self, o): return self.to_int() < o
    def __le__(self, o): return self.to_int() <= o
    def __gt__(self, o): return self.to_int() > o
    def __ge__(self, o): return self.to_int() >= o
    def __invert__(self): return ~self.to_int()
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __hash__(self): return hash(bool(self))
    def __format__(self, spec): return format(bool(self), spec)
    def __str__(self): return str(bool(self))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _bt(x):
    if isinstance(x, SymBool): return x.t
    if isinstance(x, SymInt): return (x != 0).t if isinstance(x != 0, SymBool) else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def sym_not(x):
    if isinstance(x, SymBool):
        m = x.meta
        return SymBool(z3.Not(x.t), (m[0], _NEG[m[1]], m[2]) if m else None)
    return not x


def sym_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, Sym):
            ts.append(x)
        elif not x:
            return False
    if not ts: return True
    if len(ts) == 1: return ts[0]
    return SymBool.make(z3.And([_bt(x) for x in ts]))


def sym_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, Sym):
            ts.append(x)
        elif x:
            return True
    if not ts: return False
    if len(ts) == 1: return ts[0]
    return SymBool.make(z3.Or([_bt(x) for x in ts]))


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def sym_iff(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(a) == bool(b)
    if not isinstance(a, Sym): a, b = b, a
    if not isinstance(b, Sym):
        return a if b else sym_not(a)
    return SymBool.make(_bt(a) == _bt(b))


def sym_ite(c, a, b):
    """If-then-else on ints/bools without forking."""
    if not isinstance(c, Sym):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool.make(z3.If(_bt(c), _bt(a), _bt(b)))
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = _bits(lo, hi)
    w = max(w, *(_size(x.t) for x in (a, b) if isinstance(x, SymInt)), 1)
    av, bv = _vals(a), _vals(b)
    vs = av | bv if av is not None and bv is not None and len(av) + len(bv) <= VS_MAX else None
    return SymInt.make(z3.If(_bt(c), _term(a, w), _term(b, w)), lo, hi, vs)


class SymRat(Sym):
    """Exact rational with symbolic numerator; positive denominator."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        if isinstance(x, SymRat): return x
        if isinstance(x, float):
            n, d = x.as_integer_ratio()
            return SymRat(n, d)
        if isinstance(x, SymBool): x = x.to_int()
        return SymRat(x, 1)

    def __add__(self, o):
        o = SymRat.of(o)
        return SymRat(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__
    def __sub__(self, o):
        o = SymRat.of(o)
        return SymRat(self.n * o.d - o.n * self.d, self.d * o.d)
    def __rsub__(self, o):
        return SymRat.of(o) - self
    def __mul__(self, o):
        o = SymRat.of(o)
        return SymRat(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = SymRat.of(o)
        if o.n == 0: raise ZeroDivisionError("division by zero")
        if o.n < 0:
            return SymRat(-(self.n * o.d), -(self.d * o.n))
        return SymRat(self.n * o.d, self.d * o.n)
    def __rtruediv__(self, o):
        return SymRat.of(o) / self
    def __neg__(self): return SymRat(-self.n, self.d)

    def _cmp(self, o, op):
        o = SymRat.of(o)
        a, b = self.n * o.d, o.n * self.d
        if isinstance(a, int) and isinstance(b, int):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
        if isinstance(a, int):
            return _compare(_SWP[op], b, a)
        return _compare(op, a, b)
    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymRat, SymBool)): return False
        return self._cmp(o, "eq")
    def __ne__(self, o):
        return sym_not(self.__eq__(o))
    def __hash__(self): return hash(self.__float__())
    def __bool__(self): return bool(self.n != 0)
    def __float__(self):
        n = self.n if isinstance(self.n, int) else self.n.__index__()
        d = self.d if isinstance(self.d, int) else self.d.__index__()
        return n / d
    def __int__(self):
        n = self.n if isinstance(self.n, int) else self.n.__index__()
        d = self.d if isinstance(self.d, int) else self.d.__index__()
        return int(n / d)
    def __format__(self, s): return format(float(self), s)


# ---------------------------------------------------------------- choices over arbitrary objects
_intern = {}
_intern_rev = []


def intern_id(obj):
    """A small int for a hashable object (equal objects of equal type share it)."""
    k = (type(obj), obj)
    i = _intern.get(k)
    if i is None:
        i = _intern[k] = len(_intern_rev)
        _intern_rev.append(obj)
    return i


class SymChoice(Sym):
    """One of several concrete hashable objects (strings, None, tuples), selected by a symbolic id."""
    __slots__ = ("sid",)

    def __init__(self, sid):
        self.sid = sid

    @staticmethod
    def make(sid):
        if isinstance(sid, int):
            return _intern_rev[sid]
        return SymChoice(sid)

    def force(self):
        return _intern_rev[self.sid.__index__()]

    def __eq__(self, o):
        if isinstance(o, SymChoice): return self.sid == o.sid
        if isinstance(o, SymStr): return o == self.to_symstr()
        if isinstance(o, Sym):
            return o == self.force()
        try:
            k = (type(o), o)
            hash(k)
        except TypeError:
            return self.force() == o
        if k in _intern:
            return self.sid == _intern[k]
        vs = self.sid.values()
        if vs is not None and all(type(_intern_rev[v]) is type(o) for v in vs):
            return False
        return self.force() == o
    def __ne__(self, o): return sym_not(self.__eq__(o))
    def map(self, fn):
        """Apply a function of the object, without forking (fn: object -> int/hashable)."""
        vs = self.sid.values()
        if vs is None:
            return fn(self.force())
        return lookup_map({v: fn(_intern_rev[v]) for v in vs}, self.sid)
    def __hash__(self): return hash(self.force())
    def __bool__(self): return bool(self.map(bool))
    def __len__(self): return len(self.force())
    def __iter__(self): return iter(self.force())
    def __getitem__(self, i): return self.force()[i]
    def __contains__(self, x): return x in self.force()
    def to_symstr(self):
        """A choice between strings as a string with symbolic characters; forks on the length only."""
        vs = self.sid.values()
        if vs is None: return self.force()
        strs = sorted(v for v in vs if isinstance(_intern_rev[v], str))
        if len(strs) < len(vs):
            if not strs or not self.map(lambda s: isinstance(s, str)): return self.force()
        n = lookup_map({v: len(_intern_rev[v]) for v in strs}, self.sid)
        if isinstance(n, SymInt): n = n.__index__()
        vs = [v for v in strs if len(_intern_rev[v]) == n]     # the path has fixed the length
        if len(vs) == 1: return _intern_rev[vs[0]]
        return SymStr.mk([lookup_map({v: ord(_intern_rev[v][k]) for v in vs}, self.sid) for k in range(n)])
    def __add__(self, o): return self.to_symstr() + o
    def __radd__(self, o): return o + self.to_symstr()
    def __lt__(self, o): return self.force() < o
    def __gt__(self, o): return self.force() > o
    def __le__(self, o): return self.force() <= o
    def __ge__(self, o): return self.force() >= o
    def __str__(self): return str(self.force())
    def __format__(self, s): return format(self.force(), s)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self.force(), n)


# ---------------------------------------------------------------- sequences of symbolic elements
def _elt_eq(a, b):
    return a == b


class SymSeq(Sym):
    """Immutable sequence with concrete length and int/SymInt elements (base of SymStr, SymBytes)."""
    __slots__ = ("e",)
    py = None

    def __init__(self, e):
        self.e = tuple(e)

    @classmethod
    def mk(cls, e):
        e = tuple(e)
        if all(isinstance(x, int) for x in e):
            return cls.concrete(e)
        return cls(e)

    def __len__(self): return len(self.e)
    def __bool__(self): return len(self.e) != 0

    def _other(self, o):
        if isinstance(o, SymChoice): o = o.to_symstr()
        if isinstance(o, SymSeq): return o.e if o.py == self.py else None
        if isinstance(o, self.py): return self.elems(o)
        return None

    def __eq__(self, o):
        oe = self._other(o)
        if oe is None or len(oe) != len(self.e): return False
        return sym_and(*[a == b for a, b in zip(self.e, oe)])
    def __ne__(self, o): return sym_not(self.__eq__(o))
    def __hash__(self): return hash(self.force())
    def _lt(self, a, b, strict):
        for x, y in zip(a, b):
            if x == y: continue
            return bool(x < y)
        return len(a) < len(b) or (not strict and len(a) == len(b))
    def __lt__(self, o): return self._lt(self.e, self._other(o), True)
    def __le__(self, o): return self._lt(self.e, self._other(o), False)
    def __gt__(self, o): return self._lt(self._other(o), self.e, True)
    def __ge__(self, o): return self._lt(self._other(o), self.e, False)
    def __add__(self, o):
        oe = self._other(o)
        if oe is None: return NotImplemented
        return self.mk(self.e + tuple(oe))
    def __radd__(self, o):
        oe = self._other(o)
        if oe is None: return NotImplemented
        return self.mk(tuple(oe) + self.e)
    def __mul__(self, n): return self.mk(self.e * int(n))
    __rmul__ = __mul__
    def force(self):
        return self.concrete([x if isinstance(x, int) else x.__index__() for x in self.e])
    def __str__(self): return str(self.force())
    def __repr__(self): return f"{type(self).__name__}{self.e!r}"
    def __format__(self, s): return format(self.force(), s)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

    def _match(self, i, sep):
        return sym_and(*[self.e[i + k] == sep[k] for k in range(len(sep))])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.force().split(None, maxsplit)
        s = self._other(sep)
        if not s: raise ValueError("empty separator")
        out, cur, i, n = [], 0, 0, len(self.e)
        while i + len(s) <= n:
            if maxsplit != 0 and self._match(i, s):
                out.append(self.mk(self.e[cur:i]))
                i += len(s)
                cur = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.mk(self.e[cur:]))
        return out

    def find(self, sub, start=0, end=None):
        s = [sub] if isinstance(sub, (int, SymInt)) else self._other(sub)
        end = len(self.e) if end is None else end
        for i in range(start, end - len(s) + 1):
            if self._match(i, s): return i
        return -1
    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0: raise ValueError("subsection not found")
        return r
    def rfind(self, sub):
        s = self._other(sub)
        for i in range(len(self.e) - len(s), -1, -1):
            if self._match(i, s): return i
        return -1
    def rindex(self, sub):
        r = self.rfind(sub)
        if r < 0: raise ValueError("subsection not found")
        return r
    def partition(self, sep):
        i = self.find(sep)
        s = self._other(sep)
        if i < 0: return (self, self.concrete(()), self.concrete(()))
        return (self.mk(self.e[:i]), sep, self.mk(self.e[i + len(s):]))
    def rpartition(self, sep):
        i = self.rfind(sep)
        s = self._other(sep)
        if i < 0: return (self.concrete(()), self.concrete(()), self)
        return (self.mk(self.e[:i]), sep, self.mk(self.e[i + len(s):]))
    def startswith(self, p):
        s = self._other(p)
        return len(s) <= len(self.e) and bool(self._match(0, s))
    def endswith(self, p):
        s = self._other(p)
        return len(s) <= len(self.e) and bool(self._match(len(self.e) - len(s), s))
    def removeprefix(self, p):
        return self.mk(self.e[len(p):]) if self.startswith(p) else self
    def replace(self, a, b, count=-1):
        parts = self.split(a)
        return self.join_parts(b, parts)
    def join_parts(self, sep, parts):
        r = None
        for p in parts:
            r = p if r is None else r + sep + p
        return r
    def count(self, sub):
        return len(self.split(sub)) - 1
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        f = getattr(self.force(), n)
        return f


class SymStr(SymSeq):
    __slots__ = ()
    py = str
    @staticmethod
    def concrete(e): return "".join(map(chr, e))
    @staticmethod
    def elems(s): return tuple(map(ord, s))
    def __getitem__(self, i):
        if isinstance(i, slice): return SymStr.mk(self.e[i])
        if isinstance(i, SymInt): i = i.__index__()
        return SymStr.mk((self.e[i],))
    def __iter__(self):
        for x in self.e: yield SymStr.mk((x,))
    def __contains__(self, s):
        return bool(self.contains(s))
    def contains(self, s):
        s = self._other(s)
        return sym_or(*[self._match(i, s) for i in range(0, len(self.e) - len(s) + 1)])
    def join(self, parts):
        return str_join(self, parts)
    def _ascii(self): return all([x < 128 if isinstance(x, int) else x.hi < 128 or bool(x < 128) for x in self.e])
    def upper(self): return SymStr.mk([_ascii_case(x, 97, 122, -32) for x in self.e]) if self._ascii() else self.force().upper()
    def lower(self): return SymStr.mk([_ascii_case(x, 65, 90, 32) for x in self.e]) if self._ascii() else self.force().lower()
    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)
    def _isws(self, x, chars):
        cs = [ord(k) for k in (chars if chars is not None else " \t\n\r\x0b\x0c")]
        return bool(sym_or(*[x == k for k in cs]))
    def lstrip(self, chars=None):
        e = self.e
        while e and self._isws(e[0], chars): e = e[1:]
        return SymStr.mk(e)
    def rstrip(self, chars=None):
        e = self.e
        while e and self._isws(e[-1], chars): e = e[:-1]
        return SymStr.mk(e)
    def zfill(self, n):
        return SymStr.mk((48,) * max(0, n - len(self.e)) + self.e)
    def encode(self, *a):
        return self.force().encode(*a)


def _ascii_case(x, lo, hi, d):
    if isinstance(x, int): return x + d if lo <= x <= hi else x
    return sym_ite(sym_and(x >= lo, x <= hi), x + d, x)


class SymBytes(SymSeq):
    __slots__ = ()
    py = (bytes, bytearray)
    @staticmethod
    def concrete(e): return bytes(e)
    @staticmethod
    def elems(s): return tuple(s)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes.mk(self.e[slice(*[None if k is None else k.__index__() for k in (i.start, i.stop, i.step)])])
        if isinstance(i, SymInt):
            return seq_lookup(self.e, i)
        return self.e[i]
    def __iter__(self): return iter(self.e)
    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return bool(sym_or(*[x == k for k in self.e]))
        return self.find(x) >= 0
    def decode(self, encoding="utf-8", errors="strict"):
        for x in self.e:
            if isinstance(x, SymInt) and encoding.lower() not in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
                if not x < 128: return self.force().decode(encoding, errors)
        return SymStr.mk(self.e)
    def hex(self): return self.force().hex()


class LazyBytes(SymBytes):
    """A slice of bytes with symbolic bounds.  Nothing happens until its content is needed; then the path forks over the
    length only, and the elements become lookups at symbolic positions."""
    __slots__ = ("base", "start", "stop", "_e")

    def __init__(self, base, start, stop):
        self.base, self.start, self.stop, self._e = base, start, stop, None

    @classmethod
    def mk(cls, e): return SymBytes.mk(e)

    @staticmethod
    def _clamp(k, n, default):
        if k is None: return default
        if not (k if isinstance(k, int) else k.rng()[0]) >= 0:
            if k < 0:
                k = k + n
                if k < 0: return 0
        return n if k > n else k

    @property
    def e(self):
        if self._e is None:
            n = len(self.base)
            a, b = self._clamp(self.start, n, 0), self._clamp(self.stop, n, n)
            d = b - a
            d = d if isinstance(d, int) else d.__index__()
            self._e = tuple(self.base[a + k] if isinstance(a, int) else seq_lookup(self.base, a + k) for k in range(d))
        return self._e


def str_join(sep, parts):
    out = []
    se = sep.e if isinstance(sep, SymStr) else tuple(map(ord, sep))
    first = True
    for p in parts:
        if not first: out.extend(se)
        first = False
        if isinstance(p, SymStr): out.extend(p.e)
        elif isinstance(p, SymChoice):
            p = p.to_symstr()
            if not isinstance(p, (str, SymStr)): raise TypeError("sequence item: expected str instance, %s found" % type(p).__name__)
            out.extend(p.e if isinstance(p, SymStr) else map(ord, p))
        elif isinstance(p, str): out.extend(map(ord, p))
        else: raise TypeError("sequence item: expected str instance, %s found" % type(p).__name__)
    return SymStr.mk(out)


class SymRange(Sym):
    """range() with symbolic bounds and concrete step."""
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step
    def contains(self, x):
        if isinstance(x, SymBool): x = x.to_int()
        if not isinstance(x, (int, SymInt)): return False
        if self.step == 1:
            return sym_and(x >= self.start, x < self.stop)
        if self.step > 0:
            return sym_and(x >= self.start, x < self.stop, (x - self.start) % self.step == 0)
        return sym_and(x <= self.start, x > self.stop, (self.start - x) % (-self.step) == 0)
    def __contains__(self, x): return bool(self.contains(x))
    def slen(self):
        if self.step == 1:
            d = self.stop - self.start
            return sym_ite(d > 0, d, 0)
        if self.step > 0:
            d = (self.stop - self.start + self.step - 1) // self.step
        else:
            d = (self.start - self.stop - self.step - 1) // (-self.step)
        return sym_ite(d > 0, d, 0)
    def __len__(self): return self.slen().__index__()
    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else bool(self.start > self.stop)
    def __getitem__(self, i):
        n = self.slen()
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic range")
        if i < 0: i = i + n
        if i < 0 or i >= n: raise IndexError("range object index out of range")
        return self.start + i * self.step
    def __eq__(self, o):
        if not isinstance(o, (range, SymRange)): return False
        na, nb = self.slen(), (o.slen() if isinstance(o, SymRange) else len(o))
        return sym_or(sym_and(na == 0, nb == 0),
                      sym_and(na == nb, self.start == o.start, sym_or(na == 1, self.step == o.step)))
    def __ne__(self, o): return sym_not(self.__eq__(o))
    def __hash__(self): return hash(self.force())
    def force(self):
        f = lambda k: k if isinstance(k, int) else k.__index__()
        return range(f(self.start), f(self.stop), f(self.step))
    def __reversed__(self): return reversed(self.force())
    def index(self, x):
        if self.contains(x): return (x - self.start) // self.step
        raise ValueError("not in range")
    def __repr__(self): return f"SymRange({self.start}, {self.stop}, {self.step})"


class SymArray(Sym):
    """A read-only sequence of concrete length n whose elements are unconstrained unsigned nbits-wide
    symbols (a table of arbitrary content), encoded as a z3 array.  `over` maps concrete positions to values."""
    __slots__ = ("a", "n", "nbits", "iw", "over", "accessed")

    def __init__(self, name, n, nbits, over=None, a=None, accessed=None):
        self.accessed = {} if accessed is None else accessed      # shared between the views of one array
        self.n, self.nbits = n, nbits
        self.iw = max(1, n.bit_length()) + 2
        self.a = a if a is not None else z3.Array(name, z3.BitVecSort(self.iw), z3.BitVecSort(nbits))
        self.over = over or {}

    def with_(self, over):
        o = dict(self.over)
        o.update(over)
        return SymArray(None, self.n, self.nbits, o, self.a, self.accessed)

    def __len__(self): return self.n

    def term(self, i):
        return z3.ZeroExt(1, z3.Select(self.a, _term(i, self.iw)))

    def at(self, i):
        """Element i (no bounds check)."""
        if isinstance(i, int) and i in self.over: return self.over[i]
        self.accessed[i if isinstance(i, int) else ("t", i.t.get_id())] = i
        key = ("arr", id(self), i if isinstance(i, int) else ("t", i.t.get_id()))
        r = ENG.memo.get(key)
        if r is None:
            v = SymInt(self.term(i), 0, (1 << self.nbits) - 1)
            if not isinstance(i, int):
                lo, hi = i.lo, i.hi
                for k, x in self.over.items():
                    if lo <= k <= hi: v = sym_ite(i == k, x, v)
            r = ENG.memo[key] = (v, i, self)
        return r[0]

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda k: k.__index__() if isinstance(k, SymInt) else k
            return [self.at(k) for k in range(*slice(f(i.start), f(i.stop), f(i.step)).indices(self.n))]
        if isinstance(i, SymInt):
            lo, hi = i.rng()
            if lo < 0 and i < 0:
                i = i + self.n
                if i < 0: raise IndexError("list index out of range")
            if hi >= self.n and i >= self.n: raise IndexError("list index out of range")
            return self.at(i)
        if i < 0: i += self.n
        if i < 0 or i >= self.n: raise IndexError("list index out of range")
        return self.at(i)

    def __iter__(self):
        for k in range(self.n): yield self.at(k)


# ---------------------------------------------------------------- table lookup
class RunTable:
    """A read-only int-indexed table of `length` entries stored as runs."""
    def __init__(self, starts, values, length):
        self.starts, self.vals, self.length = starts, values, length
    def __len__(self): return self.length
    def __getitem__(self, i):
        import bisect
        if i < 0 or i >= self.length: raise IndexError("table index out of range")
        return self.vals[bisect.bisect_right(self.starts, i) - 1]
    def runs(self, lo, hi):
        """Runs (start, value) that cover lo..hi."""
        import bisect
        k = bisect.bisect_right(self.starts, lo) - 1
        out = []
        while k < len(self.starts) and self.starts[k] <= hi:
            out.append((max(lo, self.starts[k]), self.vals[k]))
            k += 1
        return out


def _entry(v):
    """Classify a table entry: ('i', int) or ('o', id)."""
    if isinstance(v, bool):
        return "b", int(v)
    if isinstance(v, int):
        return "i", v
    return None, v


def seq_lookup(seq, idx):
    """seq[idx] for a symbolic idx; seq is a list/tuple/bytes/RunTable (or has runs())."""
    n = len(seq)
    lo, hi = idx.rng()
    if hi >= n:
        if idx >= n: raise IndexError("list index out of range")
        hi = min(hi, n - 1)
    if lo < 0:
        if isinstance(seq, RunTable):
            if idx < 0: raise IndexError("table index out of range")
        elif idx < 0:
            if idx < -n: raise IndexError("list index out of range")
            idx2 = idx + n
            return seq_lookup(seq, idx2) if isinstance(idx2, SymInt) else seq[idx2]
        lo = max(lo, 0)
        lo2, hi2 = idx.rng()
        lo, hi = max(lo, lo2), min(hi, hi2)
    if lo == hi:
        return seq[lo]
    key = ("lk", id(seq), idx.t.get_id(), lo, hi)
    r = ENG.memo.get(key) or ENG.path_memo.get(key)
    if r is not None:
        return r[0]
    vs = idx.values()
    if vs is not None:
        pts = sorted(v for v in vs if lo <= v <= hi)
        items = [(p, seq[p]) for p in pts]
    elif isinstance(seq, RunTable):
        items = seq.runs(lo, hi)
    else:
        if hi - lo > 2000000: raise Unsupported(f"lookup over {hi - lo} entries")
        if hi - lo > 16 and isinstance(seq, (list, tuple)) and any(isinstance(v, Sym) for v in seq[lo:hi + 1]):
            k = ENG.unique(idx)
            if k is not None: return seq[k]
        items = list(enumerate(seq[lo:hi + 1], lo)) if isinstance(seq, (list, tuple, bytes)) else [(k, seq[k]) for k in range(lo, hi + 1)]
    r = _lookup_items(items, idx, seq)
    # Ranges of symbolic elements may have been narrowed by this path: such a result holds for this path only.
    memo = ENG.path_memo if any(isinstance(v, Sym) for _, v in items) else ENG.memo
    memo[key] = (r, seq, idx)   # keep seq and idx alive
    return r


def lookup_map(d, idx):
    """d[idx] for a dict of int keys that cover all values of idx."""
    return _lookup_items(sorted(d.items()), idx, d)


def _lookup_items(items, idx, seq):
    """items: ascending (key, value); idx is known to be one of the keys (or inside the runs they start)."""
    if not items: raise Infeasible()
    first = items[0][1]
    # all ints?
    if all(type(v) is int for _, v in items):
        kind = "i"
    elif all(type(v) is bool for _, v in items):
        kind = "b"
    elif any(isinstance(v, Sym) for _, v in items):
        if all(isinstance(v, (int, SymInt)) for _, v in items):
            kind = "si"
        else:
            kind = "f"
    else:
        try:
            items = [(k, intern_id(v)) for k, v in items]
            kind = "o"
        except TypeError:
            kind = "f"
    if kind == "f":
        groups = []
        for k, v in items:
            for g in groups:
                if g[0] is v:
                    g[1].append(k)
                    break
            else:
                groups.append((v, [k]))
        for v, ks in groups[:-1]:
            if sym_or(*[idx == k for k in ks]): return v
        return groups[-1][0]
    if kind == "si":
        starts, leaves = [], []
        for k, v in items:
            if not leaves or v is not leaves[-1] and not (type(v) is int and type(leaves[-1]) is int and v == leaves[-1]):
                starts.append(k)
                leaves.append(v)

        def tree(a, b):
            if b - a == 1: return leaves[a]
            m = (a + b) // 2
            return sym_ite(idx < starts[m], tree(a, m), tree(m, b))
        return tree(0, len(leaves))
    # run-length compress
    ks, vals = [items[0][0]], [int(items[0][1])]
    for k, v in items[1:]:
        if v != vals[-1]:
            ks.append(k)
            vals.append(int(v))
    if len(vals) == 1:
        return _wrap(kind, vals[0])
    if ENG.max_runs and len(vals) > ENG.max_runs: raise TooWide(f"{len(vals)} runs")
    w = _bits(min(vals), max(vals))
    it, iw = idx.t, _size(idx.t)

    consts = {}
    def leaf(v):
        t = consts.get(v)
        if t is None: t = consts[v] = bvc(v, w)
        return t

    def build(a, b):
        if b - a == 1: return leaf(vals[a])
        m = (a + b) // 2
        return z3.If(it < bvc(ks[m], iw), build(a, m), build(m, b))

    if kind == "b":
        def buildb(a, b):
            if b - a == 1: return z3.BoolVal(bool(vals[a]))
            m = (a + b) // 2
            return z3.If(it < bvc(ks[m], iw), buildb(a, m), buildb(m, b))
        return SymBool(buildb(0, len(vals)))
    t = build(0, len(vals))
    sv = frozenset(vals)
    r = SymInt.make(t, min(vals), max(vals), sv if len(sv) <= VS_MAX else None)
    return SymChoice.make(r) if kind == "o" else r


def _wrap(kind, v):
    if kind == "b": return bool(v)
    if kind == "o": return _intern_rev[v]
    return v


def dict_lookup(d, key, default=KeyError):
    """d[key] for a symbolic key."""
    if isinstance(key, SymInt):
        vs = key.values()
        lo, hi = key.rng()
        ks = sorted(k for k in d if isinstance(k, int) and lo <= k <= hi and (vs is None or k in vs))
        miss = not (vs is not None and all(v in d for v in vs if lo <= v <= hi))
        if miss:
            inn = sym_or(*[key == k for k in ks]) if len(ks) < 3000 else None
            if inn is None: return d[key.__index__()]
            if not inn:
                if default is KeyError: raise KeyError(key)
                return default
        if not ks: raise Infeasible()
        return _lookup_items([(k, d[k]) for k in ks], key, d)
    if isinstance(key, SymChoice):
        vs = key.sid.values()
        if vs is not None:
            if all(_intern_rev[v] in d for v in vs):
                return lookup_map_obj({v: d[_intern_rev[v]] for v in vs}, key.sid)
        k = key.force()
        if default is KeyError: return d[k]
        return d.get(k, default)
    if isinstance(key, (SymStr, SymBytes)):
        for k in d:
            if (isinstance(k, key.py) or isinstance(k, SymSeq) and k.py == key.py) and len(k) == len(key):
                if key == k: return d[k]
        if default is KeyError: raise KeyError(key)
        return default
    k = key.__index__() if hasattr(key, "__index__") else key.force()
    if default is KeyError: return d[k]
    return d.get(k, default)


def lookup_map_obj(d, idx):
    if isinstance(idx, int): return d[idx]
    return _lookup_items(sorted(d.items(), key=lambda kv: kv[0]), idx, d)


# ---------------------------------------------------------------- the explorer
class Stats:
    FIELDS = ("queries", "solver_s", "paths", "checks", "discharged", "trivial")

    def __init__(self):
        self.queries = self.paths = self.checks = self.discharged = self.trivial = 0
        self.solver_s = 0.0
        self.labels = {}
        self.entered = set()

    def merge(self, o):
        for f in self.FIELDS: setattr(self, f, getattr(self, f) + getattr(o, f))
        for k, v in o.labels.items(): self.labels[k] = self.labels.get(k, 0) + v
        self.entered |= o.entered


class Engine:
    symbolic = True

    def __init__(self, timeout_ms=200000, max_paths=400000, logic="QF_BV", deadline=None, max_runs=None):
        self.intmode = logic in ("QF_IDL", "QF_LIA", "INT")
        if logic == "INT": logic = None
        self.timeout_ms, self.max_paths, self.logic = timeout_ms, max_paths, logic
        self.deadline = deadline
        self.max_runs = max_runs
        self.stats = Stats()
        self.order = None          # a random.Random: the order of paths, for explorations that a time limit may cut
        self.hot = False
        self.seconds = False       # explore second calls where the harness offers them (state.again)
        self.inpath = False        # a first call left something behind

    def explore(self, fn):
        """Run fn() on every feasible path.  fn uses self.int()/check(); may raise Violation."""
        global ENG
        prev, ENG = ENG, self
        from . import state
        self.memo, self.vars, self.witnessed = {}, {}, set()
        self.saved, self.symkeys, self.symcells, self.lru = {}, {}, {}, {}
        self.stateful = False
        self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pending, self.cold = [[]], []
        n = 0
        try:
            while self.pending:
                if n >= self.max_paths: raise Inconclusive(f"more than {self.max_paths} paths")
                self.prefix, self.pos = self.pending.pop(self.order.randrange(len(self.pending)) if self.order else -1), 0
                self.decisions, self.refine, self.path_memo = [], {}, {}
                self.names, self.keep, self.model = {}, [], None
                self.symkeys, self.symcells, self.lru = {}, {}, {}
                self.ns, self.muted = "", False
                self.solver.push()
                try:
                    fn()
                except (PathStop, Infeasible):
                    pass
                finally:
                    self.solver.pop()
                    if self.saved:
                        if any(i in self.saved for i in self.symcells): self.stateful = True
                        if state.restore(self): self.stateful = True
                n += 1
                self.stats.paths += 1
                if not self.pending: self.pending, self.cold = self.cold, []
        finally:
            ENG = prev

    # -- solver
    def _check(self, *assumptions):
        if self.deadline and time.time() > self.deadline: raise Inconclusive("time budget exceeded")
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown: raise Inconclusive(f"solver: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _model(self):
        if self.model is None:
            if not self._check(): raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def _note(self, meta, taken):
        if not meta: return
        x, op, k = meta
        if not taken: op = _NEG[op]
        tid = x.t.get_id()
        lo, hi = self.refine.get(tid, (x.lo, x.hi))
        if op == "lt": hi = min(hi, k - 1)
        elif op == "le": hi = min(hi, k)
        elif op == "gt": lo = max(lo, k + 1)
        elif op == "ge": lo = max(lo, k)
        elif op == "eq": lo, hi = max(lo, k), min(hi, k)
        elif k == lo: lo += 1
        elif k == hi: hi -= 1
        else: return
        self.refine[tid] = (lo, hi)
        self.keep.append(x)

    def _follow(self, val, t, meta):
        self.decisions.append(val)
        self.solver.add(t if val else z3.Not(t))
        self._note(meta, val)
        self.path_memo[t.get_id()] = (val, t)
        return val

    def branch(self, t, meta=None):
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if z3.is_not(t):
            return not self.branch(t.arg(0), (meta[0], _NEG[meta[1]], meta[2]) if meta else None)
        known = self.path_memo.get(t.get_id())
        if known is not None: return known[0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            if not isinstance(val, bool): raise Inconclusive("non-deterministic replay of a path")
            self.model = None      # one found earlier in the replay need not take this turn
            return self._follow(val, t, meta)
        if self.hot and self.order:            # a stored key: first the paths that find it
            val = self._check(t)
            if val and self._check(z3.Not(t)): self.cold.append(self.decisions + [False])
            self.model = None
            return self._follow(val, t, meta)
        val = z3.is_true(self._model().eval(t, model_completion=True))
        if self._check(z3.Not(t) if val else t):
            self.pending.append(self.decisions + [not val])
        return self._follow(val, t, meta)

    def unique(self, x):
        """The value of x if the path leaves only one, else None (no fork)."""
        lo, hi = x.rng()
        if lo == hi: return lo
        known = self.path_memo.get(("unique", x.t.get_id()))
        if known is not None: return known[0]
        v = self._model().eval(x.t, model_completion=True)
        k = _long(v)
        one = not self._check(x.t != v)
        self.path_memo[("unique", x.t.get_id())] = (k if one else None, x)
        if one:
            self.refine[x.t.get_id()] = (k, k)
            self.keep.append(x)
        return k if one else None

    def concretise(self, x):
        """A concrete value of x on this path; forks over all feasible values."""
        lo, hi = x.rng()
        if lo == hi: return lo
        w = _size(x.t)
        excluded = ()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if isinstance(d, bool): raise Inconclusive("non-deterministic replay of a path")
            if d[0] == "v":
                v = d[1]
                self.model = None
                self.decisions.append(d)
                self.solver.add(x.t == bvc(v, w))
                self._note((x, "eq", v), True)
                return v
            excluded = d[1]
            for v in excluded: self.solver.add(x.t != bvc(v, w))
            self.model = None
        v = _long(self._model().eval(x.t, model_completion=True))
        if len(excluded) > CONC_MAX: raise Inconclusive("concretisation over too many values")
        self.pending.append(self.decisions + [("x", excluded + (v,))])
        self.decisions.append(("v", v))
        self.solver.add(x.t == bvc(v, w))
        self._note((x, "eq", v), True)
        return v

    # -- harness API ----------------------------------------------------
    def int(self, name, lo, hi):
        """A symbolic input in [lo, hi]."""
        name = self.ns + name
        if lo == hi:
            self.names[name] = lo
            return lo
        w = _bits(lo, hi)
        v = self.vars.get((name, lo, hi))      # a name may have another range on another path
        if v is None: v = self.vars[name, lo, hi] = SymInt(z3.Int(name) if self.intmode else z3.BitVec(name, w), lo, hi)
        self.names[name] = v
        if self.intmode:
            self.solver.add(v.t >= lo, v.t <= hi)
            self.model = None
            return v
        if lo != -(1 << (w - 1)):
            self.solver.add(v.t >= bvc(lo, w))
            self.model = None
        if hi != (1 << (w - 1)) - 1:
            self.solver.add(v.t <= bvc(hi, w))
            self.model = None
        return v

    def bits(self, name, base, nbits):
        """A symbolic input base + free low bits (an aligned cube: no range constraint needed)."""
        if self.intmode and nbits: return self.int(name, base, base + (1 << nbits) - 1)
        name = self.ns + name
        if nbits == 0:
            self.names[name] = base
            return base
        lo, hi = base, base + (1 << nbits) - 1
        w = _bits(lo, hi)
        v = self.vars.get(name)
        if v is None:
            f = z3.BitVec(name + "!lo", nbits)
            t = z3.Concat(bvc(base >> nbits, w - nbits), f)
            v = self.vars[name] = SymInt(t, lo, hi)
        self.names[name] = v
        return v

    def bool(self, name):
        name = self.ns + name
        v = self.vars.get(name)
        if v is None: v = self.vars[name] = SymBool(z3.Bool(name))
        self.names[name] = v
        return v

    def array(self, name, n, nbits):
        """A symbolic table of n unsigned nbits-wide elements."""
        name = self.ns + name
        v = self.vars.get(name)
        if v is None: v = self.vars[name] = SymArray(name, n, nbits)
        self.names[name] = v
        return v

    def note(self, name, v):
        """Record a derived value so that counterexamples show it."""
        self.names[self.ns + name] = v

    def before(self, fn):
        """An earlier call: fn() with inputs of its own; what it checks is checked elsewhere."""
        self.ns, self.muted = "before.", True
        try:
            fn()
        except (PathStop, Exception):
            pass
        finally:
            self.ns, self.muted = "", False

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.solver.add(cond.t)
            self._note(cond.meta, True)
            self.model = None
            self.keep.append(cond.t)
        elif isinstance(cond, Sym):
            if not cond: raise PathStop()
        elif not cond:
            raise PathStop()

    def check(self, cond, label, detail=""):
        """Assert cond on this path: path condition and not cond must be unsatisfiable."""
        if self.muted:
            if not isinstance(cond, Sym) and not cond: raise PathStop()
            return
        st = self.stats
        st.labels[label] = st.labels.get(label, 0) + 1
        if label not in self.witnessed:
            self._model()              # reachability: this assertion is reached on a satisfiable path
            self.witnessed.add(label)
        st.checks += 1
        if isinstance(cond, Sym) and not isinstance(cond, SymBool): cond = bool(cond)
        if isinstance(cond, SymBool):
            if self._check(z3.Not(cond.t)): self._violate(label, self.solver.model(), detail)
        else:
            if not cond: self._violate(label, self._model(), detail)
            st.trivial += 1
        st.discharged += 1

    def fail(self, label, detail=""):
        self.check(False, label, detail)
        raise PathStop()

    def noraise(self, label, fn, *args, **kw):
        """fn() must not raise; returns its value."""
        try:
            return fn(*args, **kw)
        except Exception as e:
            self.fail(label, f"raised {type(e).__name__}: {e}")

    And, Or = staticmethod(sym_and), staticmethod(sym_or)
    Not, Implies, Iff, Ite = staticmethod(sym_not), staticmethod(sym_implies), staticmethod(sym_iff), staticmethod(sym_ite)

    def _violate(self, label, m, detail=""):
        raise Violation(label, {n: self._eval(m, v) for n, v in self.names.items()}, detail)

    def _eval(self, m, v):
        if isinstance(v, SymInt): return _long(m.eval(v.t, model_completion=True))
        if isinstance(v, SymBool): return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SymArray):
            out = {}
            for i in v.accessed.values():
                k = i if isinstance(i, int) else _long(m.eval(i.t, model_completion=True))
                if 0 <= k < v.n: out[k] = m.eval(v.term(k), model_completion=True).as_signed_long()
            return {"sparse": v.n, "values": out}
        return v


class ListWith(list):
    def with_(self, over):
        r = ListWith(self)
        for k, v in over.items(): r[k] = v
        return r


class Concrete:
    """The same harness API on concrete inputs (replay against the unmodified code)."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.stats = Stats()
        self.names = {}
        self.ns, self.muted = "", False

    def before(self, fn):
        self.ns, self.muted = "before.", True
        try:
            fn()
        except (PathStop, Exception):
            pass
        finally:
            self.ns, self.muted = "", False

    def _get(self, name, default):
        return self.inputs.get(self.ns + name, default)      # inputs created after the failing point: any value will do

    def int(self, name, lo, hi):
        v = lo if lo == hi else self._get(name, lo)
        if not lo <= v <= hi: raise PathStop()
        return v
    def bits(self, name, base, nbits): return self._get(name, base)
    def bool(self, name): return self._get(name, False)
    def array(self, name, n, nbits):
        v = self._get(name, {"sparse": n, "values": {}})
        if isinstance(v, dict):
            a = ListWith([0]) * v["sparse"]
            for k, x in v["values"].items(): a[int(k)] = x
            return ListWith(a)
        return ListWith(v)
    def note(self, name, v): self.names[self.ns + name] = v
    def assume(self, cond):
        if not cond: raise PathStop()
    def check(self, cond, label, detail=""):
        if self.muted:
            if not cond: raise PathStop()
            return
        self.stats.checks += 1
        if not cond: raise Violation(label, dict(self.inputs), detail)
    def fail(self, label, detail=""): self.check(False, label, detail)
    def noraise(self, label, fn, *args, **kw):
        try:
            return fn(*args, **kw)
        except Exception as e:
            self.fail(label, f"raised {type(e).__name__}: {e}")
    @staticmethod
    def And(*xs): return all(xs)
    @staticmethod
    def Or(*xs): return any(xs)
    @staticmethod
    def Not(x): return not x
    @staticmethod
    def Implies(a, b): return (not a) or b
    @staticmethod
    def Iff(a, b): return bool(a) == bool(b)
    @staticmethod
    def Ite(c, a, b): return a if c else b
