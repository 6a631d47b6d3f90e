"""symx.loader: loads Python modules through an AST pass that makes them executable on symbolic values.

Only the syntactic operations whose C implementation would concretise a symbolic operand are rerouted:
calls, subscript loads, `in`, `is`, f-strings and string-%.  Everything else is Python's own operator dispatch.
"""
import ast
import builtins
import functools
import importlib.abc
import importlib.util
import os
import struct
import sys
import types

from . import core, state
from .core import *  # noqa
from .core import sym_and, sym_or, sym_not, seq_lookup, dict_lookup, str_join, _compare

ENTERED = set()

NOWRAP = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []
        self.temps = 0

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOWRAP:
            node.args = [self.visit(a) for a in node.args]
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.copy_location(ast.Call(func=self._name("sx__call"), args=[f] + args, keywords=kws), node)

    def visit_Subscript(self, node):
        v, s = self.visit(node.value), self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            if isinstance(s, ast.Slice):
                z = lambda x: x if x is not None else ast.Constant(value=None)
                s = ast.Call(func=self._name("sx__slice"), args=[z(s.lower), z(s.upper), z(s.step)], keywords=[])
            elif isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
                node.value, node.slice = v, s
                return node
            return ast.copy_location(ast.Call(func=self._name("sx__getitem"), args=[v, s], keywords=[]), node)
        node.value, node.slice = ast.Call(func=self._name("sx__w"), args=[v], keywords=[]), s
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if not isinstance(node.ctx, ast.Load):
            node.value = ast.Call(func=self._name("sx__w"), args=[node.value], keywords=[])
        return node

    # ---- stores: subscripts go through the run time, other targets report the object they write to
    def _cell(self, t):
        """(object, index) of a target that is a plain subscript, transformed; else None."""
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and \
                not (isinstance(t.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in t.slice.elts)):
            return self.visit(t.value), self.visit(t.slice)
        return None

    def _outline(self, t, after):
        """The target with its plain subscripts replaced by temporaries that are stored afterwards."""
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._outline(e, after) for e in t.elts]
            return t
        if isinstance(t, ast.Starred):
            t.value = self._outline(t.value, after)
            return t
        c = self._cell(t)
        if c is None: return self.visit(t)
        self.temps += 1
        n = f"sx__t{self.temps}"
        after.append(ast.Expr(value=ast.Call(func=self._name("sx__setitem"), args=[self._name(n), *c], keywords=[])))
        return ast.Name(id=n, ctx=ast.Store())

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            v = self.visit(node.value)
            c = self._cell(node.targets[0])
            if c is not None:
                return ast.copy_location(ast.Expr(value=ast.Call(func=self._name("sx__setitem"), args=[v, *c], keywords=[])), node)
            node.value, node.targets = v, [self.visit(node.targets[0])]
            return node
        node.value = self.visit(node.value)
        after = []
        node.targets = [self._outline(t, after) for t in node.targets]
        return [node] + [ast.copy_location(a, node) for a in after] if after else node

    def visit_AugAssign(self, node):
        v = self.visit(node.value)
        c = self._cell(node.target)
        if c is not None:
            return ast.copy_location(ast.Expr(value=ast.Call(
                func=self._name("sx__augitem"), args=[*c, ast.Constant(value=type(node.op).__name__), v], keywords=[])), node)
        if isinstance(node.target, ast.Name):
            n = node.target.id
            if isinstance(node.op, ast.Mod):
                return ast.copy_location(ast.Assign(targets=[node.target], value=ast.Call(
                    func=self._name("sx__mod"), args=[self._name(n), v], keywords=[])), node)
            node.value = v
            if isinstance(v, ast.Constant): return node
            return [ast.copy_location(ast.Expr(value=ast.Call(func=self._name("sx__w"), args=[self._name(n)], keywords=[])), node), node]
        node.value, node.target = v, self.visit(node.target)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            c = self._cell(t)
            if c is not None: out.append(ast.Expr(value=ast.Call(func=self._name("sx__delitem"), args=[*c], keywords=[])))
            else: out.append(ast.Delete(targets=[self.visit(t)]))
        return [ast.copy_location(o, node) for o in out]

    def visit_Global(self, node):
        return [node, ast.copy_location(ast.Expr(value=ast.Call(func=self._name("sx__w"), args=[
            ast.Call(func=self._name("globals"), args=[], keywords=[])], keywords=[])), node)]

    def _iter(self, it):
        return ast.copy_location(ast.Call(func=self._name("sx__iter"), args=[self.visit(it)], keywords=[]), it)

    def visit_For(self, node):
        node.iter = self._iter(node.iter)
        after = []
        node.target = self._outline(node.target, after)
        node.body = after + self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node

    visit_AsyncFor = ast.NodeTransformer.generic_visit

    def visit_comprehension(self, node):
        node.iter = self._iter(node.iter)
        node.target = self.visit(node.target)
        node.ifs = [self.visit(i) for i in node.ifs]
        return node

    def _body(self, stmts):
        out = []
        for x in stmts:
            x = self.visit(x)
            if isinstance(x, list): out += x
            elif x is not None: out.append(x)
        return out

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            fn = {ast.In: "sx__in", ast.NotIn: "sx__notin", ast.Is: "sx__is", ast.IsNot: "sx__isnot"}.get(type(op))
            if fn:
                return ast.copy_location(ast.Call(func=self._name(fn), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=self._name("sx__fstr"), args=parts, keywords=[]), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self._name("sx__mod"), args=[node.left, node.right], keywords=[]), node)
        return node

    def _func(self, node):
        self.scope.append(node.name)
        qn = self.modname + "." + ".".join(self.scope)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.body = self._body(node.body)
        ent = ast.Expr(value=ast.Call(func=self._name("sx__enter"), args=[ast.Constant(value=qn)], keywords=[]))
        k = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
            and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(k, ent)
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        if node.value is not None and isinstance(node.target, ast.Subscript):
            return ast.copy_location(ast.Expr(value=ast.Call(func=self._name("sx__setitem"), args=[node.value, *self._cell(node.target)], keywords=[])), node)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node


def transform_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Transform(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ------------------------------------------------------------------ run-time helpers
def sx_enter(qn):
    ENTERED.add(qn)


def sx_slice(a, b, c):
    return slice(a, b, c)     # symbolic bounds are concretised by the container, if it needs that


_PYT = {SymInt: int, SymBool: bool, SymStr: str, SymBytes: bytes, LazyBytes: bytes, SymRange: range, SymArray: list, SymRat: float}


def sx_getitem(obj, idx):
    if isinstance(idx, Sym):
        if isinstance(idx, SymBool): idx = idx.to_int()
        t = type(obj)
        if t is list and state.symcells(obj) is not None: return state.list_load(obj, idx)
        if t in (list, tuple, bytes, bytearray) or t is RunTable:
            if isinstance(idx, SymInt): return seq_lookup(obj, idx)
        elif t is str and isinstance(idx, SymInt):
            r = seq_lookup(tuple(map(ord, obj)), idx)
            return SymStr.mk((r,))
        elif isinstance(obj, dict):
            if t.__getitem__ is not dict.__getitem__: return obj[idx]
            if hasattr(t, "__missing__") or state.symkeys(obj): return state.getitem(obj, idx)
            return dict_lookup(obj, idx)
        elif t is range and isinstance(idx, SymInt):
            return SymRange(obj.start, obj.stop, obj.step)[idx]
    elif type(idx) is slice and (isinstance(idx.start, SymInt) or isinstance(idx.stop, SymInt)) and idx.step in (None, 1):
        if type(obj) is bytes: return LazyBytes(obj, idx.start, idx.stop)
        if isinstance(obj, SymBytes): return LazyBytes(obj.e, idx.start, idx.stop)
    elif type(idx) is tuple:
        if isinstance(obj, dict) and type(obj).__getitem__ is dict.__getitem__ and (state.symkeys(obj) or state.has_sym(idx)):
            return state.getitem(obj, idx)
    elif isinstance(obj, dict):
        if state.symkeys(obj) and type(obj).__getitem__ is dict.__getitem__: return state.getitem(obj, idx)
    elif type(obj) is list and state.symcells(obj) is not None:
        if isinstance(idx, int): return state.list_load(obj, idx)
        state.settle(obj)
    return obj[idx]


def sx_in(x, c):
    if isinstance(c, SymChoice): c = c.force()
    if isinstance(c, SymRange): return c.contains(x)
    if isinstance(c, SymStr): return c.contains(x)
    if isinstance(x, SymBool): x = x.to_int()
    if isinstance(c, (dict, set)):
        for sk in state.symkeys(c):
            if state.key_eq(sk.key, x): return True
        if type(x) is tuple and state.has_sym(x): return state.find(c, x) is not state.MISSING
    elif type(c) is list and state.symcells(c) is not None: state.settle(c)
    if isinstance(x, Sym):
        if isinstance(c, range):
            if isinstance(x, SymInt): return SymRange(c.start, c.stop, c.step).contains(x)
        if isinstance(x, SymInt) and isinstance(c, (set, frozenset, dict, list, tuple, bytes)):
            lo, hi = x.rng()
            ints, rest = [], []
            for e in c:
                if isinstance(e, (int, float)) and not isinstance(e, Sym):
                    if lo <= e <= hi: ints.append(e)
                elif isinstance(e, (SymInt, SymBool)): rest.append(x == e)
            ints = sorted(set(int(i) for i in ints if i == int(i)))
            # intervals
            terms, i = [], 0
            while i < len(ints):
                j = i
                while j + 1 < len(ints) and ints[j + 1] == ints[j] + 1: j += 1
                terms.append(x == ints[i] if i == j else sym_and(x >= ints[i], x <= ints[j]))
                i = j + 1
            return sym_or(*terms, *rest)
        if isinstance(x, (SymChoice, SymStr, SymBytes, SymRat)) and isinstance(c, (set, frozenset, dict, list, tuple)):
            return sym_or(*[x == e for e in c])
        if isinstance(x, (SymStr, SymChoice)) and isinstance(c, str):
            if isinstance(x, SymChoice): return x.map(lambda s: s in c)
            n = len(x)
            return sym_or(*[x == c[i:i + n] for i in range(len(c) - n + 1)])
        if isinstance(x, SymInt) and isinstance(c, str):
            raise TypeError("'in <string>' requires string as left operand, not int")
    elif isinstance(c, (list, tuple)):
        return sym_or(*[(x is e) or (x == e) for e in c]) if any(isinstance(e, Sym) for e in c) else x in c
    return x in c


def sx_notin(x, c): return sym_not(sx_in(x, c))


def sx_is(a, b):
    if isinstance(a, SymChoice) and not isinstance(b, SymChoice) and (b is None or isinstance(b, bool)): return a == b
    if isinstance(a, SymBool) and isinstance(b, bool): return a == b
    if isinstance(b, SymBool) and isinstance(a, bool): return b == a
    return a is b


def sx_isnot(a, b): return sym_not(sx_is(a, b))


def sx_mod(a, b):
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, Sym) for x in bs): return _percent(a, bs)
    return a % b


def _percent(fmt, args):
    import re
    out, pos, args = "", 0, list(args)
    for m in re.finditer(r"%(?:%|([-+ 0#]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa]))", fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        if m.group(0) == "%%":
            out = out + "%"
            continue
        x = args.pop(0)
        flags, width, prec, conv = m.group(1), m.group(2), m.group(3), m.group(4)
        if isinstance(x, Sym) and conv in "diuxXsc" and not flags.strip("0") and prec is None:
            if conv == "c" and not width:
                out = out + (sx_chr(x) if isinstance(x, SymInt) else x)
            else:
                out = out + fmt_value(x, ("0" if "0" in flags else "") + width + {"x": "x", "X": "X"}.get(conv, ""))
        else:
            if isinstance(x, Sym): x = force(x)
            out = out + (m.group(0) % x)
    return out + fmt[pos:]


def force(x):
    if isinstance(x, SymBool): return bool(x)
    if isinstance(x, SymInt): return x.__index__()
    if isinstance(x, SymRat): return float(x)
    if hasattr(x, "force"): return x.force()
    return x


def digits(x, base, upper, mindigits):
    """Digits of a non-negative SymInt as SymStr; forks on the number of digits beyond mindigits."""
    n = max(1, mindigits)
    while not (x < base ** n): n += 1
    out = []
    for k in range(n - 1, -1, -1):
        d = (x // (base ** k)) % base if base & (base - 1) else (x >> (k * (base.bit_length() - 1))) & (base - 1)
        if base > 10:
            out.append(sym_ite(d < 10, d + 48, d + (55 if upper else 87)))
        else:
            out.append(d + 48)
    return out


def fmt_value(x, spec):
    """format(x, spec) with symbolic x."""
    if isinstance(spec, Sym): spec = force(spec)
    if isinstance(x, SymChoice): x = x.to_symstr() if spec in ("", "s") else x.force()
    if isinstance(x, SymStr):
        if spec in ("", "s"): return x
        return format(x.force(), spec)
    if isinstance(x, SymBool): return format(bool(x), spec)
    if isinstance(x, SymInt):
        import re
        m = re.fullmatch(r"(#?)(0?)(\d*)([dxXcob]?)", spec)
        if not m: return format(x.__index__(), spec)
        alt, zero, width, conv = m.groups()
        if conv == "c":
            if width: return format(x.__index__(), spec)
            return sx_chr(x, OverflowError)
        if conv in ("x", "X", "d", "", "o", "b"):
            w = int(width) if width else 0
            if alt: return format(x.__index__(), spec)
            base = {"x": 16, "X": 16, "o": 8, "b": 2}.get(conv, 10)
            if x < 0:
                body = digits(-x, base, conv == "X", (w - 1 if zero else 1))
                s = SymStr.mk([45] + body)
            else:
                s = SymStr.mk(digits(x, base, conv == "X", w if zero else 1))
            if not zero and len(s) < w: s = " " * (w - len(s)) + s
            return s
        return format(x.__index__(), spec)
    if isinstance(x, Sym): return format(force(x), spec)
    if spec in ("", "s") and type(x).__format__ is object.__format__ and isinstance(type(x).__str__, types.FunctionType): return type(x).__str__(x)
    return format(x, spec)


def sx_fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            out = out + p
        else:
            v, conv, spec = p
            if conv in (114, 97): v = repr(force(v)) if isinstance(v, Sym) else (repr(v) if conv == 114 else ascii(v))
            elif conv == 115 and not isinstance(v, Sym): v = str(v)
            out = out + fmt_value(v, spec)
    return out


def sx_chr(x, exc=ValueError):
    if isinstance(x, SymBool): x = x.to_int()
    if not isinstance(x, SymInt): return chr(x)
    lo, hi = x.rng()
    if lo < 0 and x < 0: raise exc("chr() arg not in range(0x110000)")
    if hi > 0x10FFFF and x > 0x10FFFF: raise exc("chr() arg not in range(0x110000)")
    return SymStr((x,))


def sx_ord(s):
    if isinstance(s, (SymStr, SymBytes)):
        if len(s) != 1: raise TypeError("ord() expected a character")
        return s.e[0]
    if isinstance(s, SymChoice): return s.map(ord)
    return ord(s)


def _digit_val(ch, base):
    """(is it an ASCII digit of the base, its value) for one character code."""
    if not isinstance(ch, Sym):
        try: return True, int(chr(ch), base)
        except ValueError: return False, 0
    top = min(57, 47 + base)
    ok = sym_and(ch >= 48, ch <= top)
    v = ch - 48
    if base > 10:
        ok = sym_or(ok, sym_and(ch >= 65, ch <= 54 + base), sym_and(ch >= 97, ch <= 86 + base))
        v = sym_ite(ch <= 57, ch - 48, sym_ite(ch <= 54 + base, ch - 55, ch - 87))
    return ok, v


def sx_int(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymBool): return x.to_int()
        if isinstance(x, SymInt):
            if len(a) > 1: raise TypeError("int() can't convert non-string with explicit base")
            return x
        if isinstance(x, SymRat):
            return x.n // x.d if x.n >= 0 else -((-x.n) // x.d)
        if isinstance(x, SymChoice):
            return x.map(lambda s: int(s, *a[1:], **k))
        if isinstance(x, (SymStr, SymBytes)):
            base = a[1] if len(a) > 1 else k.get("base", 10)
            x = x.strip() if isinstance(x, SymStr) else x
            e = x.e if isinstance(x, Sym) else tuple(map(ord, x))
            if not e: raise ValueError("invalid literal for int()")
            ds = [_digit_val(ch, base) for ch in e]
            if base < 2 or base > 36 or not sym_and(*[ok for ok, _ in ds]):
                return int(force(x), base)   # sign, underscore, prefix or error: concrete
            v = 0
            for _, d in ds:      # the path now implies 0 <= d < base
                v = v * base + (SymInt.make(d.t, 0, base - 1) if isinstance(d, SymInt) else d)
            return v
    if len(a) > 1 and isinstance(a[1], Sym): a = (a[0], a[1].__index__()) + a[2:]
    return int(*a, **k)


def sx_str(*a, **k):
    if a and isinstance(a[0], Sym):
        if isinstance(a[0], SymBytes): return a[0].decode(*a[1:], **k)
        return fmt_value(a[0], "") if not isinstance(a[0], SymRange) else str(a[0].force())
    if len(a) == 1 and not k and isinstance(type(a[0]).__str__, types.FunctionType): return type(a[0]).__str__(a[0])
    return str(*a, **k)


def sx_repr(x):
    if isinstance(x, Sym): return repr(force(x))
    if isinstance(type(x).__repr__, types.FunctionType): return type(x).__repr__(x)
    return repr(x)


def sx_range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [x.to_int() if isinstance(x, SymBool) else x for x in a]
        if len(a) == 1: return SymRange(0, a[0])
        if len(a) == 2: return SymRange(a[0], a[1])
        st = a[2].__index__()
        if st == 0: raise ValueError("range() arg 3 must not be zero")
        return SymRange(a[0], a[1], st)
    return range(*a)


def sx_len(x):
    if isinstance(x, SymRange): return x.slen()
    if isinstance(x, SymChoice): return x.map(len)
    return len(x)


def pytype(x):
    if isinstance(x, Sym):
        if isinstance(x, SymChoice):
            vs = x.sid.values()
            ts = {type(core._intern_rev[v]) for v in vs} if vs else set()
            if len(ts) == 1: return ts.pop()
            return type(x.force())
        return _PYT[type(x)]
    return type(x)


def sx_type(*a, **k):
    if len(a) == 1: return pytype(a[0])
    return type(*a, **k)


def sx_isinstance(x, cls):
    if isinstance(x, Sym): return issubclass(pytype(x), cls)
    return isinstance(x, cls)


def sx_bytes(*a, **k):
    if a and not isinstance(a[0], (str, int, bytes, bytearray)):
        if isinstance(a[0], SymInt): return bytes(a[0].__index__())
        if isinstance(a[0], SymBytes): return a[0]
        if isinstance(a[0], SymStr): return a[0].encode(*a[1:], **k)
        el = list(a[0])
        if any(isinstance(x, Sym) for x in el):
            for x in el:
                if x < 0 or x > 255: raise ValueError("bytes must be in range(0, 256)")
            return SymBytes.mk(el)
        return bytes(el)
    return bytes(*a, **k)


def sx_bool(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymBool): return x
        if isinstance(x, SymInt): return x != 0
        if isinstance(x, SymChoice): return x.map(bool)
        return bool(x)
    return bool(*a)


def sx_float(*a):
    if a and isinstance(a[0], (SymInt, SymBool)): return SymRat.of(a[0])
    if a and isinstance(a[0], SymRat): return a[0]
    return float(*a)


def sx_minmax(fn, pick):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, SymInt) for x in xs) or not all(isinstance(x, (int, SymInt)) for x in xs):
            return fn(*a, **k)
        r = xs[0]
        for x in xs[1:]:
            r = sym_ite(x < r if pick == "min" else x > r, x, r)
        return r
    return f


def sx_format(x, spec=""):
    return fmt_value(x, spec)


def sx_hex(x):
    if isinstance(x, Sym): return "0x" + fmt_value(x, "x") if x >= 0 else hex(x.__index__())
    return hex(x)


def sx_sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r


def sx_bisect(right, lib):
    def f(a, x, lo=0, hi=None, *, key=None):
        if key is not None or not isinstance(x, Sym) and not any(isinstance(e, Sym) for e in a):
            return lib(a, x, lo, len(a) if hi is None else hi, key=key)
        hi = len(a) if hi is None else hi
        lo = lo.__index__()
        while lo < hi:
            mid = (lo + hi) // 2
            if right:
                if x < a[mid]: hi = mid
                else: lo = mid + 1
            else:
                if a[mid] < x: lo = mid + 1
                else: hi = mid
        return lo
    return f


_FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "c": (1, None), "x": (1, None)}


def sx_struct_unpack(fmt, data):
    if isinstance(fmt, Sym): fmt = force(fmt)
    if not isinstance(data, SymBytes): return struct.unpack(fmt, data)
    import re
    size = struct.calcsize(fmt)
    if size != len(data): raise struct.error(f"unpack requires a buffer of {size} bytes")
    order, native = "little", True
    body = fmt
    if fmt and fmt[0] in "@=<>!":
        native = fmt[0] == "@"
        order = "big" if fmt[0] in ">!" else "little"
        body = fmt[1:]
    out, pos = [], 0
    for n, ch in re.findall(r"\s*(\d*)([a-zA-Z?])", body):
        cnt = int(n) if n else 1
        if ch == "s":
            out.append(data[pos:pos + cnt])
            pos += cnt
            continue
        if ch == "x":
            pos += cnt
            continue
        if ch not in _FMT: raise Unsupported(f"struct format {ch}")
        w, signed = _FMT[ch]
        if native and ch in "lL": w = 8
        if native and pos % w: pos += w - pos % w
        for _ in range(cnt):
            bs = data[pos:pos + w]
            pos += w
            if ch == "c":
                out.append(bs)
                continue
            bs = list(bs)
            if order == "big": bs.reverse()
            v = 0
            for k, b in enumerate(bs): v = v + (b << (8 * k))
            if signed: v = sym_ite(v >= 1 << (8 * w - 1), v - (1 << (8 * w)), v)
            out.append(v)
    return tuple(out)


def sx_from_bytes(data, byteorder="big", *, signed=False):
    if isinstance(data, SymBytes) or any(isinstance(x, Sym) for x in data):
        bs = list(data)
        if byteorder == "big": bs.reverse()
        v = 0
        for k, b in enumerate(bs): v = v | (b << (8 * k))
        if signed: v = sym_ite(v >= 1 << (8 * len(bs) - 1), v - (1 << (8 * len(bs))), v)
        return v
    return int.from_bytes(data, byteorder, signed=signed)


_PASS = {}


def _mk_hooks():
    H = {}
    def hook(f, h): H[id(f)] = (f, h)
    hook(range, sx_range); hook(len, sx_len); hook(chr, sx_chr); hook(ord, sx_ord); hook(int, sx_int)
    hook(str, sx_str); hook(type, sx_type); hook(isinstance, sx_isinstance); hook(bytes, sx_bytes)
    hook(bool, sx_bool); hook(float, sx_float); hook(format, sx_format); hook(hex, sx_hex); hook(sum, sx_sum)
    hook(repr, sx_repr); hook(min, sx_minmax(min, "min")); hook(max, sx_minmax(max, "max"))
    hook(struct.unpack, sx_struct_unpack)
    import array
    hook(list, lambda *a: a[0] if a and isinstance(a[0], SymArray) else list(*a))
    hook(tuple, lambda *a: a[0] if a and isinstance(a[0], SymArray) else tuple(*a))
    hook(array.array, lambda c, *a: a[0] if a and isinstance(a[0], SymArray) else
         list(a[0]) if a and not isinstance(a[0], (bytes, bytearray, str)) and _has_sym(a[0]) else array.array(c, *a))
    import bisect
    br, bl = sx_bisect(True, bisect.bisect_right), sx_bisect(False, bisect.bisect_left)
    hook(bisect.bisect_right, br); hook(bisect.bisect, br); hook(bisect.bisect_left, bl)
    return H


HOOKS = _mk_hooks()


def hook(f, h):
    HOOKS[id(f)] = (f, h)


def _install_sstruct():
    try:
        from fontTools.misc import sstruct
    except ImportError:
        return
    real = sstruct.unpack
    def unpack(fmt, data, obj=None):
        if not isinstance(data, SymBytes): return real(fmt, data, obj)
        if obj is None: obj = {}
        formatstring, names, fixes = sstruct.getformat(fmt)
        d = obj if isinstance(obj, dict) else obj.__dict__
        elements = sx_struct_unpack(formatstring, data)
        for i, name in enumerate(names.keys()):
            v = elements[i]
            if name in fixes: raise Unsupported("fixed point field")
            d[name] = v
        return obj
    hook(sstruct.unpack, unpack)


_install_sstruct()
_builtin_m = type(len)
_module_t = type(sys)
_lru = functools._lru_cache_wrapper


def _has_sym(xs):
    for x in xs:
        if isinstance(x, Sym): return True
    return False


def sx_iter(x):
    """The iterable of a loop."""
    e = core.ENG
    if e is not None and (e.symkeys or e.symcells): return state.unwrap(x)
    return x


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
            "popitem", "__setitem__", "__delitem__", "appendleft", "popleft", "extendleft", "rotate", "move_to_end",
            "difference_update", "intersection_update", "symmetric_difference_update", "__ior__", "__iadd__"}


def sx_call(f, *args, **kw):
    e = core.ENG
    if e is not None and (e.symkeys or e.symcells):
        for a in args:
            if id(a) in e.symkeys or id(a) in e.symcells:
                r = _with_symkeys(f, args, kw)
                if r is not state.MISSING: return r
                break
    h = HOOKS.get(id(f))
    if h is not None:
        return h[1](*args, **kw)
    t = type(f)
    if t is _builtin_m:
        s = f.__self__
        ts = type(s)
        n = f.__name__
        if n in MUTATORS: state.touch(s)
        if ts is list and e is not None and id(s) in e.symcells: state.settle(s)
        if ts is str:
            if n == "join":
                parts = list(args[0])
                return str_join(s, parts) if _has_sym(parts) else s.join(parts)
            if n == "format" and (_has_sym(args) or _has_sym(kw.values())):
                return _str_format(s, args, kw)
            if _has_sym(args):
                if n in ("__contains__",): return sx_in(args[0], s)
                return getattr(SymStr(map(ord, s)), n)(*args, **kw)
        elif ts is bytes:
            if n == "join":
                parts = list(args[0])
                if _has_sym(parts):
                    out = []
                    for k, p in enumerate(parts):
                        if k: out.extend(s)
                        out.extend(p)
                    return SymBytes.mk(out)
            elif _has_sym(args):
                return getattr(SymBytes(s), n)(*args, **kw)
        elif isinstance(s, dict):
            own = state.symkeys(s)
            if own or args and state.has_sym(args[0]):
                if not own:
                    if n == "get" and isinstance(args[0], Sym):
                        return dict_lookup(s, args[0], args[1] if len(args) > 1 else kw.get("default"))
                    if n == "__getitem__": return sx_getitem(s, args[0])
                    if n == "__contains__": return sx_in(args[0], s)
                r = state.dict_method(s, n, args, kw)
                if r is not state.MISSING: return r
            elif n == "update" and e is not None and e.symkeys and any(id(a) in e.symkeys for a in args):
                return state.dict_method(s, n, args, kw)
        elif ts is set and (state.symkeys(s) or args and state.has_sym(args[0])):
            r = state.set_method(s, n, args, kw)
            if r is not state.MISSING: return r
        elif n == "__getitem__" and args and isinstance(args[0], Sym):
            return sx_getitem(s, args[0])
        elif n == "from_bytes" and s is int:
            return sx_from_bytes(*args, **kw)
        elif ts is _module_t and s is not builtins and _has_sym(args):
            # a C function of a library module: strings and the like must be concrete
            args = [force(x) if isinstance(x, (SymStr, SymBytes, SymChoice, SymRat)) else x for x in args]
        elif n in ("count", "index") and ts is range and _has_sym(args):
            return getattr(SymRange(s.start, s.stop, s.step), n)(*args)
    elif t is _lru:
        return _memoised(f, args, kw)
    elif t is struct.Struct or (hasattr(f, "__self__") and isinstance(getattr(f, "__self__"), struct.Struct)):
        s = f.__self__
        if f.__name__ == "unpack" and _has_sym(args): return sx_struct_unpack(s.format, *args)
    return f(*args, **kw)


_UNWRAP = {list, tuple, sorted, iter, min, max, sum, enumerate, zip, map, filter, any, all, reversed}


def _with_symkeys(f, args, kw):
    """A call that is passed a container with symbolic keys (or list elements kept aside)."""
    if f is len or f is bool: return state.MISSING
    if f is dict or f is set:
        if len(args) == 1 and not kw and isinstance(args[0], f): return state.copy_of(args[0])
        if f is dict: return state.MISSING
        r = set()
        for x in state.unwrap(args[0]): state.set_add(r, x)
        return r
    try: known = f in _UNWRAP
    except TypeError: known = False
    if known:
        args = [state.unwrap(a) for a in args]
        h = HOOKS.get(id(f))
        return h[1](*args, **kw) if h is not None else f(*args, **kw)
    for a in args:
        if type(a) is list: state.settle(a)
    return state.MISSING


def _memoised(f, args, kw):
    """A call of an lru_cache'd function.  With immutable arguments the cache cannot be observed; one keyed by a mutable
    object is modelled, since the object may have changed since."""
    for a in (*args, *kw.values()):
        if not isinstance(a, (Sym, int, str, bytes, float, type(None), tuple, type)): break
    else:
        return f.__wrapped__(*args, **kw)
    e = core.ENG
    if e is None: return f(*args, **kw)
    cache = e.lru.setdefault(id(f), (f, {}))[1]
    key = (args, tuple(sorted(kw.items())))
    hash(tuple(a for a in (*args, *kw.values()) if not isinstance(a, Sym)))
    k = state.find(cache, key)
    if k is not state.MISSING: return cache[k]
    r = f.__wrapped__(*args, **kw)
    state.setitem(r, cache, key)
    return r


def sx_setattr(o, n, v):
    state.touch(o)
    setattr(o, n, v)


def sx_delattr(o, n):
    state.touch(o)
    delattr(o, n)


hook(setattr, sx_setattr)
hook(delattr, sx_delattr)


def _str_format(s, args, kw):
    import string
    out, auto = "", 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None: continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit(): v = args[int(field)]
        elif field in kw: v = kw[field]
        else: return s.format(*[force(a) for a in args], **{k: force(v) for k, v in kw.items()})
        if spec and "{" in spec: return s.format(*[force(a) for a in args], **{k: force(v) for k, v in kw.items()})
        out = out + fmt_value(v, spec or "")
    return out


NS = {"sx__call": sx_call, "sx__getitem": sx_getitem, "sx__slice": sx_slice, "sx__in": sx_in, "sx__notin": sx_notin,
      "sx__is": sx_is, "sx__isnot": sx_isnot, "sx__fstr": sx_fstr, "sx__mod": sx_mod, "sx__enter": sx_enter,
      "sx__w": state.w, "sx__setitem": state.setitem, "sx__delitem": state.delitem, "sx__augitem": state.augitem,
      "sx__iter": sx_iter}
for _k, _v in NS.items(): setattr(builtins, _k, _v)


_CODE = {}      # path -> transformed code (one check run sees one state of the tree)


class SxLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        code = _CODE.get(self.path)
        if code is None:
            with open(self.path, "rb") as f: src = f.read()
            code = _CODE[self.path] = transform_source(src, self.path, module.__name__)
        exec(code, module.__dict__)

    def get_filename(self, name=None):
        return self.path


class SxFinder(importlib.abc.MetaPathFinder):
    """Finds submodules of the given packages and loads them through the AST pass."""
    def __init__(self, packages):
        self.packages = packages   # name -> directory

    def find_spec(self, name, path, target=None):
        if "." not in name: return None
        pkg, _, rest = name.partition(".")
        d = self.packages.get(pkg)
        if d is None: return None
        p = os.path.join(d, *rest.split(".")) + ".py"
        if not os.path.exists(p): return None
        return importlib.util.spec_from_loader(name, SxLoader(p))


def install(packages):
    sys.meta_path.insert(0, SxFinder(packages))
