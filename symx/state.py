"""symx.state: containers with symbolic keys, and the state that outlives one execution path.

Keys.  A dict or set entry whose key is symbolic is stored under a SymKey, an object hashed by identity.  Before a key
is stored the path decides whether it equals one that is there, so all keys of a container are pairwise different on the
path; a lookup forks over the symbolic keys first.  A list element written at a symbolic position is kept aside in the
same way.

State.  Objects that exist before a path starts (module globals, class attributes, cached instances) are persistent.  The
AST pass reports every store; the first one to a persistent object in a path saves its content, the end of the path puts
it back.  So no path sees what another one wrote, and a path that leaves a change behind is known to: the driver
then also explores histories (one earlier call with inputs of its own, then the checked call).
"""
import collections
import operator
import types
import z3

from . import core
from .core import Sym, SymInt, SymBool, SymChoice, SymSeq, SymRat, sym_and, sym_or, sym_ite, dict_lookup, Infeasible

MISSING = object()


# ---------------------------------------------------------------- symbolic keys
class SymKey:
    __slots__ = ("key",)

    def __init__(self, key): self.key = key
    def __repr__(self): return f"SymKey({self.key!r})"


def has_sym(k):
    if isinstance(k, Sym): return True
    if type(k) is tuple:
        for e in k:
            if has_sym(e): return True
    return False


def key_eq(a, b):
    """a == b for dict keys, possibly symbolic."""
    if a is b: return True
    if isinstance(a, SymInt) and isinstance(b, SymInt) and a.t.eq(b.t): return True
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b): return False
        return sym_and(*[key_eq(x, y) for x, y in zip(a, b)])
    if type(a) is tuple or type(b) is tuple: return False
    r = a == b
    return False if r is NotImplemented else r


def symkeys(d):
    e = core.ENG
    if e is None: return ()
    r = e.symkeys.get(id(d))
    return r[1] if r is not None else ()


def symcells(a):
    e = core.ENG
    if e is None: return None
    r = e.symcells.get(id(a))
    return r[1] if r is not None else None


def _like(k, key):
    """Could the concrete key k equal the symbolic key?"""
    if isinstance(k, SymKey): return False
    if isinstance(key, SymInt):
        if not isinstance(k, (int, float)): return False
        lo, hi = key.rng()
        return lo <= k <= hi
    if isinstance(key, SymBool): return k in (0, 1)
    if isinstance(key, SymRat): return isinstance(k, (int, float))
    if isinstance(key, SymSeq): return isinstance(k, key.py) and len(k) == len(key)
    if type(key) is tuple:
        return type(k) is tuple and len(k) == len(key) and \
            all(_like(x, y) if has_sym(y) else x == y for x, y in zip(k, key))
    return True


def find(d, key):
    """The key of the dict or set d that equals key on this path, or MISSING.  Forks."""
    for sk in symkeys(d):
        core.ENG.hot = True
        try:
            if key_eq(sk.key, key): return sk
        finally:
            core.ENG.hot = False
    if not has_sym(key):
        return key if key in d else MISSING
    if isinstance(key, SymChoice):
        vs = key.sid.values()
        if vs is not None and not any(core._intern_rev[v] in d for v in vs): return MISSING
        k = key.force()
        return k if k in d else MISSING
    cand = [k for k in d if _like(k, key)]
    if not cand: return MISSING
    if isinstance(key, SymInt):
        from .loader import sx_in
        if not sx_in(key, cand): return MISSING
        return key.__index__()
    if len(cand) > 64 and type(key) is tuple:
        k = concrete(key)
        return k if k in d else MISSING
    for k in cand:
        if key_eq(k, key): return k
    return MISSING


def concrete(k):
    """k with every symbolic part replaced by its value on the path (forks)."""
    from .loader import force
    if type(k) is tuple: return tuple(concrete(e) for e in k)
    return force(k) if isinstance(k, Sym) else k


def _plain(t):
    return t in (dict, collections.defaultdict, collections.OrderedDict, collections.Counter)


def setitem(v, d, key):
    """d[key] = v"""
    touch(d)
    t = type(d)
    if _plain(t) or isinstance(d, dict) and t.__setitem__ is dict.__setitem__:
        if symkeys(d) or has_sym(key):
            k = find(d, key)
            if k is MISSING:
                k = key
                if has_sym(key): k = _newkey(d, key)
            d[k] = v
            return
    elif t is list:
        if isinstance(key, SymBool): key = key.to_int()
        if isinstance(key, SymInt) or symcells(d) is not None and not isinstance(key, slice):
            _list_store(d, key, v)
            return
        if isinstance(key, slice): settle(d)
    d[key] = v


def _newkey(d, key):
    sk = SymKey(key)
    core.ENG.symkeys.setdefault(id(d), (d, []))[1].append(sk)
    return sk


def _drop(d, k):
    if isinstance(k, SymKey):
        r = core.ENG.symkeys.get(id(d))
        if r: r[1].remove(k)


def getitem(d, key):
    """d[key] where d has symbolic keys or key contains one (dict subclasses without an own __getitem__)."""
    k = find(d, key)
    if k is not MISSING: return dict.__getitem__(d, k)
    t = type(d)
    if isinstance(d, collections.defaultdict):
        if d.default_factory is None: raise KeyError(key)
        v = d.default_factory()
        setitem(v, d, key)
        return v
    if hasattr(t, "__missing__"): return t.__missing__(d, key)
    raise KeyError(key)


def delitem(d, key):
    touch(d)
    if isinstance(d, dict) and (symkeys(d) or has_sym(key)):
        k = find(d, key)
        if k is MISSING: raise KeyError(key)
        del d[k]
        _drop(d, k)
        return
    if type(d) is list: settle(d)
    del d[key]


def _index(a, i):
    n = len(a)
    if isinstance(i, int):
        if not -n <= i < n: raise IndexError("list assignment index out of range")
        return i + n if i < 0 else i
    lo, hi = i.rng()
    if (lo < -n or hi >= n) and not sym_and(i >= -n, i < n): raise IndexError("list assignment index out of range")
    return i if i.rng()[0] >= 0 or i >= 0 else i + n


def _scalar(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def _list_store(a, i, v):
    i = _index(a, i)
    if isinstance(i, SymInt) and symcells(a) is None and len(a) <= 300 and _scalar(v) and all(map(_scalar, a)):
        lo, hi = i.rng()
        for k in range(lo, hi + 1): a[k] = sym_ite(i == k, v, a[k])
        return
    if isinstance(i, int) and symcells(a) is None:
        a[i] = v
        return
    cells = core.ENG.symcells.setdefault(id(a), (a, []))[1]
    for c in cells:
        if key_eq(c[0], i):
            c[1] = v
            return
    cells.append([i, v])


def list_load(a, i):
    """a[i] for a list with elements kept aside."""
    i = _index(a, i)
    for c in symcells(a):
        if key_eq(c[0], i): return c[1]
    return core.seq_lookup(a, i) if isinstance(i, SymInt) else a[i]


def settle(a):
    """Puts elements kept aside into the list (forks over their positions)."""
    if core.ENG is None: return
    r = core.ENG.symcells.pop(id(a), None)
    if r:
        for i, v in r[1]: a[i.__index__() if isinstance(i, Sym) else i] = v


def unwrap(x):
    """x, or a list of its keys when some are symbolic."""
    if symkeys(x): return [k.key if isinstance(k, SymKey) else k for k in x]
    if type(x) is list and symcells(x) is not None: settle(x)
    return x


def items(d):
    return [(k.key if isinstance(k, SymKey) else k, v) for k, v in d.items()]


def copy_of(d):
    r = d.copy()
    reg = core.ENG.symkeys.get(id(d))
    core.ENG.symkeys[id(r)] = (r, list(reg[1]))
    return r


def set_add(s, x):
    if find(s, x) is MISSING: s.add(_newkey(s, x) if has_sym(x) else x)


def dict_method(d, n, args, kw):
    """A method call on a dict with symbolic keys, or with a symbolic key as argument; MISSING: not handled."""
    if n == "get":
        k = find(d, args[0])
        return dict.__getitem__(d, k) if k is not MISSING else args[1] if len(args) > 1 else kw.get("default")
    if n == "__getitem__": return getitem(d, args[0])
    if n == "__contains__": return find(d, args[0]) is not MISSING
    if n == "__setitem__": return setitem(args[1], d, args[0])
    if n == "__delitem__": return delitem(d, args[0])
    if n == "setdefault":
        k = find(d, args[0])
        if k is not MISSING: return dict.__getitem__(d, k)
        v = args[1] if len(args) > 1 else None
        setitem(v, d, args[0])
        return v
    if n == "pop":
        k = find(d, args[0])
        if k is MISSING:
            if len(args) > 1: return args[1]
            raise KeyError(args[0])
        v = d.pop(k)
        _drop(d, k)
        return v
    if n == "popitem":
        k, v = d.popitem()
        _drop(d, k)
        return (k.key if isinstance(k, SymKey) else k), v
    if n == "items": return items(d)
    if n == "keys": return unwrap(d)
    if n == "copy" and symkeys(d): return copy_of(d)
    if n == "clear":
        core.ENG.symkeys.pop(id(d), None)
        d.clear()
        return None
    if n == "update":
        for src in args + (kw,):
            for k, v in (items(src) if isinstance(src, dict) else src): setitem(v, d, k)
        return None
    return MISSING


def set_method(s, n, args, kw):
    if n == "add": return set_add(s, args[0])
    if n == "__contains__": return find(s, args[0]) is not MISSING
    if n in ("discard", "remove"):
        k = find(s, args[0])
        if k is not MISSING:
            s.discard(k)
            _drop(s, k)
        elif n == "remove": raise KeyError(args[0])
        return None
    if n == "clear":
        core.ENG.symkeys.pop(id(s), None)
        s.clear()
        return None
    if n == "pop":
        k = s.pop()
        _drop(s, k)
        return k.key if isinstance(k, SymKey) else k
    if n == "copy" and symkeys(s): return copy_of(s)
    if n == "update":
        for src in args:
            for x in unwrap(src): set_add(s, x)
        return None
    return MISSING


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "FloorDiv": operator.ifloordiv,
         "Div": operator.itruediv, "Pow": operator.ipow, "LShift": operator.ilshift, "RShift": operator.irshift,
         "BitOr": operator.ior, "BitXor": operator.ixor, "BitAnd": operator.iand, "MatMult": operator.imatmul}


def augitem(d, key, op, v):
    """d[key] op= v"""
    from .loader import sx_getitem, sx_mod
    cur = sx_getitem(d, key)
    if isinstance(cur, (list, dict, set)): touch(cur)
    setitem(sx_mod(cur, v) if op == "Mod" else _IOPS[op](cur, v), d, key)


# ---------------------------------------------------------------- persistent state
PERSIST = {}       # id -> object
_ATOMS = (int, str, bytes, float, bool, type(None), complex, range, frozenset)
BIG = 20000


def _owned(m):
    return isinstance(m, str) and m.startswith(("UnicodeData", "harness."))


def persist(root):
    """Everything reachable from root is persistent from now on."""
    todo = [root]
    while todo:
        o = todo.pop()
        if isinstance(o, _ATOMS) or isinstance(o, Sym) or id(o) in PERSIST: continue
        t = type(o)
        if t in (list, set, collections.deque, bytearray) or isinstance(o, dict):
            PERSIST[id(o)] = o
            if t is bytearray or len(o) > BIG: continue
            for e in (o.values() if isinstance(o, dict) else o):
                if not isinstance(e, _ATOMS): todo.append(e)
        elif t is tuple:
            if len(o) <= BIG:
                for e in o:
                    if not isinstance(e, _ATOMS): todo.append(e)
        elif isinstance(o, types.FunctionType):
            if _owned(o.__module__):
                PERSIST[id(o)] = o
                PERSIST[id(o.__dict__)] = o
                todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()) + list(o.__dict__.values())
                for c in o.__closure__ or ():
                    try: todo.append(c.cell_contents)
                    except ValueError: pass
        elif isinstance(o, (classmethod, staticmethod)): todo.append(o.__func__)
        elif isinstance(o, property): todo += [f for f in (o.fget, o.fset) if f]
        elif isinstance(o, types.MethodType): todo += [o.__self__, o.__func__]
        elif isinstance(o, types.ModuleType):
            if _owned(o.__name__):
                PERSIST[id(o)] = o
                PERSIST[id(o.__dict__)] = o
                if o.__name__.startswith(("UnicodeData", "module_builder")): todo += list(vars(o).values())
        elif isinstance(o, type):
            if _owned(o.__module__) and not issubclass(o, BaseException):
                PERSIST[id(o)] = o
                todo += [v for v in vars(o).values()]
        elif _owned(t.__module__) or _owned(getattr(t, "__module__", "")):
            PERSIST[id(o)] = o
            d = getattr(o, "__dict__", None)
            if d is not None:
                PERSIST[id(d)] = o
                todo += list(d.values())
            for s in _slots(t):
                if hasattr(o, s): todo.append(getattr(o, s))
        elif hasattr(o, "__wrapped__"): todo.append(o.__wrapped__)


def _slots(t):
    out = []
    for c in t.__mro__:
        s = c.__dict__.get("__slots__", ())
        out += [s] if isinstance(s, str) else [x for x in s if x not in ("__dict__", "__weakref__")]
    return out


def _save(o):
    if isinstance(o, (dict, list, set, bytearray, collections.deque)): return o.copy()
    if isinstance(o, type): return dict(vars(o))
    return dict(o.__dict__) if hasattr(o, "__dict__") else None, {s: getattr(o, s, MISSING) for s in _slots(type(o))}


def touch(o):
    """Called before a store to o."""
    e = core.ENG
    if e is not None and id(o) in PERSIST:
        o = PERSIST[id(o)]
        if id(o) not in e.saved: e.saved[id(o)] = (o, _save(o))
    return o


def w(o):
    """The object of an attribute or subscript store."""
    e = core.ENG
    if e is not None and id(o) in PERSIST: touch(o)
    return o


def _same_dict(a, b):
    return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())


def _same_seq(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def restore(eng):
    """Undoes what the path changed in persistent objects; True if it left something changed."""
    changed = False
    for o, s in eng.saved.values():
        if isinstance(o, dict):
            if not _same_dict(o, s):
                changed = True
                dict.clear(o)
                dict.update(o, s)
        elif isinstance(o, (list, collections.deque, bytearray)):
            if not _same_seq(o, s):
                changed = True
                o.clear()
                o.extend(s)
        elif isinstance(o, set):
            if o != s:
                changed = True
                o.clear()
                o.update(s)
        elif isinstance(o, type):
            now = dict(vars(o))
            for k in now:
                if k not in s: delattr(o, k); changed = True
            for k, v in s.items():
                if now.get(k, MISSING) is not v: setattr(o, k, v); changed = True
        else:
            d, slots = s
            if d is not None and not _same_dict(o.__dict__, d):
                changed = True
                o.__dict__.clear()
                o.__dict__.update(d)
            for k, v in slots.items():
                if getattr(o, k, MISSING) is not v:
                    changed = True
                    if v is MISSING: delattr(o, k)
                    else: setattr(o, k, v)
    eng.saved = {}
    return changed


# ---------------------------------------------------------------- one object's state (for histories inside a path)
def fingerprint(o, depth=3, seen=None):
    """Identities of what o holds; equal fingerprints: o has not been changed in between."""
    seen = {} if seen is None else seen
    if isinstance(o, _ATOMS) or isinstance(o, Sym) or depth == 0 or id(o) in seen: return ()
    seen[id(o)] = o
    if isinstance(o, dict):
        return tuple((id(k), id(v)) + fingerprint(v, depth - 1, seen) for k, v in o.items()) if len(o) <= 2000 else len(o)
    if isinstance(o, (list, tuple)):
        if len(o) > 2000: return (len(o),)
        return tuple(map(id, o)) + tuple(f for e in o if (f := fingerprint(e, depth - 1, seen)))
    if isinstance(o, (set, bytearray)): return (len(o),)
    cells = core.ENG.symcells if core.ENG is not None else {}
    if isinstance(o, (type, types.ModuleType)):
        # what the functions of a module or class can leave behind: its own names and the data of its classes
        own = o.__name__ if isinstance(o, types.ModuleType) else o.__module__
        out = (len(cells),)
        for k, v in list(vars(o).items()):
            if k.startswith("__") or isinstance(v, _CODE): continue
            if isinstance(v, types.ModuleType) or isinstance(v, type) and v.__module__ != own: continue
            out += (k, id(v)) + fingerprint(v, depth, seen)
        return out
    d = getattr(o, "__dict__", None)
    out = (len(cells),)
    if isinstance(d, dict): out += fingerprint(d, depth, seen)
    return out + tuple(id(getattr(o, s, None)) for s in _slots(type(o)))


_CODE = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, classmethod, staticmethod, property)


def again(eng, o, mark):
    """Has o changed since its fingerprint was taken, so that a second call is to be made?  The exploration without second
    calls comes first; the driver then explores the task once more with them.  (In a replay: has the solver chosen inputs
    for a second call?)"""
    if eng.symbolic:
        if fingerprint(o) == mark: return False
        eng.inpath = True
        return eng.seconds
    return any(n.startswith("second") for n in eng.inputs)
