"""Synthetic ICU data packages, and fresh imports of the modules that read them.

The real data file is not part of the tree, so the file that the package opens is replaced by one whose content the harness
builds; parts of it may be symbolic.  Nothing inside the code under test is replaced.
"""
import harness
import builtins
import importlib
import io
import struct
import sys
from contextlib import contextmanager
import warnings

warnings.filterwarnings("ignore", message="pkg_resources is deprecated")

MODULES = ("ICUDataFile", "CharNames", "LayoutProps", "Normalizer2")


def u16(v): return [v & 255, v >> 8 & 255]


def u32(v): return [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255]


def cstr(s): return [ord(x) for x in s] + [0]


def header(length=32, fmt="Test", fill=None, values=None):
    """A generic data header of the given total length; values: replacement for the 24 standard bytes from offset 2 on."""
    body = values if values is not None else [0xDA, 0x27] + u16(20) + u16(0) + [0, 0, 2, 0] + [ord(x) for x in fmt] + [1, 0, 0, 0, 13, 0, 0, 0]
    out = u16(length) + list(body)
    if fill is None: fill = [0x20 + k % 64 for k in range(length)]
    return out + list(fill)[len(out):length]


def align(b, n=16):
    while len(b) % n: b.append(0)
    return b


def package(items, header_length=32, prefix="icudt67l/", gap=16, order=None):
    """The bytes (a list of ints) of a package holding items {name: bytes}; order: the physical order of the items."""
    names = sorted(items)
    toc = 4 + 8 * len(names)
    strings, name_at = [], {}
    for n in names:
        name_at[n] = toc + len(strings)
        strings += cstr(prefix + n)
    body = align([0] * toc + strings)
    data_at = {}
    for n in order or names:
        data_at[n] = len(body)
        body += list(items[n])
        align(body, gap)
    t = u32(len(names))
    for n in names: t += u32(name_at[n]) + u32(data_at[n])
    body[:toc] = t
    return header(header_length, "CmnD") + body


def as_bytes(values):
    """bytes of a list of ints, some of them possibly symbolic."""
    return bytes(list(values))


class FakeFile:
    def __init__(self, content):
        self.content, self.pos, self.closed = content, 0, False

    def read(self, n=-1):
        a = self.pos
        self.pos = len(self.content) if n is None or n < 0 else min(len(self.content), a + n)
        return self.content[a:self.pos]

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.content) + off
        return self.pos

    def tell(self): return self.pos
    def close(self): self.closed = True
    def readable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


@contextmanager
def fresh(content, *modules):
    """Imports the modules anew with the data file replaced by the content; yields them."""
    saved = {m: sys.modules.pop("UnicodeData." + m, None) for m in MODULES}
    import UnicodeData
    real = builtins.open, io.open

    def fake_open(file, *a, **k):
        if str(file).endswith("icudata.dat"): return FakeFile(content)
        return real[0](file, *a, **k)
    builtins.open = io.open = fake_open
    try:
        mods = [importlib.import_module("UnicodeData." + m) for m in modules]
        yield mods[0] if len(mods) == 1 else mods
    finally:
        builtins.open, io.open = real
        for m in MODULES:
            sys.modules.pop("UnicodeData." + m, None)
            if saved[m] is not None: sys.modules["UnicodeData." + m] = saved[m]
            if hasattr(UnicodeData, m): delattr(UnicodeData, m)
            if saved[m] is not None: setattr(UnicodeData, m, saved[m])


_cache = {}


def fixed(key, build, *modules):
    """The modules imported once per process over a concrete package."""
    if key not in _cache:
        with fresh(as_bytes(build()), *modules) as m: _cache[key] = m
        if harness.SYMBOLIC:
            from symx.state import persist
            for x in (m if isinstance(m, list) else [m]): persist(x)
    return _cache[key]


# ---------------------------------------------------------------- items
def cptrie(kind=0, width=0, index=None, data=None, high_start=0, null3=0x7FFF, null_data=0xFFFFF):
    """A serialized code point trie."""
    if index is None: index = [0, 64] + [128] * ((1024 if kind == 0 else 64) - 2)
    if data is None: data = [0] * 192 + [0, 0]
    n, nd = len(index), len(data)
    options = (nd >> 16 << 12) | (null_data >> 16 << 8) | (kind << 6) | width
    out = [0x33, 0x69, 0x72, 0x54] + u16(options) + u16(n) + u16(nd & 0xFFFF) + u16(null3) + u16(null_data & 0xFFFF) + u16(high_start >> 9)
    for v in index: out += u16(v)
    for v in data: out += u16(v) if width == 0 else u32(v) if width == 1 else [v]
    return out


def nrm(trie, extra, indexes, small_fcd=(0,) * 256, header_length=32, count=20):
    """A normalization data item; indexes: the values from IX_MIN_DECOMP_NO_CP (8) on."""
    ix = [0] * count
    for k, v in indexes.items(): ix[k] = v
    ix[0] = count * 4
    trie = list(trie)
    while len(trie) % 4: trie.append(0)
    ix[1] = ix[0] + len(trie)
    ex = []
    for v in extra: ex += u16(v)
    while len(ex) % 2: ex.append(0)
    ix[2] = ix[1] + len(ex)
    for k in range(3, 8): ix[k] = ix[2] + len(small_fcd)
    out = header(header_length, "Nrm2")
    for v in ix: out += u32(v)
    return out + trie + ex + list(small_fcd)


def plain_nrm():
    """Data under which nothing decomposes."""
    return nrm(cptrie(data=[1] * 192 + [1, 1]), [0] * 16, {8: 0x110000, 9: 0x110000, 10: 4, 11: 8, 12: 0xFC00, 13: 0xFC00, 14: 6, 15: 8, 16: 8, 17: 8, 18: 0xC0})


def nrm_package(nfkc=None, nfkc_cf=None, **kw):
    return package({"nfkc.nrm": nfkc or plain_nrm(), "nfkc_cf.nrm": nfkc_cf or plain_nrm()}, **kw)
