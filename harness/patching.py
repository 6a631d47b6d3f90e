"""Replacing tables of the code under test by symbolic ones, wherever the package refers to them."""
import sys


class replaced:
    """with replaced(old, new): every module global of the package that is `old` is `new`."""
    def __init__(self, old, new):
        self.old, self.new, self.spots = old, new, []

    def __enter__(self):
        for name, mod in list(sys.modules.items()):
            if name.startswith("UnicodeData") and mod is not None:
                d = vars(mod)
                for k in list(d):
                    if d[k] is self.old:
                        self.spots.append((d, k))
        for d, k in self.spots: d[k] = self.new
        return self

    def __exit__(self, *a):
        for d, k in self.spots: d[k] = self.old


class attribute:
    """with attribute(obj, name, value): an instance attribute is set, and removed or restored afterwards."""
    def __init__(self, obj, name, value):
        self.obj, self.name, self.value = obj, name, value

    def __enter__(self):
        self.had = self.name in vars(self.obj)
        self.old = vars(self.obj).get(self.name)
        setattr(self.obj, self.name, self.value)
        return self

    def __exit__(self, *a):
        if self.had: setattr(self.obj, self.name, self.old)
        else: delattr(self.obj, self.name)
