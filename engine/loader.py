"""Loads adctoolbox from /repo's current source for symbolic execution.

Every module of the package is compiled from its source file as it stands and
executed with builtins whose `__import__` supplies the stand-ins of npshim for
numpy, scipy, math and matplotlib, and whose float/int/round/... accept symbolic
scalars.  Nothing in the source is rewritten.
"""
import builtins
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, npshim
from .core import Sym, SymBool, SymC, as_bool, norm_scalar, s_round, s_trunc
from .npshim import SymArray, is_sym, py_isinstance

SRC = os.environ.get("VERIF_SRC", "/repo/python/src")


class Dummy:
    """matplotlib stand-in: accepts any use and does nothing."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __getitem__(self, k):
        return Dummy()

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([Dummy(), Dummy()])

    def __len__(self):
        return 2

    def __or__(self, o):
        return Dummy()

    __ror__ = __or__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True

    def __add__(self, o):
        return 0

    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __add__

    def __lt__(self, o):
        return False

    __gt__ = __le__ = __ge__ = __lt__


class DummyModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Dummy()


# ---- symbolic-aware builtins

class _PyMeta(type):
    def __instancecheck__(cls, o):
        return py_isinstance(o, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_base", c), cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


def _scalar_of(x):
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.view(np.ndarray).ravel()[0]
    return norm_scalar(x)


def _float_new(cls, x=0.0):
    if not isinstance(x, (str, bytes)):
        x = _scalar_of(x)
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.ind()
    if isinstance(x, SymC):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return float(x)


def _int_new(cls, x=0, *a):
    if not isinstance(x, (str, bytes)):
        x = _scalar_of(x)
    if isinstance(x, Sym):
        return s_trunc(x)
    if isinstance(x, SymBool):
        return x.ind()
    return int(x, *a)


def _bool_new(cls, x=False):
    if isinstance(x, SymArray):
        return bool(x)
    if isinstance(x, (Sym, SymBool, SymC)):
        return bool(as_bool(x))      # forks
    return bool(x)


def _complex_new(cls, re=0, im=0):
    re, im = _scalar_of(re) if not isinstance(re, str) else re, _scalar_of(im)
    if is_sym(re) or is_sym(im):
        return SymC.of(re) + SymC.of(im) * 1j
    return complex(re, im)


def _mk(name, base, new):
    t = _PyMeta(name, (), {"__new__": new, "_base": base})
    for attr in ("fromhex", "from_bytes"):
        if hasattr(base, attr):
            setattr(t, attr, getattr(base, attr))
    return t


PyFloat = _mk("float", float, _float_new)
PyInt = _mk("int", int, _int_new)
PyBool = _mk("bool", bool, _bool_new)
PyComplex = _mk("complex", complex, _complex_new)


def sym_round(x, nd=None):
    x = _scalar_of(x) if isinstance(x, SymArray) else x
    if isinstance(x, (Sym, SymBool)):
        return Sym.__round__(x if isinstance(x, Sym) else x.ind(), nd)
    if isinstance(x, np.floating) and nd is None:
        return round(float(x))
    return round(x, nd) if nd is not None else round(x)


def _extremum(pick):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("max()/min() iterable argument is empty")
        if key is None and any(is_sym(x) for x in xs) and all(not isinstance(x, (tuple, list, str)) for x in xs):
            r = npshim._max(xs) if pick is max else npshim._min(xs)
            if not is_sym(r):
                for x in xs:
                    if not is_sym(x) and x == r:
                        return x
            return r
        return pick(xs, key=key) if key else pick(xs)
    return f


def sym_sum(xs, start=0):
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        r = npshim._sum(xs)
        return r + start if not (isinstance(start, int) and start == 0) else r
    return sum(xs, start)


def sym_abs(x):
    if isinstance(x, (Sym, SymBool, SymC)):
        return core.s_abs(x)
    return abs(x)


def sym_pow(a, b, *m):
    if is_sym(a) or is_sym(b):
        return npshim.s_pow(a, b)
    return pow(a, b, *m)


def sym_isinstance(o, t):
    return py_isinstance(o, t)


def sym_print(*a, **k):
    pass


_type = type


class SymType:
    """type(x) as used for display/compare in the package"""


class Package:
    """One loaded copy of the package."""

    def __init__(self, src=SRC, overrides=None):
        self.src = src
        self.mods = {}
        self.functions = set()
        self.files = set()
        self.overrides = overrides or {}
        b = dict(builtins.__dict__)
        b.update({
            "__import__": self._import, "float": PyFloat, "int": PyInt, "bool": PyBool, "complex": PyComplex,
            "round": sym_round, "max": _extremum(max), "min": _extremum(min), "sum": sym_sum, "abs": sym_abs,
            "pow": sym_pow, "isinstance": sym_isinstance, "print": sym_print,
        })
        b.update(self.overrides.get("__builtins__", {}))
        self.builtins = b

    # ---- import protocol
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.partition(".")[0]
        if name in self.overrides:
            return self.overrides[name] if fromlist else self.overrides.get(top, self.overrides[name])
        if top in self.overrides:
            m = self.overrides[top]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        if top == "adctoolbox":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and self._find(f"{name}.{f}"):
                        self.load(f"{name}.{f}")
                return m
            return self.mods[top]
        if top == "numpy":
            m = npshim.npmod
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        if top == "math":
            return npshim.mathmod
        if top == "scipy":
            if fromlist:
                return npshim.scipy_module(name)
            return npshim.scipy_module("scipy")
        if top == "matplotlib" or top == "mpl_toolkits":
            return DummyModule(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _find(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        f = self._find(name)
        if f is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        path, ispkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        try:
            code = compile(src, path, "exec", dont_inherit=True)
            sys.modules.setdefault("_verif_" + name, m)
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def get(self, path):
        """'adctoolbox.fundamentals.units:db_to_mag' or a module path"""
        mod, _, attr = path.partition(":")
        m = self.load(mod)
        if not attr:
            return m
        for p in attr.split("."):
            m = getattr(m, p)
        return m
