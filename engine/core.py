"""Symbolic scalars: exact rational functions over SMT atoms.

A `Sym` is num/den with num a polynomial (exact rational coefficients) over
*atoms* and den a product of polynomials known to be non-zero on the path.  An
atom is an SMT variable: an input, or the result of an operation that leaves the
rational functions (square root, floor, if-then-else, logarithm, ...) together
with the constraints that define it.  Comparisons give `SymBool`; asking for the
truth value of a `SymBool` forks the execution.
"""
import math
from fractions import Fraction

import z3

CTX = None  # current execution context (one per path)


class Inconclusive(Exception):
    """The solver (or a bound of the exploration) gave no answer."""


class Unsupported(Exception):
    """The code under analysis needs an operation the encoding does not model."""


class PathAbort(BaseException):
    """The current path is infeasible or cut by an assumption."""


class CheckFailed(BaseException):
    """A property assertion has a counterexample on this path."""


# ------------------------------------------------------------------ polynomials

def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x))


class Poly:
    __slots__ = ("t", "_z", "_vs", "_key")

    def __init__(self, t):
        self.t = t
        self._z = None
        self._vs = None
        self._key = None

    @staticmethod
    def const(c):
        c = _frac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def vs(self):
        if self._vs is None:
            self._vs = frozenset(i for m in self.t for i, _ in m)
        return self._vs

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = s + c
                if s:
                    t[m] = s
                else:
                    del t[m]
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > 400000:
            raise Inconclusive("polynomial too large")
        t = {}
        reduce_needed = []
        rules = CTX.rules
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = _mono_mul(m1, m2, rules)
                c = c1 * c2
                if red:
                    reduce_needed.append((m, c))
                    continue
                s = t.get(m)
                if s is None:
                    t[m] = c
                else:
                    s = s + c
                    if s:
                        t[m] = s
                    else:
                        del t[m]
        r = Poly(t)
        for m, c in reduce_needed:
            r = r + _reduce_mono(m, c, rules)
        return r

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def lead(self):
        m = max(self.t, key=_mono_order)
        return m, self.t[m]

    def z3(self):
        if self._z is None:
            self._z = _poly_z3(self)
        return self._z

    def val(self):
        s = 0.0
        atoms = CTX.atoms
        for m, c in self.t.items():
            p = float(c)
            for i, e in m:
                p *= atoms[i].val ** e
            s += p
        return s

    def bounds(self):
        """Interval of the polynomial from the static bounds of its atoms."""
        lo = hi = 0.0
        atoms = CTX.atoms
        for m, c in self.t.items():
            a = b = float(c)
            for i, e in m:
                al, ah = atoms[i].lo, atoms[i].hi
                if al is None:
                    al = -math.inf
                if ah is None:
                    ah = math.inf
                if e % 2 == 0:
                    cand = [abs(al) ** e if abs(al) != math.inf else math.inf,
                            abs(ah) ** e if abs(ah) != math.inf else math.inf]
                    pl = 0.0 if al <= 0 <= ah else min(cand)
                    ph = max(cand)
                else:
                    pl = al ** e if abs(al) != math.inf else al
                    ph = ah ** e if abs(ah) != math.inf else ah
                prods = [_m(a, pl), _m(a, ph), _m(b, pl), _m(b, ph)]
                a, b = min(prods), max(prods)
            lo += a
            hi += b
            if lo == -math.inf and hi == math.inf:
                break
            if lo != lo or hi != hi:
                return -math.inf, math.inf
        sl = abs(lo) * 1e-12 + 1e-300 if lo not in (-math.inf, math.inf) and not self.is_exactish() else 0
        sh = abs(hi) * 1e-12 + 1e-300 if hi not in (-math.inf, math.inf) and not self.is_exactish() else 0
        return lo - sl, hi + sh

    def is_exactish(self):
        return len(self.t) <= 1

    def __repr__(self):
        def mono(m):
            return "*".join(CTX.atoms[i].name + (f"^{e}" if e > 1 else "") for i, e in m)
        items = list(self.t.items())[:12]
        s = " + ".join(f"{float(c):.6g}" + ("*" + mono(m) if m else "") for m, c in items)
        return s + (" + ..." if len(self.t) > 12 else "")


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def canon(p):
    """coefficients rounded to 40 bits, so that arguments equal up to rounding noise share one derived atom"""
    t = {}
    for m, c in p.t.items():
        if c.denominator == 1 and abs(c.numerator) < 2 ** 40:
            t[m] = c
            continue
        f = float(c)
        if f == 0 or not math.isfinite(f):
            return p
        x, e = math.frexp(f)
        t[m] = Fraction(math.ldexp(round(x * 2 ** 40), e - 40))
    return Poly(t)


def _mono_order(m):
    return (sum(e for _, e in m), m)


def _mono_mul(m1, m2, rules):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    red = False
    for i, e in m2:
        x = d.get(i, 0) + e
        d[i] = x
        if x >= 2 and i in rules:
            red = True
    return tuple(sorted(d.items())), red


def _reduce_mono(m, c, rules):
    keep = []
    extra = None
    for i, e in m:
        if e >= 2 and i in rules:
            sq = rules[i]
            if sq is None:          # idempotent indicator
                keep.append((i, 1))
                continue
            p = sq.pow(e // 2)
            extra = p if extra is None else extra * p
            if e % 2:
                keep.append((i, 1))
        else:
            keep.append((i, e))
    base = Poly({tuple(keep): c})
    return base if extra is None else base * extra


def _rat_z3(c):
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


def _poly_z3(p):
    terms = []
    atoms = CTX.atoms
    for m, c in p.t.items():
        f = None
        for i, e in m:
            v = atoms[i].zr
            for _ in range(e):
                f = v if f is None else f * v
        if f is None:
            terms.append(_rat_z3(c))
        elif c == 1:
            terms.append(f)
        else:
            terms.append(_rat_z3(c) * f)
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(*terms)


def exact_div(a, b, limit=400):
    """a / b when b divides a exactly (multivariate long division), else None."""
    if b.is_const():
        return a.scale(1 / b.cval())
    if any(i in CTX.rules for i in b.vs()):
        ka, kb = a, b
        # only a constant multiple is recognised in the presence of rewrite rules
        mb, cb = kb.lead()
        if mb in ka.t and len(ka.t) == len(kb.t):
            k = ka.t[mb] / cb
            if (kb.scale(k) - ka).t == {}:
                return Poly.const(k)
        return None
    if not b.vs() <= a.vs():
        return None
    mb, cb = b.lead()
    q = {}
    r = a
    n = 0
    while r.t:
        n += 1
        if n > limit:
            return None
        mr, cr = r.lead()
        d = dict(mr)
        ok = True
        for i, e in mb:
            x = d.get(i, 0) - e
            if x < 0:
                ok = False
                break
            if x == 0:
                d.pop(i, None)
            else:
                d[i] = x
        if not ok:
            return None
        mq = tuple(sorted(d.items()))
        cq = cr / cb
        q[mq] = q.get(mq, 0) + cq
        r = r - Poly({mq: cq}) * b
    return Poly(q)


# ------------------------------------------------------------------ atoms

class Atom:
    __slots__ = ("i", "name", "zr", "zv", "kind", "lo", "hi", "isint", "val", "info", "defs")

    def __init__(self, i, name, isint, kind):
        self.i = i
        self.name = name
        self.kind = kind
        self.isint = isint
        self.zv = z3.Int(name) if isint else z3.Real(name)
        self.zr = z3.ToReal(self.zv) if isint else self.zv
        self.lo = self.hi = None
        self.val = None
        self.info = None
        self.defs = []      # list of (z3 bool, frozenset of atom ids)


# ------------------------------------------------------------------ booleans

class SymBool:
    __slots__ = ("e", "vs", "c", "_ind")
    __array_priority__ = 1000

    def __init__(self, e, vs, c=None):
        self.e = e
        self.vs = vs
        self.c = c
        self._ind = None

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        if isinstance(o, bool):
            return b_not(self) if o else self
        c = None if self.c is None or o.c is None else self.c != o.c
        return SymBool(z3.Xor(self.e, o.e), self.vs | o.vs, c)

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def ind(self):
        """0/1 integer symbol of this condition."""
        if self._ind is None:
            self._ind = CTX.indicator(self)
        return self._ind

    # arithmetic promotes to the indicator
    def __add__(self, o):
        return self.ind() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.ind() - o

    def __rsub__(self, o):
        return o - self.ind()

    def __mul__(self, o):
        if isinstance(o, (Sym, SymC)) and not (isinstance(o, Sym) and o.is_const()):
            return ite(self, o, 0.0)
        return self.ind() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.ind() / o

    def __rtruediv__(self, o):
        return o / self.ind()

    def __neg__(self):
        return -self.ind()

    def __abs__(self):
        return self.ind()

    def __pow__(self, n):
        return self.ind() ** n

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(self ^ o)
        return self.ind() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __lt__(self, o):
        return self.ind() < o

    def __le__(self, o):
        return self.ind() <= o

    def __gt__(self, o):
        return self.ind() > o

    def __ge__(self, o):
        return self.ind() >= o

    def __hash__(self):
        return hash(self.e)

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        return "<symbool>"

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, SymC):
        return b_or(x.re != 0, x.im != 0)
    return bool(x)


def b_and(a, b):
    a, b = as_bool(a), as_bool(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    c = None if a.c is None or b.c is None else a.c and b.c
    return SymBool(z3.And(a.e, b.e), a.vs | b.vs, c)


def b_or(a, b):
    a, b = as_bool(a), as_bool(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    c = None if a.c is None or b.c is None else a.c or b.c
    return SymBool(z3.Or(a.e, b.e), a.vs | b.vs, c)


def b_not(a):
    a = as_bool(a)
    if isinstance(a, bool):
        return not a
    return SymBool(z3.Not(a.e), a.vs, None if a.c is None else not a.c)


def b_all(xs):
    xs = [as_bool(x) for x in xs]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    c = None if any(x.c is None for x in xs) else all(x.c for x in xs)
    return SymBool(z3.And(*[x.e for x in xs]), frozenset().union(*[x.vs for x in xs]), c)


def b_any(xs):
    return b_not(b_all([b_not(x) for x in xs]))


# ------------------------------------------------------------------ real scalars

def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "ndim", 1) == 0)


def norm_scalar(x):
    """numpy scalars / 0-d arrays -> python scalars."""
    if isinstance(x, (Sym, SymC, SymBool, bool, int, float, complex, Fraction)):
        if type(x) in (Sym, SymC, SymBool, bool, int, float, complex, Fraction):
            return x
        if hasattr(x, "item"):      # np.float64 subclasses float
            return x.item()
        return x
    if hasattr(x, "item") and getattr(x, "size", 1) == 1:
        return norm_scalar(x.item())
    return x


def mk(num, den=()):
    """Build a scalar from num/den factors, folding constants."""
    if not num.t:
        return 0.0
    if den:
        num, den = _cancel(num, den)
    if not den and num.is_const():
        c = num.cval()
        return int(c) if c.denominator == 1 and abs(c) < 2 ** 53 and False else _cfloat(c)
    return Sym(num, den)


def _cfloat(c):
    f = float(c)
    return f if Fraction(f) == c else c if abs(c.denominator) < 2 ** 60 and abs(c.numerator) < 2 ** 60 else f


def _cancel(num, den):
    out = []
    for f, e in den:
        while e > 0:
            q = exact_div(num, f)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return num, tuple(out)


def _monic(p):
    """(leading coefficient, monic polynomial)"""
    _, c = p.lead()
    return c, p.scale(1 / c)


def _den_merge(d1, d2):
    """lcm of two factored denominators with the cofactors of each."""
    if d1 == d2:
        return d1, Poly.const(1), Poly.const(1)
    m = {}
    polys = {}
    for f, e in d1:
        m[f.key()] = [e, 0]
        polys[f.key()] = f
    for f, e in d2:
        m.setdefault(f.key(), [0, 0])[1] = e
        polys[f.key()] = f
    c1 = Poly.const(1)
    c2 = Poly.const(1)
    out = []
    for k, (e1, e2) in m.items():
        e = max(e1, e2)
        f = polys[k]
        out.append((f, e))
        if e > e1:
            c1 = c1 * f.pow(e - e1)
        if e > e2:
            c2 = c2 * f.pow(e - e2)
    out.sort(key=lambda fe: fe[0].key())
    return tuple(out), c1, c2


def lift(x):
    """python number -> Sym (constant)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.ind()
    return Sym(Poly.const(x), ())


class Sym:
    __slots__ = ("num", "den", "_h", "nn")
    __array_priority__ = 1000

    def __init__(self, num, den=(), nn=0):
        self.num = num
        self.den = den
        self.nn = nn  # by construction: 1 known >= 0 (squares, their sums), 2 known > 0

    # ---- helpers
    def is_const(self):
        return not self.den and self.num.is_const()

    def vs(self):
        s = self.num.vs()
        for f, _ in self.den:
            s = s | f.vs()
        return s

    @property
    def isint(self):
        if self.den:
            return False
        atoms = CTX.atoms
        return all(c.denominator == 1 and all(atoms[i].isint for i, _ in m)
                   for m, c in self.num.t.items())

    def key(self):
        return (self.num.key(), tuple((f.key(), e) for f, e in self.den))

    def val(self):
        d = 1.0
        for f, e in self.den:
            d *= f.val() ** e
        return self.num.val() / d

    def z3(self):
        d = self.num.z3()
        for f, e in self.den:
            for _ in range(e):
                d = d / f.z3()
        return d

    def bounds(self):
        lo, hi = self.num.bounds()
        if not self.den and -1e6 < lo and hi < 1e6 and self.isint:
            return float(math.ceil(lo - 1e-5)), float(math.floor(hi + 1e-5))
        for f, e in self.den:
            fl, fh = f.bounds()
            if fl <= 0 <= fh:
                return -math.inf, math.inf
            for _ in range(e):
                c = [lo / fl, lo / fh, hi / fl, hi / fh]
                lo, hi = min(c), max(c)
        return lo, hi

    # ---- arithmetic
    def __add__(self, o):
        r = self._add(o)
        if self.nn and type(r) is Sym and r is not self and r is not o:
            k = o.nn if type(o) is Sym else 2 if isinstance(o, (int, float)) and o > 0 else 0
            if k:
                r.nn = max(k, self.nn)
        return r

    def _add(self, o):
        o = norm_scalar(o)
        if isinstance(o, SymC) or isinstance(o, complex):
            return SymC(self, 0.0) + o
        if isinstance(o, SymBool):
            o = o.ind()
        if not isinstance(o, Sym):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            if isinstance(o, float) and not math.isfinite(o):
                return o
            if o == 0:
                return self
            if -1e-10 < o < 1e-10:
                # below half an ulp: the sum is the other operand in floating point
                lo, hi = self.bounds()
                if lo > 0 and abs(o) < lo * 1e-17 or hi < 0 and abs(o) < -hi * 1e-17:
                    return self
            if not self.den:
                return mk(self.num + Poly.const(o))
            o = lift(o)
        if not self.den and not o.den:
            r = mk(self.num + o.num)
            if type(r) is float and r.is_integer() and self.isint and o.isint:
                return int(r)
            return r
        den, c1, c2 = _den_merge(self.den, o.den)
        return mk(self.num * c1 + o.num * c2, den)

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.num, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = norm_scalar(o)
        if not isinstance(o, (Sym, SymC, SymBool, int, float, complex, Fraction)):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = norm_scalar(o)
        if not isinstance(o, (Sym, SymC, SymBool, int, float, complex, Fraction)):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        r = self._mul(o)
        if type(r) is Sym and r is not self and r is not o:
            if type(o) is Sym:
                if self.nn and o.nn:
                    r.nn = min(self.nn, o.nn)
                elif self is o or len(self.num.t) == len(o.num.t) and self.den == o.den and self.num.t == o.num.t:
                    r.nn = 1
            elif self.nn and isinstance(o, (int, float)) and o > 0:
                r.nn = self.nn
        return r

    def _mul(self, o):
        o = norm_scalar(o)
        if isinstance(o, SymC) or isinstance(o, complex):
            return SymC(self, 0.0) * o
        if isinstance(o, SymBool):
            if not self.is_const():
                return ite(o, self, 0.0)
            o = o.ind()
        if not isinstance(o, Sym):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            if isinstance(o, float) and not math.isfinite(o):
                return _inf_mul(self, o)
            if o == 0:
                return 0.0
            if o == 1:
                return self
            return Sym(self.num.scale(_frac(o)), self.den)
        if not self.den and not o.den:
            return mk(self.num * o.num)
        n1, d2 = _cancel(self.num, o.den) if o.den else (self.num, ())
        n2, d1 = _cancel(o.num, self.den) if self.den else (o.num, ())
        m = {}
        for f, e in d1 + d2:
            k = f.key()
            m[k] = (f, e + (m[k][1] if k in m else 0))
        den = tuple(sorted(m.values(), key=lambda fe: fe[0].key()))
        num = n1 * n2
        if not num.t:
            return 0.0
        if not den and num.is_const():
            return _cfloat(num.cval())
        return Sym(num, den)

    __rmul__ = __mul__

    def inverse(self):
        """1/self; self must be non-zero on the path."""
        c, p = _monic(self.num)
        num = Poly.const(1 / c)
        for f, e in self.den:
            num = num * f.pow(e)
        if p.is_const():
            return mk(num)
        # split off pure atom factors so that later cancellation is cheap
        mono, rest = _mono_content(p)
        den = [(Poly.atom(i), e) for i, e in mono]
        if not rest.is_const():
            den.append((rest, 1))
        den.sort(key=lambda fe: fe[0].key())
        return mk(num, tuple(den))

    def __truediv__(self, o):
        o = norm_scalar(o)
        if isinstance(o, (SymC, complex)):
            return SymC(self, 0.0) / o
        if isinstance(o, SymBool):
            o = o.ind()
        if not isinstance(o, Sym):
            if not isinstance(o, (int, float, Fraction)):
                return NotImplemented
            if isinstance(o, float) and math.isnan(o):
                return o
            if isinstance(o, float) and math.isinf(o):
                return 0.0
            if o == 0:
                return _div_zero(self)
            return Sym(self.num.scale(1 / _frac(o)), self.den, self.nn if o > 0 else 0)
        v = CTX.fixed_value(o)
        if v:
            return Sym(self.num.scale(1 / v), self.den, self.nn if v > 0 else 0)
        if CTX.nonzero(o):
            i = o.inverse()
            if type(i) is Sym and (o.nn or self.nn and (o.bounds()[0] > 0 or CTX.opt.get("log_positive") and bool(o > 0))):
                i.nn = 2
            return self * i
        return _div_zero(self)

    def __rtruediv__(self, o):
        o = norm_scalar(o)
        if isinstance(o, complex):
            return SymC(o.real, o.imag) / self
        if not isinstance(o, (int, float, Fraction, SymBool)):
            return NotImplemented
        if isinstance(o, SymBool):
            return o.ind() / self
        if isinstance(o, float) and math.isnan(o):
            return o
        if isinstance(o, float) and math.isinf(o):
            return _inf_mul(self, o)
        if CTX.nonzero(self):
            i = self.inverse()
            if type(i) is Sym and self.nn:
                i.nn = 2
            return i * o if o != 0 else 0.0
        return _div_zero(o)

    def __pow__(self, n):
        n = norm_scalar(n)
        if isinstance(n, Sym):
            return pow_any(self, n)
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, int):
            if n >= 0:
                r = 1.0
                b = self
                while n:
                    if n & 1:
                        r = b * r if isinstance(b, Sym) else r * b
                    n >>= 1
                    if n:
                        b = b * b
                return r
            return 1.0 / (self ** (-n))
        if isinstance(n, (float, Fraction)):
            if n == 0.5:
                return s_sqrt(self)
            if n == -0.5:
                return 1.0 / s_sqrt(self)
        return pow_any(self, n)

    def __rpow__(self, b):
        return pow_any(norm_scalar(b), self)

    def __floordiv__(self, o):
        q = self / o
        return s_floor(q)

    def __rfloordiv__(self, o):
        return s_floor(norm_scalar(o) / self)

    def __mod__(self, o):
        q = s_floor(self / o)
        return self - q * o

    def __rmod__(self, o):
        q = s_floor(norm_scalar(o) / self)
        return norm_scalar(o) - q * self

    def __divmod__(self, o):
        q = s_floor(self / o)
        return q, self - q * o

    def __abs__(self):
        return s_abs(self)

    # ---- comparisons
    def __lt__(self, o):
        return cmp(self, o, "<")

    def __le__(self, o):
        return cmp(self, o, "<=")

    def __gt__(self, o):
        return cmp(self, o, ">")

    def __ge__(self, o):
        return cmp(self, o, ">=")

    def __eq__(self, o):
        return cmp(self, o, "==")

    def __ne__(self, o):
        return cmp(self, o, "!=")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __index__(self):
        return CTX.concretize(self)

    def __int__(self):
        return CTX.concretize(s_trunc(self))

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside instrumented code")

    def __round__(self, nd=None):
        if nd in (None, 0):
            return s_round(self)
        return s_round(self * 10 ** nd) / 10 ** nd

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __trunc__(self):
        return s_trunc(self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        try:
            d = "".join(f" / ({f!r})^{e}" for f, e in self.den)
            return f"Sym({self.num!r}{d})"
        except Exception:
            return "Sym(?)"

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def is_integer(self):
        return s_floor(self) == self

    # numpy object-ufunc hooks (np.sqrt(x) on object elements calls x.sqrt())
    def sqrt(self):
        return s_sqrt(self)

    def log10(self):
        return s_log10(self)

    def log(self):
        return s_log(self)

    def log2(self):
        return s_log2(self)

    def exp(self):
        return s_exp(self)

    def sin(self):
        return s_sin(self)

    def cos(self):
        return s_cos(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return -s_floor(-self)

    def rint(self):
        return s_round(self)

    # array-likeness of numpy scalars used by the package
    ndim = 0
    size = 1
    shape = ()

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, **kw):
        from . import npshim
        return npshim.cast_scalar(self, dt)

    def mean(self):
        return self

    def sum(self):
        return self

    def max(self):
        return self

    def min(self):
        return self


def _inf_mul(s, inf):
    if math.isnan(inf):
        return inf
    if bool(s > 0):
        return inf
    if bool(s < 0):
        return -inf
    return math.nan


def _div_zero(a):
    a = norm_scalar(a)
    if isinstance(a, (Sym, SymBool)):
        if bool(a > 0):
            return math.inf
        if bool(a < 0):
            return -math.inf
        return math.nan
    if a > 0:
        return math.inf
    if a < 0:
        return -math.inf
    return math.nan


def _mono_content(p):
    """largest monomial dividing every term, and the cofactor"""
    it = iter(p.t)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(common):
            e = min(common[i], d.get(i, 0))
            if e:
                common[i] = e
            else:
                del common[i]
        if not common:
            return (), p
    if not common:
        return (), p
    t = {}
    for m, c in p.t.items():
        d = dict(m)
        for i, e in common.items():
            d[i] -= e
            if not d[i]:
                del d[i]
        t[tuple(sorted(d.items()))] = c
    return tuple(sorted(common.items())), Poly(t)


_OPS = {"<": lambda a: a < 0, "<=": lambda a: a <= 0, ">": lambda a: a > 0,
        ">=": lambda a: a >= 0, "==": lambda a: a == 0, "!=": lambda a: a != 0}
_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def cmp(a, b, op):
    b = norm_scalar(b)
    if isinstance(b, SymBool):
        b = b.ind()
    if isinstance(b, (SymC, complex)):
        if op == "==":
            return b_and(cmp(a, b.real, "=="), cmp(lift(b.imag), 0, "=="))
        return b_or(cmp(a, b.real, "!="), cmp(lift(b.imag), 0, "!="))
    if isinstance(b, float) and not math.isfinite(b):
        if math.isnan(b):
            return op == "!="
        return {"<": b > 0, "<=": b > 0, ">": b < 0, ">=": b < 0, "==": False, "!=": True}[op]
    if not isinstance(b, (Sym, int, float, Fraction)):
        return NotImplemented
    d = a - b
    if not isinstance(d, Sym):
        return _OPS[op](d)
    if a.nn and not isinstance(b, Sym) and b == 0:
        if op in (">=", "<"):
            return op == ">="
        if a.nn == 2:
            return op in (">", "!=")
        if op in ("==", "<="):
            return b_not(sign_cond(d, ">"))
        op = ">"
    return sign_cond(d, op)


def sign_cond(d, op):
    """SymBool for  d op 0."""
    if isinstance(d, Sym):
        lg = _log_linear(d)
        if lg is not None:
            d2 = lg - 1
            if not isinstance(d2, Sym):
                return _OPS[op](d2)
            d = d2
    num = d.num
    for f, e in d.den:
        if e % 2 == 0 or op in ("==", "!="):
            continue
        s = CTX.sign(f)
        if s < 0:
            op = _FLIP[op]
    if num.is_const():
        return _OPS[op](num.cval())
    # normalise: drop positive common atom factors, make the leading coefficient +-1
    mono, rest = _mono_content(num)
    if mono and op not in ("==", "!="):
        num2 = rest
        ok = True
        for i, e in mono:
            at = CTX.atoms[i]
            if e % 2 == 0:
                if at.lo is not None and at.lo > 0:
                    continue
                ok = False
                break
            if at.lo is not None and at.lo > 0:
                continue
            ok = False
            break
        if ok:
            num = num2
            if num.is_const():
                return _OPS[op](num.cval())
    c, p = _monic(num)
    if c < 0:
        op = _FLIP[op]
    if not CTX.guided:
        lo, hi = p.bounds()
        r = _interval_decide(lo, hi, op)
        if r is not None:
            return r
    key = (p.key(), op)
    hit = CTX.cmp_cache.get(key)
    if hit is not None:
        return hit
    # scale so that coefficients are moderate in the SMT text
    z = p.z3()
    e = {"<": lambda: z < 0, "<=": lambda: z <= 0, ">": lambda: z > 0,
         ">=": lambda: z >= 0, "==": lambda: z == 0, "!=": lambda: z != 0}[op]()
    cv = None
    if CTX.guided:
        cv = bool(_OPS[op](p.val()))
    sb = SymBool(e, p.vs(), cv)
    CTX.cmp_cache[key] = sb
    return sb


def _interval_decide(lo, hi, op):
    if op == ">":
        if lo > 0:
            return True
        if hi <= 0:
            return False
    elif op == ">=":
        if lo >= 0:
            return True
        if hi < 0:
            return False
    elif op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == "<=":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif op == "==":
        if lo > 0 or hi < 0:
            return False
    elif op == "!=":
        if lo > 0 or hi < 0:
            return True
    return None


# ------------------------------------------------------------------ complex scalars

class SymC:
    """Complex symbolic value.  mag2, when given, is |z|^2 as a Sym."""
    __slots__ = ("re", "im", "mag2")
    __array_priority__ = 1001

    def __init__(self, re, im, mag2=None):
        self.re = norm_scalar(re)
        self.im = norm_scalar(im)
        self.mag2 = mag2

    @staticmethod
    def of(x):
        x = norm_scalar(x)
        if isinstance(x, SymC):
            return x
        if isinstance(x, complex):
            return SymC(x.real, x.imag)
        return SymC(x, 0.0)

    def __add__(self, o):
        if _arr(o):
            return NotImplemented
        o = SymC.of(o)
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return SymC(-self.re, -self.im, self.mag2)

    def __sub__(self, o):
        if _arr(o):
            return NotImplemented
        o = SymC.of(o)
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        if _arr(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if _arr(o):
            return NotImplemented
        o = norm_scalar(o)
        if not isinstance(o, (SymC, complex)):
            m = None if self.mag2 is None else self.mag2 * o * o
            return SymC(self.re * o, self.im * o, m)
        if isinstance(o, complex):
            o = SymC(o.real, o.imag)
        m = None
        if self.mag2 is not None or o.mag2 is not None:
            m = self.abs2() * o.abs2()
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, m)

    __rmul__ = __mul__

    def abs2(self):
        if self.mag2 is not None:
            return self.mag2
        r = self.re * self.re + self.im * self.im
        if isinstance(r, Sym) and len(r.num.t) > 1:
            top = max(abs(c) for c in r.num.t.values())
            if any(abs(c) * 10 ** 13 < top for c in r.num.t.values()):
                # rounding noise where cos^2+sin^2 collapses
                r = mk(Poly({m: c for m, c in r.num.t.items() if abs(c) * 10 ** 13 >= top}), r.den)
        return r

    def __truediv__(self, o):
        if _arr(o):
            return NotImplemented
        o = norm_scalar(o)
        if isinstance(o, (SymC, complex)):
            o = SymC.of(o)
            d = o.abs2()
            r = self * o.conjugate()
            return SymC(r.re / d, r.im / d, None if r.mag2 is None else r.mag2 / (d * d))
        return SymC(self.re / o, self.im / o, None if self.mag2 is None else self.mag2 / (o * o))

    def __rtruediv__(self, o):
        if _arr(o):
            return NotImplemented
        return SymC.of(o) / self

    def __pow__(self, n):
        n = norm_scalar(n)
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return 1.0 / (self ** (-n))
            r = SymC(1.0, 0.0)
            for _ in range(n):
                r = r * self
            return r
        # fractional power: modulus/argument form
        r = s_sqrt(self.abs2())
        th = s_arctan2(self.im, self.re)
        m = pow_any(r, n) if not (isinstance(r, float) and r == 1.0) else 1.0
        return SymC(m * s_cos(th * n), m * s_sin(th * n))

    def __abs__(self):
        if not isinstance(self.im, Sym) and self.im == 0:
            return s_abs(self.re)
        if not isinstance(self.re, Sym) and self.re == 0:
            return s_abs(self.im)
        return s_sqrt(self.abs2())

    def conjugate(self):
        return SymC(self.re, -self.im, self.mag2)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymC.of(o)
        return b_and(_eq(self.re, o.re), _eq(self.im, o.im))

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(b_or(as_bool(self.re), as_bool(self.im)))

    def __format__(self, spec):
        return "<symc>"

    def __repr__(self):
        return f"SymC({self.re!r}, {self.im!r})"

    def sqrt(self):
        raise Unsupported("complex sqrt")

    def exp(self):
        return s_exp(self)

    ndim = 0
    size = 1
    shape = ()

    def item(self):
        return self


def _arr(o):
    return hasattr(o, "__array__") and getattr(o, "ndim", 0) > 0


def _install_array_ops():
    names = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "divide", "pow": "power", "mod": "remainder",
             "floordiv": "floor_divide"}
    cmps = {"__lt__": "less", "__le__": "less_equal", "__gt__": "greater", "__ge__": "greater_equal", "__eq__": "equal",
            "__ne__": "not_equal"}

    def wrap(cls, meth, uf, refl):
        f = cls.__dict__.get(meth)
        if f is None:
            return

        def g(self, o, f=f):
            if _arr(o):
                from . import npshim
                if type(o) is npshim.SymArray:
                    return NotImplemented
                oo = npshim.W(npshim._o(o))
                return npshim.apply_uf(uf, (oo, self) if refl else (self, oo))
            return f(self, o)
        g.__name__ = meth
        setattr(cls, meth, g)
    for cls in (Sym, SymC, SymBool):
        for n, uf in names.items():
            wrap(cls, f"__{n}__", uf, False)
            wrap(cls, f"__r{n}__", uf, True)
        for m, uf in cmps.items():
            wrap(cls, m, uf, False)


def _eq(a, b):
    r = (a == b)
    return r


# ------------------------------------------------------------------ non-rational operations

def ite(c, a, b):
    c = as_bool(c)
    if isinstance(c, bool):
        return a if c else b
    a, b = norm_scalar(a), norm_scalar(b)
    if a is b:
        return a
    if isinstance(a, (SymC, complex)) or isinstance(b, (SymC, complex)):
        a, b = SymC.of(a), SymC.of(b)
        return SymC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, SymBool):
        a = a.ind()
    if isinstance(b, SymBool):
        b = b.ind()
    fa = not isinstance(a, Sym)
    fb = not isinstance(b, Sym)
    if fa and not math.isfinite(a) or fb and not math.isfinite(b):
        return a if bool(c) else b          # fork: no SMT value for inf/nan
    if fa and fb:
        if a == b:
            return a
        if a == 1 and b == 0:
            return c.ind()
        return c.ind() * (_frac(a) - _frac(b)) + b
    la, lb = lift(a), lift(b)
    if la.key() == lb.key():
        return a
    return CTX.ite_atom(c, la, lb)


def s_abs(x):
    x = norm_scalar(x)
    if isinstance(x, SymC):
        return abs(x)
    if not isinstance(x, Sym):
        return abs(x) if not isinstance(x, SymBool) else x.ind()
    c = x >= 0
    if c is True:
        return x
    if c is False:
        return -x
    # scalar multiples share one atom; factors of known sign come out
    k, p = _monic(x.num)
    mono, rest = _mono_content(p)
    outer = Poly.const(1)
    inner = {}
    for i, e in mono:
        at = CTX.atoms[i]
        if at.lo is not None and at.lo >= 0:
            outer = outer * Poly({((i, e),): Fraction(1)})
        else:
            if e > 1:
                outer = outer * Poly({((i, e - e % 2),): Fraction(1)})
            if e % 2:
                inner[i] = 1
    if inner:
        rest = Poly({tuple(sorted(inner.items())): Fraction(1)}) * rest
    dout, din = [], []
    for f, e in x.den:
        if f.bounds()[0] > 0 or CTX.sign_known_pos(f):
            dout.append((f, e))
        else:
            if e > 1:
                dout.append((f, e - e % 2))
            if e % 2:
                din.append((f, 1))
    o = Sym(outer.scale(abs(k)), tuple(dout)) if not outer.is_const() or dout else abs(k)
    if rest.is_const() and not din:
        return o * abs(rest.cval())
    r = CTX.abs_atom(Sym(rest, tuple(din))) * o
    return r


def s_sqrt(x):
    x = norm_scalar(x)
    if isinstance(x, SymBool):
        return x.ind()
    if not isinstance(x, Sym):
        if isinstance(x, complex):
            return x ** 0.5
        if x != x or x == math.inf:
            return x
        if x < 0:
            return math.nan
        if isinstance(x, Fraction):
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return _cfloat(Fraction(n, d))
        return math.sqrt(x)
    # sqrt(num/den) = sqrt(num * odd part of den) / |prod|
    num = x.num
    outer = Poly.const(1)
    for f, e in x.den:
        if e % 2:
            num = num * f
            e += 1
        outer = outer * f.pow(e // 2)
    r = CTX.sqrt_poly(num, x.nn)
    if outer.is_const():
        return r
    od = s_abs(Sym(outer))
    if not isinstance(r, Sym) or not isinstance(od, Sym):
        return r / od
    i = od.inverse()
    if type(i) is Sym:
        i.nn = 2
    return r * i


def s_floor(x):
    x = norm_scalar(x)
    if isinstance(x, SymBool):
        return x.ind()
    if not isinstance(x, Sym):
        if isinstance(x, float) and not math.isfinite(x):
            return x
        return math.floor(x)
    if x.isint:
        return x
    # pull out an integer part that is already integral
    ip, fp = CTX.split_int(x)
    if not isinstance(fp, Sym):
        return ip + math.floor(fp)
    return ip + CTX.floor_atom(fp)


def s_ceil(x):
    x = norm_scalar(x)
    if isinstance(x, float) and not math.isfinite(x):
        return x
    return -s_floor(-x)


def s_trunc(x):
    x = norm_scalar(x)
    if isinstance(x, SymBool):
        return x.ind()
    if not isinstance(x, Sym):
        return math.trunc(x) if not (isinstance(x, float) and not math.isfinite(x)) else x
    if x.isint:
        return x
    c = x >= 0
    if c is True:
        return s_floor(x)
    if c is False:
        return s_ceil(x)
    return ite(c, s_floor(x), s_ceil(x))


def s_round(x):
    """round half to even (numpy and python 3)"""
    x = norm_scalar(x)
    if isinstance(x, SymBool):
        return x.ind()
    if not isinstance(x, Sym):
        if isinstance(x, float) and not math.isfinite(x):
            return x
        return round(x)
    if x.isint:
        return x
    c, _ = _monic(x.num)
    if c < 0:
        return -s_round(-x)
    i, f = CTX.split_int(x)
    fl, fh = f.bounds() if isinstance(f, Sym) else (f, f)
    if -0.5 < fl and fh < 0.5:
        return i if isinstance(i, Sym) else int(i)
    if not isinstance(f, Sym) or not isinstance(i, Sym) and i == 0:
        return CTX.round_atom(x)
    n = CTX.round_atom(f)
    if not isinstance(i, Sym):
        i = int(i)
        if i % 2 == 0:
            return n + i
    return n + i + CTX.tie_atom(f, n, i)


def s_max(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        if a != a or b != b:
            return math.nan
        return a if a >= b else b
    for u, v in ((a, b), (b, a)):
        if isinstance(u, float) and not math.isfinite(u):
            return u if u != u or u > 0 else v
    return _tight(ite(_ge(a, b), a, b), a, b, max)


def s_min(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        if a != a or b != b:
            return math.nan
        return a if a <= b else b
    for u, v in ((a, b), (b, a)):
        if isinstance(u, float) and not math.isfinite(u):
            return u if u != u or u < 0 else v
    return _tight(ite(_ge(b, a), a, b), a, b, min)


def _tight(r, a, b, f):
    """interval of a two-way minimum or maximum"""
    if isinstance(r, Sym) and not r.den and len(r.num.t) == 1 and r is not a and r is not b:
        (m, c), = r.num.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "ite":
            at = CTX.atoms[m[0][0]]
            (al, ah), (bl, bh) = lift(a).bounds(), lift(b).bounds()
            lo, hi = f(al, bl), f(ah, bh)
            if lo != -math.inf:
                at.lo = lo
            if hi != math.inf:
                at.hi = hi
    return r


def _ge(a, b):
    return lift(a) >= b if not isinstance(a, Sym) else a >= b


# ---- logarithms and exponentials

def _log_base10_const(c):
    return math.log10(c)


def s_log10(x):
    x = norm_scalar(x)
    if isinstance(x, SymBool):
        x = x.ind()
    if not isinstance(x, Sym):
        x = float(x)
        if x != x:
            return x
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return math.log10(x) if x != math.inf else x
    if x.nn == 1 and CTX.opt.get("log_positive") and not CTX.guided:
        c = x > 0
        if isinstance(c, SymBool):
            CTX.pc.append(c)
    elif not bool(x > 0):
        if bool(x == 0):
            return -math.inf
        return math.nan
    r = 0.0
    c, p = _monic(x.num)
    mono, rest = _mono_content(p)
    parts = [(Poly.atom(i), e) for i, e in mono]
    if not rest.is_const():
        parts.append((rest, 1))
    else:
        c = c * rest.cval()
    parts += [(f, -e) for f, e in x.den]
    ac = abs(c)
    r = math.log10(ac.numerator) - math.log10(ac.denominator) if ac != 1 else 0.0
    # exact powers of ten stay exact
    k = round(r)
    if ac == Fraction(10) ** k:
        r = float(k)
    for f, e in parts:
        r = CTX.log_atom(f) * e + r
    return r


LN10 = math.log(10.0)


def s_log(x):
    x = norm_scalar(x)
    if not isinstance(x, (Sym, SymBool)):
        x = float(x)
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return math.log(x) if x == x and x != math.inf else x
    return s_log10(x) * LN10


def s_log2(x):
    x = norm_scalar(x)
    if not isinstance(x, (Sym, SymBool)):
        x = float(x)
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return math.log2(x) if x == x and x != math.inf else x
    return s_log10(x) / math.log10(2.0)


def _log_linear(d):
    """If d is a linear form in logarithm atoms only (plus a constant), return the
    positive quantity 10**(d/c) for a positive c so that sign(d) = sign(result - 1)."""
    if d.den:
        return None
    terms = []
    const = Fraction(0)
    atoms = CTX.atoms
    for m, c in d.num.t.items():
        if not m:
            const = c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = atoms[m[0][0]]
        if a.kind != "log":
            return None
        terms.append((a, c))
    if not terms:
        return None
    base = min(abs(c) for _, c in terms)
    ratios = []
    for a, c in terms:
        q = c / base
        k = round(q)
        if abs(q - k) > Fraction(1, 10 ** 9) or abs(k) > 8:
            return None
        ratios.append((a, int(k)))
    r = 1.0
    for a, k in ratios:
        f = s_abs(Sym(a.info)) if not _known_pos(a.info) else Sym(a.info)
        r = r * (f ** k) if not isinstance(f, float) else r * f ** k
    e = const / base
    if abs(e) > 250:
        return None
    k = round(e)
    p10 = Fraction(10) ** int(k) if abs(e - k) < Fraction(1, 10 ** 12) else Fraction(10.0 ** float(e))
    return r * p10 if isinstance(r, Sym) else r * float(p10)


def _known_pos(p):
    lo, _ = p.bounds()
    return lo > 0 or CTX.sign_known_pos(p)


def s_exp(x):
    x = norm_scalar(x)
    if isinstance(x, complex):
        import cmath
        return cmath.exp(x)
    if isinstance(x, SymC):
        m = 1.0 if not isinstance(x.re, Sym) and x.re == 0 else s_exp(x.re)
        return SymC(m * s_cos(x.im), m * s_sin(x.im))
    if isinstance(x, Sym) and CTX.opt.get("exp_opaque"):
        k = ("expo", x.key())
        a = CTX.tab.get(k)
        if a is None:
            a = CTX.tab[k] = CTX.new_atom("expo")
            a.lo = 0.0
            CTX.define(a, a.zr > 0, [a.i])
            if CTX.guided:
                a.val = math.exp(x.val())
        return Sym(Poly.atom(a.i), (), 2)
    return pow_any(math.e, x)


def pow_any(b, x):
    """b ** x with a symbolic base or exponent."""
    b, x = norm_scalar(b), norm_scalar(x)
    if isinstance(x, SymBool):
        x = x.ind()
    if isinstance(b, SymBool):
        b = b.ind()
    if not isinstance(x, Sym):
        if not isinstance(b, Sym):
            if b == math.e:
                return math.exp(x)
            try:
                return float(b) ** x if not isinstance(b, int) or not isinstance(x, int) or x < 0 else b ** x
            except OverflowError:
                return math.inf
        if x == 0:
            return 1.0
        if float(x).is_integer():
            return b ** int(x)
        if float(2 * x).is_integer():
            return s_sqrt(b) ** int(2 * x)
        # b ** const through the logarithm
        return pow_any(10.0, s_log10(b) * x)
    if isinstance(b, Sym):
        return pow_any(10.0, s_log10(b) * x)
    if b == 1:
        return 1.0
    if b <= 0:
        raise Unsupported("non-positive base with symbolic exponent")
    if x.den:
        return CTX.exp_atom(b, x)
    res = 1.0
    lgb = math.log10(b)
    if abs(lgb - round(lgb)) < 1e-15:
        lgb = round(lgb)
    for m, c in x.num.t.items():
        if not m:
            f = float(b) ** float(c) if b != math.e else math.exp(float(c))
            res = res * f
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = CTX.atoms[m[0][0]]
            if a.kind == "log":
                # b ** (c*log10 f) = f ** (c*log10 b)
                p = float(c) * lgb
                f = Sym(a.info) if _known_pos(a.info) else s_abs(Sym(a.info))
                p2 = round(p * 2)
                if abs(p * 2 - p2) < 1e-12:
                    if p2 % 2 == 0:
                        res = (f ** (p2 // 2)) * res
                    else:
                        res = (s_sqrt(f) ** p2) * res
                    continue
        res = CTX.exp_term(b, m, c) * res
    return res


# ---- trigonometry

_SNAP = sorted({0.0, 0.5, 1.0, math.sqrt(0.5), math.sqrt(0.75)})


def snap(v):
    a = abs(v)
    for s in _SNAP:
        if abs(a - s) < 4e-13:
            return math.copysign(s, v) if s else 0.0
    return v


def s_cos(x):
    x = norm_scalar(x)
    if not isinstance(x, (Sym, SymBool)):
        return snap(math.cos(x)) if math.isfinite(x) else math.nan
    return CTX.trig(lift(x))[0]


def s_sin(x):
    x = norm_scalar(x)
    if not isinstance(x, (Sym, SymBool)):
        return snap(math.sin(x)) if math.isfinite(x) else math.nan
    return CTX.trig(lift(x))[1]


def s_arctan2(y, x):
    y, x = norm_scalar(y), norm_scalar(x)
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        return math.atan2(y, x)
    return CTX.atan2(y, x)


# ------------------------------------------------------------------ context

def _is_numeral(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return True
    return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and _is_numeral(e.children()[0])


class Ctx:
    def __init__(self, prefix=(), guided=None, stats=None, timeout_ms=20000):
        self.atoms = []
        self.tab = {}
        self.rules = {}            # atom id -> Poly (square rule) or None (idempotent)
        self.pc = []               # SymBool
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []            # decisions taken: (bool, free)
        self.pending = []          # alternative prefixes discovered
        self.fixed = {}            # polynomials whose value the path fixes
        self.guided = guided is not None
        self.assignment = guided or {}
        self.cmp_cache = {}
        self.closures = {}
        self.lin_cache = {}
        self.inputs = []           # (name, atom)
        self.stats = stats if stats is not None else {}
        self.timeout_ms = timeout_ms
        self.equations = []  # polynomials known to vanish
        self.sign_cache = {}
        self.known = {}
        self.obs = []
        self.keep = []
        self.max_atoms = 20000
        self.opt = {}

    # ---- bookkeeping
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def new_atom(self, kind, isint=False, name=None):
        i = len(self.atoms)
        if i > self.max_atoms:
            raise Inconclusive("too many atoms")
        a = Atom(i, name or f"{kind}!{i}", isint, kind)
        self.atoms.append(a)
        return a

    def define(self, a, e, vs):
        a.defs.append((e, frozenset(vs)))

    # ---- inputs
    def input_real(self, name, lo=None, hi=None, isint=False):
        k = ("in", name)
        if k in self.tab:
            return Sym(Poly.atom(self.tab[k].i))
        a = self.new_atom("in", isint, name)
        self.tab[k] = a
        a.lo = None if lo is None else float(lo)
        a.hi = None if hi is None else float(hi)
        if lo is not None:
            self.define(a, a.zr >= _rat_z3(_frac(lo)), [a.i])
        if hi is not None:
            self.define(a, a.zr <= _rat_z3(_frac(hi)), [a.i])
        if self.guided:
            a.val = float(self.assignment[name])
        self.inputs.append((name, a))
        return Sym(Poly.atom(a.i))

    def input_bool(self, name):
        s = self.input_real(name, 0, 1, isint=True)
        a = self.tab[("in", name)]
        self.rules[a.i] = None
        return s == 1

    # ---- derived atoms
    def indicator(self, c):
        if self.opt.get("intsets") and not self.guided:
            r = self._int_set(c)
            if r is not None:
                return r
        return self._indicator(c)

    def _int_set(self, c):
        """indicator of a condition on one small integer input, over the indicators of its values"""
        k = ("intset", c.e.get_id())
        r = self.tab.get(k)
        if r is not None:
            return r[1]
        ins = [i for i in self.closure(c) if self.atoms[i].kind == "in"]
        if len(ins) != 1 or not self.atoms[ins[0]].isint:
            return None
        x = self.atoms[ins[0]]
        if x.lo is None or x.hi is None or x.hi - x.lo > 40:
            return None
        s = z3.Solver()
        s.set("timeout", 1000)
        for i in self.closure(c):
            for e, dv in self.atoms[i].defs:
                s.add(e)
        vals, hit = list(range(int(x.lo), int(x.hi) + 1)), []
        for v in vals:
            s.push()
            s.add(x.zv == v)
            t1 = s.check(c.e)
            t2 = s.check(z3.Not(c.e))
            s.pop()
            if (t1, t2) == (z3.sat, z3.unsat):
                hit.append(v)
            elif (t1, t2) != (z3.unsat, z3.sat):
                return None
        self.count("queries", 2 * len(vals))
        xs = Sym(Poly.atom(x.i))

        def one(v):
            if v == vals[-1]:
                return 1 - sum(one(w) for w in vals[:-1])
            return self._indicator(xs == v)
        r = sum(one(v) for v in hit) if hit else Sym(Poly.const(0))
        self.keep.append(c.e)
        self.tab[k] = (None, lift(r))
        return lift(r)

    def _indicator(self, c):
        k = ("ind", c.e.get_id())
        a = self.tab.get(k)
        if a is None:
            self.keep.append(c.e)
            a = self.new_atom("ind", True)
            a.lo, a.hi = 0.0, 1.0
            self.tab[k] = a
            self.rules[a.i] = None
            vs = c.vs | {a.i}
            self.define(a, z3.Or(z3.And(c.e, a.zv == 1), z3.And(z3.Not(c.e), a.zv == 0)), vs)
            if self.guided:
                a.val = 1.0 if c.c else 0.0
        return Sym(Poly.atom(a.i))

    def ite_atom(self, c, x, y):
        k = ("ite", c.e.get_id(), x.key(), y.key())
        a = self.tab.get(k)
        if a is None:
            self.keep.append(c.e)
            isint = x.isint and y.isint
            a = self.new_atom("ite", isint)
            self.tab[k] = a
            xl, xh = x.bounds()
            yl, yh = y.bounds()
            lo, hi = min(xl, yl), max(xh, yh)
            a.lo = None if lo == -math.inf else lo
            a.hi = None if hi == math.inf else hi
            vs = c.vs | x.vs() | y.vs() | {a.i}
            self.define(a, z3.And(z3.Implies(c.e, self.eq_z3(a, x)),
                                  z3.Implies(z3.Not(c.e), self.eq_z3(a, y))), vs)
            if self.guided:
                a.val = x.val() if c.c else y.val()
        return Sym(Poly.atom(a.i))

    def eq_z3(self, a, x):
        """a == x, cross-multiplied"""
        lhs = a.zr
        for f, e in x.den:
            for _ in range(e):
                lhs = lhs * f.z3()
        return lhs == x.num.z3()

    def abs_atom(self, x):
        k = ("abs", x.key())
        k2 = ("abs", (-x).key())
        a = self.tab.get(k) or self.tab.get(k2)
        if a is None:
            a = self.new_atom("abs", x.isint)
            a.lo = 0.0
            lo, hi = x.bounds()
            a.hi = max(abs(lo), abs(hi)) if math.isfinite(lo) and math.isfinite(hi) else None
            self.tab[k] = a
            vs = x.vs() | {a.i}
            self.define(a, z3.And(a.zr >= 0, z3.Or(self.eq_z3(a, x), self.eq_z3(a, -x))), vs)
            if not x.den:
                self.rules[a.i] = x.num * x.num
            if self.guided:
                a.val = abs(x.val())
        return Sym(Poly.atom(a.i))

    def sqrt_poly(self, p, nn=False):
        """sqrt of a polynomial (forks to nan when it can be negative)."""
        if p.is_const():
            return s_sqrt(float(p.cval()) if _is_float(p.cval()) else p.cval())
        s = Sym(p)
        # perfect square monomial: c*m^2
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if all(e % 2 == 0 for _, e in m):
                r = s_sqrt(c)
                base = Sym(Poly({tuple((i, e // 2) for i, e in m): Fraction(1)}))
                return s_abs(base) * r
            if c > 0 and c != 1:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return self.sqrt_poly(Poly({m: Fraction(1)})) * Fraction(n, d)
        if not nn and not _sos(p):
            if not bool(s >= 0):
                return math.nan
        k = ("sqrt", p.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("sqrt")
            a.lo = 0.0
            lo, hi = p.bounds()
            if hi != math.inf:
                a.hi = math.sqrt(max(hi, 0)) * (1 + 1e-12)
            if lo > 0 and lo != math.inf:
                a.lo = math.sqrt(lo) * (1 - 1e-12)
            a.info = p
            self.tab[k] = a
            if self.opt.get("sqrt_split"):
                self.define(a, a.zr >= _rat_z3(_frac(a.lo)), [a.i])
                self.define(a, a.zr * a.zr == p.z3(), p.vs() | {a.i})
            else:
                self.define(a, z3.And(a.zr >= 0, a.zr * a.zr == p.z3()), p.vs() | {a.i})
            self.rules[a.i] = p
            if self.guided:
                a.val = math.sqrt(max(p.val(), 0.0))
        return Sym(Poly.atom(a.i), (), 2 if nn == 2 or a.lo > 0 else 1)

    def split_int(self, x):
        """x = integral polynomial part + rest (for floor/round)"""
        if x.den:
            return 0, x
        ip, fp = {}, {}
        for m, c in x.num.t.items():
            if all(self.atoms[i].isint for i, _ in m) and m:
                k = Fraction(math.floor(c))
                if k:
                    ip[m] = k
                if c - k:
                    fp[m] = c - k
            elif not m:
                k = Fraction(math.floor(c))
                if k:
                    ip[m] = k
                if c - k:
                    fp[m] = c - k
            else:
                fp[m] = c
        i = mk(Poly(ip)) if ip else 0
        f = mk(Poly(fp)) if fp else 0.0
        return i, f

    def _between(self, lhs_atom, x, lo, hi, lo_strict=False, hi_strict=True):
        """lo <= x - k < hi with x rational, as z3 (denominators cross-multiplied)."""
        d = x - Sym(Poly.atom(lhs_atom.i))
        c1 = lift(d) >= lo if not lo_strict else lift(d) > lo
        c2 = lift(d) < hi if hi_strict else lift(d) <= hi
        out = []
        vs = frozenset([lhs_atom.i]) | x.vs()
        for c in (c1, c2):
            if isinstance(c, SymBool):
                out.append(c.e)
                vs |= c.vs
        return z3.And(*out) if out else z3.BoolVal(True), vs

    def floor_atom(self, x):
        k = ("floor", x.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("floor", True)
            self.tab[k] = a
            lo, hi = x.bounds()
            if self.guided:
                a.val = float(math.floor(x.val()))
            e, vs = self._between(a, x, 0, 1)
            if math.isfinite(lo):
                a.lo = math.floor(lo)
            if math.isfinite(hi):
                a.hi = math.floor(hi)
            self.define(a, e, vs)
            if a.lo is not None:
                self.define(a, a.zv >= a.lo, [a.i])
            if a.hi is not None:
                self.define(a, a.zv <= a.hi, [a.i])
        if a.lo is not None and a.lo == a.hi and not self.guided:
            return int(a.lo)
        return Sym(Poly.atom(a.i))

    def round_atom(self, x):
        k = ("round", x.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("round", True)
            self.tab[k] = a
            lo, hi = x.bounds()
            if self.guided:
                a.val = float(round(x.val()))
            h = Fraction(1, 2)
            e, vs = self._between(a, x, -h, h, False, False)
            d = x - Sym(Poly.atom(a.i))
            t1, t2 = lift(d) == h, lift(d) == -h
            ties = [t.e for t in (t1, t2) if isinstance(t, SymBool)]
            if ties:
                e = z3.And(e, z3.Implies(z3.Or(*ties), a.zv % 2 == 0))
            if math.isfinite(lo):
                a.lo = round(lo)
            if math.isfinite(hi):
                a.hi = round(hi)
            self.define(a, e, vs)
            if a.lo is not None:
                self.define(a, a.zv >= a.lo, [a.i])
            if a.hi is not None:
                self.define(a, a.zv <= a.hi, [a.i])
        if a.lo is not None and a.lo == a.hi and not self.guided:
            return int(a.lo)
        return Sym(Poly.atom(a.i))

    def tie_atom(self, f, n, i):
        """round(f+i) - round(f) - i: non-zero only at a tie of f with i odd"""
        isym = isinstance(i, Sym)
        k = ("tie", f.key(), i.key() if isym else i % 2)
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("tie", True)
            self.tab[k] = a
            a.lo, a.hi = -1, 1
            h = Fraction(1, 2)
            d = f - n
            vs = frozenset([a.i]) | f.vs() | lift(n).vs()
            t1, t2 = lift(d) == h, lift(d) == -h
            e1, e2 = [t.e if isinstance(t, SymBool) else z3.BoolVal(bool(t)) for t in (t1, t2)]
            if isym:
                q = self.new_atom("par", True)
                q.val = float(math.floor(i.val() / 2)) if self.guided else None
                r = i - Sym(Poly.atom(q.i)) * 2
                self.define(q, z3.And(r.z3() >= 0, r.z3() <= 1), i.vs() | {q.i})
                odd = r.z3() == 1
                vs |= i.vs() | {q.i}
            else:
                odd = z3.BoolVal(True)
            self.define(a, z3.And(z3.Implies(z3.And(e1, odd), a.zv == 1), z3.Implies(z3.And(e2, odd), a.zv == -1),
                                  z3.Implies(z3.Not(z3.And(z3.Or(e1, e2), odd)), a.zv == 0)), vs)
            if self.guided:
                iv = int(i.val()) if isym else i
                a.val = float(round(f.val() + iv) - round(f.val()) - iv)
        return Sym(Poly.atom(a.i))

    def log_atom(self, p):
        """log10|p|"""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1:
                at = self.atoms[m[0][0]]
                if at.kind == "exp":
                    b, mm, q = at.info
                    lg = math.log10(b)
                    if abs(lg - round(lg)) < 1e-15:
                        lg = round(lg)
                    return Sym(Poly({mm: q * _frac(lg)})) * m[0][1]
                if at.kind == "sqrt":
                    return s_log10(Sym(at.info, (), 1)) * Fraction(1, 2) * m[0][1]
        if len(p.t) > 1:
            p = canon(p)
        k = ("log", p.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("log")
            a.info = p
            self.tab[k] = a
            lo, hi = p.bounds()
            if lo > 0:
                a.lo = math.log10(lo) - 1e-9
                if hi != math.inf:
                    a.hi = math.log10(hi) + 1e-9
            if self.guided:
                v = abs(p.val())
                a.val = math.log10(v) if v > 0 else -math.inf
            if not self.guided:
                pz = p.z3()
                pos = z3.If(pz >= 0, pz, -pz) if not lo > 0 else pz
                ax = [(pos > 1) == (a.zr > 0), (pos == 1) == (a.zr == 0)]
                for a2 in (() if self.opt.get("log_opaque") else self.atoms[:a.i]):
                    if a2.kind == "log":
                        p2 = a2.info.z3()
                        pos2 = z3.If(p2 >= 0, p2, -p2) if not a2.info.bounds()[0] > 0 else p2
                        a.defs.append((z3.And((pos < pos2) == (a.zr < a2.zr), (pos == pos2) == (a.zr == a2.zr)),
                                       frozenset(p.vs() | a2.info.vs() | {a.i, a2.i})))
                self.define(a, z3.And(*ax), p.vs() | {a.i})
        return Sym(Poly.atom(a.i))

    def exp_term(self, b, m, c):
        """b ** (c*m) for a monomial m, as a power of one unit atom."""
        unit = Fraction(1, 20) if b in (10, 10.0) else Fraction(1)
        q = c / unit
        if q.denominator != 1 or abs(q) > 64:
            # near-multiples (float coefficients)
            k = round(q)
            if k and abs(q - k) < Fraction(1, 10 ** 12) * abs(k) and abs(k) <= 64:
                q = Fraction(k)
            else:
                unit, q = abs(c), Fraction(1 if c > 0 else -1)
        k = ("exp", float(b), m, unit)
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("exp")
            a.info = (float(b), m, unit)
            self.tab[k] = a
            p = Poly({m: unit})
            lo, hi = p.bounds()
            a.lo = 0.0
            sg = 1 if b > 1 else -1
            if sg < 0:
                lo, hi = -hi, -lo
            bb = b if b > 1 else 1 / b
            if lo != -math.inf:
                a.lo = bb ** lo * (1 - 1e-12) if lo > -300 else 0.0
            if hi != math.inf and hi < 300:
                a.hi = bb ** hi * (1 + 1e-12)
            if self.guided:
                a.val = b ** p.val()
            else:
                px = p.z3()
                gt = (px > 0) if b > 1 else (px < 0)
                self.define(a, z3.And(a.zr > 0, (a.zr > 1) == gt, (a.zr == 1) == (px == 0)), p.vs() | {a.i})
                for a2 in self.atoms[:a.i]:
                    if a2.kind == "exp" and a2.info[0] == float(b):
                        p2 = Poly({a2.info[1]: a2.info[2]})
                        lt = (px < p2.z3()) if b > 1 else (px > p2.z3())
                        a.defs.append((z3.And((a.zr < a2.zr) == lt, (a.zr == a2.zr) == (px == p2.z3())),
                                       frozenset(p.vs() | p2.vs() | {a.i, a2.i})))
            a.lo = max(a.lo, 0.0)
            if a.lo == 0.0:
                a.lo = 5e-324
        return Sym(Poly.atom(a.i)) ** int(q)

    def exp_atom(self, b, x):
        k = ("expx", float(b), x.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("expx")
            a.lo = 5e-324
            self.tab[k] = a
            if self.guided:
                a.val = b ** x.val()
            else:
                pos, neg = x > 0, x < 0
                one = []
                vs = x.vs() | {a.i}
                for c, e in ((pos, a.zr > 1), (neg, a.zr < 1)):
                    cz = c.e if isinstance(c, SymBool) else z3.BoolVal(c)
                    if b < 1:
                        e = (a.zr < 1) if c is pos else (a.zr > 1)
                    one.append(cz == e)
                    if isinstance(c, SymBool):
                        vs |= c.vs
                self.define(a, z3.And(a.zr > 0, *one), vs)
        return Sym(Poly.atom(a.i))

    def trig(self, x):
        """(cos, sin) of a symbolic argument, with angle addition for constants and
        for arctan2 atoms with small integer coefficients."""
        v = self.fixed_value(x)
        if v is not None:
            return s_cos(float(v)), s_sin(float(v))
        if self.opt.get("cos_table") and not x.den:
            r = self._trig_table(x)
            if r is not None:
                return r
        if x.den:
            return self._trig_atom(x)
        parts = []
        rest = {}
        const = Fraction(0)
        for m, c in x.num.t.items():
            if not m:
                const = c
                continue
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a.kind == "atan2":
                    k = round(c)
                    if abs(c - k) < Fraction(1, 10 ** 12) and 0 < abs(k) <= 8:
                        y, xx = a.info
                        r = s_sqrt(lift(xx * xx + y * y)) if isinstance(xx * xx + y * y, Sym) else math.sqrt(float(xx * xx + y * y))
                        parts += [(xx / r, (y / r) if k > 0 else -(y / r))] * abs(int(k))
                        continue
            k = round(float(c) / (2 * math.pi))
            if k and abs(float(c) / (2 * math.pi) - k) < 1e-13 and all(self.atoms[i].isint for i, _ in m):
                continue  # whole turns
            rest[m] = c
        cs = (1.0, 0.0)
        if rest:
            cs = self._trig_atom(Sym(Poly(rest)))
        if const:
            f = float(const)
            cs = _ang_add(cs, (s_cos(f), s_sin(f)))
        for p in parts:
            cs = _ang_add(cs, p)
        return cs

    def _trig_table(self, x):
        """(cos, sin) of const + q*k for an integer k of small range, one value per k"""
        b = float(x.num.cval())
        ts = [(m, c) for m, c in x.num.t.items() if m]
        q = min((abs(c) for _, c in ts), default=None)
        if not q or len(ts) > 60:
            return None
        k = Sym(Poly({m: c / q for m, c in ts}))
        if not k.isint:
            return None
        lo, hi = k.bounds()
        if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 40:
            return None
        t = self.tab.get(("trigtab", x.key()))
        if t is None:
            t = (self.new_atom("cos"), self.new_atom("sin"))
            self.tab[("trigtab", x.key())] = t
            js = range(math.ceil(lo), math.floor(hi) + 1)
            for a, f in zip(t, (math.cos, math.sin)):
                v = {j: snap(f(float(q) * j + b)) for j in js}
                a.lo, a.hi = min(v.values()), max(v.values())
                a.info = x
                vs = k.vs() | {a.i}
                for j in js:
                    self.define(a, z3.Implies(k.num.z3() == j, a.zr == _rat_z3(_frac(v[j]))), vs)
                self.define(a, z3.Or(*[a.zr == _rat_z3(_frac(w)) for w in set(v.values())]), vs)
                if self.guided:
                    a.val = v[round(k.val())]
        return Sym(Poly.atom(t[0].i)), Sym(Poly.atom(t[1].i))

    def _trig_atom(self, x):
        k0, p = _monic(x.num)
        sg = 1
        if k0 < 0:
            x = -x
            sg = -1
        k = ("trig", x.key())
        t = self.tab.get(k)
        if t is None:
            c = self.new_atom("cos")
            s = self.new_atom("sin")
            for a in (c, s):
                a.lo, a.hi = -1.0, 1.0
            c.info = s.info = x
            t = (c, s)
            self.tab[k] = t
            e = z3.And(c.zr >= -1, c.zr <= 1, s.zr >= -1, s.zr <= 1)
            self.define(c, z3.And(c.zr >= -1, c.zr <= 1), [c.i])
            self.define(s, z3.And(s.zr >= -1, s.zr <= 1), [s.i])
            # sin^2 -> 1 - cos^2 keeps the Pythagorean identity as a rewrite
            self.rules[s.i] = Poly.const(1) - Poly.atom(c.i) * Poly.atom(c.i)
            self.define(s, c.zr * c.zr + s.zr * s.zr == 1, [c.i, s.i])
            if self.guided:
                v = x.val()
                c.val, s.val = math.cos(v), math.sin(v)
            elif self.opt.get("cos_monotone"):
                # cos is strictly decreasing on [0, pi]; the scenario guarantees the range
                for k2, t2 in list(self.tab.items()):
                    if k2[0] == "trig" and t2[0].i != c.i:
                        x2 = t2[0].info
                        lt, eq = x < x2, x == x2
                        if isinstance(lt, SymBool):
                            c.defs.append((lt.e == (c.zr > t2[0].zr), lt.vs | {c.i, t2[0].i}))
                        else:
                            c.defs.append((c.zr > t2[0].zr if lt else c.zr <= t2[0].zr, frozenset({c.i, t2[0].i})))
                        if isinstance(eq, SymBool):
                            c.defs.append((eq.e == (c.zr == t2[0].zr), eq.vs | {c.i, t2[0].i}))
        c, s = Sym(Poly.atom(t[0].i)), Sym(Poly.atom(t[1].i))
        return c, (s if sg > 0 else -s)

    def atan2(self, y, x):
        # common positive scale is irrelevant: divide out common content
        ly, lx = lift(y), lift(x)
        g = self._atan2_const(ly, lx)
        if g is not None:
            return g
        k = ("atan2", ly.key(), lx.key())
        a = self.tab.get(k)
        if a is None:
            a = self.new_atom("atan2")
            a.lo, a.hi = -math.pi * (1 + 1e-15), math.pi * (1 + 1e-15)
            a.info = (y, x)
            self.tab[k] = a
            if self.guided:
                a.val = math.atan2(_val(y), _val(x))
            pi = z3.Q(*Fraction(math.pi).as_integer_ratio())
            vs = frozenset(ly.vs() | lx.vs() | {a.i})
            self.define(a, z3.And(a.zr >= -pi, a.zr <= pi), [a.i])
            yp, yn, xn = ly > 0, ly < 0, lx < 0
            zz = [c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c)) for c in (yp, yn, xn)]
            for c in (yp, yn, xn):
                if isinstance(c, SymBool):
                    vs = vs | c.vs
            self.define(a, z3.And(z3.Implies(zz[0], z3.And(a.zr > 0, a.zr < pi)),
                                  z3.Implies(zz[1], z3.And(a.zr < 0, a.zr > -pi)),
                                  z3.Implies(z3.And(z3.Not(zz[0]), z3.Not(zz[1])),
                                             z3.If(zz[2], a.zr == pi, a.zr == 0))), vs)
        return Sym(Poly.atom(a.i))

    def _atan2_const(self, y, x):
        """atan2 of (cy*p, cx*p) with a common symbolic factor p of known sign."""
        if y.is_const() and not y.num.t or x.is_const() and not x.num.t:
            z, o, which = (y, x, "y") if not y.num.t else (x, y, "x")
            if isinstance(o, Sym) and not o.is_const():
                pos = bool(o > 0)
                neg = False if pos else bool(o < 0)
                if which == "y":
                    return 0.0 if pos or not neg else math.pi
                return math.pi / 2 if pos else (-math.pi / 2 if neg else 0.0)
        if y.den != x.den:
            return None
        if set(y.num.t) != set(x.num.t) or y.num.is_const():
            return None
        m, cx = x.num.lead()
        cy = y.num.t[m]
        k = cy / cx
        tol = Fraction(1, 10 ** 11) * max(abs(c) for c in list(y.num.t.values()) + list(x.num.t.values()))
        if any(abs(y.num.t[mm] - k * x.num.t[mm]) > tol for mm in x.num.t):
            return None
        base = Sym(x.num.scale(1 / cx), x.den)
        if bool(base > 0):
            return math.atan2(float(cy), float(cx))
        if bool(base < 0):
            return math.atan2(-float(cy), -float(cx))
        return 0.0

    # ---- signs
    def sign(self, p):
        """+1/-1 of a polynomial known to be non-zero (forks when undetermined)."""
        k = p.key()
        s = self.sign_cache.get(k)
        if s is None:
            lo, hi = (None, None)
            c = sign_cond(Sym(p), ">")
            s = 1 if (c if isinstance(c, bool) else self.branch(c)) else -1
            self.sign_cache[k] = s
        return s

    def sign_known_pos(self, p):
        return self.sign_cache.get(p.key()) == 1

    def nonzero(self, s):
        """True on the branch where s != 0."""
        if isinstance(s, Sym) and not s.den:
            k = ("nz", s.num.key())
            if self.known.get(k):
                return True
        c = s != 0
        r = c if isinstance(c, bool) else self.branch(c)
        if r and isinstance(s, Sym) and not s.den:
            self.known[("nz", s.num.key())] = True
        return r

    # ---- solving
    def closure(self, c):
        """atoms a condition depends on through the atoms' definitions"""
        r = self.closures.get(id(c))
        if r is not None and r[0] is c:
            return r[1]
        vs, todo = set(), list(c.vs)
        while todo:
            i = todo.pop()
            if i in vs:
                continue
            vs.add(i)
            a = self.atoms[i]
            for e, dv in a.defs:
                if a.kind in ("log", "exp", "cos") and any(x != i and self.atoms[x].kind == a.kind for x in dv):
                    continue
                todo += [x for x in dv if x not in vs]
        vs = frozenset(vs)
        self.closures[id(c)] = (c, vs)
        return vs

    def cone(self, conds):
        """constraints relevant to conds: atom definitions and path conditions."""
        vs = set()
        for c in conds:
            vs |= c.vs
        out = []
        seen_pc = set()
        seen_def = set()
        changed = True
        done = set()
        while changed:
            changed = False
            for i in list(vs - done):
                done.add(i)
                a = self.atoms[i]
                for j, (e, dv) in enumerate(a.defs):
                    # pairwise axioms (log/exp/cos) only when both atoms are relevant
                    if (i, j) in seen_def:
                        continue
                    if a.kind in ("log", "exp", "cos") and not (dv <= vs):
                        own = {x for x in dv if self.atoms[x].kind == a.kind and x != i}
                        if own and not own <= vs:
                            continue
                    seen_def.add((i, j))
                    out.append(e)
                    if not dv <= vs:
                        vs |= dv
                        changed = True
            for n, c in enumerate(self.pc):
                if n not in seen_pc and (self.closure(c) & vs):
                    seen_pc.add(n)
                    out.append(c.e)
                    if not c.vs <= vs:
                        vs |= c.vs
                        changed = True
        # pairwise axioms that became relevant late
        for i in vs:
            a = self.atoms[i]
            if a.kind in ("log", "exp", "cos"):
                for j, (e, dv) in enumerate(a.defs):
                    if (i, j) not in seen_def and dv <= vs:
                        out.append(e)
        return out, vs

    def linear(self, e):
        """does the formula use only linear arithmetic"""
        r = self.lin_cache.get(e.get_id())
        if r is None:
            k = e.decl().kind() if z3.is_app(e) else None
            ch = e.children()
            if k is None or k in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                r = False
            elif k == z3.Z3_OP_MUL:
                r = sum(not _is_numeral(c) for c in ch) <= 1 and all(self.linear(c) for c in ch)
            elif k == z3.Z3_OP_DIV:
                r = _is_numeral(ch[1]) and self.linear(ch[0])
            else:
                r = all(self.linear(c) for c in ch)
            self.lin_cache[e.get_id()] = r
            self.keep.append(e)
        return r

    def solve(self, conds, timeout=None, want_model=False):
        """sat/unsat/unknown of pc & conds."""
        import time
        cons, vs = self.cone(conds)
        t0 = time.time()
        # the linear constraints alone often settle infeasibility
        lin = [e for e in cons if self.linear(e)]
        if lin and len(lin) < len(cons) and all(self.linear(c.e) for c in conds):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*lin)
            for c in conds:
                s.add(c.e)
            if s.check() == z3.unsat:
                self.count("queries")
                self.count("queries_linear")
                self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + time.time() - t0
                return "unsat", None
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout_ms))
        s.set("random_seed", self.stats.get("_seed", 1))
        s.add(*cons)
        for c in conds:
            s.add(c.e)
        r = s.check()
        if r == z3.unknown:
            self.count("queries_retried")
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            s2.set("timeout", int(timeout or self.timeout_ms))
            s2.add(*cons)
            for c in conds:
                s2.add(c.e)
            try:
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                r = z3.unknown
        dt = time.time() - t0
        self.count("queries")
        self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + dt
        if dt > self.stats.get("max_query_s", 0.0):
            self.stats["max_query_s"] = dt
        if r == z3.sat:
            return "sat", s.model() if want_model else None
        if r == z3.unsat:
            return "unsat", None
        return "unknown", None

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if self.guided:
            return bool(c.c)
        s = z3.simplify(c.e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        sid = s.get_id()
        if sid in self.known:
            return self.known[sid]
        self.keep.append(s)
        if self.pos < len(self.prefix):
            d, free = self.prefix[self.pos]
            self.pos += 1
        else:
            ms = self.opt.get("branch_ms")
            rt, _ = self.solve([c], ms)
            nc = b_not(c)
            if rt == "unsat":
                d, free = False, False
            else:
                rf, _ = self.solve([nc], ms)
                if rf == "unsat":
                    d, free = True, False
                else:
                    d, free = True, True
                    if rt == "unknown" or rf == "unknown":
                        self.count("feasibility_unknown")
                        if ms and not (self.linear(c.e) and all(self.atoms[i].kind in ("in", "lsq") for i in c.vs)):
                            free = None     # either way, without the hard condition (over-approximation)
                    self.pending.append(self.trace + [(False, free)])
            self.pos += 1
        self.trace.append((d, free))
        self.count("branches")
        cc = c if d else b_not(c)
        if free:
            self.pc.append(cc)
        self.known[sid] = d
        n = z3.simplify(z3.Not(s))
        self.keep.append(n)
        self.known[n.get_id()] = not d
        return d

    def assume(self, c):
        c = as_bool(c)
        if c is True:
            return
        if c is False:
            raise PathAbort("assumption")
        if self.guided:
            if not c.c:
                raise PathAbort("assumption")
            return
        r, _ = self.solve([c])
        if r == "unsat":
            raise PathAbort("assumption")
        self.pc.append(c)

    def concretize(self, s, limit=200):
        """fork over the possible integer values of s"""
        if not isinstance(s, Sym):
            return int(s)
        if s.is_const():
            return int(s.num.cval())
        if self.guided:
            v = s.val()
            return int(round(v))
        for _ in range(limit):
            # replay: the value chosen is part of the decision, so derive it deterministically
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if isinstance(d[0], tuple):
                    v = d[0][1]
                    self.pos += 1
                    self.trace.append(d)
                    if d[0][0]:
                        self.pc.append(s == v)
                        self.fix(s, v)
                        return v
                    self.pc.append(s != v)
                    continue
            lo, hi = s.bounds()
            cond = SymBool(z3.BoolVal(True), s.vs())
            r, m = self.solve([cond], want_model=True)
            if r != "sat":
                raise Inconclusive(f"cannot concretise ({r})")
            mv = m.eval(s.num.z3(), model_completion=True) if not s.den else m.eval(s.z3(), model_completion=True)
            fr = _model_frac(mv)
            if fr.denominator != 1:
                raise Unsupported("non-integer used as an index")
            v = int(fr)
            eq = s == v
            if isinstance(eq, bool):
                return v
            r2, _ = self.solve([b_not(eq)])
            self.pos += 1
            if r2 == "unsat":
                self.trace.append(((True, v), False))
                self.pc.append(eq)
                self.fix(s, v)
                return v
            self.pending.append(self.trace + [((False, v), True)])
            self.trace.append(((True, v), True))
            self.pc.append(eq)
            self.fix(s, v)
            self.count("branches")
            return v
        raise Inconclusive("too many values to concretise")

    def fix(self, s, v):
        """remember that the path fixes s, so divisions by it stay linear"""
        if s.den:
            return
        k, a, b = _affine_key(s.num)
        if k:
            self.fixed[k] = (Fraction(v) - b) / a

    def fixed_value(self, s):
        if not self.fixed or s.den:
            return None
        k, a, b = _affine_key(s.num)
        v = self.fixed.get(k)
        return None if v is None else a * v + b


def _affine_key(p):
    """p = a*q + b with q free of a constant term and leading coefficient one; key of q, a, b"""
    b = p.t.get((), Fraction(0))
    ts = sorted((m, c) for m, c in p.t.items() if m != ())
    if not ts:
        return None, 1, b
    a = ts[0][1]
    return tuple((m, c / a) for m, c in ts), a, b


def _ang_add(a, b):
    return a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]


def _val(x):
    return x.val() if isinstance(x, Sym) else float(x)


def _is_float(c):
    return Fraction(float(c)) == c


def _sos(p):
    """syntactically non-negative"""
    atoms = CTX.atoms
    for m, c in p.t.items():
        if c < 0:
            return False
        for i, e in m:
            if e % 2 and not (atoms[i].lo is not None and atoms[i].lo >= 0):
                return False
    return True


def _model_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Inconclusive(f"model value {v}")


_install_array_ops()
