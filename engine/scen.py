"""Scenario contexts: the same scenario function runs symbolically (solver), guided
(symbolic engine on one concrete assignment, for translator validation) and
concretely (the real package, for replay)."""
import importlib
import math
import random
import sys
from fractions import Fraction

import numpy as np
import z3

from . import core, loader, npshim
from .core import (CheckFailed, Inconclusive, PathAbort, Sym, SymBool, SymC, Unsupported, as_bool, b_all, b_and, b_not,
                   lift, norm_scalar)

TOL = 1e-6


class Violation(Exception):
    """concrete mode: a claim of the scenario does not hold"""

    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Skip(Exception):
    """concrete mode: the inputs do not satisfy an assumption of the scenario"""


def flat(x):
    """flatten nested lists/arrays into a list of scalars"""
    if isinstance(x, npshim.SymArray):
        return [norm_scalar(e) for e in x.view(np.ndarray).ravel()]
    if isinstance(x, np.ndarray):
        return [norm_scalar(e) for e in x.ravel()]
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r += flat(e)
        return r
    return [norm_scalar(x)]


def shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if len(x) else ())
    return ()


class Base:
    sym = False

    def __init__(self):
        self.obs = []
        self.labels = set()

    def observe(self, label, *vals):
        for v in vals:
            for e in flat(v):
                self.obs.append((label, e))

    def draws(self):
        """random draws made so far, in order"""
        return list(self.opt.get("_draws", []))

    def stub(self, path, fn):
        """context manager: every reference the package holds to path is replaced by fn"""
        return Stubbed(self._modules, self.get(path), fn)

    # derived claims shared by both modes
    def close_list(self, xs):
        return flat(xs)

    def same_shape(self, a, shape, label):
        self.true(tuple(shape_of(a)) == tuple(shape), label + ":shape")

    def reals(self, name, n, lo=None, hi=None):
        if isinstance(n, tuple):
            r = [[self.real(f"{name}_{i}_{j}", lo, hi) for j in range(n[1])] for i in range(n[0])]
        else:
            r = [self.real(f"{name}_{i}", lo, hi) for i in range(n)]
        return self.np.array(r)

    def ints(self, name, n, lo, hi):
        return self.np.array([self.int(f"{name}_{i}", lo, hi) for i in range(n)])

    def bits(self, name, shape):
        if isinstance(shape, tuple):
            return self.np.array([[self.int(f"{name}_{i}_{j}", 0, 1) for j in range(shape[1])] for i in range(shape[0])])
        return self.np.array([self.int(f"{name}_{i}", 0, 1) for i in range(shape)])

    def finite(self, x, label):
        for e in flat(x):
            if not isinstance(e, (Sym, SymC, SymBool)):
                if isinstance(e, complex):
                    ok = math.isfinite(e.real) and math.isfinite(e.imag)
                else:
                    ok = math.isfinite(e)
                if not ok:
                    self.true(False, label + ":finite")


class Stubbed:
    def __init__(self, modules, old, new):
        self.modules, self.old, self.new, self.undo = modules, old, new, []

    def __enter__(self):
        for m in list(self.modules()):
            for k, v in list(vars(m).items()):
                if v is self.old:
                    self.undo.append((m, k))
                    setattr(m, k, self.new)
        return self

    def __exit__(self, *a):
        for m, k in self.undo:
            setattr(m, k, self.old)
        return False


class SymS(Base):
    """symbolic (and guided) mode"""
    sym = True

    def _modules(self):
        return self.pkg.mods.values()

    def __init__(self, ctx, pkg):
        super().__init__()
        self.c = ctx
        self.pkg = pkg
        self.np = npshim.npmod
        self.math = npshim.mathmod
        self.guided = ctx.guided
        self.claims = 0
        self.cex = None
        self.opt = ctx.opt

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        return self.c.input_real(name, lo, hi)

    def int(self, name, lo, hi):
        return self.c.input_real(name, lo, hi, isint=True)

    def bool(self, name):
        return self.c.input_bool(name)

    def get(self, path):
        return self.pkg.get(path)

    def rng(self):
        return npshim.SymGenerator()

    def array(self, x):
        return npshim.np_array(x)

    # ---- logic
    def all(self, *xs):
        return b_all([e for x in xs for e in flat(x)])

    def any(self, *xs):
        return core.b_any([e for x in xs for e in flat(x)])

    def Not(self, x):
        return b_not(x)

    def Implies(self, a, b):
        return core.b_or(b_not(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def assume(self, *conds):
        self.c.assume(b_all([e for x in conds for e in flat(x)]))

    def holds(self, c):
        """fork on a condition"""
        c = as_bool(c)
        return c if isinstance(c, bool) else self.c.branch(c)

    def surely(self, c, ms=3000):
        """True when the condition is shown to hold on the whole path"""
        c = as_bool(c)
        if isinstance(c, bool):
            return c
        if self.c.guided:
            return bool(c.c)
        return self.c.solve([b_not(c)], ms)[0] == "unsat"

    def surely_zero(self, x, tol, eqs=True):
        """True when |x| <= tol is shown for the whole path by linear reasoning over monomials"""
        if not isinstance(x, Sym):
            return abs(float(x)) <= tol
        if self.c.guided:
            return abs(x.val()) <= tol
        return self._relaxed_unsat(x, tol, eqs)

    def conc(self, x):
        """integer value, forking over the possibilities"""
        x = norm_scalar(x)
        return self.c.concretize(x) if isinstance(x, Sym) else int(x)

    def abs(self, x):
        return core.s_abs(x)

    def raises(self, exc, label, fn, *a, **k):
        try:
            fn(*a, **k)
        except (Unsupported, Inconclusive):
            raise
        except exc as e:
            self.true(True, label)
            return e
        except Exception as e:
            self.true(False, label, f"raised {type(e).__name__}")
            return None
        self.true(False, label, "no exception")

    # ---- claims
    def true(self, cond, label, detail=""):
        self.labels.add(label)
        self.claims += 1
        conds = [as_bool(e) for e in flat(cond)]
        if self.guided:
            for c in conds:
                self.obs.append((label, 1.0 if (c if isinstance(c, bool) else c.c) else 0.0))
            return
        self._decide([(c, None, None) for c in conds], label)

    def _terms(self, a, b, label):
        fa, fb = flat(a), flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.true(False, label + ":length")
        out = []
        for x, y in zip(fa, fb):
            if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
                x, y = SymC.of(x), SymC.of(y)
                out += [(x.re, y.re), (x.im, y.im)]
            else:
                x = x.ind() if isinstance(x, SymBool) else x
                y = y.ind() if isinstance(y, SymBool) else y
                out.append((x, y))
        return out

    def eq(self, a, b, label, tol=TOL, scale=1.0):
        """|a-b| <= tol*scale, elementwise"""
        self.labels.add(label)
        self.claims += 1
        terms = self._terms(a, b, label)
        if self.guided:
            for x, y in terms:
                self.obs += [(label, _num(x)), (label, _num(y))]
            return
        lim = scale * tol if isinstance(scale, Sym) else float(scale) * tol
        conds, norm = [], []
        for x, y in terms:
            nx = not isinstance(x, Sym)
            ny = not isinstance(y, Sym)
            if nx and ny:
                if isinstance(x, float) and x != x or isinstance(y, float) and y != y:
                    conds.append((x != x and y != y, None, None))
                    continue
                if isinstance(x, float) and math.isinf(x) or isinstance(y, float) and math.isinf(y):
                    conds.append((x == y, None, None))
                    continue
            elif nx and isinstance(x, float) and not math.isfinite(x) or ny and isinstance(y, float) and not math.isfinite(y):
                conds.append((False, None, None))
                continue
            d = x - y
            if _rounding(x, y, d):
                conds.append((True, None, None))
                continue
            conds.append(self._band(d, lim))
            if conds[-1][0] is True:
                norm.append((x, y))
        done = self._residual(norm, lim)
        self.c.count("claims_solver", done)
        self.c.count("claims_normalised", -done)
        self._decide(conds, label)

    def _residual(self, pairs, lim):
        """solver query for claims whose difference already normalised to a constant"""
        if not pairs:
            return 0
        import time
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 1000)
        L = lim.z3() if isinstance(lim, Sym) else core._rat_z3(Fraction(lim))
        bad = []
        for x, y in pairs:
            for v in (x, y):
                if isinstance(v, Sym) and sum(10 * len(f.t) for f, _ in v.den) + len(v.num.t) > 300:
                    return 0
            e = core.lift(x).z3() - core.lift(y).z3()
            bad.append(z3.Or(e > L, e < -L))
        s.add(z3.Or(*bad))
        if isinstance(lim, Sym):
            s.add(L >= 0)
        for x, y in pairs:
            for v in (x, y):
                if isinstance(v, Sym):
                    for f, _ in v.den:
                        s.add(f.z3() != 0)
        t0 = time.time()
        r = s.check()
        self.c.count("queries")
        self.c.stats["solver_s"] = self.c.stats.get("solver_s", 0.0) + time.time() - t0
        return len(pairs) if r == z3.unsat else 0

    def _band(self, d, lim):
        """claim -lim <= d <= lim as (SymBool, relaxation pair, wide)"""
        if not isinstance(d, Sym) and not isinstance(lim, Sym):
            d = float(d)
            return (abs(d) <= lim, None, None)
        up, lo = d - lim, d + lim
        c1 = up <= 0 if isinstance(up, Sym) else up <= 0
        c2 = lo >= 0 if isinstance(lo, Sym) else lo >= 0
        cond = b_and(c1, c2)
        wide = None
        if not isinstance(lim, Sym):
            w = lim * 1000
            u2, l2 = d - w, d + w
            wide = b_and(u2 <= 0, l2 >= 0)
        return (cond, (d, lim), wide)

    def le(self, a, b, label, tol=TOL, scale=1.0):
        self.labels.add(label)
        self.claims += 1
        terms = self._terms(a, b, label)
        if self.guided:
            for x, y in terms:
                self.obs += [(label, _num(x)), (label, _num(y))]
            return
        lim = scale * tol if isinstance(scale, Sym) else float(scale) * tol
        conds = []
        for x, y in terms:
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                conds.append((bool(x <= y + lim) if not isinstance(lim, Sym) else True, None, None))
                continue
            for v in (x, y):
                if not isinstance(v, Sym) and isinstance(v, float) and not math.isfinite(v):
                    break
            else:
                d = x - y
                c = d - lim <= 0
                w = None if isinstance(lim, Sym) else (d - lim * 1000 <= 0)
                conds.append((c, None, w))
                continue
            conds.append((x <= y, None, None))
        self._decide(conds, label)

    def ge(self, a, b, label, tol=TOL, scale=1.0):
        self.le(b, a, label, tol, scale)

    def _decide(self, conds, label):
        """one query for the conjunction; falls back to one per conjunct"""
        c = self.c
        stats = c.stats
        live = []
        for cond, relax, wide in conds:
            if cond is True:
                c.count("claims_normalised")
                continue
            if cond is False:
                r, m = c.solve([SymBool(z3.BoolVal(True), frozenset(a.i for _, a in c.inputs))], want_model=True)
                if r == "unsat":
                    raise PathAbort("infeasible")
                if r != "sat":
                    m = None
                self._fail(label, b_not(True), None, m)
            if relax is not None and self._relaxed_unsat(*relax):
                c.count("claims_linear_relaxation")
                continue
            live.append((cond, wide))
        c.count("claims", len(conds))
        if not live:
            return
        neg = b_not(b_all([x for x, _ in live]))
        r, m = c.solve([neg], want_model=True)
        if r == "unsat":
            c.count("claims_solver", len(live))
            return
        if r == "unknown" and len(live) > 1:
            for cond, wide in live:
                nc = b_not(cond)
                r, m = c.solve([nc], want_model=True)
                if r == "sat":
                    self._fail(label, nc, wide, m)
                if r == "unknown":
                    self._search(label, nc, wide)
                    c.count("claims_unknown")
                    stats.setdefault("unknown_labels", []).append(label)
                    raise Inconclusive(f"solver gave no answer for {label}")
                c.count("claims_solver")
            return
        if r == "unknown":
            self._search(label, neg, None)
            stats.setdefault("unknown_labels", []).append(label)
            raise Inconclusive(f"solver gave no answer for {label}")
        wides = [w for _, w in live]
        wide = b_all(wides) if all(w is not None for w in wides) else None
        self._fail(label, neg, wide, m)

    def _relaxed_unsat(self, d, lim, use=True):
        """non-linear monomials as bounded fresh variables: linear query"""
        if isinstance(lim, Sym) or not isinstance(d, Sym):
            return False
        eqs = self.c.equations if use else ()
        for f, e in d.den:
            lo, hi = f.bounds()
            if not self.c.equations or not (lo > 0 or hi < 0):
                return False
            lim *= min(abs(lo), abs(hi)) ** e
        p = d.num
        monos, cons = {}, []

        def lin(q):
            terms = []
            for m, cf in q.t.items():
                if not m:
                    terms.append(core._rat_z3(cf))
                    continue
                v = monos.get(m)
                if v is None:
                    lo, hi = core.Poly({m: Fraction(1)}).bounds()
                    v = monos[m] = z3.Real(f"mono!{len(monos)}")
                    if not eqs and not (math.isfinite(lo) and math.isfinite(hi)):
                        return None
                    if math.isfinite(lo):
                        cons.append(v >= core._rat_z3(Fraction(lo)))
                    if math.isfinite(hi):
                        cons.append(v <= core._rat_z3(Fraction(hi)))
                terms.append(core._rat_z3(cf) * v)
            return terms
        terms = lin(p)
        if terms is None:
            return False
        pm = set(p.t)
        for g in eqs:
            if pm & set(g.t):
                cons.append(z3.Sum(*lin(g)) == 0)
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 2000)
        s.add(*cons)
        e = z3.Sum(*terms) if len(terms) > 1 else terms[0]
        L = core._rat_z3(Fraction(lim))
        s.add(z3.Or(e > L, e < -L))
        import time
        t0 = time.time()
        r = s.check()
        self.c.count("queries")
        self.c.stats["solver_s"] = self.c.stats.get("solver_s", 0.0) + time.time() - t0
        return r == z3.unsat

    def _search(self, label, neg, wide):
        """the solver gave no answer: look for a counterexample with most inputs fixed (never used to conclude that a claim holds)"""
        c = self.c
        rnd = random.Random(len(c.inputs) * 31 + len(label))
        found = []
        for k in range(24):
            free = set(rnd.sample(range(len(c.inputs)), min(len(c.inputs), (2, 1, 0)[k % 3])))
            fix = []
            for j, (name, a) in enumerate(c.inputs):
                if j in free:
                    continue
                lo = -4.0 if a.lo is None else a.lo
                hi = 4.0 if a.hi is None else a.hi
                if k < 6 and hi - lo > 16:
                    lo, hi = max(lo, -8.0), min(hi, 8.0) if hi > 0 else hi
                if a.isint:
                    fix.append(a.zv == rnd.randint(math.ceil(lo), max(math.ceil(lo), math.floor(hi))))
                else:
                    v = Fraction(round(rnd.uniform(lo, hi) * 64), 64)
                    v = min(max(v, Fraction(lo)), Fraction(hi))
                    fix.append(a.zr == core._rat_z3(v))
            allv = SymBool(z3.BoolVal(True), frozenset(a.i for _, a in c.inputs))
            r, m = c.solve([allv, neg] + [SymBool(e, frozenset()) for e in fix], timeout=1500, want_model=True)
            if r == "sat":
                d = {name: core._model_frac(m.eval(a.zv, model_completion=True)) for name, a in c.inputs}
                found.append(d)
                if len(found) >= 3:
                    break
        if found:
            self.cex = (label, found)
            raise CheckFailed(label)

    def _fail(self, label, neg, wide, model):
        """collect candidate models for the counterexample"""
        c = self.c
        cands = []
        ins = c.inputs

        def extract(m):
            d = {}
            for name, a in ins:
                v = m.eval(a.zv, model_completion=True)
                d[name] = core._model_frac(v)
            return d

        def completed(m):
            # variables outside the cone are unconstrained by the query: re-solve with everything
            return extract(m)
        allv = SymBool(z3.BoolVal(True), frozenset(a.i for _, a in ins))
        base = [neg] if isinstance(neg, SymBool) else []
        grid = []
        for name, a in ins:
            if not a.isint:
                k = z3.Int("grid!" + name)
                grid.append(a.zr * 4096 == z3.ToReal(k))
        tries = []
        if wide is not None and isinstance(wide, SymBool):
            tries.append(([b_not(wide)], True))
            tries.append(([b_not(wide)], False))
        tries.append((base, True))
        tries.append((base, False))
        for conds, g in tries:
            extra = [SymBool(e, frozenset()) for e in grid] if g else []
            r, m = c.solve([allv] + conds + extra, timeout=4000 if g else 15000, want_model=True)
            if r == "sat":
                cands.append(extract(m))
            if len(cands) >= 3:
                break
        if model is not None:
            cands.append(extract(model))
        self.cex = (label, cands)
        raise CheckFailed(label)


def _num(x):
    if isinstance(x, (Sym, SymBool)):
        return x.val() if isinstance(x, Sym) else (1.0 if x.c else 0.0)
    return float(x)


def _rounding(x, y, d):
    """every coefficient of the difference is the rounding (1e-12 of the term) of a constant"""
    if not (isinstance(x, Sym) and isinstance(y, Sym) and isinstance(d, Sym)):
        return False
    den = [sorted((f.key(), e) for f, e in v.den) for v in (x, y, d)]
    if den[0] != den[1] or den[0] != den[2]:
        return False
    a, b = x.num.t, y.num.t
    return all(m in a and m in b and abs(c) * 10 ** 12 <= abs(a[m]) for m, c in d.num.t.items())


class ConcS(Base):
    """concrete mode: real package, real numpy"""

    def __init__(self, inputs, collect_only=False):
        super().__init__()
        self.inputs = inputs
        self.np = np
        self.math = math
        self.collect_only = collect_only
        self.opt = {}
        self.guided = False
        self.rngn = 0

    def _modules(self):
        return [m for n, m in sys.modules.items() if n.partition(".")[0] == "adctoolbox" and m is not None]

    def real(self, name, lo=None, hi=None):
        v = float(self.inputs[name])
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return np.float64(v)

    def int(self, name, lo, hi):
        return int(round(float(self.inputs[name])))

    def bool(self, name):
        return bool(round(float(self.inputs[name])))

    def get(self, path):
        mod, _, attr = path.partition(":")
        m = importlib.import_module(mod)
        if attr:
            for p in attr.split("."):
                m = getattr(m, p)
        return m

    def rng(self):
        return RecordedGen(self)

    def array(self, x):
        return np.array(x)

    def all(self, *xs):
        return all(bool(e) for x in xs for e in flat(x))

    def any(self, *xs):
        return any(bool(e) for x in xs for e in flat(x))

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def conc(self, x):
        return int(x)

    def abs(self, x):
        return abs(x)

    def assume(self, *conds):
        if not self.all(*conds):
            raise Skip()

    def holds(self, c):
        return bool(c)

    def surely(self, c, ms=3000):
        return bool(c)

    def surely_zero(self, x, tol, eqs=True):
        return abs(float(x)) <= tol

    def raises(self, exc, label, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc as e:
            self.true(True, label)
            return e
        except Exception as e:
            self.true(False, label, f"raised {type(e).__name__}: {e}")
            return None
        self.true(False, label, "no exception raised")

    def true(self, cond, label, detail=""):
        self.labels.add(label)
        for e in flat(cond):
            self.obs.append((label, 1.0 if e else 0.0))
            if not e and not self.collect_only:
                raise Violation(label, detail)

    def _terms(self, a, b, label):
        fa, fb = flat(a), flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.true(False, label + ":length", f"{len(fa)} vs {len(fb)}")
        out = []
        for x, y in zip(fa, fb):
            if isinstance(x, complex) or isinstance(y, complex):
                x, y = complex(x), complex(y)
                out += [(x.real, y.real), (x.imag, y.imag)]
            else:
                out.append((float(x), float(y)))
        return out

    def eq(self, a, b, label, tol=TOL, scale=1.0):
        self.labels.add(label)
        lim = 0.5 * tol * float(scale)
        for x, y in self._terms(a, b, label):
            self.obs += [(label, x), (label, y)]
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= lim and not self.collect_only:
                raise Violation(label, f"{x!r} vs expected {y!r} (tolerance {lim:.3g})")

    def le(self, a, b, label, tol=TOL, scale=1.0):
        self.labels.add(label)
        lim = 0.5 * tol * float(scale)
        for x, y in self._terms(a, b, label):
            self.obs += [(label, x), (label, y)]
            if not x <= y + lim and not self.collect_only:
                raise Violation(label, f"{x!r} not <= {y!r}")

    def ge(self, a, b, label, tol=TOL, scale=1.0):
        self.le(b, a, label, tol, scale)


class RecordedGen(np.random.Generator):
    """numpy Generator returning the draws of the counterexample"""

    def __new__(cls, s):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, s):
        super().__init__(np.random.PCG64(0))
        self._s = s

    def _draw(self, kind, size):
        s = self._s

        def one():
            n = s.rngn
            s.rngn += 1
            v = float(s.inputs.get(f"rng_{kind}{n}", 0.25))
            s.opt.setdefault("_draws", []).append(v)
            return v
        if size is None or size == ():
            return one()
        shape = size if isinstance(size, tuple) else (int(size),)
        r = np.empty(shape)
        for i in np.ndindex(shape):
            r[i] = one()
        return r

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._draw("n", size)

    def randn(self, *shape):
        return self._draw("n", shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return self._draw("n", size) * scale + loc

    def random(self, size=None, **k):
        return self._draw("u", size)

    def rand(self, *shape):
        return self._draw("u", shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw("u", size) * (high - low) + low


class patched_rng:
    """np.random module functions replaced by the recorded draws (replay only)"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        g = RecordedGen(self.s)
        self.old = {}
        new = {"randn": g.randn, "normal": g.normal, "rand": g.rand, "uniform": g.uniform,
               "standard_normal": g.standard_normal, "random": g.random,
               "default_rng": lambda seed=None: seed if isinstance(seed, np.random.Generator) else g,
               "seed": lambda *a, **k: None}
        for k, v in new.items():
            self.old[k] = getattr(np.random, k)
            setattr(np.random, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)
        return False
