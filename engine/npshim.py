"""numpy / scipy / math / random stand-ins that compute on symbolic scalars.

Arrays are `SymArray`: numpy object arrays whose elements are python numbers or
the symbolic scalars of core.py.  Everything structural (reshape, slicing, roll,
concatenate, matmul, ...) is done by numpy itself on the object array; the
element operations and reductions are given symbolic meaning here.  A function
that is not listed runs on the real numpy when all its arguments are concrete and
is reported as unsupported otherwise.
"""
import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (Sym, SymBool, SymC, Unsupported, as_bool, b_all, b_and, b_any, b_not, b_or,
                   ite, lift, norm_scalar, s_abs, s_arctan2, s_ceil, s_cos, s_exp, s_floor,
                   s_log, s_log10, s_log2, s_max, s_min, s_round, s_sin, s_sqrt, s_trunc, pow_any)

SYMS = (Sym, SymBool, SymC)
_ND = np.ndarray


def ctx():
    return core.CTX


def is_sym(x):
    return isinstance(x, SYMS)


# ------------------------------------------------------------------ kinds / dtypes

_KIND = {"f": np.dtype(float), "i": np.dtype(np.int64), "b": np.dtype(bool), "c": np.dtype(complex),
         "O": np.dtype(object), "u": np.dtype(np.int64)}


def dt_kind(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt == "object" or dt is object:
        return "O"
    base = getattr(dt, "_base", None)
    if base is not None:
        dt = base
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return None
    return {"u": "i"}.get(k, k)


def scalar_kind(e):
    if isinstance(e, (bool, SymBool, np.bool_)):
        return "b"
    if isinstance(e, (int, np.integer)):
        return "i"
    if isinstance(e, Sym):
        return "i" if e.isint else "f"
    if isinstance(e, (SymC, complex, np.complexfloating)):
        return "c"
    if isinstance(e, (float, Fraction, np.floating)):
        return "f"
    return "O"


_ORDER = "bifcO"


def infer_kind(a):
    k = -1
    for e in a.view(_ND).ravel():
        j = _ORDER.index(scalar_kind(e))
        if j > k:
            k = j
            if k >= 4:
                break
    return "f" if k < 0 else _ORDER[k]


def cast_scalar(x, dt):
    return _cast(norm_scalar(x), dt_kind(dt))


def _cast(x, k):
    if k == "f":
        if isinstance(x, SymBool):
            return x.ind()
        if isinstance(x, SymC):
            return x.re
        if isinstance(x, complex):
            return x.real
        if isinstance(x, (int, bool)):
            return float(x)
        return x
    if k == "i":
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, SymBool):
            return x.ind()
        if isinstance(x, (Sym, float, Fraction)):
            if isinstance(x, float) and not math.isfinite(x):
                return -9223372036854775808
            return s_trunc(x)
        return x
    if k == "b":
        return as_bool(x)
    if k == "c":
        if isinstance(x, (SymC, complex)):
            return x
        if isinstance(x, SymBool):
            x = x.ind()
        if isinstance(x, Sym):
            return SymC(x, 0.0)
        return complex(x)
    return x


def out_scalar(x):
    if type(x) is float:
        return np.float64(x)
    if type(x) is bool:
        return np.bool_(x)
    if type(x) is Fraction:
        return np.float64(float(x))
    if type(x) is complex:
        return np.complex128(x)
    return x


def _o(x):
    """object ndarray (base class) from anything array-like, elements normalised"""
    if isinstance(x, SymArray):
        return x.view(_ND)
    if isinstance(x, _ND):
        if x.dtype == object:
            return x
        if x.dtype.kind in "US":
            return x
        return x.astype(object)
    if is_sym(x) or isinstance(x, (int, float, complex, bool, Fraction)):
        r = np.empty((), dtype=object)
        r[()] = norm_scalar(x)
        return r
    if isinstance(x, (np.generic,)):
        r = np.empty((), dtype=object)
        r[()] = x.item()
        return r
    if isinstance(x, (list, tuple, range)):
        lst = [(_o(e) if isinstance(e, (list, tuple, range, _ND)) else e) for e in x]
        if any(isinstance(e, _ND) for e in lst):
            arrs = [e if isinstance(e, _ND) else _o(e) for e in lst]
            if any(a.dtype != object for a in arrs):
                return np.array(x, dtype=object)
            shp = {a.shape for a in arrs}
            if len(shp) > 1:
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape after 1 dimensions.")
            r = np.empty((len(arrs),) + arrs[0].shape, dtype=object)
            for i, a in enumerate(arrs):
                r[i] = a if a.ndim else a[()]
            return r
        r = np.empty(len(lst), dtype=object)
        for i, e in enumerate(lst):
            r[i] = norm_scalar(e)
        return r
    if hasattr(x, "__array__"):
        return np.asarray(x).astype(object)
    r = np.asarray(x, dtype=object)
    return r


def W(a, ld=None):
    """wrap an object ndarray as SymArray"""
    if not isinstance(a, _ND):
        return a
    if a.dtype != object:
        if a.dtype.kind in "fiubc":
            ld = ld or {"u": "i"}.get(a.dtype.kind, a.dtype.kind)
            a = a.astype(object)
        else:
            return a
    r = a.view(SymArray)
    r._ld = ld
    return r


def wrap_out(r):
    if isinstance(r, tuple):
        if hasattr(r, "_fields"):
            return type(r)(*[wrap_out(e) for e in r])
        return tuple(wrap_out(e) for e in r)
    if isinstance(r, list):
        return [wrap_out(e) for e in r]
    if isinstance(r, SymArray):
        return r
    if isinstance(r, _ND):
        if r.ndim == 0:
            return out_scalar(norm_scalar(r.item())) if r.dtype == object else W(r)
        return W(r)
    return r


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, _ND):
        if x.dtype != object if type(x) is _ND else x.view(_ND).dtype != object:
            return False
        return any(is_sym(e) for e in x.view(_ND).ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    return False


def native(x):
    """concrete SymArray -> real numpy array (recursively)"""
    if isinstance(x, SymArray):
        k = x.kind()
        b = x.view(_ND)
        if k == "O":
            return b
        return b.astype(_KIND[k])
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, list):
        return [native(e) for e in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(native(e) for e in x)
    if isinstance(x, dict):
        return {k: native(v) for k, v in x.items()}
    base = getattr(x, "_base", None)
    if base is not None and isinstance(x, type):
        return base
    return x


def s_div(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if is_sym(a) or is_sym(b):
        if isinstance(a, bool):
            a = int(a)
        return a / b
    if b == 0:
        if isinstance(a, complex):
            return complex(math.nan, math.nan)
        if a != a or a == 0:
            return math.nan
        neg = (a < 0) != (math.copysign(1, b) < 0 if isinstance(b, float) else False)
        return -math.inf if neg else math.inf
    return a / b


def s_floordiv(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if is_sym(a) or is_sym(b):
        return s_floor(s_div(a, b))
    if b == 0:
        return s_div(a, b)
    return a // b


def s_mod(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if is_sym(a) or is_sym(b):
        return lift(a) % b if not isinstance(a, Sym) else a % b
    if b == 0:
        return math.nan
    return a % b


def s_fmod(a, b):
    q = s_trunc(s_div(a, b))
    return a - q * b


def s_pow(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if is_sym(a):
        return a ** b
    if is_sym(b):
        return pow_any(a, b)
    if isinstance(a, complex) or isinstance(b, complex):
        return a ** b
    if a == 0 and b < 0:
        return math.inf
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        raise ValueError("Integers to negative integer powers are not allowed.")
    if a < 0 and not float(b).is_integer():
        return math.nan
    try:
        return a ** b
    except OverflowError:
        return math.inf


def s_sign(x):
    x = norm_scalar(x)
    if isinstance(x, Sym):
        return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
    if x != x:
        return x
    return type(x)((x > 0) - (x < 0)) if not isinstance(x, bool) else int(x)


def s_isfinite(x):
    x = norm_scalar(x)
    if is_sym(x):
        if isinstance(x, SymC):
            return bool(s_isfinite(x.re)) and bool(s_isfinite(x.im))
        return True
    if isinstance(x, complex):
        return math.isfinite(x.real) and math.isfinite(x.imag)
    return math.isfinite(x)


def s_isnan(x):
    x = norm_scalar(x)
    if is_sym(x):
        if isinstance(x, SymC):
            return bool(s_isnan(x.re)) or bool(s_isnan(x.im))
        return False
    return x != x


def s_isinf(x):
    x = norm_scalar(x)
    if is_sym(x):
        return False
    if isinstance(x, complex):
        return math.isinf(x.real) or math.isinf(x.imag)
    return math.isinf(x)


def s_cmp(op):
    def f(a, b):
        a, b = norm_scalar(a), norm_scalar(b)
        r = op(a, b)
        return bool(r) if isinstance(r, np.bool_) else r
    return f


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_conj(x):
    x = norm_scalar(x)
    return x.conjugate()


def s_real(x):
    x = norm_scalar(x)
    return x.real


def s_imag(x):
    x = norm_scalar(x)
    return x.imag


def s_angle(x):
    x = norm_scalar(x)
    return s_arctan2(x.imag, x.real)


def s_complexsafe(f, cf):
    def g(x):
        x = norm_scalar(x)
        if isinstance(x, complex):
            return cf(x)
        return f(x)
    return g


def s_arctan(x):
    return s_arctan2(x, 1.0)


def s_tan(x):
    return s_div(s_sin(x), s_cos(x))


def _asin(x):
    x = norm_scalar(x)
    if is_sym(x):
        return s_arctan2(x, s_sqrt(1 - x * x))
    return math.asin(x) if -1 <= x <= 1 else math.nan


def _acos(x):
    x = norm_scalar(x)
    if is_sym(x):
        return ctx_acos(x)
    return math.acos(x) if -1 <= x <= 1 else math.nan


def ctx_acos(x):
    return s_arctan2(s_sqrt(1 - x * x), x)


def s_sinc(x):
    x = norm_scalar(x)
    if is_sym(x):
        if bool(x == 0):
            return 1.0
        return s_sin(x * math.pi) / (x * math.pi)
    return float(np.sinc(x))


def s_exp_any(x):
    x = norm_scalar(x)
    if isinstance(x, (int, float, Fraction)):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf
    if isinstance(x, complex):
        m = math.exp(x.real)
        return complex(m * s_cos(x.imag), m * s_sin(x.imag))
    return s_exp(x)


def s_tanh(x):
    x = norm_scalar(x)
    if is_sym(x):
        raise Unsupported("tanh")
    return math.tanh(x)


def s_square(x):
    return x * x


def s_add(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return b_or(a, b)
    return a + b


def s_mul(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return b_and(a, b)
    if isinstance(b, SymBool) and isinstance(a, (Sym, SymC)):
        return b * a
    return a * b


def s_sub(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    return a - b


def s_and(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return b_and(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise & on symbolic integers")
    return a & b


def s_or(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return b_or(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise | on symbolic integers")
    return a | b


def s_xor(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a != b
        return (a ^ b) if isinstance(a, SymBool) else (b ^ a)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise ^ on symbolic integers")
    return a ^ b


def s_inv(a):
    a = norm_scalar(a)
    if isinstance(a, (bool, SymBool)):
        return b_not(a)
    return ~a


def s_lshift(a, b):
    return norm_scalar(a) * 2 ** norm_scalar(b)


def s_rshift(a, b):
    return s_floordiv(a, 2 ** norm_scalar(b))


def s_neg(a):
    return -norm_scalar(a)


def s_nan_to_num(x):
    x = norm_scalar(x)
    return x if is_sym(x) or math.isfinite(x) else 0.0


def s_signbit(x):
    x = norm_scalar(x)
    return x < 0


def _cx1(f):
    return f


import cmath

_log10r, _logr, _log2r = s_log10, s_log, s_log2
UF = {
    "add": (s_add, 2), "subtract": (s_sub, 2), "multiply": (s_mul, 2), "divide": (s_div, 2),
    "true_divide": (s_div, 2), "floor_divide": (s_floordiv, 2), "remainder": (s_mod, 2), "mod": (s_mod, 2),
    "fmod": (s_fmod, 2), "power": (s_pow, 2), "float_power": (s_pow, 2), "negative": (s_neg, 1),
    "positive": (lambda a: a, 1), "absolute": (s_abs, 1), "abs": (s_abs, 1), "fabs": (s_abs, 1), "sign": (s_sign, 1),
    "sqrt": (s_sqrt, 1), "square": (s_square, 1), "reciprocal": (lambda a: s_div(1.0, a), 1),
    "log10": (s_log10, 1), "log": (s_log, 1), "log2": (s_log2, 1), "log1p": (lambda a: s_log(1 + a), 1),
    "exp": (s_exp_any, 1), "exp2": (lambda a: pow_any(2.0, a), 1), "expm1": (lambda a: s_exp_any(a) - 1, 1),
    "sin": (s_sin, 1), "cos": (s_cos, 1), "tan": (s_tan, 1), "arctan2": (s_arctan2, 2), "arctan": (s_arctan, 1),
    "arcsin": (_asin, 1), "arccos": (_acos, 1), "tanh": (s_tanh, 1), "hypot": (s_hypot, 2),
    "atan2": (s_arctan2, 2), "acos": (_acos, 1), "asin": (_asin, 1), "atan": (s_arctan, 1), "pow": (s_pow, 2),
    "floor": (lambda a: _fl(s_floor(a)), 1), "ceil": (lambda a: _fl(s_ceil(a)), 1),
    "trunc": (lambda a: _fl(s_trunc(a)), 1), "rint": (lambda a: _fl(s_round(a)), 1),
    "maximum": (s_max, 2), "minimum": (s_min, 2), "fmax": (s_max, 2), "fmin": (s_min, 2),
    "greater": (s_cmp(operator.gt), 2), "greater_equal": (s_cmp(operator.ge), 2),
    "less": (s_cmp(operator.lt), 2), "less_equal": (s_cmp(operator.le), 2),
    "equal": (s_cmp(operator.eq), 2), "not_equal": (s_cmp(operator.ne), 2),
    "logical_and": (lambda a, b: b_and(a, b), 2), "logical_or": (lambda a, b: b_or(a, b), 2),
    "logical_not": (lambda a: b_not(a), 1), "logical_xor": (lambda a, b: s_xor(as_bool(a), as_bool(b)), 2),
    "bitwise_and": (s_and, 2), "bitwise_or": (s_or, 2), "bitwise_xor": (s_xor, 2), "invert": (s_inv, 1),
    "bitwise_not": (s_inv, 1),
    "left_shift": (s_lshift, 2), "right_shift": (s_rshift, 2),
    "isfinite": (s_isfinite, 1), "isnan": (s_isnan, 1), "isinf": (s_isinf, 1), "signbit": (s_signbit, 1),
    "conjugate": (s_conj, 1), "conj": (s_conj, 1),
    "deg2rad": (lambda a: a * (math.pi / 180), 1), "radians": (lambda a: a * (math.pi / 180), 1),
    "rad2deg": (lambda a: a * (180 / math.pi), 1), "degrees": (lambda a: a * (180 / math.pi), 1),
    "copysign": (lambda a, b: ite(lift(b) >= 0, s_abs(a), -s_abs(a)) if is_sym(b) else math.copysign(1, b) * s_abs(a), 2),
    "nextafter": (lambda a, b: a if is_sym(a) else math.nextafter(a, b), 2),
    "cbrt": (lambda a: math.copysign(abs(a) ** (1 / 3), a), 1),
}


def _fl(x):
    return float(x) if isinstance(x, int) and not isinstance(x, bool) else x


def _safe1(f):
    def g(a):
        return f(norm_scalar(a))
    return g


PYF = {}
for _n, (_f, _k) in UF.items():
    PYF[_n] = np.frompyfunc(_safe1(_f) if _k == 1 else _f, _k, 1)


def apply_uf(name, args, out=None, where=True, dtype=None):
    f, k = UF[name]
    if all(not isinstance(a, (_ND, list, tuple, range)) for a in args):
        r = f(*[norm_scalar(a) for a in args])
        r = out_scalar(r)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    r = PYF[name](*[_o(a) for a in args])
    if isinstance(r, _ND):
        for i in np.ndindex(r.shape):       # normalise numpy scalars
            e = r[i]
            if isinstance(e, np.generic):
                r[i] = e.item()
    else:
        r = norm_scalar(r)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if where is True:
                o[...] = W(r) if isinstance(r, _ND) else r
            else:
                o[_bidx(where)] = (W(r)[_bidx(where)] if isinstance(r, _ND) else r)
            return o
    if dtype is not None and isinstance(r, _ND):
        return W(r).astype(dtype)
    return W(r) if isinstance(r, _ND) else out_scalar(r)


def _bidx(w):
    return w


class SymArray(np.ndarray):
    _ld = None
    __array_priority__ = 5000

    def __new__(cls, x):
        return W(np.array(_o(x)))

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", None)

    def kind(self):
        return self._ld or infer_kind(self)

    @property
    def dtype(self):
        return _KIND[self.kind()]

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == "__call__":
            if name in UF:
                return apply_uf(name, inputs, kw.get("out"), kw.get("where", True), kw.get("dtype"))
            if name == "matmul":
                return np_matmul(*inputs)
            if name == "divmod":
                return apply_uf("floor_divide", inputs), apply_uf("mod", inputs)
            if name == "clip":
                return np_clip(*inputs, out=kw.get("out"))
            if any(has_sym(i) for i in inputs):
                raise Unsupported(f"ufunc {name}")
            return wrap_out(getattr(ufunc, method)(*[native(i) for i in inputs]))
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            a = inputs[0]
            if name == "add":
                return np_sum(a, axis=axis, keepdims=keep)
            if name == "multiply":
                return np_prod(a, axis=axis, keepdims=keep)
            if name in ("maximum", "fmax"):
                return np_max(a, axis=axis, keepdims=keep)
            if name in ("minimum", "fmin"):
                return np_min(a, axis=axis, keepdims=keep)
            if name == "logical_and":
                return np_all(a, axis=axis, keepdims=keep)
            if name == "logical_or":
                return np_any(a, axis=axis, keepdims=keep)
        if method == "accumulate":
            return wrap_out(_accumulate(name, inputs[0], kw.get("axis", 0)))
        if method == "outer":
            a, b = _o(inputs[0]), _o(inputs[1])
            return apply_uf(name, (a.reshape(a.shape + (1,) * b.ndim), b))
        if method == "at":
            raise Unsupported("ufunc.at")
        raise Unsupported(f"ufunc {name}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        f = SHIM.get(func.__name__)
        if f is None and func.__module__ and func.__module__.startswith("numpy.linalg"):
            f = getattr(linalg, func.__name__, None)
        if f is None and func.__module__ and "fft" in func.__module__:
            f = getattr(fft, func.__name__, None)
        if f is None:
            f = generic(func)
        return f(*args, **kwargs)

    # ---- indexing
    def __getitem__(self, idx):
        idx = fix_index(idx, self.shape)
        r = self.view(_ND)[idx]
        if isinstance(r, _ND):
            w = r.view(SymArray)
            w._ld = self._ld
            return w
        return out_scalar(r)

    def __setitem__(self, idx, val):
        k = self._ld
        base = self.view(_ND)
        if isinstance(val, (_ND, list, tuple)):
            v = _o(val)
            if k and k != "O":
                v = _castarr(v, k)
            v_scalar = v.ndim == 0
            if v_scalar:
                v = v[()]
        else:
            v = norm_scalar(val)
            if k and k != "O":
                if k == "f" and isinstance(v, (complex, SymC)):
                    pass
                v = _cast(v, k)
            v_scalar = True
        m = idx[0] if isinstance(idx, tuple) and len(idx) == 1 else idx
        if isinstance(m, SymArray) and m.kind() == "b" and has_sym(m):
            if m.shape == self.shape and (v_scalar or v.shape == self.shape):
                mm = m.view(_ND)
                for i in np.ndindex(self.shape):
                    nv = v if v_scalar else v[i]
                    base[i] = ite(mm[i], nv, base[i])
                return
        idx = fix_index(idx, self.shape)
        if v_scalar and isinstance(v, SYMS):
            tgt = base[idx]
            if isinstance(tgt, _ND):
                fill = np.empty(tgt.shape, dtype=object)
                fill[...] = v
                base[idx] = fill
                return
        base[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(np_any(self == x))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(as_bool(self.view(_ND).ravel()[0]))

    def __index__(self):
        if self.size != 1:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self.view(_ND).ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(_ND).ravel()[0])

    def __int__(self):
        return int(self.view(_ND).ravel()[0])

    def __complex__(self):
        return complex(self.view(_ND).ravel()[0])

    def __matmul__(self, o):
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return apply_uf("equal", (self, o))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return apply_uf("not_equal", (self, o))

    __hash__ = None

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return "SymArray(" + repr(self.view(_ND)) + ")"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return "<symarray>"

    def __reduce__(self):
        raise Unsupported("pickle")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- methods
    def astype(self, dt, copy=True, **kw):
        k = dt_kind(dt)
        r = W(_castarr(np.array(self.view(_ND)), k), None if k == "O" else k)
        return r

    def copy(self, order="C"):
        return W(np.array(self.view(_ND), copy=True), self._ld)

    def tolist(self):
        return self.view(_ND).tolist()

    def item(self, *a):
        return out_scalar(norm_scalar(self.view(_ND).item(*a)))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, **k):
        return np_ptp(self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np_all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np_any(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis=axis)

    def sort(self, axis=-1, **k):
        self.view(_ND)[...] = np_sort(self, axis=axis).view(_ND)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis=axis)

    def cumprod(self, axis=None, **k):
        return np_cumprod(self, axis=axis)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max)

    def dot(self, b):
        return np_dot(self, b)

    def conj(self):
        return apply_uf("conjugate", (self,))

    def conjugate(self):
        return apply_uf("conjugate", (self,))

    def nonzero(self):
        return np_nonzero(self)

    def view(self, *a, **k):
        if a and a[0] in (_ND, SymArray):
            return super().view(*a, **k)
        raise Unsupported("view with a new dtype")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    @property
    def real(self):
        return elem(s_real, self)

    @real.setter
    def real(self, v):
        raise Unsupported("real setter")

    @property
    def imag(self):
        return elem(s_imag, self)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def fill(self, v):
        self[...] = v

    def take(self, idx, axis=None, **k):
        if axis is None:
            return self.ravel()[idx]
        sl = [slice(None)] * self.ndim
        sl[axis] = idx
        return self[tuple(sl)]


def _castarr(a, k):
    if a.ndim == 0:
        r = np.empty((), dtype=object)
        r[()] = _cast(norm_scalar(a[()]), k)
        return r
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = _cast(norm_scalar(a[i]), k)
    return r


def elem(f, *xs):
    if all(not isinstance(a, (_ND, list, tuple, range)) for a in xs):
        return out_scalar(f(*[norm_scalar(a) for a in xs]))
    r = np.frompyfunc(lambda *a: f(*[norm_scalar(e) for e in a]), len(xs), 1)(*[_o(a) for a in xs])
    return W(r) if isinstance(r, _ND) else out_scalar(norm_scalar(r))


def _fix1(i, n):
    if isinstance(i, Sym):
        if not i.isint and not i.is_const():
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        return ctx().concretize(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        def p(v):
            if v is None:
                return None
            if isinstance(v, (Sym, SymBool, SymArray)):
                return operator.index(v)
            return v
        return slice(p(i.start), p(i.stop), p(i.step))
    if isinstance(i, list):
        if not i:
            return np.empty(0, dtype=int)
        i = W(_o(i))
    if isinstance(i, SymArray):
        b = i.view(_ND)
        k = i.kind()
        if i.size == 0 and k != "b":
            return np.empty(i.shape, dtype=int)
        if k == "b":
            r = np.empty(b.shape, dtype=bool)
            for j in np.ndindex(b.shape):
                r[j] = bool(b[j])
            return r
        if k == "i":
            r = np.empty(b.shape, dtype=np.intp)
            for j in np.ndindex(b.shape):
                r[j] = operator.index(b[j])
            return r
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return i


def fix_index(idx, shape):
    if isinstance(idx, tuple):
        return tuple(_fix1(i, None) for i in idx)
    return _fix1(idx, shape[0] if shape else None)


# ------------------------------------------------------------------ reductions

def _reduce(f, a, axis, keepdims=False, empty=None):
    """apply f(list)->scalar along axis"""
    b = _o(a)
    if b.ndim == 0:
        return out_scalar(f([b[()]]))
    if axis is None:
        r = f(list(b.ravel()))
        if keepdims:
            q = np.empty((1,) * b.ndim, dtype=object)
            q[...] = r
            return W(q)
        return out_scalar(r)
    if isinstance(axis, (tuple, list)):
        ax = sorted(x % b.ndim for x in axis)
        rest = [i for i in range(b.ndim) if i not in ax]
        t = b.transpose(rest + ax).reshape([b.shape[i] for i in rest] + [-1])
        r = _reduce(f, t, -1)
        if keepdims:
            r = r.reshape([1 if i in ax else b.shape[i] for i in range(b.ndim)])
        return r
    axis = int(axis)
    t = np.moveaxis(b, axis, -1)
    r = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(list(t[i]))
    if keepdims:
        return W(np.expand_dims(r, axis))
    if r.ndim == 0:
        return out_scalar(r[()])
    return W(r)


def _sum(xs):
    if not xs:
        return 0.0
    xs = [norm_scalar(x) for x in xs]
    if all(isinstance(x, (bool, SymBool)) for x in xs):
        xs = [x.ind() if isinstance(x, SymBool) else int(x) for x in xs]
    # fast path for polynomial sums
    if any(isinstance(x, Sym) for x in xs) and all(
            isinstance(x, (Sym, int, float, Fraction)) and not (isinstance(x, float) and not math.isfinite(x)) for x in xs):
        if all(not x.den for x in xs if isinstance(x, Sym)):
            t = {}
            for x in xs:
                p = x.num.t if isinstance(x, Sym) else ({(): core._frac(x)} if x else {})
                for m, c in p.items():
                    s = t.get(m)
                    t[m] = c if s is None else s + c
            t = {m: c for m, c in t.items() if c}
            r = core.mk(core.Poly(t)) if t else 0.0
            if isinstance(r, Sym) and all(x.nn if isinstance(x, Sym) else x >= 0 for x in xs):
                r.nn = True
            return r
    if all(isinstance(x, float) for x in xs):
        return math.fsum(xs) if all(math.isfinite(x) for x in xs) else float(np.sum(xs))
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def _prod(xs):
    s = 1
    for x in xs:
        s = s * norm_scalar(x)
    return s


def _max(xs):
    xs = [norm_scalar(x) for x in xs]
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if all(isinstance(x, (bool, SymBool)) for x in xs):
        return b_any(xs)
    xs = [x.ind() if isinstance(x, SymBool) else x for x in xs]
    cs = [x for x in xs if not isinstance(x, Sym)]
    ss = [x for x in xs if isinstance(x, Sym)]
    if any(c != c for c in cs):
        return math.nan
    if not ss:
        return max(cs)
    if cs:
        m = max(cs)
        if m == math.inf:
            return m
        if m != -math.inf:
            ss.append(m)
    return max_atom(ss)


def _min(xs):
    xs = [norm_scalar(x) for x in xs]
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if all(isinstance(x, (bool, SymBool)) for x in xs):
        return b_all(xs)
    r = _max([-(x.ind() if isinstance(x, SymBool) else x) for x in xs])
    return -r


def max_atom(xs):
    """maximum of several scalars as one atom"""
    import z3
    c = ctx()
    uniq = {}
    for x in xs:
        l = lift(x)
        uniq[l.key()] = l
    xs = list(uniq.values())
    # drop elements dominated by interval bounds
    if not c.guided:
        bl = max(x.bounds()[0] for x in xs)
        keep = [x for x in xs if not x.bounds()[1] < bl]
        xs = keep or xs
        consts = [x for x in xs if x.is_const()]
        if consts:
            top = max(consts, key=lambda x: x.num.cval())
            xs = [x for x in xs if not x.is_const() and x.bounds()[1] > top.num.cval()] + [top]
    if len(xs) == 1:
        x = xs[0]
        return core._cfloat(x.num.cval()) if x.is_const() else x
    if c.opt.get("minmax") == "fork" and not (len(xs) > 2 and any(c.atoms[i].kind == "abs" for x in xs for i in x.vs())):
        return xs[_argmax(xs)]
    if len(xs) == 2:
        return ite(xs[0] >= xs[1], xs[0], xs[1])
    k = ("max", tuple(sorted(x.key() for x in xs)))
    a = c.tab.get(k)
    if a is None:
        a = c.new_atom("max", all(x.isint for x in xs))
        c.tab[k] = a
        bs = [x.bounds() for x in xs]
        lo, hi = max(b[0] for b in bs), max(b[1] for b in bs)
        m = Sym(core.Poly.atom(a.i))
        if c.guided:
            a.val = max(x.val() for x in xs)
        ge = [m >= x for x in xs]
        eq = [m == x for x in xs]
        vs = frozenset({a.i})
        for q in ge + eq:
            if isinstance(q, SymBool):
                vs |= q.vs
        z = [q.e if isinstance(q, SymBool) else z3.BoolVal(q) for q in ge]
        z2 = [q.e if isinstance(q, SymBool) else z3.BoolVal(q) for q in eq]
        c.define(a, z3.And(*z, z3.Or(*z2)), vs)
        if lo >= 0 and any(c.atoms[i].kind == "abs" for x in xs for i in x.vs()) and not any(x.den for x in xs):
            # the largest magnitude is at least the root mean square
            q = sum((x * x for x in xs[1:]), xs[0] * xs[0]) / len(xs)
            b = lift(q).bounds()[0]
            if b > 0:
                lo = max(lo, math.sqrt(b) * (1 - 1e-9))
                c.define(a, a.zr >= core._rat_z3(core._frac(lo)), frozenset({a.i}))
        a.lo = None if lo == -math.inf else lo
        a.hi = None if hi == math.inf else hi
    return Sym(core.Poly.atom(a.i))


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if where is not None and where is not True:
        a = np_where(where, a, 0.0)
    r = _reduce(_sum, a, axis, keepdims)
    return r if initial is None else r + initial


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(_prod, a, axis, keepdims)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    b = _o(a)
    if b.size == 0:
        return np.float64(math.nan)
    n = b.size if axis is None else (math.prod(b.shape[x] for x in axis) if isinstance(axis, (tuple, list)) else b.shape[axis])
    r = _reduce(_sum, a, axis, keepdims)
    return r / n if not isinstance(r, int) else np.float64(r / n)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    b = W(_o(a))
    m = np_mean(b, axis=axis, keepdims=True) if b.ndim else b
    d = b - m
    if b.kind() == "c":
        sq = elem(lambda z: SymC.of(z).abs2(), d)
    else:
        sq = d * d
    n = b.size if axis is None else b.shape[axis]
    return np_sum(sq, axis=axis, keepdims=keepdims) / (n - ddof)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return apply_uf("sqrt", (np_var(a, axis=axis, ddof=ddof, keepdims=keepdims),))


def np_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    r = _reduce(_max, a, axis, keepdims)
    return r if initial is None else apply_uf("maximum", (r, initial))


def np_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    r = _reduce(_min, a, axis, keepdims)
    return r if initial is None else apply_uf("minimum", (r, initial))


def np_ptp(a, axis=None, **k):
    return np_max(a, axis=axis) - np_min(a, axis=axis)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(b_all, a, axis, keepdims)


def np_any(a, axis=None, out=None, keepdims=False, **k):
    return _reduce(b_any, a, axis, keepdims)


def _isnan(x):
    x = norm_scalar(x)
    return not is_sym(x) and x != x


def np_nanmax(a, axis=None, **k):
    return _reduce(lambda xs: _max([x for x in xs if not _isnan(x)]) if any(not _isnan(x) for x in xs) else math.nan, a, axis)


def np_nanmin(a, axis=None, **k):
    return _reduce(lambda xs: _min([x for x in xs if not _isnan(x)]) if any(not _isnan(x) for x in xs) else math.nan, a, axis)


def np_nanmean(a, axis=None, **k):
    def f(xs):
        v = [x for x in xs if not _isnan(x)]
        return s_div(_sum(v), len(v)) if v else math.nan
    return _reduce(f, a, axis)


def np_nansum(a, axis=None, **k):
    return _reduce(lambda xs: _sum([x for x in xs if not _isnan(x)]), a, axis)


def np_nanstd(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("nanstd axis")
    v = [x for x in _o(a).ravel() if not _isnan(x)]
    return np_std(v) if v else np.float64(math.nan)


def np_nanmedian(a, axis=None, **k):
    return _reduce(lambda xs: _median([x for x in xs if not _isnan(x)]) if any(not _isnan(x) for x in xs) else math.nan, a, axis)


def _argmax(xs):
    xs = [norm_scalar(x) for x in xs]
    xs = [x.ind() if isinstance(x, SymBool) else x for x in xs]
    if not xs:
        raise ValueError("attempt to get argmax of an empty sequence")
    if not any(is_sym(x) for x in xs):
        return int(np.argmax(np.array([float(x) for x in xs])))
    for i, x in enumerate(xs):
        if _isnan(x):
            return i
    if ctx().guided:
        v = [x.val() if is_sym(x) else float(x) for x in xs]
        return int(np.argmax(v))
    n = len(xs)
    for i in range(n):
        conds = []
        for j in range(n):
            if j < i:
                conds.append(_gt(xs[i], xs[j]))
            elif j > i:
                conds.append(_gte(xs[i], xs[j]))
        if bool(b_all(conds)):
            return i
    raise core.PathAbort("argmax")


def _gt(a, b):
    return s_cmp(operator.gt)(a, b)


def _gte(a, b):
    return s_cmp(operator.ge)(a, b)


def np_argmax(a, axis=None, **k):
    return _reduce(_argmax, a, axis)


def np_argmin(a, axis=None, **k):
    return _reduce(lambda xs: _argmax([-x for x in xs]), a, axis)


def np_nanargmax(a, axis=None, **k):
    return _reduce(lambda xs: _argmax([-math.inf if _isnan(x) else x for x in xs]), a, axis)


def _sorted(xs):
    xs = [norm_scalar(x) for x in xs]
    if not any(is_sym(x) for x in xs):
        return sorted(xs)
    xs = list(xs)
    n = len(xs)
    if any(isinstance(x, float) and x != x for x in xs):
        return _sorted([x for x in xs if not (isinstance(x, float) and x != x)]) + [x for x in xs if isinstance(x, float) and x != x]
    if n > 2 and not any(isinstance(x, float) and not math.isfinite(x) for x in xs):
        return [rank_atom(xs, k) for k in range(n)]
    # odd-even transposition network with min/max merging (no forking)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            lo, hi = s_min(xs[i], xs[i + 1]), s_max(xs[i], xs[i + 1])
            xs[i], xs[i + 1] = lo, hi
    return xs


def rank_atom(xs, k):
    """the k-th smallest of several scalars, defined by counting (independent of their order)"""
    import z3
    c = ctx()
    xs = [lift(x.ind() if isinstance(x, SymBool) else x) for x in xs]
    xs = [Sym(core.canon(x.num), x.den) for x in xs]
    key = ("rank", k, tuple(sorted(x.key() for x in xs)))
    a = c.tab.get(key)
    if a is None:
        a = c.new_atom("rank", all(x.isint for x in xs))
        c.tab[key] = a
        los, his = sorted(x.bounds()[0] for x in xs), sorted(x.bounds()[1] for x in xs)
        a.lo = None if los[k] == -math.inf else los[k]
        a.hi = None if his[k] == math.inf else his[k]
        if c.guided:
            a.val = sorted(x.val() for x in xs)[k]
        m = Sym(core.Poly.atom(a.i))
        le = [as_bool(x <= m) for x in xs]
        ge = [as_bool(x >= m) for x in xs]
        eq = [as_bool(x == m) for x in xs]
        vs = frozenset({a.i})
        for q in le + ge + eq:
            if isinstance(q, SymBool):
                vs |= q.vs
        le, ge, eq = ([q.e if isinstance(q, SymBool) else z3.BoolVal(q) for q in w] for w in (le, ge, eq))
        n = len(xs)
        c.define(a, z3.And(z3.Or(*eq), z3.AtLeast(*le, k + 1), z3.AtLeast(*ge, n - k)), vs)
    return Sym(core.Poly.atom(a.i))


def np_sort(a, axis=-1, **k):
    b = _o(a)
    if axis is None:
        b, axis = b.ravel(), 0
    t = np.moveaxis(b, axis, -1)
    r = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape[:-1]):
        s = _sorted(list(t[i]))
        for j, e in enumerate(s):
            r[i + (j,)] = e
    return W(np.moveaxis(r, -1, axis))


def np_argsort(a, axis=-1, kind=None, **k):
    b = _o(a)
    if not has_sym(b):
        return W(np.argsort(native(W(b)), axis=axis, kind="stable"), "i")
    if b.ndim != 1:
        raise Unsupported("argsort of a symbolic matrix")
    import functools
    xs = list(b)

    def cmpf(i, j):
        if bool(xs[i] < xs[j]):
            return -1
        if bool(xs[j] < xs[i]):
            return 1
        return 0
    return W(np.array(sorted(range(len(xs)), key=functools.cmp_to_key(cmpf)), dtype=object), "i")


def _median(xs):
    if not xs:
        return math.nan
    s = _sorted(xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_median(a, axis=None, out=None, overwrite_input=False, keepdims=False, **k):
    return _reduce(_median, a, axis, keepdims)


def np_percentile(a, q, axis=None, method="linear", **k):
    q2 = [norm_scalar(x) / 100 for x in (q if isinstance(q, (list, tuple, _ND)) else [q])]
    r = [_quant(a, x, axis) for x in q2]
    return W(_o(r)) if isinstance(q, (list, tuple, _ND)) else r[0]


def np_quantile(a, q, axis=None, **k):
    q2 = [norm_scalar(x) for x in (q if isinstance(q, (list, tuple, _ND)) else [q])]
    r = [_quant(a, x, axis) for x in q2]
    return W(_o(r)) if isinstance(q, (list, tuple, _ND)) else r[0]


def _quant(a, q, axis):
    def f(xs):
        s = _sorted(xs)
        h = (len(s) - 1) * q
        i = math.floor(h)
        fr = h - i
        if fr == 0:
            return s[i]
        return s[i] + (s[i + 1] - s[i]) * fr
    return _reduce(f, a, axis)


def _accumulate(name, a, axis=0):
    f = UF[name][0]
    b = _o(a)
    t = np.moveaxis(b, axis, -1)
    r = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape[:-1]):
        acc = None
        for j in range(t.shape[-1]):
            e = norm_scalar(t[i + (j,)])
            if isinstance(e, SymBool):
                e = e.ind()
            elif isinstance(e, bool):
                e = int(e)
            acc = e if acc is None else f(acc, e)
            r[i + (j,)] = acc
    return np.moveaxis(r, -1, axis)


def np_cumsum(a, axis=None, dtype=None, out=None):
    b = _o(a)
    if axis is None:
        b, axis = b.ravel(), 0
    return W(_accumulate("add", b, axis))


def np_cumprod(a, axis=None, **k):
    b = _o(a)
    if axis is None:
        b, axis = b.ravel(), 0
    return W(_accumulate("multiply", b, axis))


# ------------------------------------------------------------------ creation / conversion

def _dims(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    if isinstance(s, SymArray) and s.ndim:
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


_ZERO = {"f": 0.0, "i": 0, "b": False, "c": 0j, "O": 0}
_ONE = {"f": 1.0, "i": 1, "b": True, "c": 1 + 0j, "O": 1}


def _fill(shape, v, k):
    r = np.empty(shape, dtype=object)
    r[...] = v if not is_sym(v) else None
    if is_sym(v):
        for i in np.ndindex(r.shape):
            r[i] = v
    return W(r, None if k == "O" else k)


def np_zeros(shape, dtype=float, order="C", **k):
    kd = dt_kind(dtype) or "f"
    return _fill(_dims(shape), _ZERO[kd], kd)


def np_ones(shape, dtype=float, order="C", **k):
    kd = dt_kind(dtype) or "f"
    return _fill(_dims(shape), _ONE[kd], kd)


def np_full(shape, v, dtype=None, order="C", **k):
    kd = dt_kind(dtype)
    if isinstance(v, (_ND, list)):
        r = np.empty(_dims(shape), dtype=object)
        r[...] = _o(v)
        return W(r, kd)
    v = norm_scalar(v)
    kd = kd or scalar_kind(v)
    return _fill(_dims(shape), _cast(v, kd), kd)


def _like_kind(a, dtype):
    return dt_kind(dtype) or W(_o(a), getattr(a, "_ld", None)).kind()


def np_zeros_like(a, dtype=None, shape=None, **k):
    kd = _like_kind(a, dtype)
    return _fill(np.shape(_o(a)) if shape is None else _dims(shape), _ZERO[kd], kd)


def np_ones_like(a, dtype=None, shape=None, **k):
    kd = _like_kind(a, dtype)
    return _fill(np.shape(_o(a)) if shape is None else _dims(shape), _ONE[kd], kd)


def np_full_like(a, v, dtype=None, shape=None, **k):
    kd = _like_kind(a, dtype)
    return np_full(np.shape(_o(a)) if shape is None else shape, v, dtype=_KIND[kd])


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, str) or (isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], str)):
        return np.array(x, dtype=native(dtype) if dtype is not None else None)
    if isinstance(x, (list, tuple)) and dt_kind(dtype) == "O":
        return np.array(x, dtype=object)
    b = _o(x)
    if b.dtype != object:
        return np.array(x)
    b = np.array(b, copy=True)
    while b.ndim < ndmin:
        b = b[None]
    kd = dt_kind(dtype)
    if kd and kd != "O":
        return W(_castarr(b, kd), kd)
    ld = x._ld if isinstance(x, SymArray) else ({"u": "i"}.get(x.dtype.kind, x.dtype.kind) if isinstance(x, _ND) and x.dtype != object else None)
    r = W(b, ld)
    if ld is None and b.size == 0:
        r._ld = "f"
    elif ld is None:
        kk = infer_kind(r)
        if kk in "fc" and not has_sym(b) or kk == "f":
            # homogeneous float storage
            r = W(_castarr(b, kk), kk if kk == "c" else None)
    return r


def np_asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, SymArray):
        kd = dt_kind(dtype)
        if kd is None or kd == x._ld or (x._ld is None and kd == x.kind()):
            return x
        return x.astype(dtype)
    return np_array(x, dtype=dtype)


def np_arange(*a, dtype=None, **k):
    a = [operator.index(x) if isinstance(x, (Sym, SymArray)) and (x.isint if isinstance(x, Sym) else x.kind() == "i") else x for x in a]
    for i, x in enumerate(a):
        x = norm_scalar(x)
        if isinstance(x, Sym) and not x.den:
            c = x.num.cval() % 1
            if (x - c).isint:
                a[i] = operator.index(x - c) + float(c)
    if has_sym(a):
        raise Unsupported("arange with symbolic real bounds")
    kd = dt_kind(dtype)
    r = np.arange(*[native(x) for x in a], **k)
    return W(_castarr(r.astype(object), kd), kd) if kd else W(r)


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = operator.index(num)
    if not has_sym((a, b)):
        r = np.linspace(native(a), native(b), num, endpoint=endpoint, retstep=retstep)
        return wrap_out(r)
    div = num - 1 if endpoint else num
    step = (b - a) * Fraction(1, div) if div else math.nan
    xs = [a + step * i for i in range(num)]
    if endpoint and num > 1:
        xs[-1] = b
    r = W(_o(xs))
    return (r, step) if retstep else r


def np_eye(n, m=None, k=0, dtype=float, **kw):
    return np_asarray(np.eye(operator.index(n), m, k), dtype=dtype)


def np_atleast_1d(*xs):
    r = [W(np.atleast_1d(_o(x)), getattr(x, "_ld", None)) for x in xs]
    return r[0] if len(r) == 1 else tuple(r)


def np_atleast_2d(*xs):
    r = [W(np.atleast_2d(_o(x)), getattr(x, "_ld", None)) for x in xs]
    return r[0] if len(r) == 1 else tuple(r)


def structural(fn):
    """numpy functions that only move elements around (or use + and *)"""
    def conv(x):
        if isinstance(x, (SymArray, Sym, SymC, SymBool)):
            return _o(x)
        if isinstance(x, _ND):
            return _o(x)
        if isinstance(x, list) or isinstance(x, tuple):
            if any(isinstance(e, (_ND, list, tuple)) or is_sym(e) for e in x):
                return type(x)(conv(e) for e in x) if isinstance(x, (list, tuple)) and not hasattr(x, "_fields") else x
        return x

    def g(*a, **k):
        a = [conv(x) for x in a]
        k = {n: conv(x) if n not in ("axis", "shape", "reps") else x for n, x in k.items()}
        k.pop("dtype", None)
        return wrap_out(fn(*a, **k))
    g.__name__ = fn.__name__
    return g


def _seq_structural(fn):
    def g(xs, *a, **k):
        k.pop("dtype", None)
        lds = [x._ld if isinstance(x, SymArray) else None for x in xs] if not isinstance(xs, SymArray) else [xs._ld]
        r = wrap_out(fn([_o(x) for x in xs], *a, **k))
        if isinstance(r, SymArray) and lds and all(l == lds[0] for l in lds):
            r._ld = lds[0]
        return r
    return g


def generic(fn):
    name = getattr(fn, "__name__", str(fn))

    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported(f"numpy function {name} on symbolic values")
        return wrap_out(fn(*[native(x) for x in a], **{n: native(x) for n, x in k.items()}))
    g.__name__ = name
    return g


# ------------------------------------------------------------------ assorted numpy functions

def np_where(c, *xy):
    if not xy:
        return np_nonzero(c)
    x, y = xy
    return elem(lambda cc, a, b: ite(cc, a, b), c, x, y)


def np_nonzero(a):
    b = _o(a)
    m = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(b.shape):
        m[i] = bool(as_bool(norm_scalar(b[i])))
    return tuple(W(x, "i") for x in np.nonzero(m))


def np_flatnonzero(a):
    return np_nonzero(W(_o(a)).ravel())[0]


def np_argwhere(a):
    return W(np.stack([_o(x) for x in np_nonzero(a)], axis=-1), "i")


def np_count_nonzero(a, axis=None, **k):
    return np_sum(elem(as_bool, a), axis=axis)


def np_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def f(x, l, h):
        if l is not None:
            x = s_max(x, l)
        if h is not None:
            x = s_min(x, h)
        return x
    r = elem(lambda x, *b: f(x, b[0] if lo is not None else None, b[-1] if hi is not None else None),
             a, *([lo] if lo is not None else []), *([hi] if hi is not None else []))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            o[...] = r
            return o
    return r


def np_round(a, decimals=0, out=None):
    def f(x):
        if decimals == 0:
            return _fl(s_round(x)) if not isinstance(x, int) else x
        if not is_sym(x):
            return float(np.round(x, decimals))
        return s_round(x * Fraction(10) ** decimals) / Fraction(10) ** decimals
    return elem(f, a)


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    b = _o(a)
    if prepend is not None:
        b = np.concatenate([np.atleast_1d(_o(prepend)), b], axis=axis)
    if append is not None:
        b = np.concatenate([b, np.atleast_1d(_o(append))], axis=axis)
    for _ in range(n):
        t = np.moveaxis(b, axis, -1)
        if t.dtype == object and t.size and all(isinstance(e, (bool, SymBool)) for e in t.ravel()):
            d = PYF["not_equal"](t[..., 1:], t[..., :-1])
        else:
            d = PYF["subtract"](t[..., 1:], t[..., :-1])
        b = np.moveaxis(d, -1, axis)
    return W(b)


def np_gradient(y, *spacing, axis=None, edge_order=1):
    b = _o(y)
    if b.ndim != 1 or edge_order != 1:
        return generic(np.gradient)(y, *spacing, axis=axis, edge_order=edge_order)
    n = len(b)
    r = np.empty(n, dtype=object)
    if not spacing or not isinstance(spacing[0], (_ND, list)):
        h = norm_scalar(spacing[0]) if spacing else 1.0
        for i in range(n):
            if i == 0:
                r[i] = s_div(b[1] - b[0], h)
            elif i == n - 1:
                r[i] = s_div(b[-1] - b[-2], h)
            else:
                r[i] = s_div(b[i + 1] - b[i - 1], 2 * h)
        return W(r)
    x = _o(spacing[0])
    for i in range(n):
        if i == 0:
            r[i] = s_div(b[1] - b[0], x[1] - x[0])
        elif i == n - 1:
            r[i] = s_div(b[-1] - b[-2], x[-1] - x[-2])
        else:
            hd, hs = x[i + 1] - x[i], x[i] - x[i - 1]
            den = hs * hd * (hd + hs)
            r[i] = s_div(hs * hs * b[i + 1] + (hd * hd - hs * hs) * b[i] - hd * hd * b[i - 1], den)
    return W(r)


def np_bincount(x, weights=None, minlength=0):
    b = _o(x)
    w = None if weights is None else _o(weights)
    if not has_sym(b):
        n = max([int(v) for v in b] + [-1]) + 1
        n = max(n, operator.index(minlength))
        if any(int(v) < 0 for v in b):
            raise ValueError("'list' argument must have no negative elements")
        r = [[] for _ in range(n)]
        for i, v in enumerate(b):
            r[int(v)].append(1 if w is None else w[i])
        return W(_o([_sum(v) if v else (0 if w is None else 0.0) for v in r]), "i" if w is None else "f")
    if ctx().opt.get("bincount_split"):
        return np_bincount(W(_o([operator.index(v) for v in b])), weights, minlength)
    n = operator.index(minlength)
    if bool(b_any([v < 0 for v in b])):
        raise ValueError("'list' argument must have no negative elements")
    if n == 0 or not bool(b_all([v < n for v in b])):
        return np_bincount(W(_o([operator.index(v) for v in b])), weights, minlength)
    out = []
    for j in range(n):
        terms = [ite(v == j, 1 if w is None else w[i], 0 if w is None else 0.0) for i, v in enumerate(b)]
        out.append(_sum(terms))
    return W(_o(out))


def np_histogram(a, bins=10, range=None, weights=None, density=None):
    b = _o(a).ravel()
    if isinstance(bins, (_ND, list, tuple)):
        edges = list(_o(bins))
    else:
        if range is None:
            lo, hi = np_min(W(b)), np_max(W(b))
        else:
            lo, hi = range
        same = lo == hi
        if bool(as_bool(same)):
            lo, hi = lo - 0.5, hi + 0.5
        edges = list(_o(np_linspace(lo, hi, operator.index(bins) + 1)))
    n = len(edges) - 1
    counts = []
    for j in builtins_range(n):
        t = []
        for i, x in enumerate(b):
            up = (x < edges[j + 1]) if j < n - 1 else (x <= edges[j + 1])
            t.append(ite(b_and(x >= edges[j], up), 1 if weights is None else _o(weights)[i], 0))
        counts.append(_sum(t))
    h = W(_o(counts))
    e = W(_o(edges))
    if density:
        h = h / np_diff(e) / np_sum(h)
    return h, e


def builtins_range(*a):
    import builtins
    return builtins.range(*a)


def np_searchsorted(edges, v, side="left", sorter=None):
    e = list(_o(edges))

    def f(x):
        t = [(ed < x) if side == "left" else (ed <= x) for ed in e]
        t = [q.ind() if isinstance(q, SymBool) else int(q) for q in t]
        s = _sum(t)
        return int(s) if not is_sym(s) else s
    return elem(f, v)


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        return generic(np.interp)(x, xp, fp, left, right, period)
    xs, fs = list(_o(xp)), list(_o(fp))

    def f(v):
        if bool(as_bool(v <= xs[0])):
            return fs[0] if left is None or bool(as_bool(v == xs[0])) else left
        if bool(as_bool(v >= xs[-1])):
            return fs[-1] if right is None or bool(as_bool(v == xs[-1])) else right
        for i in builtins_range(len(xs) - 1):
            if bool(as_bool(v < xs[i + 1])):
                sl = s_div(fs[i + 1] - fs[i], xs[i + 1] - xs[i])
                return fs[i] + sl * (v - xs[i])
        return fs[-1]
    return elem(f, x)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    b = _o(a).ravel()
    if not has_sym(b):
        return wrap_out(np.unique(native(W(b)), return_index=return_index, return_inverse=return_inverse,
                                  return_counts=return_counts))
    order = [int(i) for i in np_argsort(W(b), kind="stable")]
    vals, cnt, first, inv = [], [], [], [0] * len(b)
    for i in order:
        if vals and bool(as_bool(b[i] == vals[-1])):
            cnt[-1] += 1
        else:
            vals.append(b[i])
            cnt.append(1)
            first.append(i)
        inv[i] = len(vals) - 1
    out = [W(_o(vals))]
    if return_index:
        out.append(W(_o(first), "i"))
    if return_inverse:
        out.append(W(_o(inv), "i"))
    if return_counts:
        out.append(W(_o(cnt), "i"))
    return out[0] if len(out) == 1 else tuple(out)


def np_matmul(a, b):
    x, y = _o(a), _o(b)
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if x.ndim == 1 and y.ndim == 1:
        if x.shape != y.shape:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        return out_scalar(_sum([s_mul(p, q) for p, q in zip(x, y)]))
    if x.ndim == 1:
        return np_matmul(W(x[None, :]), W(y))[..., 0, :]
    if y.ndim == 1:
        return np_matmul(W(x), W(y[:, None]))[..., 0]
    if x.shape[-1] != y.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature "
                         f"(n?,k),(k,m?)->(n?,m?) (size {y.shape[-2]} is different from {x.shape[-1]})")
    if x.ndim > 2 or y.ndim > 2:
        return wrap_out(np.matmul(x, y))
    r = np.empty((x.shape[0], y.shape[1]), dtype=object)
    for i in builtins_range(x.shape[0]):
        for j in builtins_range(y.shape[1]):
            r[i, j] = _sum([s_mul(p, q) for p, q in zip(x[i], y[:, j])])
    return W(r)


def np_dot(a, b, out=None):
    x, y = _o(a), _o(b)
    if x.ndim == 0 or y.ndim == 0:
        return apply_uf("multiply", (W(x) if x.ndim else x[()], W(y) if y.ndim else y[()]))
    if x.ndim <= 2 and y.ndim <= 2:
        return np_matmul(W(x), W(y))
    return wrap_out(np.dot(x, y))


def np_outer(a, b, **k):
    return apply_uf("multiply", (_o(a).ravel()[:, None], _o(b).ravel()[None, :]))


def np_polyval(p, x):
    cs = list(_o(p))
    if isinstance(x, (_ND, list, tuple)):
        x = W(_o(x))
    r = x * 0
    for c in cs:
        r = r * x + c
    return r


def np_convolve(a, v, mode="full"):
    x, h = list(_o(a)), list(_o(v))
    n, m = len(x), len(h)
    full = []
    for k in builtins_range(n + m - 1):
        full.append(_sum([s_mul(x[i], h[k - i]) for i in builtins_range(max(0, k - m + 1), min(n, k + 1))]))
    if mode == "full":
        return W(_o(full))
    if mode == "valid":
        return W(_o(full[min(n, m) - 1:max(n, m)]))
    s = (min(n, m) - 1) // 2
    return W(_o(full[s:s + max(n, m)]))


def np_correlate(a, v, mode="valid"):
    return np_convolve(a, W(_o(v))[::-1].conj(), mode)


def np_unwrap(p, discont=None, axis=-1, period=2 * math.pi):
    b = _o(p)
    if not has_sym(b):
        return wrap_out(np.unwrap(native(W(b)), axis=axis))
    t = np.array(np.moveaxis(b, axis, -1))
    for i in np.ndindex(t.shape[:-1]):
        off = 0.0
        prev = t[i + (0,)]
        for j in builtins_range(1, t.shape[-1]):
            cur = t[i + (j,)]
            d = cur - prev
            dm = s_mod(d + math.pi, 2 * math.pi) - math.pi
            if bool(as_bool(b_and(as_bool(dm == -math.pi), as_bool(d > 0)))):
                dm = math.pi
            if bool(as_bool(s_abs(d) < math.pi)):
                corr = 0.0
            else:
                corr = dm - d
            off = off + corr
            prev = cur
            t[i + (j,)] = cur + off
    return W(np.moveaxis(t, -1, axis))


def np_angle(z, deg=False):
    r = elem(s_angle, z)
    return r * (180 / math.pi) if deg else r


def np_real(z):
    return elem(s_real, z)


def np_imag(z):
    return elem(s_imag, z)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        if isinstance(y, float) and not math.isfinite(y) or isinstance(x, float) and not math.isfinite(x):
            return False
        return s_abs(x - y) <= atol + rtol * s_abs(y)
    return elem(f, a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_array_equal(a, b, equal_nan=False):
    x, y = _o(a), _o(b)
    if x.shape != y.shape:
        return False
    return np_all(apply_uf("equal", (W(x), W(y))))


def np_isin(a, test, invert=False, **k):
    ts = list(_o(list(test) if isinstance(test, (set, frozenset)) else test).ravel())

    def f(x):
        r = b_any([x == t for t in ts])
        return b_not(r) if invert else r
    return elem(f, a)


def np_corrcoef(x, y=None, rowvar=True, **k):
    X = W(_o(x))
    if y is not None:
        X = W(np.vstack([np.atleast_2d(_o(x)), np.atleast_2d(_o(y))]))
    elif X.ndim == 2 and not rowvar:
        X = X.T
    n = X.shape[0]
    d = X - np_mean(X, axis=1, keepdims=True)
    c = np_matmul(d, d.T)
    r = np.empty((n, n), dtype=object)
    for i in builtins_range(n):
        for j in builtins_range(n):
            r[i, j] = s_div(c.view(_ND)[i, j], s_sqrt(c.view(_ND)[i, i]) * s_sqrt(c.view(_ND)[j, j]))
    return W(r)


def np_cov(x, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = W(np.atleast_2d(_o(x)))
    if y is not None:
        X = W(np.vstack([_o(X), np.atleast_2d(_o(y))]))
    d = X - np_mean(X, axis=1, keepdims=True)
    dd = (0 if bias else 1) if ddof is None else ddof
    return np_matmul(d, d.T) / (X.shape[1] - dd)


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis=axis)
    w = W(_o(weights))
    return np_sum(W(_o(a)) * w, axis=axis) / np_sum(w, axis=axis if w.ndim > 1 else None)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if is_sym(v):
            return v
        return float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    return elem(f, x)


def np_issubdtype(a, b):
    return np.issubdtype(native(a) if not isinstance(a, np.dtype) else a, native(b))


def np_isrealobj(x):
    return W(_o(x), getattr(x, "_ld", None)).kind() != "c" if isinstance(x, (_ND, list)) else not isinstance(x, (complex, SymC))


def np_iscomplexobj(x):
    return not np_isrealobj(x)


def np_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def np_ndim(x):
    return _o(x).ndim


def np_shape(x):
    return _o(x).shape


def np_size(x, axis=None):
    return _o(x).size if axis is None else _o(x).shape[axis]


def np_select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = np_where(c, x, r)
    return r


def np_trapezoid(y, x=None, dx=1.0, axis=-1):
    b = W(_o(y))
    if x is None:
        return np_sum((b[1:] + b[:-1]) * (dx * 0.5))
    d = np_diff(x)
    return np_sum((b[1:] + b[:-1]) * d * 0.5)


def np_apply_along_axis(f, axis, a, *args, **k):
    t = np.moveaxis(_o(a), axis, -1)
    rs = [f(W(t[i]), *args, **k) for i in np.ndindex(t.shape[:-1])]
    r = _o([_o(x) for x in rs])
    r = r.reshape(t.shape[:-1] + r.shape[1:])
    return W(np.moveaxis(r, -1, axis) if r.ndim == t.ndim else r)


def np_take(a, idx, axis=None, **k):
    return W(_o(a), getattr(a, "_ld", None)).take(idx, axis)


def np_vectorize(f, *a, **k):
    return lambda *x: elem(f, *x)


def np_copy(a, **k):
    return W(np.array(_o(a)), getattr(a, "_ld", None))


def np_einsum(sub, *ops, **k):
    return wrap_out(np.einsum(sub, *[_o(x) for x in ops], optimize=False)) if False else _einsum(sub, *ops)


def _einsum(sub, *ops):
    import itertools
    sub = sub.replace(" ", "")
    ins, _, out = sub.partition("->")
    ins = ins.split(",")
    ops = [_o(o) for o in ops]
    sizes = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            sizes[c] = n
    if "->" not in sub:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    rest = [c for c in sizes if c not in out]
    r = np.empty([sizes[c] for c in out], dtype=object)
    for oi in np.ndindex(r.shape):
        env = dict(zip(out, oi))
        terms = []
        for ri in itertools.product(*[builtins_range(sizes[c]) for c in rest]):
            env.update(zip(rest, ri))
            p = 1
            for s, o in zip(ins, ops):
                p = s_mul(p, o[tuple(env[c] for c in s)])
            terms.append(p)
        r[oi] = _sum(terms)
    return wrap_out(r)


def np_lexsort(*a, **k):
    return generic(np.lexsort)(*a, **k)


def np_maximum_reduce(*a, **k):
    return np_max(*a, **k)


def np_setdiff1d(a, b, **k):
    return generic(np.setdiff1d)(a, b, **k)


def np_roots(p):
    return generic(np.roots)(p)


def np_polyfit(x, y, deg, **k):
    deg = operator.index(deg)
    xs = _o(x)
    A = np.empty((len(xs), deg + 1), dtype=object)
    for i, v in enumerate(xs):
        for j in builtins_range(deg + 1):
            A[i, j] = v ** (deg - j) if deg - j else 1.0
    full = k.pop("full", False)
    if k.get("w") is not None:
        w = W(_o(k["w"]))
        A = _o(W(A) * w[:, None])
        y = W(_o(y)) * w
    c, res, rank, s = lstsq_any(W(A), y, poly=True)
    return (c, res, rank, s, 0.0) if full else c


def lstsq_any(A, b, poly=False, rcond=None):
    """least squares.  Concrete matrix: pseudo-inverse constants (linear in b).
    Symbolic matrix: fresh coefficients constrained by the normal equations."""
    A = W(_o(A))
    bo = W(_o(b))
    if A.ndim != 2:
        raise np.linalg.LinAlgError(f"{A.ndim}-dimensional array given. Array must be two-dimensional")
    if A.shape[0] != bo.shape[0]:
        raise np.linalg.LinAlgError("Incompatible dimensions")
    m, n = A.shape
    if not has_sym(A):
        An = native(A).astype(complex if A.kind() == "c" else float)
        rc = np.finfo(float).eps * max(m, n) if rcond in (None, -1) else rcond
        sc = np.ones(n)
        if poly:
            sc = np.sqrt((An * An).sum(axis=0))
            sc[sc == 0] = 1
        An2 = An / sc
        u, s, vt = np.linalg.svd(An2, full_matrices=False)
        rank = int((s > rc * s[0]).sum()) if s.size else 0
        P = (vt[:rank].conj().T / s[:rank]) @ u[:, :rank].conj().T
        P = P / sc[:, None]
        mx = np.abs(P).max() if P.size else 1.0
        P = np.where(np.abs(P) < 1e-13 * mx, 0.0, P)
        if not has_sym(bo):
            c = W(P @ native(bo))
        else:
            c = W(_snapped(P, bo.view(_ND)[:, None])[:, 0]) if bo.ndim == 1 and bo.kind() != "c" and A.kind() != "c" else np_matmul(W(P), bo)
        r = bo - np_matmul(A, c)
        res = np_sum(elem(lambda z: SymC.of(z).abs2() if isinstance(z, (SymC, complex)) else z * z, r), axis=0)
        res = np_atleast_1d(res) if rank == n and m > n else np_zeros(0)
        return c, res, rank, W(s)
    c = ctx()
    if c.opt.get("lstsq") == "cramer" or True:
        return _lstsq_sym(A, bo)


def _lstsq_sym(A, b):
    """symbolic matrix: solve the normal equations exactly by fraction-free
    elimination when small, forking on singularity"""
    m, n = A.shape
    if ctx().opt.get("lstsq") in ("free", "normal"):
        return _lstsq_free(A, b)
    one = b.ndim == 1
    ao = A.view(_ND)
    cc = [j for j in builtins_range(n) if not any(is_sym(v) for v in ao[:, j])]
    if cc:
        # concrete columns are projected out numerically first
        sc = [j for j in builtins_range(n) if j not in cc]
        C = ao[:, cc].astype(float)
        if np.linalg.matrix_rank(C) == len(cc) and len(sc) <= 4:
            P = np.linalg.pinv(C)
            Q = np.eye(m) - C @ P
            Q = np.where(np.abs(Q) < 1e-14, 0.0, Q)
            S, bb = ao[:, sc], (b.view(_ND) if not one else b.view(_ND)[:, None])
            Sp, bp = _snapped(Q, S), _snapped(Q, bb)
            G, B = np_matmul(W(Sp.T), W(Sp)).view(_ND), np_matmul(W(Sp.T), W(bp)).view(_ND)
            z = solve_sym(G, B)
            if z is None:
                raise Unsupported("rank-deficient symbolic least squares")
            xc = np_matmul(W(P), W(bb) - np_matmul(W(S), W(z))).view(_ND)
            x = np.empty((n, bb.shape[1]), dtype=object)
            x[cc], x[sc] = xc, z
            return W(x[:, 0] if one else x), np_zeros(0), n, None
    if n > 4:
        raise Unsupported("symbolic least squares with more than 4 columns")
    G = np_matmul(A.T, A).view(_ND)
    B = np_matmul(A.T, b if not one else W(_o(b)[:, None])).view(_ND)
    x = solve_sym(G, B)
    if x is None:
        raise Unsupported("rank-deficient symbolic least squares")
    r = x[:, 0] if one else x
    return W(r), np_zeros(0), n, None


def _snapped(Q, S):
    """Q @ S with coefficients that are rounding noise of the product removed"""
    r = np_matmul(W(Q), W(S)).view(_ND).astype(object)
    for j in builtins_range(S.shape[1]):
        mag = {}
        for v in S[:, j]:
            v = lift(v)
            if v.den:
                return r
            for m, c in v.num.t.items():
                mag[m] = max(mag.get(m, 0), abs(c))
        for i in builtins_range(r.shape[0]):
            v = lift(r[i, j])
            t = {m: c for m, c in v.num.t.items() if abs(c) > Fraction(1, 10 ** 12) * mag.get(m, 0)}
            near = [m for m, c in t.items() if c.denominator != 1 and round(c) and abs(c - round(c)) < Fraction(1, 10 ** 13)]
            for m in near:
                t[m] = Fraction(round(t[m]))
            if near or len(t) != len(v.num.t):
                r[i, j] = core.mk(core.Poly(t)) if t else 0.0
    return r


def _qkey(v):
    """key of a value up to rounding noise"""
    v = lift(v)
    if v.den:
        return v.key()
    return tuple(sorted((m, float("%.10g" % float(c))) for m, c in v.num.t.items() if abs(c) > Fraction(1, 10 ** 13)))


def _lead(col):
    """leading coefficient of the first non-zero entry of a column"""
    for v in col:
        v = lift(v)
        t = {m: c for m, c in v.num.t.items() if abs(c) > Fraction(1, 10 ** 9)}
        if t:
            return float(t[max(t)])
    return 1.0


def _lstsq_free(A, b):
    """coefficient vectors as unknowns: the same equations (up to the order and scale of
    the columns and rounding noise) give the same vector; "normal" adds the normal equations"""
    c = ctx()
    m, n = A.shape
    ao, bo = A.view(_ND), b.view(_ND).reshape(m, -1)
    kb = bo.shape[1]
    r = np.empty((n, kb), dtype=object)
    if c.guided:
        v = np.linalg.lstsq(np.array([[core._val(e) for e in q] for q in ao], float), np.array([[core._val(e) for e in q] for q in bo], float), rcond=None)[0]
    elif c.opt.get("lstsq") == "normal":
        x = _constant_solution(ao, bo)
        if x is not None:
            return W(x[:, 0] if b.ndim == 1 else x), np_zeros(0), n, None
    sc = [_lead(ao[:, j]) for j in builtins_range(n)]
    cols = [tuple(_qkey(e / sc[j]) for e in ao[:, j]) for j in builtins_range(n)]
    order = sorted(builtins_range(n), key=lambda j: repr(cols[j]))
    for q in builtins_range(kb):
        sb = _lead(bo[:, q])
        key = ("lsq", tuple(cols[j] for j in order), tuple(_qkey(e / sb) for e in bo[:, q]))
        xs = c.tab.get(key)
        if xs is None:
            xs = [c.new_atom("lsq") for _ in builtins_range(n)]
            c.tab[key] = xs
            if c.guided:
                for p, j in enumerate(order):
                    xs[p].val = float(v[j, q]) * sc[j] / sb
        for p, j in enumerate(order):
            r[j, q] = Sym(core.Poly.atom(xs[p].i)) * (sb / sc[j])
        if c.guided or c.opt.get("lstsq") != "normal" or (key, "eq") in c.tab:
            continue
        c.tab[(key, "eq")] = True
        if any(c.atoms[i].kind not in ("in", "lsq") for e in list(ao.ravel()) + list(bo.ravel()) for i in lift(e).num.vs()):
            continue
        # the normal equations A'(Ax - b) = 0 define the vector
        lim = c.opt.get("lstsq_bound", 100.0)
        res = [sum((ao[i, k] * r[k, q] for k in builtins_range(n)), 0.0) - bo[i, q] for i in builtins_range(m)]
        for p, k in enumerate(order):
            a = xs[p]
            a.lo, a.hi = -lim, lim
            c.define(a, core.z3.And(a.zr >= -lim, a.zr <= lim), [a.i])
            g = lift(sum((ao[i, k] * res[i] for i in builtins_range(m)), 0.0))
            if not g.num.is_const() and not g.den:
                c.define(a, g.num.z3() == 0, g.num.vs() | {a.i})
                c.equations.append(g.num)
    return W(r[:, 0] if b.ndim == 1 else r), np_zeros(0), n, None


def _constant_solution(ao, bo):
    """a constant vector that satisfies the equations identically"""
    m, n = ao.shape
    rng = np.random.default_rng(777)
    vals = {}

    def ev(v):
        v = lift(v)
        if v.den:
            raise KeyError
        t = 0.0
        for mo, k in v.num.t.items():
            q = float(k)
            for i, e in mo:
                if i not in vals:
                    vals[i] = rng.uniform(0.1, 0.9)
                q *= vals[i] ** e
            t += q
        return t
    try:
        An = np.array([ev(v) for v in ao.ravel()], float).reshape(m, n)
        bn = np.array([ev(v) for v in bo.ravel()], float).reshape(bo.shape)
    except KeyError:
        return None
    x, _, rank, _ = np.linalg.lstsq(An, bn, rcond=None)
    if rank < n or np.max(np.abs(An @ x - bn)) > 1e-9:
        return None
    x = np.where(np.abs(x) < 1e-12, 0.0, x)
    for q in builtins_range(bo.shape[1]):
        for i in builtins_range(m):
            d = lift(sum((ao[i, k] * float(x[k, q]) for k in builtins_range(n)), 0.0) - bo[i, q])
            if any(abs(k) > Fraction(1, 10 ** 9) for k in d.num.t.values()):
                return None
    return x.astype(object)


def det_sym(M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    s = 0.0
    for j in builtins_range(n):
        if not is_sym(M[0, j]) and M[0, j] == 0:
            continue
        minor = np.delete(np.delete(M, 0, 0), j, 1)
        t = M[0, j] * det_sym(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def solve_sym(G, B):
    n = G.shape[0]
    if n > 4:
        raise Unsupported("symbolic linear solve beyond 4 unknowns")
    d = det_sym(G)
    if not bool(as_bool(d != 0)):
        return None
    x = np.empty(B.shape, dtype=object)
    for j in builtins_range(B.shape[1]):
        for i in builtins_range(n):
            M = np.array(G)
            M[:, i] = B[:, j]
            x[i, j] = s_div(det_sym(M), d)
    return x


# ------------------------------------------------------------------ linalg

class _NS(types.ModuleType):
    pass


linalg = _NS("numpy.linalg")
linalg.LinAlgError = np.linalg.LinAlgError


def la_norm(x, ord=None, axis=None, keepdims=False):
    b = W(_o(x))
    if ord not in (None, 2, "fro") or (ord == 2 and b.ndim > 1 and axis is None):
        if ord == 1 and b.ndim == 1:
            return np_sum(apply_uf("abs", (b,)))
        if ord == math.inf and b.ndim == 1:
            return np_max(apply_uf("abs", (b,)))
        return generic(np.linalg.norm)(x, ord, axis, keepdims)
    sq = elem(lambda z: SymC.of(z).abs2() if isinstance(z, (SymC, complex)) else z * z, b)
    return apply_uf("sqrt", (np_sum(sq, axis=axis, keepdims=keepdims),))


def la_solve(A, b):
    if not has_sym(A) and not has_sym(b):
        return generic(np.linalg.solve)(A, b)
    A, b = W(_o(A)), W(_o(b))
    if not has_sym(A):
        return np_matmul(W(np.linalg.inv(native(A))), b)
    one = b.ndim == 1
    x = solve_sym(A.view(_ND), b.view(_ND)[:, None] if one else b.view(_ND))
    if x is None:
        raise np.linalg.LinAlgError("Singular matrix")
    return W(x[:, 0] if one else x)


def la_inv(A):
    if not has_sym(A):
        return generic(np.linalg.inv)(A)
    return la_solve(A, np_eye(_o(A).shape[0]))


def la_lstsq(A, b, rcond=None):
    return lstsq_any(A, b, rcond=rcond)


def _generic_rank(M):
    c = ctx()
    if c.guided:
        return int(np.linalg.matrix_rank(np.array([core._val(v) for v in M.ravel()], float).reshape(M.shape)))
    rng = np.random.default_rng(12345)
    vals = {}

    def ev(v):
        v = lift(v)
        if v.den:
            raise Unsupported("rank of a rational matrix")
        r = 0.0
        for m, k in v.num.t.items():
            q = float(k)
            for i, e in m:
                if i not in vals:
                    vals[i] = rng.uniform(0.1, 0.9)
                q *= vals[i] ** e
            r += q
        return r
    return int(np.linalg.matrix_rank(np.array([ev(v) for v in M.ravel()], float).reshape(M.shape)))


def la_matrix_rank(A, *a, **k):
    if not has_sym(A):
        return int(np.linalg.matrix_rank(native(W(_o(A))).astype(float), *a, **k))
    if ctx().opt.get("rank") == "generic":
        # rank for all values outside a set of measure zero
        return _generic_rank(_o(A))
    # symbolic: rank by forked Gaussian elimination (exact)
    M = np.array(_o(A))
    if M.ndim == 1:
        return 1 if bool(np_any(W(M) != 0)) else 0
    m, n = M.shape
    r = 0
    for j in builtins_range(n):
        p = None
        for i in builtins_range(r, m):
            if bool(as_bool(norm_scalar(M[i, j]) != 0)):
                p = i
                break
        if p is None:
            continue
        M[[r, p]] = M[[p, r]]
        for i in builtins_range(r + 1, m):
            f = s_div(M[i, j], M[r, j])
            for q in builtins_range(j, n):
                M[i, q] = M[i, q] - f * M[r, q]
        r += 1
        if r == m:
            break
    return r


linalg.norm = la_norm
linalg.solve = la_solve
linalg.inv = la_inv
linalg.lstsq = la_lstsq
linalg.matrix_rank = la_matrix_rank
linalg.det = lambda A: det_sym(_o(A)) if has_sym(A) else generic(np.linalg.det)(A)
linalg.pinv = generic(np.linalg.pinv)
linalg.svd = generic(np.linalg.svd)
linalg.eig = generic(np.linalg.eig)
linalg.eigvals = generic(np.linalg.eigvals)
linalg.cond = generic(np.linalg.cond)
linalg.qr = generic(np.linalg.qr)


# ------------------------------------------------------------------ fft

fft = _NS("numpy.fft")


def _tw(k, n):
    k = k % n
    a = 2 * math.pi * k / n
    return core.snap(math.cos(a)), core.snap(math.sin(a))


def _dft(xs, n, sign, nout=None, scale=1.0):
    out = []
    cx = any(isinstance(x, (SymC, complex)) for x in xs)
    for k in builtins_range(nout or n):
        re, im = [], []
        for t, x in enumerate(xs):
            c, s = _tw(k * t, n)
            s = s * sign
            if cx:
                z = SymC.of(x)
                if c:
                    re.append(z.re * c)
                    im.append(z.im * c)
                if s:
                    re.append(-z.im * s)
                    im.append(z.re * s)
            else:
                if c:
                    re.append(x * c)
                if s:
                    im.append(x * s)
        r, i = _sum(re), _sum(im)
        if scale != 1.0:
            r, i = r * scale, i * scale
        out.append((r, i))
    top = max([abs(c) for z in out for v in z if isinstance(v, Sym) for c in v.num.t.values()] or [0])
    if top:
        out = [(_denoise(r, top), _denoise(i, top)) for r, i in out]
    return [SymC(r, i) if is_sym(r) or is_sym(i) else complex(r, i) for r, i in out]


def _denoise(v, top):
    """drops the rounding noise that the inexact twiddle factors leave where terms cancel"""
    if not isinstance(v, Sym) or all(abs(c) * 10 ** 12 > top for c in v.num.t.values()):
        return v
    t = {m: c for m, c in v.num.t.items() if abs(c) * 10 ** 12 > top}
    return core.mk(core.Poly(t), v.den) if t else 0.0


def _fft_axis(a, n, axis, f):
    b = _o(a)
    t = np.moveaxis(b, axis, -1)
    rows = []
    for i in np.ndindex(t.shape[:-1]):
        xs = [norm_scalar(e) for e in t[i]]
        xs = [e.ind() if isinstance(e, SymBool) else e for e in xs]
        rows.append(f(xs))
    L = len(rows[0])
    r = np.empty(t.shape[:-1] + (L,), dtype=object)
    for q, i in enumerate(np.ndindex(t.shape[:-1])):
        for j in builtins_range(L):
            r[i + (j,)] = rows[q][j]
    return W(np.moveaxis(r, -1, axis))


def _pad(xs, n):
    if n is None:
        return xs
    n = operator.index(n)
    return xs[:n] + [0.0] * (n - len(xs))


def fft_fft(a, n=None, axis=-1, norm=None):
    def f(xs):
        xs = _pad(xs, n)
        hook = ctx().opt.get("fft_hook")
        if hook and any(is_sym(x) for x in xs):
            r = hook("fft", xs)
            if r is not None:
                return r
        if not any(is_sym(x) for x in xs):
            return [complex(v) for v in np.fft.fft(np.array(xs, dtype=complex))]
        return _dft(xs, len(xs), -1)
    return _fft_axis(a, n, axis, f)


def fft_ifft(a, n=None, axis=-1, norm=None):
    def f(xs):
        xs = _pad(xs, n)
        if not any(is_sym(x) for x in xs):
            return [complex(v) for v in np.fft.ifft(np.array(xs, dtype=complex))]
        return _dft(xs, len(xs), 1, scale=Fraction(1, len(xs)))
    return _fft_axis(a, n, axis, f)


def fft_rfft(a, n=None, axis=-1, norm=None):
    def f(xs):
        xs = _pad(xs, n)
        hook = ctx().opt.get("fft_hook")
        if hook and any(is_sym(x) for x in xs):
            r = hook("rfft", xs)
            if r is not None:
                return r
        if not any(is_sym(x) for x in xs):
            return [complex(v) for v in np.fft.rfft(np.array(xs, dtype=float))]
        return _dft(xs, len(xs), -1, nout=len(xs) // 2 + 1)
    return _fft_axis(a, n, axis, f)


def fft_irfft(a, n=None, axis=-1, norm=None):
    def f(xs):
        m = operator.index(n) if n is not None else 2 * (len(xs) - 1)
        xs = _pad(xs, m // 2 + 1)
        if not any(is_sym(x) for x in xs):
            return [float(v) for v in np.fft.irfft(np.array(xs, dtype=complex), m)]
        full = [SymC(SymC.of(xs[0]).re, 0.0)]
        for k in builtins_range(1, m // 2 + 1):
            z = SymC.of(xs[k])
            if m % 2 == 0 and k == m // 2:
                z = SymC(z.re, 0.0)
            full.append(z)
        for k in builtins_range(m // 2 + 1, m):
            full.append(full[m - k].conjugate())
        return [SymC.of(z).re for z in _dft(full, m, 1, scale=Fraction(1, m))]
    return _fft_axis(a, n, axis, f)


def _shift(x, axes, inv):
    b = _o(x)
    axes = builtins_range(b.ndim) if axes is None else ([axes] if isinstance(axes, int) else axes)
    for ax in axes:
        n = b.shape[ax]
        b = np.roll(b, -(n // 2) if inv else n // 2, ax)
    return W(b)


fft.fft = fft_fft
fft.ifft = fft_ifft
fft.rfft = fft_rfft
fft.irfft = fft_irfft
fft.fftfreq = lambda n, d=1.0: W(_o([(k if k <= (n - 1) // 2 else k - n) / (d * n) for k in builtins_range(operator.index(n))]))
fft.rfftfreq = lambda n, d=1.0: W(_o([k / (d * n) for k in builtins_range(operator.index(n) // 2 + 1)]))
fft.fftshift = lambda x, axes=None: _shift(x, axes, False)
fft.ifftshift = lambda x, axes=None: _shift(x, axes, True)


# ------------------------------------------------------------------ random

class SymGenerator:
    """numpy Generator / RandomState stand-in: every draw is a fresh symbolic input
    (standard normal draws bounded by opt['normal_bound'], uniform draws by [0,1])."""

    def _draw(self, kind, size):
        c = ctx()
        B = c.opt.get("normal_bound", 4)

        def one():
            n = c.opt.get("_rng_n", 0)
            c.opt["_rng_n"] = n + 1
            v = c.input_real(f"rng_n{n}", -B, B) if kind == "n" else c.input_real(f"rng_u{n}", 0, 1)
            c.opt.setdefault("_draws", []).append(v)
            return v
        if size is None or size == ():
            return one()
        shape = _dims(size)
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            r[i] = one()
        return W(r)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._draw("n", size)

    def randn(self, *shape):
        return self._draw("n", shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinstance(loc, _ND) or isinstance(scale, _ND)):
            size = np.broadcast_shapes(np.shape(_o(loc)), np.shape(_o(scale)))
        return self._draw("n", size) * scale + loc

    def random(self, size=None, **k):
        return self._draw("u", size)

    random_sample = random

    def rand(self, *shape):
        return self._draw("u", shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw("u", size) * (high - low) + low

    def integers(self, *a, **k):
        raise Unsupported("random integers")

    randint = integers

    def spawn(self, n):
        return [SymGenerator() for _ in range(n)]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"random.{n}")


class _Random(types.ModuleType):
    pass


random = _Random("numpy.random")
_g = SymGenerator()
for _n in ("randn", "normal", "rand", "uniform", "standard_normal", "random", "random_sample", "randint"):
    setattr(random, _n, getattr(_g, _n))
random.seed = lambda *a, **k: None
random.default_rng = lambda seed=None: seed if isinstance(seed, SymGenerator) else SymGenerator()
random.RandomState = lambda *a, **k: SymGenerator()
random.Generator = type("Generator", (), {"__instancecheck__": None})


class _GenMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SymGenerator, np.random.Generator))


random.Generator = _GenMeta("Generator", (), {})


# ------------------------------------------------------------------ the numpy module

SHIM = {}
for _n in UF:
    SHIM[_n] = (lambda name: lambda *a, out=None, where=True, dtype=None, **k: apply_uf(name, a, out, where, dtype))(_n)


class UfProxy:
    """np.add / np.maximum ... with .reduce, .accumulate, .outer"""

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        return apply_uf(self.__name__, a, out, where, dtype)

    def reduce(self, a, axis=0, keepdims=False, **k):
        return W(_o(a)).__array_ufunc__(self, "reduce", a, axis=axis, keepdims=keepdims)

    def accumulate(self, a, axis=0, **k):
        return wrap_out(_accumulate(self.__name__, a, axis))

    def outer(self, a, b, **k):
        return W(_o(a)).__array_ufunc__(self, "outer", a, b)

    def at(self, a, idx, b=None):
        idx = _fix1(idx, None)
        f = UF[self.__name__][0]
        base = a.view(_ND)
        if isinstance(idx, _ND):
            bb = np.broadcast_to(_o(b), idx.shape)
            for j in np.ndindex(idx.shape):
                base[idx[j]] = f(base[idx[j]], bb[j])
        else:
            base[idx] = f(base[idx], norm_scalar(b))


for _n in list(UF):
    SHIM[_n] = UfProxy(_n)

for _n, _f in list(globals().items()):
    if _n.startswith("np_") and callable(_f):
        SHIM[_n[3:]] = _f
SHIM.update({
    "amax": np_max, "amin": np_min, "around": np_round, "round_": np_round, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "empty": np_zeros, "empty_like": np_zeros_like, "identity": np_eye,
    "nanpercentile": np_percentile, "sinc": lambda x: elem(s_sinc, x), "in1d": np_isin, "trapz": np_trapezoid,
    "fix": SHIM["trunc"], "inner": np_dot, "vdot": lambda a, b: np_dot(W(_o(a)).conj(), b),
    "isreal": lambda x: elem(lambda z: not isinstance(z, (complex, SymC)) or as_bool(z.imag == 0), x),
    "isneginf": lambda x: elem(lambda z: not is_sym(z) and z == -math.inf, x),
    "isposinf": lambda x: elem(lambda z: not is_sym(z) and z == math.inf, x),
    "divmod": lambda a, b: (apply_uf("floor_divide", (a, b)), apply_uf("mod", (a, b))),
    "matmul": np_matmul, "asfarray": lambda x: np_asarray(x, dtype=float),
    "maximum": SHIM["maximum"], "modf": lambda x: (x - SHIM["trunc"](x), SHIM["trunc"](x)),
})
for _n in ("reshape", "transpose", "moveaxis", "swapaxes", "roll", "flip", "fliplr", "flipud", "tile", "repeat",
           "broadcast_to", "squeeze", "expand_dims", "ravel", "delete", "insert", "append", "split", "array_split",
           "diag", "diagonal", "trace", "kron", "rot90", "pad", "meshgrid", "tril", "triu", "broadcast_arrays",
           "hsplit", "vsplit", "resize", "rollaxis", "cross", "vander", "ediff1d", "ix_", "triu_indices"):
    SHIM[_n] = structural(getattr(np, _n))
for _n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack"):
    if hasattr(np, _n):
        SHIM[_n] = _seq_structural(getattr(np, _n))
SHIM["block"] = structural(np.block)


def np_interp_ok():
    return True


class _CClass:
    """np.r_ / np.c_ on symbolic pieces"""

    def __init__(self, real, col):
        self.real = real
        self.col = col

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(_o(W(np.r_[slice(*[operator.index(v) if is_sym(v) else v for v in (k.start, k.stop, k.step)])])))
            else:
                parts.append(np.atleast_1d(_o(k)))
        if self.col:
            return W(np.column_stack(parts))
        return W(np.concatenate(parts))


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return py_isinstance(o, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


def make_type(name, base, kind):
    def new(cls, x=0, *a, **k):
        if isinstance(x, SymArray):
            return x.astype(base) if x.ndim else x.astype(base)[()]
        x = norm_scalar(x)
        if is_sym(x):
            return _cast(x, kind)
        if isinstance(x, Fraction):
            x = float(x)
        return base(x, *a, **k)
    t = _TypeMeta(name, (), {"__new__": new, "_base": base})
    return t


_real_isinstance = isinstance


def py_isinstance(o, t):
    """isinstance with symbolic scalars counting as the python/numpy types they stand for"""
    if _real_isinstance(t, tuple):
        return any(py_isinstance(o, x) for x in t)
    if _real_isinstance(t, types.UnionType):
        return any(py_isinstance(o, x) for x in t.__args__)
    base = getattr(t, "_base", None) if _real_isinstance(t, type) else None
    if base is not None:
        t = base
    if _real_isinstance(o, SYMS):
        k = scalar_kind(o)
        fam = {"f": (float, np.floating, np.float64, np.number, np.inexact, np.generic),
               "i": (int, np.integer, np.int64, np.number, np.generic),
               "b": (bool, np.bool_, int, np.generic),
               "c": (complex, np.complexfloating, np.complex128, np.number, np.generic)}[k]
        import numbers
        if t in (numbers.Number, numbers.Complex):
            return True
        if t is numbers.Real:
            return k != "c"
        if t is numbers.Integral:
            return k in "ib"
        return t in fam or t is object
    return _real_isinstance(o, t)


class NpModule(types.ModuleType):
    def __getattr__(self, n):
        v = SHIM.get(n)
        if v is not None:
            return v
        if n == "linalg":
            return linalg
        if n == "fft":
            return fft
        if n == "random":
            return random
        if n == "r_":
            return _CClass(np.r_, False)
        if n == "c_":
            return _CClass(np.c_, True)
        v = getattr(np, n)
        if isinstance(v, type) and issubclass(v, np.generic):
            k = {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c"}.get(np.dtype(v).kind if v not in (
                np.number, np.integer, np.floating, np.generic, np.inexact, np.signedinteger, np.complexfloating) else "", None)
            if k:
                t = make_type(n, v, k)
                self.__dict__[n] = t
                return t
            return v
        if isinstance(v, (type, float, int, str)) or v is None or isinstance(v, types.ModuleType):
            return v
        if callable(v):
            return generic(v)
        return v


npmod = NpModule("numpy")
npmod.__path__ = []


# ------------------------------------------------------------------ math

class MathModule(types.ModuleType):
    _map = {"sqrt": s_sqrt, "log10": s_log10, "log": None, "log2": s_log2, "exp": s_exp_any, "sin": s_sin, "cos": s_cos,
            "floor": s_floor, "ceil": s_ceil, "trunc": s_trunc, "fabs": s_abs, "atan2": s_arctan2, "atan": s_arctan,
            "isfinite": s_isfinite, "isnan": s_isnan, "isinf": s_isinf, "hypot": s_hypot, "pow": s_pow, "tan": s_tan,
            "acos": _acos, "asin": _asin, "fmod": s_fmod}

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        m = self._map.get(n)

        def g(*a, **k):
            a = [norm_scalar(x) for x in a]
            if any(is_sym(x) for x in a):
                if n == "log":
                    r = s_log(a[0])
                    return r if len(a) == 1 else r / s_log(a[1])
                if n == "gcd":
                    return math.gcd(*[operator.index(x) for x in a])
                if n == "isclose":
                    x, y = a
                    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                    return s_abs(x - y) <= s_max(rt * s_max(s_abs(x), s_abs(y)), at)
                if n == "fsum":
                    return _sum(list(a[0]))
                if n in ("radians",):
                    return a[0] * (math.pi / 180)
                if n == "degrees":
                    return a[0] * (180 / math.pi)
                if n == "exp2":
                    return pow_any(2.0, a[0])
                if n == "copysign":
                    return SHIM["copysign"](*a)
                if m is None:
                    raise Unsupported(f"math.{n}")
                return m(*a)
            return f(*[float(x) if isinstance(x, Fraction) else x for x in a], **k)
        return g


mathmod = MathModule("math")


# ------------------------------------------------------------------ scipy

def sp_lstsq(a, b, cond=None, **k):
    x, res, rank, s = lstsq_any(a, b, rcond=cond)
    return x, res, rank, s


def sp_lfilter(b, a, x, axis=-1, zi=None):
    if not has_sym((b, a, x)) and zi is None:
        import scipy.signal
        return wrap_out(scipy.signal.lfilter(native(W(_o(b))), native(W(_o(a))), native(W(_o(x))), axis=axis))
    bb, aa = list(np.atleast_1d(_o(b))), list(np.atleast_1d(_o(a)))
    a0 = aa[0]
    bb = [s_div(v, a0) for v in bb]
    aa = [s_div(v, a0) for v in aa]
    n = max(len(bb), len(aa))
    bb += [0.0] * (n - len(bb))
    aa += [0.0] * (n - len(aa))
    t = np.moveaxis(_o(x), axis, -1)
    r = np.empty(t.shape, dtype=object)
    for i in np.ndindex(t.shape[:-1]):
        z = [0.0] * n if zi is None else list(_o(zi)) + [0.0]
        for j in builtins_range(t.shape[-1]):
            u = t[i + (j,)]
            y = bb[0] * u + z[0]
            for q in builtins_range(n - 1):
                z[q] = bb[q + 1] * u - aa[q + 1] * y + (z[q + 1] if q + 1 < n else 0.0)
            r[i + (j,)] = y
    return W(np.moveaxis(r, -1, axis))


def sp_hilbert(x, N=None, axis=-1):
    b = _o(x)
    n = b.shape[axis] if N is None else N
    h = [0.0] * n
    if n % 2 == 0:
        h[0] = h[n // 2] = 1.0
        for i in builtins_range(1, n // 2):
            h[i] = 2.0
    else:
        h[0] = 1.0
        for i in builtins_range(1, (n + 1) // 2):
            h[i] = 2.0
    if b.ndim != 1:
        raise Unsupported("hilbert on matrices")
    return fft_ifft(fft_fft(W(b)) * W(_o(h)))


def make_cubic(real):
    class CubicSpline:
        def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
            self.x = native(W(_o(x)))
            self.y = W(_o(y))
            self.bc = bc_type
            self.ex = extrapolate
            if has_sym(x):
                raise Unsupported("CubicSpline with symbolic knots")

        def __call__(self, t, nu=0, **k):
            if has_sym(t):
                raise Unsupported("CubicSpline at symbolic points")
            # the spline is linear in y: evaluate the basis splines
            n = len(self.x)
            tt = native(W(_o(t)))
            M = np.empty((np.size(tt), n))
            for j in builtins_range(n):
                e = np.zeros(n)
                e[j] = 1.0
                M[:, j] = np.ravel(real(self.x, e, bc_type=self.bc, extrapolate=self.ex)(tt, nu))
            M[np.abs(M) < 1e-14] = 0.0
            r = np_matmul(W(M), self.y)
            return r.reshape(np.shape(tt)) if np.ndim(tt) else r[0]
    return CubicSpline


class ScipyModule(types.ModuleType):
    """real scipy for concrete arguments, symbolic versions for the functions used"""

    def __init__(self, name, special):
        super().__init__(name)
        self.__dict__["_special"] = special
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        sp = self._special.get(n)
        if sp is not None:
            return sp
        import importlib
        real = importlib.import_module(self.__name__)
        try:
            v = getattr(real, n)
        except AttributeError:
            v = importlib.import_module(self.__name__ + "." + n)
        if isinstance(v, types.ModuleType):
            return scipy_module(self.__name__ + "." + n)
        if callable(v):
            return generic(v)
        return v


_sp_cache = {}


def scipy_module(name):
    if name in _sp_cache:
        return _sp_cache[name]
    special = {}
    if name == "scipy.linalg":
        special = {"lstsq": sp_lstsq, "solve": la_solve, "norm": la_norm, "inv": la_inv}
    elif name == "scipy.signal":
        special = {"lfilter": sp_lfilter, "hilbert": sp_hilbert}
    elif name == "scipy.interpolate":
        import scipy.interpolate
        special = {"CubicSpline": make_cubic(scipy.interpolate.CubicSpline)}
    elif name == "scipy.fft":
        special = {k: getattr(fft, k) for k in ("fft", "ifft", "rfft", "irfft", "fftfreq", "rfftfreq", "fftshift")}
    m = ScipyModule(name, special)
    _sp_cache[name] = m
    return m
