"""C29 data validators."""
import math
import warnings

from engine.core import Inconclusive, Unsupported
from engine.run import Scenario

BOUNDS = ("analog: 1..4 samples in one dimension and 2x1, 1x3, 2x2, 3x1 records with symbolic values in [-4,4], minimum sample count symbolic in 0..6 or the default 100; "
          "digital: up to 4 entries of any real in [-2,3], up to 4x2 entries of symbolic 0/1, minimum symbolic in 0..6 or default; NaN and both infinities at every position "
          "(symbolic) of up to 6 samples; wrong dimensions 0..4, complex, text, object and empty data; 99, 100 and 101 samples at the default minimum")
OUTSIDE = "boolean matrices (rejected by the numeric check although a comment allows them); the wording of messages; ranges between 1e-11 and 1e-9"
V = "adctoolbox.fundamentals.validate:"


def outcome(s, f, *a, **k):
    """(accepted, error, number of warnings)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            f(*a, **k)
            err = None
        except (Unsupported, Inconclusive):
            raise
        except ValueError as e:
            err = e
    return err is None, len([w for w in rec if issubclass(w.category, UserWarning)])


def analog(s, shape, default=False, aslist=False, lo=-4, hi=4):
    f = s.get(V + "validate_aout_data")
    n = math.prod(shape)
    x = [s.real(f"x{i}", lo, hi) for i in range(n)]
    kw, m = {}, 100
    if not default:
        m = kw["min_samples"] = s.int("m", 0, 6)
    a = list(x) if aslist else s.np.array(x).reshape(shape)
    ok, nw = outcome(s, f, a, **kw)
    enough = max(shape) >= m
    same = s.all(*[v == x[0] for v in x[1:]]) if n > 1 else True
    s.true(s.all(enough, s.Not(same)) if ok else s.any(s.Not(enough), same), "accepted exactly when long enough and not constant")
    if ok:
        big = s.any(*[s.abs(p - q) > 1e-9 for i, p in enumerate(x) for q in x[:i]])
        small = s.all(*[s.abs(p - q) < 1e-11 for i, p in enumerate(x) for q in x[:i]])
        s.true(s.Not(small) if nw == 0 else True, "a vanishing range warns")
        s.true(s.Not(big) if nw else True, "an ordinary range does not warn")


def tiny(s, n):
    """ranges around the vanishing one"""
    f = s.get(V + "validate_aout_data")
    d = [s.real(f"d{i}", 0, 40) for i in range(n)]
    s.assume(s.any(*[v > 0.01 for v in d]))
    x = [0.0] + [v * 1e-11 for v in d]
    ok, nw = outcome(s, f, s.np.array(x), min_samples=1)
    s.true(ok, "a record that varies is accepted")
    if not nw:
        s.true(s.any(*[v > 1 for v in d]), "a vanishing range warns")


def poisoned(s, which, shape, bad):
    """one bad entry anywhere"""
    f = s.get(V + which)
    n = math.prod(shape)
    if which.startswith("validate_aout"):
        x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    else:
        x = [s.int(f"x{i}", 0, 1) for i in range(n)]
    p = s.conc(s.int("p", 0, n - 1))
    x[p] = bad
    a = s.np.array(x).reshape(shape)
    ok, _ = outcome(s, f, a, min_samples=0)
    s.true(not ok, "NaN, infinite and complex entries are refused")


def shaped(s, which, shape):
    """dimensions"""
    f = s.get(V + which)
    n = math.prod(shape)
    x = [s.int(f"x{i}", 0, 1) for i in range(n)]
    a = s.np.array(x).reshape(shape)
    ok, _ = outcome(s, f, a, min_samples=0)
    dims = (1, 2) if "aout" in which else (2,)
    if len(shape) not in dims or n == 0:
        s.true(not ok, "wrong dimensions and empty data are refused")
    elif "dout" in which:
        s.true(ok, "0/1 matrices are accepted")


def content(s, which, what):
    import numpy
    f = s.get(V + which)
    s.real("unused", 0, 1)
    a = {"text": numpy.array([["0", "1"], ["1", "0"]]), "empty": [], "emptyrows": numpy.zeros((0, 3)), "emptycols": numpy.zeros((3, 0)),
         "scalar": 1.0, "none": None, "complex": numpy.array([[1 + 0j, 0], [0, 1]])}[what]
    ok, _ = outcome(s, f, a, min_samples=0)
    s.true(not ok, "unusable content is refused")


def digital(s, shape, kind, default=False):
    f = s.get(V + "validate_dout_data")
    N, M = shape
    if kind == "real":
        x = [[s.real(f"x{i}{j}", -2, 3) for j in range(M)] for i in range(N)]
    else:
        x = [[s.int(f"x{i}{j}", 0 if kind == "bits" else -1, 1 if kind == "bits" else 2) for j in range(M)] for i in range(N)]
    kw, m = {}, 100
    if not default:
        m = kw["min_samples"] = s.int("m", 0, 6)
    ok, nw = outcome(s, f, s.np.array(x), **kw)
    enough = N >= m
    binary = s.all(*[s.any(v == 0, v == 1) for r in x for v in r])
    s.true(s.all(enough, binary) if ok else s.any(s.Not(enough), s.Not(binary)), "accepted exactly for enough rows of zeros and ones")
    if ok and M <= N:
        stuck = s.any(*[s.any(s.all(*[r[j] == 0 for r in x]), s.all(*[r[j] == 1 for r in x])) for j in range(M)])
        s.true(stuck if nw else s.Not(stuck), "stuck columns warn, working ones do not")


def counted(s, which, n):
    """the default minimum"""
    f = s.get(V + which)
    b = [s.int("b0", 0, 1), s.int("b1", 0, 1)]
    s.assume(b[0] != b[1])
    if "aout" in which:
        a = s.np.array([b[i % 2] * 1.0 for i in range(n)])
    else:
        a = s.np.array([[b[i % 2]] for i in range(n)])
    ok, nw = outcome(s, f, a)
    s.true(ok == (n >= 100), "a hundred samples by default")
    if ok:
        s.true(nw == 0, "no warning")


def scenarios():
    A, D = "validate_aout_data", "validate_dout_data"
    out = [Scenario(f"analog_{'x'.join(map(str, sh))}", analog, shape=sh) for sh in [(1,), (2,), (3,), (4,), (2, 1), (1, 3), (2, 2), (3, 1)]]
    out += [Scenario("analog_default", analog, shape=(3,), default=True), Scenario("analog_list", analog, shape=(3,), aslist=True),
            Scenario("analog_negative", analog, shape=(3,), lo=-5, hi=-1),
            Scenario("tiny_1", tiny, n=1), Scenario("tiny_2", tiny, n=2)]
    for w, shapes in ((A, [(4,), (3, 2)]), (D, [(3, 2)])):
        for sh in shapes:
            for t, b in (("nan", math.nan), ("inf", math.inf), ("ninf", -math.inf), ("cpl", 1j)):
                out.append(Scenario(f"poison_{w[9:13]}_{len(sh)}_{t}", poisoned, which=w, shape=sh, bad=b, validate=1))
    for w in (A, D):
        for sh in [(2,), (4,), (2, 2), (2, 1), (1, 2, 2), (2, 1, 1), (1, 1, 2, 1)]:
            out.append(Scenario(f"shape_{w[9:13]}_{'x'.join(map(str, sh))}", shaped, which=w, shape=sh, validate=1))
        for c in ("text", "empty", "emptyrows", "emptycols", "scalar", "none", "complex"):
            out.append(Scenario(f"content_{w[9:13]}_{c}", content, which=w, what=c, validate=1))
        for n in (2, 99, 100, 101):
            out.append(Scenario(f"default_{w[9:13]}_{n}", counted, which=w, n=n, validate=1))
    out += [Scenario("digital_real_2x2", digital, shape=(2, 2), kind="real"), Scenario("digital_real_3x1", digital, shape=(3, 1), kind="real"),
            Scenario("digital_real_1x3", digital, shape=(1, 3), kind="real"),
            Scenario("digital_int_3x1", digital, shape=(3, 1), kind="int"), Scenario("digital_int_2x2", digital, shape=(2, 2), kind="int"),
            Scenario("digital_bits_3x2", digital, shape=(3, 2), kind="bits"), Scenario("digital_bits_4x2", digital, shape=(4, 2), kind="bits"),
            Scenario("digital_bits_2x3", digital, shape=(2, 3), kind="bits"),
            Scenario("digital_default", digital, shape=(2, 2), kind="bits", default=True)]
    return out
