"""C20 ramp-histogram INL/DNL is an exact function of the code histogram."""
from engine.run import Scenario

BOUNDS = ("every sequence of up to 7 free codes added to a fixed base histogram of up to 40 samples, over code ranges of 2..8 codes with offsets -5..3 given by num_bits, code_max or the data; "
          "the three baselines, end codes kept or dropped, one- and two-dimensional input; rejection for every fractional part and every out-of-range code")
OUTSIDE = "longer free sequences and wider code ranges; the drawn plot"
C = "adctoolbox.aout.compute_inl_from_ramp:compute_inl_from_ramp"
A = "adctoolbox:analyze_inl_from_ramp"


def line_fit(ys):
    """least-squares straight line through equally spaced points"""
    n = len(ys)
    m = sum(ys) / n
    c = (n - 1) / 2
    k = sum((i - c) * y for i, y in enumerate(ys)) / sum((i - c) ** 2 for i in range(n))
    return [m + k * (i - c) for i in range(n)]


def expected(s, cnt, codes, endpoint):
    n = len(codes)
    mean = sum(cnt) / n
    dnl = [c / mean - 1 for c in cnt]
    raw = [0.0]
    for d in dnl:
        raw.append(raw[-1] + d)
    if endpoint == "none":
        inl = list(raw)
    elif endpoint.startswith("endpoint"):
        inl = [raw[i] - (raw[0] + (raw[-1] - raw[0]) * i / n) for i in range(n + 1)]
    else:
        f = line_fit(raw)
        inl = [raw[i] - f[i] for i in range(n + 1)]
    return mean, dnl, raw, inl


def call(s, x, how, lo, hi, endpoint, excl, wrap):
    kw = {} if endpoint is None else {"endpoint": endpoint}
    if excl is not None:
        kw["exclude_endpoints"] = excl
    if lo:
        kw["code_min"] = lo
    if how == "bits":
        kw["num_bits"] = (hi - lo + 1).bit_length() - 1
    elif how == "max":
        kw["code_max"] = hi
    if wrap:
        return s.get(A)(x, create_plot=False, **kw)
    return s.get(C)(x, **kw)


def hist(s, n, lo, hi, how="bits", endpoint="endpoints", excl=True, base=(), two_d=False, wrap=False):
    """base: fixed extra samples as (code, number)"""
    fixed = [c for c, k in base for _ in range(k)]
    xs = [s.int(f"x{i}", lo, hi) for i in range(n)]
    seq = xs[:n // 2] + fixed + xs[n // 2:]
    if how == "auto":
        s.assume(s.any(*[v == hi for v in seq]))
    cnt = [sum(s.ite(v == c, 1, 0) for v in xs) + sum(k for b, k in base if b == c) for c in range(lo, hi + 1)]
    ex = True if excl is None else excl
    codes = list(range(lo, hi + 1))
    if ex and len(codes) > 2:
        codes, cnt = codes[1:-1], cnt[1:-1]
    x = s.np.array(seq)
    if two_d:
        x = x.reshape(2, -1)
    if s.conc(sum(cnt)) == 0:
        s.raises(ValueError, "no sample in the analysed range is an error", lambda: call(s, x, how, lo, hi, endpoint, excl, wrap))
        return
    r = call(s, x, how, lo, hi, endpoint, excl, wrap)
    m = len(codes)
    mean, dnl, raw, inl = expected(s, cnt, codes, endpoint or "endpoints")
    s.same_shape(r["dnl"], (m,), "one DNL value per analysed code")
    s.same_shape(r["inl"], (m + 1,), "one INL value per transition")
    s.true([int(c) for c in r["code"]] == codes, "analysed codes")
    s.true([int(c) for c in r["transition_code"]] == codes + [codes[-1] + 1], "transition codes")
    s.eq(r["counts"], cnt, "hit counts")
    s.eq(r["ideal_count"], mean, "mean count")
    s.eq(r["dnl"], dnl, "DNL is count over mean minus one")
    s.eq(sum(r["dnl"][i] for i in range(m)), 0.0, "DNL averages zero")
    s.eq(r["raw_inl"], raw, "raw INL is the running sum of DNL")
    s.eq(r["inl"], inl, "INL is baseline corrected")
    if (endpoint or "endpoints") == "endpoints":
        s.eq(r["inl"][0], 0.0, "end-point INL starts at zero")
        s.eq(r["inl"][m], 0.0, "end-point INL ends at zero")
    miss = [int(c) for c in r["missing_codes"]]
    for c, k in zip(codes, cnt):
        s.true(k == 0 if c in miss else k > 0, "missing codes are those with no hit")
    s.true(len(set(miss)) == len(miss) and set(miss) <= set(codes), "missing codes are distinct analysed codes")
    for key, arr in (("dnl", dnl), ("inl", inl)):
        lo_, hi_ = r[key + "_min"], r[key + "_max"]
        s.true(s.all([lo_ <= v + 1e-9 for v in arr]), key + " minimum is a lower bound")
        s.true(s.any([s.abs(lo_ - v) <= 1e-9 for v in arr]), key + " minimum is attained")
        s.true(s.all([hi_ >= v - 1e-9 for v in arr]), key + " maximum is an upper bound")
        s.true(s.any([s.abs(hi_ - v) <= 1e-9 for v in arr]), key + " maximum is attained")
        s.eq(r[key + "_pp"], hi_ - lo_, key + " peak to peak")
    s.true(r["code_min"] == lo, "reported lowest code")
    s.true(r["code_max"] == hi, "reported highest code")
    s.true(bool(r["exclude_endpoints"]) == ex, "reported end-code choice")


def order(s, n, lo, hi, endpoint):
    """any rotation, reversal or swap of the samples gives the same result"""
    xs = [s.int(f"x{i}", lo, hi) for i in range(n)]
    cnt = [sum(s.ite(v == c, 1, 0) for v in xs) for c in range(lo + 1, hi)]
    s.assume(sum(cnt) > 0)
    s.conc(sum(cnt))
    f = s.get(C)
    a = f(s.np.array(xs), code_min=lo, code_max=hi, endpoint=endpoint)
    for ys in (xs[::-1], [xs[1], xs[0]] + xs[2:], xs[1:] + xs[:1]):
        b = f(s.np.array(ys), code_min=lo, code_max=hi, endpoint=endpoint)
        s.eq(a["dnl"], b["dnl"], "DNL does not depend on sample order")
        s.eq(a["inl"], b["inl"], "INL does not depend on sample order")
        s.true(list(a["missing_codes"]) == list(b["missing_codes"]), "missing codes do not depend on sample order")


def rejects(s, wrap=False):
    f0 = s.get(A if wrap else C)
    f = (lambda *a, **k: f0(*a, create_plot=False, **k)) if wrap else f0
    k, frac = s.int("k", 0, 6), s.real("frac", 0.001, 0.999)
    ok = [0, 1, 2, 3, 4, 5, 6, 7]
    s.raises(ValueError, "non-integer code", lambda: f(s.np.array(ok + [k + frac]), num_bits=3))
    over, under = s.int("over", 8, 100), s.int("under", -100, -1)
    s.raises(ValueError, "code above the range", lambda: f(s.np.array(ok + [over]), num_bits=3))
    s.raises(ValueError, "code below the range", lambda: f(s.np.array([under] + ok), num_bits=3))
    s.raises(ValueError, "code below the range", lambda: f(s.np.array([under] + ok)))
    s.raises(ValueError, "code above the range", lambda: f(s.np.array([over] + ok), code_max=7))
    s.raises(ValueError, "all codes below the range", lambda: f(s.np.array([under, under])))
    s.raises(ValueError, "empty record", lambda: f(s.np.array([])))
    for bad in (float("nan"), float("inf"), -float("inf")):
        for i in (0, 4, 8):
            s.raises(ValueError, "non-finite code", lambda: f(s.np.array([float(v) for v in ok[:i]] + [bad] + [float(v) for v in ok[i:]]), num_bits=3))
    x = s.np.array(ok)
    for b in (0, -1, 2.5, "3"):
        s.raises(ValueError, "bad resolution", lambda: f(x, num_bits=b))
    s.raises(ValueError, "bad lowest code", lambda: f(x, code_min=0.5))
    s.raises(ValueError, "bad highest code", lambda: f(x, code_max=7.5))
    lo = s.conc(s.int("lo", -3, 3))
    gap = s.conc(s.int("gap", 1, 3))
    s.raises(ValueError, "limits in the wrong order", lambda: f(x, code_min=lo, code_max=lo - gap))
    for e in ("best", "", None, 3):
        s.raises(ValueError, "unknown baseline", lambda: f(x, num_bits=3, endpoint=e))
    for e in ("FIT", "Endpoints", "None", "endpoint"):
        s.eq(f(x, num_bits=3, endpoint=e)["inl"], [0.0] * 7, "baseline names ignore case")
    if wrap:
        s.raises(ValueError, "voltage input not supported", lambda: f(x, num_bits=3, input_type="voltage"))


def scenarios():
    r = [Scenario("rejects", rejects, max_paths=6000), Scenario("rejects_wrapper", rejects, wrap=True, max_paths=6000)]
    for e in ("endpoints", "fit", "none"):
        for excl in (True, False):
            r.append(Scenario(f"b2_{e}_{excl}", hist, n=5, lo=0, hi=3, endpoint=e, excl=excl))
            r.append(Scenario(f"b3_{e}_{excl}", hist, n=3 if e == "fit" else 4, lo=0, hi=7, endpoint=e, excl=excl, base=((1, 3), (4, 2), (6, 5))))
            r.append(Scenario(f"off_{e}_{excl}", hist, n=4, lo=-5, hi=-1, how="max", endpoint=e, excl=excl, base=((-5, 9), (-3, 2))))
            r.append(Scenario(f"auto_{e}_{excl}", hist, n=5, lo=0, hi=4, how="auto", endpoint=e, excl=excl))
        r.append(Scenario(f"order_{e}", order, n=4, lo=0, hi=4, endpoint=e))
    r.append(Scenario("default", hist, n=4, lo=0, hi=3, endpoint=None, excl=None))
    r.append(Scenario("b1", hist, n=5, lo=0, hi=1))
    r.append(Scenario("b1_off", hist, n=5, lo=3, hi=4, how="bits", endpoint="fit"))
    r.append(Scenario("three", hist, n=5, lo=0, hi=2, how="max"))
    r.append(Scenario("one", hist, n=3, lo=2, hi=2, how="max", endpoint="fit", excl=False))
    r.append(Scenario("two_d", hist, n=4, lo=0, hi=3, two_d=True, endpoint="fit"))
    r.append(Scenario("wrapper", hist, n=4, lo=0, hi=3, wrap=True, endpoint=None, excl=None))
    r.append(Scenario("wrapper_off", hist, n=4, lo=3, hi=7, how="max", wrap=True, endpoint="none", excl=False))
    r.append(Scenario("tall", hist, n=5, lo=0, hi=3, endpoint="fit", excl=False, base=((0, 17), (1, 8), (3, 12))))
    r.append(Scenario("long", hist, n=7, lo=0, hi=3, endpoint="endpoints", excl=True, tier="thorough", budget=1500))
    return r
