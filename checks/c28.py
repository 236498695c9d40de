"""C28 digital-output diagnostics."""
import itertools
import math

from engine.run import Scenario

BOUNDS = ("activity: up to 6 samples by 3 columns of symbolic 0/1; residue ranges: up to 4 samples by 3 columns, 0/1 or -1..2 codes, weights symbolic in [0,8] or [-4,8] "
          "with non-vanishing tail totals; residuals: up to 3 samples by 4 columns, signal in [-10,10], weights symbolic or default, every pair of stages; "
          "radix: 2 or 3 symbolic weights with symbolic signs; effective resolution: largest magnitude 1.6, 1 or 2 further symbolic significant weights in every order, with or without a dropped tail, and "
          "longer fixed shapes with symbolic common scale in [0.1,10] (1..8 at an exactly three-fold drop), signs and every listed order")
OUTSIDE = ("rounding of the residue at exactly 0 and 1 (weights whose sum depends on the order of addition); the LSB scale factor wgtsca beyond being positive; "
           "totals of exactly zero; the drawings")
D = "adctoolbox.dout:"


def dyadic(rng, d):
    for k, v in d.items():
        d[k] = round(v * 16) / 16 if isinstance(v, float) else v


def activity(s, N, M, kind, plot=False):
    f = s.get(D + ("check_bit_activity" if kind == "compat" else "analyze_bit_activity"))
    b = s.bits("b", (N, M))
    bb = b if kind != "list" else [[b[i, j] for j in range(M)] for i in range(N)]
    if kind == "bool":
        bb = s.np.array([[b[i, j] > 0 for j in range(M)] for i in range(N)])
    r = f(bb) if kind == "compat" else f(bb, create_plot=plot)
    s.same_shape(r, (M,), "one figure per bit")
    for j in range(M):
        s.eq(r[j], sum(b[i, j] for i in range(N)) * 100.0 / N, "percentage of ones", scale=100.0)
        s.ge(r[j], 0.0, "between 0 and 100")
        s.le(r[j], 100.0, "between 0 and 100")


def overflow(s, N, M, lo, wlo, plot=False, ofb=None, oned=False):
    f = s.get(D + "analyze_overflow")
    b = [[s.int(f"b{i}{j}", lo, 1 if lo == 0 else 2) for j in range(M)] for i in range(N)]
    w = [s.real(f"w{j}", wlo, 8) for j in range(M)]
    tot = [sum(w[j:]) for j in range(M)]
    for j in range(M):
        s.assume(s.abs(tot[j]) >= 0.25)
    raw = s.np.array([r[0] for r in b]) if oned else s.np.array(b)
    kw = {} if ofb is None else {"ofb": ofb}
    r0, r1, p0, p1 = f(raw, s.np.array(w), create_plot=plot, **kw)
    for r in (r0, r1, p0, p1):
        s.same_shape(r, (M,), "one figure per bit")
    for j in range(M):
        t = [sum(b[i][k] * w[k] for k in range(j, M)) for i in range(N)]
        if wlo >= 0 or s.holds(tot[j] > 0):
            mn, mx = t[0], t[0]
            for v in t[1:]:
                mn, mx = s.ite(v < mn, v, mn), s.ite(v > mx, v, mx)
            s.eq(r0[j] * tot[j], mn, "smallest residue", scale=10.0)
            s.eq(r1[j] * tot[j], mx, "largest residue", scale=10.0)
        if wlo >= 0 and lo == 0:
            s.ge(r0[j], 0.0, "inside the unit range")
            s.le(r1[j], 1.0, "inside the unit range")
            s.le(r0[j], r1[j], "ordered")
        n0 = sum(s.ite(v * tot[j] <= 0, 1.0, 0.0) for v in t)
        n1 = sum(s.ite((v - tot[j]) * tot[j] >= 0, 1.0, 0.0) for v in t)
        s.eq(p0[j], n0 * 100.0 / N, "underflow percentage", scale=100.0)
        s.eq(p1[j], n1 * 100.0 / N, "overflow percentage", scale=100.0)


def overflow_bad(s, M, L):
    f = s.get(D + "analyze_overflow")
    b = s.bits("b", (2, M))
    w = s.np.array([s.real(f"w{j}", 0.5, 2) for j in range(L)])
    s.raises(ValueError, "weights must match the columns", f, b, w, create_plot=False)


def residual(s, N, M, pairs, weights, plot=False, shape=None):
    f = s.get(D + "plot_residual_scatter")
    x = [s.real(f"x{i}", -10, 10) for i in range(N)]
    b = s.bits("b", (N, M))
    kw = {}
    w = [float(2 ** (M - 1 - j)) for j in range(M)]
    if weights == "sym":
        w = [s.real(f"w{j}", -8, 8) for j in range(M)]
        kw["weights"] = s.np.array(w)
    if pairs is not None:
        kw["pairs"] = pairs
    sig = s.np.array(x) if shape is None else s.np.array(x).reshape(shape)
    r = f(sig, b, create_plot=plot, **kw)
    exp = pairs if pairs is not None else [(i, M) for i in range(M)]
    s.true([tuple(p) for p in r["pairs"]] == [tuple(p) for p in exp], "pairs reported")
    s.true(len(r["residuals_x"]) == len(exp) and len(r["residuals_y"]) == len(exp), "one residual per pair")
    for n, (p, q) in enumerate(exp):
        for k, res in ((p, r["residuals_x"][n]), (q, r["residuals_y"][n])):
            s.same_shape(res, (N,), "one residual per sample")
            for i in range(N):
                s.eq(res[i], x[i] - sum(b[i, j] * w[j] for j in range(k)), "signal less the first k weighted bits", scale=10.0)
    for i in range(N):
        s.eq(sig.ravel()[i], x[i], "signal untouched")


def residual_bad(s):
    f = s.get(D + "plot_residual_scatter")
    s.raises(ValueError, "lengths must match", f, s.reals("x", 3, -1, 1), s.bits("b", (2, 2)), create_plot=False)


def _effres(s, sig):
    """log2(1 + total/smallest) as a power relation"""
    return s.np.log2(sum(sig) / sig[-1] + 1)


def signed(s, w, perm):
    out = [w[j] if (s.holds(s.int(f"s{j}", 0, 1) > 0) if j < 2 else j % 2) else -w[j] for j in range(len(w))]
    return [out[k] for k in perm]


def radix(s, M):
    """neighbouring ratios of magnitudes (equal magnitudes keep the resolution part trivial)"""
    f = s.get(D + "analyze_weight_radix")
    w = [s.real(f"w{j}", 0.5, 1.3) for j in range(M)]
    for a, b in zip(w, w[1:]):
        s.assume(a > b * 1.001)
    s.opt["branch_ms"] = 50
    v = signed(s, w, list(range(M)))
    r = f(s.np.array(v), create_plot=False)
    check_radix(s, r["radix"], w)
    s.true(r["wgtsca"] > 0, "scale factor positive")
    s.eq(r["effres"], _effres(s, w), "effective resolution")


def check_radix(s, rx, mags):
    s.same_shape(rx, (len(mags),), "one radix per weight")
    s.true(bool(rx[0] != rx[0]), "no radix before the first weight")
    for j in range(1, len(mags)):
        s.eq(rx[j] * mags[j], mags[j - 1], "ratio of neighbouring magnitudes")


def effres(s, perm, nsig, tail, hi):
    """magnitudes: nsig significant (adjacent ratios below 3), then a three-fold drop, then anything smaller"""
    f = s.get(D + "analyze_weight_radix")
    s.opt["branch_ms"] = 50
    w = [1.6]
    for j in range(1, nsig):
        w.append(s.real(f"w{j}", 0.3, 1.7))
        s.assume(w[j] < w[j - 1], w[j] * hi > w[j - 1])
    for j in range(tail):
        w.append(s.real(f"t{j}", 0.001, 0.6))
        s.assume(w[-1] * 3 <= w[-2] if j == 0 else w[-1] < w[-2])
    v = signed(s, w, perm)
    r = f(s.np.array(v), create_plot=False)
    check_radix(s, r["radix"], [w[k] for k in perm])
    s.eq(r["effres"], _effres(s, w[:nsig]), "log2 of one plus total over smallest significant weight")
    s.true(r["wgtsca"] > 0, "scale factor positive")


def scaled(s, shape, nsig, perm, plot=False, exact=False):
    """fixed ratios, symbolic common scale and signs"""
    f = s.get(D + "analyze_weight_radix")
    c = s.int("c", 1, 8) if exact else s.real("c", 0.1, 10)
    v = [shape[k] * c for k in perm]
    sg = [s.holds(s.int(f"s{j}", 0, 1) > 0) if j < 2 else bool(j % 3) for j in range(len(v))]
    v = [a if p else -a for a, p in zip(v, sg)]
    r = f(s.np.array(v), create_plot=plot)
    check_radix(s, r["radix"], [shape[k] * c for k in perm])
    s.eq(r["effres"], math.log2(1 + sum(shape[:nsig]) / shape[nsig - 1]), "log2 of one plus total over smallest significant weight")
    s.true(r["wgtsca"] > 0, "scale factor positive")
    if all(float(x).is_integer() for x in shape[:nsig]) and shape[nsig - 1] == 1:
        s.eq(r["wgtsca"] * c, 1.0, "integer weights map to themselves")


def scenarios():
    out = [
        Scenario("activity_5_3", activity, N=5, M=3, kind="array"),
        Scenario("activity_6_2_bool", activity, N=6, M=2, kind="bool"),
        Scenario("activity_4_2_list", activity, N=4, M=2, kind="list"),
        Scenario("activity_3_3_plot", activity, N=3, M=3, kind="array", plot=True, validate=1),
        Scenario("activity_compat", activity, N=1, M=3, kind="compat"),
        Scenario("overflow_bits_3_3", overflow, N=3, M=3, lo=0, wlo=0, sample=dyadic),
        Scenario("overflow_bits_4_2", overflow, N=4, M=2, lo=0, wlo=0, sample=dyadic),
        Scenario("overflow_bits_2_4", overflow, N=2, M=4, lo=0, wlo=0, ofb=2, sample=dyadic),
        Scenario("overflow_codes", overflow, N=3, M=2, lo=-1, wlo=0, sample=dyadic),
        Scenario("overflow_signed", overflow, N=2, M=3, lo=0, wlo=-4, sample=dyadic),
        Scenario("overflow_column", overflow, N=3, M=1, lo=-1, wlo=0, oned=True, sample=dyadic),
        Scenario("overflow_plot", overflow, N=2, M=2, lo=0, wlo=0, plot=True, validate=1, sample=dyadic),
        Scenario("overflow_bad_3_2", overflow_bad, M=3, L=2),
        Scenario("overflow_bad_2_3", overflow_bad, M=2, L=3),
        Scenario("residual_default", residual, N=3, M=3, pairs=None, weights=None),
        Scenario("residual_all_pairs", residual, N=2, M=3, pairs=[(i, j) for i in range(4) for j in range(4)], weights="sym"),
        Scenario("residual_4", residual, N=2, M=4, pairs=None, weights="sym"),
        Scenario("residual_row", residual, N=3, M=2, pairs=[(0, 2), (1, 1)], weights="sym", shape=(1, 3)),
        Scenario("residual_plot", residual, N=2, M=2, pairs=None, weights="sym", plot=True, validate=1),
        Scenario("residual_bad", residual_bad),
        Scenario("radix_2", radix, M=2),
        Scenario("radix_3", radix, M=3),
    ]
    for p in itertools.permutations(range(2)):
        out.append(Scenario("effres_2_" + "".join(map(str, p)), effres, perm=list(p), nsig=2, tail=0, hi=2.999))
    for p in itertools.permutations(range(3)):
        out.append(Scenario("effres_2t_" + "".join(map(str, p)), effres, perm=list(p), nsig=2, tail=1, hi=2.999))
    for p in itertools.permutations(range(3)):
        out.append(Scenario("effres_3_" + "".join(map(str, p)), effres, perm=list(p), nsig=3, tail=0, hi=2.0))
    out.append(Scenario("effres_1tt", effres, perm=[1, 0, 2], nsig=1, tail=2, hi=2.999))
    shapes = [("binary6", [32, 16, 8, 4, 2, 1.0], 6), ("trim", [8, 4, 2, 1, 0.25, 0.2], 4), ("edge", [9, 3, 1, 0.9], 1), ("sub", [1.8 ** 3, 1.8 ** 2, 1.8, 1.0], 4),
               ("dup", [4, 2, 2, 1, 1.0], 5), ("near", [2.99 * 2, 2.0, 0.5], 2)]
    for n, sh, k in shapes:
        m = len(sh)
        for t, p in (("d", list(range(m))), ("u", list(range(m))[::-1]), ("x", [(3 * i + 1) % m if m % 3 else (5 * i + 1) % m for i in range(m)])):
            out.append(Scenario(f"scaled_{n}_{t}", scaled, shape=[float(x) for x in sh], nsig=k, perm=p, plot=n == "near" and t == "d", exact=n == "edge"))
    return out
