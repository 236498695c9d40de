"""C24 value-binned and phase-binned error statistics."""
import math

import numpy as np

from engine.run import Scenario

BOUNDS = ("value binning: records of 5..7 samples, each sample anywhere in and beyond the range, 1..8 bins, clip fractions 0..0.4, given ranges and each inferred range; "
          "phase binning: 8..14 samples (two periods) of a sine plus every combination of two residual shapes orthogonal to it, and every amplitude in [0.5,4] and offset in [-4,4] for one shape, seven frequency/phase/bin settings, with and without base-noise term")
OUTSIDE = "longer records, other phases of the fitted sine, residual shapes beyond the listed planes, frequency refinement (C22)"
ASSUMPTIONS = []
V = "adctoolbox.aout:rearrange_error_by_value"
VA = "adctoolbox:analyze_error_by_value"
P = "adctoolbox.aout:rearrange_error_by_phase"
PA = "adctoolbox:analyze_error_by_phase"


def lsq(N, f):
    D = np.array([[math.cos(2 * math.pi * f * n), math.sin(2 * math.pi * f * n), 1.0] for n in range(N)])
    return D, D @ np.linalg.pinv(D)


def bins(s, r, y, lo, hi, nb, clip, N, f):
    """claims shared by the value-binning scenarios"""
    H = lsq(N, f)[1]
    margin = int(nb * clip)
    step = (hi - lo) / (nb - 1) if nb > 1 else 0.0
    s.true(len(r["count_per_bin"]) == nb and len(r["error_mean"]) == nb and len(r["error_rms"]) == nb and len(r["value_bin_centers"]) == nb, "one entry per bin")
    for j in range(nb):
        s.eq(r["value_bin_centers"][j], lo + j * step, "equally spaced levels over the range", scale=10.0)
    e = [y[n] - sum(float(H[n, k]) * y[k] for k in range(N)) for n in range(N)]
    idx = []
    for n in range(N):
        s.eq(r["error"][n], e[n], "error is signal minus fitted sine", scale=8.0)
        s.eq(r["fitted_signal"][n], y[n] - e[n], "fitted signal", scale=8.0)
        j = s.conc(r["bin_indices"][n])
        idx.append(j)
        s.true(0 <= j < nb, "bin index in range")
        if nb > 1:
            L = lo + j * step
            s.true(s.all(([y[n] >= L - step / 2 * (1 + 1e-6)] if j > 0 else []) + ([y[n] <= L + step / 2 * (1 + 1e-6)] if j < nb - 1 else [])), "nearest level")
    for j in range(nb):
        mem = [n for n in range(N) if idx[n] == j and margin <= j <= nb - 1 - margin]
        s.eq(r["count_per_bin"][j], len(mem), "count of a bin")
        if mem:
            s.eq(r["error_mean"][j], sum(e[n] for n in mem) / len(mem), "mean error of a bin", scale=8.0)
            s.eq(r["error_rms"][j] * r["error_rms"][j], sum(e[n] * e[n] for n in mem) / len(mem), "RMS error of a bin", scale=64.0)
            s.ge(r["error_rms"][j], 0.0, "RMS is not negative")
        else:
            s.true(bool(s.np.isnan(r["error_mean"][j])) and bool(s.np.isnan(r["error_rms"][j])), "an empty bin is undefined")


def spread(s, N, nb, lo, hi, free, dist):
    """`free` samples anywhere in and beyond the range, the rest anywhere inside one level's interval each"""
    st = (hi - lo) / max(nb - 1, 1)
    y = []
    for n in range(N):
        if n < free:
            y.append(s.real(f"y{n}", lo - dist, hi + dist))
        else:
            c = lo + st * ((n * 2 + 1) % nb)
            y.append(s.real(f"y{n}", c - 0.45 * st, c + 0.45 * st))
    return y


def value(s, N, nb, clip, lo, hi, f=0.23, api=V, dist=1.0, free=3):
    s.opt["bincount_split"] = True
    y = spread(s, N, nb, lo, hi, free, dist)
    margin = int(nb * clip)
    if margin:
        # at least one sample is retained
        s.assume(s.all([y[0] > lo + (hi - lo) * (margin + 0.1 - 0.5) / (nb - 1), y[0] < hi - (hi - lo) * (margin + 0.1 - 0.5) / (nb - 1)]))
    kw = {"create_plot": False} if api == VA else {}
    r = s.get(api)(s.np.array(y), norm_freq=f, n_bins=nb, clip_percent=clip, value_range=(lo, hi), max_iterations=0, **kw)
    bins(s, r, y, lo, hi, nb, clip, N, f)
    s.eq(r["norm_freq"], f, "frequency used")


def clipped(s, N, nb, clip, f=0.23):
    """every sample in a clipped bin: an error, not an empty result"""
    y = [s.real(f"y{n}", 0.9, 3.0) for n in range(N)]
    s.raises(ValueError, "nothing left after clipping is an error", s.get(V), s.np.array(y), norm_freq=f, n_bins=nb, clip_percent=clip, value_range=(-1.0, 1.0), max_iterations=0)


def inferred(s, kind, N, nb, clip, f=0.19):
    """range inferred from the data"""
    s.opt["bincount_split"] = True
    if kind == "codes":
        lo, hi = -6.0, 10.0
        y = [lo, hi] + [s.real(f"y{n}", *((lo, hi) if n < 5 else (hi * 0.55 + lo * 0.45, hi * 0.59 + lo * 0.41))) for n in range(2, N)]
    elif kind == "codes2":
        lo, hi = 1.0, 3.0
        y = [hi, lo] + [s.real(f"y{n}", *((lo, hi) if n < 5 else (hi * 0.55 + lo * 0.45, hi * 0.59 + lo * 0.41))) for n in range(2, N)]
    elif kind == "unipolar":
        lo, hi = 0.0, 1.0
        y = [s.real(f"y{n}", *((-0.5, 2.0) if n < 3 else (0.3, 0.4))) for n in range(N)]
        s.assume(sum(y) / N > 0.1001)
    elif kind == "small":
        lo, hi = -0.5, 0.5
        y = [s.real(f"y{n}", *((-0.6, 0.6) if n < 3 else (0.02, 0.08))) for n in range(N)]
        s.assume(sum(y) / N < 0.0999)
    else:
        lo, hi = -1.0, 1.0
        y = [s.real(f"y{n}", *((-2, 2) if n < 3 else (-0.3, -0.1))) for n in range(N)]
        s.assume(sum(y) / N < 0.0999)
        s.assume(s.any([y[0] > 0.6001, y[0] < -0.6001]))
    if clip:
        s.assume(s.all([y[-1] > lo + (hi - lo) * 0.4, y[-1] < hi - (hi - lo) * 0.4]))
    r = s.get(V)(s.np.array(y), norm_freq=f, n_bins=nb, clip_percent=clip, max_iterations=0)
    bins(s, r, y, lo, hi, nb, clip, N, f)


def rejects(s):
    g = s.get(V)
    y = s.np.array([1.0, 2.0, 0.5, 0.25, 1.5])
    z = s.real("z", -5, 5)
    for kw in ({"n_bins": 0}, {"n_bins": -3}, {"n_bins": 2.5}, {"clip_percent": -0.1}, {"clip_percent": math.nan}, {"clip_percent": 0.5}, {"value_range": (1.0, 1.0)},
               {"value_range": (2.0, 1.0)}, {"value_range": (0.0, math.inf)}, {"value_range": (0.0,)}):
        s.raises(ValueError, "unusable setting rejected", g, y, norm_freq=0.2, max_iterations=0, **kw)
    s.raises(ValueError, "empty signal rejected", g, s.np.array([]), norm_freq=0.2)
    s.raises(ValueError, "non-finite signal rejected", g, s.np.array([1.0, math.nan, 2.0, z]), norm_freq=0.2)
    s.raises(ValueError, "empty range rejected", g, y, norm_freq=0.2, value_range=(z, z - s.real("w", 0, 1)))


def phase(s, k, M, th, nb, base, shapes, api=P):
    """two periods of an M-periodic sine; the residual has opposite signs in the two, so it is orthogonal to the fit"""
    s.opt["branch_ms"] = 1500
    N, f = 2 * M, k / M
    if len(shapes) > 1:
        A, C = 1.75, 0.5
        z = [s.real("z0", 0.25, 1)] + [s.real(f"z{q}", -1, 1) for q in range(1, len(shapes))]
    else:
        A, C = s.real("A", 0.5, 4), s.real("C", -4, 4)
        z = [0.25]
    e = [(1 if n < M else -1) * sum(zk * sh[n % M] for zk, sh in zip(z, shapes)) for n in range(N)]
    y = [A * math.cos(2 * math.pi * f * n + th) + C + e[n] for n in range(N)]
    kw = {"create_plot": False} if api == PA else {}
    r = s.get(api)(s.np.array(y), norm_freq=f, n_bins=nb, include_base_noise=base, max_iterations=0, **kw)
    ph = [(2 * math.pi * f * n + th) % (2 * math.pi) for n in range(N)]
    idx = [int(p / (2 * math.pi / nb)) for p in ph]
    s.eq(r["amplitude"], A, "amplitude")
    s.eq(r["dc_offset"], C, "offset")
    s.eq(r["norm_freq"], f, "frequency used")
    ss = 0.0
    for n in range(N):
        s.eq(r["error"][n], e[n], "error is signal minus fitted sine")
        s.eq(s.math.cos(r["phase"][n]), math.cos(ph[n]), "phase of a sample")
        s.eq(s.math.sin(r["phase"][n]), math.sin(ph[n]), "phase of a sample")
        ss = ss + e[n] * e[n]
    s.eq(r["total_rms_v"] * r["total_rms_v"], ss / N, "total RMS")
    s.true(len(r["bin_counts"]) == nb, "one entry per bin")
    for j in range(nb):
        mem = [n for n in range(N) if idx[n] == j]
        s.eq(r["phase_bin_centers_rad"][j], (j + 0.5) * 2 * math.pi / nb, "bin centres")
        s.eq(r["bin_counts"][j], len(mem), "count of a phase bin")
        if mem:
            s.eq(r["bin_error_mean_v"][j], sum(e[n] for n in mem) / len(mem), "mean error of a phase bin")
            s.eq(r["bin_error_rms_v"][j] * r["bin_error_rms_v"][j], sum(e[n] * e[n] for n in mem) / len(mem), "RMS error of a phase bin")
        else:
            s.true(bool(s.np.isnan(r["bin_error_mean_v"][j])) and bool(s.np.isnan(r["bin_error_rms_v"][j])), "an empty phase bin is undefined")
    am, pm, bn = r["am_noise_rms_v"], r["pm_noise_rms_v"], r["base_noise_rms_v"]
    for v in (am, pm, bn):
        s.ge(v, 0.0, "noise terms are not negative")
    e2 = [v * v for v in e]
    if base:
        X = np.array([[math.cos(2 * p), 1.0] for p in ph])
        G = np.linalg.pinv(X)
        a, b = (sum(float(G[k, n]) * e2[n] for n in range(N)) for k in (0, 1))
        if bool(a > 0):
            s.eq(am * am, 2 * a, "AM term of the squared-error fit")
            s.eq(pm, 0.0, "no PM term when AM dominates")
        else:
            s.eq(pm * pm, -2 * a, "PM term of the squared-error fit")
            s.eq(am, 0.0, "no AM term when PM dominates")
        s.eq(bn * bn, s.np.maximum(0.0, b - s.abs(a)), "base-noise term of the squared-error fit")
    else:
        X = np.array([[math.cos(p) ** 2, math.sin(p) ** 2] for p in ph])
        G = np.linalg.pinv(X)
        a, b = (sum(float(G[k, n]) * e2[n] for n in range(N)) for k in (0, 1))
        s.eq(am * am, s.np.maximum(0.0, a), "AM term of the squared-error fit")
        s.eq(pm * pm, s.np.maximum(0.0, b), "PM term of the squared-error fit")
        s.eq(bn, 0.0, "no base noise in the model")
    s.eq(r["pm_noise_rms_rad"] * A, pm, "PM in radians")
    s.eq(r["am_relative"] * A, am, "AM relative to the amplitude")


def scenarios():
    r = [Scenario("rejects", rejects), Scenario("clipped_10", clipped, N=5, nb=10, clip=0.1), Scenario("clipped_5", clipped, N=6, nb=5, clip=0.2)]
    for N, nb, clip, lo, hi, fr in ((5, 3, 0.0, -1.0, 1.0, 3), (6, 2, 0.0, 0.0, 1.0, 4), (5, 1, 0.0, -2.0, 2.0, 5), (6, 4, 0.25, -1.0, 1.0, 3), (5, 5, 0.01, 0.0, 4.0, 2), (7, 2, 0.0, -8.0, 7.0, 4),
                                    (7, 5, 0.2, -2.0, 1.0, 2), (6, 8, 0.3, -1.0, 1.0, 2), (5, 5, 0.4, -1.0, 1.0, 3)):
        r.append(Scenario(f"value_{N}_{nb}_{clip}", value, N=N, nb=nb, clip=clip, lo=lo, hi=hi, free=fr, max_paths=6000))
    r.append(Scenario("value_api", value, N=5, nb=3, free=2, clip=0.0, lo=-1.0, hi=1.0, api=VA))
    for k, N, nb, clip in (("codes", 6, 4, 0.0), ("codes", 6, 4, 0.25), ("codes2", 6, 3, 0.0), ("unipolar", 5, 4, 0.0), ("small", 5, 4, 0.0), ("small", 5, 5, 0.2), ("large", 5, 4, 0.0)):
        r.append(Scenario(f"inferred_{k}_{nb}_{clip}", inferred, kind=k, N=N, nb=nb, clip=clip, max_paths=6000))
    S4, S5, S7 = [(1, -2, 1, 0), (0, 1, 1, -1)], [(1, 0, -1, 2, 0), (0, 1, 2, 0, 1)], [(1, 0, 2, -1, 0, 1, 0), (0, 1, 0, 1, 3, 0, -1)]
    for k, M, th, nb, base, sh in ((1, 4, 0.4, 4, True, S4), (1, 5, 2.0, 6, True, S5), (2, 5, -1.1, 3, True, S5), (1, 4, 0.4, 4, False, S4), (2, 5, -2.5, 8, False, S5), (2, 7, 1.2, 5, True, S7), (3, 7, 3.0, 7, False, S7)):
        r.append(Scenario(f"phase_{k}_{M}_{nb}_{base}", phase, k=k, M=M, th=th, nb=nb, base=base, shapes=sh))
        r.append(Scenario(f"amp_{k}_{M}_{nb}_{base}", phase, k=k, M=M, th=th, nb=nb, base=base, shapes=sh[:1]))
    r.append(Scenario("phase_api", phase, k=1, M=5, th=0.9, nb=5, base=True, shapes=S5[1:], api=PA))
    return r
