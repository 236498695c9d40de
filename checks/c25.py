"""C25 error autocorrelation, error-PDF scale, static nonlinearity extraction."""
import math

import numpy as np

from engine.run import Scenario

BOUNDS = ("autocorrelation: records of 6..8 samples with every value in [-8,8], every lag up to 5, every gain in [0.25,4] (both signs) and offset in [-8,8]; "
          "PDF: records of 6..8 samples in [-8,8], resolutions 2..16 bits, every full scale in [0.5,16] or the measured one; "
          "static nonlinearity: 8..16 samples of fitted sines with every amplitude in [0.5,4], gain in [0.25,4] (both signs), offset in [-4,4], k2 in [-0.4,0.4], k3 in [-0.4,0.4], orders 2..5")
OUTSIDE = "longer records, frequency refinement (C22), the shape of the kernel density estimate and the KL divergence"
ASSUMPTIONS = ["PDF: exponentials are unconstrained positive values", "static nonlinearity: the sine fit is replaced by the sine of the scenario (C22 decides the fit); the error is not identically zero where it is divided by (normalised autocorrelation, kernel width)"]
AC = "adctoolbox:analyze_error_autocorr"
PDF = "adctoolbox:analyze_error_pdf"
NL = "adctoolbox:fit_static_nonlin"
FIT = "adctoolbox.fundamentals.fit_sine_4param:fit_sine_4param"


def err(y, f):
    N = len(y)
    D = np.array([[math.cos(2 * math.pi * f * n), math.sin(2 * math.pi * f * n), 1.0] for n in range(N)])
    H = D @ np.linalg.pinv(D)
    return [y[n] - sum(float(H[n, k]) * y[k] for k in range(N)) for n in range(N)]


def acf(s, N, f, L):
    y = [s.real(f"y{n}", -8, 8) for n in range(N)]
    e = err(y, f)
    c = [sum(e[n] * e[n + k] for n in range(N - k)) / (N - k) for k in range(L + 1)]
    r = s.get(AC)(s.np.array(y), frequency=f, max_lag=L, normalize=False, create_plot=False, max_iterations=0)
    s.true(len(r["acf"]) == 2 * L + 1 and len(r["lags"]) == 2 * L + 1, "one value per lag")
    for n in range(N):
        s.eq(r["error_signal"][n], e[n], "error is signal minus fitted sine", scale=8.0)
    for k in range(-L, L + 1):
        s.eq(r["lags"][k + L], k, "lags run from -max to +max")
        v = r["acf"][k + L]
        s.eq(v, r["acf"][L - k], "symmetric in lag", scale=8.0)
        s.eq(v, c[abs(k)], "mean lagged product of the error", scale=64.0)


def acf_norm(s, k, M, shapes, L, mode):
    """normalised values, and the same under gain and offset; residual of opposite sign in the two periods"""
    N, f = 2 * M, k / M
    z = [s.real("z0", 0.25, 1)] + [s.real(f"z{q}", -1, 1) for q in range(1, len(shapes))]
    e = [(1 if n < M else -1) * sum(zk * sh[n % M] for zk, sh in zip(z, shapes)) for n in range(N)]
    c = [sum(e[n] * e[n + j] for n in range(N - j)) / (N - j) for j in range(L + 1)]
    A, C = 1.25, 0.5
    y = [A * math.cos(2 * math.pi * f * n + 0.7) + C + e[n] for n in range(N)]
    if mode:
        g, o = s.real("g", 0.25, 4), s.real("o", -8, 8)
        y = [(g if mode > 0 else -g) * v + o for v in y]
    r = s.get(AC)(s.np.array(y), frequency=f, max_lag=L, create_plot=False, max_iterations=0)
    for j in range(-L, L + 1):
        s.eq(r["acf"][j + L] * c[0], c[abs(j)], "normalised autocorrelation", scale=10.0)
        s.eq(r["acf"][j + L], r["acf"][L - j], "symmetric in lag")
    s.eq(r["acf"][L], 1.0, "one at zero lag when normalised")


def pdf(s, N, f, B, fs):
    s.opt["exp_opaque"] = s.opt["log_opaque"] = True
    s.opt["branch_ms"] = 500
    y = [s.real(f"y{n}", *((1, 8) if n == 0 else (-8, -1) if n == 1 else (-8, 8))) for n in range(N)]
    e = err(y, f)
    s.assume(sum(v * v for v in e) >= 0.01)
    kw = {}
    if fs == "given":
        F = s.real("F", 0.5, 16)
        kw["full_scale"] = F
    else:
        F = s.np.max(s.np.array(y)) - s.np.min(s.np.array(y))
    if B != 12:
        kw["resolution"] = B
    r = s.get(PDF)(s.np.array(y), frequency=f, create_plot=False, max_iterations=0, **kw)
    K = 2.0 ** B
    for n in range(N):
        s.eq(r["err_lsb"][n] * (F / K), e[n], "error in LSB of the full scale", scale=8.0)
    s.eq(r["mu"] * (F / K), sum(e) / N, "mean error in LSB", scale=8.0)
    m = sum(e) / N
    s.eq(r["sigma"] * r["sigma"] * (F / K) * (F / K), sum((v - m) * (v - m) for v in e) / (N - 1), "sample standard deviation in LSB", scale=64.0)


def nonlin(s, N, f, th, order, cubic):
    A = s.real("A", 0.5, 4) if order < 5 else 1.75
    g, o, c = s.real("g", 0.25, 4), s.real("o", -4, 4), s.real("c", -4, 4)
    k2 = s.real("k2", -0.4, 0.4)
    k3 = s.real("k3", -0.4, 0.4) if cubic else 0.0
    if s.int("neg", 0, 1) == 1:
        g = -g
    w = [math.cos(2 * math.pi * f * n + th) for n in range(N)]
    m = sum(w) / N
    x = [A * (v - m) for v in w]
    y = [g * (v + k2 * v * v + k3 * v * v * v) + o for v in x]
    fitted = s.np.array([v + c for v in x])
    with s.stub(FIT, lambda *a, **k: {"fitted_signal": fitted, "frequency": f, "amplitude": A, "dc_offset": c, "phase": th}):
        r = s.get(NL)(s.np.array(y), order)
    s.eq(r[0], k2, "quadratic coefficient", scale=1.0)
    if order >= 3:
        s.eq(r[1], k3, "cubic coefficient", scale=1.0)
    else:
        s.true(bool(s.np.isnan(r[1])), "no cubic coefficient from a quadratic fit")
    for n in range(N):
        s.eq(r[2][n], fitted[n], "reference sine is returned", scale=8.0)
    tx, ty = r[3]
    s.true(len(tx) == len(ty), "transfer curve has matching axes")
    n = len(tx)
    for i in (0, n // 3, n - 1):
        v = tx[i] - c
        ym = sum(y) / N
        mean2, mean3 = sum(q * q for q in x) / N, sum(q * q * q for q in x) / N
        s.eq(ty[i] - ym, g * (v + k2 * (v * v - mean2) + k3 * (v * v * v - mean3)), "transfer curve", scale=100.0)


def nl_rejects(s):
    g = s.get(NL)
    y = s.np.array([s.real(f"y{n}", -1, 1) for n in range(4)])
    for o in (1, 0, -2, 2.5, "3"):
        s.raises(ValueError, "unusable order rejected", g, y, o)
    s.raises(ValueError, "too few samples rejected", g, y, 3)


def scenarios():
    r = [Scenario("nl_rejects", nl_rejects)]
    for N, f, L in ((6, 0.2, 3), (7, 0.13, 5), (8, 0.37, 2)):
        r.append(Scenario(f"acf_{N}_{L}", acf, N=N, f=f, L=L))
    S4, S5 = [(1, -2, 1, 0), (0, 1, 1, -1)], [(1, 0, -1, 2, 0), (0, 1, 2, 0, 1)]
    for mode in (0, 1, -1):
        r.append(Scenario(f"acfn_4_{mode}", acf_norm, k=1, M=4, shapes=S4, L=3, mode=mode))
        r.append(Scenario(f"acfn_5_{mode}", acf_norm, k=2, M=5, shapes=S5, L=4, mode=mode))
    for N, f, B, fs in ((6, 0.2, 12, "given"), (7, 0.2, 2, "given"), (6, 0.2, 12, "measured"), (8, 0.31, 16, "measured"), (7, 0.42, 8, "given")):
        r.append(Scenario(f"pdf_{N}_{B}_{fs}", pdf, N=N, f=f, B=B, fs=fs))
    for N, f, th, order, cubic in ((8, 0.11, 0.3, 3, True), (12, 0.23, 1.0, 3, True), (9, 0.11, -0.8, 2, False), (10, 0.37, 2.1, 4, True), (16, 0.19, 0.5, 5, True)):
        r.append(Scenario(f"nonlin_{N}_{order}", nonlin, N=N, f=f, th=th, order=order, cubic=cubic))
    return r
