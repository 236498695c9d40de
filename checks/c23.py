"""C23 harmonic decomposition: exact, orthogonal split with truthful magnitudes and phases."""
import math

from engine.run import Scenario

BOUNDS = ("1..3 runs of 6..16 samples with every value in [-8,8], 1..4 harmonics, fixed frequencies on and off bins (and every refined frequency and coefficient vector for the identities); "
          "pure harmonic signals of every amplitude, phase and offset; every shift in [-8,8]; frequency search for on-bin tones")
OUTSIDE = "longer records, more harmonics, accuracy of a refined frequency on distorted signals"
ASSUMPTIONS = ["an exactly zero residual (its level in dB is minus infinity) is covered by the pure-harmonic scenarios, not by the arbitrary-data ones; the first sample is at least 1 and the second at most -1 so the range is not zero", "in the 'refined' scenarios the least-squares solution of a system whose matrix depends on the data is an unconstrained vector"]
F = "adctoolbox.aout.decompose_harmonic_error:decompose_harmonic_error"


def data(s, N, M, shape=None):
    s.opt["log_positive"] = True
    Y = [[s.real(f"y{m}_{n}", *((1, 8) if n == 0 else (-8, -1) if n == 1 else (-8, 8))) for n in range(N)] for m in range(M)]
    avg = [sum(Y[m][n] for m in range(M)) / M for n in range(N)]
    x = s.np.array(Y) if M > 1 or shape == "row" else s.np.array(Y[0])
    if shape == "col":
        x = s.np.array([[v] for v in Y[0]])
    return Y, avg, x


def identities(s, r, avg, N, level=True):
    ss = 0.0
    for n in range(N):
        fu, ha, re = r["fundamental_signal"][n], r["harmonic_signal"][n], r["noise_residual"][n]
        s.eq(fu + ha + re, avg[n], "the three parts add up to the signal", scale=8.0)
        s.eq(r["reconstructed_signal"][n], fu + ha, "reconstruction is fundamental plus harmonics", scale=8.0)
        ss = ss + re * re
    if not level:
        return
    s.eq(r["residual_rms"] * r["residual_rms"], 8.0 * ss / N, "residual level is that of the residual part", scale=8.0)
    s.ge(r["residual_rms"], 0.0, "residual level is not negative")


def split(s, N, K, f, M=1, shape=None):
    Y, avg, x = data(s, N, M, shape)
    r = s.get(F)(x, n_harmonics=K, frequency=f, max_iterations=0)
    identities(s, r, avg, N)
    s.eq(r["fundamental_freq"], f, "given frequency is used")
    res = r["noise_residual"]
    s.eq(sum(res[n] for n in range(N)), 0.0, "residual is orthogonal to DC", scale=8.0)
    for h in range(1, K + 1):
        for g in (math.cos, math.sin):
            s.eq(sum(res[n] * g(2 * math.pi * f * h * n) for n in range(N)), 0.0, "residual is orthogonal to every fitted harmonic", scale=8.0)
    s.true(len(r["magnitudes"]) == K and len(r["phases"]) == K and len(r["magnitudes_db"]) == K, "one entry per harmonic")
    rng = s.np.max(s.np.array(avg)) - s.np.min(s.np.array(avg))
    s.eq(r["noise_db"], 20 * s.math.log10(r["residual_rms"] / rng), "noise level is the residual over the signal range in dB")
    # every part lies in its own span: the fundamental part minus its mean level follows one sine
    c2 = 2 * math.cos(2 * math.pi * f)
    fu = [r["fundamental_signal"][n] for n in range(N)]
    d = [fu[n + 1] - fu[n] for n in range(N - 1)]
    for n in range(N - 3):
        s.eq(d[n + 2] + d[n], c2 * d[n + 1], "the fundamental part is one sine plus a constant", scale=8.0)


def parts(s, N, K, f):
    """fundamental part and harmonic part carry the fitted coefficients"""
    Y, avg, x = data(s, N, 1)
    r = s.get(F)(x, n_harmonics=K, frequency=f, max_iterations=0)
    import numpy as np
    D = np.array([[1.0] + [g(2 * math.pi * f * h * n) for h in range(1, K + 1) for g in (math.cos, math.sin)] for n in range(N)])
    P = np.linalg.pinv(D)
    w = [sum(float(P[j, n]) * avg[n] for n in range(N)) for j in range(2 * K + 1)]
    for n in range(N):
        s.eq(r["fundamental_signal"][n], sum(float(D[n, j]) * w[j] for j in range(3)), "fundamental part", scale=8.0)
        s.eq(r["harmonic_signal"][n], sum(float(D[n, j]) * w[j] for j in range(3, 2 * K + 1)), "harmonic part", scale=8.0)
    rng = s.np.max(s.np.array(avg)) - s.np.min(s.np.array(avg))
    for h in range(K):
        s.eq(r["magnitudes"][h] * r["magnitudes"][h], 4 * (w[2 * h + 1] * w[2 * h + 1] + w[2 * h + 2] * w[2 * h + 2]), "magnitude of a harmonic", scale=8.0)
        s.ge(r["magnitudes"][h], 0.0, "magnitudes are not negative")
        s.eq(10 ** (r["magnitudes_db"][h] / 20), r["magnitudes"][h] / rng, "level in dB of the signal range")


def pure(s, N, K, f, it=0, M=1, freq="given"):
    """only harmonics: nothing left over, magnitudes and relative phases as built"""
    s.opt["log_positive"] = True
    ab = [(s.real(f"a{h}", -4, 4), s.real(f"b{h}", -4, 4)) for h in range(K)]
    c = s.real("c", -4, 4)
    s.assume(ab[0][0] * ab[0][0] + ab[0][1] * ab[0][1] >= 0.25)
    for h in range(1, K):
        s.assume(ab[h][0] * ab[h][0] + ab[h][1] * ab[h][1] >= 1e-4)
    y = [c + sum(a * math.cos(2 * math.pi * f * (h + 1) * n) + b * math.sin(2 * math.pi * f * (h + 1) * n) for h, (a, b) in enumerate(ab)) for n in range(N)]
    s.assume(y[0] - y[1] >= 0.01)
    if M == 1:
        x = s.np.array(y)
    else:
        e = [s.real(f"e{n}", -1, 1) for n in range(N)]
        x = s.np.array([[y[n] + e[n] for n in range(N)], [y[n] - e[n] for n in range(N)]])
    kw = {} if freq == "search" else {"frequency": f}
    if it is not None:
        kw["max_iterations"] = it
    r = s.get(F)(x, n_harmonics=K, **kw)
    s.eq(r["fundamental_freq"], f, "frequency of the fundamental")
    for n in range(N):
        s.eq(r["noise_residual"][n], 0.0, "no residual for pure harmonics", scale=8.0)
    a1, b1 = ab[0]
    for h, (a, b) in enumerate(ab):
        m, ph = r["magnitudes"][h], r["phases"][h]
        s.eq(m * m, 4 * (a * a + b * b), "magnitude is twice the tone amplitude", scale=8.0)
        s.true(s.all([ph >= -math.pi * (1 + 1e-12), ph <= math.pi * (1 + 1e-12)]), "phases are wrapped")
        # e^{j ph} |w_h| |w_1|^(h+1) = w_h * conj(w_1)^(h+1) with w = a + j b
        re, im, mm = a, b, m / 2
        m1 = r["magnitudes"][0] / 2
        for _ in range(h + 1):
            re, im, mm = re * a1 + im * b1, im * a1 - re * b1, mm * m1
        if h == 0:
            s.eq(ph, 0.0, "the fundamental is the phase reference")
        else:
            s.eq(mm * s.math.cos(ph), re, "phase relative to the fundamental", scale=100.0)
            s.eq(mm * s.math.sin(ph), im, "phase relative to the fundamental", scale=100.0)


def shift(s, N, K, f):
    """a DC shift moves only the parts that carry DC"""
    Y, avg, x = data(s, N, 1)
    c = s.real("c", -8, 8)
    r = s.get(F)(x, n_harmonics=K, frequency=f, max_iterations=0)
    q = s.get(F)(s.np.array([v + c for v in Y[0]]), n_harmonics=K, frequency=f, max_iterations=0)
    for n in range(N):
        s.eq(q["fundamental_signal"][n], r["fundamental_signal"][n] + c, "DC shift: fundamental part", scale=8.0)
        s.eq(q["harmonic_signal"][n], r["harmonic_signal"][n], "DC shift: harmonic part", scale=8.0)
        s.eq(q["noise_residual"][n], r["noise_residual"][n], "DC shift: residual", scale=8.0)
    for h in range(K):
        s.eq(q["magnitudes"][h] * q["magnitudes"][h], r["magnitudes"][h] * r["magnitudes"][h], "DC shift: magnitudes", scale=8.0)


def runs(s, N, K, f, it):
    """the order of the runs and their split do not matter, only their mean"""
    if it:
        s.opt["lstsq"] = "free"
    Y, avg, x = data(s, N, 3)
    r = s.get(F)(x, n_harmonics=K, frequency=f, max_iterations=it)
    q = s.get(F)(s.np.array([Y[2], Y[0], Y[1]]), n_harmonics=K, frequency=f, max_iterations=it)
    for n in range(N):
        for k in ("fundamental_signal", "harmonic_signal", "noise_residual"):
            s.eq(q[k][n], r[k][n], "run order does not matter", scale=8.0)
    identities(s, r, avg, N, level=not it)


def refined(s, N, K, f, it, M=1):
    """every refined frequency, every coefficient vector"""
    s.opt["lstsq"] = "free"
    Y, avg, x = data(s, N, M)
    r = s.get(F)(x, n_harmonics=K, frequency=f, **({} if it is None else {"max_iterations": it}))
    identities(s, r, avg, N, level=False)
    s.true(s.all([r["fundamental_freq"] > 0.0, r["fundamental_freq"] < 0.5]), "refined frequency is a frequency")


def scenarios():
    r = []
    for N, K, f in ((6, 1, 0.2), (8, 2, 0.11), (9, 3, 0.13), (11, 4, 0.0713), (12, 2, 1 / 12), (13, 3, 3 / 13), (10, 3, 0.37)):
        r.append(Scenario(f"split_{N}_{K}_{f:.3f}", split, N=N, K=K, f=f))
    r.append(Scenario("split_runs_2", split, N=8, K=2, f=0.17, M=2))
    r.append(Scenario("split_runs_3", split, N=7, K=2, f=0.21, M=3))
    r.append(Scenario("split_col", split, N=7, K=2, f=0.21, shape="col"))
    r.append(Scenario("split_row", split, N=7, K=2, f=0.21, shape="row"))
    for N, K, f in ((7, 1, 0.23), (9, 2, 0.13), (12, 3, 0.0913), (11, 4, 0.09)):
        r.append(Scenario(f"parts_{N}_{K}", parts, N=N, K=K, f=f))
    for N, K, f in ((7, 1, 0.23), (8, 2, 0.11), (9, 3, 0.13), (16, 2, 3 / 16)):
        r.append(Scenario(f"pure_{N}_{K}", pure, N=N, K=K, f=f))
    r.append(Scenario("pure_runs", pure, N=8, K=2, f=0.11, M=2))
    r.append(Scenario("pure_refined", pure, N=8, K=1, f=0.11, it=None))
    r.append(Scenario("pure_search_8", pure, N=8, K=1, f=1 / 8, it=None, freq="search"))
    r.append(Scenario("pure_search_12", pure, N=12, K=1, f=5 / 12, it=3, freq="search"))
    r.append(Scenario("shift_7_2", shift, N=7, K=2, f=0.21))
    r.append(Scenario("shift_9_3", shift, N=9, K=3, f=0.13))
    r.append(Scenario("runs_6_2", runs, N=6, K=2, f=0.19, it=0))
    r.append(Scenario("runs_6_2_ref", runs, N=6, K=2, f=0.19, it=1))
    for N, K, f, it, M in ((5, 1, 0.2, None, 1), (6, 2, 0.13, 1, 1), (5, 2, 0.31, 2, 1), (6, 2, 0.22, 1, 2)):
        r.append(Scenario(f"refined_{N}_{K}_{it}_{M}", refined, N=N, K=K, f=f, it=it, M=M))
    return r
