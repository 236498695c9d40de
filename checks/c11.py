"""C11 foreground time-interleave calibration."""
from engine.run import Scenario

BOUNDS = ("1..4 channels, 1..7 samples per channel, all samples in [-4,4], offsets any real in [-4,4], gains any real of either sign with magnitude in [0.1,10]; "
          "skews: zero, the set {0.3,-0.7,1,2.25,-1.4} samples per channel, any real in [-1.4,1.4] samples (Farrow, 3 and 5 taps); sampling rate 1, 6 and symbolic in [1,1e9]")
OUTSIDE = "more channels or samples; FFT method with symbolic skew"
T = "adctoolbox:"


def chans(s, M, K):
    x = [s.real(f"x{n}", -4, 4) for n in range(M * K)]
    o = [s.real(f"o{m}", -4, 4) for m in range(M)]
    g = []
    for m in range(M):
        v = s.real(f"g{m}", -10, 10)
        s.assume(s.abs(v) >= 0.1)
        g.append(v)
    return x, o, g


def zero(s, M, K, method):
    f = s.get(T + "calibrate_foreground")
    x, o, g = chans(s, M, K)
    fs = s.real("fs", 1, 1e9)
    raw = [g[n % M] * x[n] + o[n % M] for n in range(M * K)]
    A = s.np.array(raw)
    p = {"offset": s.np.array(o), "gain": s.np.array(g), "skew": s.np.array([0.0] * M)}
    kw = {} if method is None else {"skew_method": method}
    y = f(A, M, p, fs, **kw)
    s.same_shape(y, (M * K,), "same length")
    for n in range(M * K):
        s.eq(y[n], x[n], "mismatch undone exactly")
        s.eq(A[n], raw[n], "input not modified", tol=1e-12)
    for m in range(M):
        s.eq(p["offset"][m], o[m], "parameters not modified")
        s.eq(p["gain"][m], g[m], "parameters not modified")


def skewed(s, M, K, sk, method, taps, fs):
    """each channel is its corrected self delayed at fs/M by its own skew"""
    f = s.get(T + "calibrate_foreground")
    dl = s.get(T + ("fractional_delay_farrow" if method == "farrow" else "fractional_delay_fft"))
    x, o, g = chans(s, M, K)
    if sk == "sym":
        d = [s.real(f"d{m}", -1.4, 1.4) for m in range(M)]
        for v in d:
            s.assume(s.abs(v) >= 1e-6)
    else:
        d = list(sk)
    fch = fs / M
    skew = [v / fch for v in d]
    kw = {}
    if method:
        kw["skew_method"] = method
    dk = {}
    if taps is not None:
        kw["n_taps"] = taps
        dk = {"n_taps": taps}
    y = f(s.np.array(x), M, {"offset": o, "gain": g, "skew": skew}, fs, **kw)
    for m in range(M):
        c = s.np.array([(x[k * M + m] - o[m]) / g[m] for k in range(K)])
        e = dl(c, skew[m], fch, **dk)
        for k in range(K):
            s.eq(y[k * M + m], e[k], "channel corrected then delayed at the channel rate", scale=100.0)


def sineback(s, M, K, j, dl, fs):
    """a skewed tone comes back aligned (FFT method)"""
    import math
    f = s.get(T + "calibrate_foreground")
    p, q = s.real("p", -2, 2), s.real("q", -2, 2)
    _, o, g = chans(s, M, 0)
    w = 2 * math.pi * j / (M * K)

    def tone(t):
        return p * math.cos(w * t) + q * math.sin(w * t)
    raw = [g[n % M] * tone(n + dl[n % M]) + o[n % M] for n in range(M * K)]
    y = f(s.np.array(raw), M, {"offset": o, "gain": g, "skew": [v / fs for v in dl]}, fs)
    for n in range(M * K):
        s.eq(y[n], tone(n), "skewed tone re-aligned", scale=10.0)


def rejects(s):
    f = s.get(T + "calibrate_foreground")
    x, o, g = chans(s, 2, 2)
    A = s.np.array(x)
    z = [0.0, 0.0]
    sk = s.real("sk", 0.01, 1)
    for bad in ("offset", "gain", "skew"):
        for ln in (1, 3):
            p = {"offset": o, "gain": g, "skew": z}
            p[bad] = (list(p[bad]) + [1.0])[:ln]
            s.raises(ValueError, "wrong parameter length rejected", f, A, 2, p, 1.0)
    for pos in (0, 1):
        k = [0.0, 0.0]
        k[pos] = sk
        s.raises(ValueError, "unknown method with skew rejected", lambda k=k: f(A, 2, {"offset": o, "gain": g, "skew": k}, 1.0, skew_method="sinc"))
    s.raises(ValueError, "length not a multiple rejected", f, A[:3], 2, {"offset": o, "gain": g, "skew": z}, 1.0)


def scenarios():
    r = [Scenario("rejects", rejects)]
    for M, K in ((1, 3), (2, 1), (2, 3), (3, 2), (4, 2)):
        r.append(Scenario(f"zero_{M}_{K}", zero, M=M, K=K, method=None))
    r.append(Scenario("zero_farrow", zero, M=2, K=3, method="farrow"))
    for M, K, sk in ((1, 5, (0.3,)), (2, 5, (0.3, -0.7)), (2, 4, (0.0, 1.0)), (3, 3, (2.25, 0.0, -1.4)), (2, 6, (-1.4, 2.25))):
        for method in (None, "fft"):
            r.append(Scenario(f"fft_{M}_{K}_{method}", skewed, M=M, K=K, sk=sk, method=method, taps=None, fs=6.0 if method else 1.0))
        r.append(Scenario(f"farrow7_{M}_{K}", skewed, M=M, K=7, sk=sk, method="farrow", taps=None, fs=6.0))
        r.append(Scenario(f"farrow3_{M}_{K}", skewed, M=M, K=4, sk=sk, method="farrow", taps=3, fs=6.0))
    r.append(Scenario("farrow_sym_1", skewed, M=1, K=4, sk="sym", method="farrow", taps=3, fs=1.0))
    r.append(Scenario("farrow_sym_2", skewed, M=2, K=3, sk="sym", method="farrow", taps=3, fs=2.0))
    r.append(Scenario("farrow_sym_5", skewed, M=2, K=5, sk="sym", method="farrow", taps=5, fs=6.0))
    r.append(Scenario("tone_2", sineback, M=2, K=5, j=1, dl=(0.1, -0.2), fs=6.0))
    r.append(Scenario("tone_2b", sineback, M=2, K=5, j=2, dl=(0.0, 0.4), fs=1.0))
    r.append(Scenario("tone_3", sineback, M=3, K=5, j=2, dl=(0.1, 0.0, -0.3), fs=6.0))
    return r
