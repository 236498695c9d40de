"""C27 weight calibration: frequency search, lite routine, rejection."""
import math

import numpy as np

from engine.run import Scenario

CAL = "adctoolbox:calibrate_weight_sine"
LITE = "adctoolbox.calibration:calibrate_weight_sine_lite"
BOUNDS = ("1..2 captures of 6..9 samples, 1..3 bit columns with every real value in [0,1] at the free samples, harmonic orders 1..2, learning rates 0.25..1, "
          "first step of the frequency search from given frequencies (no early stop); exact data with fixed weights and every value of the free samples")
OUTSIDE = "convergence of the search over many steps, coarse estimation of the frequency, frequencies at which the basis degenerates (0, 0.5)"
ASSUMPTIONS = ["bit matrices have their generic rank", "least-squares problems with the same columns have the same solution"]


def setup(s):
    s.opt["lstsq"], s.opt["rank"], s.opt["branch_ms"] = "normal", "generic", 200
    s.opt["sqrt_split"] = True
    s.opt["log_opaque"] = s.opt["log_positive"] = True


def bits(s, name, N, M, nf=3):
    out = []
    for n in range(N):
        row = []
        for j in range(M):
            at = [(j + 1 + 2 * q) % N for q in range(nf)]
            row.append(s.real(f"{name}_{n}_{j}", 0, 1) if n in at else 1.0 if n == j else float((n * (j + 2) // 3 + (name == "b1")) % 2))
        out.append(row)
    return out


def lsq(s, cols, b):
    """coefficients by column of the least-squares fit of b"""
    A = s.np.array([[c[i] for c in cols] for i in range(len(b))])
    return s.np.linalg.lstsq(A, s.np.array(b), rcond=None)[0]


def trig(Ns, freqs, H):
    """(unity pairs) cos and sin columns of every capture and harmonic over the stacked rows"""
    T = sum(Ns)
    C, S = [], []
    r0 = 0
    for N, f in zip(Ns, freqs):
        for h in range(1, H + 1):
            for X, g in ((C, math.cos), (S, math.sin)):
                X.append([g(2 * math.pi * f * h * (i - r0)) if r0 <= i < r0 + N else 0.0 for i in range(T)])
        r0 += N
    return C, S


def model(s, B, Ns, freqs, H, unity, extra=()):
    """weights, other columns and harmonic coefficients of the fit with the first cosine (or sine) at one"""
    C, S = trig(Ns, freqs, H)
    T, K, M = sum(Ns), len(Ns), len(B[0][0])
    X, Y = (C, S) if unity == 0 else (S, C)
    rows = [r for b in B for r in b]
    bc = [[rows[i][j] for i in range(T)] for j in range(M)]
    off = []
    r0 = 0
    for N in Ns:
        off.append([1.0 if r0 <= i < r0 + N else 0.0 for i in range(T)])
        r0 += N
    cols = list(extra) + Y + X[1:] + off + bc
    x = lsq(s, cols, [-v for v in X[0]])
    e = len(extra)
    n = len(Y)
    other = [x[e + i] for i in range(n)]
    unit = [1.0] + [x[e + n + i] for i in range(n - 1)]
    w = [x[len(cols) - M + j] for j in range(M)]
    cc, ss = (unit, other) if unity == 0 else (other, unit)
    return w, cc, ss, other[0], [x[i] for i in range(e)]


def deriv(Ns, freqs, H, cc, ss):
    T = sum(Ns)
    out, r0 = [], 0
    for k, (N, f) in enumerate(zip(Ns, freqs)):
        col = [0.0] * T
        for i in range(N):
            col[r0 + i] = sum(2 * math.pi * h * i * (ss[k * H + h - 1] * math.cos(2 * math.pi * f * h * i) - cc[k * H + h - 1] * math.sin(2 * math.pi * f * h * i))
                              for h in range(1, H + 1)) / N
        out.append(col)
        r0 += N
    return out


def search(s, Ns, freqs, M, H, rate, iters, nf):
    setup(s)
    if iters > 1:
        s.opt["lstsq"], s.opt["branch_ms"] = "free", 20
    K = len(Ns)
    B = [bits(s, f"b{k}", Ns[k], M, nf) for k in range(K)]
    arrs = [s.np.array(b) for b in B]
    kw = {"learning_rate": rate} if rate != 0.5 else {}
    if H != 1:
        kw["harmonic_order"] = H
    r = s.get(CAL)(arrs if K > 1 else arrs[0], freq=list(freqs) if K > 1 else freqs[0], force_search=True, max_iter=iters, reltol=0.0, **kw)
    rf = r["refined_frequency"]
    rf = [rf] if K == 1 else [rf[k] for k in range(K)]
    w = r["weight"]
    s.ge(sum(w[j] for j in range(M)), 0.0, "positive polarity", tol=1e-9)
    cand = []
    for u1 in (0, 1):
        _, cc, ss, _, _ = model(s, B, Ns, freqs, H, u1)
        D = deriv(Ns, freqs, H, cc, ss)
        for u2 in (0, 1):
            cand.append(model(s, B, Ns, freqs, H, u2, D))
    if iters == 1:
        for k in range(K):
            s.eq(rf[k], freqs[k], "first step starts at the given frequency")
        pairs = [[(w[j], wr[j] / s.np.sqrt(1 + q * q)) for j in range(M)] for wr, _, _, q, _ in cand]
        for p in pairs:
            for sg in (1, -1):
                if all(s.surely_zero(a - sg * b, 1e-5, False) for a, b in p):
                    s.true(True, "weights of the fit with the frequency derivative")
                    return
        a = pairs[-1]
        for x, y in a:
            s.eq(x * x, y * y, "weights of the fit with the frequency derivative", scale=10.0)
        return
    steps = [[d[k] * rate / Ns[k] for k in range(K)] for _, _, _, _, d in cand]
    for st in steps[:-1]:
        if all(s.surely_zero(rf[k] - freqs[k] - st[k], 1e-6, False) for k in range(K)):
            s.true(True, "frequency moves by its derivative coefficient")
            return
    for k in range(K):
        s.eq(rf[k], freqs[k] + steps[-1][k], "frequency moves by its derivative coefficient")


def exact(s, N, f, ph, W, A, o, H, mode):
    """bits whose weighted sum is exactly a sine"""
    setup(s)
    M = len(W)
    B = bits(s, "b0", N, M, 2)
    for n in range(N):
        tgt = A * math.sin(2 * math.pi * f * n + ph) + o
        B[n][M - 1] = (tgt - sum(W[j] * B[n][j] for j in range(M - 1))) / W[M - 1]
    arr = s.np.array(B)
    wt = [v / A for v in W]
    if sum(wt) < 0:
        wt = [-v for v in wt]
    if mode == "lite":
        w = s.get(LITE)(arr, f)
    else:
        r = s.get(CAL)(arr, freq=f, harmonic_order=H, **({"force_search": True} if mode == "search" else {}))
        w = r["weight"]
        s.eq(r["refined_frequency"], f, "exact frequency is returned")
        s.eq(r["offset"] * (1 if sum(W) / A > 0 else -1), o / A, "offset of exact data")
        for n in range(N):
            s.eq(r["error"][0][n], 0.0, "exact data leave no error")
    for j in range(M):
        s.eq(w[j], wt[j], "exact data return their weights")


def lite(s, N, f, M, nf):
    setup(s)
    B = bits(s, "b0", N, M, nf)
    w = s.get(LITE)(s.np.array(B), f)
    s.true(len(w) == M, "one weight per bit")
    s.ge(sum(w[j] for j in range(M)), 0.0, "positive polarity", tol=1e-9)
    wr, _, _, q, _ = model(s, [B], [N], [f], 1, 0)
    n = s.np.sqrt(1 + q * q)
    sg = -1.0 if s.holds(sum(wr) < 0) else 1.0
    for j in range(M):
        s.eq(w[j] * n, sg * wr[j], "weights of the unit-amplitude fit", scale=10.0)


def rejects(s):
    f = s.real("f", 0.500001, 1000)
    B = s.np.array(bits(s, "b0", 6, 2, 2))
    s.raises(ValueError, "frequency above one half rejected", s.get(CAL), B, freq=f)
    s.raises(ValueError, "frequency above one half rejected", s.get(LITE), B, f)
    s.raises(ValueError, "frequency above one half rejected", s.get(CAL), [B, B], freq=[0.2, f])
    s.raises(ValueError, "one frequency per capture", s.get(CAL), [B, B], freq=[0.2, 0.3, 0.1])
    s.raises(ValueError, "captures of different widths rejected", s.get(CAL), [B, s.np.array(bits(s, "b1", 6, 3, 2))], freq=0.2)
    s.raises(ValueError, "nominal weights of another width rejected", s.get(CAL), B, freq=0.2, nominal_weights=[4.0, 2.0, 1.0])


def scenarios():
    r = [Scenario("rejects", rejects)]
    for N, f, M, nf in ((6, 0.2, 1, 3), (6, 0.13, 2, 2), (8, 0.37, 3, 2)):
        r.append(Scenario(f"lite_{N}_{M}", lite, N=N, f=f, M=M, nf=nf))
    for i, (N, f, ph, W, A, o, H) in enumerate(((8, 0.13, 0.3, (4.0, 2.0, 1.0), 3.0, 3.5, 1), (9, 0.21, 2.0, (5.0, 1.0), -2.0, 1.0, 2), (8, 0.37, 1.5, (-4.0, 1.0), 2.5, 0.0, 1))):
        for m in ("lite", "fixed", "search"):
            if m == "lite" and H > 1:
                continue
            r.append(Scenario(f"exact_{i}_{m}", exact, N=N, f=f, ph=ph, W=W, A=A, o=o, H=H, mode=m))
    for Ns, fr, M, H, rate, nf in (([6], [0.2], 1, 1, 0.5, 2), ([7], [0.31], 2, 1, 1.0, 2), ([8], [0.13], 1, 2, 0.25, 2), ([6, 7], [0.2, 0.33], 1, 1, 0.5, 2), ([8, 9], [0.13, 0.37], 1, 2, 0.5, 1)):
        for it in (1, 2):
            r.append(Scenario(f"search_{len(Ns)}_{M}_{H}_{it}", search, tier="thorough" if len(Ns) * H * it == 8 else "quick", Ns=Ns, freqs=fr, M=M, H=H, rate=rate, iters=it, nf=nf))
    return r
