"""C26 sine weight calibration at known frequencies."""
import math

import numpy as np

from engine.run import Scenario

CAL = "adctoolbox:calibrate_weight_sine"
BOUNDS = ("1..3 captures of 5..10 samples, 1..5 bit columns, two or three samples of each free column taking every real value in [0,1] and the others toggling between fixed levels (columns scaled by 1, 20 or 0.05), up to two columns with a fixed bit pattern, harmonic orders 1..3, "
          "every least-squares coefficient up to 100 in magnitude, stuck columns, columns moving together with nominal weights, transposed input")
OUTSIDE = "longer captures, rank loss at isolated values of a generically full-rank matrix, frequency estimation and refinement (C27)"
ASSUMPTIONS = ["bit matrices have their generic rank", "a least-squares solver returns a vector that satisfies the normal equations"]


def capture(s, name, N, cols, k0=0, nf=3):
    """columns: ('free', scale) | ('bits', pattern) | ('stuck', value) | ('copy', j); nf free values per free column, the others toggle"""
    out = []
    for j, c in enumerate(cols):
        if c[0] == "free":
            top = (j + k0) % N
            at = [(top + 1 + 2 * q) % N for q in range(nf)]
            out.append([c[1] * (s.real(f"{name}_{n}_{j}", 0, 1) if n in at else 1.0 if n == top else float((n * (j + 2) // 3 + k0) % 2)) for n in range(N)])
        elif c[0] == "bits":
            out.append([float((c[1] >> (n + k0) % 11) & 1) for n in range(N)])
        elif c[0] == "stuck":
            out.append([float(c[1])] * N)
        else:
            out.append(list(out[c[1]]))
    return [[out[j][n] for j in range(len(cols))] for n in range(N)]


def fit(s, Ns, freqs, cols, H=1, nominal=None, transpose=False, as_list=True, flat=False, nf=3):
    s.opt["lstsq"], s.opt["rank"], s.opt["branch_ms"] = "normal", "generic", 200
    s.opt["sqrt_split"] = True
    s.opt["log_opaque"] = s.opt["log_positive"] = True
    K, M = len(Ns), len(cols)
    B = [capture(s, f"b{k}", Ns[k], cols, k, nf) for k in range(K)]
    arrs = [s.np.array(b) for b in B]
    if transpose:
        arrs = [a.T for a in arrs]
    kw = {"nominal_weights": nominal} if nominal else {}
    if H != 1:
        kw["harmonic_order"] = H
    fr = freqs[0] if flat else list(freqs)
    r = s.get(CAL)(arrs if as_list else arrs[0], freq=fr, **kw)
    w = r["weight"]
    s.true(len(w) == M, "one weight per bit")
    s.ge(sum(w[j] for j in range(M)), 0.0, "positive polarity", tol=1e-9)
    nom = nominal or [2.0 ** (M - 1 - j) for j in range(M)]
    for j, c in enumerate(cols):
        if c[0] == "stuck":
            s.eq(w[j], 0.0, "stuck bit has weight zero")
        elif c[0] == "copy":
            s.eq(w[j] * nom[c[1]], w[c[1]] * nom[j], "bits moving together share weight by nominal weight", scale=10.0)
    rf = r["refined_frequency"]
    for k in range(K):
        s.eq(rf if K == 1 else rf[k], freqs[k], "given frequency is kept")
    for k in range(K):
        N, f = Ns[k], freqs[k]
        cal, idl, er = r["calibrated_signal"][k], r["ideal"][k], r["error"][k]
        s.true(len(cal) == N and len(idl) == N and len(er) == N, "one value per sample")
        basis = [[g(2 * math.pi * f * h * n) for n in range(N)] for h in range(1, H + 1) for g in (math.cos, math.sin)]
        S = np.array(basis).T
        P = np.linalg.pinv(S)
        co = [sum(float(P[i, n]) * idl[n] for n in range(N)) for i in range(2 * H)]
        off = [cal[n] - idl[n] - er[n] for n in range(N)]
        for n in range(N):
            s.eq(cal[n], sum(w[j] * B[k][n][j] for j in range(M)), "calibrated signal is bits times weights", scale=10.0)
            s.eq(idl[n], sum(float(S[n, i]) * co[i] for i in range(2 * H)), "ideal is a sine of the capture's frequency", scale=10.0)
            s.eq(off[n], r["offset"] if k == 0 else off[0], "error is calibrated minus offset minus ideal", scale=10.0)
        if k == 0:
            s.eq(co[0] * co[0] + co[1] * co[1], 1.0, "first fundamental has unit amplitude")
        # residual of a least-squares fit: orthogonal to everything fitted
        s.eq(sum(er[n] for n in range(N)), 0.0, "error has no offset left", scale=100.0)
        for i in range(2 * H):
            if k == 0 and i < 2:
                continue
            s.eq(sum(er[n] * basis[i][n] for n in range(N)), 0.0, "error has no sine left", scale=100.0)
        ps, pn = sum(idl[n] * idl[n] for n in range(N)) / N, sum(er[n] * er[n] for n in range(N)) / N
        snr = r["snr_db"] if K == 1 else r["snr_db"][k]
        enob = r["enob"] if K == 1 else r["enob"][k]
        s.eq(enob, (snr - 1.76) / 6.02, "effective bits from signal-to-noise", scale=100.0)
        if bool(pn > 0):
            s.eq(snr, 10 * s.np.log10(ps / pn), "signal-to-noise is ideal power over error power", scale=100.0)
    er = r["error"]
    q = [sum(er[0][n] * g(2 * math.pi * freqs[0] * n) for n in range(Ns[0])) for g in (math.cos, math.sin)]
    if not s.surely_zero(q[0], 1e-4):
        s.eq(q[1], 0.0, "error has no first fundamental left beyond the unit one", scale=100.0)
    groups = {}
    for j, c in enumerate(cols):
        if c[0] != "stuck":
            groups.setdefault(c[1] if c[0] == "copy" else j, []).append(j)
    for g in groups.values():
        s.eq(sum(er[k][n] * B[k][n][g[0]] for k in range(K) for n in range(Ns[k])), 0.0, "error is uncorrelated with every bit", scale=1000.0)


def scenarios():
    F, L, T = ("free", 1.0), ("free", 20.0), ("free", 0.05)
    r = []

    def a(nm, **k):
        r.append(Scenario(nm, fit, **k))
    a("one_m1", Ns=[6], freqs=[0.2], cols=[F])
    a("one_m2", Ns=[6], freqs=[0.2], cols=[F, F], as_list=False, flat=True)
    a("one_m3", Ns=[8], freqs=[0.13], cols=[F, L, T], as_list=False, flat=True)
    a("one_h2", Ns=[8], freqs=[0.13], cols=[F, F], H=2, as_list=False, flat=True)
    a("one_t", Ns=[7], freqs=[0.31], cols=[F, F], transpose=True, as_list=False, flat=True)
    a("stuck", Ns=[7], freqs=[0.31], cols=[F, ("stuck", 1), F, ("stuck", 0)], as_list=False, flat=True)
    a("copy", Ns=[7], freqs=[0.31], cols=[F, F, ("copy", 0)], as_list=False, flat=True)
    a("copy3", Ns=[7], freqs=[0.31], cols=[("bits", 0b01100110101), ("copy", 0), F, ("copy", 0)], nf=2, nominal=[8.0, 3.0, 2.0, 1.0], as_list=False, flat=True)
    a("copynom", Ns=[9], freqs=[0.31], cols=[("bits", 0b01100110101), ("bits", 0b10111000110), ("copy", 1), F, ("copy", 0)], nominal=[8.0, 4.0, 3.0, 1.5, 0.5], as_list=False, flat=True)
    a("copytwo", Ns=[6, 7], freqs=[0.31, 0.12], cols=[("bits", 0b01100110101), ("stuck", 1), ("copy", 0), F])
    a("two", Ns=[6, 7], freqs=[0.2, 0.33], cols=[F, F])
    a("two_flat", Ns=[6, 6], freqs=[0.2, 0.2], cols=[F, F], flat=True)
    a("two_h2", Ns=[8, 9], freqs=[0.13, 0.37], cols=[F], H=2)
    a("two_h3", Ns=[9, 10], freqs=[0.13, 0.37], cols=[F], H=3, nf=2)
    a("three_h2", Ns=[7, 8, 7], freqs=[0.13, 0.37, 0.22], cols=[F], H=2, nf=2)
    a("three", Ns=[6, 5, 7], freqs=[0.2, 0.33, 0.07], cols=[F, L], nf=2)
    return r
