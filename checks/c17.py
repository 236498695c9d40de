"""C17 multi-run averaging preserves power and is independent of run order."""
import itertools
import math

from engine.run import Scenario
from checks.speclib import capture, inband

BOUNDS = ("2..4 runs of 7..15 samples; power averaging: every bin power of every run symbolic, permutations and repetitions; coherent averaging: identical runs with every bin power symbolic, "
          "a tone of any amplitude with any start phase per run, a tone with a harmonic of any amplitude and phase started at several instants, tone plus Nyquist content, "
          "one free component per run against the power average, dead runs in any given position")
OUTSIDE = "longer records; coherent averaging of runs that differ in several free components at once; exactly tied bins; fundamentals below -40 dBFS"
T = "adctoolbox.spectrum.compute_spectrum:compute_spectrum"
KEYS = ("sig_pwr_dbfs", "sndr_dbc", "enob", "thd_dbc", "sfdr_dbc", "snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz")


def lin(s, res, k):
    return 10 ** (res["plot_data"]["power_spectrum_db_plot"][k] / 10)


def same(s, a, b, what, tol=1e-6):
    for k in KEYS:
        s.eq(a["metrics"][k], b["metrics"][k], what, tol=tol)
    A, B = a["plot_data"]["power_spectrum_db_plot"], b["plot_data"]["power_spectrum_db_plot"]
    s.true(len(A) == len(B), what)
    for k in range(1, len(A)):
        s.eq(A[k], B[k], what, tol=tol)


def dominate(s, P, f, n_in):
    for k in range(1, n_in):
        if k != f:
            s.assume(P[f] >= P[k] * 1.0001)
    if f + 1 < n_in and f > 1:
        s.assume(P[f + 1] < P[f] * 0.99e-4)


def power(s, N, f, M, order, win="boxcar", osr=1):
    """mean of the per-run spectra; permuted or repeated runs give the same result"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, osr)
    top = N // 2 + 1 if win == "boxcar" or N % 2 else N // 2
    R = [[None] + [s.real(f"p{m}_{k}", 1e-4 if k == f else 1e-9, 1) for k in range(1, top)] + [None] * (N // 2 + 1 - top) for m in range(M)]
    P = [None] + [sum(R[m][k] for m in range(M)) / M for k in range(1, top)]
    dominate(s, P, f, min(n_in, top))
    xs = [capture(s, R[m], N, win) for m in range(M)]
    kw = dict(max_scale_range=1.0, win_type=win, side_bin=1, max_harmonic=3, nf_method=3, osr=osr)
    g = s.get(T)
    r0 = g(s.np.array(xs), **kw)
    s.true((r0["M"], r0["N"]) == (M, N), "runs and samples")
    for k in range(1, top):
        s.eq(lin(s, r0, k), P[k], "power average is the mean of the run spectra", scale=P[k])
    r1 = g(s.np.array([xs[i] for i in order]), **kw)
    same(s, r0, r1, "order and repetition of runs do not matter")


def single(s, N, f, M, avg):
    """identical runs give the single-run spectrum, in both modes"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, 1)
    P = [None] + [s.real(f"p0_{k}", 1e-4 if k == f else 1e-9, 1) for k in range(1, N // 2 + 1)]
    dominate(s, P, f, n_in)
    x = capture(s, P, N)
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=3, nf_method=3)
    g = s.get(T)
    r0 = g(s.np.array(x), **kw)
    r1 = g(s.np.array([x] * M), coherent_averaging=avg, **kw)
    same(s, r0, r1, "identical runs")
    if avg:
        for k in range(1, N // 2 + 1):
            s.eq(lin(s, r1, k), P[k], "identical runs keep their power spectrum", scale=P[k])
        c = r1["plot_data"]["complex_spectrum"]
        for k in range(1, N // 2 + 1):
            s.eq(s.abs(c[k]) ** 2, P[k], "complex spectrum carries the power spectrum", scale=P[k])


def tone(s, N, f, M, dead=()):
    """a tone from any start phase per run keeps its power under coherent averaging"""
    s.opt["minmax"] = "fork"
    a = s.real("a", 0.3, 1)
    rows = []
    for m in range(M):
        if m in dead:
            rows.append([0.0] * N)
            continue
        ph = s.real(f"ph{m}", -3.2, 3.2)
        c, t = s.np.cos(ph), s.np.sin(ph)
        rows.append([a * (c * math.cos(2 * math.pi * f * n / N) - t * math.sin(2 * math.pi * f * n / N)) for n in range(N)])
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=2, nf_method=3, coherent_averaging=True)
    r = s.get(T)(s.np.array(rows), **kw)
    s.eq(lin(s, r, f), a * a, "fundamental power whatever the start phases", tol=1e-5)
    for k in range(1, N // 2 + 1):
        if k != f:
            s.le(lin(s, r, k), 1e-9, "empty bins stay empty")


def phased(s, N, f, h, phases):
    """a tone with harmonic h, runs started at different instants: coherent averaging keeps both powers"""
    s.opt["minmax"] = "fork"
    a, u, v = s.real("a", 0.3, 1), s.real("u", 0.001, 0.002), s.real("v", -0.002, 0.002)
    hb = (h * f) % N
    hb = min(hb, N - hb)
    rows = []
    for ph in phases:
        rows.append([a * math.cos(2 * math.pi * f * n / N + ph) + u * math.cos(h * (2 * math.pi * f * n / N + ph)) + v * math.sin(h * (2 * math.pi * f * n / N + ph)) for n in range(N)])
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=2, nf_method=3, coherent_averaging=True)
    r = s.get(T)(s.np.array(rows), **kw)
    s.eq(lin(s, r, f), a * a, "fundamental power whatever the start phases", tol=1e-5)
    s.eq(lin(s, r, hb), u * u + v * v, "harmonic power whatever the start phases", tol=1e-9)


def nyquist(s, N, f, signs):
    """content at half the sampling rate does not take over the alignment"""
    s.opt["minmax"] = "fork"
    a, b = s.real("a", 0.1, 1), s.real("b", 0.01, 0.7)
    s.assume(a * a >= 2.001 * b * b)
    rows = [[g * a * math.cos(2 * math.pi * f * n / N) + b * (-1.0) ** n for n in range(N)] for g in signs]
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=2, nf_method=3, coherent_averaging=True)
    r = s.get(T)(s.np.array(rows), **kw)
    s.eq(lin(s, r, f), a * a, "fundamental power whatever the start phases", tol=1e-5)
    s.true(int(r["plot_data"]["fundamental_bin"]) == f, "fundamental bin")


def bounded(s, N, f, M, bins, ph=0.0):
    """coherent average never exceeds the power average"""
    s.opt["minmax"] = "fork"
    rows = []
    for m in range(M):
        # fundamental at phase zero with amplitude one; another bin arbitrary
        row = [1.0 * math.cos(2 * math.pi * f * n / N) for n in range(N)]
        for k in bins:
            u = s.real(f"u{m}_{k}", -0.005, 0.005)
            row = [row[n] + u * math.cos(2 * math.pi * k * n / N - ph) for n in range(N)]
        if m:
            row = [(0.5, 0.7, 1.0)[m % 3] * q for q in row]
        rows.append(row)
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=2, nf_method=3)
    g = s.get(T)
    x = s.np.array(rows)
    rc, rp = g(x, coherent_averaging=True, **kw), g(x, **kw)
    for k in range(1, N // 2 + 1):
        s.le(lin(s, rc, k), lin(s, rp, k) + 1e-12, "coherent average within the power average")


def deadruns(s, N, f, M, dead):
    """all-zero runs are ignored by coherent averaging"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, 1)
    P = [None] + [s.real(f"p0_{k}", 1e-4 if k == f else 1e-9, 1) for k in range(1, N // 2 + 1)]
    dominate(s, P, f, n_in)
    x = capture(s, P, N)
    o = s.real("o", -3, 3)
    rows = [[o] * N if m in dead else x for m in range(M)]
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=0, max_harmonic=3, nf_method=3, coherent_averaging=True)
    r = s.get(T)(s.np.array(rows), **kw)
    for k in range(1, N // 2 + 1):
        s.eq(lin(s, r, k), P[k], "dead runs are ignored", scale=P[k])


def sampler(f):
    def g(rng, d):
        for n in list(d):
            if n[0] == "p" and "_" in n:
                d[n] = 10 ** rng.uniform(-5, -1)
                k = int(n.split("_")[-1].lstrip("p"))
                if k == f:
                    d[n] = 0.9
                elif abs(k - f) == 1:
                    d[n] = 1e-6 * rng.uniform(0.5, 1)
    return g


def scenarios():
    r = []
    for N, f, M, orders, w, osr in ((10, 3, 2, ((1, 0), (0, 1, 0, 1)), "boxcar", 1), (9, 2, 3, ((2, 0, 1), (0, 2, 1), (1, 0, 2, 1, 0, 2)), "boxcar", 1),
                                    (11, 3, 2, ((1, 0), (0, 0, 1, 1)), "hann", 1), (12, 2, 2, ((1, 0),), "boxcar", 2), (8, 1, 4, ((3, 1, 2, 0), (1, 2, 3, 0)), "boxcar", 1)):
        for i, o in enumerate(orders):
            r.append(Scenario(f"power_{N}_{M}_{w}_{osr}_{i}", power, sample=sampler(f), N=N, f=f, M=M, order=o, win=w, osr=osr))
    for N, f, M in ((8, 3, 2), (9, 2, 3), (8, 1, 3), (11, 4, 2), (7, 3, 4)):
        for avg in (False, True):
            r.append(Scenario(f"single_{N}_{f}_{M}_{'coh' if avg else 'pow'}", single, sample=sampler(f), N=N, f=f, M=M, avg=avg))
    for N, f, M, dead in ((7, 1, 2, ()), (8, 3, 2, ()), (9, 2, 3, ()), (10, 4, 2, ()), (8, 2, 3, (1,))):
        r.append(Scenario(f"tone_{N}_{f}_{M}", tone, N=N, f=f, M=M, dead=dead))
    for N, f, h in ((8, 1, 2), (8, 3, 2), (9, 2, 3), (10, 3, 3), (12, 1, 2)):
        r.append(Scenario(f"phased_{N}_{f}_{h}", phased, N=N, f=f, h=h, phases=(0.0, math.pi / 2, math.pi)))
        r.append(Scenario(f"phasedx_{N}_{f}_{h}", phased, N=N, f=f, h=h, phases=(0.4, 2.1)))
    for N, f, g in ((8, 1, (1, -1)), (8, 3, (-1, 1, 1)), (10, 3, (1, -1))):
        r.append(Scenario(f"nyquist_{N}_{f}", nyquist, N=N, f=f, signs=g))
    for N, f, M, bins in ((7, 3, 2, (1,)), (9, 4, 2, (2,)), (7, 3, 3, (2,)), (11, 5, 2, (3,))):
        for ph in (0.0, 0.7):
            r.append(Scenario(f"bounded_{N}_{f}_{M}_{ph}", bounded, N=N, f=f, M=M, bins=bins, ph=ph))
    for N, f, M, dead in ((8, 3, 3, (1,)), (9, 2, 3, (0, 2)), (8, 1, 2, (0,))):
        r.append(Scenario(f"dead_{N}_{f}_{M}", deadruns, sample=sampler(f), N=N, f=f, M=M, dead=dead))
    return r
