"""C15 spectrum levels are calibrated to full scale and ignore offset and polarity."""
import math

from engine.run import Scenario
from checks.speclib import capture, inband, window

BOUNDS = ("coherent tones of 12..64 samples, any amplitude and phase (0.05..1 of full scale), any offset, full scale anywhere in [0.25,8] given as peak, as a (min, max) "
          "pair or taken from the data; eight windows at tone positions whose main lobe lies inside the band; offset, polarity, scaling and layout on captures of 8..16 samples "
          "with every bin power in [1e-9,1] and the fundamental in a given bin")
OUTSIDE = "longer records; tones whose main lobe reaches DC or the band edge; records with exactly tied bins"
T = "adctoolbox.spectrum.compute_spectrum:compute_spectrum"


def level(s, N, f, win, sb, mode, osr=1, auto=False, tol=1e-6):
    """a tone of amplitude A (fraction of full scale) at any phase reads 20 log A"""
    s.opt["minmax"] = "fork"
    p, q = s.real("p", -1, 1), s.real("q", -1, 1)
    a2 = p * p + q * q
    s.assume(a2 >= 0.05 ** 2, a2 <= 1)
    F = s.real("F", 0.25, 8)
    o = s.real("o", -5, 5)
    x = [o + F * (p * math.cos(2 * math.pi * f * n / N) + q * math.sin(2 * math.pi * f * n / N)) for n in range(N)]
    if mode == "peak":
        rg = F
    elif mode == "pair":
        b = s.real("b", -3, 3)
        rg = (b, b + 2 * F)
    else:
        b = s.real("b", -3, 3)
        rg = [b - F, b + F]
    kw = {} if auto else {"side_bin": sb}
    res = s.get(T)(s.np.array(x), max_scale_range=rg, win_type=win, osr=osr, max_harmonic=3, nf_method=3, **kw)
    s.true(int(res["plot_data"]["fundamental_bin"]) == f, "fundamental bin")
    s.eq(10 ** (res["metrics"]["sig_pwr_dbfs"] / 10), a2, "tone reads its level relative to full scale", tol=tol, scale=a2)


def derived(s, N, f, win, sb, i=0):
    """full scale taken from the data: a tone sampled at its peaks reads 0 dBFS whatever its size"""
    A, o = s.real("A", 0.01, 100), s.real("o", -5, 5)
    s.opt["minmax"] = "fork"
    x = [o + A * round(math.cos(2 * math.pi * f * n / N - i * math.pi / 2), 12) for n in range(N)]
    res = s.get(T)(s.np.array(x), win_type=win, side_bin=sb, max_harmonic=3, nf_method=3)
    s.eq(res["metrics"]["sig_pwr_dbfs"], 0.0, "full-scale tone reads 0 dBFS", tol=1e-5)
    m = s.get("adctoolbox:analyze_spectrum")(s.np.array(x), win_type=win, side_bin=sb, create_plot=False)
    s.eq(m["sig_pwr_dbfs"], 0.0, "full-scale tone reads 0 dBFS", tol=1e-5)


KEYS = ("sig_pwr_dbfs", "sndr_dbc", "enob", "thd_dbc", "sfdr_dbc", "snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz")


def same(s, a, b, what):
    for k in KEYS:
        s.eq(a["metrics"][k], b["metrics"][k], what + " changes no metric")
    for u, v in zip(a["metrics"]["harmonics_dbc"], b["metrics"]["harmonics_dbc"]):
        s.eq(u, v, what + " changes no metric")
    s.true(len(a["metrics"]["harmonics_dbc"]) == len(b["metrics"]["harmonics_dbc"]), what + " changes no metric")
    for k in ("fundamental_bin", "sig_bin_start", "sig_bin_end"):
        s.true(int(a["plot_data"][k]) == int(b["plot_data"][k]), what + " moves no bin")
    s.true(len(a["plot_data"]["freq"]) == len(b["plot_data"]["freq"]), what + " keeps the axis")


def powers(s, N, f, n_in, tag=""):
    P = [None] + [s.real(f"p{tag}{k}", 1e-9, 1) for k in range(1, N // 2 + 1)]
    return P


def dominate(s, P, f, n_in):
    for k in range(1, n_in):
        if k != f and P[k] is not None:
            s.assume(P[f] >= P[k] * 1.0001)
    if f + 1 < n_in and f > 1:
        s.assume(P[f + 1] < P[f] * 0.99e-4)


def invariance(s, N, f, what, osr=1, sb=0, nf=0, H=4, win="boxcar", coherent=False):
    s.opt["minmax"] = "fork"
    n_in = inband(N, osr)
    P = powers(s, N, f, n_in)
    if win != "boxcar" and N % 2 == 0:
        P[N // 2] = None
    dominate(s, P, f, n_in)
    x = capture(s, P, N, win)
    kw = dict(max_scale_range=1.0, win_type=win, side_bin=sb, max_harmonic=H, nf_method=nf, osr=osr, coherent_averaging=coherent)
    g = s.get(T)
    r0 = g(s.np.array(x), **kw)
    if what == "offset":
        o = s.real("o", -100, 100)
        y = [v + o for v in x]
    elif what == "negation":
        y = [-v for v in x]
    same(s, r0, g(s.np.array(y), **kw), what)


def scaling(s, N, f, ph=0, sb=0, nf=3, H=3, osr=1, neg=False, off=False):
    """full scale from the data: one strong tone plus one weak component, everything scaled"""
    s.opt["minmax"] = "fork"
    k, e = s.real("k", 0.01, 100), s.real("e", 0.001, 0.1)
    e2 = s.real("e2", -0.1, 0.1)
    c = s.real("c", -3, 3) if off else 0.0
    g2 = f + 1 if f + 1 < N // 2 else f - 1
    x = []
    for n in range(N):
        v = round(math.cos(2 * math.pi * f * n / N - ph), 12) + e * round(math.cos(2 * math.pi * g2 * n / N), 12) + e2 * round(math.sin(2 * math.pi * g2 * n / N), 12)
        x.append(v)
    kw = dict(win_type="boxcar", side_bin=sb, max_harmonic=H, nf_method=nf, osr=osr)
    g = s.get(T)
    r0 = g(s.np.array(x), **kw)
    r1 = g(s.np.array([(-k if neg else k) * v + c for v in x]), **kw)
    same(s, r0, r1, "scaling")


def layout(s, N, f, M, form):
    """row vector, column vector, tall matrix"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, 1)
    R = [powers(s, N, f, n_in, f"{m}_") for m in range(M)]
    P = [None] + [sum(R[m][k] for m in range(M)) / M for k in range(1, N // 2 + 1)]
    dominate(s, P, f, n_in)
    xs = [capture(s, R[m], N) for m in range(M)]
    kw = dict(max_scale_range=1.0, win_type="boxcar", side_bin=1, max_harmonic=3, nf_method=3)
    g = s.get(T)
    a = s.np.array(xs)
    r0 = g(a if M > 1 else s.np.array(xs[0]), **kw)
    if form == "row":
        b = s.np.array([xs[0]])
    elif form == "column":
        b = s.np.array([[v] for v in xs[0]])
    else:
        b = s.np.array([[xs[m][n] for m in range(M)] for n in range(N)])
    r1 = g(b, **kw)
    s.true((r1["M"], r1["N"]) == (M, N), "runs and samples")
    same(s, r0, r1, "layout")


def run_offsets(s, N, f, M):
    """each run may carry its own offset and polarity"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, 1)
    R = [powers(s, N, f, n_in, f"{m}_") for m in range(M)]
    dominate(s, [None] + [sum(R[m][k] for m in range(M)) / M for k in range(1, N // 2 + 1)], f, n_in)
    xs = [capture(s, R[m], N) for m in range(M)]
    os = [s.real(f"o{m}", -20, 20) for m in range(M)]
    kw = dict(max_scale_range=(0.0, 2.0), win_type="boxcar", side_bin=0, max_harmonic=3, nf_method=1)
    g = s.get(T)
    r0 = g(s.np.array(xs), **kw)
    r1 = g(s.np.array([[(-v if m % 2 else v) + os[m] for v in xs[m]] for m in range(M)]), **kw)
    same(s, r0, r1, "offset per run")


def sampler(f):
    def g(rng, d):
        for n in d:
            if n[0] == "p" and n != "p":
                d[n] = 10 ** rng.uniform(-5, -1)
                k = int(n.split("_")[-1].lstrip("p"))
                if k == f:
                    d[n] = 0.9
                elif abs(k - f) == 1:
                    d[n] = 1e-6 * rng.uniform(0.5, 1)
        if "q" in d:
            a, r = rng.uniform(0, 2 * math.pi), rng.uniform(0.1, 0.99)
            d["p"], d["q"] = r * math.cos(a), r * math.sin(a)
    return g


# window, record length, tone bins, side bins holding the main lobe, worst relative leakage outside them
LOBES = (("boxcar", 16, (1, 3, 7), 0, 1e-6), ("boxcar", 15, (2, 7), 0, 1e-6), ("rectangular", 12, (5,), 0, 1e-6), ("hann", 16, (2, 4, 6), 1, 1e-6), ("hann", 15, (3,), 1, 1e-6),
         ("hamming", 16, (3,), 1, 1e-6), ("hamming", 13, (4,), 1, 1e-6), ("blackman", 16, (3, 5), 2, 1e-6), ("blackmanharris", 20, (4, 6), 3, 1e-6),
         ("flattop", 24, (5, 7), 4, 1e-6), ("chebwin", 32, (8,), 4, 1e-5), ("kaiser", 64, (16,), 9, 1e-5), ("Hann", 16, (5,), 1, 1e-6))


def scenarios():
    r = []
    for w, N, fs, sb, tol in LOBES:
        for i, f in enumerate(fs):
            mode = ("peak", "pair", "list")[(i + N) % 3]
            r.append(Scenario(f"level_{w}_{N}_{f}_{mode}", level, sample=sampler(f), N=N, f=f, win=w, sb=sb, mode=mode, tol=tol))
    r.append(Scenario("level_osr", level, sample=sampler(3), N=16, f=3, win="hann", sb=1, mode="pair", osr=1.6))
    r.append(Scenario("level_wide", level, sample=sampler(4), N=16, f=4, win="boxcar", sb=2, mode="peak"))
    for w, N, f, sb in (("boxcar", 16, 1, 0), ("hann", 16, 3, 1), ("boxcar", 12, 1, 0), ("blackman", 16, 5, 2)):
        for i in (0, 1):
            r.append(Scenario(f"derived_{w}_{N}_{f}_{i}", derived, N=N, f=f, win=w, sb=sb, i=i))
    for what in ("offset", "negation"):
        for N, f, osr, sb, nf, win in ((16, 3, 1, 1, 0, "boxcar"), (15, 4, 1, 0, 3, "boxcar"), (16, 2, 2, 0, 4, "boxcar"), (12, 5, 1, 1, 2, "boxcar"),
                                        (16, 5, 1, 1, 3, "hann"), (15, 3, 1, 1, 0, "flattop"), (14, 4, 1, None, 3, "blackman"), (16, 6, 1, None, 4, "boxcar")):
            r.append(Scenario(f"{what}_{N}_{f}_{win}", invariance, sample=sampler(f), N=N, f=f, what=what, osr=osr, sb=sb, nf=nf, win=win))
    for M in (2, 3):
        r.append(Scenario(f"run_offsets{M}", run_offsets, sample=sampler(3), N=10, f=3, M=M))
    r.append(Scenario("scaling_8", scaling, N=8, f=1))
    r.append(Scenario("scaling_8_off", scaling, N=8, f=1, off=True))
    r.append(Scenario("scaling_8_neg", scaling, N=8, f=3, neg=True, off=True, ph=0.3))
    r.append(Scenario("scaling_12", scaling, N=12, f=2, sb=1, ph=1.1))
    for form, M in (("row", 1), ("column", 1), ("tall", 2), ("tall", 3)):
        r.append(Scenario(f"layout_{form}{M}", layout, sample=sampler(3), N=10, f=3, M=M, form=form))
    return r
