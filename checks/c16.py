"""C16 the fast SNDR path agrees with the full spectrum analysis."""
import math

from engine.run import Scenario
from checks.speclib import capture, inband, metrics

BOUNDS = ("captures of 8..24 samples, even and odd, every bin power in [1e-9,1] symbolic with no assumption about which bin is strongest (up to near-ties), or the fundamental in a given bin; "
          "0..5 side bins and the window default; eight window names; full scale given as peak, pair or derived from the data; offsets; column layout")
OUTSIDE = "longer captures; oversampling other than one; exact ties between bins; negative side-bin counts"
T = "adctoolbox.spectrum.compute_spectrum:compute_spectrum"
Q = "adctoolbox:quick_sndr"
DEF = {"boxcar": 0, "rectangular": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4, "chebwin": 4, "kaiser": 8}


def both(s, x, sb, win, rg, quick_sb=None, fs=1.0):
    kw = {} if rg is None else {"max_scale_range": rg}
    full = s.get(T)(x, win_type=win, side_bin=sb, osr=1, max_harmonic=2, nf_method=3, **kw)
    if quick_sb != "default":
        kw["side_bin"] = sb
    q = s.get(Q)(x, fs=fs, win_type=win, **kw)
    s.true(sorted(q) == ["enob", "sndr_dbc"], "reported metrics")
    s.eq(q["sndr_dbc"], full["metrics"]["sndr_dbc"], "same SNDR")
    s.eq(q["enob"], full["metrics"]["enob"], "same ENOB")
    s.eq(q["enob"], (q["sndr_dbc"] - 1.76) / 6.02, "ENOB of the SNDR")
    return full, q


def fixed(s, N, f, sb, win="boxcar", rg="peak", default=False, off=False, form="flat"):
    """the fundamental in bin f"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, 1)
    top = N // 2 + 1 if win in ("boxcar", "rectangular") or N % 2 else N // 2
    P = [None] * (N // 2 + 1)
    for k in range(1, top):
        P[k] = s.real(f"p{k}", 1e-9, 1)
    for k in range(1, top):
        if k != f:
            s.assume(P[f] >= P[k] * 1.0001)
    F = s.real("F", 0.25, 8) if rg != "one" else 1.0
    x = [F * v for v in capture(s, P, N, win)]
    if off:
        o = s.real("o", -10, 10)
        x = [v + o for v in x]
    r = {"peak": F, "pair": (-F / 2, 1.5 * F), "one": 1.0}[rg]
    a = s.np.array(x) if form == "flat" else s.np.array([[v] for v in x]) if form == "column" else x
    full, q = both(s, a, sb, win, r, "default" if default else None)
    o = metrics(s, [0.0 if v is None else v for v in P], N, 1, 2, 3, sb, 1.0, f)
    s.eq(q["sndr_dbc"], o["sndr_dbc"], "SNDR of the bin powers")


def free(s, N, sb, win="boxcar"):
    """whichever bin is strongest"""
    s.opt["minmax"] = "fork"
    top = N // 2 + 1 if win == "boxcar" or N % 2 else N // 2
    P = [None] * (N // 2 + 1)
    for k in range(1, top):
        P[k] = s.real(f"p{k}", 1e-9, 1)
    for i in range(1, top):
        for j in range(i + 1, top):
            s.assume(s.any(P[i] >= P[j] * 1.0001, P[j] >= P[i] * 1.0001))
    both(s, s.np.array(capture(s, P, N, win)), sb, win, 1.0)


def derived(s, N, f, sb, win):
    """full scale left to the data"""
    s.opt["minmax"] = "fork"
    e, e2, k = s.real("e", 0.001, 0.1), s.real("e2", -0.1, 0.1), s.real("k", 0.01, 100)
    g2 = f + 2 if f + 2 < N // 2 else f - 2
    x = [k * (round(math.cos(2 * math.pi * f * n / N), 12) + e * round(math.cos(2 * math.pi * g2 * n / N), 12) + e2 * round(math.sin(2 * math.pi * g2 * n / N), 12)) for n in range(N)]
    both(s, s.np.array(x), sb, win, None)


def sampler(f):
    def g(rng, d):
        for n in d:
            if n[0] == "p":
                d[n] = 10 ** rng.uniform(-5, -1)
                if int(n[1:]) == f:
                    d[n] = 0.9
    return g


def scenarios():
    r = []
    for N in (12, 13):
        for f in range(1, N // 2 + 1):
            for sb in (0, 1, 3):
                r.append(Scenario(f"fixed_{N}_{f}_{sb}", fixed, sample=sampler(f), N=N, f=f, sb=sb, rg=("peak", "pair", "one")[(f + sb) % 3]))
    for w in ("boxcar", "rectangular", "hann", "hamming", "blackman", "blackmanharris", "flattop", "HANN", "Boxcar"):
        for N, f in ((16, 4), (15, 3)) + (((20, 5),) if w.startswith(("h", "b", "f")) else ()):
            d = DEF[w.lower()]
            r.append(Scenario(f"win_{w}_{N}_def", fixed, sample=sampler(f), N=N, f=f, sb=d, win=w.lower() if w == "Boxcar" else w, default=True, off=True))
            r.append(Scenario(f"win_{w}_{N}", fixed, sample=sampler(f), N=N, f=f, sb=d + 1, win=w.lower() if w == "Boxcar" else w, rg="pair"))
    for form in ("column", "list"):
        r.append(Scenario(f"form_{form}", fixed, sample=sampler(3), N=12, f=3, sb=1, form=form))
    for N, sb, w in ((8, 0, "boxcar"), (9, 1, "boxcar"), (11, 0, "hann"), (10, 2, "boxcar"), (10, 1, "hann"), (12, 5, "boxcar")):
        r.append(Scenario(f"free_{N}_{sb}_{w}", free, sample=sampler(2), N=N, sb=sb, win=w))
    for N, f, sb, w in ((12, 1, 0, "boxcar"), (12, 3, 1, "hann"), (16, 3, 2, "blackman")):
        r.append(Scenario(f"derived_{N}_{w}", derived, N=N, f=f, sb=sb, win=w))
    return r
