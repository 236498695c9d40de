"""C14 spectrum metrics partition the in-band bins."""
import math
from fractions import Fraction

from engine.run import Scenario
from checks.speclib import capture, fold, inband, metrics

BOUNDS = ("captures of 10..24 samples (48 thorough), even and odd; every bin power in [1e-9,1] symbolic with the fundamental in each in-band bin in turn "
          "(at least 1e-4 above the others); oversampling ratios 1, 2, 2.5, 3, 4; 0..2 side bins or automatic; 2..7 harmonics; noise methods 0..4; eight window names; "
          "1..3 runs; empty bins; assumed signal level any in [-60,6] dB; peak interpolation for 12 and 13 samples with 3 harmonics; cut-off position symbolic inside a bin")
OUTSIDE = ("longer captures; windows other than the rectangular one carry sine components only (no Nyquist bin); bins with exactly tied powers; "
           "the value of SNR when no bin remains (methods 0..3)")
T = "adctoolbox.spectrum.compute_spectrum:compute_spectrum"


def compare(s, res, o, P, N, osr, f, sb, fs, H):
    m, d = res["metrics"], res["plot_data"]
    s.true(int(d["fundamental_bin"]) == f, "fundamental is the strongest in-band bin")
    s.true((int(d["sig_bin_start"]), int(d["sig_bin_end"])) == (o["lo"], o["hi"]), "signal bins")
    s.true([int(b) for b in d["harmonic_bins"]] == list(o["harmonic_bins"]), "harmonic bins")
    s.true([int(h) for h in d["collided_harmonics"]] == o["collided"], "collided harmonics")
    for k in ("sig_pwr_dbfs", "sndr_dbc", "enob", "thd_dbc", "sfdr_dbc", "snr_dbc", "noise_floor_dbfs", "nsd_dbfs_hz"):
        if k in o and o[k] is not None and not isinstance(o[k], str):
            s.eq(m[k], o[k], k)
    if o["snr_dbc"] is None:
        s.true(m["snr_dbc"] != m["snr_dbc"], "no SNR without noise bins")
        s.true(m["noise_floor_dbfs"] != m["noise_floor_dbfs"], "no noise floor without noise bins")
    if not o["rest"]:
        s.true(m["sfdr_dbc"] == math.inf, "no spur without remaining bins")
    s.true(len(m["harmonics_dbc"]) == H - 1, "one level per harmonic")
    for i in range(H - 1):
        s.eq(m["harmonics_dbc"][i], o["harmonics_dbc"][i], "harmonic level")
    s.true(len(d["freq"]) == N // 2 + 1, "frequency axis length")
    for k in range(N // 2 + 1):
        s.eq(d["freq"][k], k * fs / N, "frequency axis", scale=fs)


def bins(s, N, f, osr, win="boxcar", dead=()):
    """bin powers; the fundamental exceeds every other in-band bin"""
    n_in = inband(N, osr)
    top = N // 2 + 1 if win in ("boxcar", "rectangular") or N % 2 else N // 2
    P = [None] * (N // 2 + 1)
    for k in range(1, top):
        if k not in dead:
            P[k] = s.real(f"p{k}", 1e-9, 1)
    for k in range(1, n_in):
        if k != f and P[k] is not None:
            s.assume(P[f] >= P[k] * 1.0001)
    return P, n_in


def coherent(s, N, f, osr=1, win="boxcar", sb=0, H=5, nf=0, fs=1.0, assumed=None, dead=(), default=False, wrap=False):
    s.opt["minmax"] = "fork"
    P, n_in = bins(s, N, f, osr, win, dead)
    # a neighbour more than 40 dB down: no interpolation
    if f + 1 < n_in:
        nb = [P[k] for k in (f - 1, f + 1) if k > 0 and P[k] is not None]
        if f > 1 and len(nb) == 2:
            s.assume(s.any(nb[0] < P[f] * 0.99e-4, nb[1] < P[f] * 0.99e-4))
    x = s.np.array(capture(s, P, N, win))
    if assumed is not None:
        assumed = s.real("asg", -60, 6) if assumed == "sym" else assumed
    kw = dict(fs=fs, max_scale_range=1.0, osr=osr, win_type=win, side_bin=sb, max_harmonic=H, nf_method=nf)
    if assumed is not None:
        kw["assumed_sig_pwr_dbfs"] = assumed
    if default:
        kw = dict(max_scale_range=1.0, side_bin=sb, win_type=win)
    if wrap:
        an = s.get("adctoolbox:analyze_spectrum")
        m = an(x, create_plot=False, show_label=False, **kw)
    res = s.get(T)(x, **kw)
    Q = [0.0 if v is None else v for v in P]
    sp = int(s.conc(res["plot_data"]["spur_bin_idx"]))
    o = metrics(s, Q, N, osr, H, nf, sb, fs, f, assumed=assumed, spur=sp)
    if o["rest"]:
        s.true(sp in o["rest"], "spur among the remaining in-band bins")
        for k in o["rest"]:
            s.le(Q[k], Q[sp], "spur is the largest remaining bin")
    compare(s, res, o, Q, N, osr, f, sb, fs, H)
    if wrap:
        for k, v in res["metrics"].items():
            s.eq(m[k], v, "wrapper returns the computed metrics")
        for a, b in (("sndr_db", "sndr_dbc"), ("sfdr_db", "sfdr_dbc"), ("snr_db", "snr_dbc"), ("thd_db", "thd_dbc"), ("noise_floor_db", "noise_floor_dbfs")):
            s.eq(m[a], res["metrics"][b], "legacy names")


def runs(s, N, f, M, nf, sb, H=4, osr=1):
    """several runs: the bins are the run averages and the median estimate uses the run count"""
    s.opt["minmax"] = "fork"
    n_in = inband(N, osr)
    R = []
    for r in range(M):
        R.append([None] + [s.real(f"p{r}_{k}", 1e-9, 1) for k in range(1, N // 2 + 1)])
    P = [0.0] + [sum(R[r][k] for r in range(M)) / M for k in range(1, N // 2 + 1)]
    for k in range(1, n_in):
        if k != f:
            s.assume(P[f] >= P[k] * 1.0001)
    if f + 1 < n_in and f > 1:
        s.assume(P[f + 1] < P[f] * 0.99e-4)
    res = s.get(T)(s.np.array([capture(s, R[r], N) for r in range(M)]), fs=8.0, max_scale_range=1.0, osr=osr, win_type="boxcar",
                   side_bin=sb, max_harmonic=H, nf_method=nf)
    sp = int(s.conc(res["plot_data"]["spur_bin_idx"]))
    o = metrics(s, P, N, osr, H, nf, sb, 8.0, f, M=M, spur=sp)
    s.true(sp in o["rest"], "spur among the remaining in-band bins")
    for k in o["rest"]:
        s.le(P[k], P[sp], "spur is the largest remaining bin")
    compare(s, res, o, P, N, osr, f, sb, 8.0, H)


def leaky(s, N, f, H, sb, nf=3):
    """comparable neighbours: the peak is interpolated and the harmonics follow the refined position"""
    s.opt["minmax"] = "fork"
    P, n_in = bins(s, N, f, 1)
    s.assume(P[f - 1] >= P[f] * 1.01e-4, P[f + 1] >= P[f] * 1.01e-4)
    res = s.get(T)(s.np.array(capture(s, P, N)), max_scale_range=1.0, win_type="boxcar", side_bin=sb, max_harmonic=H, nf_method=nf)
    d = res["plot_data"]
    l = [s.np.log10(P[k]) for k in (f - 1, f, f + 1)]
    fr = f + (l[2] - l[0]) / (2 * (2 * l[1] - l[0] - l[2]))
    s.eq(d["fundamental_bin_fractional"], fr, "refined fundamental position")
    hb = [int(s.conc(d["harmonic_bins"][i])) for i in range(H - 1)]
    for h in range(2, H + 1):
        z = h * fr
        m = int(s.conc(s.np.floor(z / N + 0.5)))
        s.le(s.abs(hb[h - 2] - s.abs(z - N * m)), 0.5, "harmonic in the bin nearest to its alias")
    Q = [0.0] + P[1:]
    sp = int(s.conc(d["spur_bin_idx"]))
    o = metrics(s, Q, N, 1, H, nf, sb, 1.0, f, hbins=hb, spur=sp)
    compare(s, res, o, Q, N, 1, f, sb, 1.0, H)


DEFSB = {"boxcar": 0, "rectangular": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4}


def auto(s, N, f, win, H=3, nf=3):
    """side bins left to the tool: at least the window's main lobe where it fits, and the same partition"""
    s.opt["minmax"] = "fork"
    P, n_in = bins(s, N, f, 1, win)
    nb = [P[k] for k in (f - 1, f + 1) if 0 < k < len(P) and P[k] is not None]
    for q in nb:
        s.assume(q < P[f] * 0.99e-4)
    res = s.get(T)(s.np.array(capture(s, P, N, win)), max_scale_range=1.0, win_type=win, max_harmonic=H, nf_method=nf)
    d = res["plot_data"]
    a, b = int(s.conc(d["sig_bin_start"])), int(s.conc(d["sig_bin_end"]))
    sb = max(f - a, b - 1 - f)
    room = min(f, n_in - 1 - f)
    s.true(sb >= min(DEFSB[win], room), "main lobe inside the signal bins")
    s.true(sb <= room, "signal bins stay inside the band")
    Q = [0.0 if v is None else v for v in P]
    sp = int(s.conc(d["spur_bin_idx"]))
    o = metrics(s, Q, N, 1, H, nf, sb, 1.0, f, spur=sp)
    compare(s, res, o, Q, N, 1, f, sb, 1.0, H)


def cutoff(s, N, f, cut, nf, sb, H=4):
    """high-pass: bins below the cut-off count as empty"""
    s.opt["minmax"] = "fork"
    P = [None] + [s.real(f"p{k}", 1e-9, 1) for k in range(1, N // 2 + 1)]
    for k in range(cut, N // 2 + 1):
        if k != f:
            s.assume(P[f] >= P[k] * 1.0001)
    if f + 1 <= N // 2:
        s.assume(P[f + 1] < P[f] * 0.99e-4)
    e = s.real("e", 0.01, 0.99)
    res = s.get(T)(s.np.array(capture(s, P, N)), fs=4.0, cutoff_freq=(cut - e) * 4.0 / N, max_scale_range=1.0, win_type="boxcar",
                   side_bin=sb, max_harmonic=H, nf_method=nf)
    Q = [1e-20 if k < cut else P[k] for k in range(N // 2 + 1)]
    sp = int(s.conc(res["plot_data"]["spur_bin_idx"]))
    o = metrics(s, Q, N, 1, H, nf, sb, 4.0, f, spur=sp)
    compare(s, res, o, Q, N, 1, f, sb, 4.0, H)


def rejects(s):
    f = s.get(T)
    x = s.np.array([s.real(f"x{i}", -1, 1) for i in range(6)])
    a = s.real("a", -4, -0.01)
    s.raises(ValueError, "non-positive oversampling ratio rejected", lambda: f(x, osr=0))
    s.raises(ValueError, "non-positive oversampling ratio rejected", lambda: f(x, osr=a))
    s.raises(ValueError, "three-dimensional data rejected", lambda: f(x.reshape(1, 2, 3)))
    s.raises(ValueError, "range must be a pair", lambda: f(x, max_scale_range=(0.0, 1.0, 2.0)))


def sampler(f, both=True, near=1e-6):
    """inputs that satisfy the assumptions, for the comparison of engine and real code"""
    def g(rng, d):
        for n in d:
            if n[0] == "p":
                d[n] = 10 ** rng.uniform(-5, -1)
                k = int(n.split("_")[-1].lstrip("p"))
                if k == f:
                    d[n] = 0.9
                elif abs(k - f) == 1:
                    d[n] = near * rng.uniform(0.5, 1)
    return g


def scenarios():
    r = [Scenario("rejects", rejects)]
    seen = set()

    def add(tier="quick", **k):
        nm = "_".join(f"{a}{v}" for a, v in k.items()).replace(" ", "")
        if nm not in seen:
            seen.add(nm)
            r.append(Scenario(nm, coherent, tier=tier, sample=sampler(k["f"]), **k))
    # every fundamental position, even and odd lengths, several side-bin counts
    for N in (16, 15):
        for f in range(1, N // 2 + 1):
            for sb in (0, 1, 2):
                add(N=N, f=f, sb=sb, H=5 + sb, nf=(0, 3, 4)[sb], fs=(1.0, 2.5, 100.0)[sb])
    # oversampling: band edges inside the spectrum
    for N in (16, 15, 20):
        for osr in (2, 3, 2.5, 4):
            n_in = inband(N, osr)
            for f in sorted({1, 2, n_in - 1}):
                if f < n_in:
                    for sb in (0, 1):
                        add(N=N, f=f, osr=osr, sb=sb, H=6, nf=(f + sb) % 5, fs=3.0)
    # noise methods
    for nf in range(5):
        add(N=16, f=3, nf=nf, sb=1)
        add(N=15, f=4, nf=nf, sb=0, H=7)
        add(N=24, f=5, nf=nf, sb=0, H=3)
        add(tier="thorough", N=48, f=7, nf=nf, sb=1, H=3)
    # windows
    for w in ("hann", "hamming", "blackman", "blackmanharris", "flattop", "rectangular", "HANN"):
        add(N=16, f=5, win=w, sb=1, H=4)
        add(N=15, f=3, win=w, sb=2, H=3, nf=3)
    # an assumed signal level, defaults, the wrapper
    for nf in (0, 3, 4):
        add(N=16, f=3, nf=nf, sb=1, assumed="sym")
    add(N=16, f=3, assumed=-6.0)
    add(N=16, f=3, assumed=float("nan"))
    add(N=16, f=5, sb=1, win="hann", default=True)
    add(N=16, f=3, sb=0, win="boxcar", default=True, wrap=True)
    add(N=15, f=4, sb=1, win="boxcar", nf=2, H=4, osr=1, fs=7.0, assumed=-3.0, wrap=True)
    # empty bins
    add(N=16, f=3, dead=(2, 6), nf=1)
    add(N=16, f=3, dead=(2, 6), nf=2, sb=1)
    add(N=16, f=4, dead=(3, 5, 8), nf=0, sb=1, H=4)
    for M in (2, 3):
        for nf in (0, 1, 4):
            r.append(Scenario(f"runs{M}_nf{nf}", runs, sample=sampler((2, 3, 5)[nf % 3]), N=10, f=(2, 3, 5)[nf % 3], M=M, nf=nf, sb=nf % 2))
    for N, f, H, sb in ((12, 2, 3, 0), (13, 4, 3, 0)):
        r.append(Scenario(f"leaky_{N}_{f}_{H}", leaky, sample=sampler(f, near=0.5), N=N, f=f, H=H, sb=sb))
    for w, N, f in (("boxcar", 16, 4), ("hann", 16, 4), ("hamming", 16, 3), ("blackman", 20, 5), ("boxcar", 16, 1), ("hann", 16, 1), ("flattop", 20, 5)):
        r.append(Scenario(f"auto_{w}_{N}_{f}", auto, sample=sampler(f), N=N, f=f, win=w))
    for N, f, cut, nf, sb in ((16, 5, 3, 3, 0), (16, 4, 2, 0, 1), (15, 6, 5, 4, 0)):
        r.append(Scenario(f"cutoff_{N}_{f}_{cut}", cutoff, sample=sampler(f), N=N, f=f, cut=cut, nf=nf, sb=sb))
    r.sort(key=lambda q: 0 if q.name.startswith(("leaky", "N24", "N48")) else 1)
    return r
