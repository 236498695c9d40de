"""C31 ENOB sweep over calibrated bits, and the compatibility entry points."""
from engine.run import Scenario

BOUNDS = ("sweep: up to 4 samples by 4 bits of symbolic 0/1, calibrated weights symbolic in [-8,8], frequency symbolic, harmonic orders 1 and 3, oversampling ratios 1 and 4, three windows; "
          "compatibility calls: up to 3 samples by 3 bits, weights symbolic, every historical flag")
OUTSIDE = "the calibration and the spectrum analysis themselves (stand-ins here; C26, C27 and C14 decide them); the drawing"
D = "adctoolbox.dout:"
CAL, SPEC = "adctoolbox.calibration:calibrate_weight_sine", "adctoolbox.spectrum:analyze_spectrum"


def dyadic(rng, d):
    for k, v in d.items():
        d[k] = round(v * 16) / 16 if isinstance(v, float) else v


def level(x, k=0):
    """a figure that depends on every sample"""
    return sum((i + 2) * v for i, v in enumerate(x)) + 0.5 * k


def sweep(s, N, M, order, osr, win, freq, verbose=False):
    f = s.get(D + "analyze_enob_sweep")
    b = s.bits("b", (N, M))
    w = [s.real(f"w{j}", -8, 8) for j in range(M)]
    fr = s.real("f", 0.01, 0.49) if freq else None
    ref = s.real("ref", 0.01, 0.49)
    cal, sp = [], []

    def calibrate(bits, freq=None, **k):
        cal.append((bits, freq, k))
        return {"weight": s.np.array(w), "refined_frequency": ref, "offset": 0.0, "calibrated_signal": None, "ideal": None, "error": None}

    def spectrum(x, **k):
        sp.append((x, k))
        return {"enob": level(list(x)), "sndr_dbc": 0.0}
    kw = {}
    if fr is not None:
        kw["freq"] = fr
    if order != 1:
        kw["harmonic_order"] = order
    if osr != 1:
        kw["osr"] = osr
    if win is not None:
        kw["win_type"] = win
    with s.stub(CAL, calibrate), s.stub(SPEC, spectrum):
        e, n = f(b, create_plot=False, verbose=verbose, **kw)
    s.same_shape(e, (M,), "one figure per bit count")
    s.true([int(v) for v in n] == list(range(1, M + 1)), "bit counts from one to all")
    for i in range(N):
        for j in range(M):
            s.eq(cal[0][0][i, j], b[i, j], "calibrated with all bits")
    s.true(len(cal) == 1, "one calibration gives all the weights")
    s.true(cal[0][2].get("harmonic_order", 1) == order, "harmonic order handed on")
    if fr is None:
        s.true(cal[0][1] is None, "frequency handed on")
    else:
        s.eq(cal[0][1], fr, "frequency handed on")
    for k in range(1, M + 1):
        part = [sum(b[i, j] * w[j] for j in range(k)) for i in range(N)]
        s.eq(e[k - 1], level(part), "figure of the first k calibrated bits", scale=100.0)
    for x, k in sp:
        s.true(k.get("osr", 1) == osr, "oversampling ratio handed on")
        s.true(k.get("win_type") == (win or "hamming"), "window handed on")


def overflow(s, disp, N=3):
    f, g = s.get(D + "check_overflow"), s.get(D + "analyze_overflow")
    b = s.bits("b", (N, 2))
    w = s.np.array([s.real(f"w{j}", 0.25, 8) for j in range(2)])
    kw = {} if disp is None else {"disp": disp}
    if disp is None:
        kw["create_plot"] = False
    for p, q in zip(f(b, w, **kw), g(b, w, create_plot=False)):
        s.eq(p, q, "same ranges and percentages", scale=100.0)


def radix(s):
    f = s.get(D + "plot_weight_radix")
    c = s.real("c", 0.1, 10)
    sg = s.holds(s.bool("sg"))
    w = [4.0 * c, -2.0 * c if sg else 2.0 * c, 1.25 * c]
    r = f(s.np.array(w), create_plot=False)
    s.same_shape(r, (3,), "the radix vector")
    s.eq(r[1], 2.0, "ratio of neighbouring magnitudes")
    s.eq(r[2], 1.6, "ratio of neighbouring magnitudes")


def calib(s, via):
    f = s.get(D + "calibrate_weight_sine")
    x = [s.real(f"x{i}", -3, 3) for i in range(6)]
    seen = []

    def calibrate(*a, **k):
        seen.append((a, k))
        return {"weight": x[0], "offset": x[1], "calibrated_signal": x[2], "ideal": x[3], "error": x[4], "refined_frequency": x[5], "snr_db": 0.0}
    b = s.bits("b", (2, 2))
    kw = {"order": {"order": 3}, "harmonic_order": {"harmonic_order": 3}, "both": {"order": 2, "harmonic_order": 3}, "none": {}}[via]
    with s.stub(CAL, calibrate):
        r = f(b, freq=0.2, **kw)
    s.true(len(r) == 6, "six historical values")
    for p, q in zip(r, x):
        s.eq(p, q, "values in the historical order")
    s.true(len(seen) == 1 and seen[0][1].get("harmonic_order", 1) == (1 if via == "none" else 3) and "order" not in seen[0][1], "order handed on")
    s.true(seen[0][1].get("freq") == 0.2, "frequency handed on")


def scenarios():
    return [
        Scenario("sweep_3_3", sweep, N=3, M=3, order=1, osr=1, win=None, freq=True),
        Scenario("sweep_4_4", sweep, N=4, M=4, order=3, osr=4, win="hann", freq=True),
        Scenario("sweep_2_1", sweep, N=2, M=1, order=1, osr=4, win="boxcar", freq=False),
        Scenario("sweep_2_4_auto", sweep, N=2, M=4, order=3, osr=1, win=None, freq=False),
        Scenario("overflow_on", overflow, disp=1, N=2, validate=1, sample=dyadic), Scenario("overflow_off", overflow, disp=0, sample=dyadic), Scenario("overflow_none", overflow, disp=None, sample=dyadic),
        Scenario("radix", radix),
        *[Scenario(f"calibrate_{v}", calib, via=v) for v in ("order", "harmonic_order", "both", "none")],
    ]
