"""C08 signal-generator impairments."""
from engine.run import Scenario

BOUNDS = ("samples any real in [-2,2], DC level in [-2,2], amplitude in [0.1,2], strengths/coefficients in [-1,1], dB levels in [-120,0], gains in [0.5,1.5], "
          "time constants 2..40 (symbolic), percentiles 0..50, draws any real in [-4,4] (normal) or [0,1] (uniform); 3 to 5 samples (12 for drift)")
OUTSIDE = "longer signals; the distribution of the generator; shape of the low-pass filter of the drift model"
ASSUMPTIONS = ["exp and 10**x are uninterpreted with the laws of exponentials; sin of symbolic phase only through its angle"]
G = "adctoolbox.siggen:ADC_Signal_Generator"


def setup(s, n, A=None, Fs=16.0, Fin=3.0):
    A = s.real("A", 0.1, 2) if A is None else A
    DC = s.real("DC", -2, 2)
    g = s.get(G)(n, Fs, Fin, A, DC)
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    a = s.np.array(x)
    return g, A, DC, x, a


def untouched(s, a, x):
    for i in range(len(x)):
        s.eq(a[i], x[i], "caller's array not modified", tol=1e-12)


def law(s, y, exp, label, scale=10.0):
    s.same_shape(y, (len(exp),), "same length")
    for i in range(len(exp)):
        s.eq(y[i], exp[i], label, scale=scale)


def thermal(s, n):
    g, A, DC, x, a = setup(s, n)
    r = s.real("r", 0, 1)
    y = g.apply_thermal_noise(a, noise_rms=r)
    d = s.draws()
    law(s, y, [x[i] + r * d[i] for i in range(n)], "additive noise")
    untouched(s, a, x)
    law(s, g.apply_thermal_noise(a, noise_rms=0.0), x, "zero noise")


def poly(s, n, ks):
    g, A, DC, x, a = setup(s, n)
    k = {f"k{o}": s.real(f"k{o}", -1, 1) for o in ks}
    y = g.apply_static_nonlinearity(a, **k)
    exp = []
    for v in x:
        d = v - DC
        acc = d
        for o in ks:
            acc = acc + k[f"k{o}"] * d ** o
        exp.append(acc + DC)
    law(s, y, exp, "polynomial around DC", scale=1000.0)
    untouched(s, a, x)
    law(s, g.apply_static_nonlinearity(a), x, "no distortion by default")


def hd(s, n, ks):
    g, A, DC, x, a = setup(s, n)
    lev = {f"hd{o}_dB": s.real(f"h{o}", -120, 0) for o in ks}
    y = g.apply_static_nonlinearity_hd(a, **lev)
    exp = []
    for v in x:
        d = v - DC
        acc = d
        for o in ks:
            # a sine of amplitude A gets harmonic o at the requested level relative to A
            acc = acc + A * 10 ** (lev[f"hd{o}_dB"] / 20.0) * (d / A) ** o * 2 ** (o - 1)
        exp.append(acc + DC)
    law(s, y, exp, "harmonic levels relative to the amplitude", scale=1000.0)
    untouched(s, a, x)


def memory(s, n):
    g, A, DC, x, a = setup(s, n)
    m = s.real("m", -1, 1)
    y = g.apply_memory_effect(a, memory_strength=m)
    fl = s.np.floor
    msb = [fl(v * 16) / 16 for v in x]
    lsb = [fl((v - b) * 4096) / 4096 for v, b in zip(x, msb)]
    law(s, y, [msb[i] + lsb[i] + m * msb[i - 1] for i in range(n)], "previous coarse code leaks in")
    untouched(s, a, x)
    z = g.apply_memory_effect(a, memory_strength=0.0)
    for i in range(n):
        s.true(s.all(x[i] - z[i] >= -1e-9, x[i] - z[i] <= 1 / 4096 + 1e-9), "unchanged up to truncation without memory")


def settling(s, n, track):
    Fs = 16.0
    g, A, DC, x, a = setup(s, n)
    tau, k = s.real("tau", 0.002, 0.04), s.real("k", 0, 1)
    kw = {"tau_nom": tau, "coeff_k": k}
    T = 0.2 / Fs
    if track:
        T = s.real("T", 0.001, 0.1)
        kw["T_track"] = T
    y = g.apply_incomplete_sampling(a, **kw)
    prev, exp = 0.0, []
    for v in x:
        d = v - DC
        tt = tau * (1 + k * d * d)
        prev = d + (prev - d) * s.np.exp(-T / tt)
        exp.append(prev + DC)
    law(s, y, exp, "exponential settling from the previous sample")
    untouched(s, a, x)


def ragain(s, n, mode, mb, lb):
    g, A, DC, x, a = setup(s, n)
    r = s.real("r", 0.5, 1.5)
    kw = {"mode": mode, "msb_bits": mb, "lsb_bits": lb} if mode else {}
    y = g.apply_ra_gain_error(a, relative_gain=r, **kw)
    fl = s.np.floor
    exp = []
    for v in x:
        d = v - DC
        m = fl(d * 2 ** mb) / 2 ** mb
        l = fl((d - m) * 2 ** lb) / 2 ** lb
        exp.append((m + l * r if mode == "residue_path" else m * r + l) + DC)
    law(s, y, exp, "gain error of the selected path")
    untouched(s, a, x)
    z = g.apply_ra_gain_error(a, relative_gain=1.0, **kw)
    for i in range(n):
        s.true(s.all(x[i] - z[i] >= -1e-9, x[i] - z[i] <= 2.0 ** -lb + 1e-9), "unity gain leaves the truncated signal")


def ragain_dyn(s, n, mode, mb, lb):
    g, A, DC, x, a = setup(s, n)
    r, c3 = s.real("r", 0.5, 1.5), s.real("c3", -1, 1)
    kw = {"mode": mode, "msb_bits": mb, "lsb_bits": lb} if mode else {}
    y = g.apply_ra_gain_error_dynamic(a, relative_gain=r, coeff_3=c3, **kw)
    fl = s.np.floor
    st, exp = 0.0, []
    for v in x:
        d = v - DC
        m = fl(d * 2 ** mb) / 2 ** mb
        l = fl((d - m) * 2 ** lb) / 2 ** lb
        gn = r + c3 * st * st
        if mode == "residue_path":
            st = l * gn
            exp.append(m + st + DC)
        else:
            st = m * gn + l
            exp.append(st + DC)
    law(s, y, exp, "dynamic gain follows the previous output", scale=1e4)
    untouched(s, a, x)
    z = g.apply_ra_gain_error_dynamic(a, relative_gain=1.0, coeff_3=0.0, **kw)
    for i in range(n):
        s.true(s.all(x[i] - z[i] >= -1e-9, x[i] - z[i] <= 2.0 ** -lb + 1e-9), "unity static gain leaves the truncated signal")


def badmode(s):
    g, A, DC, x, a = setup(s, 2)
    for f in (g.apply_ra_gain_error, g.apply_ra_gain_error_dynamic):
        s.raises(ValueError, "unknown path rejected", f, a, mode="msb")
        s.raises(ValueError, "unknown path rejected", f, a, mode="")


def reference(s, n, zero):
    g, A, DC, x, a = setup(s, n)
    st = 0.0 if zero else s.real("st", -0.5, 0.5)
    tau = s.real("tau", 2, 40)
    y = g.apply_reference_error(a, settling_tau=tau, droop_strength=st)
    dec = s.np.exp(-1.0 / tau)
    droop, exp = 0.0, []
    for v in x:
        d = v - DC
        droop = droop * dec + st * s.abs(d)
        exp.append(d * (1 - droop) + DC)
    law(s, y, exp, "reference droop accumulates and decays", scale=100.0)
    untouched(s, a, x)


def amnoise(s, n):
    g, A, DC, x, a = setup(s, n)
    st = s.real("st", -1, 1)
    y = g.apply_am_noise(a, strength=st)
    d = s.draws()
    law(s, y, [(x[i] - DC) * (1 + st * d[i]) + DC for i in range(n)], "noise modulates around DC", scale=100.0)
    untouched(s, a, x)
    law(s, g.apply_am_noise(a, strength=0.0), x, "zero modulation")


def amtone(s, n, f):
    g, A, DC, x, a = setup(s, n)
    dp = s.real("dp", -1, 1)
    y = g.apply_am_tone(a, am_tone_freq=f, am_tone_depth=dp)
    law(s, y, [(x[i] - DC) * (1 + dp * s.math.sin(2 * s.math.pi * f * i / 16.0)) + DC for i in range(n)], "tone modulates around DC", scale=100.0)
    untouched(s, a, x)
    law(s, g.apply_am_tone(a, am_tone_freq=f, am_tone_depth=0.0), x, "zero depth")


def clipping(s, n, p):
    g, A, DC, x, a = setup(s, n)
    pc = p if p is not None else s.real("pc", 0, 50)
    y = g.apply_clipping(a, percentile_clip=pc)
    o = list(x)
    for i in range(n):               # forking sort
        for j in range(n - 1 - i):
            if s.holds(o[j] > o[j + 1]):
                o[j], o[j + 1] = o[j + 1], o[j]

    def pct(q):
        pos = q / 100.0 * (n - 1)
        if s.sym:
            k = s.conc(s.np.floor(pos))
        else:
            k = int(s.np.floor(pos))
        k = max(0, min(k, n - 2))
        return o[k] + (o[k + 1] - o[k]) * (pos - k)
    lo, hi = pct(pc), pct(100.0 - pc)
    law(s, y, [s.ite(v < lo, lo, s.ite(v > hi, hi, v)) for v in x], "clipped to the percentiles")
    untouched(s, a, x)


def glitch(s, n):
    g, A, DC, x, a = setup(s, n)
    p, am = s.real("p", 0, 1), s.real("am", -1, 1)
    y = g.apply_glitch(a, glitch_prob=p, glitch_amplitude=am)
    u = s.draws()
    law(s, y, [x[i] + s.ite(u[i] < p, am, 0.0) for i in range(n)], "glitch of the given height where drawn")
    untouched(s, a, x)
    law(s, g.apply_glitch(a, glitch_prob=0.0, glitch_amplitude=am), x, "zero probability")
    law(s, g.apply_glitch(a, glitch_prob=p, glitch_amplitude=0.0), x, "zero height")


def jitter(s, n):
    """clean sine: the sampling instant moves; given signal with zero jitter: unchanged"""
    g, A, DC, x, a = setup(s, n)
    j = s.real("j", 0, 0.01)
    y = g.apply_jitter(jitter_rms=j)
    d = s.draws()
    exp = [A * s.np.sin(2 * s.np.pi * 3.0 * (i / 16.0 + d[i] * j)) + DC for i in range(n)]
    law(s, y, exp, "sine sampled at the jittered instants")
    law(s, g.apply_jitter(jitter_rms=0.0), [A * s.math.sin(2 * s.math.pi * 3.0 * i / 16.0) + DC for i in range(n)], "zero jitter, clean sine")
    law(s, g.apply_jitter(a, jitter_rms=0.0), x, "zero jitter, given signal")
    untouched(s, a, x)


def drift(s, n):
    g, A, DC, x, a = setup(s, n)
    law(s, g.apply_drift(a, drift_scale=0.0), x, "zero drift")
    untouched(s, a, x)


CALLS = {
    "thermal": ("apply_thermal_noise", {"noise_rms": 0.0}), "poly": ("apply_static_nonlinearity", {"k2": 0.3, "k3": -0.2}),
    "hd": ("apply_static_nonlinearity_hd", {"hd2_dB": -40.0, "hd3_dB": -60.0}), "memory": ("apply_memory_effect", {"memory_strength": 0.25}),
    "settle": ("apply_incomplete_sampling", {"tau_nom": 0.01, "coeff_k": 0.0}), "ra": ("apply_ra_gain_error", {"relative_gain": 0.9}),
    "radyn": ("apply_ra_gain_error_dynamic", {"relative_gain": 0.9, "coeff_3": 0.1}), "ref": ("apply_reference_error", {"droop_strength": 0.1}),
    "amtone": ("apply_am_tone", {"am_tone_freq": 1.0, "am_tone_depth": 0.5}), "clip": ("apply_clipping", {"percentile_clip": 25.0}),
    "glitch": ("apply_glitch", {"glitch_prob": 0.0}),
}


def default_input(s, call):
    """no input given: acts on the clean sine"""
    name, kw = CALLS[call]
    A, DC = s.real("A", 0.1, 2), s.real("DC", -2, 2)
    g = s.get(G)(4, 16.0, 3.0, A, DC)
    base = s.np.array([A * s.math.sin(2 * s.math.pi * 3.0 * i / 16.0) + DC for i in range(4)])
    y, z = getattr(g, name)(**kw), getattr(g, name)(base, **kw)
    for i in range(4):
        s.eq(y[i], z[i], "default input is the clean sine", scale=10.0)


def scenarios():
    r = [Scenario("thermal", thermal, n=3), Scenario("memory", memory, n=3), Scenario("badmode", badmode), Scenario("amnoise", amnoise, n=3),
         Scenario("glitch", glitch, n=3), Scenario("jitter", jitter, n=5), Scenario("drift", drift, n=12)]
    for ks in ((2,), (3,), (4,), (5,), (2, 3), (2, 3, 4, 5)):
        r.append(Scenario("poly_" + "".join(map(str, ks)), poly, n=2, ks=ks))
    for ks in ((2,), (3,), (4,), (5,), (2, 3)):
        r.append(Scenario("hd_" + "".join(map(str, ks)), hd, n=2, ks=ks))
    for t in (True, False):
        r.append(Scenario(f"settling_{'given' if t else 'default'}", settling, n=3, track=t))
    for mode in ("coarse_path", "residue_path", None):
        for mb, lb in (((4, 12), (2, 3)) if mode else ((4, 12),)):
            r.append(Scenario(f"ragain_{mode}_{mb}", ragain, n=2, mode=mode, mb=mb, lb=lb))
            r.append(Scenario(f"radyn_{mode}_{mb}", ragain_dyn, n=3, mode=mode, mb=mb, lb=lb))
    for z in (True, False):
        r.append(Scenario(f"reference_{'zero' if z else 'any'}", reference, n=3, zero=z))
    for f in (1.0, 2.5):
        r.append(Scenario(f"amtone_{f}", amtone, n=5, f=f))
    for p in (0.0, 10.0, 50.0, None):
        r.append(Scenario(f"clip_{p}", clipping, n=3, p=p))
    r.append(Scenario("clip4_25", clipping, n=4, p=25.0))
    for c in CALLS:
        r.append(Scenario(f"default_{c}", default_input, call=c))
    return r
