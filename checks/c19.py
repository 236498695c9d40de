"""C19 performance-versus-OSR curves follow the in-band error power."""
import math

from engine.run import Scenario
from checks.speclib import capture, inband

BOUNDS = ("records of 9..21 samples; error spectrum with every bin power symbolic in [1e-9,1]; fitted sine samples, amplitude in [0.01,100] and frequency in (0,0.5) symbolic; lists of 1..6 "
          "oversampling ratios in any given order, repeated ratios, fractional ratios, the default list; one symbolic ratio; wrapper argument checks for any value")
OUTSIDE = "the sine fit itself (C22 decides it; here it is replaced by an arbitrary fit result); error content at exactly DC and at the Nyquist bin of even records; plotting"
T = "adctoolbox.spectrum.sweep_performance_vs_osr:sweep_performance_vs_osr"
W = "adctoolbox.oversampling:perfosr"
FIT = "adctoolbox.fundamentals.fit_sine_4param:fit_sine_4param"


def setup(s, N):
    top = N // 2 + 1 if N % 2 else N // 2
    P = [None] * (N // 2 + 1)
    for k in range(1, top):
        P[k] = s.real(f"p{k}", 1e-9, 1)
    err = capture(s, P, N, "hann")
    fit = s.reals("g", N, -10, 10)
    A, fr = s.real("A", 0.01, 100), s.real("fr", 0.001, 0.499)
    data = s.np.array([fit[n] + err[n] for n in range(N)])

    def stub(d, *a, **k):
        d = s.np.asarray(d)
        s.true(tuple(d.shape) == (N,), "the fit sees the record")
        for n in range(N):
            s.eq(d[n], data[n], "the fit sees the record")
        return {"fitted_signal": fit, "residuals": data - fit, "frequency": fr, "amplitude": A, "phase": 0.0, "dc_offset": 0.0, "rmse": 0.0, "residual": data - fit,
                "fundamental_frequency": fr}
    return [0.0 if v is None else v for v in P], data, A, stub


def judge(s, P, A, N, osrs, r):
    L = s.np.log10
    prev = None
    for i, q in enumerate(osrs):
        n_in = inband(N, q)
        tot = sum(P[k] for k in range(n_in))
        if n_in < 2:
            continue
        s.eq(r[1][i], 10 * L(A * A / 2 / tot), "SNDR from the in-band error power")
        e = 10 ** (-r[2][i] / 10) * (A * A / 2)
        for k in range(1, n_in):
            s.ge(e, P[k] * (1 - 1e-7), "SFDR from the largest in-band bin")
        s.true(s.any(*[e <= P[k] * (1 + 1e-7) for k in range(1, n_in)]), "SFDR from the largest in-band bin")
        s.eq(r[3][i], (r[1][i] - 1.76) / 6.02, "ENOB of the SNDR")
    for i, a in enumerate(osrs):
        for j, b in enumerate(osrs):
            if a <= b and inband(N, b) >= 2 and i != j:
                s.ge(r[1][j] + 1e-7, r[1][i], "SNDR never falls as the ratio grows")
                s.ge(r[2][j] + 1e-7, r[2][i], "SFDR never falls as the ratio grows")


def sweep(s, N, osrs, wrap=False):
    s.opt["minmax"] = "fork"
    P, data, A, stub = setup(s, N)
    with s.stub(FIT, stub):
        if wrap:
            r = s.get(W)(data, osr=s.np.array(list(osrs)))
        else:
            d = s.get(T)(data, osr=s.np.array(list(osrs)), create_plot=False)
            r = (d["osr"], d["sndr"], d["sfdr"], d["enob"])
    s.true(len(r[0]) == len(osrs) == len(r[1]) == len(r[2]) == len(r[3]), "one value per ratio")
    for a, b in zip(r[0], osrs):
        s.eq(a, b, "ratios in the requested order")
    judge(s, P, A, N, osrs, r)


def default(s, N, wrap=False):
    s.opt["minmax"] = "fork"
    P, data, A, stub = setup(s, N)
    with s.stub(FIT, stub):
        if wrap:
            r = s.get(W)(data)
        else:
            d = s.get(T)(data, create_plot=False)
            r = (d["osr"], d["sndr"], d["sfdr"], d["enob"])
    n = N // 2
    s.true(len(r[0]) == n, "one ratio per bin")
    from fractions import Fraction
    osrs = [Fraction(N, 2) / k for k in range(n, 0, -1)]
    for a, b in zip(r[0], osrs):
        s.eq(a, float(b), "default ratios")
    judge(s, P, A, N, osrs, r)


def symbolic(s, N, k, other):
    """any ratio that puts the band edge inside bin k"""
    s.opt["minmax"] = "fork"
    P, data, A, stub = setup(s, N)
    e = s.real("e", 0.01, 0.99)
    q = N / 2 / (k + e)
    with s.stub(FIT, stub):
        d = s.get(T)(data, osr=s.np.array([q, other]), create_plot=False)
    tot = sum(P[i] for i in range(k + 1))
    s.eq(d["sndr"][0], 10 * s.np.log10(A * A / 2 / tot), "SNDR from the in-band error power")
    tot = sum(P[i] for i in range(inband(N, other)))
    s.eq(d["sndr"][1], 10 * s.np.log10(A * A / 2 / tot), "SNDR from the in-band error power")


def rejects(s):
    f = s.get(W)
    x = s.array([math.sin(0.7 * n) for n in range(16)])
    bad = s.real("bad", -5, 0)
    h = s.real("h", -5, 0.999)
    frac = s.real("frac", 1.01, 1.99)
    s.raises(ValueError, "non-positive ratio rejected", lambda: f(x, osr=s.np.array([2.0, bad])))
    s.raises(ValueError, "non-positive ratio rejected", lambda: f(x, osr=s.np.array([bad])))
    s.raises(ValueError, "harmonic count below one rejected", lambda: f(x, harmonic=h))
    s.raises(ValueError, "fractional harmonic count rejected", lambda: f(x, harmonic=frac))
    s.raises(ValueError, "smoothing below one rejected", lambda: f(x, smooth=h))


def sampler(rng, d):
    for n in d:
        if n[0] == "p":
            d[n] = 10 ** rng.uniform(-6, 0)


def scenarios():
    r = [Scenario("rejects", rejects)]
    for i, (N, q) in enumerate(((9, (1, 2, 4)), (11, (4, 1, 2)), (13, (2, 6, 1, 3)), (15, (1.5, 7, 3.2, 1)), (12, (1, 1, 2)), (21, (2, 1)), (16, (4, 2, 1)), (11, (5,)), (13, (3, 2, 2.5)), (9, (2, 2.1, 2)))):
        r.append(Scenario(f"sweep_{N}_{len(q)}_{i}", sweep, sample=sampler, N=N, osrs=q, wrap=i % 3 == 2))
    for N in (9, 11, 12):
        r.append(Scenario(f"default_{N}", default, sample=sampler, N=N, wrap=N == 11))
    for N, k, o in ((11, 2, 1), (13, 4, 3), (12, 1, 2)):
        r.append(Scenario(f"symbolic_{N}_{k}", symbolic, sample=sampler, N=N, k=k, other=o))
    return r
