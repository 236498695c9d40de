"""C07 signal-generator quantiser and noise shaping."""
from engine.run import Scenario

BOUNDS = ("samples any real in [-8,8]; resolutions 1..6, 8, 10, 12 bits on the ranges (0,1), (-1,1), (0.25,2.25) and 1..4 bits on every increasing real range; "
          "arrays of 3 samples; noise shaping of 7 samples for orders 1..5, symbolic FIR numerators of 1..4 taps and symbolic numerator/denominator "
          "pairs up to second order with leading denominator coefficient in [0.5,2]")
OUTSIDE = "longer signals and filters; other resolutions; floating-point rounding at grid edges of non-dyadic ranges"
G = "adctoolbox.siggen:ADC_Signal_Generator"
RANGES = {"unit": (0.0, 1.0), "bip": (-1.0, 1.0), "shift": (0.25, 2.25)}


def gen(s, n, A=0.5, DC=0.5, Fs=16.0, Fin=3.0):
    return s.get(G)(n, Fs, Fin, A, DC)


def quant(s, nb, rng, default=False):
    g = gen(s, 1)
    lo, hi = RANGES[rng]
    x = s.real("x", -8, 8)
    kw = {}
    if not default:
        kw = {"n_bits": nb, "quant_range": (lo, hi)}
    a = s.np.array([x])
    y = g.apply_quantization_noise(a, **kw)
    s.same_shape(y, (1,), "same length")
    y = y[0]
    s.eq(a[0], x, "input not modified")
    top = 2 ** nb - 1
    lsb = (hi - lo) / 2 ** nb
    code = (y - lo) / lsb
    s.eq(code, s.np.floor(code + 0.5), "on the code grid")
    s.true(s.all(code >= -1e-9, code <= top + 1e-9), "codes within 0..2^n-1")
    s.true(s.Implies(s.all(x >= lo, x < hi), s.all(x - y >= 0, x - y < lsb)), "below the input by less than one LSB")
    s.true(s.Implies(x < lo, y == lo), "clips to the lowest code")
    s.eq(s.ite(x >= hi, y, lo + top * lsb), lo + top * lsb, "clips to the highest code")


def symrange(s, nb):
    g = gen(s, 1)
    lo, fs = s.real("lo", -4, 4), s.real("fs", 0.125, 16)
    u = s.real("u", -3, 4)
    y = g.apply_quantization_noise(s.np.array([lo + u * fs]), n_bits=nb, quant_range=(lo, lo + fs))[0]
    code = (y - lo) / fs * 2 ** nb
    k = s.np.floor(code + 0.5)
    s.eq(code, k, "on the code grid of any range")
    s.true(s.all(k >= 0, k <= 2 ** nb - 1), "codes within 0..2^n-1 on any range")
    q = u * 2 ** nb
    s.true(s.Implies(s.all(u >= 0, u <= 1 - 1e-9), s.all(q - k >= -1e-9, q - k <= 1 + 1e-9)), "less than one LSB on any range")
    s.true(s.Implies(u < 0, k == 0), "clips low on any range")
    s.true(s.Implies(u > 1, k == 2 ** nb - 1), "clips high on any range")


def monotone(s, nb, rng):
    g = gen(s, 2)
    a, b = s.real("a", -8, 8), s.real("b", -8, 8)
    s.assume(a <= b)
    y = g.apply_quantization_noise(s.np.array([a, b]), n_bits=nb, quant_range=RANGES[rng])
    s.le(y[0], y[1], "non-decreasing")


def arrays(s):
    g = gen(s, 3)
    x = [s.real(f"x{i}", -1, 2) for i in range(3)]
    y = g.apply_quantization_noise(s.np.array(x), n_bits=3)
    for i in range(3):
        s.eq(y[i], g.apply_quantization_noise(s.np.array([x[i]]), n_bits=3)[0], "sample by sample")


def clean(s):
    """no input given: the clean sine is quantised / shaped"""
    A, DC = s.real("A", 0, 1), s.real("DC", -1, 1)
    g = gen(s, 5, A, DC)
    base = g.get_clean_signal()
    for i in range(5):
        s.eq(base[i], A * s.np.sin(2 * s.np.pi * 3.0 * i / 16.0) + DC, "clean sine", tol=1e-9)
    y = g.apply_quantization_noise(n_bits=2, quant_range=(-1.0, 1.0))
    z = g.apply_quantization_noise(base, n_bits=2, quant_range=(-1.0, 1.0))
    for i in range(5):
        s.eq(y[i], z[i], "default input is the clean sine")
    y = g.apply_noise_shaping(n_bits=2, quant_range=(-1.0, 1.0), order=2)
    z = g.apply_noise_shaping(base, n_bits=2, quant_range=(-1.0, 1.0), order=2)
    for i in range(5):
        s.eq(y[i], z[i], "default input of shaping is the clean sine")


BINOM = {1: [1, -1], 2: [1, -2, 1], 3: [1, -3, 3, -1], 4: [1, -4, 6, -4, 1], 5: [1, -5, 10, -10, 5, -1]}


def qerr(s, x, nb, lo, hi):
    lsb = (hi - lo) / 2 ** nb
    c = s.np.floor((x - lo) / lsb)
    c = s.ite(c < 0, 0, s.ite(c > 2 ** nb - 1, 2 ** nb - 1, c))
    return c * lsb + lo - x


def shaping(s, order, n, rng, nb=2, default=False):
    g = gen(s, n)
    lo, hi = RANGES[rng]
    x = [s.real(f"x{i}", -2, 3) for i in range(n)]
    a = s.np.array(x)
    kw = {} if default else {"order": order}
    if not (default and nb == 10):
        kw["n_bits"] = nb
        kw["quant_range"] = (lo, hi)
    y = g.apply_noise_shaping(a, **kw)
    s.same_shape(y, (n,), "same length")
    e = [qerr(s, v, nb, lo, hi) for v in x]
    for i in range(n):
        acc = x[i]
        for k, c in enumerate(BINOM[order]):
            if i - k >= 0:
                acc = acc + c * e[i - k]
        s.eq(y[i], acc, "difference of the quantisation error", scale=10.0)
        s.eq(a[i], x[i], "input not modified")


def ntf(s, nnum, nden, n, wrap):
    g = gen(s, n)
    lo, hi = -1.0, 1.0
    x = [s.real(f"x{i}", -1.5, 1.5) for i in range(n)]
    b = [s.real(f"b{i}", -2, 2) for i in range(nnum)]
    den = [s.real("a0", 0.5, 2)] + [s.real(f"a{i}", -1, 1) for i in range(1, nden)] if nden else [1.0]
    arg = b if wrap == "list" else s.np.array(b)
    if nden:
        arg = (arg, den if wrap == "list" else s.np.array(den))
    y = g.apply_noise_shaping(s.np.array(x), n_bits=2, quant_range=(lo, hi), order=1, ntf=arg)
    e = [qerr(s, v, 2, lo, hi) for v in x]
    sh = []
    for i in range(n):
        acc = 0.0
        for k in range(nnum):
            if i - k >= 0:
                acc = acc + b[k] * e[i - k]
        for k in range(1, len(den)):
            if i - k >= 0:
                acc = acc - den[k] * sh[i - k]
        sh.append(acc / den[0])
        s.eq(y[i], x[i] + sh[i], "error filtered by the supplied transfer function", scale=100.0)


def orders(s):
    g = gen(s, 2)
    x = s.np.array([s.real("x0", -1, 1), s.real("x1", -1, 1)])
    for o in (0, -1, 6, 7, 1.5, 100):
        s.raises(ValueError, "unsupported order rejected", g.apply_noise_shaping, x, 2, (0.0, 1.0), o)
    y = g.apply_noise_shaping(x, 2, (0.0, 1.0), 9, [1.0])
    for i in range(2):
        s.eq(y[i], x[i] + qerr(s, x[i], 2, 0.0, 1.0), "order ignored with a supplied filter")


def scenarios():
    r = []
    for rng in RANGES:
        for nb in (1, 2, 3, 4, 5, 6, 8, 10, 12):
            r.append(Scenario(f"quant_{rng}_{nb}", quant, nb=nb, rng=rng))
        for nb in (1, 2, 3, 8):
            r.append(Scenario(f"monotone_{rng}_{nb}", monotone, nb=nb, rng=rng))
        for o in range(1, 6):
            r.append(Scenario(f"shape_{rng}_{o}", shaping, order=o, n=7, rng=rng))
    r.append(Scenario("quant_default", quant, nb=10, rng="unit", default=True))
    r.append(Scenario("shape_default", shaping, order=1, n=4, rng="unit", nb=10, default=True))
    for nb in (1, 2, 3, 4):
        r.append(Scenario(f"symrange_{nb}", symrange, nb=nb))
    for nnum, nden in ((1, 0), (2, 0), (4, 0), (1, 2), (2, 2), (3, 3), (2, 1)):
        for wrap in ("list", "array"):
            r.append(Scenario(f"ntf_{nnum}_{nden}_{wrap}", ntf, nnum=nnum, nden=nden, n=4, wrap=wrap))
    r += [Scenario("arrays", arrays), Scenario("clean", clean), Scenario("orders", orders)]
    return r
