"""C05 SAR conversion and reconstruction."""
from engine.run import Scenario

BOUNDS = ("inputs any real in [-8,8]; arbitrary (symbolic) weights in [-1,2], 1..4 bits, exact ties included for the ranges (0,1), (-1,1), (0.5,4.5); "
          "fully symbolic increasing ranges for 1-2 bits and for reconstruction with 3 bits; ideal binary weights 1..6 bits (8 thorough) and with a "
          "repeated bit up to 5 bits; shapes (), (1,), (3,), (2,2), (1,3); noise draws any real in [-4,4], noise rms in [0,2]")
OUTSIDE = "more bits or samples; order in which a generator's draws are consumed when several samples share one call"
T = "adctoolbox:"
RANGES = {"unit": (0.0, 1.0), "bip": (-1.0, 1.0), "shift": (0.5, 4.5)}


def greedy(s, x, w, bits, label, eps=0.0, extra=None):
    """every bit is the comparison of the normalised input with kept + tested weight"""
    kept = 0.0
    for j in range(len(w)):
        trial = kept + w[j]
        v = x if extra is None else x + extra[j]
        b = bits[j]
        s.true(s.Implies(v >= trial + eps, b == 1), label)
        s.true(s.Implies(v < trial - eps, b == 0), label)
        kept = trial if s.conc(b) else kept


def decisions(s, nb, rng):
    conv, rec = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct")
    v = s.real("v", -8, 8)
    w = [s.real(f"w{j}", -1, 2) for j in range(nb)]
    lo, hi = RANGES[rng]
    kw = {} if rng == "unit" else {"quant_range": (lo, hi)}
    W = s.np.array(w)
    c = conv(s.np.array([v]), W, **kw)
    s.same_shape(c, (1, nb), "one code per sample, one bit per weight")
    for j in range(nb):
        s.true(s.any(c[0, j] == 0, c[0, j] == 1), "bits are 0/1")
    greedy(s, (v - lo) / (hi - lo), w, [c[0, j] for j in range(nb)], "greedy decision")
    y = rec(c, W, **kw)
    s.same_shape(y, (1,), "one output per sample")
    acc = 0.0
    for j in range(nb):
        acc = acc + c[0, j] * w[j]
        s.eq(W[j], w[j], "weights not modified")
    s.eq(y[0], acc * (hi - lo) + lo, "reconstruction is the weighted sum on the range")


def decisions_symrange(s, nb):
    conv, rec = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct")
    lo, fs = s.real("lo", -4, 4), s.real("fs", 0.125, 8)
    x = s.real("x", -2, 3)
    w = [s.real(f"w{j}", 0, 2) for j in range(nb)]
    qr = (lo, lo + fs)
    c = conv(s.np.array([lo + x * fs]), s.np.array(w), quant_range=qr)
    greedy(s, x, w, [c[0, j] for j in range(nb)], "greedy decision on any range", eps=1e-6)
    y = rec(c, s.np.array(w), qr)
    acc = 0.0
    for j in range(nb):
        acc = acc + s.conc(c[0, j]) * w[j]
    s.eq(y[0], acc * fs + lo, "reconstruction on any range", scale=10.0)


def reconstruct(s, nb):
    rec = s.get(T + "sar_reconstruct")
    c = [[s.int(f"c{i}{j}", 0, 1) for j in range(nb)] for i in range(2)]
    w = [s.real(f"w{j}", -2, 2) for j in range(nb)]
    lo, hi = s.real("lo", -4, 4), s.real("hi", -4, 4)
    s.assume(hi >= lo + 0.01)
    y = rec(s.np.array(c), s.np.array(w), (lo, hi))
    s.same_shape(y, (2,), "one output per code")
    y0 = rec(s.np.array(c), s.np.array(w))
    for i in range(2):
        acc = 0.0
        for j in range(nb):
            acc = acc + c[i][j] * w[j]
        s.eq(y[i], acc * (hi - lo) + lo, "reconstruction law", scale=10.0)
        s.eq(y0[i], acc, "default range is the unit range", scale=10.0)


def binary(s, nb, rng):
    """ideal weights: error in [0, LSB), saturation, exact fixed points"""
    conv, rec, ideal = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct"), s.get(T + "sar_ideal_weights")
    lo, hi = RANGES[rng]
    W = ideal(nb)
    for j in range(nb):
        s.eq(W[j], 2.0 ** -(j + 1), "ideal weights are binary", tol=1e-12)
    s.same_shape(W, (nb,), "one ideal weight per bit")
    v = s.real("v", -8, 8)
    c = conv(s.np.array([v]), W, quant_range=(lo, hi))
    y = rec(c, W, (lo, hi))[0]
    lsb = (hi - lo) / 2 ** nb
    s.true(s.Implies(s.all(v >= lo, v < hi), s.all(v - y >= 0, v - y < lsb)), "error in [0, 1 LSB)")
    for j in range(nb):
        s.true(s.Implies(v < lo, c[0, j] == 0), "all zeros below the range")
        s.true(s.Implies(v >= hi, c[0, j] == 1), "all ones above the range")


def monotone(s, nb, rng):
    conv, rec, ideal = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct"), s.get(T + "sar_ideal_weights")
    W = ideal(nb)
    qr = RANGES[rng]
    a, b = s.real("a", -8, 8), s.real("b", -8, 8)
    s.assume(a <= b)
    ya = rec(conv(s.np.array([a]), W, qr), W, qr)[0]
    yb = rec(conv(s.np.array([b]), W, qr), W, qr)[0]
    s.le(ya, yb, "monotone")


def redundant(s, nb, r):
    """repeated bit: weights double towards the MSB and leave one LSB of head room"""
    ideal = s.get(T + "sar_ideal_weights")
    W = ideal(nb, redundant_bit=r)
    raw = [2.0 ** (nb - 1 - i) for i in range(nb)]
    raw.insert(r + 1, raw[r])
    tot = sum(raw) + raw[-1]
    s.same_shape(W, (nb + 1,), "one extra weight")
    for j in range(nb + 1):
        s.eq(W[j], raw[j] / tot, "repeated weight", tol=1e-12)
    conv, rec = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct")
    v = s.real("v", -1, 2)
    c = conv(s.np.array([v]), W)
    y = rec(c, W)[0]
    s.true(s.Implies(s.all(v >= 0, v < 1), s.all(v - y > -1e-9, v - y < W[-1] + 1e-9)), "redundant code covers the range")


def shapes(s, nb):
    conv, rec = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct")
    v = [s.real(f"v{i}", -2, 2) for i in range(4)]
    w = s.np.array([s.real(f"w{j}", 0, 1) for j in range(nb)])
    one = [conv(s.np.array([x]), w) for x in v]
    r = [rec(o, w) for o in one]

    def same(c, idx, i):
        for j in range(nb):
            s.eq(c[idx + (j,)], one[i][0, j], "sample converted independently")
    c = conv(v[0], w)
    s.same_shape(c, (1, nb), "scalar input")
    same(c, (0,), 0)
    a = s.np.array(v[:3])
    c = conv(a, w)
    s.same_shape(c, (3, nb), "1-D input")
    for i in range(3):
        same(c, (i,), i)
        s.eq(a[i], v[i], "input not modified")
    y = rec(c, w)
    s.same_shape(y, (3,), "1-D reconstruction")
    for i in range(3):
        s.eq(y[i], r[i][0], "reconstruction independent")
    c = conv(s.np.array(v).reshape(2, 2), w)
    s.same_shape(c, (2, 2, nb), "2-D input")
    for i in range(4):
        same(c, (i // 2, i % 2), i)
    y = rec(c, w)
    s.same_shape(y, (2, 2), "2-D reconstruction")
    for i in range(4):
        s.eq(y[i // 2, i % 2], r[i][0], "reconstruction independent")
    c = conv(s.np.array(v[:3]).reshape(1, 3), w)
    s.same_shape(c, (1, 3, nb), "row input")
    for i in range(3):
        same(c, (0, i), i)
    c = conv(v[:2], list(w))
    s.same_shape(c, (2, nb), "list input")
    for i in range(2):
        same(c, (i,), i)


def sampling(s, nb, rng, n=1):
    conv = s.get(T + "sar_convert")
    lo, hi = RANGES[rng]
    v = s.real("v", -2, 6)
    sg = s.real("sg", 0, 2)
    w = [s.real(f"w{j}", 0, 1) for j in range(nb)]
    c = conv(s.np.array([v]), s.np.array(w), quant_range=(lo, hi), sampling_noise_rms=sg, rng=s.rng())
    d = s.draws()
    if s.holds(sg > 0):
        s.true(len(d) == 1, "one noise draw per sample")
        x = (v + sg * d[0] - lo) / (hi - lo)
    else:
        x = (v - lo) / (hi - lo)
    greedy(s, x, w, [c[0, j] for j in range(nb)], "sampling noise adds to the input", eps=1e-9)


def comparator(s, nb, rng):
    conv = s.get(T + "sar_convert")
    lo, hi = RANGES[rng]
    v = s.real("v", -2, 6)
    sg = s.real("sg", 0, 2)
    w = [s.real(f"w{j}", 0, 1) for j in range(nb)]
    c = conv(s.np.array([v]), s.np.array(w), quant_range=(lo, hi), comparator_noise_rms=sg, rng=s.rng())
    d = s.draws()
    extra = None
    if s.holds(sg > 0):
        s.true(len(d) == nb, "one noise draw per decision")
        extra = [sg * x / (hi - lo) for x in d]
    greedy(s, (v - lo) / (hi - lo), w, [c[0, j] for j in range(nb)], "comparator noise adds to the comparison", eps=1e-9, extra=extra)


def bothnoise(s, rng):
    """equal rms: the sum of the two draws acts, whatever their order"""
    conv = s.get(T + "sar_convert")
    lo, hi = RANGES[rng]
    v = s.real("v", -2, 6)
    sg = s.real("sg", 0.01, 2)
    w = s.real("w", 0, 1)
    c = conv(s.np.array([v]), s.np.array([w]), quant_range=(lo, hi), sampling_noise_rms=sg, comparator_noise_rms=sg, rng=s.rng())
    d = s.draws()
    s.true(len(d) == 2, "one draw each")
    greedy(s, (v + sg * (d[0] + d[1]) - lo) / (hi - lo), [w], [c[0, 0]], "both noises add", eps=1e-9)


def badrange(s):
    conv, rec = s.get(T + "sar_convert"), s.get(T + "sar_reconstruct")
    lo, hi = s.real("lo", -4, 4), s.real("hi", -4, 4)
    s.assume(hi <= lo)
    w = s.np.array([0.5, 0.25])
    x = s.np.array([0.3])
    c = s.np.array([[1, 0]])
    inf, nan = float("inf"), float("nan")
    for q in ((lo, hi), (lo,), (lo, hi, hi), (lo, inf), (-inf, hi), (nan, hi), (lo, nan)):
        s.raises(ValueError, "invalid range rejected by convert", conv, x, w, q)
        s.raises(ValueError, "invalid range rejected by reconstruct", rec, c, w, q)


def scenarios():
    r = []
    for rng in RANGES:
        for nb in (1, 2, 3, 4):
            r.append(Scenario(f"decide_{rng}_{nb}", decisions, nb=nb, rng=rng))
        for nb in (1, 2, 3, 4, 5, 6, 8):
            t = "quick" if nb <= 6 else "thorough"
            r.append(Scenario(f"binary_{rng}_{nb}", binary, tier=t, nb=nb, rng=rng))
        for nb in (1, 2, 3, 4):
            r.append(Scenario(f"monotone_{rng}_{nb}", monotone, nb=nb, rng=rng, tier="quick" if nb < 4 or rng == "bip" else "thorough"))
        for nb in (1, 2, 3):
            r.append(Scenario(f"sampling_{rng}_{nb}", sampling, nb=nb, rng=rng))
            r.append(Scenario(f"comparator_{rng}_{nb}", comparator, nb=nb, rng=rng))
        r.append(Scenario(f"bothnoise_{rng}", bothnoise, rng=rng))
    for nb in (1, 2):
        r.append(Scenario(f"symrange_{nb}", decisions_symrange, nb=nb))
    r += [Scenario("reconstruct_1", reconstruct, nb=1), Scenario("reconstruct_3", reconstruct, nb=3), Scenario("shapes", shapes, nb=2),
          Scenario("badrange", badrange)]
    for nb in (2, 3, 5):
        for k in range(nb):
            r.append(Scenario(f"redundant_{nb}_{k}", redundant, nb=nb, r=k, tier="quick" if nb < 5 or k in (1, 3) else "thorough"))
    return r
