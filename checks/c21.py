"""C21 sine-histogram INL/DNL obeys histogram invariants."""
import math

from engine.run import Scenario

BOUNDS = ("every sequence of up to 5 free codes added to a fixed base histogram of up to 30 samples that contains the lowest and the highest code, over ranges of 4..9 codes with offsets -6..100; "
          "clip fractions 0..0.3; integer and float codes, voltages of 2 and 3 bits in unipolar, bipolar and full-scale form with every quantisation error below half an LSB and overdrive, spanning at most 2 V as documented")
OUTSIDE = "longer free sequences and wider code ranges, exact half-LSB ties, records with no sample strictly between the extremes, the drawn plot"
ASSUMPTIONS = ["the cosine of a multiple of pi/N is tabulated per multiple in double precision"]
C = "adctoolbox.aout.compute_inl_from_sine:compute_inl_from_sine"
A = "adctoolbox:analyze_inl_from_sine"


def setup(s):
    s.opt["intsets"] = True
    s.opt["cos_table"] = True


def spec(s, cnt, N):
    """dnl, inl of a clipped histogram"""
    K = len(cnt)
    cum, t = [], 0
    for c in cnt:
        t = t + c
        cum.append(t)
    # how many samples sit on the outer codes decides the normalisation
    s.conc(cum[0]), s.conc(cum[K - 2])
    F = [-s.math.cos(math.pi * cum[i] / N) for i in range(K - 1)]
    tot = F[K - 2] - F[0]
    raw = [(F[i + 1] - F[i]) / tot * K - K / (K - 2) for i in range(K - 2)]
    dnl = [s.ite(v < -1.0, -1.0, v) for v in raw]
    inl, t = [], 0.0
    for d in dnl:
        t = t + d
        inl.append(t)
    return raw, dnl, inl


def run(s, x, wrap, **kw):
    if wrap:
        r = s.get(A)(x, create_plot=False, **kw)
        return r["inl"], r["dnl"], r["code"]
    return s.get(C)(x, **kw)


def clipped_counts(s, xs, base, lo, hi, e):
    a, b = lo + e, hi - e
    cnt = []
    for c in range(a, b + 1):
        f = (lambda v: v <= c) if c == a else (lambda v: v >= c) if c == b else (lambda v: v == c)
        cnt.append(sum(s.ite(f(v), 1, 0) for v in xs) + sum(k for v, k in base if f(v)))
    return a, b, cnt


def hist(s, n, lo, hi, base, clip=0.0, fl=False, wrap=False, bits=None):
    setup(s)
    xs = [s.int(f"x{i}", lo, hi) for i in range(n)]
    fixed = [c for c, k in base for _ in range(k)]
    seq = xs[:n // 2] + fixed + xs[n // 2:]
    e = 0 if clip is None else int(round(clip * (hi - lo)))
    a, b, cnt = clipped_counts(s, xs, base, lo, hi, e)
    K = b - a + 1
    s.assume(sum(cnt[1:-1]) >= 1)
    raw, dnl, inl = spec(s, cnt, len(seq))
    kw = {} if clip is None else {"clip_percent": clip}
    if bits:
        kw["num_bits"] = bits
    x = s.np.array([float(v) if not hasattr(v, "isint") and fl else v for v in seq])
    if fl:
        x = s.np.array([v + 0.25 * ((i % 3) - 1) for i, v in enumerate(seq)])
    gi, gd, gc = run(s, x, wrap, **kw)
    s.same_shape(gd, (K - 2,), "one DNL value per code between the extremes")
    s.same_shape(gi, (K - 2,), "one INL value per DNL value")
    s.true([int(c) for c in gc] == list(range(a, b - 1)), "code axis")
    s.eq(gd, dnl, "DNL is the arcsine-corrected histogram")
    s.eq(gi, inl, "INL is the running sum of DNL")
    s.ge(gd, -1.0, "DNL is never below -1")
    t = 0.0
    for i in range(K - 2):
        t = t + gd[i]
        s.eq(gi[i], t, "reported INL sums reported DNL")
        s.true(s.Implies(cnt[i + 1] == 0, gd[i] <= -1 + 1e-9), "missing codes are at -1")
        for j in range(K - 2):
            s.true(s.Implies(cnt[i + 1] == 0, gd[i] <= gd[j] + 1e-9), "missing codes are the lowest")
    s.true(s.Implies(s.all([v >= -1.0 for v in raw]), s.abs(t) <= 1e-6), "DNL averages zero when nothing is clipped")


def order(s, n, lo, hi, base, shift, clip=0.0):
    """order is irrelevant; a shift of all codes moves only the axis"""
    setup(s)
    xs = [s.int(f"x{i}", lo, hi) for i in range(n)]
    fixed = [c for c, k in base for _ in range(k)]
    seq = fixed[:2] + xs + fixed[2:]
    e = int(round(clip * (hi - lo)))
    a, b, cnt = clipped_counts(s, xs, base, lo, hi, e)
    s.assume(sum(cnt[1:-1]) >= 1)
    s.conc(cnt[0]), s.conc(sum(cnt[:-1]))
    f = s.get(C)
    i0, d0, c0 = f(s.np.array(seq), clip_percent=clip)
    for ys, k in ((seq[::-1], 0), (seq[3:] + seq[:3], 0), ([v + shift for v in seq], shift)):
        i1, d1, c1 = f(s.np.array(ys), clip_percent=clip)
        lab = "a shift moves only the code axis" if k else "sample order is irrelevant"
        s.eq(d1, d0, lab + ": DNL")
        s.eq(i1, i0, lab + ": INL")
        s.true([int(c) for c in c1] == [int(c) + k for c in c0], lab + ": axis")


def volts(s, n, bits, mode, base, clip=0.0, over=False):
    """voltages give the result of their quantised, clipped codes"""
    setup(s)
    M = 2 ** bits
    lim = (-1, M + 1) if over else (0, M)
    ks = [s.int(f"k{i}", *lim) for i in range(n)]
    es = [s.real(f"e{i}", -0.49, 0.49) for i in range(n)]
    fixed = [c for c, k in base for _ in range(k)]
    lv = [k + e for k, e in zip(ks, es)] + [float(c) for c in fixed]
    if mode == "fs":
        kw, v = {"full_scale": 0.75}, [a * 0.75 / M for a in lv]
    elif mode == "bip":
        kw, v = {}, [a * 2.0 / M - 1.0 for a in lv]
    else:
        kw, v = {}, [a / M for a in lv]
    if mode == "uni":
        s.assume(s.all([q >= -0.09 for q in v]))
    if mode == "bip":
        s.assume(s.all([q >= -1.0 for q in v]), s.all([q <= 1.0 for q in v]), s.any([q < -0.11 for q in v]))
    cs = [s.np.clip(k, 0, M - 1) for k in ks]
    cnt = [sum(s.ite(c == j, 1, 0) for c in cs) + sum(k for b, k in base if min(b, M - 1) == j) for j in range(M)]
    s.assume(sum(cnt[1:-1]) >= 1)
    raw, dnl, inl = spec(s, cnt, len(lv))
    gi, gd, gc = s.get(C)(s.np.array(v), num_bits=bits, clip_percent=clip, **kw)
    s.eq(gd, dnl, "voltage DNL is that of its codes")
    s.eq(gi, inl, "voltage INL is that of its codes")
    s.true([int(c) for c in gc] == list(range(0, M - 2)), "voltage code axis")


def scenarios():
    r = []
    for i, (n, lo, hi, base) in enumerate(((3, 0, 4, ((0, 2), (2, 1), (4, 3))), (4, 0, 3, ((0, 1), (3, 1))), (3, -6, 0, ((-6, 3), (-4, 2), (-3, 2), (0, 3))),
                                           (3, 100, 107, ((100, 6), (102, 3), (103, 1), (105, 4), (107, 5))))):
        for clip in (0.0, None):
            r.append(Scenario(f"hist{i}_{clip}", hist, n=n, lo=lo, hi=hi, base=base, clip=clip))
    r.append(Scenario("clip", hist, n=3, lo=0, hi=7, base=((0, 2), (1, 1), (3, 2), (6, 1), (7, 2)), clip=0.15))
    r.append(Scenario("clip2", hist, n=3, lo=-4, hi=4, base=((-4, 2), (-1, 1), (1, 2), (4, 2)), clip=0.25))
    r.append(Scenario("float", hist, n=3, lo=0, hi=5, base=((0, 2), (2, 2), (3, 1), (5, 2)), fl=True))
    r.append(Scenario("wrapper", hist, n=3, lo=0, hi=4, base=((0, 2), (2, 1), (4, 3)), clip=None, wrap=True))
    r.append(Scenario("wrapper_clip", hist, n=3, lo=0, hi=6, base=((0, 2), (2, 1), (6, 3)), clip=0.2, wrap=True, bits=3))
    for i, clip in enumerate((0.0, 0.2)):
        for sh in (5, -40):
            r.append(Scenario(f"order_{i}_{sh}", order, n=3, lo=0, hi=6, base=((0, 2), (1, 1), (3, 1), (4, 2), (6, 2)), shift=sh, clip=clip))
    for mode in ("uni", "bip", "fs"):
        r.append(Scenario(f"volt_{mode}", volts, n=2, bits=2, mode=mode, base=((0, 1), (1, 1), (3, 1))))
        r.append(Scenario(f"volt3_{mode}", volts, n=2, bits=3, mode=mode, base=((0, 1), (2, 1), (4, 2), (7, 1))))
        r.append(Scenario(f"volt_over_{mode}", volts, n=2, bits=2, mode=mode, base=((0, 1), (2, 1), (3, 1)), over=True))
    return r
