"""C18 the brick-wall band extractor is an exact linear projection per column."""
import math

from engine.run import Scenario

BOUNDS = ("records of 6..16 samples, even and odd, 1..3 columns, every sample in [-8,8]; 1..3 bands with edges anywhere within 0.49 bin of any given bin, either order, overlapping or empty bins; "
          "every bin component checked; rejection for band edges below 0 or above 0.5 anywhere in [-2,2]")
OUTSIDE = "longer records; band edges exactly half-way between two bins"
T = "adctoolbox:extract_freq_components"
F = "adctoolbox.oversampling:ifilter"


def comp(x, k, N):
    """cosine and sine components of bin k"""
    return (sum(x[n] * math.cos(2 * math.pi * k * n / N) for n in range(N)), sum(x[n] * math.sin(2 * math.pi * k * n / N) for n in range(N)))


def edges(s, N, bands, sym):
    out = []
    for i, (a, b) in enumerate(bands):
        row = []
        for j, k in enumerate((a, b)):
            if not sym:
                row.append(k / N)
                continue
            lo, hi = max(-0.49, -k), min(0.49, N / 2 - k)
            row.append((k + s.real(f"e{i}_{j}", lo, hi)) / N if hi > lo else k / N)
        out.append(row)
    return out


def keeps(s, N, M, bands, sym=True, fn_name=T, layout="cols", flat=False):
    X = [[s.real(f"x{m}_{n}", -8, 8) for n in range(N)] for m in range(M)]
    B = edges(s, N, bands, sym)
    if layout == "vec":
        x = s.np.array(X[0])
    elif layout == "rows":
        x = s.np.array(X)
    else:
        x = s.np.array([[X[m][n] for m in range(M)] for n in range(N)])
    y = s.get(fn_name)(x, s.np.array(B[0] if flat else B))
    s.true(tuple(y.shape) == (N, M), "one column per input column")
    kept = set()
    for a, b in bands:
        kept |= set(range(min(a, b), max(a, b) + 1))
    for m in range(M):
        col = [y[n, m] for n in range(N)]
        for k in range(N // 2 + 1):
            u, v = comp(col, k, N), comp(X[m], k, N)
            for p, q in zip(u, v):
                if k in kept:
                    s.eq(p, q, "components inside the bands are kept", scale=1.0)
                else:
                    s.eq(p, 0.0, "components outside the bands are removed", scale=1.0)


def algebra(s, N, bands, rest):
    """linear, idempotent, complementary bands add up, band order irrelevant"""
    x, z = s.reals("x", N, -8, 8), s.reals("z", N, -8, 8)
    k = s.real("k", -4, 4)
    f = s.get(T)
    B = edges(s, N, bands, False)
    R = edges(s, N, rest, False)
    fx, fz = f(s.array(x), B), f(s.array(z), B)
    fl = f(s.array([x[n] + k * z[n] for n in range(N)]), B)
    ff = f(fx, B)
    fr = f(s.array(x), R)
    fo = f(s.array(x), [list(reversed(b)) for b in reversed(B)])
    for n in range(N):
        s.eq(fl[n, 0], fx[n, 0] + k * fz[n, 0], "linear", scale=8.0)
        s.eq(ff[n, 0], fx[n, 0], "idempotent", scale=1.0)
        s.eq(fx[n, 0] + fr[n, 0], x[n], "complementary bands add up to the input", scale=1.0)
        s.eq(fo[n, 0], fx[n, 0], "order of bands and edges is irrelevant", scale=1.0)


def full(s, N):
    x = s.reals("x", N, -8, 8)
    for name in (T, F):
        y = s.get(name)(s.array(x), [[0, 0.5]])
        for n in range(N):
            s.eq(y[n, 0], x[n], "the full band passes everything", scale=1.0)


def rejects(s):
    f = s.get(T)
    x = s.array(s.reals("x", 6, -8, 8))
    lo, hi = s.real("lo", -2, -1e-6), s.real("hi", 0.5 + 1e-6, 2)
    ok = s.real("ok", 0, 0.5)
    for name in (T, F):
        f = s.get(name)
        s.raises(ValueError, "negative edge rejected", lambda: f(x, s.np.array([[lo, ok]])))
        s.raises(ValueError, "negative edge rejected", lambda: f(x, s.np.array([[0.1, 0.2], [ok, lo]])))
        s.raises(ValueError, "edge above 0.5 rejected", lambda: f(x, s.np.array([[ok, hi]])))
        s.raises(ValueError, "edge above 0.5 rejected", lambda: f(x, s.np.array([[hi, ok], [0.1, 0.2]])))
        s.raises(ValueError, "bands must be pairs", lambda: f(x, s.np.array([[0.1, 0.2, 0.3]])))
        s.raises(ValueError, "bands must be pairs", lambda: f(x, s.np.array([[0.1], [0.2]])))
        s.raises(ValueError, "bands must be pairs", lambda: f(x, s.np.array([0.1, 0.2, 0.3, 0.4])))
    s.raises(ValueError, "complex input rejected", lambda: f(s.np.array([1.0 + 2.0j, 0.0, 1.0, 1.0]), s.np.array([[0.1, 0.2]])))


def scenarios():
    r = [Scenario("rejects", rejects)]
    for N in (6, 7, 8, 9, 11, 13, 16):
        r.append(Scenario(f"full_{N}", full, N=N))
    for N in (8, 7):
        h = N // 2
        for a in range(h + 1):
            for b in range(h + 1):
                if (a * 5 + b * 3 + N) % 2 == 0 or a == b or b == h:
                    r.append(Scenario(f"keep_{N}_{a}_{b}", keeps, N=N, M=1, bands=((a, b),), layout="vec", flat=(a + b) % 2 == 0))
    for N, M, bands in ((10, 2, ((1, 2), (4, 5))), (11, 2, ((5, 4), (0, 1))), (9, 3, ((2, 3), (3, 4), (1, 1))), (12, 1, ((0, 0), (6, 6))), (15, 2, ((7, 6), (2, 2))), (16, 2, ((3, 5),))):
        r.append(Scenario(f"bands_{N}_{M}", keeps, N=N, M=M, bands=bands))
        r.append(Scenario(f"bands_{N}_{M}_exact", keeps, N=N, M=M, bands=bands, sym=False, fn_name=F))
    for N, M in ((8, 2), (7, 3)):
        r.append(Scenario(f"rows_{N}_{M}", keeps, N=N, M=M, bands=((1, 2),), layout="rows"))
    for N, b, c in ((8, ((0, 1), (4, 4)), ((2, 3),)), (9, ((1, 2),), ((3, 4), (0, 0))), (7, ((0, 2),), ((3, 3),)), (12, ((2, 4), (6, 6)), ((0, 1), (5, 5)))):
        r.append(Scenario(f"algebra_{N}", algebra, N=N, bands=b, rest=c))
    return r
