"""C10 fractional delays."""
import math

from engine.run import Scenario

BOUNDS = ("FFT delay: lengths 1..9 (12, 13, 16 thorough), all samples, tones of every bin below Nyquist with symbolic quadrature amplitudes, delays any real in "
          "[-3,3] samples (tone law, lengths up to 9) and the set {0,1,-1,2,5,0.5,-0.25,1.3,-2.7,17.4} samples; Farrow delay: 1,3,5,7 taps, all samples, "
          "lengths up to 17, delay any real in [-3,3] samples at a symbolic rate, polynomials of every degree below the tap count")
OUTSIDE = "longer records; inputs shorter than the Farrow filter; floating-point rounding"
T = "adctoolbox:"
DEL = (0.0, 1.0, -1.0, 2.0, 5.0, 0.5, -0.25, 1.3, -2.7, 17.4)


def fft_basic(s, n, d, fs):
    """linearity, mean, integer shifts"""
    f = s.get(T + "fractional_delay_fft")
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    y = [s.real(f"y{i}", -2, 2) for i in range(n)]
    a, b = s.real("a", -2, 2), s.real("b", -2, 2)
    A = s.np.array(x)
    fx, fy = f(A, d / fs, fs), f(s.np.array(y), d / fs, fs)
    s.same_shape(fx, (n,), "same length")
    fz = f(s.np.array([a * p + b * q for p, q in zip(x, y)]), d / fs, fs)
    for i in range(n):
        s.eq(fz[i], a * fx[i] + b * fy[i], "linear", scale=20.0)
        s.eq(A[i], x[i], "input not modified")
    s.eq(sum(fx[i] for i in range(n)), sum(x), "mean preserved", scale=n)
    if d == int(d):
        for i in range(n):
            s.eq(fx[i], x[(i - int(d)) % n], "integer delay is a circular shift")


def fft_compose(s, n, d1, d2, fs):
    f = s.get(T + "fractional_delay_fft")
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    a = s.np.array(x)
    two = f(f(a, d1 / fs, fs), d2 / fs, fs)
    one = f(a, (d1 + d2) / fs, fs)
    back = f(f(a, d1 / fs, fs), -d1 / fs, fs)
    for i in range(n):
        s.eq(two[i], one[i], "delays compose")
        s.eq(back[i], x[i], "opposite delays cancel")


def fft_compose_int(s, n, d1, d2, fs):
    """even lengths: composition with an integer-sample delay"""
    f = s.get(T + "fractional_delay_fft")
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    a = s.np.array(x)
    two = f(f(a, d1 / fs, fs), d2 / fs, fs)
    one = f(a, (d1 + d2) / fs, fs)
    for i in range(n):
        s.eq(two[i], one[i], "delays compose")


def fft_tone(s, n, k, d, fs):
    f = s.get(T + "fractional_delay_fft")
    p, q, c = s.real("p", -2, 2), s.real("q", -2, 2), s.real("c", -2, 2)
    w = 2 * math.pi * k / n
    x = [c + p * math.cos(w * i) + q * math.sin(w * i) for i in range(n)]
    D = s.real("d", -3, 3) if d is None else d
    y = f(s.np.array(x), D / fs, fs)
    cd, sd = (s.np.cos(w * D), s.np.sin(w * D)) if d is None else (math.cos(w * D), math.sin(w * D))
    for i in range(n):
        ci, si = math.cos(w * i), math.sin(w * i)
        s.eq(y[i], c + p * (ci * cd + si * sd) + q * (si * cd - ci * sd), "tone shifted by the delay")


def far_linear(s, n, taps):
    f = s.get(T + "fractional_delay_farrow")
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    y = [s.real(f"y{i}", -2, 2) for i in range(n)]
    a, b = s.real("a", -2, 2), s.real("b", -2, 2)
    D = s.real("d", -2.4, 2.4)
    A = s.np.array(x)
    kw = {} if taps == 7 else {"n_taps": taps}
    fx, fy = f(A, D, 1.0, **kw), f(s.np.array(y), D, 1.0, **kw)
    s.same_shape(fx, (n,), "same length")
    fz = f(s.np.array([a * p + b * q for p, q in zip(x, y)]), D, 1.0, **kw)
    for i in range(n):
        s.eq(fz[i], a * fx[i] + b * fy[i], "linear", scale=20.0)
        s.eq(A[i], x[i], "input not modified")


def far_int(s, n, taps):
    f = s.get(T + "fractional_delay_farrow")
    x = [s.real(f"x{i}", -2, 2) for i in range(n)]
    fs = s.real("fs", 1, 1e9)
    for d in range(-n - 1, n + 2):
        y = f(s.np.array(x), d / fs, fs, n_taps=taps)
        for i in range(n):
            s.eq(y[i], x[i - d] if 0 <= i - d < n else 0.0, "integer delay is a zero-padded shift")


def far_poly(s, n, taps, deg, symfs):
    f = s.get(T + "fractional_delay_farrow")
    c = [s.real(f"c{i}", -1, 1) for i in range(deg + 1)]
    D = s.real("d", -3, 3)
    fs = s.real("fs", 1, 1e9) if symfs else 1.0
    mid = (n - 1) / 2

    def p(t):
        acc = 0.0
        for i in range(deg, -1, -1):
            acc = acc * ((t - mid) / 4) + c[i]
        return acc
    kw = {} if taps == 7 else {"n_taps": taps}
    y = f(s.np.array([p(i) for i in range(n)]), D / fs, fs, **kw)
    m = taps // 2 + 4
    for i in range(m, n - m):
        s.eq(y[i], p(i - D), "polynomial delayed exactly", scale=10.0)


def rejects(s):
    f, g = s.get(T + "fractional_delay_fft"), s.get(T + "fractional_delay_farrow")
    v = [s.real(f"x{i}", -1, 1) for i in range(4)]
    m = s.np.array(v).reshape(2, 2)
    s.raises(ValueError, "2-D input rejected", f, m, 0.5, 1.0)
    s.raises(ValueError, "2-D input rejected", g, m, 0.5, 1.0)
    for t in (0, 2, 4, -1, -3):
        s.raises(ValueError, "even or non-positive tap count rejected", g, s.np.array(v), 0.5, 1.0, t)


def scenarios():
    r = [Scenario("rejects", rejects)]
    for n in (1, 2, 3, 4, 5, 8, 9, 12, 13, 16):
        t = "quick" if n <= 9 else "thorough"
        for d in DEL:
            fs = 4.0 if d in (1.3, 5.0) else 1.0
            r.append(Scenario(f"fft_{n}_{d}", fft_basic, tier=t, n=n, d=d, fs=fs))
        if n % 2:
            for d1, d2 in ((0.5, 0.25), (1.3, -2.7), (3.3, 1.0)):
                r.append(Scenario(f"compose_{n}_{d1}", fft_compose, tier=t, n=n, d1=d1, d2=d2, fs=2.0))
        else:
            r.append(Scenario(f"compose_int_{n}", fft_compose_int, tier=t, n=n, d1=0.3, d2=1.0, fs=2.0))
        for k in range(1, (n + 1) // 2):
            if n <= 9:
                r.append(Scenario(f"tone_{n}_{k}", fft_tone, n=n, k=k, d=None, fs=2.0))
            for d in DEL[5:]:
                r.append(Scenario(f"tone_{n}_{k}_{d}", fft_tone, tier=t, n=n, k=k, d=d, fs=1.0))
    for taps in (1, 3, 5, 7):
        r.append(Scenario(f"farrow_linear_{taps}", far_linear, n=taps + 1, taps=taps))
        r.append(Scenario(f"farrow_int_{taps}", far_int, n=taps + 2, taps=taps))
        for deg in range(taps):
            r.append(Scenario(f"farrow_poly_{taps}_{deg}", far_poly, n=taps + 10, taps=taps, deg=deg, symfs=deg < 2))
    return r
