"""C02 aliasing folds into the first Nyquist zone."""
from engine.run import Scenario

BOUNDS = ("frequency = any real multiple in [-50,50] of any symbolic rate in [1e-6,1e12]; bins any real in [-64,64]*N; FFT length "
          "symbolic integer in [1,1e6] (bins as a fraction of N for lengths 1..64); shifts by any integer multiple in [-50,50]")
OUTSIDE = "inputs more than 50 periods away from zero; floating-point rounding"
T = "adctoolbox:"


def freq(s, arr):
    f = s.get(T + "fold_frequency_to_nyquist")
    r = s.real("r", -50, 50)
    fs = s.real("fs", 1e-6, 1e12)
    k = s.int("k", -50, 50)
    x = r * fs

    def call(v):
        if arr:
            out = f(s.np.array([v, 0.25 * fs]), fs)
            s.same_shape(out, (2,), "array in, array out")
            s.eq(out[1], 0.25 * fs, "second element independent", scale=fs)
            return out[0]
        return f(v, fs)
    a = call(x)
    s.ge(a, 0.0, "not negative", scale=fs)
    s.le(a, fs / 2, "at most fs/2", scale=fs)
    s.eq(call(x + k * fs), a, "period fs", scale=fs)
    s.eq(call(-x), a, "even", scale=fs)
    s.assume(r >= 0, r <= 0.5)
    s.eq(call(x), x, "identity in the zone", scale=fs)


def bins(s, n, arr=False):
    f = s.get(T + "fold_bin_to_nyquist")
    x = s.real("x", -16 * n, 16 * n)
    k = s.int("k", -16, 16)
    a = f(x, n)
    s.ge(a, 0.0, "not negative")
    s.le(a, n / 2, "at most N/2")
    s.eq(f(x + k * n, n), a, "period N", scale=n)
    s.eq(f(-x, n), a, "even", scale=n)
    s.assume(x >= 0, x <= n / 2)
    s.eq(f(x, n), x, "identity in the zone", scale=n)


def bins_any_n(s):
    """symbolic FFT length; the bin is a real multiple of it"""
    f = s.get(T + "fold_bin_to_nyquist")
    n = s.int("n", 1, 1000000)
    r = s.real("r", -4, 4)
    k = s.int("k", -4, 4)
    x = r * n
    a = f(x, n)
    s.ge(a, 0.0, "not negative", scale=n)
    s.le(a, n / 2, "at most N/2", scale=n)
    s.eq(f(x + k * n, n), a, "period N", scale=n)
    s.eq(f(-x, n), a, "even", scale=n)


def intbins(s, n):
    f = s.get(T + "fold_bin_to_nyquist")
    x = s.int("x", -6 * n, 6 * n)
    a = f(x, n)
    s.true(a == s.np.floor(a), "integer bins stay integer")
    s.true(s.any((x - a) % n == 0, (x + a) % n == 0), "congruent to plus or minus the bin")
    s.true(s.all(a >= 0, 2 * a <= n), "inside the zone")


def scenarios():
    r = [Scenario("freq_scalar", freq, arr=False), Scenario("freq_array", freq, arr=True), Scenario("bins_any_n", bins_any_n)]
    for n in (1, 2, 3, 7, 8, 9, 12, 15, 16, 33, 64, 8192, 8191):
        r.append(Scenario(f"bins_{n}", bins, n=n))
        r.append(Scenario(f"intbins_{n}", intbins, n=n))
    return r
