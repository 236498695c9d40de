"""C03 coherent frequency selection."""
import math

from engine.run import Scenario

BOUNDS = ("sampling rate any real in [1e-3,1e12]; target any real multiple of it: every target whose rounded bin lies in [-6, 2.2 N] for FFT lengths "
          "{1,2,8,12,15,16,30} with radii {0,1,2,3,5}, odd-only on and off; default radius 200 for targets around -199..-190 bins and "
          "around the first Nyquist edge of N=15, 64 and 210; lengths 1024 and 8192 near a tenth of the rate and above it (undersampling)")
OUTSIDE = "other FFT lengths and radii; targets exactly half-way between two bins (the search centre is then implementation-defined)"


def find(s, n, lo, hi, radius, odd, default=False):
    f = s.get("adctoolbox:find_coherent_frequency")
    t = s.real("t", lo, hi)                  # target in bins
    fs = s.real("fs", 1e-3, 1e12)
    c = s.np.floor(t + 0.5)
    s.assume(s.abs(t - c) < 0.5 - 1e-6)
    c = s.conc(c)
    fin = t * fs / n
    kw = {} if default else {"search_radius": radius}
    if not odd:
        kw["force_odd"] = False
    elif not default:
        kw["force_odd"] = True
    adm = [b for b in range(max(1, c - radius), c + radius + 1) if math.gcd(b, n) == 1 and (not odd or b % 2)]
    try:
        fa, b = f(fs, fin, n, **kw)
    except ValueError:
        s.true(not adm, "error only without an admissible bin")
        return
    s.true(bool(adm), "error when the radius holds no admissible bin")
    b = s.conc(b)
    s.true(b > 0, "bin positive")
    s.true(math.gcd(b, n) == 1, "bin coprime with the length")
    if odd:
        s.true(b % 2 == 1, "bin odd")
    s.eq(fa, b * fs / n, "frequency is bin fs/N", scale=fs, tol=1e-9)
    for a in adm:
        s.le(s.abs(b - t), s.abs(a - t), "no admissible bin is closer")
    s.true(s.abs(b - c) <= radius, "bin within the radius")


def scenarios():
    r = []
    for n in (1, 2, 8, 12, 15, 16, 30):
        for rad in (0, 1, 2, 3, 5):
            for odd in (True, False):
                tier = "quick" if n in (8, 12, 15) or rad in (0, 2) else "thorough"
                r.append(Scenario(f"n{n}_r{rad}_{'odd' if odd else 'any'}", find, tier=tier, n=n, lo=-6.4, hi=2.2 * n + 0.4, radius=rad, odd=odd))
    for odd in (True, False):
        o = "odd" if odd else "any"
        r.append(Scenario(f"default_neg_{o}", find, n=16, lo=-201.4, hi=-193.6, radius=200, odd=odd, default=True))
        for n in (15, 64, 210):
            r.append(Scenario(f"default_{n}_{o}", find, n=n, lo=n / 2 - 1.4, hi=n / 2 + 1.4, radius=200, odd=odd, default=True))
        for n in (1024, 8192):
            r.append(Scenario(f"long_{n}_{o}", find, n=n, lo=n // 10 - 1.4, hi=n // 10 + 1.4, radius=6, odd=odd))
            r.append(Scenario(f"under_{n}_{o}", find, n=n, lo=n * 1.3 - 1.4, hi=n * 1.3 + 1.4, radius=6, odd=odd))
    return r
