"""C13 TI spur prediction."""
import math

from engine.run import Scenario

BOUNDS = ("1..4 channels (5 and 6 without dB claims in the thorough tier); offsets in [-2,2], gains in [0.2,3], input amplitude in [0.01,10], full scale in [0.1,10], sampling rate in [1,1e12], "
          "input frequency any multiple in [0.01,3] of the rate (4 skewed channels with dB levels: 0.07, 0.4375 and 1.3), all symbolic; per-channel skew phases from the stated sets")
OUTSIDE = "symbolic skews; exactly coinciding spur frequencies may be listed in any order"
T = "adctoolbox:"


def setup(s, M, th):
    o = [s.real(f"o{m}", -2, 2) for m in range(M)]
    g = [s.real(f"g{m}", 0.2, 3) for m in range(M)]
    A = s.real("A", 0.01, 10)
    fs = s.real("fs", 1, 1e12)
    return o, g, A, fs


def check(s, M, th, via, db, rr=None):
    f = s.get(T + "predict_spurs")
    o, g, A, fs = setup(s, M, th)
    r = s.real("r", 0.01, 3) if rr is None else rr
    FS = s.real("FS", 0.1, 10)
    fin = r * fs
    p = {"gain": s.np.array(g), "offset": s.np.array(o), "skew": s.np.array([t / fin for t in th])}
    kw = {}
    if via == "params":
        p["fin"] = fin
    else:
        kw["fin"] = fin
    if via != "noA":
        p["A"] = A
    else:
        A = 1.0
    if db:
        kw["full_scale"] = FS
    else:
        FS = 1.0
    sp = f(p, fs, **kw)
    s.true(len(sp) == 2 * (M - 1), "M-1 spurs of each kind")
    for a, b in zip(sp, sp[1:]):
        s.le(a["freq_hz"], b["freq_hz"], "sorted by frequency", scale=fs)
    al = [(g[m] * math.cos(2 * math.pi * th[m]), g[m] * math.sin(2 * math.pi * th[m])) for m in range(M)]
    for kind in ("offset", "gain_skew"):
        for k in range(1, M):
            hit = [x for x in sp if x["kind"] == kind and x["k"] == k]
            s.true(len(hit) == 1, "each spur listed once")
            x = hit[0]
            u = k / M if kind == "offset" else r + k / M
            fold = s.abs(u - s.np.floor(u + 0.5))
            s.eq(x["freq_hz"], fold * fs, "folded image position", scale=fs)
            s.ge(x["freq_hz"], 0.0, "inside the first zone", scale=fs)
            s.le(x["freq_hz"], fs / 2, "inside the first zone", scale=fs)
            re = im = 0.0
            for m in range(M):
                c, d = math.cos(2 * math.pi * k * m / M), -math.sin(2 * math.pi * k * m / M)
                if kind == "offset":
                    re, im = re + o[m] * c, im + o[m] * d
                else:
                    re, im = re + al[m][0] * c - al[m][1] * d, im + al[m][0] * d + al[m][1] * c
            w = 1.0 if kind == "offset" else A
            s.ge(x["amp"], 0.0, "amplitude not negative")
            s.eq((x["amp"] * M) ** 2, w * w * (re * re + im * im), "amplitude is the Fourier coefficient", scale=w * w, tol=1e-5)
            if db:
                s.assume(x["amp"] > 1e-4 * A)
                dbfs = 20 * s.np.log10(x["amp"] / FS)
                s.eq(x["dbfs"], dbfs, "dBFS from amplitude and full scale", scale=10.0)
                s.eq(x["dbc"], 20 * s.np.log10(x["amp"] / (A * sum(g) / M)), "dBc from amplitude and fundamental", scale=10.0)


def matched(s, M):
    """matching channels: no spurs; a common offset changes nothing; proportional to the offset mismatch"""
    f = s.get(T + "predict_spurs")
    o = [s.real(f"o{m}", -2, 2) for m in range(M)]
    c, g, A = s.real("c", -2, 2), s.real("g", 0.2, 3), s.real("A", 0.01, 10)
    k = s.real("k", 0.1, 4)
    fs, fin = 8.0, 1.3

    def amps(off, gain):
        d = {(x["kind"], x["k"]): x["amp"] for x in f({"gain": gain, "offset": off, "skew": [0.0] * M, "A": A}, fs, fin)}
        return d
    z = amps([c] * M, [g] * M)
    for v in z.values():
        s.le(v, 0.0, "matching channels give no spur", scale=10.0)
    a, b = amps(o, [g] * M), amps([v + c for v in o], [g] * M)
    d = amps([v * k for v in o], [g] * M)
    for j in range(1, M):
        s.eq(a[("offset", j)], b[("offset", j)], "common offset has no effect", tol=1e-5)
        s.eq(d[("offset", j)], a[("offset", j)] * k, "proportional to the mismatch", tol=1e-5)


def rejects(s):
    f = s.get(T + "predict_spurs")
    g = [s.real("g0", 0.2, 3), s.real("g1", 0.2, 3)]
    s.raises(ValueError, "length mismatch rejected", f, {"gain": g, "offset": [0.0], "skew": [0.0, 0.0]}, 8.0, 1.0)
    s.raises(ValueError, "length mismatch rejected", f, {"gain": g, "offset": [0.0, 0.0], "skew": [0.0, 0.0, 0.0]}, 8.0, 1.0)
    s.raises(ValueError, "missing input frequency rejected", f, {"gain": g, "offset": [0.0, 0.0], "skew": [0.0, 0.0]}, 8.0)


def scenarios():
    r = [Scenario("rejects", rejects)]
    for M, th in ((1, (0.0,)), (2, (0.0, 0.0)), (2, (0.02, -0.05)), (3, (0.0, 0.0, 0.0)), (3, (0.01, -0.1, 0.07)), (4, (0.0,) * 4), (4, (0.03, 0.0, -0.08, 0.1))):
        for via in ("arg", "params", "noA"):
            for db in (True, False):
                t = "quick" if M < 4 or via == "arg" else "thorough"
                if M == 4 and db and any(th):
                    continue
                r.append(Scenario(f"spurs_{M}_{'skew' if any(th) else 'noskew'}_{via}_{'db' if db else 'amp'}", check, tier=t, M=M, th=th, via=via, db=db))
    for rr in (0.07, 0.4375, 1.3):
        r.append(Scenario(f"spurs_4_skew_at_{rr}", check, M=4, th=(0.03, 0.0, -0.08, 0.1), via="arg", db=True, rr=rr))
    for M in (2, 3, 4):
        r.append(Scenario(f"matched_{M}", matched, M=M))
    r.append(Scenario("spurs_5", check, tier="thorough", M=5, th=(0.0, 0.1, -0.1, 0.02, 0.0), via="arg", db=False))
    return r
