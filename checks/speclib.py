"""Captures with a chosen power spectrum, and the spectrum metrics recomputed from it."""
import math
from fractions import Fraction

import numpy as np
from scipy.signal import windows


def window(kind, N):
    k = kind.lower()
    if k in ("boxcar", "rectangular"):
        return [1.0] * N
    if k == "kaiser":
        w = windows.kaiser(N, beta=38, sym=False)
    elif k == "chebwin":
        w = windows.chebwin(N, at=100, sym=False)
    else:
        w = getattr(windows, k)(N, sym=False)
    return [float(v) for v in w]


def capture(s, P, N, win="boxcar", phases=None, scale=1.0, name_zero=()):
    """samples whose windowed one-sided power in bin k>=1 is P[k] (bins with P[k] None carry nothing).

    Windows that vanish at the first sample get sine components only, so dividing by
    the window is exact; their Nyquist bin then carries nothing."""
    w = window(win, N)
    flat = all(v == 1.0 for v in w)
    mw = sum(v * v for v in w) / N
    y = [0.0] * N
    for k in range(1, N // 2 + 1):
        if P[k] is None:
            continue
        ny = 2 * k == N
        if ny:
            assert flat or abs(w[0]) > 1e-3
            a = s.np.sqrt(P[k] * (mw / 2))
        else:
            a = s.np.sqrt(P[k] * mw)
        ph = math.pi / 2
        if flat and not ny:
            ph = phases[k] if phases else (0.0 if k % 2 else math.pi / 2)
        for n in range(N):
            c = (-1.0) ** n if ny else math.cos(2 * math.pi * k * n / N - ph)
            if abs(c) < 1e-14:
                continue
            y[n] = y[n] + a * c
    out = []
    for n in range(N):
        if abs(w[n]) < 1e-9:
            out.append(0.0)
        else:
            out.append(y[n] * (scale / w[n]))
    return out


def fold(b, N):
    """position of bin b (a Fraction) in the first Nyquist zone"""
    b = b % N
    return N - b if b > Fraction(N, 2) else b


def inband(N, osr):
    return min(int(Fraction(N) / (2 * Fraction(osr).limit_denominator(10 ** 6))) + 1, N // 2 + 1)


def metrics(s, P, N, osr, H, nf, sb, fs, f, M=1, assumed=None, hbins=None, spur=None):
    """metric dictionary from the bin powers P (0.0 for empty bins) with the fundamental in bin f"""
    log = s.np.log10
    n_in = inband(N, osr)
    lo, hi = max(f - sb, 0), min(f + sb + 1, n_in)
    sig = sum(P[k] for k in range(lo, hi))
    r = {"n_in": n_in, "lo": lo, "hi": hi}
    r["sig_pwr_dbfs"] = 10 * log(sig)
    if isinstance(assumed, float) and assumed != assumed:
        assumed = None
    if assumed is not None:
        sig = 10 ** (assumed / 10)
        r["sig_pwr_dbfs"] = assumed
    rest = [k for k in range(n_in) if k > sb and not lo <= k < hi]
    r["rest"] = rest
    noi = sum(P[k] for k in rest)
    r["sndr_dbc"] = 10 * log(sig / (noi + 1e-20))
    r["enob"] = (r["sndr_dbc"] - 1.76) / 6.02
    if hbins is None:
        hbins = [int(fold(Fraction(h * f), N)) for h in range(2, H + 1)]
    r["harmonic_bins"] = hbins
    union, own, coll = set(), [], []
    for h, b in zip(range(2, H + 1), hbins):
        if abs(b - f) <= 2 * sb:
            coll.append(h)
            own.append(1e-15)
        elif b <= sb:
            own.append(1e-15)
        else:
            bs = range(max(b - sb, 0), min(b + sb + 1, N // 2 + 1))
            union |= set(bs)
            own.append(s.np.maximum(sum(P[k] for k in bs), 1e-15))
    r["collided"] = coll
    thd = s.np.maximum(sum(P[k] for k in union), 1e-15) if union else 1e-15
    r["thd_dbc"] = 10 * log(thd / sig)
    r["harmonics_dbc"] = [10 * log(o / sig) for o in own]
    if spur is not None and rest:
        sp = sum(P[k] for k in rest if abs(k - spur) <= sb)
        r["sfdr_dbc"] = 10 * log(sig / sp)
    if nf != 4 and not rest:
        r["snr_dbc"] = "unspecified"
        return r
    if nf == 4:
        keep = [k for k in rest if not any(1 <= b < n_in and abs(k - b) <= sb for b in hbins)]
        noise = sum(P[k] for k in keep) if keep else None
    else:
        live = [P[k] for k in rest if not (isinstance(P[k], float) and P[k] <= 1e-20)] or [P[k] for k in rest]
        mn = 0.72 if M == 1 else (1 - 2 / (9 * M)) ** 3
        n = len(live)
        med = s.np.median(s.np.array(live)) / mn * n_in
        a, b = max(1, n * 5 // 100), max(1, n * 95 // 100)
        srt = s.np.sort(s.np.array(live))
        seg = [srt[i] for i in range(a - 1, min(max(a, b), n))]
        trim = sum(seg) / len(seg) * n_in
        exc = sum(P[k] for k in rest if k not in hbins)
        noise = {0: lambda: s.np.median(s.np.array([med, trim, exc])), 1: lambda: med, 2: lambda: trim, 3: lambda: exc}[nf]()
    if noise is None:
        r["snr_dbc"] = None
    else:
        noise = s.np.maximum(noise, 1e-15)
        r["snr_dbc"] = 10 * log(sig / noise)
        r["noise_floor_dbfs"] = r["sig_pwr_dbfs"] - r["snr_dbc"]
        r["nsd_dbfs_hz"] = r["noise_floor_dbfs"] - 10 * log(fs / (2 * osr))
    return r
