"""C12 TI mismatch extraction from a sine."""
import math

from engine.run import Scenario

BOUNDS = ("1..4 channels with 5..8 samples each (16 thorough), coherent tones below and above fs/M; amplitude in [0.01,100], offsets in [-10,10], gains in "
          "[0.2,5] symbolic; input phase and per-channel phase steps from the stated sets (including phases next to +-pi); gain-mean / skew-mean laws for arbitrary samples in [-4,4]")
OUTSIDE = "symbolic skews; frequency estimation when fin is not given"
T = "adctoolbox:"


def recover(s, M, K, j, phi, steps, fs):
    f = s.get(T + "extract_mismatch_sine")
    A = s.real("A", 0.01, 100)
    o = [s.real(f"o{m}", -10, 10) for m in range(M)]
    g = [s.real(f"g{m}", 0.2, 5) for m in range(M)]
    N = M * K
    fin = j * fs / N
    x = [o[n % M] + g[n % M] * A * math.cos(2 * math.pi * j * n / N + phi + steps[n % M]) for n in range(N)]
    a = s.np.array(x)
    r = f(a, M, fs, fin)
    gm = sum(g) / M
    sm = sum(steps) / M
    s.eq(r["fin"], fin, "frequency reported")
    s.eq(r["A"], A * gm, "mean amplitude", scale=A * gm)
    s.same_shape(r["gain"], (M,), "one gain per channel")
    s.same_shape(r["offset"], (M,), "one offset per channel")
    s.same_shape(r["skew"], (M,), "one skew per channel")
    for m in range(M):
        s.eq(r["offset"][m], o[m], "offset recovered", scale=100.0)
        s.eq(r["gain"][m] * gm, g[m], "gain relative to the mean", scale=10.0)
        s.eq(r["skew"][m] * 2 * math.pi * fin, steps[m] - sm, "skew relative to the mean")
    for n in range(N):
        s.eq(a[n], x[n], "input not modified", tol=1e-9, scale=100.0)


def means(s, M, K, j, fs):
    """any samples: gains average to one, skews to zero, offsets are the channel means"""
    f = s.get(T + "extract_mismatch_sine")
    N = M * K
    x = [s.real(f"x{n}", -4, 4) for n in range(N)]
    fin = j * fs / N
    r = f(s.np.array(x), M, fs, fin)
    s.assume(r["A"] > 1e-3)
    s.eq(sum(r["gain"][m] for m in range(M)), M, "gains average to one")
    s.eq(sum(r["skew"][m] for m in range(M)) * fs, 0.0, "skews average to zero")
    for m in range(M):
        s.eq(r["offset"][m], sum(x[k * M + m] for k in range(K)) / K, "offset is the channel mean")


def dead(s, M, K, fs):
    """constant channels carry no tone: unit gains"""
    f = s.get(T + "extract_mismatch_sine")
    o = [s.real(f"o{m}", -4, 4) for m in range(M)]
    r = f(s.np.array([o[n % M] for n in range(M * K)]), M, fs, fs / (M * K))
    s.eq(sum(r["gain"][m] for m in range(M)), M, "gains average to one without a tone")
    s.eq(sum(r["skew"][m] for m in range(M)) * fs, 0.0, "skews average to zero without a tone")
    for m in range(M):
        s.eq(r["offset"][m], o[m], "offset of a constant channel")


def rejects(s):
    f = s.get(T + "extract_mismatch_sine")
    v = [s.real(f"x{n}", -4, 4) for n in range(6)]
    A = s.np.array
    s.raises(ValueError, "2-D rejected", f, A(v).reshape(2, 3), 2, 1.0, 0.1)
    s.raises(ValueError, "bad channel count rejected", f, A(v), 0, 1.0, 0.1)
    s.raises(ValueError, "bad channel count rejected", f, A(v), -2, 1.0, 0.1)
    s.raises(ValueError, "length not a multiple rejected", f, A(v), 4, 1.0, 0.1)


def scenarios():
    r = [Scenario("rejects", rejects)]
    cases = [(1, 5, 1, 0.3, (0.0,)), (2, 5, 1, 0.0, (0.0, 0.0)), (2, 5, 3, 0.7, (0.05, -0.02)), (2, 8, 3, math.pi - 0.01, (0.05, -0.05)),
             (2, 8, 5, -2.0, (-0.3, 0.4)), (3, 5, 2, 1.2, (0.1, 0.0, -0.2)), (3, 5, 7, -math.pi + 0.02, (-0.1, 0.06, 0.0)),
             (4, 5, 1, 2.9, (0.3, -0.1, 0.2, 0.0)), (4, 5, 7, math.pi / 2, (0.0, 0.1, 0.2, 0.3))]
    for M, K, j, phi, st in cases:
        for fs in (1.0, 8.0):
            r.append(Scenario(f"recover_{M}_{K}_{j}_{fs:g}", recover, M=M, K=K, j=j, phi=phi, steps=st, fs=fs))
    r.append(Scenario("recover_4_16", recover, tier="thorough", M=4, K=16, j=11, phi=0.4, steps=(0.0, 0.2, -0.2, 0.1), fs=2.0))
    for M, K, j in ((1, 3, 1), (2, 3, 1), (2, 4, 3)):
        r.append(Scenario(f"means_{M}_{K}_{j}", means, M=M, K=K, j=j, fs=4.0))
    r.append(Scenario("dead", dead, M=2, K=3, fs=4.0))
    return r
