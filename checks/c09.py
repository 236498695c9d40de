"""C09 interleave / deinterleave."""
from engine.run import Scenario

BOUNDS = "all sample values; channel counts 1..6, 0..5 samples per channel; rejected shapes of 0, 2 and 3 dimensions, channel counts -3..0, every non-multiple length up to 12"
OUTSIDE = "larger sizes (the code is data-independent in the size)"
T = "adctoolbox:"


def roundtrip(s, M, K, as_list=False):
    d, i = s.get(T + "deinterleave"), s.get(T + "interleave")
    x = [s.real(f"x{n}") for n in range(M * K)]
    a = x if as_list else s.np.array(x)
    c = d(a, M)
    s.same_shape(c, (M, K), "one row per channel")
    for m in range(M):
        for k in range(K):
            s.eq(c[m, k], x[k * M + m], "sample n goes to channel n mod M in time order", tol=1e-12)
    y = i(c)
    s.same_shape(y, (M * K,), "restored length")
    for n in range(M * K):
        s.eq(y[n], x[n], "interleave restores the stream", tol=1e-12)
    ch = [[x[m * K + k] for k in range(K)] for m in range(M)]
    z = i(ch if as_list else s.np.array(ch).reshape(M, K))
    s.same_shape(z, (M * K,), "interleaved length")
    for m in range(M):
        for k in range(K):
            s.eq(z[k * M + m], ch[m][k], "channels merge in turn", tol=1e-12)
    b = d(z, M)
    for m in range(M):
        for k in range(K):
            s.eq(b[m, k], ch[m][k], "deinterleave restores the channels", tol=1e-12)


def rejects(s):
    d, i = s.get(T + "deinterleave"), s.get(T + "interleave")
    v = [s.real(f"x{n}", -1, 1) for n in range(12)]
    A = s.np.array
    for M in (0, -1, -2, -3):
        s.raises(ValueError, "non-positive channel count rejected", d, A(v), M)
    for n in range(1, 13):
        for M in range(2, 8):
            if n % M:
                s.raises(ValueError, "length not a multiple rejected", d, A(v[:n]), M)
    s.raises(ValueError, "2-D stream rejected", d, A(v).reshape(3, 4), 2)
    s.raises(ValueError, "2-D stream rejected", d, A(v).reshape(1, 12), 2)
    s.raises(ValueError, "2-D stream rejected", d, A(v).reshape(12, 1), 2)
    s.raises(ValueError, "3-D stream rejected", d, A(v).reshape(3, 2, 2), 2)
    s.raises(ValueError, "scalar stream rejected", d, v[0], 1)
    s.raises(ValueError, "1-D channels rejected", i, A(v))
    s.raises(ValueError, "3-D channels rejected", i, A(v).reshape(3, 2, 2))
    s.raises(ValueError, "scalar channels rejected", i, v[0])


def scenarios():
    r = [Scenario("rejects", rejects)]
    for M in range(1, 7):
        for K in range(1, 6):
            r.append(Scenario(f"round_{M}_{K}", roundtrip, M=M, K=K))
    r.append(Scenario("round_list", roundtrip, M=3, K=2, as_list=True))
    return r
