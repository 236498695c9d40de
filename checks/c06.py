"""C06 weight mismatch models."""
from engine.run import Scenario

BOUNDS = "1 to 4 weights, each any real in [1e-3,1e3]; unit counts any real in [1e-2,1e3]; sigma any real in [0,1]; draws any real in [-4,4]"
OUTSIDE = "longer vectors; the distribution of the random generator itself"
T = "adctoolbox:"


def prep(s, n):
    s.opt["minmax"] = "fork"
    w = [s.real(f"w{i}", 1e-3, 1e3) for i in range(n)]
    return w, s.np.array(w)


def cap(s, n, given, default_rng):
    f = s.get(T + "sar_apply_cap_mismatch")
    w, W = prep(s, n)
    sg = s.real("sg", 0, 1)
    kw = {} if default_rng else {"rng": s.rng()}
    if given:
        u = [s.real(f"u{i}", 1e-2, 1e3) for i in range(n)]
        U = s.np.array(u)
        kw["cap_units"] = U
    out = f(W, sg, **kw)
    d = s.draws()
    s.same_shape(out, (n,), "one weight out per weight in")
    s.true(len(d) >= n, "a draw per weight")
    wmin = w[0]
    for x in w[1:]:
        wmin = x if s.holds(x < wmin) else wmin
    for i in range(n):
        units = u[i] if given else w[i] / wmin
        s.eq((out[i] - w[i]) ** 2 * units, (w[i] * sg * d[i]) ** 2, "spread is sigma over root units", scale=w[i] * w[i] * units)
        s.true(s.Implies(d[i] * sg > 0.001, out[i] >= w[i]), "sign follows the draw")
        s.true(s.Implies(d[i] * sg < -0.001, out[i] <= w[i]), "sign follows the draw")
        s.eq(W[i], w[i], "weights not modified")
        if given:
            s.eq(U[i], u[i], "units not modified")


def cap_zero(s, n, given):
    f = s.get(T + "sar_apply_cap_mismatch")
    w, W = prep(s, n)
    kw = {"rng": s.rng()}
    if given:
        kw["cap_units"] = s.np.array([s.real(f"u{i}", 1e-2, 1e3) for i in range(n)])
    out = f(W, 0.0, **kw)
    for i in range(n):
        s.eq(out[i], w[i], "sigma zero leaves the weights")


def flatm(s, n, default_rng):
    f = s.get(T + "sar_apply_mismatch")
    w = [s.real(f"w{i}", -1e3, 1e3) for i in range(n)]
    W = s.np.array(w)
    sg = s.real("sg", 0, 1)
    out = f(W, sg) if default_rng else f(W, sg, s.rng())
    d = s.draws()
    s.same_shape(out, (n,), "one weight out per weight in")
    for i in range(n):
        s.eq(out[i], w[i] * (1 + sg * d[i]), "flat mismatch law", scale=1e3)
        s.eq(W[i], w[i], "weights not modified")
    out0 = f(W, 0.0, s.rng())
    for i in range(n):
        s.eq(out0[i], w[i], "sigma zero leaves the weights", scale=1e3)


def rejects(s):
    f = s.get(T + "sar_apply_cap_mismatch")
    p, q = s.real("p", 1e-3, 10), s.real("q", 1e-3, 10)
    bad = s.real("bad", -10, 0)
    neg = s.real("neg", -10, -1e-6)
    a = s.np.array
    g = s.rng()
    inf, nan = float("inf"), float("nan")
    ok = a([p, q])
    for pos in (0, 1):
        v = [p, q]
        for b in (bad, inf, nan):
            v[pos] = b
            s.raises(ValueError, "bad weight rejected", f, a(v), 0.1, g)
            s.raises(ValueError, "bad unit count rejected", f, ok, 0.1, g, a(v))
    for b in (neg, inf, nan):
        s.raises(ValueError, "bad sigma rejected", f, ok, b, g)
    s.raises(ValueError, "empty weights rejected", f, a([]), 0.1, g)
    s.raises(ValueError, "2-D weights rejected", f, a([[p, q]]), 0.1, g)
    s.raises(ValueError, "scalar weight rejected", f, p, 0.1, g)
    s.raises(ValueError, "unit count shape rejected", f, ok, 0.1, g, a([p]))
    s.raises(ValueError, "unit count shape rejected", f, ok, 0.1, g, a([p, q, p]))
    s.raises(ValueError, "unit count shape rejected", f, ok, 0.1, g, a([[p, q]]))


def scenarios():
    r = [Scenario("rejects", rejects)]
    for n in (1, 2, 3, 4):
        for g in (True, False):
            r.append(Scenario(f"cap{n}_{'given' if g else 'inferred'}", cap, n=n, given=g, default_rng=False))
        r.append(Scenario(f"flat{n}", flatm, n=n, default_rng=False))
    r += [Scenario("cap3_default", cap, n=3, given=False, default_rng=True), Scenario("flat3_default", flatm, n=3, default_rng=True),
          Scenario("zero3", cap_zero, n=3, given=False), Scenario("zero3g", cap_zero, n=3, given=True)]
    return r
