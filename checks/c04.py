"""C04 capacitor array weights = charge-sharing network."""
from engine.run import Scenario

BOUNDS = ("1 to 4 bits in the quick tier, 5 in the thorough tier; every bit, bridge and parasitic capacitance any real in [0,64] "
          "(zero included, so every pattern of bridges, parasitics and dead nodes); scale factor any real in [0.01,100]")
OUTSIDE = "longer arrays; negative capacitances"


def det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    tot = 0
    for j in range(n):
        if isinstance(m[0][j], int) and m[0][j] == 0:
            continue
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        tot = tot + (m[0][j] * det(sub) if j % 2 == 0 else -(m[0][j] * det(sub)))
    return tot


def caps(s, n, par):
    cd = [s.real(f"cd{i}", 0, 64) for i in range(n)]
    cb = [s.real(f"cb{i}", 0, 64) for i in range(n)]
    cp = [s.real(f"cp{i}", 0, 64) if par else 0.0 for i in range(n)]
    # tiny non-zero values only test float rounding
    for v in cd + cb + (cp if par else []):
        s.assume(s.any(v == 0, v >= 1 / 64))
    return cd, cb, cp


def network(s, n, par):
    f = s.get("adctoolbox.fundamentals.convert_cap_to_weight:convert_cap_to_weight")
    cd, cb, cp = caps(s, n, par)
    w, tot = f(s.np.array(cd), s.np.array(cb), s.np.array(cp))
    s.same_shape(w, (n,), "one weight per bit")
    # electrical nodes: a zero bridge joins neighbours
    node, k = [], 0
    for i in range(n):
        node.append(k)
        if i < n - 1 and s.holds(cb[i] > 0):
            k += 1
    m = k + 1
    L = [[0] * m for _ in range(m)]
    for i in range(n):
        a = node[i]
        L[a][a] = L[a][a] + cd[i] + cp[i]
        if i < n - 1 and node[i + 1] != a:
            b = node[i + 1]
            L[a][a] = L[a][a] + cb[i]
            L[b][b] = L[b][b] + cb[i]
            L[a][b] = L[a][b] - cb[i]
            L[b][a] = L[b][a] - cb[i]
    allc = 0
    for v in cd + cp:
        allc = allc + v
    if not s.holds(allc > 0):
        for i in range(n):
            s.eq(w[i], 0.0, "dead array has zero weights")
        s.eq(tot, 0.0, "dead array has zero capacitance")
        return
    D = det(L)
    o = m - 1
    total = 0
    for i in range(n):
        # voltage at the output node for a unit step on bit i (Cramer)
        A = [row[:] for row in L]
        for r in range(m):
            A[r][o] = cd[i] if r == node[i] else 0
        s.eq(w[i] * D, det(A), "weight solves the network", scale=D)
        if n < 4:       # a consequence of the network law
            s.ge(w[i], 0.0, "weight not negative")
        total = total + w[i]
    if n < 4:
        s.le(total, 1.0, "weights sum to at most one")
    if not par:
        s.eq(total, 1.0, "weights sum to one without parasitics")
    D1 = det([row[:o] for row in L[:o]])
    if s.holds(cb[n - 1] > 0):       # output terminal behind the last bridge
        s.eq(tot * (cb[n - 1] * D1 + D), cb[n - 1] * D, "capacitance at the output", scale=(cb[n - 1] * D1 + D) * 64)
    else:
        s.eq(tot * D1, D, "capacitance at the output", scale=D1 * 64)


def scaling(s, n):
    f = s.get("adctoolbox.fundamentals.convert_cap_to_weight:convert_cap_to_weight")
    cd, cb, cp = caps(s, n, True)
    k = s.real("k", 0.01, 100)
    w, tot = f(s.np.array(cd), s.np.array(cb), s.np.array(cp))
    w2, tot2 = f(s.np.array([k * x for x in cd]), s.np.array([k * x for x in cb]), s.np.array([k * x for x in cp]))
    for i in range(n):
        s.eq(w2[i], w[i], "weights unchanged by scaling")
    s.eq(tot2, k * tot, "total scales", scale=64 * k)


def nolists(s):
    """lists are accepted, inputs are not modified, lengths are checked"""
    f = s.get("adctoolbox.fundamentals.convert_cap_to_weight:convert_cap_to_weight")
    cd, cb, cp = caps(s, 3, True)
    a, b, c = s.np.array(cd), s.np.array(cb), s.np.array(cp)
    w, t = f(a, b, c)
    w2, t2 = f(cd, cb, cp)
    for i in range(3):
        s.eq(w[i], w2[i], "list equals array")
        s.eq(a[i], cd[i], "inputs untouched")
        s.eq(b[i], cb[i], "inputs untouched")
        s.eq(c[i], cp[i], "inputs untouched")
    s.raises(ValueError, "length mismatch rejected", f, a, b[:2], c)
    s.raises(ValueError, "length mismatch rejected", f, a, b, c[:2])
    s.raises(ValueError, "length mismatch rejected", f, a[:2], b, c)


def scenarios():
    r = []
    for n in (1, 2, 3, 4, 5):
        t = "quick" if n < 5 else "thorough"
        for par in (True, False):
            r.append(Scenario(f"network{n}_{'par' if par else 'nopar'}", network, tier=t, n=n, par=par, max_paths=2000))
        if n < 4:
            r.append(Scenario(f"scaling{n}", scaling, tier=t, n=n))
    r.append(Scenario("lists", nolists))
    return r
