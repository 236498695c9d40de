"""C22 sine fit: least-squares optimum at a fixed frequency, self-consistent report in every mode."""
import math

from engine.run import Scenario

BOUNDS = ("records of 5..16 samples with every value in [-8,8], 1..3 columns; fixed frequencies on and off bins; exact sines of every amplitude, phase and offset at those frequencies with 0..5 refinement steps allowed; "
          "refinement of arbitrary records with up to 3 steps, where each refinement step may return any coefficient vector; start frequencies given or found from the spectrum of an on-bin tone")
OUTSIDE = "longer records, convergence of the refinement from a wrong start frequency, frequencies at 0 or 0.5"
ASSUMPTIONS = ["in the refinement scenarios the least-squares solution of a system whose matrix depends on the data is an unconstrained vector"]
F = "adctoolbox:fit_sine_4param"
ALIAS = "adctoolbox.common:fit_sine"
EST = "adctoolbox:estimate_frequency"


def consistent(s, r, y, N, scale=8.0, col=None):
    g = (lambda k: r[k]) if col is None else (lambda k: r[k][col])
    a = (lambda k, n: r[k][n]) if col is None else (lambda k, n: r[k][n, col])
    f, A, ph, C = g("frequency"), g("amplitude"), g("phase"), g("dc_offset")
    ss = 0.0
    pos = bool(A > 0)
    for n in range(N):
        fit, res = a("fitted_signal", n), a("residuals", n)
        s.eq(fit, A * s.math.cos(2 * math.pi * f * n + ph) + C if pos else C, "the fitted signal is the reported sine", scale=scale)
        s.eq(res, y[n] - fit, "residual is data minus fit", scale=scale)
        ss = ss + res * res
    s.eq(g("rmse") * g("rmse"), ss / N, "RMSE is the residual's RMS", scale=scale)
    s.ge(g("rmse"), 0.0, "RMSE is not negative")
    s.ge(A, 0.0, "amplitude is not negative")


def fixed(s, N, f, M=0, fn_name=F):
    """no refinement: linear least squares"""
    Y = [[s.real(f"y{m}_{n}", -8, 8) for n in range(N)] for m in range(max(M, 1))]
    x = s.np.array([[Y[m][n] for m in range(M)] for n in range(N)]) if M else s.np.array(Y[0])
    r = s.get(fn_name)(x, frequency_estimate=f, max_iterations=0)
    for m in range(max(M, 1)):
        col = m if M else None
        y = Y[m]
        g = (lambda k: r[k]) if col is None else (lambda k: r[k][col])
        res = [r["residuals"][n] if col is None else r["residuals"][n, col] for n in range(N)]
        s.eq(sum(res), 0.0, "residual is orthogonal to the constant", scale=8.0)
        s.eq(sum(res[n] * math.cos(2 * math.pi * f * n) for n in range(N)), 0.0, "residual is orthogonal to the cosine", scale=8.0)
        s.eq(sum(res[n] * math.sin(2 * math.pi * f * n) for n in range(N)), 0.0, "residual is orthogonal to the sine", scale=8.0)
        consistent(s, r, y, N, col=col)
        s.eq(g("frequency"), f, "fixed frequency is kept")
        s.eq(g("initial_frequency"), f, "initial frequency is reported")
        s.true(g("converged"), "nothing to refine counts as converged")
        s.true(g("n_iterations") == 0, "no refinement step is counted")
        s.eq(g("last_delta_freq"), 0.0, "no frequency update")


def exact(s, N, f, it, M=0, tol=1e-9):
    """a pure sine at the given frequency is recovered whatever the number of refinement steps"""
    P = []
    for m in range(max(M, 1)):
        a, b = s.real(f"a{m}", -4, 4), s.real(f"b{m}", -4, 4)
        c = s.real(f"c{m}", -4, 4)
        s.assume(a * a + b * b >= 0.01)
        P.append((a, b, c))
    Y = [[a * math.cos(2 * math.pi * f * n) + b * math.sin(2 * math.pi * f * n) + c for n in range(N)] for a, b, c in P]
    x = s.np.array([[Y[m][n] for m in range(M)] for n in range(N)]) if M else s.np.array(Y[0])
    kw = {} if it is None else {"max_iterations": it}
    r = s.get(F)(x, frequency_estimate=f, tolerance=tol, **kw)
    for m, (a, b, c) in enumerate(P):
        g = (lambda k: r[k][m]) if M else (lambda k: r[k])
        A, ph = g("amplitude"), g("phase")
        s.eq(A * A, a * a + b * b, "amplitude of a pure sine", scale=10.0)
        s.eq(A * s.math.cos(ph), a, "phase of a pure sine", scale=10.0)
        s.eq(-A * s.math.sin(ph), b, "phase of a pure sine", scale=10.0)
        s.eq(g("dc_offset"), c, "offset of a pure sine", scale=10.0)
        s.eq(g("frequency"), f, "frequency of a pure sine")
        for n in range(N):
            s.eq(r["residuals"][n, m] if M else r["residuals"][n], 0.0, "no residual for a pure sine", scale=10.0)
        s.true(g("converged"), "a pure sine converges")
        s.true(g("n_iterations") == min(1 if it is None else it, 1), "one step is enough for a pure sine")


def refine(s, N, f, it, tol, M=0, fn_name=F):
    """arbitrary data, arbitrary refinement coefficients: the report is consistent"""
    s.opt["lstsq"] = "free"
    Y = [[s.real(f"y{m}_{n}", -8, 8) for n in range(N)] for m in range(max(M, 1))]
    x = s.np.array([[Y[m][n] for m in range(M)] for n in range(N)]) if M else s.np.array(Y[0])
    r = s.get(fn_name)(x, frequency_estimate=f, max_iterations=it, tolerance=tol)
    for m in range(max(M, 1)):
        col = m if M else None
        g = (lambda k: r[k]) if col is None else (lambda k: r[k][col])
        consistent(s, r, Y[m], N, col=col)
        fr, d, k = g("frequency"), g("last_delta_freq"), g("n_iterations")
        s.true(s.all([fr > 0.0, fr < 0.5]), "refined frequency stays inside (0, 0.5)")
        s.eq(g("initial_frequency"), f, "initial frequency is reported")
        s.true(s.all([k >= 1, k <= it]), "iteration count within the limit")
        conv = bool(g("converged"))
        s.true(s.abs(d) < tol if conv else s.abs(d) >= tol, "convergence flag tells whether the last update was small")
        if not conv:
            s.true(k == it, "an unconverged fit used all its iterations")
        if it == 1:
            s.eq(fr, s.np.clip(f + d, 1e-10, 0.5 - 1e-10), "the update is applied to the frequency")


def step(s, N, f, tol=1e-9):
    """one refinement step solves the linearised problem: residual of data against the four columns is orthogonal to them"""
    a, b, c, e = s.real("a", 0.5, 2), 0.3, s.real("c", -2, 2), s.real("e", -0.05, 0.05)
    y = [a * math.cos(2 * math.pi * f * n) + b * math.sin(2 * math.pi * f * n) + c + e * (1.0 if n == N - 1 else 0.0) for n in range(N)]
    r = s.get(F)(s.np.array(y), frequency_estimate=f, max_iterations=1, tolerance=tol)
    import numpy as np
    D = np.array([[math.cos(2 * math.pi * f * n), math.sin(2 * math.pi * f * n), 1.0] for n in range(N)])
    P = np.linalg.pinv(D)
    Q = np.eye(N) - D @ P
    a0, b0 = (sum(float(P[j, n]) * y[n] for n in range(N)) for j in (0, 1))
    col = [n * (-a0 * float(D[n, 1]) + b0 * float(D[n, 0])) for n in range(N)]
    q = [sum(float(Q[i, n]) * col[n] for n in range(N)) for i in range(N)]
    d = r["last_delta_freq"] * (2 * math.pi)
    s.eq(d * sum(v * v for v in q), sum(q[n] * y[n] for n in range(N)), "a refinement step is the linearised least-squares optimum", scale=10.0)
    x = [sum(float(P[j, n]) * (y[n] - d * col[n]) for n in range(N)) for j in range(3)]
    s.eq(r["dc_offset"], x[2], "offset of a refinement step", scale=10.0)
    s.eq(r["fitted_signal"][0], x[0] + x[2], "first sample of the refined fit", scale=10.0)


def columns(s, N, M, f, it):
    """several columns equal each column alone"""
    s.opt["lstsq"] = "free"
    Y = [[s.real(f"y{m}_{n}", -8, 8) for n in range(N)] for m in range(M)]
    x = s.np.array([[Y[m][n] for m in range(M)] for n in range(N)])
    r = s.get(F)(x, frequency_estimate=f, max_iterations=it, tolerance=1e-3)
    s.true(tuple(r["fitted_signal"].shape) == (N, M) and tuple(r["residuals"].shape) == (N, M), "one column per input column")
    for m in range(M):
        q = s.get(F)(s.np.array(Y[m]), frequency_estimate=f, max_iterations=it, tolerance=1e-3)
        for k in ("frequency", "amplitude", "phase", "dc_offset", "rmse", "last_delta_freq", "initial_frequency", "n_iterations"):
            s.true(tuple(r[k].shape) == (M,), "one value per column")
            s.eq(r[k][m], q[k], "a column is fitted as if alone: " + k)
        s.true(bool(r["converged"][m]) == bool(q["converged"]), "a column is fitted as if alone: converged")
        for n in range(N):
            s.eq(r["fitted_signal"][n, m], q["fitted_signal"][n], "a column is fitted as if alone: signal")
            s.eq(r["residuals"][n, m], q["residuals"][n], "a column is fitted as if alone: residual")


def search(s, N, k, fs, est=False):
    """start frequency from the spectrum: an on-bin tone is found exactly"""
    a, b, c = s.real("a", -4, 4), s.real("b", -4, 4), s.real("c", -4, 4)
    s.assume(a * a + b * b >= 0.01)
    f = k / N
    y = s.np.array([a * math.cos(2 * math.pi * f * n) + b * math.sin(2 * math.pi * f * n) + c for n in range(N)])
    if est:
        s.eq(s.get(EST)(y, fs=fs), f * fs, "estimated frequency of an on-bin tone", scale=fs)
        s.eq(s.get(EST)(y, frequency_estimate=f, fs=fs), f * fs, "estimated frequency of an on-bin tone", scale=fs)
        return
    r = s.get(F)(y)
    s.eq(r["frequency"], f, "frequency of an on-bin tone")
    s.eq(r["initial_frequency"], f, "start frequency of an on-bin tone")
    s.eq(r["amplitude"] * r["amplitude"], a * a + b * b, "amplitude of an on-bin tone", scale=10.0)
    s.eq(r["dc_offset"], c, "offset of an on-bin tone", scale=10.0)
    for n in range(N):
        s.eq(r["residuals"][n], 0.0, "no residual for an on-bin tone", scale=10.0)


def dims(s):
    f = s.get(F)
    s.raises(ValueError, "three-dimensional input rejected", lambda: f(s.np.zeros((3, 2, 2))))
    s.raises(ValueError, "scalar input rejected", lambda: f(s.np.array(1.0)))


def scenarios():
    r = [Scenario("dims", dims)]
    for N, f in ((5, 0.2), (6, 0.11), (7, 0.37), (8, 0.25), (9, 0.05), (12, 0.4531), (16, 3 / 16), (8, 0.7), (10, -0.15)):
        r.append(Scenario(f"fixed_{N}_{f:.3f}", fixed, N=N, f=f))
    r.append(Scenario("fixed_alias", fixed, N=7, f=0.13, fn_name=ALIAS))
    for N, M, f in ((6, 1, 0.2), (6, 2, 0.13), (5, 3, 0.31)):
        r.append(Scenario(f"fixed_cols_{N}_{M}", fixed, N=N, f=f, M=M))
    for N, f in ((6, 0.11), (8, 0.125), (9, 0.4), (16, 0.2734)):
        for it in (0, 1, None, 3, 5):
            r.append(Scenario(f"exact_{N}_{f}_{it}", exact, N=N, f=f, it=it))
    r.append(Scenario("exact_cols", exact, N=7, f=0.21, it=1, M=2))
    for N, f, it, tol in ((5, 0.2, 1, 1e-9), (6, 0.11, 1, 1e-3), (6, 0.37, 2, 1e-3), (5, 0.23, 3, 1e-2), (7, 0.45, 1, 0.5), (5, 0.05, 2, 1e-9)):
        r.append(Scenario(f"refine_{N}_{f}_{it}", refine, N=N, f=f, it=it, tol=tol))
    r.append(Scenario("refine_cols", refine, N=5, f=0.2, it=1, tol=1e-3, M=2))
    r.append(Scenario("refine_alias", refine, N=5, f=0.2, it=1, tol=1e-3, fn_name=ALIAS))
    for N, f in ((5, 0.2), (6, 0.13), (7, 0.31)):
        r.append(Scenario(f"step_{N}", step, N=N, f=f))
    r.append(Scenario("columns_2", columns, N=5, M=2, f=0.2, it=2))
    r.append(Scenario("columns_3", columns, N=5, M=3, f=0.31, it=0))
    for N, k in ((8, 1), (8, 2), (8, 3), (9, 2), (12, 5), (15, 6), (16, 3)):
        r.append(Scenario(f"search_{N}_{k}", search, N=N, k=k, fs=1.0))
        r.append(Scenario(f"estimate_{N}_{k}", search, N=N, k=k, fs=100.0 + N, est=True))
    return r
