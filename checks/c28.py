"""Benchmark functions."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, rng, same

RULE = "Random inputs (edges, single rows, extra columns), parameters of the functions, and invalid values; non-trivial = parameters off their defaults, or a function without any."

FUNCS = ["ishigami", "g", "linear1", "linear2", "lake", "oakley"]


@st.composite
def cases(draw):
    f = draw(st.sampled_from(FUNCS))
    c = {"f": f, "N": draw(st.one_of(st.integers(1, 30), st.integers(1, 30), st.integers(1, 30), st.sampled_from([257, 1030]))), "seed": draw(SMALL_SEEDS), "default": draw(st.integers(0, 3)) == 0, "edges": draw(st.booleans())}
    if f == "ishigami":
        c.update(A=draw(st.floats(-10, 10)), B=draw(st.floats(-2, 2)), extra=draw(st.integers(0, 2)))
    if f == "g":
        D = draw(st.integers(1, 12))
        c.update(a=draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0, 4.5, 9.0, 99.0]), st.floats(0, 50)), min_size=D, max_size=D)),
                 delta=draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)), min_size=D, max_size=D))),
                 alpha=draw(st.one_of(st.none(), st.lists(st.floats(0.1, 4), min_size=D, max_size=D))), ints=draw(st.booleans()))
    if f == "linear1":
        c["D"] = draw(st.integers(1, 9))
    if f == "linear2":
        c["D"] = draw(st.integers(5, 7))
    if f == "oakley":
        c["D"] = draw(st.sampled_from([1, 2, 5, 15]))
    return c


def unit(case, D):
    r = rng(case["seed"])
    U = r.random((case["N"], D))
    if case["edges"]:
        U = np.where(r.random(U.shape) < 0.3, r.choice([0.0, 1.0, 0.5], size=U.shape), U)
    return U


def g_parts(case):
    if case["default"]:
        return np.array([0, 1, 4.5, 9, 99, 99, 99, 99]), None, None
    a = np.array(case["a"])
    return a, (None if case["delta"] is None else np.array(case["delta"])), (None if case["alpha"] is None else np.array(case["alpha"]))


@sub("C28", cases(), quick=3000, rule="parameters off their defaults, or a function without any")
def functions_compute_their_formula(case, t):
    """Each row's output is the published formula of that row alone."""
    from SALib.test_functions import Ishigami, Sobol_G, lake_problem, linear_model_1, linear_model_2, oakley2004

    f, r = case["f"], rng(case["seed"] + 1)
    if f == "ishigami":
        X = (unit(case, 3 + case["extra"]) - 0.5) * 2 * (np.pi if case["seed"] % 2 else 12.0)
        A, B = (7.0, 0.1) if case["default"] else (case["A"], case["B"])
        call = (lambda x: Ishigami.evaluate(x)) if case["default"] else (lambda x: Ishigami.evaluate(x, A, B))
        want = [np.sin(x[0]) * (1 + B * x[2] ** 4) + A * np.sin(x[1]) ** 2 for x in X]
    elif f == "g":
        a, d, al = g_parts(case)
        D = len(a)
        X = unit(case, D)
        if case["ints"] and not case["default"]:
            a = np.round(a).astype(int)
        call = (lambda x: Sobol_G.evaluate(x)) if case["default"] else (lambda x: Sobol_G.evaluate(x, a, d, al))
        dd = np.zeros(D) if d is None else d
        aa = np.ones(D) if al is None else al
        want = []
        for x in X:
            y = 1.0
            for i in range(D):
                s = x[i] + dd[i]
                s = s - np.floor(s)
                y *= ((1 + aa[i]) * abs(2 * s - 1) ** aa[i] + a[i]) / (1 + a[i])
            want.append(y)
    elif f == "linear1":
        X = (unit(case, case["D"]) - 0.4) * 7
        call = linear_model_1.evaluate
        want = [sum(x) for x in X]
    elif f == "linear2":
        X = (unit(case, case["D"]) - 0.4) * 7
        call = linear_model_2.evaluate
        want = [5 * x[0] + 4 * x[1] + 3 * x[2] + 2 * x[3] + x[4] for x in X]
    elif f == "lake":
        X = unit(case, 5) * [2.0, 0.1, 2.5, 0.35, 0.05] + [0.0, 0.0, 2.0, 0.1, 0.0]
        if case["default"]:
            X[:, 1:] = [0.1, 2.0, 0.42, 0.02]
            call = lambda x: lake_problem.lake_problem(x[:, 0])  # noqa: E731
        else:
            call = lambda x: lake_problem.lake_problem(*x.T)  # noqa: E731
        want = [x + a + x**q / (1 + x**q) - b * x + e for x, a, q, b, e in X]
    else:
        D = case["D"]
        X = r.normal(size=(case["N"], D))
        A, M = r.normal(size=(3, D)), r.normal(size=(D, D))
        call = lambda x: oakley2004.evaluate(x, A, M)  # noqa: E731
        want = [sum(A[0] * x) + sum(A[1] * np.sin(x)) + sum(A[2] * np.cos(x)) + sum(M[i, j] * x[i] * x[j] for i in range(D) for j in range(D)) for x in X]
    keep = X.copy()
    Y = np.asarray(call(X))
    want = np.array(want)
    require(np.array_equal(X, keep), "{}: the inputs were changed", f)
    same(Y, want, f, 1e-9, 1e-9 * (1 + np.abs(want).max()))
    k = case["seed"] % len(X)
    same(np.asarray(call(X[k : k + 1])), want[k : k + 1], f + " of one row", 1e-9, 1e-9 * (1 + np.abs(want).max()))
    t.nontrivial(not case["default"] or f in ("linear1", "linear2", "oakley"))
    t.label(f)


@st.composite
def g_cases(draw):
    D = draw(st.integers(1, 10))
    return {
        "a": draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0, 9.0, 99.0]), st.floats(0, 20)), min_size=D, max_size=D)),
        "alpha": draw(st.one_of(st.none(), st.lists(st.floats(0.2, 4), min_size=D, max_size=D))),
        "list": draw(st.booleans()),
    }


@sub("C28", g_cases(), quick=1000, rule="at least two factors")
def analytic_indices_are_those_of_the_function(case, t):
    """sensitivity_index and total_sensitivity_index are the indices of the
    product function, with the variance of each factor integrated numerically."""
    from SALib.test_functions import Sobol_G

    a = np.array(case["a"])
    D = len(a)
    al = np.ones(D) if case["alpha"] is None else np.array(case["alpha"])
    # E over x of g_i and g_i^2 with u = |2x - 1| uniform on [0, 1], u = v^8
    v, w = np.polynomial.legendre.leggauss(60)
    v, w = (v + 1) / 2, w / 2
    u, w = v**8, w * 8 * v**7
    V = []
    for i in range(D):
        g = ((1 + al[i]) * u ** al[i] + a[i]) / (1 + a[i])
        m = (g * w).sum()
        V.append((g * g * w).sum() - m * m)
    V = np.array(V)
    tot = np.prod(1 + V) - 1
    arg = case["a"] if case["list"] else a
    kw = () if case["alpha"] is None else (al,)
    same(Sobol_G.sensitivity_index(arg, *kw), V / tot, "first order indices", 1e-6, 1e-9)
    ST = np.array([V[i] * np.prod([1 + V[j] for j in range(D) if j != i]) / tot for i in range(D)])
    same(Sobol_G.total_sensitivity_index(arg, *kw), ST, "total indices", 1e-6, 1e-9)
    t.nontrivial(D > 1)


@st.composite
def bad_cases(draw):
    return {
        "kind": draw(st.sampled_from(["low", "high", "list", "tuple", "delta<0", "delta>1", "delta list", "alpha=0", "alpha<0", "alpha list", "ok"])),
        "D": draw(st.integers(1, 8)), "N": draw(st.integers(1, 10)), "seed": draw(SMALL_SEEDS), "by": draw(st.sampled_from([1e-9, 0.01, 1.0])),
    }


@sub("C28", bad_cases(), quick=600, rule="the arguments are invalid")
def g_function_refuses_what_is_outside_its_domain(case, t):
    from SALib.test_functions import Sobol_G

    r, D, k = rng(case["seed"]), case["D"], case["kind"]
    X = r.random((case["N"], D))
    a, d, al = r.random(D) * 9, r.random(D), r.random(D) + 0.5
    i, j = int(r.integers(case["N"])), int(r.integers(D))
    exc = ValueError
    if k == "low":
        X[i, j] = -case["by"]
    elif k == "high":
        X[i, j] = 1 + case["by"]
    elif k in ("list", "tuple"):
        X, exc = (list(X) if k == "list" else tuple(X)), TypeError
    elif k == "delta<0":
        d[j] = -case["by"]
    elif k == "delta>1":
        d[j] = 1 + case["by"]
    elif k == "delta list":
        d, exc = list(d), TypeError
    elif k == "alpha=0":
        al[j] = 0.0
    elif k == "alpha<0":
        al[j] = -case["by"]
    elif k == "alpha list":
        al, exc = list(al), TypeError
    if k == "ok":
        require(np.all(np.isfinite(Sobol_G.evaluate(X, a, d, al))), "not finite")
        return
    t.nontrivial()
    try:
        Sobol_G.evaluate(X, a, d, al)
    except exc:
        return
    fail("{}: accepted", k)


@st.composite
def lake_cases(draw):
    return {"N": draw(st.integers(2, 60)), "seed": draw(st.one_of(st.none(), SMALL_SEEDS)), "dseed": draw(SMALL_SEEDS), "wide": draw(st.sampled_from([1, 1, 5, 20]))}


@sub("C28", lake_cases(), quick=400, rule="at least 10 samples")
def lake_simulation_is_the_recurrence(case, t):
    """evaluate_lake iterates lake_problem from zero for every sample with one
    log-normal inflow each, drawn from the seed; its mean and deviation are the
    declared ones."""
    from SALib.test_functions import lake_problem as lp

    N = case["N"]
    r = rng(case["dseed"])
    X = r.random((N, 5)) * [0.1, 2.5, 0.35, 0.04, 0.004] + [0.0, 2.0, 0.1, 0.01, 0.001]
    X[:, 4] *= case["wide"]
    kw = {} if case["seed"] is None else {"seed": case["seed"]}
    Y = lp.evaluate_lake(X.copy(), **kw)
    require(Y.shape == (N, N), "shape {}", Y.shape)
    a, q, b, m, s = X.T
    eps = Y[0] - a
    require(np.all(eps > 0), "negative inflow")
    x = Y[0]
    for k in range(1, N):
        x = x + a + x**q / (1 + x**q) - b * x + eps
        same(Y[k], x, "time %d" % k, 1e-9, 1e-10)
    same(lp.evaluate_lake(X.copy(), **kw), Y, "the same seed")
    sg = np.sqrt(np.log(1 + s**2 / m**2))
    z = (np.log(eps) - (np.log(m) - sg**2 / 2)) / sg
    # |mean z| < 7/sqrt(N), |z| < 8 have probability below 1e-11
    require(abs(z.mean()) < 7 / np.sqrt(N) and np.abs(z).max() < 8, "inflow is off: mean {} max {}", z.mean(), np.abs(z).max())
    # the seed decides the standardised inflow, whatever the parameters are
    X2 = r.random((N, 5)) * [0.1, 2.5, 0.35, 0.04, 0.004] + [0.0, 2.0, 0.1, 0.01, 0.001]
    e2 = lp.evaluate_lake(X2.copy(), **kw)[0] - X2[:, 0]
    g2 = np.sqrt(np.log(1 + X2[:, 4] ** 2 / X2[:, 3] ** 2))
    same((np.log(e2) - (np.log(X2[:, 3]) - g2**2 / 2)) / g2, z, "standardised inflow under other parameters", 1e-7, 1e-7)
    t.nontrivial(N >= 10)


@st.composite
def lake_objective_cases(draw):
    return {"N": draw(st.integers(1, 12)), "nvars": draw(st.one_of(st.none(), st.just(100), st.integers(1, 200))), "dseed": draw(SMALL_SEEDS), "seed": draw(SMALL_SEEDS)}


@sub("C28", lake_objective_cases(), quick=150, rule="more than one sample")
def lake_objectives(case, t):
    """evaluate: one row of four objectives per sample; maximum phosphorus of the
    simulation, states below the tipping point
    per decision, discounted utility over nvars decisions, each row on its own."""
    from SALib.test_functions import lake_problem as lp

    N = case["N"]
    X = rng(case["dseed"]).random((N, 7)) * [0.1, 2.5, 0.35, 0.04, 0.004, 0.06, 0.3] + [0.0, 2.0, 0.1, 0.01, 0.001, 0.93, 0.2]
    kw = {} if case["nvars"] is None else {"nvars": case["nvars"]}
    n = case["nvars"] or 100
    try:
        Y = lp.evaluate(X.copy(), seed=case["seed"], **kw)
    except ValueError as e:
        if "different signs" in str(e):  # no critical threshold within reach
            return
        raise
    require(Y.shape == (N, 4), "shape {}", Y.shape)
    for i in range(N):
        tmp = lp.evaluate_lake(X[i, :5], seed=case["seed"])
        same(Y[i, 0], tmp.max(), "maximum")
        same(Y[i, 2] * n, float(X[i, 0] < 0.02), "inertia", 1e-9)
        # below the tipping point, where recycling balances the losses
        lo, hi = 0.01, 1.5
        for _ in range(80):
            mid = (lo + hi) / 2
            v = mid ** X[i, 1]
            lo, hi = (mid, hi) if v / (1 + v) < X[i, 2] * mid else (lo, mid)
        if np.abs(tmp - lo).min() > 1e-9:
            same(Y[i, 3] * n, np.sum(tmp < lo), "reliability", 1e-9)
        same(Y[i, 1], sum(X[i, 6] * X[i, 0] * X[i, 5] ** k for k in range(n)), "utility")
    same(lp.evaluate(X[-1:].copy(), seed=case["seed"], **kw)[0], Y[-1], "a row on its own")
    t.nontrivial(N > 1)
