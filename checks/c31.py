"""Sampling, evaluating and analysing tells the inputs that matter from those
that do not, with every method."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, problems, rng, to_unit

RULE = "Random problems (distributions, groups), random models with inert, weak and dominant inputs at random places, all sampling-and-analysis pairs, plain functions and ProblemSpec; non-trivial = at least 2 inputs or groups and an output that varies."

# ------------------------------------------------------------- exact zeros
EXACT = ["sobol", "sobol1", "saltelli", "sobol_plain", "morris", "morris_scaled", "morris_opt", "dgsm", "ff"]
EXACT_GROUPS = set(EXACT[:7])
FINITE = ["unif", "triang", "triang2", "truncnorm", "logunif"]  # scaled effects need finite levels


@st.composite
def inert_cases(draw):
    m = draw(st.sampled_from(EXACT))
    p = draw(problems(2, 6, groups=m in EXACT_GROUPS, dists=m not in ("dgsm", "ff"), kinds=FINITE if m == "morris_scaled" else None))
    order, _ = group_list(p)
    k = draw(st.integers(1, len(order) - 1))
    return {
        "m": m, "p": p,
        "active": sorted(draw(st.permutations(list(range(len(order)))))[:k]),
        "N": draw(st.sampled_from([4, 8, 16, 32])),
        "model": draw(st.sampled_from(["mix", "product", "step", "additive"])),
        "seed": draw(SMALL_SEEDS), "mseed": draw(SMALL_SEEDS),
        "scale": draw(st.sampled_from([1.0, 1e-9, 1e7])),
        "spec": draw(st.booleans()),
    }


def model(kind, seed, Z):
    """Row by row function of the columns of Z (values about 0..1)."""
    r = rng(seed)
    w = r.uniform(0.3, 2, Z.shape[1]) * r.choice([-1, 1], Z.shape[1])
    out = np.empty(len(Z))
    for i, z in enumerate(Z):
        if kind == "product":
            out[i] = np.prod(1 + w * z)
        elif kind == "step":
            out[i] = np.sum(w * (z > 0.4)) + w[0] * (z.sum() > 0.5 * len(z))
        elif kind == "additive":
            out[i] = np.sum(w * z)
        else:
            out[i] = np.sum(w * z) + np.sin(3 * z).sum() + 2 * z[0] * z[-1]
    return out


def sample_for(m, p, N, seed):
    from SALib.sample import ff, finite_diff, morris, saltelli, sobol

    if m in ("sobol", "sobol1"):
        return sobol.sample(p, N, calc_second_order=m == "sobol", seed=seed)
    if m == "sobol_plain":
        return sobol.sample(p, N, scramble=False)
    if m == "saltelli":
        return saltelli.sample(p, N)
    if m == "morris_opt":
        G = len(set(p.get("groups") or p["names"]))
        return morris.sample(p, 6, num_levels=4, optimal_trajectories=3, seed=seed) if G > 1 else morris.sample(p, 6, seed=seed)
    if m.startswith("morris"):
        return morris.sample(p, max(N // 2, 2), num_levels=[4, 6, 8][seed % 3], seed=seed)
    if m == "dgsm":
        return finite_diff.sample(p, N)
    return ff.sample(p, seed=seed)


def analyze_for(m, p, X, Y, seed):
    from SALib.analyze import dgsm, ff, morris, sobol

    if m in ("sobol", "sobol1", "sobol_plain", "saltelli"):
        return sobol.analyze(p, Y, calc_second_order=m != "sobol1", num_resamples=10, seed=seed)
    if m.startswith("morris"):
        return morris.analyze(p, X, Y, num_resamples=10, scaled=m == "morris_scaled", seed=seed)
    if m == "dgsm":
        return dgsm.analyze(p, X, Y, num_resamples=10, seed=seed)
    return ff.analyze(p, X, Y, second_order=True)


@sub("C31", inert_cases(), quick=600, rule="the output varies")
def inert_inputs(case, t):
    """Inputs (groups) the model ignores get no effect at all from the methods
    that compare runs differing in one input, and zero-width intervals."""
    m = case["m"]
    p = mk(case["p"])
    order, memb = group_list(case["p"])
    cols = [j for j in range(p["num_vars"]) if memb[j] in case["active"]]
    q = mk(case["p"])
    if case["spec"] and m != "ff":
        from SALib import ProblemSpec

        q = ProblemSpec(q)
    X = sample_for(m, q, case["N"], case["seed"] % 2**31)
    D = p["num_vars"]
    Z = np.clip(np.nan_to_num(to_unit(X[:, :D], p)), 0, 1)[:, cols]
    kind = case["model"]
    if m == "ff" and kind in ("product", "step"):
        kind = "mix"  # resolution IV: three-factor interactions may alias main effects
    if m == "dgsm" and kind == "step":
        kind = "mix"
    Y = case["scale"] * model(kind, case["mseed"], Z)
    Si = analyze_for(m, q, X, Y, 3)
    sd = Y.std()
    varied = sd > 1e-6 * np.abs(Y).max()
    inert = [g for g in range(len(order)) if g not in case["active"]]

    def zero(key, unit, what=None):
        v = np.asarray(Si[key], dtype=float)
        for g in inert:
            x = v[g]
            if key.endswith("_conf") and np.isnan(x):
                continue  # a resample of few base points may be constant
            require(abs(x) <= 1e-7 * unit, "{} of the ignored input {} is {}", what or key, order[g], x)

    if m in ("sobol", "sobol1", "saltelli", "sobol_plain"):
        if varied:
            for k in ("S1", "ST", "S1_conf", "ST_conf"):
                zero(k, 1.0)
            ST = np.asarray(Si["ST"], dtype=float)
            if case["N"] >= 16 and m != "sobol_plain" and case["model"] != "step":
                require(any(ST[g] > 1e-6 for g in case["active"]), "no input has any total effect: {}", ST)
    elif m.startswith("morris"):
        unit = 10 if m == "morris_scaled" else 10 * np.abs(Y).max()
        for k in ("mu", "mu_star", "mu_star_conf"):
            zero(k, unit)
        if not case["p"].get("groups"):
            zero("sigma", unit)
        if varied:
            require(any(float(Si["mu_star"][g]) > 1e-6 * (unit / 10) for g in case["active"]), "no input has any effect: {}", Si["mu_star"])
    elif m == "dgsm":
        if varied:
            for k in ("dgsm", "dgsm_conf"):
                zero(k, 1.0)
            v = np.asarray(Si["vi"], dtype=float)
            require(all(v[g] == 0 or abs(v[g]) < 1e-12 * v.max() for g in inert), "vi {}", v)
    else:
        zero("ME", np.abs(Y).max())
    t.label(m)
    t.nontrivial(bool(varied))


# --------------------------------------------------------- dominant inputs
METHODS = {
    # sampler -> analyzers that accept its samples, with the measure that ranks
    "sobol": [("sobol", "ST"), ("sobol", "S1")],
    "saltelli": [("sobol", "ST"), ("sobol", "S1")],
    "latin": [("rbd_fast", "S1"), ("delta", "delta_raw"), ("delta", "delta_balanced"), ("delta", "S1"), ("pawn", "median"), ("pawn", "maximum"), ("rsa", None), ("rsa_x", None),
              ("discrepancy", "s_discrepancy"), ("hdmr", "S"), ("enhanced_hdmr", "S"), ("enhanced_plain", "ST")],
    "fast_sampler": [("fast", "S1"), ("fast", "ST")],
    "morris": [("morris", "mu_star"), ("morris_scaled", "mu_star")],
    "finite_diff": [("dgsm", "dgsm")],
    "ff": [("ff", "ME")],
}
PAIRS = [(s, a, k) for s, v in METHODS.items() for a, k in v]
SHARE = {("sobol", "S1"), ("sobol", "ST"), ("fast", "S1"), ("fast", "ST"), ("rbd_fast", "S1"), ("hdmr", "S"), ("enhanced_hdmr", "S"), ("enhanced_plain", "ST"), ("delta", "S1")}
NODIST = {"dgsm", "ff", "discrepancy"}


@st.composite
def dominant_cases(draw):
    s, a, k = draw(st.sampled_from(PAIRS))
    p = draw(problems(2, 4, groups=False, dists=a not in NODIST, kinds=FINITE if a == "morris_scaled" else ["unif", "triang"] if "hdmr" in a or "enhanced" in a else None))
    D = p["num_vars"]
    return {
        "s": s, "a": a, "k": k, "p": p,
        "big": draw(st.integers(0, D - 1)),
        "big2": draw(st.integers(0, D - 1)),
        "shape": draw(st.sampled_from(["lin", "neg", "exp", "bump"] if a not in ("ff", "dgsm", "discrepancy") else ["lin", "neg", "exp"])),
        "weak": draw(st.sampled_from([0.0, 0.03])),
        "seed": draw(SMALL_SEEDS),
        "spec": draw(st.sampled_from(["plain", "spec", "spec2"])),
        "scale": draw(st.sampled_from([1.0, -1e-9, 1e6])),
        "shift": draw(st.sampled_from([0.0, 3.0])),
    }


def draw_for(s, p, seed):
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, saltelli, sobol

    return {
        "sobol": lambda: sobol.sample(p, 128, seed=seed),
        "saltelli": lambda: saltelli.sample(p, 128),
        "latin": lambda: latin.sample(p, 400, seed=seed),
        "fast_sampler": lambda: fast_sampler.sample(p, 257, M=4, seed=seed),
        "morris": lambda: morris.sample(p, 20, num_levels=4, seed=seed),
        "finite_diff": lambda: finite_diff.sample(p, 64),
        "ff": lambda: ff.sample(p, seed=seed),
    }[s]()


def analyzer(a):
    """(module name, keyword arguments, whether X is passed)"""
    return {
        "sobol": ("sobol", dict(num_resamples=10), False),
        "rbd_fast": ("rbd_fast", dict(num_resamples=10), True),
        "delta": ("delta", dict(num_resamples=3), True),
        "pawn": ("pawn", dict(S=8), True),
        "rsa": ("rsa", dict(bins=8), True),
        "rsa_x": ("rsa", dict(bins=8, target="X"), True),
        "discrepancy": ("discrepancy", {}, True),
        "hdmr": ("hdmr", dict(maxorder=1, K=1, m=3), True),
        "enhanced_hdmr": ("enhanced_hdmr", dict(max_order=1, bootstrap=1), True),
        "enhanced_plain": ("enhanced_hdmr", dict(max_order=2, poly_order=2, bootstrap=1, extended_base=False), True),
        "fast": ("fast", dict(num_resamples=5), False),
        "morris": ("morris", dict(num_resamples=10), True),
        "morris_scaled": ("morris", dict(num_resamples=10, scaled=True), True),
        "dgsm": ("dgsm", dict(num_resamples=10), True),
        "ff": ("ff", {}, True),
    }[a]


def response(case, U, big):
    u = U[:, big]
    f = {"lin": u, "neg": -u, "exp": np.exp(2 * u) / 6, "bump": 4 * (u - 0.5) ** 2}[case["shape"]]
    rest = np.delete(U, big, axis=1)
    y = f + case["weak"] * (rest.sum(axis=1) + u * rest[:, 0])
    return case["scale"] * (y + case["shift"])


def measure(a, k, Si):
    if a == "ff":
        return np.abs(np.asarray(Si["ME"], dtype=float))
    if a in ("rsa", "rsa_x"):
        return np.nanmean(np.asarray(Si.to_df(), dtype=float), axis=0)
    return np.asarray(Si[k], dtype=float)


def judge(case, Si, big, what):
    D = case["p"]["num_vars"]
    names = case["p"]["names"]
    v = measure(case["a"], case["k"], Si)[:D]
    require(np.all(np.isfinite(v)), "{}: {} = {}", what, case["k"], v)
    others = np.delete(v, big)
    require(v[big] > (1.02 if case["a"] == "discrepancy" else 1.5) * others.max(), "{}: {} is the only input that matters but {} of {} is {}", what, names[big], case["k"], names, v)
    if (case["a"], case["k"]) in SHARE:
        require(v[big] > 0.75, "{}: {} carries the variance but {} of {} is {}", what, names[big], case["k"], names, v)
        require(v[big] < 1.25 and others.max() < 0.25 and others.min() > -0.25, "{}: {} of {} is {}", what, case["k"], names, v)


@sub("C31", dominant_cases(), quick=480, shards=8, rule="every case")
def dominant_input(case, t):
    """The one input that drives the output comes first, whichever method is
    asked, wherever it stands and whatever its distribution; each of several
    outputs has its own."""
    import importlib

    s, a, p0 = case["s"], case["a"], case["p"]
    D = p0["num_vars"]
    mod, kw, withx = analyzer(a)
    p = mk(p0)

    def unit(X):
        return np.clip(to_unit(X[:, :D], p0), 0, 1)

    if case["spec"] == "plain" or s == "ff":  # (the factorial design has more columns than the problem)
        X = draw_for(s, p, case["seed"])
        Y = response(case, unit(X), case["big"])
        f = importlib.import_module("SALib.analyze." + mod).analyze
        judge(case, f(p, X, Y, **kw) if withx else f(p, Y, **kw), case["big"], "function")
    else:
        from SALib import ProblemSpec

        two = case["spec"] == "spec2"
        p["outputs"] = ["first", "second"] if two else ["only"]
        sp = ProblemSpec(p)
        sp.set_samples(draw_for(s, mk(p0), case["seed"]))

        def both(X):
            U = unit(X)
            a1 = response(case, U, case["big"])
            return np.column_stack([a1, response(case, U, case["big2"])]) if two else a1

        sp.evaluate(both)
        getattr(sp, "analyze_" + mod)(**kw)
        if two:
            judge(case, sp.analysis["first"], case["big"], "first output")
            judge(case, sp.analysis["second"], case["big2"], "second output")
        else:
            judge(case, sp.analysis, case["big"], "ProblemSpec")
    t.label(a)
    t.nontrivial()


# ------------------------------------------------------- analytic indices
@st.composite
def g_cases(draw):
    D = draw(st.integers(2, 5))
    return {
        "f": draw(st.sampled_from(["G", "G", "ishigami"])),
        "m": draw(st.sampled_from(["sobol", "saltelli", "fast", "rbd_fast", "sobol_group"])),
        "a": [draw(st.sampled_from([0.0, 0.5, 1.0, 4.5, 9.0, 99.0])) for _ in range(D)],
        "A": draw(st.sampled_from([7.0, 5.0, 2.0])), "B": draw(st.sampled_from([0.1, 0.05, 0.2])),
        "seed": draw(SMALL_SEEDS),
    }


def truth(case):
    """(variances of the main effects, total effect shares, bounds, function)"""
    from SALib.test_functions import Ishigami, Sobol_G

    if case["f"] == "G":
        a = np.array(case["a"])
        Vi = 1 / (3 * (1 + a) ** 2)
        V = np.prod(1 + Vi) - 1
        S1 = Vi / V
        ST = Vi * np.array([np.prod(np.delete(1 + Vi, i)) for i in range(len(a))]) / V

        def closed(u):
            return (np.prod((1 + Vi)[list(u)]) - 1) / V

        return S1, ST, closed, [[0, 1]] * len(a), lambda X: Sobol_G.evaluate(X, a)
    A, B = case["A"], case["B"]
    pi4 = np.pi**4
    V1, V2, V13 = 0.5 * (1 + B * pi4 / 5) ** 2, A**2 / 8, B**2 * pi4**2 * (1 / 18 - 1 / 50)
    V = V1 + V2 + V13

    def closed(u):
        return (V1 * (0 in u) + V2 * (1 in u) + V13 * (0 in u and 2 in u)) / V

    return (np.array([V1, V2, 0]) / V, np.array([V1 + V13, V2, V13]) / V, closed, [[-np.pi, np.pi]] * 3, lambda X: Ishigami.evaluate(X, A, B))


@sub("C31", g_cases(), quick=160, shards=8, rule="at least 2 inputs matter")
def analytic_indices(case, t):
    """Variance-based methods recover the analytic indices of the Sobol' G and
    Ishigami functions of any parameters."""
    from SALib.analyze import fast, rbd_fast, sobol
    from SALib.sample import fast_sampler, latin, saltelli
    from SALib.sample import sobol as ssobol

    S1, ST, closed, bounds, f = truth(case)
    D = len(bounds)
    p = {"num_vars": D, "names": ["x%d" % i for i in range(D)], "bounds": bounds}
    m = case["m"]
    if m in ("sobol", "saltelli"):
        X = ssobol.sample(p, 2048, seed=case["seed"]) if m == "sobol" else saltelli.sample(p, 2048)
        Si = sobol.analyze(p, f(X), num_resamples=5)
        tol1 = tolt = 0.1
        for i in range(D):
            for j in range(i + 1, D):
                v = closed((i, j)) - S1[i] - S1[j]
                require(abs(Si["S2"][i, j] - v) < 0.2, "S2[{},{}] = {} but the analytic value is {}", i, j, Si["S2"][i, j], v)
    elif m == "sobol_group":
        p["groups"] = ["g0"] + ["g1"] * (D - 1)
        X = ssobol.sample(p, 2048, seed=case["seed"])
        Si = sobol.analyze(p, f(X), num_resamples=5)
        u = tuple(range(1, D))
        S1, ST = np.array([closed((0,)), closed(u)]), np.array([1 - closed(u), 1 - closed((0,))])
        tol1 = tolt = 0.1
    elif m == "fast":
        X = fast_sampler.sample(p, 4097, M=4, seed=case["seed"])
        Si = fast.analyze(p, f(X), num_resamples=5)
        tol1, tolt = 0.12, 0.25
    else:
        X = latin.sample(p, 4000, seed=case["seed"])
        Si = rbd_fast.analyze(p, X, f(X), num_resamples=5)
        tol1, tolt = 0.12, None
    d = np.abs(np.asarray(Si["S1"], float) - S1).max()
    require(d < tol1, "S1 = {} but the analytic values are {}", np.round(Si["S1"], 3), np.round(S1, 3))
    if tolt:
        d = np.abs(np.asarray(Si["ST"], float) - ST).max()
        require(d < tolt, "ST = {} but the analytic values are {}", np.round(Si["ST"], 3), np.round(ST, 3))
    t.label(m)
    t.nontrivial(int((ST > 0.05).sum()) > 1)
