"""Morris elementary effects."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, YKINDS, group_list, mk, mk_y, problems, rng, same

RULE = "Samples drawn with morris.sample (levels, groups, optimised trajectories), outputs random or known; non-trivial = at least 2 groups and 2 trajectories."


@st.composite
def cases(draw, min_n=2, max_n=10, dists=True, kinds=YKINDS):
    p = draw(problems(1, 6, min_groups=1, wide=16, dists=dists, kinds=["unif", "triang", "logunif", "truncnorm"]))
    return {
        "p": p,
        "N": draw(st.one_of(st.integers(min_n, max_n), st.integers(min_n, max_n), st.integers(min_n, 5 * max_n), st.integers(min_n, max_n), st.integers(min_n, max_n), st.sampled_from([120, 260, 520, 1030, 1300]))),
        "levels": draw(st.sampled_from([4, 2, 6, 8, 10, 4, 6, 14, 20, 32, 50])),
        "seed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(kinds)),
        "scaled": draw(st.booleans()),
        "opt": draw(st.booleans()),
        "R": draw(st.integers(2, 40)),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.05, 0.999))),
        "aseed": draw(SMALL_SEEDS),
    }


def sample(case):
    from SALib.sample import morris

    kw = {}
    if case["opt"] and 3 <= case["N"] <= 60:
        kw = {"optimal_trajectories": max(2, case["N"] - 1)}
    X = morris.sample(mk(case["p"]), case["N"], num_levels=case["levels"], seed=case["seed"], **kw)
    n = kw.get("optimal_trajectories", case["N"])
    return X, n


def effects(X, Y, n, G, levels, scaled):
    """(n, D) elementary effects by definition."""
    D = X.shape[1]
    T = X.reshape(n, G + 1, D)
    V = Y.reshape(n, G + 1)
    delta = levels / (2.0 * (levels - 1))
    E = np.full((n, D), np.nan)
    for r in range(n):
        for j in range(D):
            dx = np.diff(T[r, :, j])
            (s,) = np.nonzero(dx)
            if len(s) != 1:
                return None
            s = s[0]
            dy = V[r, s + 1] - V[r, s]
            if scaled:
                sy = V[r].std()
                E[r, j] = 0.0 if sy == 0 else dy / dx[s] * T[r, :, j].std() / sy
            else:
                E[r, j] = dy * np.sign(dx[s]) / delta
    return E


def grouped(v, memb, G):
    memb = np.array(memb)
    return np.array([v[memb == g].mean() for g in range(G)])


@sub("C12", cases(), quick=1000, rule="at least 2 groups and 2 trajectories")
def statistics_of_elementary_effects(case, t):
    from SALib.analyze import morris as am

    p = case["p"]
    X, n = sample(case)
    order, memb = group_list(p)
    G = len(order)
    Y = mk_y(case["y"], case["seed"], len(X), X)
    E = effects(X, Y, n, G, case["levels"], case["scaled"])
    require(E is not None, "a parameter does not move exactly once per trajectory")
    Si = am.analyze(
        mk(p), X.copy(), Y.copy(), num_resamples=case["R"], conf_level=case["conf"],
        scaled=case["scaled"], num_levels=case["levels"], seed=case["aseed"],
    )
    require(list(Si["names"]) == order, "names {} for groups {}", Si["names"], order)
    sc = np.max(np.abs(E)) + 1e-300
    E = E / sc

    def cmp(k, ref):
        got = np.ma.filled(np.ma.asarray(Si[k], dtype=float), np.nan) / sc
        same(got, ref, k, 1e-7, 1e-9)

    cmp("mu", grouped(E.mean(axis=0), memb, G))
    cmp("mu_star", grouped(np.abs(E).mean(axis=0), memb, G))
    size = np.bincount(memb)
    sg = grouped(E.std(axis=0, ddof=1), memb, G)
    sg[size != 1] = np.nan
    cmp("sigma", sg)
    conf = np.asarray(Si["mu_star_conf"], dtype=float)
    require(conf.shape == (G,) and np.all(conf >= 0), "mu_star_conf {}", conf)
    other = am.analyze(
        mk(p), X.copy(), Y.copy(), num_resamples=case["R"], conf_level=0.8,
        scaled=case["scaled"], num_levels=case["levels"], seed=case["aseed"],
    )
    ratio = norm.ppf(0.5 + case["conf"] / 2) / norm.ppf(0.9)
    same(conf / sc, np.asarray(other["mu_star_conf"], float) * ratio / sc, "mu_star_conf under another level", 1e-7, 1e-10)
    t.nontrivial(G > 1)
    t.label("scaled", case["scaled"])
    t.label("groups", bool(p.get("groups")))
    t.label("optimised", case["opt"])
    t.label("dists", bool(p.get("dists")))


@sub("C12", cases(min_n=2, max_n=30, kinds=["normal", "func", "skew"]), quick=200, rule="at least 2 groups")
def bootstrap_interval(case, t):
    """mu_star_conf is norm.ppf(0.5+level/2) times the bootstrap standard error of
    the mean absolute effect, which is known in closed form (population variance
    over n); 2000 resamples, tolerance 15% is > 8 standard errors."""
    from SALib.analyze import morris as am

    case["opt"] = False
    p = case["p"]
    X, n = sample(case)
    order, memb = group_list(p)
    G = len(order)
    Y = mk_y(case["y"], case["seed"], len(X), X)
    E = np.abs(effects(X, Y, n, G, case["levels"], case["scaled"]))
    Si = am.analyze(
        mk(p), X, Y, num_resamples=2000, conf_level=case["conf"], scaled=case["scaled"],
        num_levels=case["levels"], seed=case["aseed"],
    )
    se = E.std(axis=0) / np.sqrt(n)
    ref = norm.ppf(0.5 + case["conf"] / 2) * grouped(se, memb, G)
    got = np.asarray(Si["mu_star_conf"], dtype=float)
    tiny = 1e-9 * np.abs(E).max()
    require(
        np.all((got >= 0.85 * ref - tiny) & (got <= 1.15 * ref + tiny)),
        "mu_star_conf {} but the bootstrap error is {}", got, ref,
    )
    t.nontrivial(G > 1)


@st.composite
def linear(draw):
    c = draw(cases(dists=False))
    d = c["p"]["num_vars"]
    c["coef"] = draw(st.lists(st.floats(-5, 5).map(lambda v: round(v, 3)), min_size=d, max_size=d))
    c["shift"] = draw(st.floats(-100, 100))
    return c


@sub("C12", linear(), quick=300, rule="at least 2 non-zero coefficients")
def linear_models_are_exact(case, t):
    """For a model linear in the rescaled inputs every effect is the coefficient:
    mu = coefficient, mu_star = |coefficient|, sigma = interval = 0."""
    from SALib.analyze import morris as am

    p = case["p"]
    q = mk(p)
    q.pop("groups", None)
    case["p"] = q
    X, n = sample(case)
    b = np.array(q["bounds"], float)
    c = np.array(case["coef"])
    Y = ((X - b[:, 0]) / (b[:, 1] - b[:, 0])) @ c + case["shift"]
    Si = am.analyze(mk(q), X, Y, num_levels=case["levels"], num_resamples=10, seed=1)
    tol = 1e-6 * (1 + abs(case["shift"]) + np.abs(b).max() / np.min(b[:, 1] - b[:, 0]))
    tol = min(tol, 1e-2)
    same(Si["mu"], c, "mu of a linear model", 0, tol)
    same(Si["mu_star"], np.abs(c), "mu_star of a linear model", 0, tol)
    same(Si["sigma"], np.zeros(len(c)), "sigma of a linear model", 0, tol)
    same(Si["mu_star_conf"], np.zeros(len(c)), "mu_star_conf of a linear model", 0, tol)
    t.nontrivial((np.abs(c) > 0).sum() > 1)


@st.composite
def metamorphic(draw):
    c = draw(cases(min_n=3, kinds=["normal", "func"]))
    c["a"] = draw(st.one_of(st.floats(0.01, 100), st.floats(-100, -0.01)))
    c["b"] = draw(st.floats(-100, 100))
    return c


@sub("C12", metamorphic(), quick=300, rule="at least 2 groups")
def scaling_and_reordering(case, t):
    """Y -> aY+b multiplies mu by a and mu_star, sigma by |a| (scaled effects: by
    sign(a) and 1); reordering trajectories changes nothing; permuting ungrouped
    parameters permutes the results."""
    from SALib.analyze import morris as am

    p = case["p"]
    X, n = sample(case)
    G = len(group_list(p)[0])
    Y = mk_y(case["y"], case["seed"], len(X), X)
    kw = dict(num_resamples=5, scaled=case["scaled"], num_levels=case["levels"], seed=1)
    S = am.analyze(mk(p), X.copy(), Y.copy(), **kw)
    T = am.analyze(mk(p), X.copy(), case["a"] * Y + case["b"], **kw)
    fm = np.sign(case["a"]) if case["scaled"] else case["a"]
    base = np.nanmax(np.abs(np.asarray(S["mu_star"], float))) + 1e-300
    tol = 1e-6 * (1 + abs(case["b"] / case["a"]) / (np.abs(Y).max() + 1e-9))

    def cmp(k, got, ref):
        g = np.ma.filled(np.ma.asarray(got, float), np.nan) / base / abs(fm)
        r = np.ma.filled(np.ma.asarray(ref, float), np.nan) / base / abs(fm)
        same(g, r, k, tol, tol)

    cmp("mu after aY+b", T["mu"], fm * np.asarray(S["mu"]))
    cmp("mu_star after aY+b", T["mu_star"], abs(fm) * np.asarray(S["mu_star"]))
    cmp("sigma after aY+b", T["sigma"], abs(fm) * np.asarray(S["sigma"]))
    r = rng(case["seed"] + 3)
    o = r.permutation(n)
    Xr = X.reshape(n, G + 1, -1)[o].reshape(X.shape)
    Yr = Y.reshape(n, G + 1)[o].ravel()
    T = am.analyze(mk(p), Xr, Yr, **kw)
    for k in ("mu", "mu_star", "sigma"):
        cmp(k + " after reordering trajectories", abs(fm) * np.asarray(T[k]), abs(fm) * np.asarray(S[k]))
    if not p.get("groups"):
        perm = r.permutation(G)
        q = {"num_vars": G, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
        if p.get("dists"):
            q["dists"] = [p["dists"][i] for i in perm]
        T = am.analyze(q, X[:, perm].copy(), Y.copy(), **kw)
        for k in ("mu", "mu_star", "sigma"):
            cmp(k + " of permuted parameters", abs(fm) * np.asarray(T[k]), abs(fm) * np.asarray(S[k])[perm])
    t.nontrivial(G > 1)


@st.composite
def invalid(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["conf", "intX", "intY"]))
    c["conf"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), st.floats(1, 100), st.floats(-5, 0)))
    return c


@sub("C12", invalid(), quick=100, rule="every case is invalid")
def invalid_requests_raise(case, t):
    from SALib.analyze import morris as am

    X, n = sample(case)
    Y = mk_y("normal", case["seed"], len(X))
    kw = {}
    if case["kind"] == "conf":
        kw["conf_level"] = case["conf"]
    elif case["kind"] == "intX":
        X = np.zeros(X.shape, dtype=int)
    else:
        Y = np.arange(len(Y))
    t.nontrivial()
    try:
        am.analyze(mk(case["p"]), X, Y, num_levels=case["levels"], **kw)
    except ValueError:
        return
    fail("{} accepted", case["kind"])
