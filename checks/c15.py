"""Derivative-based global sensitivity measures."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, mostly, problems, rng, same
from vlib.refs import bootstrap_agrees

RULE = "Random uniform problems, one-at-a-time samples (own and finite_diff.sample) and outputs; non-trivial = at least 2 parameters."
KINDS = ["normal", "skew", "ties", "offset", "big", "tiny", "micro"]


@st.composite
def cases(draw, max_d=5, wide=None, lo=2, hi=60, kinds=KINDS):
    return {
        "p": draw(problems(1, max_d, groups=False, dists=False, wide=wide)),
        "N": draw(mostly(st.integers(lo, hi), st.sampled_from([257, 600, 1030])) if wide else st.integers(lo, hi)),
        "own": draw(st.booleans()),
        "y": draw(st.sampled_from(kinds)),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "R": draw(st.integers(2, 20)),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.05, 0.999))),
    }


def data(case):
    p, N = case["p"], case["N"]
    D = p["num_vars"]
    r = rng(case["seed"])
    b = np.array(p["bounds"], float)
    if case["own"]:
        base = b[:, 0] + r.random((N, D)) * (b[:, 1] - b[:, 0])
        X = np.repeat(base[:, None, :], D + 1, axis=1)
        for j in range(D):
            step = r.choice([-1, 1], N) * r.uniform(0.01, 0.3, N) * (b[j, 1] - b[j, 0])
            X[:, j + 1, j] += step
        X = X.reshape(-1, D)
    else:
        from SALib.sample import finite_diff

        X = finite_diff.sample(mk(p), N, seed=case["seed"])
    return X, mk_y(case["y"], case["seed"] + 1, len(X))


def reference(p, X, Y):
    D = p["num_vars"]
    n = len(Y) // (D + 1)
    T, V = X.reshape(n, D + 1, D), Y.reshape(n, D + 1)
    w = np.array([hi - lo for lo, hi in p["bounds"]])
    var = np.mean((V[:, 0] - V[:, 0].mean()) ** 2)
    sq = np.empty((n, D))
    for j in range(D):
        sq[:, j] = ((V[:, j + 1] - V[:, 0]) / (T[:, j + 1, j] - T[:, 0, j])) ** 2
    return sq, w**2 / (np.pi**2 * var)


@sub("C15", cases(wide=28), quick=800, rule="at least 2 parameters")
def measures_match_the_definition(case, t):
    from SALib.analyze import dgsm

    p = case["p"]
    X, Y = data(case)
    sq, scale = reference(p, X, Y)
    if not np.all(np.isfinite(sq)) or not np.all(np.isfinite(scale)):
        return
    kw = dict(num_resamples=case["R"], seed=case["aseed"])
    S = dgsm.analyze(mk(p), X.copy(), Y.copy(), conf_level=case["conf"], **kw)
    require(list(S["names"]) == p["names"], "names {}", S["names"])
    m = sq.mean(axis=0)
    one = np.ones(len(m))

    def rel(got, ref, what):
        same(np.asarray(got) / (m * (scale if "dgsm" in what else 1) + 1e-300), ref, what, 1e-7, 1e-9)

    nz = (m > 0).astype(float)
    rel(S["vi"], nz, "vi")
    rel(S["vi_std"], sq.std(axis=0) / (m + 1e-300), "vi_std")
    rel(S["dgsm"], nz, "dgsm")
    conf = np.asarray(S["dgsm_conf"], float)
    require(conf.shape == one.shape and np.all(conf >= 0), "dgsm_conf {}", conf)
    W = dgsm.analyze(mk(p), X.copy(), Y.copy(), conf_level=0.8, **kw)
    ratio = norm.ppf(0.5 + case["conf"] / 2) / norm.ppf(0.9)
    same(conf / (m * scale + 1e-300), np.asarray(W["dgsm_conf"]) * ratio / (m * scale + 1e-300), "dgsm_conf under another level", 1e-7, 1e-10)
    t.nontrivial(p["num_vars"] > 1)
    t.label("finite_diff", not case["own"])


@sub("C15", cases(max_d=3, lo=10, hi=40, kinds=["normal", "offset"]), quick=80, rule="every case")
def bootstrap_interval(case, t):
    """dgsm_conf is norm.ppf(0.5+level/2) bootstrap standard errors of dgsm, known
    in closed form (population variance over n)."""
    from SALib.analyze import dgsm

    p = case["p"]
    case["own"] = True
    if case["seed"] % 5 == 1:
        case["N"] *= 12
    X, Y = data(case)
    sq, scale = reference(p, X, Y)
    j = p["num_vars"] - 1
    ref = sq[:, j] * scale[j] / np.sqrt(len(sq))
    # ddof=1 in the helper: rescale to the population spread
    ref = (ref - ref.mean()) * np.sqrt((len(sq) - 1) / len(sq))
    bootstrap_agrees(
        lambda R, sd: dgsm.analyze(mk(p), X, Y, num_resamples=R, conf_level=case["conf"], seed=sd)["dgsm_conf"][j],
        ref, case["conf"], "dgsm_conf", many=1500, calls=1000 if case["seed"] % 4 == 0 else 0, tol=0.2,
    )
    t.nontrivial()


@st.composite
def meta(draw):
    c = draw(cases(kinds=["normal", "skew"]))
    c["a"] = draw(st.one_of(st.floats(0.01, 100), st.floats(-100, -0.01)))
    c["b"] = draw(st.floats(-100, 100))
    return c


@sub("C15", meta(), quick=300, rule="at least 2 parameters")
def metamorphic(case, t):
    """Y -> aY+b scales vi, vi_std by a^2 and leaves dgsm and its interval;
    changing the unit of an input divides its vi and leaves its dgsm; permuting
    parameters permutes the results."""
    from SALib.analyze import dgsm

    p = case["p"]
    D = p["num_vars"]
    case["own"] = True
    X, Y = data(case)
    a, b = case["a"], case["b"]
    kw = dict(num_resamples=8, seed=3)
    S = dgsm.analyze(mk(p), X.copy(), Y.copy(), **kw)
    T = dgsm.analyze(mk(p), X.copy(), a * Y + b, **kw)
    tol = 1e-6 * (1 + abs(b / a))

    def cmp(what, got, ref, scale):
        scale = np.asarray(scale) + 1e-300
        same(np.asarray(got) / scale, np.asarray(ref) / scale, what, tol, tol)

    for k, f, s in (("vi", a * a, "vi"), ("vi_std", a * a, "vi"), ("dgsm", 1, "dgsm"), ("dgsm_conf", 1, "dgsm")):
        cmp(k + " after aY+b", np.asarray(T[k]) / f, S[k], S[s])
    u = abs(a)
    q = mk(p)
    q["bounds"] = [[lo * u, hi * u] for lo, hi in q["bounds"]]
    T = dgsm.analyze(q, X * u, Y.copy(), **kw)
    for k, f, s in (("vi", u * u, "vi"), ("vi_std", u * u, "vi"), ("dgsm", 1, "dgsm"), ("dgsm_conf", 1, "dgsm")):
        cmp(k + " after a change of units", np.asarray(T[k]) * f, S[k], S[s])
    perm = rng(case["seed"] + 3).permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    sel = np.concatenate([[0], perm + 1])
    Xp = X.reshape(-1, D + 1, D)[:, sel][:, :, perm].reshape(-1, D)
    Yp = Y.reshape(-1, D + 1)[:, sel].ravel()
    T = dgsm.analyze(q, Xp, Yp, **kw)
    for k in ("vi", "vi_std", "dgsm"):
        cmp(k + " of permuted parameters", T[k], np.asarray(S[k])[perm], np.asarray(S["vi" if "vi" in k else k])[perm])
    t.nontrivial(D > 1)


@st.composite
def linear(draw):
    d = draw(st.integers(1, 5))
    return {
        "p": draw(problems(d, d, groups=False, dists=False)),
        "coef": draw(st.lists(st.floats(-3, 3).map(lambda v: round(v, 2)), min_size=d, max_size=d)),
        "N": draw(st.integers(200, 600)),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C15", linear(), quick=120, rule="at least 2 influential parameters")
def exact_for_linear_models_and_bounds_total_effect(case, t):
    """Linear model: vi = c_i^2 exactly, no spread, and dgsm = 12/pi^2 S_i (so
    S_T <= dgsm) up to the sampling error of the output variance."""
    from SALib.analyze import dgsm
    from SALib.sample import finite_diff

    p = case["p"]
    c = np.array(case["coef"])
    if np.abs(c).max() < 0.1:
        return
    b = np.array(p["bounds"])
    w = b[:, 1] - b[:, 0]
    # steps are relative to the value of the input: keep it away from zero
    X = finite_diff.sample(mk(p), case["N"], delta=0.05, seed=case["seed"])
    D = len(c)
    T = X.reshape(-1, D + 1, D)
    step = np.abs(np.stack([T[:, j + 1, j] - T[:, 0, j] for j in range(D)], axis=1)) / w
    if step.min() < 1e-7:
        return
    Y = ((X - b[:, 0]) / w) @ c
    S = dgsm.analyze(mk(p), X, Y, num_resamples=5, seed=1)
    same(np.asarray(S["vi"]) * w**2, c**2, "vi of a linear model", 1e-4, 1e-3)
    same(np.asarray(S["vi_std"]) * w**2, 0 * c, "vi_std of a linear model", 0, 1e-2)
    ref = 12 / np.pi**2 * c**2 / (c**2).sum()
    got = np.asarray(S["dgsm"])
    require(np.all(np.abs(got - ref) <= 0.25 * ref + 1e-3), "dgsm {} but the model has {}", got, ref)
    t.nontrivial((np.abs(c) > 0.3).sum() > 1)


@st.composite
def invalid(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["conf", "size"]))
    c["conf"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), st.floats(1, 100), st.floats(-5, 0)))
    return c


@sub("C15", invalid(), quick=100, rule="every case is invalid")
def invalid_requests_raise(case, t):
    from SALib.analyze import dgsm

    X, Y = data(case)
    kw = {}
    if case["kind"] == "conf":
        kw["conf_level"] = case["conf"]
    else:
        X, Y = X[:-1], Y[:-1]
    t.nontrivial()
    try:
        dgsm.analyze(mk(case["p"]), X, Y, num_resamples=2, **kw)
    except RuntimeError:
        return
    fail("{} accepted", case["kind"])
