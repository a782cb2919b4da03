"""RBD-FAST analysis."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, from_unit, mk, mk_y, mostly, problems, rng, same
from vlib.refs import bootstrap_agrees, rbd_fast_s1

RULE = "Random problems, sample sizes, interference factors, samples (continuous, and integer-valued permutations) and outputs; non-trivial = at least 2 parameters."
KINDS = ["normal", "func", "skew", "ties", "offset", "big", "tiny", "micro"]


@st.composite
def cases(draw, max_d=5, wide=None, lo=60, hi=400, kinds=KINDS):
    return {
        "p": draw(problems(1, max_d, groups=False, wide=wide)),
        "M": draw(st.integers(1, 14)),
        "N": draw(mostly(st.integers(lo, hi), st.sampled_from([1024, 1501, 3000])) if wide else st.integers(lo, hi)),
        "y": draw(st.sampled_from(kinds)),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "R": draw(st.integers(2, 20)),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.05, 0.999))),
    }


def data(case):
    p = case["p"]
    r = rng(case["seed"])
    # stratified columns: distinct values
    D, N = p["num_vars"], case["N"]
    U = np.column_stack([(r.permutation(N) + r.uniform(0.01, 0.99, N)) / N for _ in range(D)])
    X = from_unit(U, p)
    return X, mk_y(case["y"], case["seed"] + 1, N, U)


@sub("C14", cases(wide=28), quick=800, rule="at least 2 parameters")
def indices_match_the_spectrum(case, t):
    from SALib.analyze import rbd_fast

    p = case["p"]
    X, Y = data(case)
    kw = dict(M=case["M"], num_resamples=case["R"], seed=case["aseed"])
    S = rbd_fast.analyze(mk(p), X.copy(), Y.copy(), conf_level=case["conf"], **kw)
    require(list(S["names"]) == p["names"], "names {}", S["names"])
    ref = [rbd_fast_s1(X[:, i], Y, case["M"]) for i in range(p["num_vars"])]
    same(S["S1"], ref, "S1", 1e-6, 1e-7)
    W = rbd_fast.analyze(mk(p), X.copy(), Y.copy(), conf_level=0.8, **kw)
    a = np.asarray(S["S1_conf"], float)
    require(a.shape == (p["num_vars"],) and np.all(a >= 0), "S1_conf = {}", a)
    ratio = norm.ppf(0.5 + case["conf"] / 2) / norm.ppf(0.9)
    same(a, np.asarray(W["S1_conf"], float) * ratio, "S1_conf under another level", 1e-7, 1e-12)
    t.nontrivial(p["num_vars"] > 1)


@st.composite
def meta(draw):
    c = draw(cases(kinds=["normal", "func", "skew"]))
    c["a"] = draw(st.one_of(st.floats(0.01, 100), st.floats(-100, -0.01)))
    c["b"] = draw(st.floats(-100, 100))
    return c


@sub("C14", meta(), quick=300, rule="at least 2 parameters")
def metamorphic(case, t):
    """No change under Y -> aY+b, under increasing transformations of an input
    and under reordering the runs; permuting parameters permutes the results."""
    from SALib.analyze import rbd_fast

    p = case["p"]
    D = p["num_vars"]
    X, Y = data(case)
    kw = dict(M=case["M"], num_resamples=2)
    S = np.asarray(rbd_fast.analyze(mk(p), X.copy(), Y.copy(), **kw)["S1"])
    tol = 1e-7 * (1 + abs(case["b"] / case["a"]))
    T = rbd_fast.analyze(mk(p), X.copy(), case["a"] * Y + case["b"], **kw)["S1"]
    same(T, S, "S1 after aY+b", tol, tol)
    ranks = X.argsort(axis=0).argsort(axis=0).astype(float)
    T = rbd_fast.analyze(mk(p), ranks**3 - 7, Y.copy(), **kw)["S1"]
    same(T, S, "S1 after a monotone transformation of the inputs", 1e-7, 1e-9)
    r = rng(case["seed"] + 5)
    o = r.permutation(len(Y))
    T = rbd_fast.analyze(mk(p), X[o], Y[o], **kw)["S1"]
    same(T, S, "S1 after reordering the runs", 1e-7, 1e-9)
    perm = r.permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    T = rbd_fast.analyze(q, X[:, perm].copy(), Y.copy(), **kw)
    same(T["S1"], S[perm], "S1 of permuted parameters", 1e-9, 1e-12)
    t.nontrivial(D > 1)


@sub("C14", cases(max_d=2, hi=150, kinds=["normal", "func"]), quick=60, rule="every case")
def bootstrap_interval(case, t):
    """The interval agrees with an independent bootstrap over half of the runs,
    drawn with replacement."""
    from SALib.analyze import rbd_fast

    p = case["p"]
    case["M"] = M = min(case["M"], 8)
    if case["seed"] % 5 == 1:
        case["N"] *= 8
    X, Y = data(case)
    N = len(Y)
    j = p["num_vars"] - 1
    r = rng(case["seed"] + 9)
    ref = []
    for _ in range(600):
        i = r.integers(N, size=N // 2)
        ref.append(rbd_fast_s1(X[i, j], Y[i], M))
    bootstrap_agrees(
        lambda R, sd: rbd_fast.analyze(mk(p), X, Y, M=M, num_resamples=R, conf_level=case["conf"], seed=sd)["S1_conf"][j],
        np.array(ref), case["conf"], "S1_conf", many=500, calls=800 if case["seed"] % 8 == 0 else 0,
    )
    t.nontrivial()


@st.composite
def linear(draw):
    d = draw(st.integers(2, 5))
    return {
        "p": draw(problems(d, d, groups=False, dists=False)),
        "coef": draw(st.lists(st.floats(-3, 3).map(lambda v: round(v, 2)), min_size=d, max_size=d)),
        "M": draw(st.integers(4, 12)),
        "N": draw(st.integers(1500, 2500)),
        "how": draw(st.sampled_from(["latin", "sobol", "saltelli", "morris"][:1] + ["sobol"])),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C14", linear(), quick=120, rule="at least 2 influential parameters")
def recovers_additive_models(case, t):
    """Linear model in uniform inputs: S1 = c_i^2/sum c^2 within 0.1 (more than 6
    standard errors at N >= 1500)."""
    from SALib.analyze import rbd_fast
    from SALib.sample import latin

    p = case["p"]
    c = np.array(case["coef"])
    if np.abs(c).max() < 0.1:
        return
    X = latin.sample(mk(p), case["N"], seed=case["seed"])
    b = np.array(p["bounds"])
    Y = ((X - b[:, 0]) / (b[:, 1] - b[:, 0])) @ c
    S = rbd_fast.analyze(mk(p), X, Y, M=case["M"], num_resamples=2, seed=1)
    ref = c**2 / (c**2).sum()
    got = np.asarray(S["S1"])
    require(np.all(np.abs(got - ref) < 0.1), "S1 {} but the model has {}", got, ref)
    t.nontrivial((np.abs(c) > 0.3).sum() > 1)
