"""eFAST analysis."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, mostly, problems, rng, same
from vlib.refs import bootstrap_agrees, fast_orders

RULE = "Random problems, block sizes, interference factors and outputs; non-trivial = at least 2 parameters."
KINDS = ["normal", "skew", "ties", "offset", "big", "tiny", "micro"]


@st.composite
def cases(draw, max_d=5, wide=None, extra=300, kinds=KINDS):
    M = draw(mostly(st.integers(1, 6), st.integers(7, 12)))
    return {
        "p": draw(problems(1, max_d, groups=False, wide=wide)),
        "M": M,
        "N": max(40, 4 * M * M + 1) + draw(mostly(st.integers(0, extra), st.sampled_from([1000, 2100, 5000]))),
        "y": draw(st.sampled_from(kinds)),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "R": draw(st.integers(2, 20)),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.05, 0.999))),
    }


def outputs(case):
    n = case["N"] * case["p"]["num_vars"]
    Y = mk_y(case["y"], case["seed"], n)
    # add structure at some harmonics so that indices differ between blocks
    D = case["p"]["num_vars"]
    r = rng(case["seed"] + 1)
    s = np.linspace(-np.pi, np.pi, case["N"], endpoint=False)
    om = (case["N"] - 1) // (2 * case["M"])
    B = Y.reshape(D, -1).copy()
    sd = B.std() or 1.0
    for i in range(D):
        B[i] += sd * (r.random() * 3 * np.sin(om * s) + r.random() * np.sin(2 * om * s + 1) + r.random() * np.sin(s * max(1, om // 3)))
    return B.ravel()


@sub("C13", cases(wide=28), quick=800, rule="at least 2 parameters")
def indices_match_the_spectrum(case, t):
    from SALib.analyze import fast

    p = case["p"]
    D = p["num_vars"]
    Y = outputs(case)
    kw = dict(M=case["M"], num_resamples=case["R"], seed=case["aseed"])
    S = fast.analyze(mk(p), Y.copy(), conf_level=case["conf"], **kw)
    require(list(S["names"]) == p["names"], "names {}", S["names"])
    ref = np.array([fast_orders(b, case["M"]) for b in Y.reshape(D, -1)])
    same(S["S1"], ref[:, 0], "S1", 1e-6, 1e-7)
    same(S["ST"], ref[:, 1], "ST", 1e-6, 1e-7)
    W = fast.analyze(mk(p), Y.copy(), conf_level=0.8, **kw)
    ratio = norm.ppf(0.5 + case["conf"] / 2) / norm.ppf(0.9)
    for k in ("S1_conf", "ST_conf"):
        a = np.asarray(S[k], float)
        require(a.shape == (D,) and np.all(a >= 0), "{} = {}", k, a)
        same(a, np.asarray(W[k], float) * ratio, k + " under another level", 1e-7, 1e-12)
    t.nontrivial(D > 1)
    t.label("odd block", case["N"] % 2 == 1)


@st.composite
def meta(draw):
    c = draw(cases(kinds=["normal", "skew", "ties"]))
    c["a"] = draw(st.one_of(st.floats(0.01, 100), st.floats(-100, -0.01)))
    c["b"] = draw(st.floats(-100, 100))
    return c


@sub("C13", meta(), quick=300, rule="at least 2 parameters")
def metamorphic(case, t):
    """Indices do not change under Y -> aY+b; each depends on its own block only,
    so permuting parameters with their blocks permutes the results."""
    from SALib.analyze import fast

    p = case["p"]
    D, N = p["num_vars"], case["N"]
    Y = outputs(case)
    kw = dict(M=case["M"], num_resamples=2)
    S = fast.analyze(mk(p), Y.copy(), **kw)
    tol = 1e-7 * (1 + abs(case["b"] / case["a"]))
    T = fast.analyze(mk(p), case["a"] * Y + case["b"], **kw)
    for k in ("S1", "ST"):
        same(T[k], S[k], k + " after aY+b", tol, tol)
    perm = rng(case["seed"] + 3).permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    T = fast.analyze(q, Y.reshape(D, N)[perm].ravel(), **kw)
    for k in ("S1", "ST"):
        same(T[k], np.asarray(S[k])[perm], k + " of permuted parameters", 1e-9, 1e-12)
    t.nontrivial(D > 1)


@st.composite
def boot(draw):
    c = draw(cases(max_d=2, extra=120, kinds=["normal", "skew"]))
    c["M"] = draw(st.integers(1, 8))
    c["N"] = max(c["N"], 8 * c["M"] ** 2 + 10)
    return c


@sub("C13", boot(), quick=60, rule="every case")
def bootstrap_interval(case, t):
    """The intervals agree with an independent bootstrap over half of the block,
    drawn with replacement."""
    from SALib.analyze import fast

    p, M, N = case["p"], case["M"], case["N"]
    D = p["num_vars"]
    Y = outputs(case)
    r = rng(case["seed"] + 9)
    j = D - 1
    y = Y.reshape(D, N)[j]
    m = (N + 1) // 2
    om = (m - 1) // (2 * M)
    Z = y[r.integers(N, size=(1500, m))]
    P = np.abs(np.fft.rfft(Z, axis=1)) ** 2
    P = P[:, 1 : int(np.ceil(m / 2))]
    V = P.sum(axis=1)
    s1 = P[:, om * np.arange(1, M + 1) - 1].sum(axis=1) / V
    stt = 1 - P[:, : om // 2].sum(axis=1) / V
    for k, ref in (("S1_conf", s1), ("ST_conf", stt)):
        bootstrap_agrees(
            lambda R, sd: fast.analyze(mk(p), Y, M=M, num_resamples=R, conf_level=case["conf"], seed=sd)[k][j],
            ref, case["conf"], k, many=800, calls=1000 if k == "S1_conf" and case["seed"] % 4 == 0 else 0,
        )
    t.nontrivial()


@st.composite
def linear(draw):
    d = draw(st.integers(2, 6))
    return {
        "p": draw(problems(d, d, groups=False, dists=False)),
        "coef": draw(st.lists(st.floats(-3, 3).map(lambda v: round(v, 2)), min_size=d, max_size=d)),
        "M": draw(st.integers(4, 6)),
        "N": draw(st.integers(1500, 2500)),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C13", linear(), quick=150, rule="at least 2 influential parameters")
def recovers_additive_models(case, t):
    """Sampling and analyzing a model linear in uniform inputs gives
    S1 = ST = c_i^2/sum c^2 (tolerance 0.06: truncation and interference)."""
    from SALib.analyze import fast
    from SALib.sample import fast_sampler

    p = case["p"]
    c = np.array(case["coef"])
    if np.abs(c).max() < 0.1:
        return
    X = fast_sampler.sample(mk(p), case["N"], M=case["M"], seed=case["seed"])
    b = np.array(p["bounds"])
    Y = ((X - b[:, 0]) / (b[:, 1] - b[:, 0])) @ c
    S = fast.analyze(mk(p), Y, M=case["M"], num_resamples=2, seed=1)
    ref = c**2 / (c**2).sum()
    for k in ("S1", "ST"):
        got = np.asarray(S[k])
        require(np.all(np.abs(got - ref) < 0.06), "{} {} but the model has {}", k, got, ref)
    t.nontrivial((np.abs(c) > 0.3).sum() > 1)


@sub("C13", cases(), quick=100, rule="every case is invalid")
def wrong_output_sizes_raise(case, t):
    from SALib.analyze import fast

    p = case["p"]
    D = p["num_vars"]
    if D == 1:
        return
    k = 1 + case["seed"] % (D - 1)
    Y = rng(case["seed"]).normal(size=case["N"] * D + k)
    t.nontrivial()
    try:
        fast.analyze(mk(p), Y, M=case["M"], num_resamples=2)
    except ValueError:
        return
    fail("{} outputs for {} parameters accepted", len(Y), D)
