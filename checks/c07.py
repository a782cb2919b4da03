"""eFAST search curves."""

import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, problems, to_unit, within

RULE = "Problem specs (up to 12 parameters), M in 1..6 and N from the smallest admissible value upwards."


@st.composite
def cases(draw):
    M = draw(st.sampled_from([4, 1, 2, 3, 5, 6]))
    p = draw(problems(1, 12, groups=False, wide=40))
    N = 4 * M * M + draw(st.one_of(st.integers(1, 5), st.integers(1, 400)))
    return {"p": p, "N": N, "M": M, "seed": draw(SMALL_SEEDS), "omitM": draw(st.booleans())}


def frequencies(N, M, D):
    w0 = (N - 1) // (2 * M)
    m = w0 // (2 * M)
    if m >= D - 1:
        rest = np.floor(np.linspace(1, m, D - 1))
    else:
        rest = np.array([k % m + 1 for k in range(D - 1)], dtype=float)
    return w0, rest


@sub("C07", cases(), quick=800, rule="more than one parameter")
def search_curve(case, t):
    from SALib.sample import fast_sampler

    p, N, M = case["p"], case["N"], case["M"]
    D = p["num_vars"]
    kw = {} if (M == 4 and case["omitM"]) else {"M": M}
    X = fast_sampler.sample(mk(p), N, seed=case["seed"], **kw)
    within(X, p)
    require(X.shape == (N * D, D), "shape {}", X.shape)
    U = to_unit(X, p)
    s = 2 * math.pi / N * np.arange(N)
    w0, rest = frequencies(N, M, D)
    phis = []
    for i in range(D):
        blk = U[i * N : (i + 1) * N]
        w = np.insert(rest, i, w0)
        fits = []
        a = math.pi * (blk[0, 0] - 0.5)
        for phi in (a, math.pi - a):
            ref = 0.5 + np.arcsin(np.sin(w[None, :] * s[:, None] + phi)) / math.pi
            fits.append((np.max(np.abs(ref - blk)), phi % (2 * math.pi)))
        err, phi = min(fits)
        # the phase is recovered from one sample value; allow for conditioning
        require(
            err < 2e-3 if p.get("dists") else err < 1e-5,
            "block {} is not the search curve with frequencies {} (error {})",
            i,
            w,
            err,
        )
        phis.append(phi)
    for a in range(D):
        for b in range(a):
            require(abs(phis[a] - phis[b]) > 1e-12, "blocks {} and {} share their phase", a, b)
    t.nontrivial(D > 1)
    t.label("few frequencies", D > 1 and len(set(rest)) < len(rest))
    t.label("dists", bool(p.get("dists")))


@sub("C07", st.fixed_dictionaries({"seed": SMALL_SEEDS, "D": st.integers(1, 4)}), quick=20, thorough=200, rule="80 samples")
def phases_cover_the_circle(case, t):
    """Random phases lie in [0, 2*pi) and reach all quarters of it."""
    from SALib.sample import fast_sampler

    D, N = case["D"], 65
    p = {"num_vars": D, "names": ["x%d" % i for i in range(D)], "bounds": [[0, 1]] * D}
    quarters = [set() for _ in range(D)]
    for r in range(80):
        U = fast_sampler.sample(dict(p), N, seed=case["seed"] * 97 + r)
        for i in range(D):
            u0, u1 = U[i * N, i], U[i * N + 1, i]
            quarters[i].add((u0 > 0.5, u1 > u0))
    for i in range(D):
        require(len(quarters[i]) >= 3, "block {}: phases only reach {}", i, quarters[i])
    t.nontrivial()


@st.composite
def too_small(draw):
    M = draw(st.integers(1, 6))
    return {"p": draw(problems(1, 4, groups=False)), "M": M, "N": draw(st.integers(1, 4 * M * M))}


@sub("C07", too_small(), quick=80, rule="every case is too small")
def small_samples_rejected(case, t):
    from SALib.sample import fast_sampler

    t.nontrivial()
    try:
        fast_sampler.sample(mk(case["p"]), case["N"], M=case["M"], seed=1)
    except ValueError:
        return
    fail("N={} accepted for M={}", case["N"], case["M"])
