"""Finite-difference design."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, from_unit, mk, problems, same_x, support, within

RULE = "Problem specs with bounds / distributions, N, delta and skip; non-trivial = at least one perturbed point is clipped or D>1."


@st.composite
def cases(draw):
    return {
        "p": draw(problems(1, 6, wide=20)),
        "N": draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(1, 24), st.sampled_from([70, 260, 1030]))),
        "delta": draw(st.one_of(st.none(), st.sampled_from([0.01, 0.1, 0.5]), st.floats(1e-4, 0.9), st.floats(-0.9, -1e-4))),
        "skip": draw(st.one_of(st.none(), st.integers(0, 80), st.sampled_from([1, 2, 64, 1000, 1024, 4096, 5000]))),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C08", cases(), quick=800, rule="several parameters or a clipped step")
def one_parameter_per_row(case, t):
    from SALib.sample import finite_diff
    from scipy.stats import qmc

    p, N = case["p"], case["N"]
    D = p["num_vars"]
    kw = {}
    delta, skip = 0.01, 1024
    if case["delta"] is not None:
        delta = kw["delta"] = case["delta"]
    if case["skip"] is not None:
        skip = kw["skip_values"] = case["skip"]
    X = finite_diff.sample(mk(p), N, seed=case["seed"], **kw)
    require(X.shape == (N * (D + 1), D), "shape {}", X.shape)
    U = qmc.Sobol(D, scramble=False, bits=31).random(N + skip)[skip:]
    base = X[0 :: D + 1]
    same_x(base, from_unit(U, p), "base points vs Sobol' points", 1e-8)
    # the first Sobol' point is the infinite end of an unbounded distribution,
    # from where there are no steps
    finite = np.isfinite(base).all(axis=1)
    X = X[np.repeat(finite, D + 1)]
    base = base[finite]
    within(X, p)
    ds = p.get("dists") or ["unif"] * D
    clipped = False
    for j in range(D):
        row = X[1 + j :: D + 1]
        others = [k for k in range(D) if k != j]
        require(
            np.array_equal(row[:, others], base[:, others]),
            "row {} changes more than parameter {}",
            1 + j,
            j,
        )
        lo, hi = support(ds[j], p["bounds"][j])
        raw = base[:, j] * (1 + delta)
        want = np.clip(raw, lo, hi)
        clipped |= bool(np.any(want != raw))
        same_x(row[:, [j]], want[:, None], "perturbed parameter %d (%s %s)" % (j, ds[j], p["bounds"][j]), 1e-12)
        require(np.all((row[:, j] >= lo) & (row[:, j] <= hi)), "parameter {} leaves {}", j, (lo, hi))
    t.nontrivial(D > 1 or clipped)
    t.label("clipped", clipped)
    t.label("dists", bool(p.get("dists")))
    t.label("defaults", not kw)
