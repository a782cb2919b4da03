"""Sobol' indices: bootstrap intervals, kept resamples, parallel execution."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, close, mk, mk_y, mostly, problems, rng, same
from vlib.refs import sobol_indices
from checks.c10 import n_factors

RULE = "Random problems, outputs, confidence levels, resample counts and process counts; non-trivial = at least 2 factors."

KEYS = ["S1", "S1_conf", "ST", "ST_conf", "S2", "S2_conf", "S1_conf_all", "ST_conf_all"]


def run(p, Y, so, **kw):
    from SALib.analyze import sobol

    return sobol.analyze(mk(p), Y.copy(), calc_second_order=so, **kw)


@st.composite
def cases(draw, kinds=("normal", "skew", "ties", "offset", "micro"), min_n=2, max_n=40):
    return {
        "p": draw(problems(1, 5, min_groups=1, wide=12)),
        "N": draw(mostly(st.integers(min_n, max_n), st.sampled_from([130, 520, 1030]))),
        "so": draw(st.booleans()),
        "y": draw(st.sampled_from(list(kinds))),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "R": draw(st.integers(2, 60)),
        "conf": draw(st.one_of(st.sampled_from([0.95, 0.9, 0.5]), st.floats(0.05, 0.999))),
    }


def outputs(case):
    D = n_factors(case["p"])
    n = case["N"] * (2 * D + 2 if case["so"] else D + 2)
    return D, mk_y(case["y"], case["seed"], n)


@sub("C11", cases(), quick=500, rule="at least 2 factors")
def interval_is_scaled_spread_of_resamples(case, t):
    """conf = norm.ppf(0.5 + level/2) * sample std of the kept resamples; it does
    not depend on whether resamples are kept; it scales with the level."""
    D, Y = outputs(case)
    kw = dict(num_resamples=case["R"], seed=case["aseed"])
    S = run(case["p"], Y, case["so"], conf_level=case["conf"], keep_resamples=True, **kw)
    Z = norm.ppf(0.5 + case["conf"] / 2)
    for k in ("S1", "ST"):
        allr = np.asarray(S[k + "_conf_all"])
        require(allr.shape == (case["R"], D), "{}_conf_all has shape {}", k, allr.shape)
        same(S[k + "_conf"], Z * allr.std(axis=0, ddof=1), k + "_conf vs kept resamples", 1e-7, 1e-10)
    Q = run(case["p"], Y, case["so"], conf_level=case["conf"], **kw)
    require("S1_conf_all" not in Q and "ST_conf_all" not in Q, "resamples kept unasked")
    W = run(case["p"], Y, case["so"], conf_level=0.8, **kw)
    ratio = Z / norm.ppf(0.9)
    iu = np.triu_indices(D, 1)
    for k in ("S1_conf", "ST_conf", "S2_conf", "S1", "ST", "S2"):
        if k not in S:
            require(k in ("S2", "S2_conf") and not case["so"], "{} missing", k)
            continue
        a, b, c = (np.asarray(x[k]) for x in (S, Q, W))
        if a.ndim == 2:
            a, b, c = a[iu], b[iu], c[iu]
        same(a, b, k + " depends on keep_resamples", 1e-9, 1e-12)
        same(a, c * (ratio if k.endswith("_conf") else 1.0), k + " under another level", 1e-7, 1e-10)
    t.nontrivial(D > 1)
    t.label("second order", case["so"])
    t.label("groups", bool(case["p"].get("groups")))


@sub("C11", cases(kinds=("normal", "offset"), min_n=25, max_n=60), quick=150, rule="at least 2 factors")
def bootstrap_of_base_points(case, t):
    """The intervals agree with an independent bootstrap that resamples base
    points with replacement (1500 resamples on both sides; the tolerance of 30%
    on the spread is above 8 standard errors)."""
    D, Y = outputs(case)
    so, N = case["so"], case["N"]
    R = 1500
    S = run(case["p"], Y, so, num_resamples=R, conf_level=0.95, seed=case["aseed"], keep_resamples=True)
    rows = rng(case["seed"] + 5).integers(N, size=(N, R))
    S1, ST, S2 = sobol_indices(Y, D, so, rows)
    z = norm.ppf(0.975)

    def comp(got, ref, what):
        require(
            0.7 * ref <= got <= ref / 0.7, "{}: interval {} but an independent bootstrap gives {}", what, got, ref
        )

    for j in range(D):
        for k, ref in (("S1", S1), ("ST", ST)):
            comp(S[k + "_conf"][j], z * ref[j].std(ddof=1), "%s_conf[%d]" % (k, j))
            a = np.asarray(S[k + "_conf_all"])[:, j]
            se = ref[j].std() * np.sqrt(2.0 / R)
            require(abs(a.mean() - ref[j].mean()) < 8 * se, "{}_conf_all[{}] is centred on {} not {}", k, j, a.mean(), ref[j].mean())
        if so:
            for k in range(j + 1, D):
                comp(S["S2_conf"][j, k], z * S2[j, k].std(ddof=1), "S2_conf[%d,%d]" % (j, k))
    t.nontrivial(D > 1)


@st.composite
def par(draw):
    c = draw(cases(kinds=("normal", "ties", "const"), min_n=1, max_n=20))
    if draw(st.integers(0, 5)) == 3:
        c["p"] = draw(problems(8, 14, min_groups=1))
    c["nproc"] = draw(st.one_of(st.none(), st.integers(1, 6)))
    c["keep"] = draw(st.booleans())
    return c


@sub("C11", par(), quick=120, thorough=1500, rule="at least 2 factors")
def parallel_equals_serial(case, t):
    D, Y = outputs(case)
    kw = dict(num_resamples=case["R"], conf_level=case["conf"], seed=case["aseed"], keep_resamples=case["keep"])
    a = run(case["p"], Y, case["so"], **kw)
    b = run(case["p"], Y, case["so"], parallel=True, n_processors=case["nproc"], **kw)
    require(set(a) == set(b), "keys differ: {} vs {}", sorted(a), sorted(b))
    for k in a:
        same(b[k], a[k], k + " in parallel", 1e-9, 1e-12)
    da, db = a.to_df(), b.to_df()
    require(len(da) == len(db) and all(x.equals(y) or close(x.values, y.values) for x, y in zip(da, db)), "tables differ")
    t.nontrivial(D > 1)
    t.label("kept", case["keep"])
    t.label("const", case["y"] == "const")
