"""Scaling of unit samples to bounds and distributions."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import (SMALL_SEEDS, dist_bounds, from_unit, mk, problems, ref_cdf, rng, same, same_x, unif_bounds, within)

RULE = "Problem specs with random bounds / distributions and unit-cube points; non-trivial = more than 3 points (or an illegal spec)."

UNIT = st.one_of(
    st.floats(0, 1, exclude_max=True), st.sampled_from([0.5, 0.25, 1e-9, 1e-7, 1e-12, 3e-8, 1 - 1e-7, 1 - 1e-9, 0.75, 1.0, 1 - 2.0**-53])
)


@st.composite
def cases(draw, kinds=None):
    p = draw(problems(1, 6, groups=False, wide=20))
    return {"p": p, "n": draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(1, 60), st.sampled_from([257, 1025, 5000]))), "seed": draw(SMALL_SEEDS)}


def _unit(case):
    return rng(case["seed"]).random((case["n"], case["p"]["num_vars"]))


@sub("C03", cases(), quick=1500, rule="more than 3 points")
def quantile_of_declared_distribution(case, t):
    from SALib.util import scale_samples

    p = case["p"]
    U = _unit(case)
    got = scale_samples(U.copy(), mk(p))
    require(got.shape == U.shape, "shape {}", got.shape)
    same_x(got, from_unit(U, p), "scaled samples", 1e-8)
    within(got, p)
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    for j, (d, b) in enumerate(zip(ds, p["bounds"])):
        t.label(d + (str(len(b)) if d in ("triang", "weibull") else ""))
        x = got[:, j]
        if d in ("unif", "logunif", "truncnorm"):
            lo, hi = b[0], b[1]
        elif d == "triang":
            lo, hi = (b[0], b[1]) if len(b) == 3 else (0.0, b[0])
        else:
            lo, hi = -np.inf, np.inf
        eps = 1e-9 * max(1.0, abs(lo) if np.isfinite(lo) else 1, abs(hi) if np.isfinite(hi) else 1)
        require(np.all((x >= lo - eps) & (x <= hi + eps)), "{} leaves its support {}", d, b)
        o = np.argsort(U[:, j])
        require(np.all(np.diff(x[o]) >= -eps), "{} scaling is not monotone", d)
    t.nontrivial(case["n"] > 3)


@st.composite
def single(draw):
    k, b = draw(dist_bounds())
    return {"d": k, "b": b, "u": draw(st.lists(UNIT, min_size=1, max_size=8))}


@sub("C03", single(), quick=1000, rule="more than one unit value")
def inverse_cdf_single(case, t):
    """CDF (independent) of the scaled value gives the unit value back."""
    from SALib.util import scale_samples

    u = np.array(case["u"], dtype=float)[:, None]
    p = {"num_vars": 1, "names": ["x"], "bounds": [case["b"]], "dists": [case["d"]]}
    x = scale_samples(u.copy(), p)[:, 0]
    within(x[:, None], p)
    inner = (u[:, 0] > 1e-6) & (u[:, 0] < 1 - 1e-6)
    back = ref_cdf(case["d"], case["b"], x[inner])
    tol = 1e-6
    if np.any(np.abs(back - u[inner, 0]) > tol):
        # cancellation: compare in x-space instead
        same_x(x[inner][:, None], from_unit(u[inner], p), "quantiles of " + case["d"], 1e-8)
    tail = (u[:, 0] > 0) & ~inner & (u[:, 0] < 0.9999999999)
    if tail.any():
        want = from_unit(u[tail], p)[:, 0]
        q = from_unit(np.array([[0.1], [0.9]]), p)[:, 0]
        same(x[tail], want, "tail quantiles of " + case["d"], 1e-5, 1e-6 * (abs(q).max() + abs(q[1] - q[0])))
    t.nontrivial(len(case["u"]) > 1)
    t.label(case["d"])


@sub(
    "C03",
    st.fixed_dictionaries({"p": problems(1, 5, groups=False, dists=False), "n": st.integers(1, 30), "seed": SMALL_SEEDS}),
    quick=300,
    rule="more than 3 points",
)
def uniform_default_and_explicit(case, t):
    """No `dists`, and `dists` all 'unif', scale identically; affine map of the cube."""
    from SALib.util import scale_samples

    U = rng(case["seed"]).random((case["n"], case["p"]["num_vars"]))
    p1, p2 = mk(case["p"]), mk(case["p"])
    p2["dists"] = ["unif"] * p2["num_vars"]
    p3 = mk(case["p"])
    p3["dists"] = None
    a = scale_samples(U.copy(), p1)
    same_x(a, scale_samples(U.copy(), p2), "dists=unif", 1e-13)
    same_x(a, scale_samples(U.copy(), p3), "dists=None", 1e-13)
    b = np.array(case["p"]["bounds"])
    same_x(a, b[:, 0] + U * (b[:, 1] - b[:, 0]), "affine map", 1e-13)
    same_x(scale_samples(np.zeros((1, len(b))), mk(case["p"])), b[:, :1].T, "0 maps to the lower bound")
    same_x(scale_samples(np.ones((1, len(b))), mk(case["p"])), b[:, 1:].T, "1 maps to the upper bound")
    # bounds whose difference is not a floating point number: rounding must not
    # carry the largest samples past them
    r = rng(case["seed"] + 1)
    lo, hi = -r.random(64) * 10.0 ** r.integers(0, 6, 64), r.random(64) * 10.0 ** r.integers(-3, 3, 64)
    q = {"num_vars": 64, "names": ["x%d" % i for i in range(64)], "bounds": np.column_stack([lo, hi]).tolist()}
    E = np.array([1.0, 1 - 2.0**-53, 1 - 2.0**-52, 0.0])[:, None] * np.ones((4, 64))
    within(scale_samples(E.copy(), dict(q)), q)
    within(scale_samples(E.copy(), dict(q, dists=["unif"] * 64)), q)
    t.nontrivial(case["n"] > 3)


POS = st.floats(0.01, 50)
ANY = st.floats(-50, 50)
NONPOS = st.one_of(st.just(0.0), st.floats(-20, 0))


@st.composite
def illegal(draw):
    kind = draw(
        st.sampled_from(
            [
                "unif_default", "unif", "norm", "lognorm", "truncnorm_sd", "truncnorm_order",
                "triang_peak_hi", "triang_peak_lo", "triang_order", "weibull_k", "weibull_l",
                "unknown", "count", "logunif_order", "logunif_neg", "triang_arity", "weibull_arity",
                "weibull_both", "logunif_both", "triang2", "truncnorm_both", "triang_both",
            ]
        )
    )
    a, w = draw(ANY), draw(POS)
    if kind in ("unif_default", "unif"):
        b, d = [a, a - draw(st.one_of(st.just(0.0), POS))], "unif"
    elif kind in ("norm", "lognorm"):
        b, d = [a, draw(NONPOS)], kind
    elif kind == "truncnorm_sd":
        b, d = [a, a + w, a, draw(NONPOS)], "truncnorm"
    elif kind == "truncnorm_order":
        b, d = [a, a - draw(st.one_of(st.just(0.0), POS)), a, w], "truncnorm"
    elif kind == "triang_peak_hi":
        b, d = [a, a + w, 1 + w], "triang"
    elif kind == "triang_peak_lo":
        b, d = [a, a + w, -w], "triang"
    elif kind == "triang_order":
        b, d = [a, a - w, 0.5], "triang"
    elif kind == "weibull_k":
        b, d = [draw(NONPOS), w], "weibull"
    elif kind == "weibull_l":
        b, d = [w, draw(NONPOS), a], "weibull"
    elif kind == "unknown":
        b, d = [a, a + w], draw(st.sampled_from(["uniform", "gamma", "normal", "", "Unif"]))
    elif kind == "logunif_order":
        b, d = [w, w * draw(st.floats(0.1, 1.0))], "logunif"
    elif kind == "logunif_neg":
        b, d = [draw(NONPOS), w], "logunif"
    elif kind == "triang_arity":
        b, d = [a, a + w, 0.5, 0.5], "triang"
    elif kind == "weibull_both":
        b, d = [-w, -draw(POS)] + ([a] if draw(st.booleans()) else []), "weibull"
    elif kind == "logunif_both":
        b, d = [-w, -w * draw(st.floats(0.1, 3.0))], "logunif"
    elif kind == "triang2":
        b, d = draw(st.sampled_from([[-w, 0.5], [0.0, 0.5], [w, 1 + w], [w, -w], [-w, -w], [-w, 1 + w]])), "triang"
    elif kind == "truncnorm_both":
        b, d = [a, a - w, a, -w], "truncnorm"
    elif kind == "triang_both":
        b, d = [a, a - w, draw(st.sampled_from([-0.5, 1.5]))], "triang"
    elif kind == "weibull_arity":
        b, d = [w, w, 0.0, 1.0], "weibull"
    else:
        b, d = [a, a + w], "unif"
    good = draw(problems(1, 3, groups=False, kinds=["unif", "norm"]))
    return {"kind": kind, "b": b, "d": d, "good": good, "pos": draw(st.integers(0, 3)),
            "via": draw(st.sampled_from(["scale", "saltelli", "latin", "sobol", "morris", "fast", "finite_diff"]))}


@sub("C03", illegal(), quick=600, rule="every case is an illegal spec")
def illegal_specs_raise(case, t):
    """Illegal bounds / distribution parameters raise ValueError, through the
    scaler and through the samplers."""
    from SALib.util import scale_samples

    p = mk(case["good"])
    ds = p.pop("dists", None) or ["unif"] * p["num_vars"]
    pos = min(case["pos"], p["num_vars"])
    p["names"].insert(pos, "illegal one")
    p["bounds"].insert(pos, case["b"])
    ds.insert(pos, case["d"])
    p["num_vars"] += 1
    if case["kind"] == "unif_default":
        if any(d != "unif" for d in ds):
            p["bounds"] = [b if d == "unif" else [0, 1] for b, d in zip(p["bounds"], ds)]
    else:
        p["dists"] = ds
    if case["kind"] == "count":
        p["dists"] = ds + ["unif"]
    t.nontrivial()
    t.label(case["kind"])
    D = p["num_vars"]
    via = case["via"]
    t.label("via " + via)
    try:
        if via == "scale":
            out = scale_samples(np.full((4, D), 0.3), p)
        elif via == "saltelli":
            from SALib.sample import saltelli

            out = saltelli.sample(p, 4)
        elif via == "sobol":
            from SALib.sample import sobol

            out = sobol.sample(p, 4, seed=1)
        elif via == "latin":
            from SALib.sample import latin

            out = latin.sample(p, 4, seed=1)
        elif via == "morris":
            from SALib.sample import morris

            out = morris.sample(p, 4, seed=1)
        elif via == "fast":
            from SALib.sample import fast_sampler

            out = fast_sampler.sample(p, 70, seed=1)
        else:
            from SALib.sample import finite_diff

            out = finite_diff.sample(p, 4, seed=1)
    except ValueError:
        return
    fail("{} spec {} {} accepted by {} -> {}", case["kind"], case["d"], case["b"], via, np.array2string(out[:2]))


@sub("C03", cases(), quick=200, rule="several columns")
def columns_are_independent(case, t):
    """Scaling acts column by column: permuting parameters permutes columns."""
    from SALib.util import scale_samples

    p = case["p"]
    D = p["num_vars"]
    U = _unit(case)
    perm = rng(case["seed"] + 1).permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    if p.get("dists"):
        q["dists"] = [p["dists"][i] for i in perm]
    a = scale_samples(U.copy(), mk(p))
    b = scale_samples(U[:, perm].copy(), q)
    same_x(b, a[:, perm], "permuted parameters", 1e-13)
    t.nontrivial(D > 1 and case["n"] > 1)
