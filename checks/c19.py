"""Discrepancy indices."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, from_unit, group_list, mk, mk_y, mostly, problems, rng, same

RULE = "Random uniform problems (with groups), all four discrepancies, random designs and outputs; non-trivial = at least 2 parameters."
KINDS = ["normal", "func", "skew", "ties", "offset", "big", "tiny", "micro"]


@st.composite
def cases(draw, methods=("WD", "CD", "MD", "L2-star")):
    return {
        "p": draw(problems(1, 6, min_groups=1, dists=False, wide=14)),
        "N": draw(mostly(st.integers(2, 120), st.sampled_from([257, 400, 520]), 19)),
        "seed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(KINDS)),
        "method": draw(st.sampled_from(list(methods))),
        "lhs": draw(st.booleans()),
    }


def data(case):
    p, N = case["p"], case["N"]
    r = rng(case["seed"])
    D = p["num_vars"]
    if case["lhs"]:
        U = np.column_stack([(r.permutation(N) + r.random(N)) / N for _ in range(D)])
    else:
        U = r.random((N, D))
    U = 0.001 + 0.998 * U
    return U, from_unit(U, p), mk_y(case["y"], case["seed"] + 1, N, U)


def disc(Z, method):
    n, d = Z.shape
    A, B = Z[:, None, :], Z[None, :, :]
    df = np.abs(A - B)
    if method == "WD":
        return -((4 / 3) ** d) + (1.5 - df * (1 - df)).prod(axis=2).mean()
    c = np.abs(Z - 0.5)
    ca, cb = c[:, None, :], c[None, :, :]
    if method == "CD":
        return (13 / 12) ** d - 2 * (1 + 0.5 * c - 0.5 * c**2).prod(axis=1).mean() + (1 + 0.5 * ca + 0.5 * cb - 0.5 * df).prod(axis=2).mean()
    if method == "MD":
        return (19 / 12) ** d - 2 * (5 / 3 - 0.25 * c - 0.25 * c**2).prod(axis=1).mean() + (15 / 8 - 0.25 * ca - 0.25 * cb - 0.75 * df + 0.5 * df**2).prod(axis=2).mean()
    v = 3.0**-d - 2.0 ** (1 - d) * (1 - Z**2).prod(axis=1).mean() + (1 - np.maximum(A, B)).prod(axis=2).mean()
    return np.sqrt(v)


@sub("C19", cases(), quick=800, rule="at least 2 parameters")
def matches_the_definition(case, t):
    """Discrepancy of the [X_i, Y] projection rescaled to the unit square, as a
    share of the total; groups report the mean of their members."""
    from SALib.analyze import discrepancy

    p = case["p"]
    U, X, Y = data(case)
    if np.ptp(Y) == 0:
        return
    kw = {} if case["method"] == "WD" and case["seed"] % 2 else {"method": case["method"]}
    Si = discrepancy.analyze(mk(p), X.copy(), Y.copy(), **kw)
    y = (Y - Y.min()) / np.ptp(Y)
    v = np.array([disc(np.column_stack([U[:, i], y]), case["method"]) for i in range(p["num_vars"])])
    v = v / v.sum()
    names = p["names"]
    if p.get("groups") and len(set(p["groups"])) > 1:
        names, memb = group_list(p)
        v = np.array([v[np.array(memb) == g].mean() for g in range(len(names))])
    require([str(n) for n in Si["names"]] == names, "names {} for {}", Si["names"], names)
    same(Si["s_discrepancy"], v, "s_discrepancy", 1e-5, 1e-7)
    df = Si.to_df()
    require([str(i) for i in df.index] == names, "table index {}", list(df.index))
    t.nontrivial(p["num_vars"] > 1)
    t.label(case["method"])
    t.label("groups", bool(p.get("groups")))


@sub("C19", cases(methods=("WD", "CD", "MD")), quick=200, rule="at least 2 parameters")
def invariances(case, t):
    """No change under Y -> aY+b, changes of input units, reordering of the runs;
    permuting parameters permutes the results; shares sum to one."""
    from SALib.analyze import discrepancy

    p = mk(case["p"])
    p.pop("groups", None)
    D = p["num_vars"]
    U, X, Y = data(case)
    if np.ptp(Y) == 0:
        return

    def run(q, x, y):
        return np.asarray(discrepancy.analyze(mk(q), x, y, method=case["method"])["s_discrepancy"])

    S = run(p, X.copy(), Y.copy())
    require(abs(S.sum() - 1) < 1e-9 and np.all(S >= 0), "shares {}", S)
    same(run(p, X.copy(), -2.5 * Y + 4), S, "after aY+b", 1e-5, 1e-7)
    o = rng(case["seed"] + 3).permutation(len(Y))
    same(run(p, X[o], Y[o]), S, "after reordering the runs", 1e-8, 1e-10)
    perm = rng(case["seed"] + 4).permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    same(run(q, X[:, perm].copy(), Y.copy()), S[perm], "of permuted parameters", 1e-8, 1e-10)
    t.nontrivial(D > 1)


@st.composite
def invalid(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["low", "high", "method"]))
    return c


@sub("C19", invalid(), quick=100, rule="every case is invalid")
def samples_outside_the_bounds_raise(case, t):
    from SALib.analyze import discrepancy

    p = case["p"]
    U, X, Y = data(case)
    if np.ptp(Y) == 0:
        return
    lo, hi = p["bounds"][-1]
    kw = {}
    if case["kind"] == "method":
        kw["method"] = "nope"
    else:
        X[-1, -1] = hi + 0.5 * (hi - lo) if case["kind"] == "high" else lo - 0.5 * (hi - lo)
    t.nontrivial()
    try:
        discrepancy.analyze(mk(p), X, Y, **kw)
    except ValueError:
        return
    fail("{}: accepted", case["kind"])
