"""Regional sensitivity analysis."""

import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, from_unit, group_list, mk, mk_y, mostly, problems, rng, same

RULE = "Random problems (with groups), bins 1..60, both targets, continuous/discrete inputs, outputs with ties; non-trivial = at least 2 bins and 2 parameters."
KINDS = ["normal", "func", "skew", "ties", "offset", "tiny", "micro"]


@st.composite
def cases(draw, kinds=KINDS):
    b = draw(st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, 60), st.sampled_from([49, 98, 103])))
    return {
        "p": draw(problems(1, 5, min_groups=1, dists=False, wide=14)),
        "bins": b,
        "N": draw(mostly(st.one_of(st.integers(max(2, b), 250), st.integers(max(2, b), 250), st.integers(2, 7)), st.sampled_from([600, 1100, 2500]))),
        "seed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(kinds)),
        "disc": draw(st.sampled_from([0, 0, 1, 2, 5, -1])),
        "target": draw(st.sampled_from(["X", "Y"])),
    }


def data(case):
    p = case["p"]
    N = case["N"]
    while math.gcd(N - 1, case["bins"]) != 1:
        N += 1
    r = rng(case["seed"])
    U = r.random((N, p["num_vars"]))
    if case["disc"] > 0:
        U[:, -1] = r.integers(0, case["disc"], N) / case["disc"]
    elif case["disc"] < 0:
        U[:, -1] = 0.0
        U[0, -1] = 0.5
    return from_unit(U, p), mk_y(case["y"], case["seed"] + 1, N, U)


def cvm(x, y):
    """Two-sample Cramer-von Mises statistic (Anderson 1962), mid-ranks for ties."""
    from scipy.stats import rankdata

    n, m = len(x), len(y)
    r = rankdata(np.concatenate([np.sort(x), np.sort(y)]))
    U = n * ((r[:n] - np.arange(1, n + 1)) ** 2).sum() + m * ((r[n:] - np.arange(1, m + 1)) ** 2).sum()
    return U / (n * m * (n + m)) - (4 * n * m - 1) / (6 * (n + m))


def reference(X, Y, bins, target):
    N, D = X.shape
    out = np.full((bins, D), np.nan)
    for i in range(D):
        t, m = (X[:, i], Y) if target == "X" else (Y, X[:, i])
        ts = np.sort(t)
        edge = []
        for s in range(bins + 1):
            k, rem = divmod(s * (N - 1), bins)
            lo, hi = ts[k], ts[min(k + 1, N - 1)]
            edge.append(lo if rem == 0 or lo == hi else lo + (hi - lo) * (rem / bins))
        for s in range(bins):
            b = (t > edge[s]) & (t <= edge[s + 1])
            if s == 0:
                b |= t == edge[0]
            if (~b).sum() >= 2 and len(np.unique(Y[b])) > 1:
                out[s, i] = cvm(m[b], m[~b])
    return out


def grouped(T, p):
    if not p.get("groups") or len(set(p["groups"])) == 1:
        return p["names"], T
    order, memb = group_list(p)
    memb = np.array(memb)
    return order, np.column_stack([np.nanmean(T[:, memb == g], axis=1) for g in range(len(order))])


@sub("C18", cases(), quick=800, rule="at least 2 bins and 2 parameters")
def matches_the_definition(case, t):
    """Cramer-von Mises distance between the mapped samples inside and outside of
    each percentile bin; NaN where a bin is empty or its outputs are constant;
    groups are averaged; the table has a row per bin and a column per factor."""
    from SALib.analyze import rsa

    p, bins = case["p"], case["bins"]
    X, Y = data(case)
    Si = rsa.analyze(mk(p), X.copy(), Y.copy(), bins=bins, target=case["target"])
    names, ref = grouped(reference(X, Y, bins, case["target"]), p)
    require([str(n) for n in Si["names"]] == names, "names {} for {}", Si["names"], names)
    for j, n in enumerate(names):
        same(Si[n], ref[:, j], "bins of %r" % n, 1e-7, 1e-9)
    df = Si.to_df()
    require(df.shape == (bins, len(names)) and [str(c) for c in df.columns] == names, "table {} x {}", df.shape, list(df.columns))
    same(df.values, ref, "table", 1e-7, 1e-9)
    same(np.asarray(df.index, float), np.arange(bins) / bins, "bin labels", 1e-9, 1e-12)
    require(Si["target"] == case["target"], "target {}", Si["target"])
    t.nontrivial(bins > 1 and p["num_vars"] > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("target X", case["target"] == "X")
    t.label("undefined bins", bool(np.isnan(ref).any()))


@sub("C18", cases(kinds=["normal", "func", "ties"]), quick=200, rule="at least 2 bins and 2 parameters")
def invariances(case, t):
    """Changing units (increasing affine maps) of inputs or output, reordering the
    runs: same results; permuting parameters permutes them."""
    from SALib.analyze import rsa

    p, bins = mk(case["p"]), case["bins"]
    p.pop("groups", None)
    D = p["num_vars"]
    X, Y = data(case)
    kw = dict(bins=bins, target=case["target"])

    def tab(q, x, y):
        return rsa.analyze(mk(q), x, y, **kw).to_df().values

    S = tab(p, X.copy(), Y.copy())
    q = mk(p)
    q["bounds"] = [[8 * a, 8 * b] for a, b in q["bounds"]]
    same(tab(q, X * 8, Y * 4), S, "after a change of units", 1e-8, 1e-10)
    r = rng(case["seed"] + 3)
    o = r.permutation(len(Y))
    same(tab(p, X[o], Y[o]), S, "after reordering the runs", 1e-8, 1e-10)
    perm = r.permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    same(tab(q, X[:, perm].copy(), Y.copy()), S[:, perm], "of permuted parameters", 1e-8, 1e-10)
    t.nontrivial(bins > 1 and D > 1)
