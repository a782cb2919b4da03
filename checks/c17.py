"""PAWN analysis."""

import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, from_unit, group_list, mk, mk_y, mostly, problems, rng, same

RULE = "Random problems (with groups), sample sizes, slide counts 1..60, continuous/discrete/constant inputs, outputs with ties and NaN; non-trivial = at least 2 slides and 2 parameters."
KINDS = ["normal", "func", "skew", "ties", "offset", "tiny", "micro"]
STATS = ["minimum", "mean", "median", "maximum", "stdev", "CV"]


@st.composite
def cases(draw, kinds=KINDS, nan=True, discrete=True):
    S = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    N = draw(mostly(st.integers(max(2, S), 250), st.sampled_from([600, 1100, 2500])))
    return {
        "p": draw(problems(1, 5, min_groups=2, dists=False, wide=14)),
        "S": S,
        "N": N,
        "seed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(kinds)),
        "nan": draw(st.sampled_from([0, 0, 1, 5])) if nan else 0,
        "disc": draw(st.sampled_from([0, 0, 1, 2, 5])) if discrete else 0,
    }


def data(case):
    """Sample sizes are adjusted so that no interior quantile is exactly a
    sample point (membership would then hang on rounding)."""
    p, S = case["p"], case["S"]
    N = case["N"]
    while math.gcd(N - 1, S) != 1:
        N += 1
    D = p["num_vars"]
    r = rng(case["seed"])
    U = r.random((N, D))
    if case["disc"]:
        U[:, -1] = r.integers(0, case["disc"], N) / max(case["disc"], 1)
    X = from_unit(U, p)
    Y = mk_y(case["y"], case["seed"] + 1, N, U)
    if case["nan"]:
        Y[r.choice(N, min(case["nan"], N // 3), replace=False)] = np.nan
    return X, Y


def ks(a, b):
    g = np.concatenate([a, b])
    a, b = np.sort(a), np.sort(b)
    return np.max(np.abs(np.searchsorted(a, g, "right") / len(a) - np.searchsorted(b, g, "right") / len(b)))


def slides(x, Y, S):
    xs = np.sort(x)
    n = len(xs)
    edge = []
    for s in range(S + 1):
        # s (n-1) / S in exact arithmetic
        k, rem = divmod(s * (n - 1), S)
        lo, hi = xs[k], xs[min(k + 1, n - 1)]
        edge.append(lo if rem == 0 or lo == hi else lo + (hi - lo) * (rem / S))
    ok = ~np.isnan(Y)
    out = []
    for s in range(S):
        sel = (x >= edge[s]) & (x < edge[s + 1])
        if s == S - 1:
            sel |= x == edge[S]
        if (sel & ok).any():
            out.append(ks(Y[sel & ok], Y[ok]))
    return np.array(out)


def table(X, Y, S):
    rows = []
    for i in range(X.shape[1]):
        k = slides(X[:, i], Y, S)
        m = k.mean()
        rows.append([k.min(), m, np.median(k), k.max(), k.std(), k.std() / m if m > 0 else np.nan])
    return np.array(rows)


def grouped(T, p):
    order, memb = group_list(p)
    memb = np.array(memb)
    return np.array([T[memb == g].mean(axis=0) for g in range(len(order))])


@sub("C17", cases(), quick=1000, rule="at least 2 slides and 2 parameters")
def matches_the_definition(case, t):
    """Kolmogorov-Smirnov distance between the outputs conditioned on each
    quantile slide and all outputs, summarised over the slides, averaged over
    groups, ignoring NaN outputs."""
    from SALib.analyze import pawn

    p = case["p"]
    X, Y = data(case)
    Si = pawn.analyze(mk(p), X.copy(), Y.copy(), S=case["S"])
    ref = grouped(table(X, Y, case["S"]), p)
    order, _ = group_list(p)
    require([str(n) for n in Si["names"]] == order, "names {} for {}", Si["names"], order)
    for j, k in enumerate(STATS):
        got = np.asarray(Si[k], float)
        same(got, ref[:, j], k, 1e-8, 1e-10)
    t.nontrivial(case["S"] > 1 and p["num_vars"] > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("nan", case["nan"] > 0)
    t.label("discrete", case["disc"] > 0)


@sub("C17", cases(kinds=["normal", "func", "ties"]), quick=250, rule="at least 2 slides and 2 parameters")
def monotone_transformations(case, t):
    """Only the order of inputs and outputs matters; the order of the runs does
    not; permuting parameters permutes the results."""
    from SALib.analyze import pawn

    p = mk(case["p"])
    p.pop("groups", None)
    D = p["num_vars"]
    X, Y = data(case)
    S = pawn.analyze(mk(p), X.copy(), Y.copy(), S=case["S"])
    Z = np.where(np.isnan(Y), np.nan, np.round(Y, 6) ** 3 * 7 + np.round(Y, 6) - 2)
    Y6 = np.round(Y, 6)
    S6 = pawn.analyze(mk(p), X.copy(), Y6, S=case["S"])
    T = pawn.analyze(mk(p), X.copy(), Z, S=case["S"])
    o = rng(case["seed"] + 3).permutation(len(Y))
    R = pawn.analyze(mk(p), X[o], Y[o], S=case["S"])
    perm = rng(case["seed"] + 4).permutation(D)
    q = {"num_vars": D, "names": [p["names"][i] for i in perm], "bounds": [p["bounds"][i] for i in perm]}
    P = pawn.analyze(q, X[:, perm].copy(), Y.copy(), S=case["S"])
    for k in STATS:
        same(T[k], S6[k], k + " after an increasing transformation of the output", 1e-9, 1e-12)
        same(R[k], S[k], k + " after reordering the runs", 1e-9, 1e-12)
        same(P[k], np.asarray(S[k])[perm], k + " of permuted parameters", 1e-9, 1e-12)
    a = np.asarray(S["minimum"]), np.asarray(S["median"]), np.asarray(S["mean"]), np.asarray(S["maximum"])
    require(np.all(a[0] >= 0) and np.all(a[3] <= 1), "distances outside [0, 1]")
    for m in (a[1], a[2]):
        require(np.all(a[0] <= m + 1e-12) and np.all(m <= a[3] + 1e-12), "average outside of min..max")
    t.nontrivial(case["S"] > 1 and D > 1)
