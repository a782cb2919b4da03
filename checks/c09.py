"""Two-level fractional factorial design and its effects."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, YKINDS, dist_bounds, mk, mk_y, problems, rng, same, within

RULE = "Problems of 1-40 parameters, some of up to 600; outputs from random vectors, linear and interaction models; non-trivial = at least 3 parameters."

BOUNDED = ["unif", "triang", "triang2", "truncnorm", "logunif"]


@st.composite
def big_problem(draw, max_d=20):
    if draw(st.booleans()):
        p = draw(problems(1, 9, groups=False, kinds=BOUNDED))
        return p
    d = draw(st.one_of(st.integers(1, max_d), st.integers(1, 40)))
    lo = draw(st.integers(-5, 5))
    return {
        "num_vars": d,
        "names": ["v%d" % i for i in range(d)],
        "bounds": [[lo - i, lo + 1 + 2 * i] for i in range(d)],
    }


def limits(p):
    out = []
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    for d, b in zip(ds, p["bounds"]):
        out.append((0.0, b[0]) if d == "triang" and len(b) == 2 else (b[0], b[1]))
    return out


def design(p):
    from SALib.sample import ff

    q = mk(p)
    X = ff.sample(q, seed=3)
    within(X[:, : p["num_vars"]], p)
    within(X[:, p["num_vars"] :], {"bounds": [[0.0, 1.0]] * (X.shape[1] - p["num_vars"])})
    return X, q


def coded(X, p):
    """+-1 coding of the sampled design, judged against the limits."""
    D = p["num_vars"]
    lim = limits(p) + [(0.0, 1.0)] * (X.shape[1] - D)
    C = np.zeros(X.shape)
    for j, (lo, hi) in enumerate(lim):
        eps = 1e-7 * max(abs(lo), abs(hi), hi - lo)
        at_hi = np.abs(X[:, j] - hi) <= eps
        at_lo = np.abs(X[:, j] - lo) <= eps
        require(np.all(at_hi ^ at_lo), "column {} is not at its two limits {}: {}", j, (lo, hi), np.unique(X[:, j]))
        C[:, j] = np.where(at_hi, 1.0, -1.0)
    return C


def check_design(p):
    D = p["num_vars"]
    k = 1
    while k < D:
        k *= 2
    X, q = design(p)
    require(X.shape == (2 * k, k), "shape {} for {} parameters", X.shape, D)
    C = coded(X, p)
    require(np.array_equal(C.T @ C, 2 * k * np.eye(k)), "columns are not orthogonal")
    require(np.array_equal(C[:k], -C[k:]), "second half does not mirror the first")
    require(np.all(C.sum(axis=0) == 0), "unbalanced column")
    names = p["names"] + ["dummy_%d" % i for i in range(k - D)]
    require(list(q["names"]) == names, "names {}", q["names"])
    require(q["num_vars"] == k and len(q["bounds"]) == k, "padded problem inconsistent")
    if p.get("dists"):
        require(list(q["dists"][:D]) == list(p["dists"]) and len(q["dists"]) == k, "distributions of the padded problem: {}", q["dists"])
    if p.get("groups"):
        # (else a group of samplers and analyzers would miss the dummies)
        require(list(q["groups"][:D]) == list(p["groups"]) and len(q["groups"]) == k, "groups of the padded problem: {}", q["groups"])
        require(not set(q["groups"][D:]) & set(p["groups"]), "dummies join groups: {}", q["groups"])
    return X, C, q, names


@st.composite
def cases(draw):
    return {
        "p": draw(big_problem()),
        "y": draw(st.sampled_from(YKINDS + ["const"])),
        "seed": draw(SMALL_SEEDS),
        "so": draw(st.booleans()),
        "fresh": draw(st.booleans()),
        # as a ProblemSpec adds them, or given
        "groups": draw(st.sampled_from([None, None, "names", "pairs"])),
    }


@sub("C09", cases(), quick=800, rule="at least 3 parameters")
def effects_are_contrasts(case, t):
    check_effects(case, t)


def check_effects(case, t):
    from SALib.analyze import ff as aff

    p = case["p"]
    if case.get("groups"):
        p = dict(p, groups=[n if case["groups"] == "names" else "G%d" % (i // 2) for i, n in enumerate(p["names"])])
    orig = mk(p)
    X, C, q, names = check_design(p)
    k = X.shape[1]
    Y = mk_y(case["y"], case["seed"], 2 * k, X)
    prob = orig if case["fresh"] else q
    Si = aff.analyze(prob, X.copy(), Y.copy(), second_order=case["so"])
    require(list(Si["names"]) == names, "result names {}", Si["names"])
    sc = np.max(np.abs(Y)) + 1e-300
    me = np.array([(Y[C[:, j] > 0].mean() - Y[C[:, j] < 0].mean()) / 2 for j in range(k)])
    same(np.array(Si["ME"]) / sc, me / sc, "main effects", 1e-9, 1e-9)
    if case["so"]:
        require("IE" in Si and "interaction_names" in Si, "no interactions reported: {}", sorted(Si))
        pairs = [(i, j) for j in range(k) for i in range(j)]
        require(
            sorted(map(tuple, Si["interaction_names"])) == sorted((names[i], names[j]) for i, j in pairs),
            "interaction names",
        )
        pos = {(names[i], names[j]): (i, j) for i, j in pairs}
        ie = [np.mean(Y * C[:, pos[tuple(n)][0]] * C[:, pos[tuple(n)][1]]) for n in Si["interaction_names"]]
        same(np.array(Si["IE"]) / sc, np.array(ie) / sc, "interaction effects", 1e-9, 1e-9)
    else:
        require("IE" not in Si, "interactions reported although not requested")
    main, inter = Si.to_df()
    require(list(main.index) == names, "table of main effects for {}", list(main.index))
    same(main["ME"], Si["ME"], "table of main effects")
    if case["so"] and k > 1:
        require(inter is not None, "no table of interactions")
        require([tuple(n) for n in inter.index] == [tuple(n) for n in Si["interaction_names"]], "interactions in the table: {}", list(inter.index))
        same(inter["IE"], Si["IE"], "table of interactions")
    t.nontrivial(p["num_vars"] >= 3)
    t.label("dists", bool(p.get("dists")))
    t.label("padded", k > p["num_vars"])
    t.label("so", case["so"])


@st.composite
def wide_cases(draw):
    d = draw(st.one_of(st.integers(41, 300), st.sampled_from([128, 129, 256, 257, 512, 513, 600])))
    return {
        "p": {"num_vars": d, "names": ["v%d" % i for i in range(d)], "bounds": [[-1 - i, 1 + 2 * i] for i in range(d)]},
        "y": "normal",
        "seed": draw(SMALL_SEEDS),
        "so": d <= 130,
        "fresh": draw(st.booleans()),
    }


@sub("C09", wide_cases(), quick=10, thorough=80, shards=1, rule="every case (41 to 600 parameters)")
def many_parameters(case, t):
    check_effects(case, t)


@st.composite
def lin(draw):
    p = draw(big_problem(12))
    return {"p": p, "seed": draw(SMALL_SEEDS), "pairs": draw(st.booleans())}


@sub("C09", lin(), quick=300, rule="at least 3 parameters")
def known_models_are_recovered(case, t):
    """A model linear in the coded levels returns exactly its coefficients, zero
    for every dummy; a single product term returns its coefficient as that
    pair's interaction."""
    from SALib.analyze import ff as aff

    p = case["p"]
    X, C, q, names = check_design(p)
    k, D = X.shape[1], p["num_vars"]
    r = rng(case["seed"])
    b = np.zeros(k)
    b[:D] = r.normal(size=D)
    if case["pairs"] and D >= 2:
        i, j = sorted(r.choice(D, 2, replace=False))
        Y = 2.5 * C[:, i] * C[:, j]
        Si = aff.analyze(q, X, Y, second_order=True)
        d = dict(zip(map(tuple, Si["interaction_names"]), Si["IE"]))
        same(d[(names[i], names[j])], 2.5, "interaction of (%s,%s)" % (names[i], names[j]))
        same(Si["ME"], np.zeros(k), "main effects of a pure interaction")
    else:
        Y = C @ b + 4.0
        Si = aff.analyze(q, X, Y, second_order=True)
        same(Si["ME"], b, "coefficients", 1e-9, 1e-9)
        same(Si["IE"], np.zeros(len(Si["IE"])) + _alias(C, 4.0 * np.ones(len(C)) + C @ b), "interactions", 1e-9, 1e-9)
        main, inter = Si.to_df()
        require(list(main.index) == names and np.allclose(main["ME"], b), "main effect table")
    t.nontrivial(D >= 3)


def _alias(C, Y):
    k = C.shape[1]
    return np.array([np.mean(Y * C[:, i] * C[:, j]) for j in range(k) for i in range(j)])


@sub("C09", st.fixed_dictionaries({"d": st.integers(1, 20)}), quick=30, thorough=60, shards=1, rule="needs padding")
def shared_problem_parts_survive(case, t):
    """Padding replaces entries of the problem given; it does not grow lists the
    caller shares with other problems."""
    from SALib.sample import ff

    d = case["d"]
    names = ["x%d" % i for i in range(d)]
    bounds = [[0, 1] for _ in range(d)]
    dists = ["unif"] * d
    a = {"num_vars": d, "names": names, "bounds": bounds, "dists": dists}
    b = dict(a)
    X = ff.sample(b)
    require(
        len(names) == d and len(bounds) == d and len(dists) == d and a["num_vars"] == d,
        "the caller's lists grew to {}, {}, {}", len(names), len(bounds), len(dists),
    )
    require(X.shape[1] == b["num_vars"] == len(b["names"]) == len(b["bounds"]), "padded problem inconsistent")
    t.nontrivial(X.shape[1] > d)
