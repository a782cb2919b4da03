"""Morris trajectories."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, problems, to_unit, within

RULE = "Problem specs with/without groups and distributions, even numbers of levels 2..100 (odd in a separate sub-check), N trajectories."


def trajectories(X, p, N):
    order, memb = group_list(p)
    G = len(order)
    require(
        X.shape == (N * (G + 1), p["num_vars"]),
        "shape {} for {} trajectories of {} groups",
        X.shape,
        N,
        G,
    )
    return to_unit(X, p).reshape(N, G + 1, p["num_vars"]), memb, G


def check_trajectories(T, memb, G, levels, grid=True):
    """-> per trajectory the order of moves and directions."""
    N, _, D = T.shape
    delta = levels / (2.0 * (levels - 1))
    tol = 2e-6
    require(np.all((T >= -tol) & (T <= 1 + tol)), "a point leaves its bounds")
    if grid:
        g = T * (levels - 1)
        require(
            np.all(np.abs(g - np.round(g)) < tol * levels),
            "points are off the {}-level grid",
            levels,
        )
    d = np.diff(T, axis=1)
    moved = np.abs(d) > 1e-4
    require(
        np.all(np.abs(np.abs(d[moved]) - delta) < tol),
        "a step is not +-delta={}: {}",
        delta,
        np.unique(np.round(np.abs(d[moved]), 6))[:5],
    )
    memb = np.array(memb)
    orders = np.zeros((N, G), dtype=int)
    for n in range(N):
        for s in range(G):
            gs = set(memb[moved[n, s]])
            require(
                len(gs) == 1, "step {} of trajectory {} moves groups {}", s, n, gs
            )
            g = gs.pop()
            require(
                np.all(moved[n, s] == (memb == g)),
                "only part of group {} moves in trajectory {}",
                g,
                n,
            )
            orders[n, s] = g
        require(
            sorted(orders[n]) == list(range(G)),
            "trajectory {} moves groups {}",
            n,
            orders[n],
        )
    direction = np.sign(d.sum(axis=1))
    return orders, direction


@st.composite
def cases(draw):
    p = draw(problems(1, 7, min_groups=1, wide=40))
    return {
        "p": p,
        "N": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([70, 70, 300, 1030]))),
        "levels": draw(st.sampled_from([4, 2, 6, 8, 10, 12, 4, 6, 14, 20, 32, 50, 100])),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C05", cases(), quick=1200, rule="at least 2 groups/parameters and 2 trajectories")
def one_group_per_step(case, t):
    from SALib.sample import morris

    p, N, L = case["p"], case["N"], case["levels"]
    X = morris.sample(mk(p), N, num_levels=L, seed=case["seed"])
    within(X, p)
    T, memb, G = trajectories(X, p, N)
    orders, direction = check_trajectories(T, memb, G, L)
    D = p["num_vars"]
    if N >= 70:
        base = np.minimum(T[:, 0, :], T[:, -1, :])
        for j in range(D):
            require(
                np.any(direction[:, j] > 0) and np.any(direction[:, j] < 0),
                "parameter {} always moves the same way",
                j,
            )
            if L <= 6:
                lv = np.unique(np.round(base[:, j] * (L - 1)))
                require(
                    len(lv) == L // 2,
                    "parameter {} only ever starts from levels {} of {}",
                    j,
                    lv,
                    L,
                )
            for k in range(j):
                require(
                    not np.array_equal(direction[:, j], direction[:, k])
                    and not np.array_equal(direction[:, j], -direction[:, k]),
                    "parameters {} and {} always move together",
                    j,
                    k,
                )
                if L >= 4:
                    require(
                        not np.allclose(base[:, j], base[:, k], atol=1e-4),
                        "parameters {} and {} always start from the same level",
                        j,
                        k,
                    )
        if G > 1:
            require(
                len({tuple(o) for o in orders}) > 1, "groups always move in the same order"
            )
            for s in range(G):
                require(len(set(orders[:, s])) > 1, "step {} always moves the same group", s)
        t.label("randomness checked")
    t.nontrivial(G > 1 and N > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("dists", bool(p.get("dists")))


@st.composite
def odd_cases(draw):
    p = draw(problems(1, 5, min_groups=1))
    return {
        "p": p,
        "N": draw(st.integers(1, 12)),
        "levels": draw(st.sampled_from([3, 5, 7, 9, 15, 25, 51])),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C05", odd_cases(), quick=200, rule="at least 2 groups/parameters")
def odd_levels(case, t):
    """An odd number of levels warns; steps are still one group by +-delta,
    inside the bounds."""
    import warnings

    from SALib.sample import morris

    p, N, L = case["p"], case["N"], case["levels"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        X = morris.sample(mk(p), N, num_levels=L, seed=case["seed"])
    within(X, p)
    require(any("even" in str(x.message) for x in w), "no warning about odd levels")
    T, memb, G = trajectories(X, p, N)
    check_trajectories(T, memb, G, L, grid=False)
    t.nontrivial(G > 1)


@sub(
    "C05",
    st.fixed_dictionaries(
        {"G": st.integers(1, 3), "levels": st.sampled_from([4, 6]), "seed": SMALL_SEEDS}
    ),
    quick=16,
    thorough=200,
    rule="3000 trajectories",
)
def randomisation_is_uniform(case, t):
    """Orders of moves, directions and base levels are uniformly distributed
    (chi-square, false-alarm probability below 1e-9 per test)."""
    import itertools

    from SALib.sample import morris
    from scipy.stats import chi2

    G, L, N = case["G"], case["levels"], 3000
    p = {"num_vars": G, "names": ["x%d" % i for i in range(G)], "bounds": [[0, 1]] * G}
    X = morris.sample(dict(p), N, num_levels=L, seed=case["seed"])
    T, memb, _ = trajectories(X, p, N)
    orders, direction = check_trajectories(T, memb, G, L)

    def uniform(keys, n, what):
        _, c = np.unique(keys, return_counts=True, axis=0)
        c = np.concatenate([c, np.zeros(n - len(c))])
        e = len(keys) / n
        stat = ((c - e) ** 2 / e).sum()
        require(stat < chi2.isf(1e-10, max(n - 1, 1)), "{} not uniform: {}", what, c)

    uniform(orders, len(list(itertools.permutations(range(G)))), "order of moves")
    base = np.round(np.minimum(T[:, 0, :], T[:, -1, :]) * (L - 1)).astype(int)
    for j in range(G):
        uniform(np.column_stack([base[:, j], direction[:, j]]), L, "base level and direction")
        for k in range(j):
            uniform(np.column_stack([direction[:, j], direction[:, k]]), 4, "joint directions")
            uniform(np.column_stack([base[:, j], base[:, k]]), (L // 2) ** 2, "joint base levels")
    t.nontrivial()
