"""Optimised Morris trajectories."""

from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, problems

RULE = "Pools of 3-12 trajectories, k of them selected by brute force or local search; non-trivial = at least 2 candidate sets with different spread."


@st.composite
def cases(draw, max_n=9, max_d=4):
    p = draw(problems(1, max_d, dists=False, min_groups=1))
    N = draw(st.integers(3, max_n))
    return {
        "p": p,
        "N": N,
        "k": draw(st.integers(2, N - 1)),
        "levels": draw(st.sampled_from([4, 2, 6, 8])),
        "seed": draw(SMALL_SEEDS),
    }


def dist_matrix(T):
    """Documented distance: sum of Euclidean distances between all pairs of
    points of the two trajectories, zero for identical trajectories."""
    n = len(T)
    M = np.zeros((n, n))
    for a in range(n):
        for b in range(a):
            if not np.allclose(T[a], T[b], atol=1e-9):
                diff = T[a][:, None, :] - T[b][None, :, :]
                M[a, b] = M[b, a] = np.sqrt((diff**2).sum(-1)).sum()
    return M


def score(M, combo):
    return np.sqrt(sum(M[a, b] ** 2 for a, b in combinations(combo, 2)))


def split(X, p, n):
    G = len(group_list(p)[0])
    b = np.array(p["bounds"])
    U = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    require(X.shape == (n * (G + 1), p["num_vars"]), "shape {}", X.shape)
    return U.reshape(n, G + 1, -1)


def match(sel, pool):
    """Indices of distinct pool trajectories equal to the selected ones."""
    used = []
    for s in sel:
        for i in range(len(pool)):
            if i not in used and np.allclose(pool[i], s, atol=1e-7):
                used.append(i)
                break
        else:
            fail("a selected trajectory is not one of the pool (or is used twice)")
    return used


def run(case, local):
    from SALib.sample import morris

    p, N, k = case["p"], case["N"], case["k"]
    pool = split(
        morris.sample(mk(p), N, num_levels=case["levels"], seed=case["seed"]), p, N
    )
    sel = split(
        morris.sample(
            mk(p),
            N,
            num_levels=case["levels"],
            optimal_trajectories=k,
            local_optimization=local,
            seed=case["seed"],
        ),
        p,
        k,
    )
    idx = match(sel, pool)
    return pool, idx, dist_matrix(pool)


@sub("C06", cases(), quick=700, rule="candidate sets differ in spread")
def brute_force_is_optimal(case, t):
    pool, idx, M = run(case, False)
    got = score(M, idx)
    best = max(score(M, c) for c in combinations(range(case["N"]), case["k"]))
    worst = min(score(M, c) for c in combinations(range(case["N"]), case["k"]))
    require(
        got >= best * (1 - 1e-5) - 1e-6,
        "brute force chose spread {} although {} is possible",
        got,
        best,
    )
    t.nontrivial(best > worst + 1e-6)
    t.label("groups", bool(case["p"].get("groups")))


def ruano(M, k):
    """Independent transcription of Ruano et al. (2012), maximal over ties is not
    attempted; returns the spread of the set it finds."""
    n = len(M)
    best = -1.0
    for i in range(1, k):
        sets = []
        for r in range(n):
            others = sorted((c for c in range(n) if c != r), key=lambda c: -M[r, c])
            sets.append(tuple(others[:i]) + (r,))
        cur = max(sets, key=lambda s: score(M, s))
        while len(cur) < k:
            cur = max(
                (cur + (c,) for c in range(n) if c not in cur), key=lambda s: score(M, s)
            )
        best = max(best, score(M, cur))
    return best


@sub("C06", cases(max_n=12, max_d=5), quick=700, rule="candidate sets differ in spread")
def local_is_locally_optimal(case, t):
    """Local search: exact for k=2; otherwise within 3% of an independent
    transcription of the published procedure (ties may be broken either way),
    and never below the average over candidate sets."""
    pool, idx, M = run(case, True)
    k, N = case["k"], case["N"]
    got = score(M, idx)
    if k == 2:
        require(
            got >= M.max() * (1 - 1e-5), "local search chose {} of max {}", got, M.max()
        )
    ref = ruano(M, k)
    require(got >= 0.97 * ref - 1e-9, "local search: spread {} but procedure finds {}", got, ref)
    t.nontrivial(M[np.triu_indices(N, 1)].std() > 1e-9)
    t.label("k=2", k == 2)


@st.composite
def continuous(draw):
    """Trajectories of points anywhere in the unit cube: no two candidate sets
    have the same spread, so both searches have one right answer."""
    G = draw(st.integers(1, 4))
    D = draw(st.integers(G, G + 2))
    N = draw(st.integers(4, 40))
    local = draw(st.booleans())
    k = draw(st.integers(2, min(N - 1, 9 if local else 10)))
    if not local and draw(st.integers(0, 7)) == 5:
        N, k = draw(st.integers(100, 240)), 2
    if not local:
        from math import comb

        while comb(N, k) > 30000:
            N -= 1
            k = min(k, N - 1)
    return {"G": G, "D": D, "N": N, "k": k, "local": local, "seed": draw(SMALL_SEEDS), "far": draw(st.booleans())}


def steps(M, k):
    """The published procedure, and the smallest margin of any decision taken."""
    n, margin, found = len(M), np.inf, []

    def pick(cands):
        nonlocal margin
        sc = np.array([score(M, c) for c in cands])
        o = np.argsort(-sc)
        sets = {tuple(sorted(cands[o[0]]))}
        for j in o[1:]:  # the same set may be listed several times
            if tuple(sorted(cands[j])) not in sets:
                margin = min(margin, (sc[o[0]] - sc[j]) / sc[o[0]])
                break
        return tuple(cands[o[0]])

    for i in range(1, k):
        sets = []
        for r in range(n):
            others = sorted((c for c in range(n) if c != r), key=lambda c: -M[r, c])
            if i < len(others):
                margin = min(margin, (M[r, others[i - 1]] - M[r, others[i]]) / M[r, others[i - 1]])
            sets.append(tuple(others[:i]) + (r,))
        cur = pick(sets)
        while len(cur) < k:
            cur = pick([cur + (c,) for c in range(n) if c not in cur])
        found.append(cur)
    return sorted(pick(found)), margin


@sub("C06", continuous(), quick=250, rule="all decisions have a margin")
def one_right_answer(case, t):
    """On pools without ties both searches select exactly the right set."""
    from SALib.sample.morris.brute import BruteForce
    from SALib.sample.morris.local import LocalOptimisation

    N, G, D, k = case["N"], case["G"], case["D"], case["k"]
    r = np.random.default_rng(case["seed"])
    pool = r.random((N, G + 1, D))
    if case["far"]:  # the last ones are spread out most
        pool[-k:] = r.integers(0, 2, size=(k, 1, D)) * 0.98 + 0.02 * pool[-k:]
    s = LocalOptimisation() if case["local"] else BruteForce()
    out = s.sample(pool.reshape(-1, D).copy(), N, D, k, G)
    require(out.shape == (k * (G + 1), D), "shape {}", out.shape)
    got = sorted(match(out.reshape(k, G + 1, D), pool))
    M = dist_matrix(pool)
    if case["local"]:
        want, margin = steps(M, k)
        ok = margin > 1e-5
    else:
        combos = np.array(list(combinations(range(N), k)))
        sc = np.zeros(len(combos))
        for a, b in combinations(range(k), 2):
            sc += M[combos[:, a], combos[:, b]] ** 2
        o = np.argsort(-sc)
        want = sorted(combos[o[0]])
        ok = len(o) == 1 or sc[o[0]] - sc[o[1]] > 1e-5 * sc[o[0]]
    if ok:
        require(list(got) == list(want), "{} search selected {} (spread {}) instead of {} (spread {})",
                "local" if case["local"] else "brute force", got, score(M, got), want, score(M, want))
    t.nontrivial(ok)
    t.label("local" if case["local"] else "brute force")


@sub("C06", st.fixed_dictionaries({"where": st.sampled_from(["first", "middle", "last"]), "seed": SMALL_SEEDS}), quick=3, thorough=12, rule="more than 2*10^6 candidate sets")
def best_set_in_any_batch(case, t):
    """The best of more than two million candidate sets is found wherever it is."""
    from SALib.sample.morris.brute import BruteForce

    N, k, D = 50, 5, 2
    r = np.random.default_rng(case["seed"])
    pool = 0.45 + 0.1 * r.random((N, D + 1, D))
    at = {"first": [0, 1, 2, 3, 4], "middle": [8, 20, 30, 40, 45], "last": [45, 46, 47, 48, 49]}[case["where"]]
    pool[at] = np.array([[0, 0], [0, 1], [1, 0], [1, 1], [0, 0.5]])[:, None, :] * 0.98 + 0.02 * r.random((k, D + 1, D))
    out = BruteForce().sample(pool.reshape(-1, D).copy(), N, D, k, D)
    got = sorted(match(out.reshape(k, D + 1, D), pool))
    require(got == at, "selected trajectories {} although {} are spread out most", got, at)
    t.nontrivial()


@st.composite
def invalid(draw):
    p = draw(problems(1, 4, dists=False, min_groups=1))
    N = draw(st.integers(2, 12))
    local = draw(st.booleans())
    k = draw(st.one_of(st.just(1), st.integers(N, N + 5), st.integers(-3, -1)))
    big = draw(st.booleans())
    if big and not local:
        N, k = 15, draw(st.integers(11, 14))
    return {"p": p, "N": N, "k": k, "local": local, "seed": draw(SMALL_SEEDS)}


@sub("C06", invalid(), quick=200, rule="every case is invalid")
def invalid_requests_raise(case, t):
    """k < 2, k >= N, and brute force with k > 10 raise ValueError."""
    from SALib.sample import morris

    t.nontrivial()
    try:
        morris.sample(
            mk(case["p"]),
            case["N"],
            optimal_trajectories=case["k"],
            local_optimization=case["local"],
            seed=case["seed"],
        )
    except ValueError:
        return
    fail("N={} optimal_trajectories={} local={} accepted", case["N"], case["k"], case["local"])


@sub(
    "C06",
    st.fixed_dictionaries(
        {"D": st.integers(1, 3), "N": st.sampled_from([44, 46, 50, 51]), "seed": SMALL_SEEDS}
    ),
    quick=2,
    thorough=16,
    rule="more than 10^6 candidate sets",
)
def brute_force_large_pool(case, t):
    """More than a million candidate sets (the search is batched)."""
    from SALib.sample import morris

    D, N, k = case["D"], case["N"], 5
    p = {"num_vars": D, "names": ["x%d" % i for i in range(D)], "bounds": [[0.0, 1.0]] * D}
    pool = split(morris.sample(dict(p), N, num_levels=8, seed=case["seed"]), p, N)
    sel = split(
        morris.sample(
            dict(p), N, num_levels=8, optimal_trajectories=k, local_optimization=False, seed=case["seed"]
        ),
        p,
        k,
    )
    M = dist_matrix(pool)
    got = score(M, match(sel, pool))
    M2 = M**2
    best = 0.0
    for a in range(N):
        for b in range(a + 1, N):
            # all triples c<d<e above b
            rest = np.arange(b + 1, N)
            n = len(rest)
            if n < 3:
                continue
            tri = np.array(list(combinations(range(n), 3)))
            c, d, e = rest[tri[:, 0]], rest[tri[:, 1]], rest[tri[:, 2]]
            v = M2[a] + M2[b]
            s = M2[a, b] + v[c] + v[d] + v[e] + M2[c, d] + M2[c, e] + M2[d, e]
            best = max(best, s.max())
    best = np.sqrt(best)
    require(got >= best * (1 - 1e-5), "brute force chose spread {} of {}", got, best)
    t.nontrivial()
