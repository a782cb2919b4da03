"""Latin hypercube sampling."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, problems, to_unit, within

RULE = "Problem specs with optional groups (including a single group) and distributions; N from 1 to 80."


@st.composite
def cases(draw):
    p = draw(problems(1, 7, min_groups=1, wide=24))
    return {
        "p": p,
        "N": draw(st.one_of(st.integers(1, 30), st.integers(40, 80), st.sampled_from([100, 200, 257, 1030]))),
        "seed": draw(st.one_of(st.just(0), SMALL_SEEDS)),
    }


@sub("C04", cases(), quick=1500, rule="N>2 and more than one parameter")
def one_sample_per_stratum(case, t):
    from SALib.sample import latin

    p, N = case["p"], case["N"]
    D = p["num_vars"]
    X = latin.sample(mk(p), N, seed=case["seed"])
    within(X, p)
    require(X.shape == (N, D), "shape {}", X.shape)
    U = to_unit(X, p)
    tol = 1e-6
    cells = []
    for j in range(D):
        u = U[:, j]
        s = np.sort(u)
        i = np.arange(N)
        require(
            np.all(s >= i / N - tol) and np.all(s <= (i + 1) / N + tol),
            "column {} does not have one sample per stratum: {}",
            j,
            s[:10],
        )
        cells.append(np.argsort(np.argsort(u)))
    order, memb = group_list(p)
    for a in range(D):
        for b in range(a):
            if memb[a] == memb[b]:
                require(
                    np.allclose(U[:, a], U[:, b], atol=tol),
                    "parameters {} and {} share a group but not their strata",
                    a,
                    b,
                )
            elif N >= 16:
                require(
                    not np.array_equal(cells[a], cells[b])
                    and not np.array_equal(cells[a], N - 1 - cells[b]),
                    "columns {} and {} pair their strata identically",
                    a,
                    b,
                )
    if N >= 16:
        for j in range(D):
            require(
                not np.array_equal(cells[j], np.arange(N)),
                "column {} is in stratum order (not shuffled)",
                j,
            )
    if N >= 40:
        for j in range(D):
            off = U[:, j] * N - cells[j]
            require(
                off.min() < 0.4 and off.max() > 0.6,
                "column {}: positions within strata are not random ({}..{})",
                j,
                off.min(),
                off.max(),
            )
        first = [memb.index(k) for k in range(len(order))]
        offs = [U[:, j] * N - cells[j] for j in first]
        for a in range(len(offs)):
            for b in range(a):
                require(
                    not np.allclose(np.sort(offs[a]), np.sort(offs[b]), atol=1e-4),
                    "columns {} and {} share their positions within strata", first[a], first[b],
                )
    t.nontrivial(N > 2 and D > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("N>=40", N >= 40)
    t.label("dists", bool(p.get("dists")))


@sub("C04", st.fixed_dictionaries({"p": problems(2, 4, min_groups=1, dists=False), "N": st.integers(2, 3), "seed": SMALL_SEEDS}),
     quick=16, thorough=100, rule="relative pairing of strata over 400 draws")
def pairings_are_independent(case, t):
    """The strata of two factors are paired by each relative permutation equally often."""
    import itertools

    from SALib.sample import latin
    from scipy.stats import chi2

    p, N, reps = case["p"], case["N"], 400
    perms = {q: i for i, q in enumerate(itertools.permutations(range(N)))}
    order, memb = group_list(p)
    first = [memb.index(k) for k in range(len(order))]
    pairs = list(itertools.combinations(first, 2))
    counts = np.zeros((len(pairs), len(perms)))
    for r in range(reps):
        X = latin.sample(mk(p), N, seed=case["seed"] * 1000 + r)
        R = np.argsort(np.argsort(X, axis=0), axis=0)
        for i, (a, b) in enumerate(pairs):
            counts[i, perms[tuple(R[np.argsort(R[:, a]), b])]] += 1
    e = reps / len(perms)
    for i, (a, b) in enumerate(pairs):
        stat = ((counts[i] - e) ** 2 / e).sum()
        require(stat < chi2.isf(1e-10, len(perms) - 1), "strata of columns {} and {} are not paired at random: {}", a, b, counts[i])
    t.nontrivial(len(pairs) > 0)


@sub("C04", st.fixed_dictionaries({"p": problems(1, 5, min_groups=1), "N": st.integers(300, 500), "seed": SMALL_SEEDS}),
     quick=16, thorough=120, rule="distribution of the positions within strata")
def positions_are_uniform(case, t):
    """Positions within the strata are uniform, in each column and along it, and
    independent between factors (tests with false-alarm probability below 1e-10)."""
    from SALib.sample import latin
    from scipy.stats import kstest

    p, N = case["p"], case["N"]
    D = p["num_vars"]
    order, memb = group_list(p)
    first = [memb.index(k) for k in range(len(order))]
    offs = []
    for r in range(8):
        U = to_unit(latin.sample(mk(p), N, seed=case["seed"] * 1000 + r), p)
        offs.append(U * N - np.argsort(np.argsort(U, axis=0), axis=0))
    O = np.clip(np.vstack(offs), 0, 1)
    for j in first:
        pv = kstest(O[:, j], "uniform").pvalue
        require(pv > 1e-11, "column {}: positions within strata are not uniform (p={:.3g})", j, pv)
    lim = 7.5 / np.sqrt(len(O))
    for i, a in enumerate(first):
        for b in first[:i]:
            c = np.corrcoef(O[:, a], O[:, b])[0, 1]
            require(abs(c) < lim, "positions of columns {} and {} within their strata are correlated ({:.3f})", a, b, c)
    t.nontrivial(D > 0)


@sub("C04", st.fixed_dictionaries({"p": problems(1, 3, min_groups=1), "N": st.sampled_from([30, 64, 150, 256, 400, 1000]), "seed": SMALL_SEEDS}),
     quick=16, thorough=120, rule="every case")
def any_row_may_hold_any_stratum(case, t):
    """Averaged over 40 samples, the stratum in any row and the step to the next
    row are those of random orders (8 standard errors)."""
    from SALib.sample import latin

    p, N, reps = case["p"], case["N"], 40
    D = p["num_vars"]
    total = np.zeros((N, D))
    up = np.zeros(D)
    for r in range(reps):
        X = latin.sample(mk(p), N, seed=case["seed"] * 1000 + r)
        R = np.argsort(np.argsort(X, axis=0), axis=0)
        total += R
        up += (np.diff(R, axis=0) > 0).sum(axis=0)
    mean, se = (N - 1) / 2, np.sqrt((N * N - 1) / 12 / reps)
    z = np.abs(total / reps - mean) / se
    if z.max() > 8:
        i, j = np.unravel_index(z.argmax(), z.shape)
        fail("row {} of {}: column {} holds on average stratum {:.1f}", i, N, j, total[i, j] / reps)
    # ascents of a random permutation: mean (N-1)/2, variance (N+1)/12
    z = np.abs(up - reps * (N - 1) / 2) / np.sqrt(reps * (N + 1) / 12)
    require(z.max() < 8, "strata ascend {} times in {} steps", up, reps * (N - 1))
    t.nontrivial()


@sub("C04", st.fixed_dictionaries({"N": st.integers(2, 4), "D": st.integers(1, 2), "seed": SMALL_SEEDS}),
     quick=30, thorough=150, rule="pairing of strata over 400 draws")
def pairings_are_uniform(case, t):
    """Every permutation of strata is equally likely (chi-square with a bound
    whose false-alarm probability is below 1e-9 for a uniform shuffle)."""
    from SALib.sample import latin
    from scipy.stats import chi2
    import itertools

    N, D = case["N"], case["D"]
    perms = {q: i for i, q in enumerate(itertools.permutations(range(N)))}
    counts = np.zeros((D, len(perms)))
    reps = 400
    p = {"num_vars": D, "names": ["a", "b"][:D], "bounds": [[0, 1]] * D}
    for r in range(reps):
        X = latin.sample(dict(p), N, seed=case["seed"] * 1000 + r)
        for j in range(D):
            counts[j, perms[tuple(np.argsort(np.argsort(X[:, j])))]] += 1
    e = reps / len(perms)
    for j in range(D):
        stat = ((counts[j] - e) ** 2 / e).sum()
        require(
            stat < chi2.isf(1e-10, len(perms) - 1),
            "column {}: stratum orders are not equally likely {}",
            j,
            counts[j],
        )
    t.nontrivial()


@st.composite
def unmatched_groups(draw):
    p = draw(problems(2, 7, groups=False))
    D = p["num_vars"]
    n = draw(st.integers(1, 2 * D).filter(lambda n: n != D))
    p["groups"] = ["G%d" % i for i in draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))]
    return {"p": p, "N": draw(st.integers(1, 20)), "seed": draw(SMALL_SEEDS)}


@sub("C04", unmatched_groups(), quick=100, rule="groups that do not match")
def unmatched_groups_refused(case, t):
    """Groups for more or fewer parameters than there are give no sample (of
    uninitialised numbers)."""
    from SALib.sample import latin

    t.nontrivial()
    try:
        X = latin.sample(mk(case["p"]), case["N"], seed=case["seed"])
    except (ValueError, IndexError):
        return
    fail("{} groups of {} parameters accepted: {}", len(case["p"]["groups"]), case["p"]["num_vars"], X[:2])
