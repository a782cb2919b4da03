"""Saltelli / Sobol' cross-sampling designs."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import (SMALL_SEEDS, from_unit, group_list, mk, problems, same, to_unit, within)

RULE = (
    "Hypothesis draws problem specs (1-6 parameters, optional interleaved groups, optional "
    "distributions), N, order, skip, scramble and seed; non-trivial = more than one parameter and N > 1."
)


def n_strategy():
    return st.one_of(
        st.sampled_from([1, 2, 4, 8, 16, 32, 64]), st.integers(1, 40), st.sampled_from([63, 100, 128, 200, 256, 300])
    )


def draw_n(draw, p, big=(1000, 1024, 1025, 2048, 3000, 4096)):
    if p["num_vars"] <= 3 and draw(st.integers(0, 14)) == 7:
        return draw(st.sampled_from(big))
    return draw(n_strategy())


@st.composite
def saltelli_cases(draw):
    p = draw(problems(1, 6, wide=16))
    return {
        "p": p,
        "N": draw_n(draw, p),
        "so": draw(st.booleans()),
        "skip": draw(
            st.one_of(
                st.none(), st.sampled_from([0, 1, 2, 4, 16, 64]), st.integers(0, 90), st.one_of(st.integers(91, 600), st.sampled_from([1024, 1025, 2047, 4096]))
            )
        ),
    }


@st.composite
def sobol_cases(draw):
    p = draw(problems(1, 6, wide=32))
    return {
        "p": p,
        "N": draw_n(draw, p),
        "so": draw(st.booleans()),
        "skip": draw(
            st.one_of(st.just(0), st.sampled_from([1, 2, 4, 16, 64]), st.integers(0, 70), st.sampled_from([127, 1000, 1024, 4097, 8192, 50001, 2**17]))
        ),
        "scramble": draw(st.booleans()),
        "seed": draw(SMALL_SEEDS),
    }


def group_cols(p):
    """Columns moved together in each block, in block order."""
    g = p.get("groups")
    D = p["num_vars"]
    if not g:
        return [[j] for j in range(D)]
    order, memb = group_list(p)
    return [[j for j in range(D) if memb[j] == k] for k in range(len(order))]


def check_design(X, p, N, so):
    """Every base point contributes A, AB_1..AB_G, [BA_1..BA_G], B."""
    D = p["num_vars"]
    cols = group_cols(p)
    G = len(cols)
    step = 2 * G + 2 if so else G + 2
    require(
        X.shape == (N * step, D),
        "shape {} but documented {}",
        X.shape,
        (N * step, D),
    )
    A, B = X[0::step], X[step - 1 :: step]
    for k, cs in enumerate(cols):
        want = A.copy()
        want[:, cs] = B[:, cs]
        if not np.array_equal(X[1 + k :: step], want):
            fail("AB block {} is not A with columns {} from B", k, cs)
        if so:
            want = B.copy()
            want[:, cs] = A[:, cs]
            if not np.array_equal(X[1 + G + k :: step], want):
                fail("BA block {} is not B with columns {} from A", k, cs)
    return A, B


def ref_skip(N):
    p = 1
    while p < N:
        p *= 2
    return max(p, 16)


def ref_sobol_points(n, dims):
    """Unscrambled Sobol' points from scipy (new Joe-Kuo direction numbers)."""
    from scipy.stats import qmc

    return qmc.Sobol(dims, scramble=False, bits=31).random(n)


@sub("C01", saltelli_cases(), quick=600, rule="more than one parameter and N>1")
def saltelli_design(case, t):
    from SALib.sample import saltelli

    p, N = case["p"], case["N"]
    X = saltelli.sample(
        mk(p), N, calc_second_order=case["so"], skip_values=case["skip"]
    )
    A, B = check_design(X, p, N, case["so"])
    within(X, p)
    skip = ref_skip(N) if case["skip"] is None else case["skip"]
    D = p["num_vars"]
    base = ref_sobol_points(N + skip, 2 * D)[skip:]
    same(A, from_unit(base[:, :D], p), "A block vs Sobol' points", 1e-7, 1e-8)
    same(B, from_unit(base[:, D:], p), "B block vs Sobol' points", 1e-7, 1e-8)
    t.nontrivial(D > 1 and N > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("dists", bool(p.get("dists")))
    t.label("second_order", case["so"])
    t.label("default skip", case["skip"] is None)


@st.composite
def large_cases(draw):
    return {
        "p": draw(problems(1, 3)),
        "N": draw(st.one_of(st.sampled_from([1024, 1025, 2048, 2049, 4096, 8192]), st.integers(600, 6000))),
        "so": draw(st.booleans()),
        "skip": draw(st.one_of(st.none(), st.none(), st.integers(0, 20000))),
    }


@sub("C01", large_cases(), quick=40, thorough=400, rule="more than one parameter")
def saltelli_design_large(case, t):
    """The same over base samples of hundreds to thousands of points."""
    saltelli_design(case, t)


def strat_1d(U, N):
    """N = 2^m consecutive aligned Sobol' points: each dimension has exactly one
    point in every interval [i/N, (i+1)/N)."""
    for j in range(U.shape[1]):
        cells = np.floor(U[:, j] * N + 1e-6).astype(int)
        # tolerate a point rounded across its cell edge by scaling
        alt = np.floor(U[:, j] * N - 1e-6).astype(int)
        if sorted(cells) != list(range(N)) and sorted(alt) != list(range(N)):
            c = np.sort(U[:, j] * N)
            if not np.all((c >= np.arange(N) - 1e-4) & (c <= np.arange(N) + 1 + 1e-4)):
                fail("column {} of base points not stratified: {}", j, c[:10])


@sub("C01", sobol_cases(), quick=800, rule="more than one parameter and N>1")
def sobol_design(case, t):
    from SALib.sample import sobol

    p, N, skip = case["p"], case["N"], case["skip"]
    D = p["num_vars"]

    def draw(seed=case["seed"], scramble=case["scramble"], so=case["so"]):
        return sobol.sample(
            mk(p),
            N,
            calc_second_order=so,
            scramble=scramble,
            skip_values=skip,
            seed=seed,
        )

    X = draw()
    A, B = check_design(X, p, N, case["so"])
    within(X, p)
    U = np.hstack([to_unit(A, p), to_unit(B, p)])
    require(np.all((U > -1e-6) & (U < 1 + 1e-6)), "base points leave the unit cube")
    if not case["scramble"]:
        base = ref_sobol_points(N + skip, 2 * D)[skip:]
        # 0 is mapped to -inf by unbounded distributions, on both sides
        same(A, from_unit(base[:, :D], p), "A vs unscrambled Sobol'", 1e-6, 1e-7)
        same(B, from_unit(base[:, D:], p), "B vs unscrambled Sobol'", 1e-6, 1e-7)
    else:
        if N & (N - 1) == 0 and skip % N == 0 and N > 1:
            strat_1d(U, N)
            t.label("stratification checked")
        if 0 < skip <= 130:
            # skipping points of the scrambled sequence leaves the rest as it was
            full = sobol.sample(mk(p), N + skip, calc_second_order=case["so"], scramble=True, skip_values=0, seed=case["seed"])
            FA, FB = check_design(full, p, N + skip, case["so"])
            require(np.array_equal(A, FA[skip:]) and np.array_equal(B, FB[skip:]), "base points after skipping {} are not the following ones", skip)
            t.label("skipped and scrambled")
        if N >= 8:
            other = draw(seed=case["seed"] + 1)
            require(not np.array_equal(X, other), "seed has no effect when scrambling")
            # a scrambled sample is a different point set
            plain = draw(scramble=False)
            require(not np.array_equal(X, plain), "scramble=True has no effect")
            if D > 1:
                # columns are scrambled independently: A and B, and columns, differ
                for a in range(2 * D):
                    for b in range(a):
                        require(
                            not np.allclose(U[:, a], U[:, b]),
                            "base columns {} and {} coincide",
                            a,
                            b,
                        )
    # the second-order sample extends the first-order one over the same base
    X1 = draw(so=not case["so"])
    A1, B1 = check_design(X1, p, N, not case["so"])
    require(
        np.array_equal(A, A1) and np.array_equal(B, B1),
        "base points depend on calc_second_order",
    )
    t.nontrivial(D > 1 and N > 1)
    t.label("groups", bool(p.get("groups")))
    t.label("dists", bool(p.get("dists")))
    t.label("scramble", case["scramble"])
    t.label("skip", skip > 0)


@st.composite
def bad_skip(draw):
    return {
        "p": draw(problems(1, 4)),
        "N": draw(st.integers(2, 16)),
        "skip": draw(st.one_of(st.integers(-50, -1), st.floats(0.5, 20.0))),
        "which": draw(st.sampled_from(["sobol", "saltelli"])),
    }


@sub("C01", bad_skip(), quick=60, rule="invalid skip value")
def bad_skip_rejected(case, t):
    """A negative (or for sobol non-integer) number of skipped points is refused."""
    from SALib.sample import saltelli, sobol

    if case["which"] == "saltelli":
        if not isinstance(case["skip"], int):
            return
        f, exc = saltelli.sample, (AssertionError, ValueError)
    else:
        f, exc = sobol.sample, ValueError
    t.nontrivial()
    try:
        f(mk(case["p"]), case["N"], skip_values=case["skip"])
    except exc:
        return
    fail("skip_values={} accepted", case["skip"])


@st.composite
def unmatched_groups(draw):
    p = draw(problems(2, 6, groups=False))
    D = p["num_vars"]
    n = draw(st.integers(1, 2 * D).filter(lambda n: n != D))
    p["groups"] = ["G%d" % i for i in draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))]
    return {"p": p, "N": draw(st.sampled_from([2, 8, 16])), "which": draw(st.sampled_from(["sobol", "saltelli"]))}


@sub("C01", unmatched_groups(), quick=100, rule="groups that do not match")
def unmatched_groups_refused(case, t):
    """Groups for more or fewer parameters than there are give no design."""
    from SALib.sample import saltelli, sobol

    f = {"sobol": sobol, "saltelli": saltelli}[case["which"]].sample
    t.nontrivial()
    try:
        X = f(mk(case["p"]), case["N"])
    except (ValueError, IndexError):
        return
    fail("{} groups of {} parameters accepted: {} rows", len(case["p"]["groups"]), case["p"]["num_vars"], len(X))
