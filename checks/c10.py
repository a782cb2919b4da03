"""Sobol' indices: point estimates."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, YKINDS, close, group_list, mk, mk_y, problems, rng, same
from vlib.refs import sobol_indices

RULE = "Random problems (1-6 parameters, groups incl. a single one), output vectors of many shapes laid out by the Saltelli scheme; non-trivial = at least two factors and N>=4."


def n_factors(p):
    g = p.get("groups")
    if g and len(set(g)) > 1:
        return len(set(g))
    return p["num_vars"]


@st.composite
def cases(draw, min_n=1, kinds=YKINDS):
    return {
        "p": draw(problems(1, 6, min_groups=1, wide=24)),
        "N": draw(st.one_of(st.integers(min_n, 40), st.integers(min_n, 40), st.integers(min_n, 40), st.integers(min_n, 40), st.sampled_from([130, 513, 1030]))),
        "so": draw(st.booleans()),
        "y": draw(st.sampled_from(kinds)),
        "seed": draw(SMALL_SEEDS),
    }


def outputs(case):
    D = n_factors(case["p"])
    n = case["N"] * (2 * D + 2 if case["so"] else D + 2)
    return D, mk_y(case["y"], case["seed"], n)


def analyze(p, Y, so, **kw):
    from SALib.analyze import sobol

    kw.setdefault("num_resamples", 4)
    kw.setdefault("seed", 1)
    return sobol.analyze(mk(p), Y.copy(), calc_second_order=so, **kw)


def check_against_reference(Si, Y, D, so):
    S1, ST, S2 = sobol_indices(Y, D, so)
    same(Si["S1"], S1, "S1", 1e-7, 1e-8)
    same(Si["ST"], ST, "ST", 1e-7, 1e-8)
    if so:
        got = np.asarray(Si["S2"])
        require(got.shape == (D, D), "S2 shape {}", got.shape)
        for j in range(D):
            for k in range(D):
                if j < k:
                    same(got[j, k], S2[j, k], "S2[%d,%d]" % (j, k), 1e-7, 1e-8)
                else:
                    require(np.isnan(got[j, k]), "S2[{},{}] filled in", j, k)
    else:
        require("S2" not in Si, "S2 reported without second order samples")


@sub("C10", cases(), quick=1000, rule="at least 2 factors, N>=4")
def published_estimators(case, t):
    D, Y = outputs(case)
    if np.ptp(Y) == 0:
        return
    Si = analyze(case["p"], Y, case["so"])
    for k in ("S1", "ST", "S1_conf", "ST_conf"):
        require(np.shape(Si[k]) == (D,), "{} has shape {}", k, np.shape(Si[k]))
    S1, _, _ = sobol_indices(Y, D, case["so"])
    if not np.all(np.isfinite(S1)):
        return  # the A and B outputs alone are constant
    check_against_reference(Si, Y, D, case["so"])
    t.nontrivial(D > 1 and case["N"] >= 4)
    t.label("groups", bool(case["p"].get("groups")))
    t.label("second order", case["so"])


@st.composite
def affine(draw):
    c = draw(cases(min_n=4, kinds=["normal", "skew", "ties"]))
    c["a"] = draw(st.one_of(st.floats(1e-3, 1e3), st.floats(-1e3, -1e-3)))
    c["b"] = draw(st.floats(-1e3, 1e3))
    return c


@sub("C10", affine(), quick=400, rule="at least 2 factors")
def invariances(case, t):
    """Affine change of the output, reordering of base points, and relabelling of
    the factors."""
    D, Y = outputs(case)
    so, p = case["so"], case["p"]
    if np.ptp(Y) == 0:
        return
    S = analyze(p, Y, so)
    if not np.all(np.isfinite(S["S1"])):
        return
    T = analyze(p, case["a"] * Y + case["b"], so)
    tol = 1e-6 * (1 + abs(case["b"]) / abs(case["a"]))
    keys = ["S1", "ST"] + (["S2"] if so else [])
    for k in keys:
        same(T[k], S[k], k + " under an affine change of the output", tol, tol)
    r = rng(case["seed"] + 9)
    step = len(Y) // case["N"]
    M = Y.reshape(case["N"], step)
    T = analyze(p, M[r.permutation(case["N"])].ravel(), so)
    for k in keys:
        same(T[k], S[k], k + " under reordering of base points", 1e-7, 1e-8)
    perm = r.permutation(D)
    cols = [0] + [1 + i for i in perm] + ([1 + D + i for i in perm] if so else []) + [step - 1]
    T = analyze(p, M[:, cols].ravel(), so)
    same(T["S1"], S["S1"][perm], "S1 of permuted factors", 1e-7, 1e-8)
    same(T["ST"], S["ST"][perm], "ST of permuted factors", 1e-7, 1e-8)
    t.nontrivial(D > 1)


@sub("C10", cases(kinds=["const"]), quick=200, rule="every case (constant output)")
def constant_output(case, t):
    """No variance: zero indices and zero intervals, in either mode."""
    D, Y = outputs(case)
    Y = Y + (0.4 if case["seed"] % 2 else 0.0)
    Si = analyze(case["p"], Y, case["so"])
    for k in ("S1", "ST", "S1_conf", "ST_conf"):
        require(np.all(np.asarray(Si[k]) == 0.0), "{}={} for constant outputs", k, Si[k])
    if case["so"]:
        iu = np.triu_indices(D, 1)
        for k in ("S2", "S2_conf"):
            require(np.all(np.asarray(Si[k])[iu] == 0.0), "{}={} for constant outputs", k, Si[k])
    t.nontrivial()


@st.composite
def bad(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["rows", "conf"]))
    c["extra"] = draw(st.integers(1, 13))
    c["conf"] = draw(st.one_of(st.sampled_from([0.0, 1.0, 1, 0]), st.floats(1, 100), st.floats(-5, 0)))
    return c


@sub("C10", bad(), quick=300, rule="the request is invalid")
def inconsistent_requests_raise(case, t):
    """A number of outputs that does not fit the scheme, or a confidence level
    outside (0, 1), raises RuntimeError."""
    D, Y = outputs(case)
    so = case["so"]
    kw = {}
    if case["kind"] == "rows":
        step = 2 * D + 2 if so else D + 2
        extra = case["extra"] % step
        if extra == 0:
            return
        Y = np.concatenate([Y, np.linspace(0, 1, extra)])
    else:
        kw["conf_level"] = case["conf"]
    t.nontrivial()
    try:
        analyze(case["p"], Y, so, **kw)
    except RuntimeError:
        return
    fail("{} outputs, conf_level {} accepted for {} factors", len(Y), kw, D)


@st.composite
def endtoend(draw):
    d = draw(st.integers(2, 5))
    ng = draw(st.integers(2, d))
    memb = list(range(ng)) + [draw(st.integers(0, ng - 1)) for _ in range(d - ng)]
    return {
        "d": d,
        "memb": draw(st.permutations(memb)) if draw(st.booleans()) else None,
        "a": draw(st.lists(st.floats(0, 3), min_size=d, max_size=d)),
        "b": draw(st.one_of(st.just(0.0), st.floats(1, 12))),
        "pair": draw(st.permutations(list(range(d))))[:2],
        "lo": draw(st.floats(-10, 10)),
        "w": draw(st.floats(0.1, 10)),
        "dist": draw(st.sampled_from(["unif", "norm"])),
        "which": draw(st.sampled_from(["sobol", "saltelli"])),
        "so": draw(st.booleans()),
        "shift": draw(st.floats(-5, 5)),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C10", endtoend(), quick=250, rule="at least two active terms")
def sample_then_analyze_recovers_indices(case, t):
    """Linear model plus one product interaction on uniform / normal inputs: the
    indices estimated from a 1024-point sample are near the exact ones
    (tolerance 0.1, several times the observed quasi-Monte Carlo error)."""
    from SALib.analyze import sobol as an
    from SALib.sample import saltelli, sobol

    d = case["d"]
    names = ["x%d" % i for i in range(d)]
    if case["dist"] == "unif":
        bounds = [[case["lo"], case["lo"] + case["w"]]] * d
        mean, sd = case["lo"] + case["w"] / 2, case["w"] / np.sqrt(12)
    else:
        bounds = [[case["lo"], case["w"]]] * d
        mean, sd = case["lo"], case["w"]
    p = {"num_vars": d, "names": names, "bounds": bounds, "dists": [case["dist"]] * d}
    if case["memb"]:
        p["groups"] = ["g%d" % m for m in case["memb"]]
    a, (i, j) = np.array(case["a"]), case["pair"]
    so = case["so"]
    N = 1024
    if case["which"] == "sobol":
        X = sobol.sample(mk(p), N, calc_second_order=so, seed=case["seed"])
    else:
        X = saltelli.sample(mk(p), N, calc_second_order=so)
    Z = (X - mean) / sd
    Y = Z @ a + case["b"] * 0.3 * Z[:, i] * Z[:, j] + case["shift"]
    order, memb = group_list(p)
    G = len(order)
    v1 = np.zeros(G)
    np.add.at(v1, memb, a**2)
    v2 = (case["b"] * 0.3) ** 2
    V = v1.sum() + v2
    if V < 0.05:
        return
    vt = v1.copy()
    S2 = np.zeros((G, G))
    gi, gj = sorted((memb[i], memb[j]))
    if gi == gj:
        v1[gi] += v2
        vt[gi] += v2
    else:
        vt[gi] += v2
        vt[gj] += v2
        S2[gi, gj] = v2
    Si = an.analyze(mk(p), Y, calc_second_order=so, num_resamples=10, seed=1)
    same(Si["S1"], v1 / V, "S1 of a known model", 0, 0.1)
    same(Si["ST"], vt / V, "ST of a known model", 0, 0.1)
    if so:
        iu = np.triu_indices(G, 1)
        same(Si["S2"][iu], (S2 / V)[iu], "S2 of a known model", 0, 0.15)
    t.nontrivial((a > 0.2).sum() + (case["b"] > 0) >= 2)
    t.label("groups", bool(case["memb"]))
