"""Calls leave their inputs alone and do not depend on earlier calls."""

import json

import numpy as np
from hypothesis import strategies as st

from checks.c22 import ANALYZERS, SAMPLERS, dump, prepare
from vlib import fresh
from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, problems

RULE = "Random sequences of sampling and analysis calls of every method over one problem dictionary and shared arrays, each compared with the same call on fresh copies; non-trivial = at least 3 calls of at least 2 methods."

SEEDED = ["latin", "fast_sampler", "morris", "morris_opt", "sobol", "saltelli", "sobol_plain", "finite_diff"]
AN = [m for m in ANALYZERS if m not in ("hdmr", "enhanced_hdmr", "enhanced_plain", "sobol_par", "ff")]
SLOW = ["hdmr", "enhanced_hdmr", "enhanced_plain", "sobol_par"]
GS = {"sobol", "morris", "pawn", "rsa", "rsa_x", "discrepancy"}  # analyze groups


@st.composite
def cases(draw):
    p = draw(problems(2, 4))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        if draw(st.booleans()):
            ops.append(["s", draw(st.sampled_from(SEEDED)), draw(st.integers(0, 3)), draw(st.sampled_from([8, 16]))])
        else:
            ms = [m for m in AN if not p.get("groups") or m in GS or m in ("delta", "dgsm", "fast", "rbd_fast")]
            if draw(st.integers(0, 11)) == 0 and not p.get("groups"):
                ms = SLOW
            if "dists" in p:
                ms = [m for m in ms if m != "discrepancy"]  # reads the bounds as ranges
            ops.append(["a", draw(st.sampled_from(ms)), draw(st.integers(0, 3)), 0])
    return {"p": p, "ops": ops, "dseed": draw(SMALL_SEEDS), "y": draw(st.sampled_from(["normal", "func", "ties", "skew"])), "spec": draw(st.booleans())}


def sample(m, p, N, seed):
    from SALib.sample import fast_sampler, finite_diff, latin, morris, saltelli, sobol

    if m == "latin":
        return latin.sample(p, N, seed=seed)
    if m == "fast_sampler":
        return fast_sampler.sample(p, 65 + N, M=4, seed=seed)
    if m == "morris":
        return morris.sample(p, N, num_levels=4, seed=seed)
    if m == "morris_opt":
        return morris.sample(p, 8, num_levels=4, optimal_trajectories=3, local_optimization=True, seed=seed)
    if m == "sobol":
        return sobol.sample(p, N, seed=seed)
    if m == "sobol_plain":
        return sobol.sample(p, N, scramble=False)
    if m == "saltelli":
        return saltelli.sample(p, N)
    return finite_diff.sample(p, N)


def analyze(m, p, X, Y, seed):
    from SALib.analyze import delta, dgsm, discrepancy, enhanced_hdmr, fast, hdmr, morris, pawn, rbd_fast, rsa, sobol

    if m.startswith("sobol"):
        return sobol.analyze(p, Y, num_resamples=5, seed=seed, **({"parallel": True, "n_processors": 2} if m == "sobol_par" else {}))
    if m == "fast":
        return fast.analyze(p, Y, num_resamples=5, seed=seed)
    f = {"morris": lambda: morris.analyze(p, X, Y, num_resamples=5, seed=seed), "morris_scaled": lambda: morris.analyze(p, X, Y, num_resamples=5, scaled=True, seed=seed),
         "delta": lambda: delta.analyze(p, X, Y, num_resamples=3, seed=seed), "dgsm": lambda: dgsm.analyze(p, X, Y, num_resamples=5, seed=seed),
         "rbd_fast": lambda: rbd_fast.analyze(p, X, Y, num_resamples=5, seed=seed), "pawn": lambda: pawn.analyze(p, X, Y, S=4),
         "rsa": lambda: rsa.analyze(p, X, Y, bins=4), "rsa_x": lambda: rsa.analyze(p, X, Y, bins=4, target="X"),
         "discrepancy": lambda: discrepancy.analyze(p, X, Y), "hdmr": lambda: hdmr.analyze(p, X, Y, maxorder=1, K=2, seed=seed),
         "enhanced_hdmr": lambda: enhanced_hdmr.analyze(p, X, Y, max_order=1, bootstrap=2, seed=seed),
         "enhanced_plain": lambda: enhanced_hdmr.analyze(p, X, Y, max_order=2, poly_order=2, bootstrap=2, extended_base=False, seed=seed)}
    return f[m]()


def run(f, *a):
    try:
        return "ok", f(*a)
    except Exception as e:
        return "raised", type(e).__name__


def definition(p):
    d = {k: p.get(k) for k in ("num_vars", "names", "bounds", "dists")}
    d["groups"] = p.get("groups") or p["names"]  # an ungrouped factor is its own group
    return json.dumps(d, sort_keys=True)


@sub("C30", cases(), quick=800, rule="at least 3 calls of at least 2 methods")
def histories(case, t):
    """A call on a problem other calls have used gives what it gives on a fresh
    copy; the problem and the data are as before."""
    p0 = case["p"]
    shared = mk(p0)
    if case["spec"]:
        from SALib import ProblemSpec

        shared = ProblemSpec(mk(p0))
    want_def = definition(p0)
    data = {}
    kept = []
    for kind, m, seed, N in case["ops"]:
        if kind == "s":
            a = run(sample, m, shared, N, seed)
            b = run(sample, m, mk(p0), N, seed)
            require(a[0] == b[0], "{} on the used problem {} ({}), on a fresh one {}", m, a[0], a[1] if a[0] == "raised" else "", b[0])
            if a[0] == "ok":
                require(a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=True), "{}: other samples than on a fresh problem", m)
                kept.append((m, a[1], a[1].copy()))
        else:
            if m not in data:
                X, Y = prepare({"m": m, "p": p0, "y": case["y"], "dseed": case["dseed"]})
                data[m] = (X, Y, X.copy(), Y.copy())
            X, Y, X0, Y0 = data[m]
            a = run(analyze, m, shared, X, Y, seed)
            b = run(analyze, m, mk(p0), X0.copy(), Y0.copy(), seed)
            require(a[0] == b[0], "{} on the used problem {} ({}), on a fresh one {} ({})", m, a[0], a[1] if a[0] == "raised" else "", b[0], b[1] if b[0] == "raised" else "")
            require(np.array_equal(X, X0, equal_nan=True) and np.array_equal(Y, Y0, equal_nan=True), "{}: the data were changed", m)
            if a[0] == "ok":
                require(dump(a[1]) == dump(b[1]), "{}: other results than on a fresh problem", m)
        require(definition(shared) == want_def, "{}: the problem became {}", m, definition(shared).replace("{", "("))
        for n, x, x0 in kept:
            require(np.array_equal(x, x0, equal_nan=True), "{}: an earlier sample ({}) was changed", m, n)
    t.nontrivial(len(case["ops"]) > 2 and len({o[1] for o in case["ops"]}) > 1)
    for o in case["ops"]:
        t.label(o[1])


@st.composite
def scribbles(draw):
    m = draw(st.sampled_from(SEEDED))
    return {"p": draw(problems(2, 4)), "m": m, "N": draw(st.sampled_from([8, 16])), "seed": draw(SMALL_SEEDS)}


@sub("C30", scribbles(), quick=300, rule="every case")
def samples_belong_to_the_caller(case, t):
    """Overwriting a returned sample has no effect on later samples."""
    m, p, N, s = case["m"], case["p"], case["N"], case["seed"]
    a = sample(m, mk(p), N, s)
    b = a.copy()
    a[...] = -1.0
    a.sort(axis=0)
    require(np.array_equal(sample(m, mk(p), N, s), b, equal_nan=True), "{}: a later sample is affected", m)
    t.nontrivial()
    t.label(m)


def perform(ops):
    """Runs in a pristine process (vlib.fresh): the calls, one after the other."""
    out = []
    for kind, m, p, X, Y, N, seed in ops:
        if kind == "s":
            st_, r = run(sample, m, mk(p), N, seed)
        else:
            st_, r = run(analyze, m, mk(p), X, Y, seed)
        out.append((st_, np.array(r, copy=True) if kind == "s" and st_ == "ok" else dump(r) if st_ == "ok" else r))
    return out


@st.composite
def siblings(draw):
    """Several problems that have much in common: the same names, or bounds, or
    number of parameters, or groups."""
    p = draw(problems(2, 4))
    D = p["num_vars"]
    ps = [p]
    for _ in range(draw(st.integers(1, 2))):
        q = json.loads(json.dumps(draw(st.sampled_from(ps))))
        how = draw(st.sampled_from(["bounds", "bounds", "groups", "dists", "names", "order", "other"]))
        if how == "bounds" and not q.get("dists"):
            q["bounds"][draw(st.integers(0, D - 1))] = [0.25, 4.0]
        elif how == "groups":
            if q.get("groups") and draw(st.booleans()):
                q.pop("groups")
            else:
                q["groups"] = draw(st.lists(st.sampled_from(["g1", "g2", "g3"]), min_size=D, max_size=D).filter(lambda g: len(set(g)) > 1))
        elif how == "dists" and not q.get("dists"):
            q["bounds"] = [[0.5, 2.0] for _ in range(D)]
            q["dists"] = draw(st.lists(st.sampled_from(["unif", "norm", "lognorm", "logunif"]), min_size=D, max_size=D))
        elif how == "names":
            q["names"] = ["n%d" % i for i in range(D)]
            if q.get("groups") == p["names"]:
                q.pop("groups")
        elif how == "order":
            for k in ("names", "bounds", "dists", "groups"):
                if q.get(k):
                    q[k] = q[k][::-1]
        elif how == "other":
            q = draw(problems(2, 4))
        ps.append(q)
    ops = []
    pair = draw(st.sampled_from(["same", "same", "any"]))  # one method over all problems, or several
    one = draw(st.sampled_from([["s", m] for m in SEEDED] + [["a", m] for m in AN + SLOW[:2]]))
    seeds = draw(st.sampled_from([[0], [0, 1]]))
    first = draw(st.permutations(range(len(ps))))
    for j in range(draw(st.integers(len(ps), 5))):
        k = first[j] if j < len(ps) else draw(st.integers(0, len(ps) - 1))
        kind, m = one if pair == "same" else draw(st.sampled_from([["s", m] for m in SEEDED] + [["a", m] for m in AN]))
        ops.append([kind, m, k, draw(st.sampled_from([8, 8, 16])), draw(st.sampled_from(seeds)), draw(st.integers(0, 1))])
    return {"ps": ps, "ops": ops, "y": draw(st.sampled_from(["normal", "func", "skew"]))}


@sub("C30", siblings(), quick=240, shards=8, rule="at least 2 problems in the sequence")
def other_problems_do_not_interfere(case, t):
    """A sequence of calls over several similar problems, in one new process,
    gives what each call gives in a new process of its own."""
    ops = []
    for kind, m, k, N, seed, dseed in case["ops"]:
        p = case["ps"][k]
        X = Y = None
        if kind == "a":
            if m in ("discrepancy",) and p.get("dists") or m in ("hdmr", "enhanced_hdmr") and p.get("groups"):
                continue
            if p.get("groups") and m not in GS and m not in ("delta", "dgsm", "fast", "rbd_fast"):
                continue
            X, Y = prepare({"m": m, "p": p, "y": case["y"], "dseed": dseed})
        ops.append((kind, m, p, X, Y, N, seed))
    if len(ops) < 2:
        return
    got = fresh.call("checks.c30", "perform", ops)
    for o, (s1, a) in zip(ops, got):
        s2, b = fresh.call("checks.c30", "perform", [o])[0]
        require(s1 == s2, "{} after other calls {} ({}), alone {} ({})", o[1], s1, a if s1 == "raised" else "", s2, b if s2 == "raised" else "")
        same = np.array_equal(a, b, equal_nan=True) if o[0] == "s" and s1 == "ok" else a == b
        require(same, "{}: another result after {}", o[1], [x[1] for x in ops])
    t.nontrivial(len({json.dumps(o[2], sort_keys=True) for o in ops}) > 1)
    for o in ops:
        t.label(o[1])


@st.composite
def views(draw):
    p = draw(problems(2, 4, dists=False, groups=False))
    return {"p": p, "m": draw(st.sampled_from(AN)), "dseed": draw(SMALL_SEEDS), "y": draw(st.sampled_from(["normal", "func", "skew"])), "seed": draw(SMALL_SEEDS),
            "how": draw(st.sampled_from(["F", "strided", "readonly", "list-bounds", "int-bounds"]))}


@sub("C30", views(), quick=400, rule="every case")
def memory_layout_does_not_matter(case, t):
    """Fortran-ordered, strided or read-only arrays and array-valued problem
    entries give the results of plain ones."""
    m, p, how = case["m"], case["p"], case["how"]
    X, Y = prepare({"m": m, "p": p, "y": case["y"], "dseed": case["dseed"]})
    a = analyze(m, mk(p), X.copy(), Y.copy(), case["seed"])
    q = mk(p)
    X2, Y2 = X.copy(), Y.copy()
    if how == "F":
        X2 = np.asfortranarray(X2)
    elif how == "strided":
        buf = np.full((2 * len(X), 2 * X.shape[1]), 7.0)
        buf[::2, ::2] = X
        X2 = buf[::2, ::2]
        yb = np.full(2 * len(Y), 7.0)
        yb[::2] = Y
        Y2 = yb[::2]
    elif how == "readonly":
        X2.setflags(write=False)
        Y2.setflags(write=False)
    elif how == "list-bounds":
        q["bounds"] = np.array(q["bounds"])
    else:
        q["bounds"] = [tuple(b) for b in q["bounds"]]
    b = analyze(m, q, X2, Y2, case["seed"])
    require(dump(a) == dump(b) or agreeing(a, b), "{}: other results with {} data", m, how)
    t.nontrivial()
    t.label(how)


def agreeing(a, b):
    from checks.c22 import agree

    return agree(a, b, rtol=1e-7, atol=1e-9)
