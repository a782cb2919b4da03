"""ProblemSpec: histories of sampling, evaluation and analysis."""

import numpy as np
from hypothesis import strategies as st

from checks.c22 import agree, tables
from vlib.core import fail, require, sub
from vlib.gen import from_unit, support, SMALL_SEEDS, mk, mk_y, problems, rng

RULE = "Random problem definitions and random histories (up to 10 operations) of sampling, setting samples or results, evaluating, analysing and reporting, valid and invalid; each step is compared with a model of the state and with the plain functions; non-trivial = a history with an accepted analysis or a rejected operation."


@st.composite
def specs(draw):
    p = draw(problems(1, 6, groups=True, min_groups=1))
    return p


SAMPLERS = {
    "latin": dict(N=130), "fast": dict(N=70, M=4), "finite_diff": dict(N=12), "morris": dict(N=9, num_levels=4),
    "saltelli": dict(N=8), "sobol": dict(N=8), "ff": {},
}
MODULE = {"fast": "fast_sampler"}
UNSEEDED = {"saltelli"}

op = st.one_of(
    st.fixed_dictionaries({"op": st.just("sample"), "m": st.sampled_from(sorted(SAMPLERS)), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries(
        {"op": st.just("samples"), "via": st.sampled_from(["method", "attr"]), "rows": st.one_of(st.integers(110, 140), st.just(0)),
         "dcols": st.sampled_from([0, 0, 0, 1, -1]), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries(
        {"op": st.just("evaluate"), "cols": st.sampled_from([0, 0, 1, 2, 3]), "extra": st.booleans(),
         "a": st.floats(-3, 3), "nprocs": st.sampled_from([None, None, None, 1])}),
    st.fixed_dictionaries(
        {"op": st.just("results"), "via": st.sampled_from(["method", "method", "attr"]), "drows": st.sampled_from([0, 0, 0, 1, -3, "half", "double"]),
         "cols": st.sampled_from([0, 1, 2, 3]), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("analyze"), "k": st.integers(0, 20), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("analyze"), "k": st.integers(0, 20), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.sampled_from(["to_df", "str", "eval_par_unsampled"])}),
    st.fixed_dictionaries({"op": st.just("outputs"), "n": st.integers(1, 3), "seed": SMALL_SEEDS}),
)


@st.composite
def histories(draw):
    p = draw(specs())
    return {
        "p": p,
        "outputs": draw(st.sampled_from([None, None, ["Y"], ["flow", "cost"], ["b", "a", "c"]])),
        "ops": draw(st.lists(op, min_size=2, max_size=10)),
        "numvars": draw(st.sampled_from(["none", "right", "wrong"])),
        # typical histories start by sampling and evaluating
        "lead": draw(st.sampled_from([None] + sorted(SAMPLERS))),
    }


def model_fn(X, a=0.0, b=0.0, cols=0):
    s = np.sin(X).sum(axis=1) + a * X[:, 0]
    if cols == 0:
        return s + b
    return np.column_stack([s + b + (k + 1) * X[:, -1] ** 2 * 0.01 for k in range(cols)])


ANY = ["pawn", "rsa", "rbd_fast", "discrepancy", "delta"]
MATCH = {"fast": ["fast"], "finite_diff": ["dgsm"], "morris": ["morris"], "saltelli": ["sobol"], "sobol": ["sobol"], "ff": ["ff"]}
AKW = {
    "sobol": dict(num_resamples=8), "morris": dict(num_resamples=8), "dgsm": dict(num_resamples=8),
    "fast": dict(num_resamples=8), "rbd_fast": dict(num_resamples=8), "delta": dict(num_resamples=3),
    "pawn": dict(S=4), "rsa": dict(bins=4), "discrepancy": {}, "ff": {},
}
NEEDS_X = {"pawn", "rsa", "rbd_fast", "discrepancy", "delta", "dgsm", "morris", "ff"}
NO_GROUPS = {"dgsm", "fast", "rbd_fast", "delta", "ff"}


def plain_sample(p, m, seed):
    import importlib

    f = importlib.import_module("SALib.sample." + MODULE.get(m, m)).sample
    kw = dict(SAMPLERS[m])
    if m not in UNSEEDED:
        kw["seed"] = seed
    return f(mk(p), **kw), kw


def plain_analyze(p, m, X, Y, seed):
    import importlib

    f = importlib.import_module("SALib.analyze." + m).analyze
    kw = dict(AKW[m], seed=seed)
    if m in NEEDS_X:
        return f(mk(p), X.copy(), Y.copy(), **kw)
    return f(mk(p), Y.copy(), **kw)


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return np.shape(a) == np.shape(b) and np.array_equal(a, b, equal_nan=True)


@sub("C23", histories(), quick=400, shards=8, rule="an accepted analysis or a rejected operation")
def histories_follow_the_model(case, t):
    """After every operation the spec holds exactly the samples, results,
    outputs and analysis that the history implies; the definition never
    changes; rejected operations change nothing."""
    from SALib import ProblemSpec

    p = case["p"]
    spec = mk(p)
    if case["numvars"] == "wrong":
        spec["num_vars"] += 1 + len(case["ops"])
    elif case["numvars"] == "none":
        spec.pop("num_vars")
    if case["outputs"]:
        spec["outputs"] = list(case["outputs"])
    sp = ProblemSpec(spec)
    grouped = "groups" in p
    single = p["num_vars"] == 1 or (grouped and len(set(p["groups"])) == 1)
    st_ = {"X": None, "Y": None, "out": list(case["outputs"]) if case["outputs"] else None, "A": None, "design": None}
    # the analysis of an earlier state may or may not be kept after new
    # samples/results are forced upon the spec (unspecified)
    stale = False

    def rejected(kinds, f):
        before = (sp.samples, sp.results, list(sp["outputs"]) if "outputs" in sp else None, sp.analysis)
        b = tuple(None if v is None else np.array(v) for v in before[:2])
        try:
            f()
        except kinds:
            pass
        else:
            fail("operation {} was accepted", o)
        require(eq(sp.samples, b[0]) and eq(sp.results, b[1]), "rejected {} changed samples or results", o["op"])
        require((list(sp["outputs"]) if "outputs" in sp else None) == before[2], "rejected {} changed outputs", o["op"])
        require(sp.analysis is before[3], "rejected {} changed the analysis", o["op"])
        t.nontrivial()

    def accept_results(Y):
        nonlocal stale
        cols = 1 if Y.ndim == 1 else Y.shape[1]
        st_["Y"] = Y
        if st_["out"] is None:
            st_["out"] = ["Y"] if cols == 1 else ["Y%d" % (i + 1) for i in range(cols)]
        stale = True

    def same_tables():
        got = sp.to_df()
        if len(st_["out"]) > 1:
            require(isinstance(got, list) and len(got) == len(st_["out"]), "one table per output")
            refs = [st_["A"][k].to_df() for k in st_["out"]]
        else:
            got, refs = [got], [st_["A"].to_df()]
        for g, r in zip(got, refs):
            gl = g if isinstance(g, (list, tuple)) else [g]
            rl = r if isinstance(r, (list, tuple)) else [r]
            require(agree(tables(list(gl)), tables(list(rl))), "to_df differs")

    def bad_cols(Y):
        cols = 1 if Y.ndim == 1 else Y.shape[1]
        return st_["out"] is not None and cols != len(st_["out"])

    ops = list(case["ops"])
    if case["lead"]:
        n = len(case["outputs"]) if case["outputs"] else 0
        ops = [{"op": "sample", "m": case["lead"], "seed": 1},
               {"op": "evaluate", "cols": n if n > 1 else 0, "extra": True, "a": 0.5, "nprocs": None}] + ops
    for o in ops:
        if o["op"] == "sample":
            m = o["m"]
            if grouped and m in ("fast", "ff", "finite_diff"):
                continue
            ref, kw = plain_sample(p, m, o["seed"])
            if o["seed"] % 3 == 1:
                import importlib

                kw2 = dict(kw)
                args = [kw2.pop("N")] if "N" in kw2 else []
                r = sp.sample(importlib.import_module("SALib.sample." + MODULE.get(m, m)).sample, *args, **kw2)
            else:
                r = getattr(sp, "sample_" + m)(**kw)
            require(r is sp, "sample_{} does not return the spec", m)
            st_.update(X=ref, Y=None, A=None, design=m)
            stale = False
            if m == "ff":  # documented: pads the problem with dummy variables
                k = ref.shape[1] - p["num_vars"]
                if k:
                    p = mk(p)
                    p["names"] += ["dummy_%d" % i for i in range(k)]
                    p["bounds"] += [[0, 1]] * k
                    p["num_vars"] += k
                    if "dists" in p:
                        p["dists"] += ["unif"] * k
        elif o["op"] == "samples":
            D = p["num_vars"] + o["dcols"]
            # 0: as many new samples as there were before
            X = rng(o["seed"]).random((o["rows"] or (len(st_["X"]) if st_["X"] is not None else 120), D))
            if not o["dcols"]:
                X = from_unit(X, p)
                for j, b in enumerate(p["bounds"]):
                    X[:, j] = X[:, j].clip(*support((p.get("dists") or ["unif"] * D)[j], b))
            f = (lambda: sp.set_samples(X.copy())) if o["via"] == "method" else (lambda: setattr(sp, "samples", X.copy()))
            if o["dcols"]:
                rejected(ValueError, f)
            else:
                f()
                st_.update(X=X, Y=None, design="any")
                stale = True
        elif o["op"] == "evaluate":
            if st_["X"] is None:
                continue
            args = {"b": 2.0} if o["extra"] else {}
            Y = model_fn(st_["X"].copy(), o["a"], cols=o["cols"], **args)
            kw = {} if o["nprocs"] is None else {"nprocs": o["nprocs"]}
            f = lambda: sp.evaluate(model_fn, o["a"], cols=o["cols"], **args, **kw)
            if bad_cols(Y):
                rejected(ValueError, f)
            else:
                require(f() is sp, "evaluate does not return the spec")
                accept_results(Y)
        elif o["op"] == "results":
            n = 60 if st_["X"] is None else len(st_["X"])
            dr = o["drows"] if o["via"] == "method" and st_["X"] is not None else 0
            dr = {"half": n // 2 - n, "double": n}.get(dr, dr)
            dr = dr if n + dr > 0 else 1
            Y = mk_y("normal", o["seed"], (n + dr) * max(1, o["cols"]))
            if o["cols"]:
                Y = Y.reshape(n + dr, -1)
            f = (lambda: sp.set_results(Y.copy())) if o["via"] == "method" else (lambda: setattr(sp, "results", Y.copy()))
            if dr:
                rejected((AssertionError, ValueError), f)
            elif bad_cols(Y):
                rejected(ValueError, f)
            else:
                f()
                accept_results(Y)
        elif o["op"] == "analyze":
            X, Y = st_["X"], st_["Y"]
            cand = list(MATCH.get(st_["design"], []))
            if st_["design"] == "ff":
                cand = ["ff"]
            elif X is not None and len(X) >= 110:
                cand += ANY
            elif X is not None:
                cand += ["pawn", "discrepancy"]
            if grouped:
                cand = [m for m in cand if m not in NO_GROUPS]
            if "dists" in p:  # discrepancy reads the bounds as ranges
                cand = [m for m in cand if m != "discrepancy"]
            if not cand:
                cand = ["sobol"]
                if Y is not None and X is None:
                    continue
            m = cand[o["k"] % len(cand)]
            f = lambda: getattr(sp, "analyze_" + m)(seed=o["seed"], **AKW[m])
            if single:
                rejected(ValueError, f)
                continue
            if Y is None:
                rejected(RuntimeError, f)
                continue
            if m == "sobol" and st_["design"] not in ("saltelli", "sobol"):
                continue
            outs = st_["out"]
            pd_ = dict(p)
            if len(outs) == 1:
                ref = plain_analyze(pd_, m, X, Y.reshape(-1), o["seed"])
            else:
                ref = {k: plain_analyze(pd_, m, X, Y[:, i], o["seed"]) for i, k in enumerate(outs)}
            if o["seed"] % 3 == 1:
                import importlib

                g = importlib.import_module("SALib.analyze." + m).analyze
                r = sp.analyze(g, seed=o["seed"], **AKW[m])
            else:
                r = f()
            require(r is sp, "analyze_{} does not return the spec", m)
            A = sp.analysis
            if len(outs) > 1:
                require(list(A) == outs, "analyses keyed {} for outputs {}", list(A), outs)
            require(agree(A, ref), "analyze_{} differs from the function", m)
            st_["A"] = ref
            stale = False
            same_tables()
            t.label("analyze " + m)
            t.nontrivial()
        elif o["op"] == "to_df":
            if sp.analysis is None:
                rejected(RuntimeError, sp.to_df)
            elif not stale:
                same_tables()
        elif o["op"] == "str":
            s = str(sp)
            if st_["X"] is not None:
                require("%d samples" % len(st_["X"]) in s, "summary lacks the {} samples: {}", len(st_["X"]), s[:200])
            if st_["Y"] is not None:
                require("%d evaluations" % len(st_["Y"]) in s, "summary lacks the evaluations")
                require("%d outputs" % len(st_["out"]) in s, "summary lacks the outputs")
            if st_["X"] is None and st_["Y"] is None and sp.analysis is None:
                require("does not currently contain" in s, "empty summary {}", s)
        elif o["op"] == "outputs":
            # other names for the outputs (as many as there are results)
            n = o["n"] if st_["Y"] is None else 1 if st_["Y"].ndim == 1 else st_["Y"].shape[1]
            pool = ["w", "out 2", "a", "Y", "Y2", "b", "zeta"]
            k = o["seed"] % len(pool)
            st_["out"] = (pool[k:] + pool[:k])[:n]
            sp["outputs"] = list(st_["out"])
            stale = True
        elif o["op"] == "eval_par_unsampled":
            if st_["X"] is None:
                rejected(RuntimeError, lambda: sp.evaluate_parallel(model_fn, nprocs=2))
        require(eq(sp.samples, st_["X"]), "after {}: unexpected samples", o["op"])
        require(eq(sp.results, st_["Y"]), "after {}: unexpected results", o["op"])
        if not stale:
            require((sp.analysis is None) == (st_["A"] is None), "after {}: unexpected analysis", o["op"])
        require((list(sp["outputs"]) if "outputs" in sp else None) == st_["out"], "outputs {}", sp.get("outputs"))
        require(sp["num_vars"] == p["num_vars"] and list(sp["names"]) == p["names"] and
                [list(b) for b in sp["bounds"]] == p["bounds"], "the definition changed")
        if "dists" in p:
            require(list(sp["dists"]) == p["dists"], "distributions changed")
        if grouped:
            require(list(sp["groups"]) == p["groups"], "groups changed")


BAD = ["no names", "no bounds", "short bounds", "long bounds", "groups length"]


@st.composite
def bad_specs(draw):
    return {"p": draw(problems(2, 4))}


@sub("C23", bad_specs(), quick=60, rule="every case (all kinds of invalid definitions are tried)")
def bad_definitions(case, t):
    """Incomplete or inconsistent definitions are rejected at construction."""
    for bad in BAD:
        refused(mk(case["p"]), bad, t)


def refused(p, bad, t):
    from SALib import ProblemSpec

    ProblemSpec(mk(p))
    if bad == "no names":
        p.pop("names")
    elif bad == "no bounds":
        p.pop("bounds")
    elif bad == "short bounds":
        p["bounds"] = p["bounds"][:-1]
    elif bad == "long bounds":
        p["bounds"] = p["bounds"] + [[0, 1]]
    else:
        p["groups"] = ["g1"] + ["g2"] * len(p["names"])
    try:
        ProblemSpec(p)
    except (AssertionError, ValueError):
        t.nontrivial()
        return
    fail("accepted a definition with {}", bad)


class Wrapped:
    """A callable object around an analysis function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, problem, *args, **kwargs):
        return self.f(problem, *args, **kwargs)


def local_x(problem, Y, seed=None, num_resamples=8):
    """Uses X as a local name, but does not take it."""
    from SALib.analyze import sobol

    X = np.asarray(Y, dtype=float)
    return sobol.analyze(problem, X, seed=seed, num_resamples=num_resamples)


def takes_x(problem, X, Y, seed=None, **kw):
    from SALib.analyze import rbd_fast

    return rbd_fast.analyze(problem, X, Y, seed=seed, **kw)


@st.composite
def callables(draw):
    return {
        "p": draw(problems(2, 3, groups=False, dists=False)),
        "form": draw(st.sampled_from(["function", "partial", "decorated", "lambda", "method"])),
        "x": draw(st.booleans()),
        "outs": draw(st.integers(1, 3)),
        "par": draw(st.sampled_from([None, None, "parallel"])),
        "args": draw(st.integers(0, 2)),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C23", callables(), quick=40, thorough=600, shards=4, rule="every case")
def any_analysis_function(case, t):
    """analyze accepts any callable that follows the documented convention and
    passes the samples to those that take X only."""
    from functools import partial, wraps

    from SALib import ProblemSpec
    from SALib.sample import sobol

    base = takes_x if case["x"] else local_x
    f, kw, args = base, {"seed": case["seed"], "num_resamples": 6}, []
    if case["form"] == "partial":
        f, kw = partial(base, **kw), {}
    else:  # some of the options by position
        for k in list(kw)[: case["args"]]:
            if k == "seed" or not case["x"]:
                args.append(kw.pop(k))
    if case["form"] == "partial":
        pass
    elif case["form"] == "decorated":

        @wraps(base)
        def f(*a, **k):
            return base(*a, **k)

    elif case["form"] == "lambda":
        f = (lambda problem, X, Y, *a, **k: base(problem, X, Y, *a, **k)) if case["x"] else (lambda problem, Y, *a, **k: base(problem, Y, *a, **k))
    elif case["form"] == "method" and not case["x"]:
        f = Wrapped(base).__call__ if case["outs"] == 2 else Wrapped(base)
    p = mk(case["p"])
    X = sobol.sample(mk(p), 16, seed=1)
    cols = [mk_y("func", case["seed"] + k, len(X), X) for k in range(case["outs"])]
    sp = ProblemSpec(mk(p)).set_samples(X).set_results(np.column_stack(cols) if len(cols) > 1 else cols[0])
    if case["par"]:
        sp.analyze_parallel(f, *args, nprocs=2, **kw)
    else:
        sp.analyze(f, *args, **kw)
    ref = [base(mk(p), *([X.copy()] if case["x"] else []), c.copy(), seed=case["seed"], num_resamples=6) for c in cols]
    got = [sp.analysis] if len(cols) == 1 else [sp.analysis[k] for k in sp["outputs"]]
    require(len(got) == len(ref), "{} analyses of {} outputs", len(got), len(ref))
    for k, (a, b) in enumerate(zip(got, ref)):
        require(agree(a, b), "analysis of output {} differs from calling the function", k)
    t.nontrivial()
    t.label(case["form"])
