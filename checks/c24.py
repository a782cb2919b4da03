"""Parallel evaluation and analysis through ProblemSpec equal the serial ones."""

import numpy as np
from hypothesis import strategies as st

from checks.c22 import agree, tables
from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, problems, rng, same

RULE = "Random sample sizes (including fewer rows than processes), worker counts 1-6 (and above the machine's), output counts, extra arguments and analysis methods; non-trivial = at least two workers or two outputs."


def model(X, a, b=0.0, cols=0, offset=None):
    X = np.atleast_2d(X)
    s = np.cos(X @ np.arange(1.0, X.shape[1] + 1)) * a + b
    if cols == 0:
        return s
    return np.column_stack([s * (k + 1) + X[:, 0] ** k for k in range(cols)])


def counts(X, a=1.0, b=0.0, cols=0, offset=None):
    """A model that returns integers as long as no row needs a fraction."""
    y = model(np.round(X, 1), a, b, cols)
    y = np.where(np.atleast_2d(X)[:, 0] < 1.5, np.round(y.T), y.T).T
    return y.astype(int) if np.all(y == np.round(y)) else y


def plain(X):
    return np.atleast_2d(X).sum(axis=1)


def looped(X, a, b=0.0, cols=0, offset=None):
    """One run of a scalar or multi-output model for every row."""
    runs = []
    for row in np.atleast_2d(X):
        s = float(np.prod(np.cos(row))) * a + b
        runs.append([s + k * row[0] for k in range(cols)] if cols else s)
    return np.array(runs)


def reducing(X, a, b=0.0, cols=0, offset=None):
    """Fails on an empty sample, which nobody asked it to evaluate."""
    require(X.min() >= 0, "negative inputs")
    return model(X, a, b, cols)


@st.composite
def eval_cases(draw):
    return {
        "p": draw(problems(1, 4)),
        "rows": draw(st.one_of(st.integers(1, 9), st.integers(10, 60))),
        "nprocs": draw(st.sampled_from([None, 1, 2, 3, 4, 5, 6, 64])),
        "cols": draw(st.sampled_from([0, 0, 1, 2, 3])),
        "how": draw(st.sampled_from(["evaluate", "parallel"])),
        "a": draw(st.floats(-2, 2)),
        "extra": draw(st.booleans()),
        "args": draw(st.sampled_from(["both", "both", "keywords", "positions", "none"])),
        "f": draw(st.sampled_from(["model", "counts", "looped", "reducing"])),
        "sort": draw(st.booleans()),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C24", eval_cases(), quick=64, thorough=1200, shards=4, rule="two or more workers")
def evaluation(case, t):
    """Parallel evaluation gives every sample row its own result, in order,
    whatever the number of workers, and passes on the extra arguments."""
    from SALib import ProblemSpec

    p = mk(case["p"])
    sp = ProblemSpec(p)
    X = rng(case["seed"]).random((case["rows"], p["num_vars"])) * 3
    if case["sort"]:
        X = X[X[:, 0].argsort()]
    sp.set_samples(X.copy())
    serial = ProblemSpec(mk(case["p"])).set_samples(X.copy())
    kw = {"cols": case["cols"]}
    if case["extra"]:
        kw["b"] = 1.5
    f, args = {"model": model, "counts": counts, "looped": looped, "reducing": reducing}[case["f"]], [case["a"]]
    if case["args"] == "keywords":
        args, kw = [], dict(kw, a=case["a"])
    elif case["args"] == "positions":
        args, kw = [case["a"], kw.get("b", 0.5), case["cols"]], {}
    elif case["args"] == "none":
        f, args, kw, case["cols"] = plain, [], {}, 0
    ref = np.asarray(f(X, *args, **kw), dtype=float)
    n = case["nprocs"]
    if case["how"] == "evaluate":
        r = sp.evaluate(f, *args, nprocs=n or 2, **kw)
    else:
        r = sp.evaluate_parallel(f, *args, nprocs=n, **kw)
    require(r is sp, "does not return the spec")
    require(sp.results.shape == ref.shape, "results of shape {}, expected {}", sp.results.shape, ref.shape)
    same(sp.results, ref, "parallel results", rtol=1e-12, atol=1e-12)
    same(serial.evaluate(f, *args, **kw).results, ref, "serial results", rtol=1e-12, atol=1e-12)
    require(np.array_equal(sp.samples, X), "samples changed")
    k = 1 if case["cols"] < 2 else case["cols"]
    require(sp["outputs"] == (["Y"] if k == 1 else ["Y%d" % (i + 1) for i in range(k)]), "outputs {}", sp["outputs"])
    t.nontrivial(n != 1)


@sub(
    "C24",
    st.fixed_dictionaries(
        {
            "rows": st.one_of(st.integers(1, 3), st.integers(6, 40)),
            "nprocs": st.sampled_from([1, 2, 2, 4]),
            "servers": st.sampled_from([None, [], ["localhost:55774"], ("localhost:55774", "localhost:55775")]),
            "f": st.sampled_from(["looped", "reducing", "model"]),
            "cols": st.sampled_from([0, 1, 2]),
            "extra": st.booleans(),
            "seed": SMALL_SEEDS,
        }
    ),
    quick=14,
    thorough=80,
    shards=2,
    rule="more than one row",
)
def distributed(case, t):
    """Distributed evaluation, here on local workers (nothing listens on the
    servers named), equals the serial one."""
    from SALib import ProblemSpec

    try:
        import pathos.pp  # noqa: F401
    except ImportError:
        return  # documented to need pathos
    f = {"model": remote_model, "looped": remote_looped, "reducing": remote_reducing}[case["f"]]
    sp = ProblemSpec({"names": ["a", "b"], "bounds": [[0.0, 1.0]] * 2})
    X = rng(case["seed"]).random((case["rows"], 2))
    sp.set_samples(X.copy())
    args, kw = ([2.5], {"cols": case["cols"]}) if case["extra"] else ([], {})
    if case["extra"] and case["seed"] % 2:
        args, kw = [2.5, -1.0, case["cols"]], {}
    ref = np.asarray(f(X, *args, **kw), dtype=float)
    try:
        r = sp.evaluate_distributed(f, *args, nprocs=case["nprocs"], servers=case["servers"], **kw)
    except OSError as e:  # no loopback network
        t.label("no network: %s" % type(e).__name__)
        return
    require(r is sp, "does not return the spec")
    require(sp.results.shape == ref.shape, "results of shape {}, expected {}", sp.results.shape, ref.shape)
    same(sp.results, ref, "distributed results", rtol=1e-12, atol=1e-12)
    require(np.array_equal(sp.samples, X), "samples changed")
    t.nontrivial(case["rows"] > 1)


def remote_model(X, a=1.0, b=0.0, cols=0):
    # self-contained: it is sent to other processes
    import numpy as np

    s = np.cos(X @ np.arange(1.0, X.shape[1] + 1)) * a + b
    if cols == 0:
        return s
    return np.column_stack([s * (k + 1) + X[:, 0] ** k for k in range(cols)])


def remote_looped(X, a=1.0, b=0.0, cols=0):
    import numpy as np

    runs = []
    for row in X:
        s = float(np.prod(np.cos(row))) * a + b
        runs.append([s + k * row[0] for k in range(cols)] if cols else s)
    return np.array(runs)


def remote_reducing(X, a=1.0, b=0.0, cols=0):
    import numpy as np

    s = X.sum(axis=1) * a + b + 0 * X.min()
    return s if cols == 0 else np.column_stack([s * (k + 1) for k in range(cols)])


@st.composite
def an_cases(draw):
    return {
        "p": draw(problems(2, 3, dists=False, groups=False)),
        "m": draw(st.sampled_from(["sobol", "morris", "fast", "rbd_fast", "pawn", "rsa", "delta", "discrepancy", "dgsm", "ff", "enhanced_hdmr"])),
        "nprocs": draw(st.sampled_from([None, 1, 2, 3, 64])),
        "outs": draw(st.sampled_from([["only"], ["b", "a"], ["q3", "q1", "q2"]])),
        "column": draw(st.booleans()),
        "how": draw(st.sampled_from(["analyze", "parallel"])),
        "seed": draw(SMALL_SEEDS),
    }


@sub("C24", an_cases(), quick=64, thorough=1200, shards=4, rule="two or more outputs")
def analysis(case, t):
    """Analysing several outputs, serially or in parallel, gives each output
    the analysis of its own column under its own name."""
    import importlib
    from SALib import ProblemSpec
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, sobol

    m, outs = case["m"], case["outs"]
    p = mk(case["p"])
    kw = {"seed": case["seed"]}
    if m == "sobol":
        X, kw["num_resamples"] = sobol.sample(p, 8, seed=1), 5
    elif m == "morris":
        X, kw["num_resamples"] = morris.sample(p, 5, seed=1), 5
    elif m == "fast":
        X, kw["num_resamples"] = fast_sampler.sample(p, 70, seed=1), 5
    elif m == "dgsm":
        X, kw["num_resamples"] = finite_diff.sample(p, 9), 5
    elif m == "ff":
        X = ff.sample(p)
    elif m == "enhanced_hdmr":
        X = latin.sample(p, 300, seed=1)
        kw.update(max_order=1, bootstrap=2)
    else:
        X = latin.sample(p, 120, seed=1)
        kw.update({"delta": {"num_resamples": 3}, "rbd_fast": {"num_resamples": 5}, "pawn": {"S": 4}, "rsa": {"bins": 4}}.get(m, {}))
    cols = [mk_y("func", case["seed"] + k, len(X), X) for k in range(len(outs))]
    Y = np.column_stack(cols)
    if len(outs) == 1 and not case["column"]:
        Y = Y[:, 0]
    func = importlib.import_module("SALib.analyze." + m).analyze
    needs_x = m not in ("sobol", "fast")
    ref = {}
    for o, c in zip(outs, cols):
        ref[o] = func(mk(p), *([X.copy()] if needs_x else []), c.copy(), **kw)

    def spec():
        s = ProblemSpec(dict(mk(p), outputs=list(outs)))
        return s.set_samples(X.copy()).set_results(Y.copy())

    sp = spec()
    if case["how"] == "analyze":
        sp.analyze(func, nprocs=case["nprocs"], **kw)
    else:
        sp.analyze_parallel(func, nprocs=case["nprocs"], **kw)
    ser = spec().analyze(func, **kw)
    for what, A in (("parallel", sp.analysis), ("serial", ser.analysis)):
        if len(outs) == 1:
            require(agree(A, ref[outs[0]]), "{} {} analysis differs", what, m)
        else:
            require(list(A) == outs, "{} analyses named {}", what, list(A))
            for o in outs:
                require(agree(A[o], ref[o]), "{} {} analysis of output {} differs", what, m, o)
    want = [tables(ref[o].to_df()) for o in outs]
    for what, A in (("parallel", sp), ("serial", ser)):
        require(agree(tables(A.to_df()), want if len(outs) > 1 else want[0]), "{}: the tables are not those of the outputs in order", what)
    t.label(m)
    t.nontrivial(len(outs) > 1)
