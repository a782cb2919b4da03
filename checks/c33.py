"""Options that are left out take their documented defaults, by keyword, by
position and through a ProblemSpec."""

import contextlib
import importlib
import io

import numpy as np
from hypothesis import strategies as st

from checks.c22 import agree, canon
from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, problems, same

RULE = "Random problems, every sampler and analyzer, random subsets of the options left out, the others off their defaults, passed by keyword, by position or through a ProblemSpec; non-trivial = at least one option left out that has a documented default."

# option: (documented default, other values), in the order of the signature
SAMPLERS = {
    "latin": [],
    "fast_sampler": [("M", 4, [2, 3, 5])],
    "finite_diff": [("delta", 0.01, [0.02, 0.1]), ("skip_values", 1024, [0, 64, 512])],
    "morris": [("num_levels", 4, [2, 6, 8])],
    "morris_opt": [("num_levels", 4, [6, 8]), ("optimal_trajectories", None, [3, 4]), ("local_optimization", True, [False])],
    "saltelli": [("calc_second_order", True, [False]), ("skip_values", None, [0, 16, 64])],
    "sobol": [("calc_second_order", True, [False]), ("scramble", True, [False]), ("skip_values", 0, [4, 64])],
    "ff": [],
}
# position of the seed after the options above (None: not by position)
SEED_AT = {"latin": 0, "fast_sampler": 1, "finite_diff": 1, "morris": None, "morris_opt": 3, "saltelli": None, "sobol": None, "ff": 0}
KEYWORDS_ONLY = {"sobol"}
GROUPED = {"latin", "morris", "morris_opt", "saltelli", "sobol"}

RES = ("num_resamples", 100, [11, 20])
CONF = ("conf_level", 0.95, [0.5, 0.9])
# (option, default, others); "|" ends the options that can be given by position
ANALYZERS = {
    "sobol": [("calc_second_order", True, [False]), RES, CONF, ("print_to_console", False, []), ("parallel", False, []), ("n_processors", None, []), ("keep_resamples", False, [True])],
    "morris": [RES, CONF, ("scaled", False, [True]), ("print_to_console", False, []), ("num_levels", 4, [6, 8])],
    "fast": [("M", 4, [2, 3]), RES, CONF, ("print_to_console", False, [])],
    "rbd_fast": [("M", 10, [4, 6]), RES, CONF, ("print_to_console", False, [])],
    # the number of resamples is documented twice, differently
    "dgsm": [("num_resamples", None, [11, 20]), CONF, ("print_to_console", False, [])],
    "delta": [RES, CONF, ("print_to_console", False, []), ("seed", None, []), ("y_resamples", None, []), ("method", "all", ["delta", "sobol"]), ("bootstrap_savedf", None, []), ("bins_specs", None, [])],
    "discrepancy": [("method", "WD", ["CD", "MD", "L2-star"]), ("print_to_console", False, [])],
    "pawn": [("S", 10, [4, 7]), ("print_to_console", False, [])],
    "rsa": [("bins", 20, [5, 10]), ("target", "Y", ["X"]), ("print_to_console", False, [])],
    "ff": [("second_order", False, [True]), ("print_to_console", False, [])],
    "hdmr": [("maxorder", 2, [1]), ("maxiter", 100, [1, 40]), ("m", 2, [3]), ("K", 20, [2, 5]), ("R", None, [400]), ("alpha", 0.95, [0.6, 0.9]), ("lambdax", 0.01, [0.5]), ("print_to_console", False, [])],
    "enhanced_hdmr": [("max_order", 2, [1]), ("poly_order", 3, [2]), ("bootstrap", 20, [2, 5]), ("subset", None, [400]), ("max_iter", 100, [1, 40]), ("l2_penalty", 0.01, [0.5]), ("alpha", 0.95, [0.6, 0.9]), ("extended_base", True, [False]), ("print_to_console", False, []), ("return_emulator", False, [])],
}
SLOW = ["hdmr", "enhanced_hdmr"]
AGROUPED = {"sobol", "morris", "pawn", "rsa", "discrepancy"}


def fill(draw, options):
    """A value for some options, the others left out."""
    given = {}
    for name, default, others in options:
        if others and draw(st.integers(0, 2)) == 0:
            given[name] = draw(st.sampled_from(others))
        elif default is None and name == "num_resamples":
            given[name] = draw(st.sampled_from(others))
    return given


@st.composite
def sample_cases(draw):
    m = draw(st.sampled_from(sorted(SAMPLERS)))
    c = {"m": m, "p": draw(problems(2, 5, groups=m in GROUPED)), "seed": draw(SMALL_SEEDS), "given": fill(draw, SAMPLERS[m]),
         "N": draw(st.sampled_from([8, 16, 32])), "style": draw(st.sampled_from(["keywords", "position", "spec"]))}
    if m in KEYWORDS_ONLY and c["style"] == "position":
        c["style"] = "keywords"
    if m == "morris_opt":
        c["N"] = draw(st.sampled_from([7, 8, 9]))
        c["given"]["optimal_trajectories"] = draw(st.sampled_from([4, 5]))
    if m == "fast_sampler":
        c["N"] = draw(st.integers(150, 200))
    if m == "saltelli":
        c["N"] = draw(st.integers(2, 70))
    return c


def documented(case, options):
    full = {}
    for name, default, _ in options:
        full[name] = case["given"].get(name, default)
    return full


def prefix(given, options):
    """The options that come first and are given, as positional arguments."""
    args = []
    for name, _, _ in options:
        if name not in given:
            break
        args.append(given[name])
    return args, {k: v for k, v in given.items() if k not in [o[0] for o in options[: len(args)]]}


@sub("C33", sample_cases(), quick=800, rule="an option left out")
def samplers(case, t):
    """A sample drawn with options left out is the one drawn with the defaults."""
    m, N, given = case["m"], case["N"], dict(case["given"])
    name = "morris" if m == "morris_opt" else m
    f = importlib.import_module("SALib.sample." + name).sample
    seeded = m not in ("saltelli",)
    seed = {"seed": case["seed"]} if seeded else {}
    first = [] if m == "ff" else [N]

    full = documented(case, SAMPLERS[m])
    if m == "saltelli" and full["skip_values"] is None:
        # a power of 2 >= N, or 16
        full["skip_values"] = max(16, 1 << (N - 1).bit_length())
    expected = f(mk(case["p"]), *first, **full, **seed)
    if case["style"] == "keywords":
        got = f(mk(case["p"]), *first, **given, **seed)
    elif case["style"] == "position":
        # beyond the seed come the others by keyword
        args, rest = prefix(given, SAMPLERS[m][: SEED_AT[m]])
        got = f(mk(case["p"]), *first, *args, **rest, **seed)
        if SEED_AT[m] is not None:
            lead = [full[o[0]] for o in SAMPLERS[m][: SEED_AT[m]]]
            more = {o[0]: full[o[0]] for o in SAMPLERS[m][SEED_AT[m]:]}
            same(f(mk(case["p"]), *first, *lead, case["seed"], **more), expected, "seed by position")
    else:
        from SALib import ProblemSpec

        sp = ProblemSpec(mk(case["p"]))
        getattr(sp, "sample_" + name.replace("_sampler", ""))(*first, **given, **seed)
        got = sp.samples
    require(np.shape(got) == np.shape(expected), "{} with {}: {} rows and columns for {}", m, given, np.shape(got), np.shape(expected))
    require(np.array_equal(got, expected, equal_nan=True), "{} with {} (others left out) differs from {}", m, given, full)
    t.nontrivial(len(given) < len(full))
    t.label(m, case["style"])


def analysis_cases(methods):
    @st.composite
    def cases(draw):
        m = draw(st.sampled_from(methods))
        return {"m": m, "p": draw(problems(2, 2 if m in SLOW else 4, dists=False, groups=m in AGROUPED)), "seed": draw(SMALL_SEEDS), "dseed": draw(SMALL_SEEDS),
                "y": draw(st.sampled_from(["normal", "func", "skew"])), "given": fill(draw, ANALYZERS[m]),
                "style": draw(st.sampled_from(["keywords", "position", "spec"]))}

    return cases()


def data(case, full):
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, sobol

    m, p = case["m"], mk(case["p"])
    if m == "sobol":
        X = sobol.sample(p, 16, calc_second_order=full["calc_second_order"], seed=1)
    elif m == "morris":
        X = morris.sample(p, 8, num_levels=full["num_levels"], seed=1)
    elif m == "dgsm":
        X = finite_diff.sample(p, 16)
    elif m == "fast":
        X = fast_sampler.sample(p, 97, seed=1)
    elif m == "ff":
        X = ff.sample(p)
    elif m in SLOW:
        X = latin.sample(p, 600, seed=1)
    else:
        X = latin.sample(p, 120, seed=1)
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, : len(case["p"]["names"])])
    return X, Y


def analyzers_(case, t):
    m, given = case["m"], dict(case["given"])
    full = documented(case, ANALYZERS[m])
    X, Y = data(case, full)
    for half in ("R", "subset"):
        if half in full and full[half] is None:
            full[half] = len(Y) // 2
    if (m, full.get("K", full.get("bootstrap"))) == (m, 1):
        return
    if m == "delta":
        full["y_resamples"] = len(Y)
        full["bins_specs"] = {n: 10 for n in case["p"]["names"]}
    full.pop("seed", None)
    f = importlib.import_module("SALib.analyze." + m).analyze
    first = [Y] if m in ("sobol", "fast") else [X, Y]
    expected = f(mk(case["p"]), *[a.copy() for a in first], **full, seed=case["seed"])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case["style"] == "keywords":
            got = f(mk(case["p"]), *[a.copy() for a in first], **given, seed=case["seed"])
        elif case["style"] == "position":
            # all that come before the last option given
            last = max([i for i, o in enumerate(ANALYZERS[m]) if o[0] in given], default=-1)
            lead = [o[0] for o in ANALYZERS[m][: last + 1]]
            args = [case["seed"] if k == "seed" else (0 if k == "print_to_console" else full[k]) for k in lead]
            args = [{} if k == "bins_specs" else False if k == "print_to_console" else a for k, a in zip(lead, args)]
            got = f(mk(case["p"]), *[a.copy() for a in first], *args, **({} if "seed" in lead else {"seed": case["seed"]}))
        else:
            from SALib import ProblemSpec

            sp = ProblemSpec(mk(case["p"]))
            sp.sample(lambda _: X.copy())
            sp.set_results(Y.copy())
            getattr(sp, "analyze_" + m)(**given, seed=case["seed"])
            got = sp.analysis
    require(out.getvalue() == "", "{} prints without being asked: {!r}", m, out.getvalue()[:80])
    keys, ekeys = [sorted(k for k in map(str, s) if k != "problem") for s in (got, expected)]
    require(keys == ekeys, "{} with {} (others left out) returns {}, with {} {}", m, given, keys, full, ekeys)
    a, b = canon(got), canon(expected)
    for k in b:
        require(agree(a[k], b[k]), "{} with {} (others left out): {} is {}, with {} {}", m, given, k, a[k], full, b[k])
    t.nontrivial(any(o[0] not in given for o in ANALYZERS[m]))
    t.label(m, case["style"])


LIGHT = [m for m in sorted(ANALYZERS) if m not in SLOW]


@sub("C33", analysis_cases(LIGHT), quick=600, shards=4, rule="an option left out")
def analyzers(case, t):
    """An analysis with options left out is the one with the defaults."""
    analyzers_(case, t)


@sub("C33", analysis_cases(SLOW), quick=48, shards=8, rule="an option left out")
def emulating(case, t):
    """The same for both HDMR analyses."""
    analyzers_(case, t)
