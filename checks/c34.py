"""Copies and stored results behave as the originals."""

import copy
import json
import os
import pickle
import subprocess
import sys
import base64

import numpy as np
from hypothesis import strategies as st

from checks import c22, c23
from checks.c22 import canon, dump, tables
from vlib import core
from vlib.core import require, sub
from vlib.gen import SMALL_SEEDS, mk, problems

RULE = "Results of every analyzer and problem specifications after random histories, copied, deep-copied or pickled (every protocol, also into another process) once or twice; non-trivial = a copy that was changed or used further, or loaded in another process."

METHODS = c22.ANALYZERS + ["enhanced_emulator", "hdmr_emulator", "sobol_kept", "sobol_first"]
WAYS = ["copy", "deepcopy"] + ["pickle%d" % i for i in range(pickle.HIGHEST_PROTOCOL + 1)]


def duplicate(obj, way):
    if way == "copy":
        return copy.copy(obj)
    if way == "deepcopy":
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, protocol=int(way[6:])))


@st.composite
def result_cases(draw):
    return {
        "m": draw(st.sampled_from(METHODS)),
        "p": draw(problems(2, 3, dists=False, groups=False)),
        "seed": draw(SMALL_SEEDS),
        "dseed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(["normal", "func", "skew"])),
        "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=2)),
    }


def results(case):
    from SALib.analyze import enhanced_hdmr, hdmr, sobol
    from SALib.sample import sobol as sample

    m, p = case["m"], case["p"]
    if m == "enhanced_emulator":
        X, Y = c22.prepare(dict(case, m="enhanced_hdmr"))
        return enhanced_hdmr.analyze(mk(p), X, Y, max_order=2, poly_order=2, bootstrap=1, subset=300, return_emulator=True, seed=case["seed"]), X
    if m == "hdmr_emulator":
        X, Y = c22.prepare(dict(case, m="hdmr"))
        return hdmr.analyze(mk(p), X, Y, maxorder=2, K=1, seed=case["seed"]), X
    if m == "sobol_kept":
        X, Y = c22.prepare(dict(case, m="sobol"))
        return sobol.analyze(mk(p), Y, num_resamples=7, keep_resamples=True, seed=case["seed"]), X
    if m == "sobol_first":
        X = sample.sample(mk(p), 16, calc_second_order=False, seed=1)
        Y = c22.mk_y(case["y"], case["dseed"], len(X), X)
        return sobol.analyze(mk(p), Y, calc_second_order=False, num_resamples=7, seed=case["seed"]), X
    X, Y = c22.prepare(case)
    return c22.run_analysis(m, p, X, Y, case["seed"]), X


def reported(Si):
    r = Si.to_df()
    return json.dumps(canon(tables(list(r) if isinstance(r, (list, tuple)) else r)), sort_keys=True, default=str)


def full(Si):
    """All values, those of emulators and timings included."""

    def rec(v):
        if isinstance(v, np.ma.MaskedArray):
            return ["masked", rec(v.filled(np.nan))]
        if isinstance(v, dict):
            return {str(k): rec(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [type(v).__name__] + [rec(x) for x in v]
        if isinstance(v, np.ndarray):
            return [v.dtype.str, list(v.shape), [rec(x) for x in v.ravel()] if v.dtype.kind == "O" else v.tolist()]
        return repr(v)

    return json.dumps(rec(Si), default=repr)


def public(obj):
    return [k for k in dir(obj) if not k.startswith("_")]


def emulated(Si, X):
    """Outputs predicted (returned, or put into the results)."""
    got = Si.emulate(X.copy())
    return np.asarray(Si["emulated"] if got is None else got).tolist()


def numbers(v, path=()):
    """Where the floating-point arrays of a result are."""
    out = []
    for k, x in v.items():
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size:
            out.append(path + (k,))
        elif isinstance(x, dict):
            out += numbers(x, path + (k,))
    return out


@sub("C34", result_cases(), quick=480, rule="a copy whose values are then changed")
def results_survive_copying(case, t):
    """A copy of results is of the same kind, with the same values, tables and
    emulator; its methods report its own values and not the original's."""
    Si, X = results(case)
    m = case["m"]
    emulates = m in ("enhanced_emulator", "hdmr_emulator")
    out = emulated(Si, X[:40]) if emulates else None
    before, table = full(Si), reported(Si)
    C = Si
    for w in case["ways"]:
        C = duplicate(C, w)
    require(C is not Si and type(C) is type(Si), "a copy of {} results is {}", m, type(C).__name__)
    require(list(C) == list(Si), "keys of a copy of {} results", m)
    require(full(C) == before, "values of a copy of {} results differ", m)
    require(reported(C) == table, "tables of a copy of {} results differ", m)
    require(public(C) == public(Si), "attributes of a copy of {} results: {} and {}", m, public(C), public(Si))
    if emulates:
        require(emulated(C, X[:40]) == out, "emulator of a copy of {} results", m)
        emulated(C, X[40:90])
        require(full(Si) == before, "emulating with a copy of {} results changed the original", m)

    # what is put in its place in the copy is reported by the copy alone
    for path in numbers(C):
        owner = C
        for k in path[:-1]:
            if isinstance(owner, dict):
                owner[k] = copy.copy(owner[k])
                owner = owner[k]
        new = np.array(owner[path[-1]], copy=True)
        owner[path[-1]] = new + 1.0
    require(full(Si) == before, "changing a copy of {} results changed the original", m)
    require(reported(Si) == table, "changing a copy of {} results changed the tables of the original", m)
    if numbers(C):
        changed = reported(C)
        require(changed != table, "the tables of a copy of {} results are the original's", m)
        D = duplicate(C, case["ways"][0])
        require(reported(D) == changed, "tables of a changed {} result", m)
        t.nontrivial()
    t.label(m, case["ways"][-1])


# ------------------------------------------------------------- other process
CHILD = r"""
import sys, json, base64, pickle
sys.path[:0] = json.loads(sys.argv[1])
from vlib import core; core.setup_paths()
import warnings; warnings.simplefilter("ignore")
out = []
for line in sys.stdin:
    # nothing of SALib is imported before the first is loaded
    obj = pickle.loads(base64.b64decode(line))
    from checks import c34
    out.append([type(obj).__name__, c34.full(obj), c34.reported(obj), str(obj) if type(obj).__name__ == "ProblemSpec" else ""])
print("LOADED " + json.dumps(out))
"""


@st.composite
def process_cases(draw):
    ms = draw(st.permutations(METHODS))
    return {
        "ms": list(ms), "p": draw(problems(2, 3, dists=False, groups=False)), "seed": draw(SMALL_SEEDS), "dseed": draw(SMALL_SEEDS),
        "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)),
    }


@sub("C34", process_cases(), quick=8, thorough=48, shards=4, rule="loaded in another process")
def stored_for_another_process(case, t):
    """Results and specifications stored by one process are read in another."""
    from SALib import ProblemSpec

    objs = []
    for m in case["ms"]:
        if m == "sobol_par":
            continue
        objs.append(results(dict(case, m=m, y="func"))[0])
    sp = ProblemSpec(mk(case["p"]))
    sp.sample_latin(60, seed=1).evaluate(c23.model_fn, cols=2).analyze_rsa(bins=4)
    objs.insert(len(objs) // 2, sp)
    lines = [base64.b64encode(pickle.dumps(o, protocol=case["protocol"])).decode() for o in objs]
    r = subprocess.run([sys.executable, "-c", CHILD, json.dumps([core.SRC, core.VERIF])], input="\n".join(lines) + "\n",
                       capture_output=True, text=True, env=dict(os.environ), timeout=300)
    line = [l for l in r.stdout.splitlines() if l.startswith("LOADED ")]
    require(r.returncode == 0 and line, "reading stored results failed: {}", r.stderr[-1500:].replace("{", "(").replace("}", ")"))
    got = json.loads(line[0][7:])
    names = [m for m in case["ms"] if m != "sobol_par"]
    names.insert(len(names) // 2, "ProblemSpec")
    for name, o, (kind, values, rep, text) in zip(names, objs, got):
        require(kind == type(o).__name__, "{} is read as {}", name, kind)
        require(values == full(o), "values of {} read in another process", name)
        if name == "ProblemSpec":
            require(text == str(o), "text of a ProblemSpec read in another process")
        require(rep == reported(o), "tables of {} read in another process", name)
    t.nontrivial()


# ------------------------------------------------------------- specifications
DESIGNS = ["latin", "fast", "finite_diff", "morris", "saltelli", "sobol", "ff"]
STEP = st.one_of(
    st.fixed_dictionaries({"op": st.just("sample"), "m": st.sampled_from(DESIGNS), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("evaluate"), "a": st.floats(-3, 3)}),
    st.fixed_dictionaries({"op": st.just("evaluate"), "a": st.floats(-3, 3)}),
    st.fixed_dictionaries({"op": st.just("analyze"), "k": st.integers(0, 20), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("analyze"), "k": st.integers(0, 20), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("samples"), "seed": SMALL_SEEDS}),
    st.fixed_dictionaries({"op": st.just("results"), "seed": SMALL_SEEDS}),
)


@st.composite
def spec_cases(draw):
    p = draw(problems(2, 4, dists=False, groups=True, min_groups=2))
    lead = draw(st.sampled_from([0, 1, 2, 3]))
    first = [{"op": "sample", "m": draw(st.sampled_from(DESIGNS)), "seed": draw(SMALL_SEEDS)}, {"op": "evaluate", "a": 0.5},
             {"op": "analyze", "k": draw(st.integers(0, 20)), "seed": draw(SMALL_SEEDS)}][:lead]
    return {
        "p": p,
        "outputs": draw(st.sampled_from([None, ["flow"], ["b", "a"], ["x", "y", "z"]])),
        "before": first + draw(st.lists(STEP, max_size=2)),
        "after": draw(st.lists(STEP, min_size=1, max_size=4)),
        "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=2)),
        "define": draw(st.booleans()),
        "which": draw(st.sampled_from(["copy", "original"])),
    }


class Runner:
    """Carries out a history as far as it makes sense."""

    def __init__(self, case):
        self.grouped = "groups" in case["p"]
        self.n = len(case["outputs"] or [0])
        self.design = None
        self.done = 0

    def step(self, sp, o):
        self.done += 1
        if o["op"] == "sample":
            m = o["m"]
            if self.grouped and m in ("fast", "ff", "finite_diff"):
                m = "latin"
            kw = dict(c23.SAMPLERS[m])
            if m not in c23.UNSEEDED:
                kw["seed"] = o["seed"]
            getattr(sp, "sample_" + m)(**kw)
            self.design = m
        elif o["op"] == "samples":
            lo, up = np.array(sp["bounds"], dtype=float).T
            sp.set_samples(lo + (up - lo) * np.random.default_rng(o["seed"]).random((120, len(lo))))
            self.design = "given"
        elif sp.samples is None:
            self.done -= 1
        elif o["op"] == "evaluate":
            sp.evaluate(c23.model_fn, a=o["a"], cols=self.n if self.n > 1 else 0)
        elif o["op"] == "results":
            Y = np.random.default_rng(o["seed"]).normal(size=(len(sp.samples), self.n))
            sp.set_results(Y if self.n > 1 else Y[:, 0])
        elif sp.results is None:
            self.done -= 1
        else:
            able = c23.MATCH.get(self.design, []) + [m for m in c23.ANY if not (self.grouped and m in c23.NO_GROUPS)]
            m = able[o["k"] % len(able)]
            getattr(sp, "analyze_" + m)(seed=o["seed"], **c23.AKW[m])


def state(sp):
    """All that can be seen of a specification."""
    A = sp.analysis
    rep = None
    if A is not None:
        rep = [canon(tables(list(r) if isinstance(r, (list, tuple)) else r)) for r in (sp.to_df() if isinstance(sp.to_df(), (list, tuple)) else [sp.to_df()])]
    return json.dumps(
        [full(dict(sp)), full({"X": sp.samples, "Y": sp.results}), None if A is None else dump(A), rep, str(sp), type(sp).__name__, public(sp)],
        default=str)


@sub("C34", spec_cases(), quick=320, shards=8, rule="the copy or the original was used further")
def specifications_survive_copying(case, t):
    """A copied specification holds what the original holds; whichever is used
    further goes on as if never copied, and the other is left as it was."""
    from SALib import ProblemSpec

    def fresh():
        d = mk(case["p"])
        if case["outputs"]:
            d["outputs"] = list(case["outputs"])
        return ProblemSpec(d)

    sp, ref = fresh(), fresh()
    one, two = Runner(case), Runner(case)
    for o in case["before"]:
        one.step(sp, o)
        two.step(ref, o)
    # (columns of timings aside, the histories agree)
    if case["define"]:
        sp.note = ref.note = "kept with the specification"
    was = state(sp)
    require(was == state(ref), "the same history gives different specifications")
    C = sp
    for w in case["ways"]:
        C = duplicate(C, w)
    require(C is not sp and type(C) is ProblemSpec, "a copy of a specification is {}", type(C).__name__)
    require(state(C) == was, "a copy of a specification differs from it")
    used, left = (C, sp) if case["which"] == "copy" else (sp, C)
    n = one.done
    for o in case["after"]:
        one.step(used, o)
        two.step(ref, o)
        require(state(left) == was, "{} on the {} changed the other ({})", o["op"], case["which"], case["ways"])
    require(state(used) == state(ref), "the {} goes on differently ({})", case["which"], case["ways"])
    t.nontrivial(one.done > n)
    t.label(case["which"], case["ways"][-1])
