"""Seeds make every sampler and analyzer reproducible."""

import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import core
from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, problems, rng

RULE = "Random problems (with groups where supported), every sampler and analyzer, integer and Generator seeds, different states of the global generators before each call, and separate processes with different hash seeds; non-trivial = a seeded stochastic method, or a cross-process comparison."

SAMPLERS = ["latin", "fast_sampler", "morris", "morris_opt", "sobol", "saltelli", "sobol_plain", "ff", "finite_diff"]
STOCHASTIC = {"latin", "fast_sampler", "morris", "morris_opt", "sobol"}
SEQUENCES = {"latin", "fast_sampler", "morris", "morris_opt"}
GENERATOR = {"latin", "fast_sampler", "morris", "morris_opt", "sobol"}
GROUPS = {"latin", "morris", "morris_opt", "sobol", "saltelli", "sobol_plain"}


@st.composite
def sampler_cases(draw):
    m = draw(st.sampled_from(SAMPLERS))
    return {
        "m": m,
        "p": draw(problems(2, 5, groups=m in GROUPS)),
        "seed": draw(SMALL_SEEDS),
        "other": draw(st.integers(1, 1000)),
        "gen": draw(st.booleans()),
        "N": draw(st.sampled_from([8, 16, 32])),
    }


def draw_sample(m, p, N, seed):
    from SALib import sample as S
    from SALib.sample import ff, finite_diff, latin, fast_sampler, morris, saltelli, sobol

    p = mk(p)
    if m == "latin":
        return latin.sample(p, N, seed=seed)
    if m == "fast_sampler":
        return fast_sampler.sample(p, 65 + N, M=4, seed=seed)
    if m == "morris":
        return morris.sample(p, N, num_levels=4, seed=seed)
    if m == "morris_opt":
        return morris.sample(p, N, num_levels=4, optimal_trajectories=4, local_optimization=True, seed=seed)
    if m == "sobol":
        return sobol.sample(p, N, seed=seed)
    if m == "sobol_plain":
        return sobol.sample(p, N, scramble=False, seed=seed)
    if m == "saltelli":
        return saltelli.sample(p, N)
    if m == "ff":
        return ff.sample(p, seed=seed)
    if m == "finite_diff":
        return finite_diff.sample(p, N, seed=seed)
    raise ValueError(m)


def disturb(k):
    np.random.seed(k)
    random.seed(k)
    np.random.random(k % 7)


def mkseed(case, extra=0):
    s = case["seed"] + extra
    return np.random.default_rng(s) if case["gen"] else s


@sub("C22", sampler_cases(), quick=400, rule="a stochastic sampler")
def samplers(case, t):
    """A seeded sample is a function of its arguments; another seed gives
    another sample; designs without randomness never change."""
    m, p, N = case["m"], case["p"], case["N"]
    if m not in GENERATOR:
        case["gen"] = False
    disturb(1)
    a = draw_sample(m, p, N, mkseed(case))
    disturb(case["other"] + 1)
    b = draw_sample(m, p, N, mkseed(case))
    require(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), "{}: same seed, different samples", m)
    disturb(1)
    c = draw_sample(m, p, N, mkseed(case, case["other"]))
    if m in STOCHASTIC:
        require(not np.array_equal(a, c), "{}: seeds {} and {} give the same sample", m, case["seed"], case["seed"] + case["other"])
        disturb(1)
        u = draw_sample(m, p, N, None)
        disturb(1)
        v = draw_sample(m, p, N, None)
        require(not np.array_equal(u, v), "{}: unseeded samples repeat", m)
        if case["gen"]:
            g, h = mkseed(case), mkseed(case)
            g1, g2 = draw_sample(m, p, N, g), draw_sample(m, p, N, g)
            h1, h2 = draw_sample(m, p, N, h), draw_sample(m, p, N, h)
            require(np.array_equal(g1, a), "{}: generator seed", m)
            require(np.array_equal(g1, h1) and np.array_equal(g2, h2), "{}: successive samples of a generator", m)
            require(not np.array_equal(g1, g2), "{}: a generator used twice repeats itself", m)
            if m in SEQUENCES:
                k, l = [case["seed"], 1], [case["seed"], 2]
                for kind in (list, tuple, np.array, np.random.SeedSequence, lambda x: np.random.PCG64(x)):
                    s1, s2 = draw_sample(m, p, N, kind(k)), draw_sample(m, p, N, kind(k))
                    require(np.array_equal(s1, s2), "{}: same sequence as seed, different samples", m)
                    require(not np.array_equal(s1, draw_sample(m, p, N, kind(l))), "{}: sequences {} and {} give the same sample", m, k, l)
        t.nontrivial()
    else:
        require(np.array_equal(a, c, equal_nan=True), "{}: design depends on the seed", m)
    t.label(m)


# ------------------------------------------------------------- analyzers
ANALYZERS = ["sobol", "sobol_par", "morris", "morris_scaled", "delta", "dgsm", "fast", "rbd_fast", "pawn", "rsa", "rsa_x",
             "discrepancy", "ff", "hdmr", "enhanced_hdmr", "enhanced_plain"]
# results that resampling must not touch
POINT = {
    "sobol": ["S1", "ST", "S2"], "sobol_par": ["S1", "ST", "S2"], "morris": ["mu", "mu_star", "sigma"],
    "morris_scaled": ["mu", "mu_star", "sigma"],
    "dgsm": ["vi", "vi_std", "dgsm"], "fast": ["S1", "ST"], "rbd_fast": ["S1"], "delta": [],
    "pawn": ["minimum", "mean", "median", "maximum", "CV", "stdev"], "rsa": None, "rsa_x": None,
    "discrepancy": ["s_discrepancy"], "ff": ["ME", "IE"], "hdmr": [], "enhanced_hdmr": [], "enhanced_plain": [],
}
CONF = {"sobol": "S1_conf", "sobol_par": "ST_conf", "morris": "mu_star_conf", "morris_scaled": "mu_star_conf", "dgsm": "dgsm_conf", "fast": "S1_conf",
        "rbd_fast": "S1_conf", "delta": "delta_balanced_conf", "hdmr": "S", "enhanced_hdmr": "S", "enhanced_plain": "S"}
AGEN = {"sobol", "morris", "rbd_fast", "hdmr"}


@st.composite
def analyzer_cases(draw):
    m = draw(st.sampled_from(ANALYZERS))
    return {
        "m": m,
        "p": draw(problems(2, 3, dists=False, groups=False)),
        "seed": draw(SMALL_SEEDS),
        "other": draw(st.integers(1, 1000)),
        "dseed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(["normal", "func", "skew"])),
        "gen": draw(st.booleans()) if m in AGEN else False,
    }


def prepare(case):
    """Sample and outputs (not under test here)."""
    from SALib.sample import ff, finite_diff, fast_sampler, latin, morris, sobol

    m, p = case["m"], mk(case["p"])
    if m.startswith("sobol"):
        X = sobol.sample(p, 16, seed=1)
    elif m.startswith("morris"):
        X = morris.sample(p, 8, seed=1)
    elif m == "dgsm":
        X = finite_diff.sample(p, 16)
    elif m == "fast":
        X = fast_sampler.sample(p, 80, seed=1)
    elif m == "ff":
        X = ff.sample(p)
    elif "hdmr" in m or m.startswith("enhanced"):
        X = latin.sample(p, 300, seed=1)
    else:
        X = latin.sample(p, 120, seed=1)
    w = len(case["p"]["names"])
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, :w])
    return X, Y


def run_analysis(m, p, X, Y, seed):
    from SALib.analyze import delta, dgsm, discrepancy, enhanced_hdmr, fast, ff, hdmr, morris, pawn, rbd_fast, rsa, sobol

    p, X, Y = mk(p), X.copy(), Y.copy()
    if m == "sobol":
        return sobol.analyze(p, Y, num_resamples=12, seed=seed)
    if m == "sobol_par":
        return sobol.analyze(p, Y, num_resamples=12, seed=seed, parallel=True, n_processors=2)
    if m == "morris":
        return morris.analyze(p, X, Y, num_resamples=12, seed=seed)
    if m == "morris_scaled":
        return morris.analyze(p, X, Y, num_resamples=12, scaled=True, seed=seed)
    if m == "delta":
        return delta.analyze(p, X, Y, num_resamples=4, seed=seed)
    if m == "dgsm":
        return dgsm.analyze(p, X, Y, num_resamples=12, seed=seed)
    if m == "fast":
        return fast.analyze(p, Y, num_resamples=12, seed=seed)
    if m == "rbd_fast":
        return rbd_fast.analyze(p, X, Y, num_resamples=12, seed=seed)
    if m == "pawn":
        return pawn.analyze(p, X, Y, S=5, seed=seed)
    if m == "rsa":
        return rsa.analyze(p, X, Y, bins=5, seed=seed)
    if m == "rsa_x":
        return rsa.analyze(p, X, Y, bins=5, target="X", seed=seed)
    if m == "discrepancy":
        return discrepancy.analyze(p, X, Y, seed=seed)
    if m == "ff":
        # the factorial design brings its dummy variables along
        return ff.analyze(p, X, Y, second_order=True, seed=seed)
    if m == "hdmr":
        return hdmr.analyze(p, X, Y, maxorder=1, K=3, seed=seed)
    if m == "enhanced_hdmr":
        return enhanced_hdmr.analyze(p, X, Y, max_order=1, bootstrap=3, seed=seed)
    if m == "enhanced_plain":
        return enhanced_hdmr.analyze(p, X, Y, max_order=2, poly_order=2, bootstrap=3, extended_base=False, seed=seed)
    raise ValueError(m)


SKIP = {"RT", "Em", "X", "Y", "hdmr", "problem"}


def canon(v):
    if isinstance(v, dict):
        return {str(k): canon(v[k]) for k in sorted(v, key=str) if k not in SKIP}
    if isinstance(v, np.ma.MaskedArray):
        return ["masked", np.asarray(v.filled(np.nan)).tolist()]
    if isinstance(v, np.ndarray):
        return v.tolist() if v.dtype.kind in "OU" else np.asarray(v, dtype=float).tolist()
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (np.floating, np.integer)):
        return float(v)
    return v


def dump(v):
    return json.dumps(canon(v), sort_keys=True, default=str)


def agree(a, b, rtol=1e-9, atol=1e-11):
    """Same structure, labels and (to rounding) numbers."""

    def rec(x, y):
        if isinstance(x, dict) or isinstance(y, dict):
            return isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y) and all(rec(x[k], y[k]) for k in x)
        if isinstance(x, list) or isinstance(y, list):
            return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(map(rec, x, y))
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
        return str(x) == str(y)

    return rec(canon(a), canon(b))


def tables(v):
    """Nested tables as plain data."""
    if isinstance(v, (list, tuple)):
        return [tables(x) for x in v]
    if hasattr(v, "columns"):
        return {"index": [str(i) for i in v.index], **{str(c): [x for x in v[c]] for c in v.columns}}
    return v


@sub("C22", analyzer_cases(), quick=400, rule="an analyzer with resampling")
def analyzers(case, t):
    """A seeded analysis is a function of its arguments; resampling affects only
    what it should."""
    m, p = case["m"], case["p"]
    X, Y = prepare(case)
    disturb(2)
    a = run_analysis(m, p, X, Y, mkseed(case))
    disturb(case["other"] + 2)
    b = run_analysis(m, p, X, Y, mkseed(case))
    require(dump(a) == dump(b), "{}: same seed, different results", m)
    disturb(2)
    c = run_analysis(m, p, X, Y, mkseed(case, case["other"]))
    if POINT[m] is None:
        require(dump(a) == dump(c), "{}: results depend on the seed", m)
    else:
        for k in POINT[m]:
            require(dump(a[k]) == dump(c[k]), "{}: {} depends on the seed", m, k)
    if m in CONF:
        k = CONF[m]
        require(dump(a[k]) != dump(c[k]), "{}: {} does not change with the seed", m, k)
        t.nontrivial()
    t.label(m)


CHILD = r"""
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from vlib import core; core.setup_paths()
import warnings; warnings.simplefilter("ignore")
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    from checks import c22
    out = c22.digests(json.loads(sys.stdin.read()))
print("DIGESTS " + json.dumps(out))
"""


def digests(case):
    out = {}
    for i, p in enumerate(case["ps"]):
        for m in SAMPLERS:
            if "groups" in p and m not in GROUPS:
                continue
            if m == "morris_opt" and i:
                continue
            X = draw_sample(m, p, 8, case["seed"])
            out["%d sample %s" % (i, m)] = hashlib.sha1(np.ascontiguousarray(X).tobytes()).hexdigest()
        d = dict(p)
        d.pop("dists", None)
        grouped = "groups" in d
        for m in ANALYZERS:
            if m in ("sobol_par", "hdmr", "enhanced_hdmr", "enhanced_plain"):
                continue
            if grouped and m in ("dgsm", "fast", "rbd_fast", "ff", "delta"):
                continue
            X, Y = prepare({"m": m, "p": d, "y": "func", "dseed": 3})
            a = run_analysis(m, d, X, Y, case["seed"])
            out["%d analyze %s" % (i, m)] = hashlib.sha1(dump(a).encode()).hexdigest()
    return out


@st.composite
def process_cases(draw):
    return {
        "ps": [draw(problems(3, 5, dists=False, groups=True, force_groups=g)) for g in (True, True, False)],
        "seed": draw(SMALL_SEEDS),
        "hash": draw(st.integers(1, 10000)),
    }


@sub("C22", process_cases(), quick=8, thorough=64, shards=4, rule="compared across processes")
def processes(case, t):
    """Results do not depend on the process (hash randomisation of names)."""
    for p in case["ps"]:
        for i, b in enumerate(p["bounds"]):
            p["bounds"][i] = [0.0, 1.0 + i]
    res = []
    for h in (case["hash"], case["hash"] + 1):
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        r = subprocess.run(
            [sys.executable, "-c", CHILD, json.dumps([core.SRC, core.VERIF])],
            input=json.dumps(case), capture_output=True, text=True, env=env, timeout=300,
        )
        line = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS ")]
        require(r.returncode == 0 and line, "process failed: {}", r.stderr[-1500:].replace("{", "(").replace("}", ")"))
        res.append(json.loads(line[0][8:]))
    a, b = res
    bad = [k for k in a if a[k] != b.get(k)]
    require(not bad, "differs between processes: {}", bad)
    t.nontrivial()
