"""Tables and printing: results appear under the labels they belong to."""

import contextlib
import io
import itertools

import numpy as np
from hypothesis import strategies as st

from checks.c22 import ANALYZERS, agree, canon, prepare, run_analysis
from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, mk_y, problems, rng, same

RULE = "Random problems with names in arbitrary order, interleaved groups, every analyzer; non-trivial = a table with at least two rows."
GROUPED = {"sobol", "sobol_par", "morris", "morris_scaled", "pawn", "rsa", "rsa_x", "discrepancy"}


HD = {"hdmr", "enhanced_hdmr", "enhanced_plain"}


@st.composite
def cases(draw):
    m = draw(st.sampled_from([a for a in ANALYZERS if a != "sobol_par"]))
    g = m in GROUPED and draw(st.booleans())
    return {
        "m": m,
        "p": draw(problems(2, 5, dists=False, groups=g, force_groups=g, wide=11 if m not in HD else None)),
        "dseed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(["normal", "func", "skew"])),
        "seed": draw(SMALL_SEEDS),
        "gen": False,
        "order2": draw(st.booleans()),
    }


def numbers(v):
    return np.asarray(np.ma.filled(v, np.nan) if isinstance(v, np.ma.MaskedArray) else v, dtype=float)


def labels(index):
    return [tuple(map(str, i)) if isinstance(i, (tuple, list)) else str(i) for i in index]


@sub("C25", cases(), quick=400, rule="a table with two or more rows")
def tables(case, t):
    """to_df() holds every result in the row of its parameter, group or pair."""
    m, p = case["m"], case["p"]
    X, Y = prepare(case)
    if m == "sobol" and not case["order2"]:
        from SALib.analyze import sobol
        from SALib.sample import sobol as ss

        X = ss.sample(mk(p), 16, calc_second_order=False, seed=1)
        Y = mk_y(case["y"], case["dseed"], len(X), X)
        Si = sobol.analyze(mk(p), Y, calc_second_order=False, num_resamples=5, seed=case["seed"])
    else:
        Si = run_analysis(m, p, X, Y, case["seed"])
    df = Si.to_df()
    order = [str(x) for x in group_list(p)[0]]
    t.label(m)
    if m == "sobol":
        require(len(df) == (3 if case["order2"] else 2), "{} tables", len(df))
        for d, keys in ((df[0], ["ST", "ST_conf"]), (df[1], ["S1", "S1_conf"])):
            require(labels(d.index) == order, "rows {} for {}", labels(d.index), order)
            require(list(d.columns) == keys, "columns {}", list(d.columns))
            for k in keys:
                same(d[k].to_numpy(dtype=float), numbers(Si[k]), k)
        if case["order2"]:
            pairs = list(itertools.combinations(range(len(order)), 2))
            require(labels(df[2].index) == [(order[i], order[j]) for i, j in pairs], "pairs {}", labels(df[2].index))
            for k in ("S2", "S2_conf"):
                same(df[2][k].to_numpy(dtype=float), [Si[k][i][j] for i, j in pairs], k)
        t.nontrivial()
        return
    if m == "ff":
        k = X.shape[1]
        names = order + ["dummy_%d" % i for i in range(k - len(order))]
        require(isinstance(df, (tuple, list)) and len(df) == 2, "tables")
        require(labels(df[0].index) == names, "rows {}", labels(df[0].index))
        same(df[0]["ME"].to_numpy(dtype=float), numbers(Si["ME"]), "ME")
        require(labels(df[1].index) == labels(Si["interaction_names"]), "pairs")
        same(df[1]["IE"].to_numpy(dtype=float), numbers(Si["IE"]), "IE")
        require(sorted(map(sorted, labels(df[1].index))) == sorted(map(sorted, itertools.combinations(names, 2))), "pairs {}", labels(df[1].index))
        t.nontrivial()
        return
    if m in ("rsa", "rsa_x"):
        require([str(c) for c in df.columns] == order, "columns {}", list(df.columns))
        require(len(df.index) == 5, "{} bins", len(df.index))
        for n in order:
            same(df[n].to_numpy(dtype=float), numbers(Si[n]), "column " + n)
        require([str(x) for x in Si["names"]] == order, "names {}", Si["names"])
        t.nontrivial()
        return
    hd = "hdmr" in m or m.startswith("enhanced")
    if hd:
        o = 2 if m == "enhanced_plain" else 1
        order = ["/".join(u) for k in range(1, o + 1) for u in itertools.combinations(order, k)]
        keys = [k + c for k in ("Sa", "Sb", "S", "ST") for c in ("", "_conf")]
        require(sorted(df.columns) == sorted(keys), "columns {}", list(df.columns))
    else:
        keys = [k for k in Si if k not in ("names",)]
        require([str(x) for x in Si["names"]] == order, "names {} for {}", Si["names"], order)
        require(list(df.columns) == keys, "columns {}, expected {}", list(df.columns), keys)
    require(labels(df.index) == order, "rows {} for {}", labels(df.index), order)
    for k in keys:
        if k == "notes":
            require([str(x) for x in df[k]] == [str(x) for x in Si[k]], "notes")
        else:
            require(len(Si[k]) == len(order), "{} entries of {} for {}", len(Si[k]), k, order)
            same(df[k].to_numpy(dtype=float), numbers(Si[k]), k)
    t.nontrivial()


@sub("C25", cases(), quick=200, rule="an analyzer that prints a table")
def printing(case, t):
    """print_to_console shows every label and changes no result."""
    import importlib

    m, p = case["m"], case["p"]
    X, Y = prepare(case)
    a = run_analysis(m, p, X, Y, case["seed"])
    mod = {"sobol_par": "sobol", "morris_scaled": "morris", "rsa_x": "rsa", "enhanced_plain": "enhanced_hdmr"}.get(m, m)
    f = importlib.import_module("SALib.analyze." + mod)
    real = f.analyze
    buf = io.StringIO()

    def printing(*args, **kw):
        kw["print_to_console"] = True
        with contextlib.redirect_stdout(buf):
            return real(*args, **kw)

    f.analyze = printing
    try:
        b = run_analysis(m, p, X, Y, case["seed"])
    finally:
        f.analyze = real
    sums = {"Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf"}
    drop = sums if "hdmr" in mod else set()
    ca = {k: v for k, v in canon(a).items() if k not in drop}
    cb = {k: v for k, v in canon(b).items() if k not in drop}
    require(agree(ca, cb), "{}: printing changes the results", m)
    out = buf.getvalue()
    words = out.replace("(", " ").replace(",", " ").replace("'", " ")
    for n in group_list(p)[0]:
        require(str(n) in words, "{}: {} is not printed:\n{}", m, n, out[:500].replace("{", "(").replace("}", ")"))
    if "hdmr" not in mod:
        dfs = b.to_df()
        dfs = [x for x in (dfs if isinstance(dfs, (list, tuple)) else [dfs]) if x is not None]
        shown = sum(bool(l.strip()) for l in out.splitlines())
        require(shown >= sum(len(x) for x in dfs), "{}: {} lines for tables of {} rows", m, shown, [len(x) for x in dfs])
    t.label(m)
    t.nontrivial()


@st.composite
def several(draw):
    c = draw(cases())
    c["outputs"] = draw(st.sampled_from([["b", "a"], ["Y2", "Y1", "Y10"], ["only"], None]))
    return c


@sub("C25", several(), quick=120, rule="several outputs")
def several_outputs(case, t):
    """The tables of several outputs come one per output, in the order of the
    outputs, each with the results of its own column."""
    import importlib

    from SALib import ProblemSpec

    m, p = case["m"], case["p"]
    if m == "ff":
        return
    X, _ = prepare(case)
    outs = case["outputs"] or ["Y1", "Y2"]
    cols = [mk_y(case["y"], case["dseed"] + 7 * k, len(X), X) for k in range(len(outs))]
    q = mk(p)
    if case["outputs"]:
        q["outputs"] = list(outs)
    sp = ProblemSpec(q)
    sp.set_samples(X.copy()).set_results(np.column_stack(cols))
    mod = {"sobol_par": "sobol", "morris_scaled": "morris", "rsa_x": "rsa", "enhanced_plain": "enhanced_hdmr"}.get(m, m)
    kw = {"seed": case["seed"]}
    if m in ("sobol", "morris", "morris_scaled", "dgsm", "fast", "rbd_fast"):
        kw["num_resamples"] = 6
    kw.update({"delta": {"num_resamples": 2}, "morris_scaled": {"scaled": True}, "rsa_x": {"target": "X"}, "hdmr": {"maxorder": 1, "K": 1},
               "enhanced_hdmr": {"max_order": 1, "bootstrap": 1}, "enhanced_plain": {"max_order": 1, "bootstrap": 1, "extended_base": False}}.get(m, {}))
    getattr(sp, "analyze_" + mod)(**kw)
    got = sp.to_df()
    require(isinstance(got, list) == (len(outs) > 1) or m == "sobol", "{}: tables of {} outputs", m, len(outs))
    got = got if len(outs) > 1 else [got]
    require(len(got) == len(outs), "{} tables for {} outputs", len(got), len(outs))
    f = importlib.import_module("SALib.analyze." + mod).analyze
    for o, c, d in zip(outs, cols, got):
        ref = (f(mk(p), c.copy(), **kw) if mod in ("sobol", "fast") else f(mk(p), X.copy(), c.copy(), **kw)).to_df()
        for x, y in zip(d if isinstance(d, list) else [d], ref if isinstance(ref, list) else [ref]):
            require(labels(x.index) == labels(y.index) and list(x.columns) == list(y.columns), "{}: labels of the table of {}", m, o)
            for k in y.columns:
                if k != "notes":
                    same(x[k].to_numpy(dtype=float), y[k].to_numpy(dtype=float), "%s: %s of output %s" % (m, k, o))
    t.label(m)
    t.nontrivial(len(outs) > 1)
