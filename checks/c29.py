"""Plots show the results."""

import contextlib
import os

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from checks.c22 import ANALYZERS, prepare, run_analysis  # noqa: E402
from vlib.core import fail, require, sub  # noqa: E402
from vlib.gen import SMALL_SEEDS, mk, mk_y, problems, rng, same  # noqa: E402

RULE = "Random result tables and results of every analyzer; the artists drawn (bars, error bars, points, lines, images, labels) are compared with the results; non-trivial = at least 2 factors shown."


@contextlib.contextmanager
def figures():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


def labels(axis):
    return [t.get_text() for t in axis.get_ticklabels()]


def bars_of(ax, df, what):
    """The bars of a pandas bar chart: one container per column."""
    conf = [c for c in df.columns if "_conf" in c]
    main = [c for c in df.columns if "_conf" not in c and np.issubdtype(np.asarray(df[c]).dtype, np.number)]
    n = len(df)
    H = [p.get_height() for p in ax.patches]
    require(len(H) == n * len(main), "{}: {} bars for {} rows of {}", what, len(H), n, main)
    for k, c in enumerate(main):
        # pandas draws nothing (a bar of height 0) for undefined values
        same(H[k * n : (k + 1) * n], np.nan_to_num(df[c].to_numpy(dtype=float)), "%s: bars of %s" % (what, c))
        x = [p.get_x() + p.get_width() / 2 for p in ax.patches[k * n : (k + 1) * n]]
        require(np.all(np.abs(np.array(x) - np.arange(n)) < 0.5), "{}: bars of {} are not at their rows", what, c)
    want = [str(i) if not isinstance(i, tuple) else "(%s)" % ", ".join(str(x) for x in i) for i in df.index]
    require(labels(ax.xaxis) == want, "{}: tick labels {} for {}", what, labels(ax.xaxis), want)
    errs = {}
    for c in conf:
        if c.replace("_conf", "") in main:
            errs[c.replace("_conf", "")] = df[c].to_numpy(dtype=float)
    segs = [np.asarray(s) for col in ax.collections for s in col.get_segments()]
    for c, e in errs.items():
        k = main.index(c)
        for i in range(n):
            y, h = df[c].iloc[i], e[i]
            if not np.isfinite(y) or not np.isfinite(h):
                continue
            p = ax.patches[k * n + i]
            xc = p.get_x() + p.get_width() / 2
            hit = [s for s in segs if len(s) == 2 and abs(s[0, 0] - xc) < 1e-9]
            ok = any(np.allclose(sorted(s[:, 1]), sorted([y - h, y + h]), rtol=1e-9, atol=1e-12 + 1e-9 * abs(h)) for s in hit)
            require(ok, "{}: error bar of {} in row {} is not {} +- {}", what, c, i, y, h)
    if not errs:
        require(not segs, "{}: error bars without intervals", what)
    leg = ax.get_legend()
    if leg is not None:
        require([x.get_text() for x in leg.get_texts()] == main, "{}: legend {} for {}", what, [x.get_text() for x in leg.get_texts()], main)


@st.composite
def tables(draw):
    n = draw(st.integers(1, 8))
    cols = draw(st.permutations(["S1", "ST", "mu_star", "delta", "S2"]))[: draw(st.integers(1, 3))]
    order = []
    for c in cols:
        order.append(c)
        if draw(st.booleans()):
            order.append(c + "_conf")
    if draw(st.booleans()):
        order = list(draw(st.permutations(order)))
    return {"n": n, "cols": order, "seed": draw(SMALL_SEEDS), "ax": draw(st.booleans()), "idx": draw(st.sampled_from(["x%d", "%d", "a b %d"]))}


@sub("C29", tables(), quick=200, rule="at least 2 rows")
def bar_charts(case, t):
    """bar.plot: a bar per value, in its row, with its interval as error bar."""
    import pandas as pd
    from SALib.plotting.bar import plot

    r, n = rng(case["seed"]), case["n"]
    df = pd.DataFrame({c: (np.abs(r.normal(size=n)) if "_conf" in c else r.normal(size=n)) for c in case["cols"]}, index=[case["idx"] % (n - i) for i in range(n)])
    if all("_conf" in c for c in df.columns):
        return
    keep = df.copy()
    with figures() as plt:
        if case["ax"]:
            fig, axes = plt.subplots(1, 2)
            ax = plot(df, ax=axes[1])
            require(ax is axes[1], "another axes was used")
            require(not axes[0].patches, "drawn on another axes")
        else:
            ax = plot(df)
        bars_of(ax, df, "bar chart")
    require(df.equals(keep), "the table was changed")
    t.nontrivial(n > 1)


@st.composite
def result_cases(draw):
    m = draw(st.sampled_from(ANALYZERS + ["sobol1", "ff1"]))
    return {
        "m": m, "p": draw(problems(2, 4, dists=False, groups=True, wide=None if "hdmr" in m or m in ("delta", "ff", "ff1") or m.startswith("enhanced") else 11)),
        "dseed": draw(SMALL_SEEDS), "y": draw(st.sampled_from(["normal", "func", "skew"])), "seed": draw(SMALL_SEEDS),
        "out": draw(st.one_of(st.integers(1, 3), st.integers(1, 5))), "k": draw(st.integers(0, 4)),
    }


def results(case, col=0):
    """Sample and the analysis of one output."""
    from SALib.analyze import ff, sobol
    from SALib.sample import sobol as ss

    m, p = case["m"], mk(case["p"])
    if m == "sobol1":
        X = ss.sample(p, 8, calc_second_order=False, seed=1)
        Y = mk_y(case["y"], case["dseed"] + col, len(X), X)
        return X, Y, sobol.analyze(mk(p), Y, calc_second_order=False, num_resamples=5, seed=case["seed"])
    q = dict(case["p"])
    if m not in ("sobol", "sobol_par", "morris", "morris_scaled", "pawn", "discrepancy"):
        q.pop("groups", None)  # sampled together, parameters cannot be told apart
    X, Y = prepare(dict(case, p=q, m=m.rstrip("1"), dseed=case["dseed"] + col))
    if m == "ff1":
        return X, Y, ff.analyze(mk(p), X, Y)
    return X, Y, run_analysis(m, case["p"], X, Y, case["seed"])


def tabs(Si):
    x = Si.to_df()
    return [y for y in x if y is not None] if isinstance(x, (list, tuple)) else [x]


def lines_of(axes, df, target, what):
    """RSA: a panel per factor against the bins."""
    axes = list(np.ravel(axes))
    require(len(axes) == df.shape[1], "{}: {} panels for {} factors", what, len(axes), df.shape[1])
    for ax, c in zip(axes, df.columns):
        same(ax.lines[0].get_ydata(), df[c].to_numpy(dtype=float), "%s: line of %s" % (what, c))


@sub("C29", result_cases(), quick=250, rule="every case")
def plots_of_results(case, t):
    """Si.plot(): one chart per table of the results, showing that table."""
    m = case["m"]
    if m.startswith("hdmr"):
        return
    _, _, Si = results(case)
    dfs = tabs(Si)
    with figures():
        ax = Si.plot()
        if m.startswith("rsa"):
            lines_of(ax, dfs[0], Si["target"], m)
        elif len(dfs) == 1:
            bars_of(np.ravel(np.array(ax, dtype=object))[0], dfs[0], m)
        else:
            require(len(ax) == len(dfs), "{}: {} charts for {} tables", m, len(ax), len(dfs))
            for a, d in zip(ax, dfs):
                bars_of(a, d, m)
    t.nontrivial()
    t.label(m)


def spec_with(case):
    """A ProblemSpec holding analyses of `out` outputs."""
    from SALib import ProblemSpec

    no = case["out"]
    names = ["Y%d" % (no - i) for i in range(no)]
    p = mk(case["p"])
    p["outputs"] = names
    rs = [results(case, j) for j in range(no)]
    sp = ProblemSpec(p)
    if case["m"].startswith("ff"):
        from SALib.sample import ff

        sp.sample(ff.sample)  # adds the dummy parameters
    sp.set_samples(rs[0][0])
    sp.set_results(np.column_stack([r[1] for r in rs]) if no > 1 else rs[0][1])
    held = iter([r[2] for r in rs])

    def held_results(problem, Y):
        return next(held)

    sp.analyze(held_results)
    return sp, names, [r[2] for r in rs]


@sub("C29", result_cases(), quick=200, rule="several outputs")
def plots_of_several_outputs(case, t):
    """ProblemSpec.plot(): one titled row per output."""
    m = case["m"]
    if m.startswith("hdmr"):
        case["out"] = max(case["out"], 2)
    sp, names, Si = spec_with(case)
    with figures():
        axes = sp.plot()
        if len(names) == 1:
            axes = [axes]
        require(len(axes) == len(names), "{} rows for {} outputs", len(axes), len(names))
        for ax, n, s in zip(axes, names, Si):
            dfs = tabs(s)
            if m.startswith("rsa") and len(names) == 1:
                lines_of(ax, dfs[0], s["target"], m)
                continue
            A = list(np.ravel(np.array(ax, dtype=object)))
            if len(names) > 1:
                require(A[0].get_title() == n, "title {} for {}", A[0].get_title(), n)
            for a, d in zip(A, dfs):
                bars_of(a, d, "%s, %s" % (m, n))
            require(len(A) == len(dfs), "{}: {} charts for {} tables", m, len(A), len(dfs))
    t.nontrivial(len(names) > 1)
    t.label(m)


@sub("C29", result_cases(), quick=250, rule="every case")
def heatmaps(case, t):
    """ProblemSpec.heatmap(): a row per index, a column per factor, holding the
    values of the chosen output."""
    m, p = case["m"], case["p"]
    sp, names, Si = spec_with(case)
    j = case["k"] % len(names)
    S = Si[j]
    shown = [k for k in S if k not in ("names", "notes", "Term", "bins", "target", "interaction_names") and not k.endswith("_conf")]
    first = np.shape(S[shown[0]])
    shown = [k for k in shown if not isinstance(S[k], dict) and np.shape(S[k]) == first]
    mode = case["seed"] % 4
    idx, title = None, None
    if mode == 1:
        idx = shown[case["dseed"] % len(shown)]
        shown = [idx]
    elif mode == 2:
        idx = list(reversed(shown))
        shown = idx
        title = "a title"
    if m.startswith("sobol") and mode == 2 and "S2" in S:
        idx = [idx[0], "S2"] + list(idx[1:])
    conf = [k for k in S if k.endswith("_conf") and np.shape(S[k]) == np.shape(S[shown[0]])]
    if mode == 1 and conf and case["dseed"] % 3 == 0:
        idx = conf[0]
        shown = [idx]
    with figures() as plt:
        ax0 = None
        if case["dseed"] % 2:
            fig, (ax0, ax1) = plt.subplots(1, 2)
        metric = names[j]
        if j == 0 and case["dseed"] % 5 == 0:
            metric = None
        ax = sp.heatmap(metric, idx, title, ax0)
        if ax0 is not None:
            require(ax is ax0, "another axes was used")
        data = np.ma.filled(np.ma.asarray(ax.images[0].get_array(), dtype=float), np.nan)
        want = np.vstack([np.asarray(np.ma.filled(np.ma.asarray(S[k], dtype=float), np.nan)) for k in shown])
        same(data, want, "%s: heatmap" % m)
        require(ax.get_title() == (title or names[j]), "title {}", ax.get_title())
        require(labels(ax.yaxis) == shown, "{}: rows {} instead of {}", m, labels(ax.yaxis), shown)
        if m.startswith("rsa"):
            got = [float(x) for x in labels(ax.xaxis)]
            require(len(got) == len(S["bins"]) and np.allclose(got, S["bins"], atol=0.0051), "columns {} for bins", got)
        else:
            # sobol reports groups, and has no names of its own
            cols = S.get("names", S.get("Term", list(dict.fromkeys(p.get("groups") or p["names"]))))
            require(labels(ax.xaxis) == list(cols), "{}: columns {} instead of {}", m, labels(ax.xaxis), cols)
    t.nontrivial()
    t.label(m)


@st.composite
def morris_cases(draw):
    return {
        "p": draw(problems(1, 12, dists=False, groups=True)), "N": draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.just(70))), "seed": draw(SMALL_SEEDS),
        "y": draw(st.sampled_from(["normal", "func", "skew"])), "sortby": draw(st.sampled_from([None, "mu_star", "mu_star_conf", "sigma", "mu"])),
        "levels": draw(st.sampled_from([2, 4, 6])), "unit": draw(st.sampled_from(["", " m"])),
    }


@sub("C29", morris_cases(), quick=200, rule="at least 2 factors")
def morris_plots(case, t):
    """Bars sorted by the chosen measure, mu* against sigma (or its interval for
    groups), and a histogram per parameter."""
    from SALib.analyze import morris as am
    from SALib.plotting.morris import covariance_plot, horizontal_bar_plot, sample_histograms
    from SALib.sample import morris as sm

    p = case["p"]
    X = sm.sample(mk(p), case["N"], num_levels=case["levels"], seed=case["seed"])
    Y = mk_y(case["y"], case["seed"] + 1, len(X), X)
    Si = am.analyze(mk(p), X, Y, num_resamples=20, num_levels=case["levels"], seed=1)
    G = len(Si["names"])
    key = case["sortby"] or "mu_star"
    with figures() as plt:
        fig, (ax, ax2) = plt.subplots(1, 2)
        kw = {} if case["sortby"] is None else {"sortby": case["sortby"]}
        horizontal_bar_plot(ax, Si, unit=case["unit"], **kw)
        W = np.array([b.get_width() for b in ax.patches])
        names = labels(ax.yaxis)
        require(sorted(names) == sorted(str(n) for n in Si["names"]) and len(W) == G, "bars {} of {}", names, list(Si["names"]))
        at = [[str(n) for n in Si["names"]].index(n) for n in names]
        same(W, np.asarray(Si["mu_star"], dtype=float)[at], "bar lengths")
        k = np.asarray(Si[key], dtype=float)[at]
        k = k[np.isfinite(k)]
        require(np.all(np.diff(k) >= 0), "bars are not sorted by {}", key)
        require(not np.any(np.isnan(np.asarray(Si[key], dtype=float)[at][: len(k)])), "undefined values are not last")
        y = [b.get_y() + b.get_height() / 2 for b in ax.patches]
        same(y, ax.get_yticks(), "bars and labels")
        lo, hi = ax.get_ylim()
        require(lo < min(y) and hi > max(y), "bars out of view")
        segs = [s for c in ax.collections for s in c.get_segments()]
        conf = np.asarray(Si["mu_star_conf"], dtype=float)[at]
        for w, c, yy in zip(W, conf, y):
            require(any(np.allclose(s[:, 1], yy) and np.allclose(sorted(s[:, 0]), [w - c, w + c]) for s in segs), "no error bar {} +- {}", w, c)
        require(ax.get_xlabel() == r"$\mu^\star$" + case["unit"], "label {}", ax.get_xlabel())
        out = covariance_plot(ax2, Si)
        sg = np.asarray(Si["sigma"], dtype=float)
        which = "mu_star_conf" if np.isnan(sg).any() else "sigma"
        pts = np.ma.filled(np.ma.asarray(out.get_offsets(), dtype=float), np.nan)
        same(pts, np.column_stack([np.asarray(Si["mu_star"], dtype=float), np.asarray(Si[which], dtype=float)]), "points of the %s plot" % which)
        require(("CI" in ax2.get_ylabel()) == (which == "mu_star_conf"), "label {} for {}", ax2.get_ylabel(), which)
        if which == "sigma":
            for line, f in zip(ax2.lines, (1.0, 0.5, 0.1)):
                same(line.get_ydata(), f * np.asarray(line.get_xdata()), "line sigma/mu* = %s" % f)
        fig2 = plt.figure()
        hs = sample_histograms(fig2, X, mk(p))
        require(len(hs) == p["num_vars"] == len(fig2.axes), "{} histograms", len(hs))
        for j, (h, a) in enumerate(zip(hs, fig2.axes)):
            require(a.get_title() == p["names"][j], "title {}", a.get_title())
            require(h[0].sum() == len(X), "histogram of {} holds {} of {} rows", p["names"][j], h[0].sum(), len(X))
            want, _ = np.histogram(X[:, j], bins=h[1])
            same(h[0], want, "histogram of " + p["names"][j])
            require(abs(h[1][0] - X[:, j].min()) <= 1e-9 * (1 + abs(h[1][0])) or np.ptp(X[:, j]) == 0, "range of {}", p["names"][j])
    t.nontrivial(G > 1)
    t.label("groups", which == "mu_star_conf")


@st.composite
def hdmr_cases(draw):
    return {"p": draw(problems(2, 5, dists=False, groups=False)), "K": draw(st.sampled_from([1, 2, 3, 9, 10, 11, 12, 15, 20, 21])), "seed": draw(SMALL_SEEDS), "R": draw(st.sampled_from([None, 300])), "em": draw(st.booleans())}


@sub("C29", hdmr_cases(), quick=48, shards=8, rule="every case")
def hdmr_plots(case, t):
    """Emulator against simulator for the last (up to ten) trials, the component
    functions over their parameter, and the test results."""
    from SALib.analyze import hdmr

    p, K = case["p"], case["K"]
    r = rng(case["seed"])
    U = r.random((330, p["num_vars"]))
    lo = np.array([b[0] for b in p["bounds"]])
    X = lo + U * np.array([b[1] - b[0] for b in p["bounds"]])
    Y = np.sin(3 * U[:, 0]) + U[:, 1] ** 2 + 0.1 * r.normal(size=330)
    Si = hdmr.analyze(mk(p), X, Y, maxorder=1, K=K, R=case["R"] if K > 1 else None, seed=case["seed"])
    with figures() as plt:
        if case["em"]:
            Si.emulate(X[:50], Y[:50] + 0.1)
        Si.plot()
        axes = [plt.figure(n).axes for n in plt.get_fignums()]
        flat = [a for f in axes for a in f]
        trials = [a for a in flat if a.get_title().startswith("Trial")]
        require(len(trials) == min(K, 10), "{} trials shown of {}", len(trials), K)
        for i, a in zip(range(K - len(trials), K), trials):
            line = a.lines[0]
            same(line.get_xdata(), np.asarray(Si["Em"]["Y_e"])[:, i], "emulated, trial %d" % i)
            same(line.get_ydata(), Y[Si["idx"][:, i]], "simulated, trial %d" % i)
        comp = [a for a in flat if a.get_title().startswith("Regression")]
        require(len(comp) == p["num_vars"], "{} component functions", len(comp))
        last = Si["idx"][:, -1]
        for j, a in enumerate(comp):
            require(p["names"][j] in a.get_title(), "title {}", a.get_title())
            same(a.lines[0].get_xdata(), X[last, j], "inputs of component %d" % j)
            same(a.lines[0].get_ydata(), Y[last], "outputs of component %d" % j)
            same(a.lines[1].get_xdata(), X[last, j], "fit inputs of component %d" % j)
            same(a.lines[1].get_ydata(), np.mean(Si["Em"]["f0"]) + np.asarray(Si["Y_em"])[:, j], "fit of component %d" % j)
        tests = [a for a in flat if a.get_title().startswith("Testing")]
        require(len(tests) == int(case["em"]), "{} test plots", len(tests))
        if case["em"]:
            same(np.ravel(tests[0].lines[0].get_xdata()), np.ravel(Si["emulated"]), "emulated test results")
            same(np.ravel(tests[0].lines[0].get_ydata()), Y[:50] + 0.1, "test results")
    t.nontrivial()
    t.label("K>10", K > 10)
