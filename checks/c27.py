"""The command line gives the results of the Python interface."""

import contextlib
import io
import json
import os
import subprocess
import sys
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from checks.c26 import Scratch
from vlib import core
from vlib.core import fail, require, sub
from vlib.gen import mk, mk_y, problems, rng

RULE = "Random problems, files, delimiters, precisions, columns, seeds and options for every sampling and analysis method, through the salib entry point, the modules' own entry points and real processes; non-trivial = an option off its default."

SAMPLERS = ["saltelli", "sobol", "latin", "fast_sampler", "ff", "finite_diff", "morris"]
GROUPED = {"saltelli", "sobol", "latin", "morris"}
KINDS = ["unif", "norm", "lognorm", "logunif", "weibull2"]
SEED = st.one_of(st.integers(0, 3), st.integers(0, 2**31 - 1))


def param_file(p, path, delim):
    rows = []
    for i in range(p["num_vars"]):
        r = [p["names"][i], repr(p["bounds"][i][0]), repr(p["bounds"][i][1])]
        if p.get("groups") or p.get("dists"):
            r.append(p["groups"][i] if p.get("groups") else "NA")
        if p.get("dists"):
            r.append(p["dists"][i])
        rows.append(delim.join(r))
    with open(path, "w") as h:
        h.write("\n".join(rows) + "\n")


def delim_for(draw, p):
    words = p["names"] + p.get("groups", [])
    return draw(st.sampled_from([",", ";", "\t"] + ([] if any(" " in w for w in words) else [" ", " "])))


def opt(draw, strategy):
    return draw(st.one_of(st.none(), strategy))


@st.composite
def sample_cases(draw, samplers=SAMPLERS):
    m = draw(st.sampled_from(samplers))
    p = draw(problems(1 if m in ("saltelli", "sobol", "latin", "finite_diff") else 2, 5, groups=m in GROUPED, kinds=KINDS))
    c = {"m": m, "p": p, "pd": delim_for(draw, p), "N": draw(st.sampled_from([4, 8, 16])),
         "delim": opt(draw, st.sampled_from([" ", ",", ";", "\t"])), "precision": opt(draw, st.integers(2, 17)), "o": {},
         "long": draw(st.booleans()), "via": draw(st.sampled_from(["main", "main", "module"]))}
    o = c["o"]
    if m != "saltelli":
        o["s"] = draw(SEED)
    if m in ("saltelli", "sobol"):
        o["order"] = opt(draw, st.integers(1, 2))
    if m == "saltelli":
        o["skip"] = opt(draw, st.sampled_from([0, 4, 16, 32, 5]))
    if m == "sobol":
        o["skip"] = opt(draw, st.sampled_from([0, 4, 16, 32]))
        o["scramble"] = opt(draw, st.integers(0, 1))
    if m == "finite_diff":
        o["delta"] = opt(draw, st.floats(0.001, 0.5).map(lambda x: float("%.4g" % x)))
    if m == "fast_sampler":
        c["N"] = draw(st.integers(150, 200))
        o["M"] = opt(draw, st.integers(1, 6))
    if m == "morris":
        o["levels"] = opt(draw, st.sampled_from([2, 4, 6, 8]))
        o["lo"] = draw(st.sampled_from(["True", "False", "true", "false"]))
        o["k"] = opt(draw, st.integers(2, 3))
    return c


def sample_argv(case, tmp):
    m, o = case["m"], case["o"]
    a = ["-n", str(case["N"]), "-p", tmp + "/p.txt", "-o", tmp + "/out.txt"]
    if case["long"]:
        a = ["--samples", str(case["N"]), "--paramfile", tmp + "/p.txt", "--output", tmp + "/out.txt"]
    if case["delim"] is not None:
        a += ["--delimiter", case["delim"]]
    if case["precision"] is not None:
        a += ["--precision", str(case["precision"])]
    flags = {"s": ("-s", "--seed"), "order": ("--max-order",), "skip": ("--skip-values",), "scramble": ("--scramble",), "delta": ("-d", "--delta"),
             "M": ("-M", "--m-coef"), "levels": ("-l", "--levels"), "lo": ("-lo", "--local"), "k": ("-k", "--k-optimal")}
    for k, v in o.items():
        if v is not None:
            a += [flags[k][-1 if case["long"] else 0], str(v)]
    return a


def sample_api(case):
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, saltelli, sobol

    m, o, N, p = case["m"], {k: v for k, v in case["o"].items() if v is not None}, case["N"], mk(case["p"])
    s = o.get("s")
    if m == "saltelli":
        return saltelli.sample(p, N, calc_second_order=o.get("order", 2) == 2, skip_values=o.get("skip"))
    if m == "sobol":
        return sobol.sample(p, N, calc_second_order=o.get("order", 2) == 2, scramble=bool(o.get("scramble", 1)), skip_values=o.get("skip", 0), seed=s)
    if m == "latin":
        return latin.sample(p, N, seed=s)
    if m == "fast_sampler":
        return fast_sampler.sample(p, N, M=o.get("M", 4), seed=s)
    if m == "ff":
        return ff.sample(p, seed=s)
    if m == "finite_diff":
        return finite_diff.sample(p, N, delta=o.get("delta", 0.01), seed=s)
    return morris.sample(p, N, num_levels=o.get("levels", 4), optimal_trajectories=o.get("k"), local_optimization=o["lo"].lower() == "true", seed=s)


def run(kind, via, m, argv):
    """Run the command line in this process (or another); returns its output."""
    import importlib

    if via == "process":
        r = subprocess.run([sys.executable, "-W", "ignore", "-m"] + (["SALib.scripts.salib", kind, m] if len(argv) % 2 else ["SALib.%s.%s" % (kind, "morris.morris" if (kind, m) == ("sample", "morris") else m)]) + argv,
                           capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=core.SRC, PYTHONIOENCODING="utf8"), timeout=150)
        require(r.returncode == 0, "salib {} {} failed: {}", kind, m, r.stderr[-800:].replace("{", "("))
        return r.stdout
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            if via == "main":
                from SALib.scripts import salib

                with mock.patch.object(sys, "argv", ["salib", kind, m] + argv):
                    salib.main()
            else:
                mod = importlib.import_module("SALib.%s.%s" % (kind, m))
                ca = importlib.import_module("SALib.%s.common_args" % kind)
                ca.run_cli(mod.cli_parse, mod.cli_action, argv)
        except SystemExit as e:
            fail("salib {} {} exited with {}", kind, m, e)
    return out.getvalue()


def check_sample(case, t):
    p = case["p"]
    with Scratch() as tmp:
        param_file(p, tmp + "/p.txt", case["pd"])
        run("sample", case["via"], case["m"], sample_argv(case, tmp))
        with open(tmp + "/out.txt") as h:
            lines = h.read().splitlines()
    X = sample_api(case)
    d = case["delim"] or " "
    prec = 8 if case["precision"] is None else case["precision"]
    require(len(lines) == len(X), "{} lines for {} rows", len(lines), len(X))
    for k, (line, row) in enumerate(zip(lines, X)):
        f = line.split(d)
        require(len(f) == X.shape[1], "line {}: {} fields for {} parameters", k + 1, len(f), X.shape[1])
        want = [("%." + str(prec) + "e") % v for v in row]
        require(f == want, "line {}: {} instead of {}", k + 1, line, d.join(want))
    t.nontrivial(case["precision"] is not None or any(v is not None for k, v in case["o"].items() if k != "s"))
    t.label(case["m"])


@sub("C27", sample_cases(), quick=1000, rule="an option off its default")
def sampling(case, t):
    """salib sample METHOD writes what METHOD.sample returns."""
    check_sample(case, t)


# ---------------------------------------------------------------- analysis
ANALYZERS = ["sobol", "morris", "delta", "dgsm", "fast", "rbd_fast", "ff", "hdmr", "enhanced_hdmr", "pawn", "rsa", "discrepancy"]
ONE = {"sobol", "delta", "rbd_fast", "pawn", "rsa"}
AGROUPED = {"sobol", "morris", "pawn", "rsa", "discrepancy"}


@st.composite
def analysis_cases(draw, analyzers=ANALYZERS):
    m = draw(st.sampled_from(analyzers))
    p = draw(problems(1 if m in ONE else 2, 4 if m not in ("hdmr", "enhanced_hdmr") else 3, dists=False, groups=m in AGROUPED))
    if m in ("sobol",) and p["num_vars"] == 1:
        p.pop("groups", None)
    c = {"m": m, "p": p, "pd": delim_for(draw, p), "delim": opt(draw, st.sampled_from([" ", ",", ";", "\t"])), "o": {"s": draw(SEED)},
         "cols": draw(st.sampled_from([1, 2, 3, 3, 12])), "c": 0, "dseed": draw(st.integers(0, 10**6)), "y": draw(st.sampled_from(["normal", "func", "skew", "offset"])),
         "long": draw(st.booleans()), "via": draw(st.sampled_from(["main", "main", "module"]))}
    c["c"] = draw(st.integers(0, c["cols"] - 1))
    o = c["o"]
    if m in ("sobol", "ff"):
        o["order"] = opt(draw, st.integers(1, 2))
    if m in ("sobol", "morris", "delta", "dgsm", "fast", "rbd_fast"):
        o["r"] = draw(st.integers(2, 12)) if m in ("delta", "fast", "rbd_fast", "sobol") else opt(draw, st.integers(2, 60))
    if m == "morris":
        o["levels"] = opt(draw, st.sampled_from([4, 6]))
        o["scaled"] = opt(draw, st.sampled_from(["True", "False", "true", "false"]))
    if m == "delta":
        o["method"] = opt(draw, st.sampled_from(["delta", "sobol", "all"]))
        o["yr"] = opt(draw, st.integers(100, 160))
        o["bs"] = opt(draw, st.fixed_dictionaries({"how": st.sampled_from(["text", "padded", "file"]), "v": st.lists(st.sampled_from([2, 3, 5, [0.3], [0.2, 0.6], [0.1, 0.5, 0.7]]), min_size=1, max_size=p["num_vars"])}))
    if m in ("fast", "rbd_fast"):
        o["M"] = opt(draw, st.integers(2, 8))
    if m == "sobol":
        o["par"] = draw(st.integers(0, 7)) == 0
    if m == "pawn":
        o["S"] = opt(draw, st.one_of(st.integers(2, 4), st.integers(2, 12)))
    if m == "rsa":
        o["b"] = opt(draw, st.one_of(st.integers(2, 5), st.integers(2, 25)))
        o["t"] = opt(draw, st.sampled_from(["X", "X", "Y"]))
    if m == "hdmr":
        o.update(mor=draw(st.integers(1, 2)), mit=opt(draw, st.integers(1, 40)), m=opt(draw, st.integers(2, 4)), K=draw(st.sampled_from([1, 2, 3])),
                 R=opt(draw, st.integers(300, 330)), a=opt(draw, st.sampled_from([0.9, 0.99])), lam=opt(draw, st.sampled_from([0.1, 1.0])))
        if o["K"] == 1:
            o["R"] = None
    if m == "enhanced_hdmr":
        o.update(mor=draw(st.integers(1, 2)), por=draw(st.integers(1, 3)), K=draw(st.sampled_from([2, 3])), R=opt(draw, st.integers(300, 330)), mit=opt(draw, st.integers(1, 40)),
                 l2=opt(draw, st.sampled_from([0.1, 1.0])), a=opt(draw, st.sampled_from([0.9, 0.99])), ext=draw(st.sampled_from(["True", "False", "true"])),
                 pr=opt(draw, st.sampled_from(["True", "true", "False"])), emul=opt(draw, st.sampled_from(["True", "False"])))
    return c


FLAGS = {
    "s": ("-s", "--seed"), "order": ("--max-order",), "r": ("-r", "--resamples"), "levels": ("-l", "--levels"), "scaled": ("--scaled",),
    "method": ("-m", "--method"), "yr": ("--y_resamples",), "M": ("-M", "--M"), "S": ("-S", "--slices"), "b": ("-b", "--bins"), "t": ("-t", "--target"),
}
HFLAGS = {"mor": ("-mor", "--maxorder"), "mit": ("-mit", "--maxiter"), "m": ("-m", "--m-int"), "K": ("-K", "--K-bootstrap"), "R": ("-R", "--R-subsample"), "a": ("-a", "--alpha"), "lam": ("-lambda", "--lambdax"), "s": ("-s", "--seed")}
EFLAGS = {"mor": ("-mor", "--max-order"), "por": ("-por", "--poly-order"), "K": ("-K", "--bootstrap"), "R": ("-R", "--subset"), "mit": ("-mit", "--max-iter"), "l2": ("-l2", "--l2-penalty"), "a": ("-a", "--alpha"), "ext": ("-ext", "--extended-base"), "pr": ("-print", "--print-to-console"), "emul": ("-emul", "--return-emulator"), "s": ("-s", "--seed")}
USES_X = {"morris", "delta", "dgsm", "rbd_fast", "ff", "hdmr", "enhanced_hdmr", "pawn", "rsa", "discrepancy"}


def analysis_data(case):
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, sobol

    m, p, o = case["m"], mk(case["p"]), case["o"]
    if m == "sobol":
        X = sobol.sample(p, 8, calc_second_order=o["order"] in (None, 2), seed=1)
    elif m == "morris":
        X = morris.sample(p, 6, num_levels=o["levels"] or 4, seed=1)
    elif m == "dgsm":
        X = finite_diff.sample(p, 16)
    elif m == "fast":
        X = fast_sampler.sample(p, 300, M=o["M"] or 4, seed=1)
    elif m == "ff":
        X = ff.sample(p)
    else:
        X = latin.sample(p, 330 if "hdmr" in m else 160, seed=1)
    D = case["p"]["num_vars"]
    Y = np.column_stack([mk_y(case["y"], case["dseed"] + j, len(X), X[:, :D]) for j in range(case["cols"])])
    return X, Y


def analysis_argv(case, tmp):
    m, o = case["m"], case["o"]
    L = -1 if case["long"] else 0
    a = [("-p", "--paramfile")[L], tmp + "/p.txt", ("-Y", "--model-output-file")[L], tmp + "/Y.txt"]
    if case["c"] or case["dseed"] % 2:
        a += [("-c", "--column")[L], str(case["c"])]
    if m in USES_X:
        a += [("-X", "--model-input-file")[L], tmp + "/X.txt"]
    if case["delim"] is not None:
        a += ["--delimiter", case["delim"]]
    fl = {"hdmr": HFLAGS, "enhanced_hdmr": EFLAGS}.get(m, FLAGS)
    for k, v in o.items():
        if k == "par":
            a += ["--parallel", "--processors", "2"] if v else []
        elif k == "bs" and v is not None:
            js = json.dumps(bins(case))
            if v["how"] == "file":
                with open(tmp + "/bins.json", "w") as h:
                    h.write(js)
                js = tmp + "/bins.json"
            a += ["--bins_specs", "  " + js + "\n" if v["how"] == "padded" else js]
        elif v is not None:
            a += [fl[k][L], str(v)]
    return a


def bins(case):
    """Numbers of bins, or edges at the given fractions of the parameters' ranges."""
    p, out = case["p"], {}
    for n, b, v in zip(p["names"], p["bounds"], case["o"]["bs"]["v"]):
        out[n] = v if isinstance(v, int) else [b[0] + f * (b[1] - b[0]) for f in v]
    return out


def analysis_api(case, X, Y, show=True):
    from SALib.analyze import delta, dgsm, discrepancy, enhanced_hdmr, fast, ff, hdmr, morris, pawn, rbd_fast, rsa, sobol

    m, p = case["m"], mk(case["p"])
    o = {k: v for k, v in case["o"].items() if v is not None}
    s = o.pop("s")
    X, Y = X.copy(), Y[:, case["c"]].copy()
    kw = {"print_to_console": show, "seed": s}

    def take(**names):
        for k, v in names.items():
            if v in o:
                kw[k] = o[v]

    if m == "sobol":
        return sobol.analyze(p, Y, calc_second_order=o.get("order", 2) == 2, num_resamples=o["r"], parallel=o["par"], n_processors=2 if o["par"] else None, **kw)
    if m == "morris":
        return morris.analyze(p, X, Y, num_resamples=o.get("r", 1000), num_levels=o.get("levels", 4), scaled=o.get("scaled", "false").lower() == "true", **kw)
    if m == "delta":
        return delta.analyze(p, X, Y, num_resamples=o.get("r", 10), method=o.get("method", "all"), y_resamples=o.get("yr"), bins_specs=bins(case) if "bs" in o else {}, **kw)
    if m == "dgsm":
        return dgsm.analyze(p, X, Y, num_resamples=o.get("r", 1000), **kw)
    if m == "fast":
        return fast.analyze(p, Y, M=o.get("M", 4), num_resamples=o["r"], **kw)
    if m == "rbd_fast":
        return rbd_fast.analyze(p, X, Y, M=o.get("M", 10), num_resamples=o["r"], **kw)
    if m == "ff":
        return ff.analyze(p, X, Y, second_order=o.get("order", 2) == 2, **kw)
    if m == "pawn":
        return pawn.analyze(p, X, Y, S=o.get("S", 10), **kw)
    if m == "rsa":
        return rsa.analyze(p, X, Y, bins=o.get("b", 20), target=o.get("t", "Y"), **kw)
    if m == "discrepancy":
        return discrepancy.analyze(p, X, Y, **kw)
    if m == "hdmr":
        take(maxorder="mor", maxiter="mit", m="m", K="K", R="R", alpha="a", lambdax="lam")
        return hdmr.analyze(p, X, Y, **kw)
    take(max_order="mor", poly_order="por", bootstrap="K", subset="R", max_iter="mit", l2_penalty="l2", alpha="a")
    kw["print_to_console"] = show and o.get("pr", "False").lower() == "true"
    return enhanced_hdmr.analyze(p, X, Y, extended_base=o["ext"].lower() == "true", return_emulator=o.get("emul", "False") == "True", **kw)


def check_analysis(case, t):
    X, Y = analysis_data(case)
    with Scratch() as tmp:
        param_file(case["p"], tmp + "/p.txt", case["pd"])
        d = case["delim"] or " "
        np.savetxt(tmp + "/X.txt", X, delimiter=d, fmt="%.17g")
        np.savetxt(tmp + "/Y.txt", Y, delimiter=d, fmt="%.17g")
        got = run("analyze", case["via"], case["m"], analysis_argv(case, tmp))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        analysis_api(case, X, Y)
    want = out.getvalue()
    if got != want:
        g, w = got.splitlines(), want.splitlines()
        k = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
        fail("line {}: {!r} instead of {!r}", k + 1, g[k] if k < len(g) else None, w[k] if k < len(w) else None)
    if case["m"] != "enhanced_hdmr" or (case["o"]["pr"] or "").lower() == "true":
        require(got.strip(), "nothing was printed")
    t.nontrivial(case["c"] > 0 or any(v is not None for k, v in case["o"].items() if k not in ("s", "par")))
    t.label(case["m"])


HEAVY = ["delta", "hdmr", "enhanced_hdmr"]
LIGHT = [m for m in ANALYZERS if m not in HEAVY]


@sub("C27", analysis_cases(HEAVY), quick=160, shards=8, rule="an option off its default")
def slow_analyses(case, t):
    """salib analyze METHOD prints what METHOD.analyze prints."""
    check_analysis(case, t)


@sub("C27", analysis_cases(LIGHT), quick=2400, rule="an option off its default")
def analysis(case, t):
    """salib analyze METHOD prints what METHOD.analyze prints."""
    check_analysis(case, t)


@st.composite
def process_cases(draw):
    if draw(st.booleans()):
        c = draw(sample_cases())
        c["kind"] = "sample"
    else:
        c = draw(analysis_cases())
        c["kind"] = "analyze"
        c["o"].pop("par", None) if c["m"] != "sobol" else c["o"].update(par=False)
    c["via"] = "process"
    return c


@sub("C27", process_cases(), quick=24, thorough=300, shards=8, rule="an option off its default")
def processes(case, t):
    """The same through python -m SALib.scripts.salib and python -m SALib.sample.METHOD."""
    (check_sample if case["kind"] == "sample" else check_analysis)(case, t)
    t.label(case["kind"])


@st.composite
def printed(draw):
    c = draw(analysis_cases())
    if draw(st.integers(0, 5)) == 0 and c["m"] in ("sobol", "morris", "ff", "rsa", "dgsm"):
        c["p"] = draw(problems(7, 11, dists=False, groups=False))
        c["o"].update(par=False) if c["m"] == "sobol" else None
    return c


def cells(df):
    return df.to_string()


@sub("C27", printed(), quick=500, rule="a table with at least 2 rows")
def printed_tables_hold_the_results(case, t):
    """print_to_console prints the result's tables and nothing else; silent otherwise."""
    import pandas as pd

    m = case["m"]
    case["o"]["pr"] = "True" if m == "enhanced_hdmr" else None
    X, Y = analysis_data(case)
    out, quiet = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out):
        Si = analysis_api(case, X, Y)
    with contextlib.redirect_stdout(quiet):
        S2 = analysis_api(case, X, Y, show=False)
    require(quiet.getvalue() == "" or m == "delta", "printed {!r} although print_to_console is off", quiet.getvalue()[:200])
    text = out.getvalue()
    D = case["p"]["num_vars"]
    if "hdmr" in m:
        rows = [l.split("\t") for l in text.splitlines() if "\t" in l][1:]
        terms = list(S2["Term"])
        k = sum(1 for x in np.asarray(S2["S"], dtype=float)) if m == "hdmr" else len(S2["Sa"])
        require([r[0].strip() for r in rows] == [str(x) for x in terms[:k]] + ["Sum"], "terms {}", [r[0] for r in rows])
        for i, r in enumerate(rows):
            pairs = (("Sa", "Sa_conf"), ("Sb", "Sb_conf"), ("S", "S_conf")) + ((("ST", "ST_conf"),) if i < D else ())
            if r[0].strip() == "Sum":
                w = "".join(" %5.2f (\261%.2f)" % (S2[a + "_sum"], S2[a + "_sum_conf"]) for a in ("Sa", "Sb", "S"))
                i = -1
            else:
                w = "".join(" %5.2f (\261%.2f)" % (S2[a][i], S2[b][i]) for a, b in pairs)
            require(r[1].startswith(w), "row {}: {} instead of {}", r[0], r[1], w)
        t.nontrivial()
        return
    if m == "delta":
        dfs = [Si.to_df()]
        lines = text.splitlines()
        body = [l for l in lines if l.strip()]
        require(len(body) >= D + 1, "{} lines for {} parameters", len(body), D)
        head = body[-D - 1].split()
        for k in [x for x in head if x in Si and np.asarray(Si[x]).dtype.kind == "f"]:
            j = head.index(k)
            if " " in "".join(case["p"]["names"]):
                break
            got = [float(body[-D + i].split()[j]) for i in range(D)]
            require(np.allclose(got, np.asarray(Si[k], dtype=float), rtol=1e-4, atol=2e-6, equal_nan=True), "{}: {} instead of {}", k, got, list(Si[k]))
        require(set(head) >= {x for x in Si if x.startswith(("delta", "S1"))}, "columns {}", head)
    else:
        dfs = S2.to_df()
        dfs = [dfs] if isinstance(dfs, pd.DataFrame) else [x for x in dfs if x is not None or m == "ff"]
        want = "".join(x.to_string() + "\n" if x is not None else "None\n" for x in dfs)
        if m == "ff" and text != want:
            want = "".join(x.to_string() + "\n" for x in dfs if x is not None)
        require(text == want, "printed {!r} instead of {!r}", text[:300], want[:300])
    t.nontrivial(D > 1)
    t.label(m)
