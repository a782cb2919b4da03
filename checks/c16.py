"""Delta moment-independent analysis."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, from_unit, mk, mk_y, mostly, problems, rng, same

RULE = "Random problems and outputs, sample sizes 100..300, resample sizes, bin specifications, methods; non-trivial = at least 2 parameters or a statistical comparison."
KEYS = ["delta_balanced", "delta_raw", "delta_step", "S1"]


@st.composite
def cases(draw, max_d=4, kinds=("normal", "func", "skew", "ties", "offset"), dists=True):
    return {
        "p": draw(problems(1, max_d, groups=False, dists=dists, kinds=["unif", "norm", "triang", "truncnorm"])),
        "N": draw(mostly(st.integers(120, 300), st.sampled_from([1000, 2250, 3100]), 19)),
        "y": draw(st.sampled_from(list(kinds))),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "R": draw(st.integers(2, 8)),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.05, 0.999))),
        "frac": draw(st.sampled_from([None, None, 1.0, 0.8])),
        "bins": draw(st.sampled_from([None, None, 4, 7, "edges"])),
        "method": draw(st.sampled_from(["all", "all", "delta", "sobol"])),
    }


def data(case):
    p, N = case["p"], case["N"]
    r = rng(case["seed"])
    D = p["num_vars"]
    U = np.column_stack([(r.permutation(N) + r.uniform(0.01, 0.99, N)) / N for _ in range(D)])
    X = from_unit(U, p)
    Y = mk_y(case["y"], case["seed"] + 1, N, U)
    kw = {"num_resamples": case["R"], "conf_level": case["conf"], "method": case["method"]}
    if case["frac"]:
        kw["y_resamples"] = int(N * case["frac"])
    specs = {}
    for i, n in enumerate(p["names"]):
        if case["bins"] == "edges":
            specs[n] = [float(v) for v in np.quantile(X[:, i], [0.2, 0.5, 0.7])]
        elif case["bins"] and i % 2 == 0:
            specs[n] = case["bins"]
    if specs:
        kw["bins_specs"] = specs
    return X, Y, kw


def run(p, X, Y, kw, **over):
    from SALib.analyze import delta

    return delta.analyze(mk(p), X.copy(), Y.copy(), **{**kw, **over})


@sub("C16", cases(), quick=250, rule="at least 2 parameters")
def results_and_notes(case, t):
    """Which results are returned, for which parameters they are undefined and
    which notes are raised; half-widths scale with the level, estimates do not."""
    p = case["p"]
    D, N = p["num_vars"], case["N"]
    X, Y, kw = data(case)
    S = run(p, X, Y, kw, seed=case["aseed"])
    m = case["method"]
    want = {"names", "notes"}
    if m != "sobol":
        want |= {k + s for k in KEYS[:3] for s in ("", "_conf")}
    if m != "delta":
        want |= {"S1", "S1_conf"}
    require(set(S) == want, "keys {}", sorted(S))
    require(list(S["names"]) == p["names"] and len(S["notes"]) == D, "names {} notes {}", S["names"], S["notes"])
    W = run(p, X, Y, kw, seed=case["aseed"], conf_level=0.8)
    ratio = norm.ppf(0.5 + case["conf"] / 2) / norm.ppf(0.9)
    for k in want - {"names", "notes"}:
        a, b = np.asarray(S[k], float), np.asarray(W[k], float)
        require(a.shape == (D,), "{} has shape {}", k, a.shape)
        same(a, b * (ratio if k.endswith("_conf") else 1), k + " under another level", 1e-8, 1e-11)
        if k.endswith("_conf"):
            require(np.all((a >= 0) | np.isnan(a)), "{} negative", k)
    cls = max(int(N * 0.005), 10)
    for i in range(D):
        note = S["notes"][i]
        if m == "sobol":
            require(note == "" and np.isfinite(S["S1"][i]), "note {!r}, S1 {}", note, S["S1"][i])
            continue
        few = min((X[:, i] <= 0).sum(), (X[:, i] > 0).sum()) < cls
        err = np.isnan(S["delta_raw"][i]) or np.isnan(S["delta_balanced"][i])
        if err:
            require(note != "", "undefined results without a note")
            continue
        if few:
            require(np.isnan(S["delta_step"][i]) and "too few" in note, "step {} note {!r}", S["delta_step"][i], note)
        else:
            require("too few" not in note, "step note {!r}", note)
            require(np.isfinite(S["delta_step"][i]) or note, "no step result and no note")
        d = abs(S["delta_raw"][i] - S["delta_balanced"][i])
        if abs(d - 0.1) > 1e-9 and (few or np.isfinite(S["delta_step"][i])):
            require(("differs" in note) == (d > 0.1), "raw and balanced differ by {} but the note is {!r}", d, note)
        t.label("step", not few)
    t.nontrivial(D > 1)
    t.label("method " + m)


@st.composite
def meta(draw):
    c = draw(cases(kinds=("normal", "func", "skew")))
    c["a"] = draw(st.one_of(st.floats(0.01, 100), st.floats(-100, -0.01)))
    c["b"] = draw(st.floats(-100, 100))
    c["unit"] = draw(st.sampled_from([-60, -40, 30, 60]))
    return c


@sub("C16", meta(), quick=150, rule="at least 2 parameters")
def metamorphic(case, t):
    """With the same seed: no change under Y -> aY+b; raw and balanced delta and
    S1 do not depend on the unit and origin of the inputs, step only on the sign."""
    p = case["p"]
    X, Y, kw = data(case)
    S = run(p, X, Y, kw, seed=case["aseed"])
    T = run(p, X, case["a"] * Y + case["b"], kw, seed=case["aseed"])
    tol = 1e-6 * (1 + abs(case["b"] / case["a"]))
    tol = min(tol, 1e-2)
    for k in S:
        if k not in ("names", "notes"):
            same(T[k], S[k], k + " after aY+b", tol, tol)
    T = run(p, X, Y * 2.0 ** case["unit"], kw, seed=case["aseed"])
    for k in S:
        if k not in ("names", "notes"):
            same(T[k], S[k], k + " after a change of output units", 1e-9, 1e-9)
    k2 = dict(kw)
    if "bins_specs" in kw:
        k2["bins_specs"] = {n: ([v * 4 for v in b] if isinstance(b, list) else b) for n, b in kw["bins_specs"].items()}
    T = run(p, X * 4, Y, k2, seed=case["aseed"])
    for k in S:
        if k not in ("names", "notes"):
            same(T[k], S[k], k + " after a change of input units", 1e-7, 1e-9)
    t.nontrivial(p["num_vars"] > 1)


def kde(y, grid):
    """Gaussian kernel density, Silverman's bandwidth."""
    n = len(y)
    h = y.std(ddof=1) * (n * 3 / 4.0) ** (-0.2)
    return np.exp(-0.5 * ((grid[:, None] - y[None, :]) / h) ** 2).sum(axis=1) / (n * h * np.sqrt(2 * np.pi))


def classes(n):
    ex = 2.0 / (7.0 + np.tanh((1500.0 - n) / 500.0))
    return np.linspace(0, n, int(np.round(min(int(np.ceil(n**ex)), 48))) + 1)


def split(x, m):
    rk = np.empty(len(x))
    rk[np.argsort(x, kind="stable")] = np.arange(1, len(x) + 1)
    for j in range(len(m) - 1):
        ix = (rk > m[j]) & (rk <= m[j + 1])
        if ix.any():
            yield ix


def delta_hat(x, y, m, grid):
    f = kde(y, grid)
    tot = 0.0
    for ix in split(x, m):
        if np.ptp(y[ix]) > 0:
            g = np.abs(f - kde(y[ix], grid))
            tot += ix.sum() / (2 * len(y)) * (0.5 * (g[1:] + g[:-1]) * np.diff(grid)).sum()
    return tot


def s1_hat(x, y, m):
    return sum(ix.mean() * (y[ix].mean() - y.mean()) ** 2 for ix in split(x, m)) / y.var()


def bins_of(x, edges, cls):
    which = np.clip(np.searchsorted(edges, x, "left") - 1, 0, len(edges) - 2)
    out, cur = [], np.array([], int)
    for b in range(len(edges) - 1):
        cur = np.concatenate([cur, np.nonzero(which == b)[0]])
        if len(cur) >= cls:
            out.append(cur)
            cur = np.array([], int)
    if len(cur):
        out.append(cur)
    return out


def draw_bins(r, groups, n):
    k = len(groups)
    return np.concatenate(
        [r.choice(g, n // k + (1 if i < n % k else 0)) for i, g in enumerate(groups)]
    )


@st.composite
def stat(draw):
    c = draw(cases(max_d=1, kinds=("normal", "func")))
    c["p"] = {"num_vars": 1, "names": ["x1"], "bounds": [[draw(st.sampled_from([-1.0, -1.0, -0.25])), draw(st.sampled_from([1.0, 3.0]))]]}
    c["method"] = "all"
    c["frac"] = draw(st.sampled_from([None, 0.9, 0.7]))
    c["bins"] = draw(st.sampled_from([None, 2, 4, 7, "edges"]))
    c["levels"] = draw(st.sampled_from([0, 0, 6, 25]))
    c["sorted"] = draw(st.booleans())
    c["N"] = draw(st.integers(140, 220))
    c["skewx"] = draw(st.sampled_from([0, 0, 1.6, 3.0]))
    return c


@sub("C16", stat(), quick=24, thorough=400, shards=8, rule="every case (about 600 resamplings each)")
def estimates_match_an_independent_bootstrap(case, t):
    """Raw/balanced/step delta and S1 are compared with an independent
    implementation of the estimators (Plischke et al. 2013, bias-reduced by
    2 d - d*) over independent resamples: centre and spread of 36 seeded runs, and
    the half-width from 200 resamples.  All tolerances exceed 5 standard errors."""
    p, N = case["p"], case["N"]
    X, Y, kw = data(case)
    if case["skewx"]:
        lo, hi = p["bounds"][0]
        u = (X[:, 0] - lo) / (hi - lo)
        X = (lo + (hi - lo) * u ** case["skewx"])[:, None]
        if isinstance(kw.get("bins_specs", {}).get("x1"), list):
            kw["bins_specs"] = {"x1": [float(v) for v in np.quantile(X[:, 0], [0.2, 0.5, 0.7])]}
    if case["levels"]:  # discrete input: ties
        lv = np.sort(rng(case["seed"] + 6).uniform(*p["bounds"][0], case["levels"]))
        X = lv[np.clip(np.searchsorted(lv, X[:, 0]), 0, len(lv) - 1)][:, None]
        if isinstance(kw.get("bins_specs", {}).get("x1"), list):
            a, b = lv[0], lv[-1]
            kw["bins_specs"] = {"x1": [float(a + f * (b - a)) for f in (0.21, 0.5, 0.7)]}
    x = X[:, 0]
    if case["y"] == "func":
        Y = Y + rng(case["seed"] + 8).normal(size=N) * Y.std()
    if case["sorted"]:
        o = np.argsort(x, kind="stable")
        X, Y = X[o], Y[o]
        x = X[:, 0]
    n = kw.get("y_resamples", N)
    m = classes(n)
    grid = np.linspace(Y.min(), Y.max(), 100)
    cls = max(int(N * 0.005), 10)
    spec = kw.get("bins_specs", {}).get("x1", 10)
    edges = np.linspace(x.min(), x.max(), spec + 1) if isinstance(spec, int) else np.concatenate([[x.min() - 1e-9], spec, [x.max() + 1e-9]])
    r = rng(case["seed"] + 5)
    pos, neg = np.nonzero(x > 0)[0], np.nonzero(x <= 0)[0]
    bal = bins_of(x, edges, cls)
    stp = [pos[b] for b in bins_of(x[pos], np.linspace(x[pos].min(), x[pos].max(), 6), cls // 2)]
    n0 = int(0.5 * n)
    draws = {
        "delta_raw": lambda: r.integers(N, size=n),
        "delta_balanced": lambda: draw_bins(r, bal, n),
        "delta_step": lambda: np.concatenate([r.choice(neg, n0), draw_bins(r, stp, n - n0)]),
        "S1": lambda: r.integers(N, size=n),
    }
    if n // len(bal) < cls or (n - n0) // len(stp) < cls // 2 or len(bal) < 2 or len(stp) < 2:
        return
    if min(len(pos), len(neg)) < cls:
        return
    K, Rn = 36, 200
    kw["conf_level"] = 0.95
    runs = [run(p, X, Y, kw, num_resamples=2, seed=s) for s in range(K)]
    big = run(p, X, Y, kw, num_resamples=Rn, seed=77)
    for k in KEYS:
        f = (lambda i: s1_hat(x[i], Y[i], m)) if k == "S1" else (lambda i: delta_hat(x[i], Y[i], m, grid))
        d = np.array([f(draws[k]()) for _ in range(240)])
        sig = d.std(ddof=1)
        v = np.array([a[k][0] for a in runs])
        # one bootstrap draw (S1) or 2 d - mean of 2 draws (delta)
        exp_sd = sig if k == "S1" else sig * np.sqrt(4 + 0.5)
        require(
            abs(v.mean() - d.mean()) < 6 * np.hypot(exp_sd / np.sqrt(K), sig / np.sqrt(240)),
            "{}: {} runs average {} but the estimator gives {}", k, K, v.mean(), d.mean(),
        )
        require(0.5 * exp_sd < v.std(ddof=1) < 1.8 * exp_sd, "{}: spread over seeds {} but {} expected", k, v.std(ddof=1), exp_sd)
        half = big[k + "_conf"][0]
        require(0.7 * sig < half / norm.ppf(0.975) < 1.4 * sig, "{}_conf {} but {} expected", k, half, sig * norm.ppf(0.975))
    t.nontrivial()
    t.label("merged bins", len(bal) < len(edges) - 1)
    t.label("subsampled", n < N)
    t.label("ties", case["levels"] > 0)


@st.composite
def first(draw):
    return {
        "N": draw(mostly(st.integers(40, 400), st.sampled_from([1200, 1600, 2400]), 4)),
        "frac": draw(st.sampled_from([None, 1.0, 0.8, 0.6, 0.4])),
        "late": draw(st.sampled_from([0.0, 0.5, 0.7])),
        "levels": draw(st.sampled_from([0, 0, 2, 3, 12])),
        "sorted": draw(st.booleans()),
        "conf": draw(st.one_of(st.just(0.95), st.floats(0.3, 0.99))),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
    }


@sub("C16", first(), quick=120, shards=8, rule="the index varies between resamples")
def first_order_bootstrap(case, t):
    """S1 and its interval against an independent bootstrap over all runs, for
    outputs that respond to the upper part of the input only, runs in any order,
    tied inputs, and fewer resampled outputs than runs."""
    r = rng(case["seed"])
    N = case["N"]
    u = (r.permutation(N) + r.random(N)) / N
    if case["levels"]:
        u = np.floor(u * case["levels"]) / case["levels"]
    y = np.maximum(u - case["late"], 0) * (3 + r.normal(size=N))
    if case["sorted"]:
        o = np.argsort(u, kind="stable")
        u, y = u[o], y[o]
    p = {"num_vars": 1, "names": ["q"], "bounds": [[0.0, 1.0]]}
    kw = {"method": "sobol", "conf_level": case["conf"]}
    n = N
    if case["frac"]:
        n = kw["y_resamples"] = int(N * case["frac"])
    m = classes(n)
    ref = np.array([s1_hat(u[i], y[i], m) for i in r.integers(N, size=(400, n)) if np.ptp(y[i]) > 0])
    if len(ref) < 400:
        return
    S = run(p, u[:, None], y, kw, num_resamples=400, seed=case["aseed"])
    sd = ref.std(ddof=1)
    half = S["S1_conf"][0] / norm.ppf(0.5 + case["conf"] / 2)
    require(0.72 * sd < half < sd / 0.72, "S1_conf {} but {} expected", S["S1_conf"][0], sd * norm.ppf(0.5 + case["conf"] / 2))
    v = np.array([run(p, u[:, None], y, kw, num_resamples=2, seed=s)["S1"][0] for s in range(25)])
    require(abs(v.mean() - ref.mean()) < 7 * sd / 5, "S1 averages {} but the estimator gives {}", v.mean(), ref.mean())
    t.nontrivial(sd > 1e-6)
    t.label("ties", case["levels"] > 0)
    t.label("subsampled", n < N)


@st.composite
def odd_bins(draw):
    c = draw(cases(kinds=("normal", "func")))
    c["method"] = "delta"
    c["bins"] = None
    c["odd"] = draw(st.sampled_from(["low", "high", "descending", "repeated", "text", "type"]))
    return c


@sub("C16", odd_bins(), quick=100, rule="every case")
def unusable_bins_fall_back(case, t):
    """Bin edges outside of the sampled range, not ascending, repeated or not
    numbers: the default ten bins are used, and the note of that parameter says so."""
    p = case["p"]
    X, Y, kw = data(case)
    i = p["num_vars"] - 1
    name, x = p["names"][i], X[:, i]
    q = [float(v) for v in np.quantile(x, [0.2, 0.5, 0.8])]
    w = float(np.ptp(x))
    spec = {
        "low": [q[0] - 2 * w] + q[1:],
        "high": q[:2] + [q[2] + 2 * w],
        "descending": q[::-1],
        "repeated": [q[0], q[1], q[1]],
        "text": ["a", "b"],
        "type": 3.5,
    }[case["odd"]]
    S = run(p, X, Y, kw, seed=case["aseed"])
    T = run(p, X, Y, kw, seed=case["aseed"], bins_specs={name: spec})
    for k in S:
        if k not in ("names", "notes"):
            same(T[k], S[k], k + " with unusable bins", 1e-9, 1e-12)
    require(list(T["notes"][:i]) == list(S["notes"][:i]), "notes of the other parameters {}", T["notes"])
    if np.isnan(S["delta_raw"][i]) or np.isnan(S["delta_balanced"][i]):
        require(T["notes"][i] == S["notes"][i], "note {!r}", T["notes"][i])
        return
    require("default" in T["notes"][i] and T["notes"][i].endswith(S["notes"][i]), "note {!r}", T["notes"][i])
    t.nontrivial()
    t.label(case["odd"])


@st.composite
def spoiled(draw):
    c = draw(cases(kinds=("normal", "func")))
    c["p"] = draw(problems(2, 4, groups=False, dists=False))
    c["bins"] = None
    c["frac"] = None
    c["method"] = draw(st.sampled_from(["all", "delta"]))
    c["which"] = draw(st.integers(0, 3))
    c["how"] = draw(st.sampled_from(["constant", "one bin", "small"]))
    return c


@sub("C16", spoiled(), quick=100, rule="the unusable parameter is not the only one")
def unusable_parameters_leave_the_others_alone(case, t):
    """A parameter that is constant, has all runs in one bin, or has too few
    runs for its bins is undefined and its note says why; the other parameters get
    exactly the results they get without it."""
    p = case["p"]
    D, N = p["num_vars"], case["N"]
    i = case["which"] % D
    X, Y, kw = data(case)
    name = p["names"][i]
    if case["how"] == "constant":
        X[:, i] = p["bounds"][i][0]
        word = "constant"
    elif case["how"] == "one bin":
        x = X[:, i]
        kw["bins_specs"] = {name: [float((np.sort(x)[2] + np.sort(x)[3]) / 2)]}
        if case["seed"] % 2:
            kw["bins_specs"] = {name: 1}
            word = "bin"
        else:  # too few runs below the edge: merged with the rest
            word = "bin"
    else:
        kw["bins_specs"] = {name: [float(v) for v in np.quantile(X[:, i], np.linspace(0.1, 0.9, 9))]}
        kw["y_resamples"] = 95
        for n in p["names"]:
            if n != name:
                kw["bins_specs"][n] = 2
        word = "small"
        if len(bins_of(X[:, i], np.concatenate([[X[:, i].min() - 1e-9], kw["bins_specs"][name], [X[:, i].max() + 1e-9]]), 10)) < 10:
            return
    S = run(p, X, Y, kw, seed=case["aseed"])
    keep = [j for j in range(D) if j != i]
    q = {"num_vars": D - 1, "names": [p["names"][j] for j in keep], "bounds": [p["bounds"][j] for j in keep]}
    T = run(q, X[:, keep], Y, kw, seed=case["aseed"])
    for k in S:
        if k in ("names", "notes"):
            continue
        require(np.isnan(S[k][i]), "{} of the unusable parameter is {}", k, S[k][i])
        same(np.asarray(S[k])[keep], T[k], k + " of the other parameters", 1e-12, 1e-12)
    require(word in S["notes"][i], "note {!r} of a parameter that is {}", S["notes"][i], case["how"])
    require([S["notes"][j] for j in keep] == list(T["notes"]), "notes {} but {} without the parameter", S["notes"], T["notes"])
    require(list(S["names"]) == p["names"], "names {}", S["names"])
    t.nontrivial(D > 1)
    t.label(case["how"])


@sub("C16", cases(), quick=60, rule="at least 2 parameters and delta computed")
def saved_resample_is_balanced(case, t):
    """The saved bootstrap table (the writer is replaced by a recorder) has, per
    parameter and mode, values of that input: spread evenly over its bins when
    balanced, half of them active when stepped."""
    import pandas as pd

    p = case["p"]
    D, N = p["num_vars"], case["N"]
    X, Y, kw = data(case)
    S0 = run(p, X, Y, kw, seed=case["aseed"])
    got = []

    def record(self, path=None, *a, **k):
        got.append((self.copy(), path))

    old = pd.DataFrame.to_parquet
    pd.DataFrame.to_parquet = record
    try:
        S = run(p, X, Y, kw, seed=case["aseed"], bootstrap_savedf="boot" if case["seed"] % 2 else "boot.parquet")
    finally:
        pd.DataFrame.to_parquet = old
    for k in S0:
        if k not in ("names", "notes"):
            same(S[k], S0[k], k + " when the resample is saved", 1e-12, 1e-12)
    require(len(got) == 1 and got[0][1] == "boot.parquet", "saved {} to {}", len(got), [g[1] for g in got])
    df = got[0][0]
    if case["method"] == "sobol":
        require(df.shape[1] == 0, "columns {}", list(df.columns))
        return
    n = kw.get("y_resamples", N)
    cls = max(int(N * 0.005), 10)
    seen = set()
    for i, name in enumerate(p["names"]):
        x = X[:, i]
        for mode in ("balanced", "raw", "step"):
            key = "%s_%s" % (name, mode)
            if key not in df:
                require(np.isnan(S["delta_" + mode][i]), "{} is missing in {}", key, list(df.columns))
                continue
            require(np.isfinite(S["delta_" + mode][i]), "{} saved without a result", key)
            seen.add(key)
            v = df[key].to_numpy()
            require(len(v) == n and np.isin(v, x).all(), "{}: not {} values of the input", key, n)
            if mode == "raw":
                continue
            if mode == "balanced":
                spec = kw.get("bins_specs", {}).get(name, 10)
                edges = np.linspace(x.min(), x.max(), spec + 1) if isinstance(spec, int) else np.concatenate([[x.min() - 1e-9], spec, [x.max() + 1e-9]])
                groups = bins_of(x, edges, cls)
                w = v
            else:
                require((v <= 0).sum() == int(0.5 * n), "{}: {} of {} are not active", key, (v <= 0).sum(), n)
                w, xp = v[v > 0], x[x > 0]
                groups = bins_of(xp, np.linspace(xp.min(), xp.max(), 6), cls // 2)
                x = xp
            cnt = [np.isin(w, x[g]).sum() for g in groups]
            require(len(np.unique(x)) < len(x) or (sum(cnt) == len(w) and max(cnt) - min(cnt) <= 1), "{}: {} values per bin", key, cnt)
    require(set(df.columns) == seen, "columns {}", list(df.columns))
    t.nontrivial(D > 1 and len(seen) > 2)


@st.composite
def linear(draw):
    d = draw(st.integers(2, 4))
    return {
        "p": draw(problems(d, d, groups=False, dists=False)),
        "coef": draw(st.lists(st.floats(-3, 3).map(lambda v: round(v, 2)), min_size=d, max_size=d)),
        "N": draw(st.integers(1500, 2500)),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
        "const": draw(st.booleans()),
    }


@sub("C16", linear(), quick=60, rule="at least 2 influential parameters")
def first_order_indices_of_additive_models(case, t):
    """S1 of a linear model in uniform inputs is c_i^2/sum c^2 (within 0.12); of a
    constant output zero."""
    p = case["p"]
    c = np.array(case["coef"])
    r = rng(case["seed"])
    N = case["N"]
    U = np.column_stack([(r.permutation(N) + r.random(N)) / N for _ in c])
    X = from_unit(U, p)
    if case["const"] and case["N"] % 2:
        S = run(p, X, np.full(N, 3.5), {"method": "sobol", "num_resamples": 3})
        same(S["S1"], np.zeros(len(c)), "S1 of a constant output")
        same(S["S1_conf"], np.zeros(len(c)), "S1_conf of a constant output")
        return
    if np.abs(c).max() < 0.1:
        return
    S = run(p, X, U @ c, {"method": "sobol", "num_resamples": 3, "seed": case["aseed"]})
    ref = c**2 / (c**2).sum()
    require(np.all(np.abs(S["S1"] - ref) < 0.12), "S1 {} but the model has {}", S["S1"], ref)
    t.nontrivial((np.abs(c) > 0.3).sum() > 1)


@st.composite
def invalid(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["conf", "rows", "resamples", "method", "suffix", "constY"]))
    c["bad"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), st.floats(1, 100), st.floats(-5, 0)))
    c["suffix"] = draw(st.sampled_from(["_raw", "_balanced", "_step", "_conf"]))
    return c


@sub("C16", invalid(), quick=150, rule="every case is invalid")
def invalid_requests_raise(case, t):
    p = mk(case["p"])
    X, Y, kw = data(case)
    k, exc = case["kind"], RuntimeError
    if k == "conf":
        kw["conf_level"] = case["bad"]
    elif k == "rows":
        Y = Y[:-1]
    elif k == "resamples":
        kw["y_resamples"] = len(Y) + 1
    elif k == "method":
        kw["method"], exc = "S1", ValueError
    elif k == "suffix":
        kw.pop("bins_specs", None)
        p["names"][-1] += case["suffix"]
        exc = ValueError
    else:
        if case["method"] == "sobol":
            return
        kw.pop("y_resamples", None)  # enough runs for the default bins
        kw.pop("bins_specs", None)
        Y, exc = np.ones(len(Y)), ValueError
    t.nontrivial()
    try:
        run(p, X, Y, kw)
    except exc:
        return
    fail("{} accepted", k)
