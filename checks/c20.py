"""HDMR (B-spline) analysis and its emulator."""

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, close, mk, mk_y, problems, rng, same

RULE = "Random problems (2-4 inputs, independent or correlated samples of 300-420 rows), outputs, orders 1-3, spline intervals, bootstrap counts, subset sizes, regularisation; non-trivial = more than one bootstrap or interactions included."


@st.composite
def cases(draw, kinds=("normal", "func", "func", "skew", "offset", "big")):
    p = draw(problems(2, 4, dists=False, groups=False))
    d = p["num_vars"]
    order = draw(st.sampled_from([1, 2, 2, 3] if d > 2 else [1, 2]))
    N = draw(st.integers(300, 420))
    return {
        "p": p,
        "N": N,
        "order": order,
        "m": draw(st.sampled_from([1, 2, 3] if order < 3 else [1, 2])),
        "K": draw(st.sampled_from([1, 2, 3])),
        "R": draw(st.sampled_from([None, 300, N])),
        "alpha": draw(st.sampled_from([0.95, 0.5, 0.7, 0.99, 0.999])),
        "lam": draw(st.sampled_from([0.01, 0.1, 1.0, 10.0])),
        "maxiter": draw(st.sampled_from([100, 100, 1, 2, 1000])),
        "y": draw(st.sampled_from(list(kinds))),
        "corr": draw(st.sampled_from([0, 0, 0.5, 0.5, 0.9])),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
    }


def data(case, n=None, salt=0):
    p, N = case["p"], n or case["N"]
    r = rng(case["seed"] + salt)
    d = p["num_vars"]
    U = np.column_stack([(r.permutation(N) + r.random(N)) / N for _ in range(d)])
    if case["corr"]:
        U[:, 1] = case["corr"] * U[:, 0] + (1 - case["corr"]) * U[:, 1]
    lo = np.array([b[0] for b in p["bounds"]])
    hi = np.array([b[1] for b in p["bounds"]])
    return U, lo + (hi - lo) * U


def outputs(case, U):
    return mk_y(case["y"], case["seed"] + 1, len(U), U)


def kwargs(case):
    return dict(
        maxorder=case["order"], maxiter=case["maxiter"], m=case["m"], K=case["K"],
        R=case["R"], alpha=case["alpha"], lambdax=case["lam"], seed=case["aseed"],
    )


def call(case, X, Y, p=None, **over):
    from SALib.analyze import hdmr

    return hdmr.analyze(
        mk(case["p"]) if p is None else p, X.copy(), Y.copy(), **{**kwargs(case), **over}
    )


# ---------------------------------------------------------------- reference
def spline1(x, m):
    """Cubic B-splines with knots k/m, times m^3 (truncated power form)."""
    cols = []
    for k in range(-1, m + 2):
        s = np.zeros_like(x)
        u = x * m - (k - 2)
        for j, c in zip(range(5), (1, -4, 6, -4, 1)):
            s = s + c * np.where(u > j, u - j, 0.0) ** 3
        s = np.where((u <= 0) | (u >= 4), 0.0, s / 6)
        cols.append(np.maximum(s, 0) * m**3)
    return np.column_stack(cols)


def terms(d, order):
    out = []
    for o in range(1, order + 1):
        out += list(itertools.combinations(range(d), o))
    return out


def basis(Xn, d, m, order):
    B1 = [spline1(Xn[:, j], m) for j in range(d)]
    out = []
    for t in terms(d, order):
        b = B1[t[0]]
        for j in t[1:]:
            b = (b[:, :, None] * B1[j][:, None, :]).reshape(len(Xn), -1)
        out.append(b)
    return out


def fit(Bs, y, d, lam, maxiter):
    """Ridge fits of the first order terms with backfitting, then the second
    order terms on the residual, then the third order ones."""
    coef = [None] * len(Bs)

    def ridge(b):
        return np.linalg.solve(b.T @ b + lam * np.eye(b.shape[1]), b.T)

    T = [ridge(Bs[j]) for j in range(d)]
    coef[:d] = [t @ y for t in T]
    old = np.array([np.sum(c**2) for c in coef[:d]])
    for _ in range(maxiter):
        for j in range(d):
            r = y - sum(Bs[z] @ coef[z] for z in range(d) if z != j)
            coef[j] = T[j] @ r
        new = np.array([np.sum(c**2) for c in coef[:d]])
        delta = np.max(np.abs(new - old))
        old = new
        if delta <= 1e-3:
            break
    res = y - sum(Bs[j] @ coef[j] for j in range(d))
    n2 = d * (d - 1) // 2
    for lo, hi in ((d, d + n2), (d + n2, len(Bs))):
        for j in range(lo, min(hi, len(Bs))):
            coef[j] = ridge(Bs[j]) @ res
        res = res - sum((Bs[j] @ coef[j] for j in range(lo, min(hi, len(Bs)))), 0)
    return coef


@sub("C20", cases(), quick=240, shards=8, rule="interactions or several bootstraps")
def decomposition(case, t):
    """Sensitivity indices, their half-widths, F-test counts and the stored fit
    are those of the covariance decomposition of the fitted component functions
    on the reported bootstrap subsets."""
    p, N, d, K = case["p"], case["N"], case["p"]["num_vars"], case["K"]
    U, X = data(case)
    Y = outputs(case, U)
    Si = call(case, X, Y)
    R = N if K == 1 else (case["R"] or N // 2)
    idx = np.asarray(Si["idx"])
    require(idx.shape == (R, K), "subsets of shape {}, expected {}", idx.shape, (R, K))
    for k in range(K):
        require(len(set(idx[:, k].tolist())) == R, "subset {} repeats rows", k)
        require(idx.min() >= 0 and idx.max() < N, "row out of range")
    if K > 1 and R < N:
        require(not np.array_equal(np.sort(idx[:, 0]), np.sort(idx[:, 1])), "same subset twice")
    tt = terms(d, case["order"])
    names = p["names"]
    require(list(Si["Term"]) == ["/".join(names[j] for j in u) for u in tt], "terms {}", Si["Term"])
    require(list(Si["names"]) == list(Si["Term"]), "names {}", Si["names"])
    Xn = (X - X.min(0)) / (X.max(0) - X.min(0))
    Bs = basis(Xn, d, case["m"], case["order"])
    S, Sa, Sb = (np.zeros((len(tt), K)) for _ in range(3))
    sel_lo = np.zeros(len(tt))
    sel_hi = np.zeros(len(tt))
    for k in range(K):
        ii = idx[:, k]
        b = [B[ii] for B in Bs]
        y = Y[ii]
        f0 = y.mean()
        coef = fit(b, y - f0, d, case["lam"], case["maxiter"])
        F = np.column_stack([bb @ c for bb, c in zip(b, coef)])
        scale = np.abs(y - f0).max()
        same(Si["Em"]["f0"][k], f0, "mean of subset %d" % k, rtol=1e-9, atol=1e-12 * scale)
        same(Si["Em"]["Y_e"][:, k], f0 + F.sum(1), "fitted outputs of subset %d" % k, rtol=1e-6, atol=1e-6 * scale)
        same(Si["Em"]["RMSE"][k], np.sqrt(np.mean((y - f0 - F.sum(1)) ** 2)), "RMSE", rtol=1e-5, atol=1e-6 * scale)
        V = np.var(y)
        tot = F.sum(1)
        for j in range(len(tt)):
            S[j, k] = np.mean((F[:, j] - F[:, j].mean()) * (y - f0)) / V
            Sa[j, k] = np.var(F[:, j]) / V
            rest = tot - F[:, j]
            Sb[j, k] = np.mean((F[:, j] - F[:, j].mean()) * (rest - rest.mean())) / V
            n = b[j].shape[1]
            s0 = np.sum((y - f0) ** 2)
            s1 = np.sum((y - f0 - F[:, j]) ** 2)
            if R > n:
                f = ((s0 - s1) / n) / (s1 / (R - n)) if s1 > 0 else np.inf
                crit = stats.f.ppf(case["alpha"], n, R - n)
                sel_lo[j] += f > crit * (1 + 1e-6) + 1e-6
                sel_hi[j] += f > crit * (1 - 1e-6) - 1e-6
            else:
                sel_hi[j] += 1
        if k == K - 1:
            same(Si["Y_em"], F, "component functions", rtol=1e-5, atol=1e-6 * scale)
    # sample or population covariances are both acceptable
    tol = 2.5 / R
    z = stats.norm.ppf(0.5 + case["alpha"] / 2)

    def cmp(key, ref, what):
        same(np.asarray(Si[key], dtype=float), ref, what, rtol=tol + 1e-6, atol=1e-6)

    for key, M in (("S", S), ("Sa", Sa), ("Sb", Sb)):
        cmp(key, M.mean(1), key)
        cmp(key + "_sum", M.sum(0).mean(), key + "_sum")
        cmp(key + "_conf", z * M.std(1), key + "_conf")
        cmp(key + "_sum_conf", z * M.sum(0).std(), key + "_sum_conf")
    ST = np.array([S[[j for j, u in enumerate(tt) if i in u]].sum(0) for i in range(d)])
    full = np.full(len(tt), np.nan)
    full[:d] = ST.mean(1)
    cmp("ST", full, "ST")
    full[:d] = z * ST.std(1)
    cmp("ST_conf", full, "ST_conf")
    sel = np.asarray(Si["select"], dtype=float)
    require(sel.shape == sel_lo.shape and np.all(sel >= sel_lo) and np.all(sel <= sel_hi),
            "selected {} times, F-test gives {}", sel.tolist(), sel_lo.tolist())
    t.label("order%d" % case["order"])
    t.nontrivial(case["order"] > 1 or K > 1)


@sub("C20", cases(), quick=120, shards=8, rule="interactions or several bootstraps")
def emulator(case, t):
    """emulate() evaluates the fitted expansion (average coefficients, the
    training range) at any points, one row independent of the others."""
    d = case["p"]["num_vars"]
    U, X = data(case)
    Y = outputs(case, U)
    Si = call(case, X, Y)
    require(np.array_equal(Si["X"], X) and np.array_equal(Si["Y"], Y), "stored data differ")
    # also as many points as were analysed, and some beyond these
    V, Xt = data(case, n=23 if case["aseed"] % 2 else case["N"], salt=5)
    lo, hi = X.min(0), X.max(0)
    mid = (lo + hi) / 2
    if case["seed"] % 2:
        Xt = np.clip(Xt, lo, hi)
    elif case["seed"] % 4:
        Xt = mid + (Xt - mid) * 1.2
    Em = Si["Em"]
    Bs = basis((Xt - lo) / (hi - lo), d, case["m"], case["order"])
    tt = terms(d, case["order"])
    ref = np.full(len(Xt), np.mean(Em["f0"]))
    at = {1: 0, 2: 0, 3: 0}
    for u, b in zip(tt, Bs):
        o = len(u)
        ref = ref + b @ np.mean(Em["C%d" % o], axis=2)[:, at[o]]
        at[o] += 1
    Si.emulate(Xt.copy())
    got = np.asarray(Si["emulated"]).copy()
    sc = np.abs(Y - Y.mean()).max()
    same(got, ref, "emulated outputs", rtol=1e-7, atol=1e-8 * sc)
    require("Y_test" not in Si, "observations stored though none were given")
    Si.emulate(Xt[5:9].copy(), np.arange(4.0))
    same(Si["emulated"], got[5:9], "the same points emulated alone", rtol=1e-9, atol=1e-9 * sc)
    require(np.array_equal(Si["Y_test"], np.arange(4.0)), "Y_test")
    far = hi + (hi - lo) * (1 + rng(case["seed"]).random((3, d)))
    Si.emulate(np.vstack([far, Xt]))
    same(np.asarray(Si["emulated"])[3:], got, "the same points next to far away ones", rtol=1e-9, atol=1e-9 * sc)
    if case["K"] == 1:
        Si.emulate(X.copy())
        same(Si["emulated"], Em["Y_e"][:, 0], "emulation of the analysed sample", rtol=1e-8, atol=1e-8 * sc)
    df = Si.to_df()
    require(list(df.index) == list(Si["Term"]), "to_df index")
    for c in ("Sa", "Sb", "S", "ST"):
        same(df[c].to_numpy(dtype=float), Si[c], "to_df " + c)
        same(df[c + "_conf"].to_numpy(dtype=float), Si[c + "_conf"], "to_df conf " + c)
    t.nontrivial(case["order"] > 1 or case["K"] > 1)


@st.composite
def models(draw):
    d = draw(st.sampled_from([2, 2, 3, 4]))
    order = draw(st.sampled_from([1, 2])) if d == 2 else 1
    return {
        "p": draw(problems(d, d, dists=False, groups=False)),
        "N": draw(st.integers(500, 600)) if order == 2 else draw(st.integers(300, 450)),
        "order": order,
        "m": draw(st.sampled_from([2, 3] if order == 1 else [1, 2])),
        "K": draw(st.sampled_from([1, 4])) if order == 1 else 1,
        "R": None, "alpha": 0.95, "lam": draw(st.sampled_from([0.001, 0.01])), "maxiter": 200,
        "y": "normal", "corr": 0,
        "seed": draw(SMALL_SEEDS), "aseed": draw(SMALL_SEEDS),
        "w": [draw(st.sampled_from([0.0, 0.3, 1.0, -2.0])) for _ in range(d)],
        "q": [draw(st.sampled_from([0.0, 0.5, -1.0])) for _ in range(d)],
        "inter": draw(st.sampled_from([0.0, 1.0, -3.0])),
        "scale": draw(st.sampled_from([1.0, 100.0])),
        "shift": draw(st.sampled_from([0.0, 50.0])),
    }


def model(case, U):
    V = 2 * U - 1
    w, q = np.array(case["w"]), np.array(case["q"])
    y = V @ w + (1.5 * V**2 - 0.5) @ q
    if case["order"] == 2:
        y = y + case["inter"] * V[:, 0] * V[:, -1]
    return case["shift"] + case["scale"] * y


@sub("C20", models(), quick=96, shards=8, rule="the model varies")
def recovery(case, t):
    """For a smooth model within the reach of the expansion, indices are the
    variance shares of its terms and the emulator predicts unseen points."""
    d = case["p"]["num_vars"]
    inter = case["inter"] if case["order"] == 2 else 0.0
    U, X = data(case)
    Y = model(case, U)
    var = np.array([w * w / 3 + q * q / 5 for w, q in zip(case["w"], case["q"])])
    vi = inter**2 / 9
    tot = var.sum() + vi
    if tot < 0.05:
        return
    Si = call(case, X, Y)
    tt = terms(d, case["order"])
    share = np.zeros(len(tt))
    share[:d] = var / tot
    if case["order"] == 2:
        share[tt.index((0, d - 1))] = vi / tot
    S = np.asarray(Si["S"], dtype=float)
    require(np.abs(S - share).max() < 0.13, "S {} but the variance shares are {}", np.round(S, 3), np.round(share, 3))
    ST = np.asarray(Si["ST"], dtype=float)[:d]
    ref = np.array([sum(s for s, u in zip(share, tt) if i in u) for i in range(d)])
    require(np.abs(ST - ref).max() < 0.2, "ST {} but expected {}", np.round(ST, 3), np.round(ref, 3))
    require(abs(Si["S_sum"] - 1) < 0.12, "indices sum to {}", Si["S_sum"])
    V, Xt = data(case, n=200, salt=9)
    inside = np.all((Xt > X.min(0)) & (Xt < X.max(0)), axis=1)
    Si.emulate(Xt[inside])
    err = np.var(Si["emulated"] - model(case, V)[inside]) / (tot * case["scale"] ** 2)
    require(err < 0.06, "emulator leaves {} of the variance of unseen points", err)
    bias = abs(np.mean(Si["emulated"] - model(case, V)[inside])) / (np.sqrt(tot) * case["scale"])
    require(bias < 0.15, "emulator is biased by {} standard deviations", bias)
    t.nontrivial()


BAD = [
    {"maxorder": 0}, {"maxorder": 4}, {"maxiter": 0}, {"maxiter": 1001}, {"m": 0}, {"m": 11},
    {"K": 0}, {"K": 101}, {"R": 299}, {"R": "N+1"}, {"alpha": 0.49}, {"alpha": 1.01},
    {"lambdax": -0.1}, {"lambdax": 10.5}, {"N": 299}, {"d": 1}, {"Y": "short"}, {"Y": "wide"},
    {"d": 2, "maxorder": 3},
]


@sub("C20", cases(), quick=24, rule="every case (all invalid settings are tried)")
def rejects(case, t):
    """Settings outside the documented ranges are rejected; N=300 is enough."""
    for bad in BAD:
        refused({**case, "bad": bad}, t)


def refused(case, t):
    p, bad = case["p"], dict(case["bad"])
    N = bad.pop("N", case["N"])
    d = bad.pop("d", p["num_vars"])
    yk = bad.pop("Y", None)
    if bad.get("R") == "N+1":
        bad["R"] = N + 1
    r = rng(case["seed"])
    X = r.random((N, d))
    Y = r.normal(size=N)
    if yk == "short":
        Y = Y[:-1]
    elif yk == "wide":
        Y = np.column_stack([Y, Y])
    q = {"num_vars": d, "names": ["a", "b", "c", "d"][:d], "bounds": [[0, 1]] * d}
    kw = dict(maxorder=1, K=2, m=1, seed=1)
    kw.update(bad)
    from SALib.analyze import hdmr

    try:
        hdmr.analyze(q, X, Y, **kw)
    except RuntimeError:
        t.nontrivial()
        return
    fail("accepted {} with {} samples of {} inputs", case["bad"], N, d)


@sub("C20", cases(), quick=64, shards=8, rule="several bootstraps")
def reproducible(case, t):
    """Seeded bootstraps repeat; a ProblemSpec keeps its definition and gains
    the results."""
    from SALib import ProblemSpec

    U, X = data(case)
    Y = outputs(case, U)
    c = {**case, "K": 3}
    a = call(c, X, Y)
    np.random.seed(3)
    b = call(c, X, Y)
    for k in ("S", "Sa", "Sb", "S_conf", "ST", "select"):
        same(np.asarray(a[k], float), np.asarray(b[k], float), "repeat of " + k)
    if case["R"] != case["N"]:
        e = call({**c, "aseed": case["aseed"] + 1}, X, Y)
        require(not np.array_equal(np.asarray(a["idx"]), np.asarray(e["idx"])), "seed has no effect")
    sp = ProblemSpec(mk(case["p"]))
    sp.set_samples(X.copy()).set_results(Y.copy())
    sp.analyze_hdmr(**kwargs(c))
    for k in ("names", "bounds", "num_vars"):
        require(sp[k] == case["p"][k], "ProblemSpec {} became {}", k, sp[k])
    for k in ("S", "ST", "S_conf"):
        same(np.asarray(sp.analysis[k], float), np.asarray(a[k], float), "ProblemSpec " + k)
    t.nontrivial()
