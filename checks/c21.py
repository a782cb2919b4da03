"""Enhanced HDMR (orthonormal polynomials, D-MORPH) and its emulator."""

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, mk, mk_y, problems, rng, same

RULE = "Random problems (2-4 inputs, independent or correlated samples of 300-400 rows), outputs, orders 1-3, polynomial orders 1-6, extended and plain bases, bootstrap counts, subset sizes; non-trivial = several bootstraps or interactions included."


@st.composite
def cases(draw, kinds=("normal", "func", "func", "skew", "offset", "big")):
    p = draw(problems(2, 4, dists=False, groups=False))
    d = p["num_vars"]
    order = draw(st.sampled_from([1, 2, 2, 3]))
    N = draw(st.integers(300, 400))
    ext = draw(st.booleans())
    po = draw(st.integers(1, 4))
    if order == 1:
        po = draw(st.integers(1, 6))
    if order == 3:
        po = min(po, 2 if d == 4 else 3)
    return {
        "p": p, "N": N, "order": order, "po": po, "ext": ext,
        "K": draw(st.sampled_from([1, 2, 3])),
        "R": draw(st.sampled_from([None, 300, N])),
        "alpha": draw(st.sampled_from([0.95, 0.5, 0.7, 0.99])),
        "l2": draw(st.sampled_from([0.01, 0.0, 1.0, 10.0])),
        "maxiter": draw(st.sampled_from([100, 500, 999])),
        "y": draw(st.sampled_from(list(kinds))),
        "corr": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "seed": draw(SMALL_SEEDS),
        "aseed": draw(SMALL_SEEDS),
    }


def data(case, n=None, salt=0):
    p, N = case["p"], n or case["N"]
    r = rng(case["seed"] + salt)
    d = p["num_vars"]
    U = np.column_stack([(r.permutation(N) + r.random(N)) / N for _ in range(d)])
    U[:, 1] = case["corr"] * U[:, 0] + (1 - case["corr"]) * U[:, 1]
    lo = np.array([b[0] for b in p["bounds"]])
    hi = np.array([b[1] for b in p["bounds"]])
    return U, lo + (hi - lo) * U


def outputs(case, U):
    return mk_y(case["y"], case["seed"] + 1, len(U), U)


def kwargs(case):
    return dict(
        max_order=case["order"], poly_order=case["po"], bootstrap=case["K"], subset=case["R"],
        max_iter=case["maxiter"], l2_penalty=case["l2"], alpha=case["alpha"],
        extended_base=case["ext"], seed=case["aseed"],
    )


def call(case, X, Y, **over):
    from SALib.analyze import enhanced_hdmr

    return enhanced_hdmr.analyze(
        mk(case["p"]), X.copy(), Y.copy(), **{**kwargs(case), "return_emulator": True, **over}
    )


# ---------------------------------------------------------------- reference
def orthopoly(x, po):
    """Polynomials of degree 1..po orthonormal (with 1) over the sample x:
    returns a function evaluating them."""
    lo, w = x.min(), x.max() - x.min()

    def vand(z):
        return np.vander(2 * (z - lo) / w - 1, po + 1, increasing=True)

    Q, R = np.linalg.qr(vand(x) / np.sqrt(len(x)))
    sg = np.sign(np.diag(R))
    Ri = np.linalg.inv(R) * sg
    return lambda z: (vand(z) @ Ri)[:, 1:]


def terms(d, order):
    out = []
    for o in range(1, order + 1):
        out += list(itertools.combinations(range(d), o))
    return out


def prods(P, u):
    b = P[u[0]]
    for j in u[1:]:
        b = (b[:, :, None] * P[j][:, None, :]).reshape(len(b), -1)
    return b


def basis(P, d, order, ext):
    """Columns of every component function; extended bases also hold the
    columns of all nested lower order terms."""
    out = []
    for u in terms(d, order):
        b = []
        if ext:
            for o in range(1, len(u)):
                b += [prods(P, v) for v in itertools.combinations(u, o)]
        out.append(np.column_stack(b + [prods(P, u)]))
    return out


def nested(bs, tt, po):
    """Positions, for every term, of its own columns that repeat nested terms."""
    return [b.shape[1] - po ** len(u) for b, u in zip(bs, tt)]


def fit_extended(bs, tt, po, y):
    """Least squares solution of smallest violation of hierarchical
    orthogonality (columns of a term against its nested columns and 1)."""
    B = np.column_stack(bs)
    n = len(y)
    U, s, Vt = np.linalg.svd(B, full_matrices=True)
    rel = s / s[0]
    if np.any((rel > 1e-9) & (rel < 1e-5)):
        return None
    r = int((rel > 1e-7).sum())
    c = Vt[:r].T @ ((U[:, :r].T @ y) / s[:r])
    Z = Vt[r:].T
    rows, at = [], 0
    for b, u, k in zip(bs, tt, nested(bs, tt, po)):
        w = b.shape[1]
        if len(u) > 1:
            G = np.zeros((k + 1, B.shape[1]))
            G[0, at : at + w] = b.mean(0)
            G[1:, at : at + w] = b[:, :k].T @ b / n
            rows.append(G)
        at += w
    if rows and Z.shape[1]:
        G = np.vstack(rows)
        c = c - Z @ np.linalg.lstsq(G @ Z, G @ c, rcond=1e-9)[0]
    out, at = [], 0
    for b in bs:
        out.append(b @ c[at : at + b.shape[1]])
        at += b.shape[1]
    return out


def fit_plain(bs, tt, y, l2, maxiter):
    """Ridge start, backfitting by least squares until the squared coefficients
    settle; second order on the residual likewise, third order ridge only."""
    n = len(y)
    res = y
    out = []
    for o in (1, 2, 3):
        bb = [b for b, u in zip(bs, tt) if len(u) == o]
        if not bb:
            continue
        xs = [np.linalg.solve(b.T @ b / n + l2 * np.eye(b.shape[1]), b.T @ res / n) for b in bb]
        if o < 3:
            old = np.concatenate(xs) ** 2
            for it in range(maxiter):
                for j, b in enumerate(bb):
                    r = res - sum(bz @ xs[z] for z, bz in enumerate(bb) if z != j)
                    xs[j] = np.linalg.lstsq(b, r, rcond=None)[0]
                new = np.concatenate(xs) ** 2
                delta = np.abs(new - old).max()
                old = new
                if delta < 1e-4:
                    break
            else:
                return None
        F = [b @ x for b, x in zip(bb, xs)]
        out += F
        res = res - sum(F)
    return out


@sub("C21", cases(), quick=280, shards=8, rule="interactions or several bootstraps")
def decomposition(case, t):
    """Sensitivity indices, half-widths and F-test shares are those of the
    covariance decomposition of the fitted component functions, the fit being
    least squares with hierarchical orthogonality on the reported subsets."""
    p, N, d, K, po = case["p"], case["N"], case["p"]["num_vars"], case["K"], case["po"]
    order = min(case["order"], 2) if d == 2 else case["order"]
    U, X = data(case)
    Y = outputs(case, U)
    Si = call(case, X, Y)
    h = Si["hdmr"]
    R = N if K == 1 else (case["R"] or N // 2)
    idx = np.asarray(h.idx)
    require(idx.shape == (R, K), "subsets of shape {}, expected {}", idx.shape, (R, K))
    for k in range(K):
        require(len(set(idx[:, k].tolist())) == R and idx.min() >= 0 and idx.max() < N, "subset {}", k)
    if K > 1 and R < N:
        require(not np.array_equal(np.sort(idx[:, 0]), np.sort(idx[:, 1])), "same subset twice")
    tt = terms(d, order)
    names = p["names"]
    require(list(Si["Term"]) == ["/".join(names[j] for j in u) for u in tt], "terms {}", Si["Term"])
    P = [orthopoly(X[:, j], po)(X[:, j]) for j in range(d)]
    Bs = basis(P, d, order, case["ext"])
    S, Sa, Sb = (np.zeros((len(tt), K)) for _ in range(3))
    lo, hi = np.zeros(len(tt)), np.zeros(len(tt))
    for k in range(K):
        ii = idx[:, k]
        b = [B[ii] for B in Bs]
        y = Y[ii] - Y[ii].mean()
        if case["ext"]:
            F = fit_extended(b, tt, po, y)
        else:
            F = fit_plain(b, tt, y, case["l2"], case["maxiter"])
        if F is None:
            t.label("undecided fit")
            return
        F = np.column_stack(F)
        V = np.var(y)
        tot = F.sum(1)
        for j in range(len(tt)):
            f = F[:, j] - F[:, j].mean()
            S[j, k] = np.mean(f * y) / V
            Sa[j, k] = np.var(f) / V
            rest = tot - F[:, j]
            Sb[j, k] = np.mean(f * (rest - rest.mean())) / V
            n = b[j].shape[1]
            s0, s1 = np.sum(y**2), np.sum((y - F[:, j]) ** 2)
            if s1 > 1e-9 * s0 and R > n:
                fs = ((s0 - s1) / n) / (s1 / (R - n))
                crit = stats.f.ppf(case["alpha"], n, R - n)
                lo[j] += fs > crit * (1 + 1e-5) + 1e-5
                hi[j] += fs > crit * (1 - 1e-5) - 1e-5
            else:
                hi[j] += 1
    tol = 2.5 / R
    z = stats.norm.ppf(0.5 + case["alpha"] / 2)

    def cmp(key, ref):
        same(np.asarray(Si[key], dtype=float), ref, key, rtol=tol + 1e-5, atol=2e-5)

    for key, M in (("S", S), ("Sa", Sa), ("Sb", Sb)):
        cmp(key, M.mean(1))
        cmp(key + "_sum", M.sum(0).mean())
        cmp(key + "_conf", z * M.std(1))
        cmp(key + "_sum_conf", z * M.sum(0).std())
    ST = np.array([S[[j for j, u in enumerate(tt) if i in u]].sum(0) for i in range(d)])
    full = np.full(len(tt), np.nan)
    full[:d] = ST.mean(1)
    cmp("ST", full)
    full[:d] = z * ST.std(1)
    cmp("ST_conf", full)
    sg = np.asarray(Si["Signf"], dtype=float) * K / 100
    require(sg.shape == lo.shape and np.all(sg >= lo - 1e-6) and np.all(sg <= hi + 1e-6),
            "significant {} times, F-test gives {}", sg.tolist(), lo.tolist())
    t.label("order%d%s" % (order, "ext" if case["ext"] else ""))
    t.label("underdetermined", case["ext"] and sum(b.shape[1] for b in Bs) > R)
    t.nontrivial(order > 1 or K > 1)


@sub("C21", cases(), quick=120, shards=8, rule="interactions or several bootstraps")
def emulator(case, t):
    """emulate() is the fitted expansion about the mean, evaluated with the
    polynomials of the analysed sample, one row independent of the others."""
    d, po = case["p"]["num_vars"], case["po"]
    order = min(case["order"], 2) if d == 2 else case["order"]
    U, X = data(case)
    Y = outputs(case, U)
    Si = call({**case, "K": 1}, X, Y)
    sc = np.abs(Y - Y.mean()).max()
    own = np.asarray(Si.emulate(X.copy()))
    # fitted values on the sample: the same expansion by independent fits
    P = [orthopoly(X[:, j], po) for j in range(d)]
    tt = terms(d, order)
    b = basis([P[j](X[:, j]) for j in range(d)], d, order, case["ext"])
    y = Y - Y.mean()
    if case["ext"]:
        F = fit_extended(b, tt, po, y)
    else:
        F = fit_plain(b, tt, y, case["l2"], case["maxiter"])
    if F is not None:
        same(own, np.sum(F, axis=0), "emulation of the analysed sample", rtol=1e-5, atol=1e-5 * sc)
    # new points: the fit is a function in the span of the product polynomials
    V, Xt = data(case, n=37, salt=5)
    Xt = np.clip(Xt, X.min(0), X.max(0))
    B = np.column_stack(basis([P[j](X[:, j]) for j in range(d)], d, order, False))
    Bt = np.column_stack(basis([P[j](Xt[:, j]) for j in range(d)], d, order, False))
    s = np.linalg.svd(B, compute_uv=False)
    new = np.asarray(Si.emulate(Xt.copy()))
    if B.shape[1] < len(X) and s[-1] > 1e-3 * s[0]:
        c = np.linalg.lstsq(B, own, rcond=None)[0]
        same(new, Bt @ c, "emulation of new points", rtol=1e-5, atol=1e-6 * sc)
        t.label("new points")
    same(Si.emulate(Xt[3:8].copy()), new[3:8], "the same points emulated alone", rtol=1e-8, atol=1e-8 * sc)
    c = dict(case)
    c["K"] = 3
    S3 = call(c, X, Y)
    idx = np.asarray(S3["hdmr"].idx)
    mean = 0
    for k in range(3):
        bk = [v[idx[:, k]] for v in b]
        yk = Y[idx[:, k]] - Y[idx[:, k]].mean()
        Fk = fit_extended(bk, tt, po, yk) if case["ext"] else fit_plain(bk, tt, yk, case["l2"], case["maxiter"])
        Bk = B[idx[:, k]]
        s = np.linalg.svd(Bk, compute_uv=False)
        if Fk is None or Bk.shape[1] >= len(Bk) or s[-1] < 1e-3 * s[0]:
            break
        mean = mean + np.linalg.lstsq(Bk, np.sum(Fk, axis=0), rcond=None)[0] / 3
    else:
        same(S3.emulate(Xt.copy()), Bt @ mean, "emulation by the mean of several fits", rtol=1e-5, atol=2e-6 * sc)
        t.label("mean of fits")
    df = S3.to_df()
    require(list(df.index) == list(S3["Term"]), "to_df index")
    for k in ("Sa", "Sb", "S", "ST"):
        same(df[k].to_numpy(dtype=float), S3[k], "to_df " + k)
        same(df[k + "_conf"].to_numpy(dtype=float), S3[k + "_conf"], "to_df conf " + k)
    t.nontrivial(order > 1)


@st.composite
def models(draw):
    d = draw(st.integers(2, 4))
    return {
        "p": draw(problems(d, d, dists=False, groups=False)),
        "N": draw(st.integers(400, 500)),
        "order": draw(st.sampled_from([1, 2, 2, 3])), "po": draw(st.sampled_from([2, 3])),
        "ext": draw(st.booleans()), "K": 1, "R": None,
        "alpha": 0.95, "l2": 0.01, "maxiter": 500, "y": "normal", "corr": 0.0,
        "seed": draw(SMALL_SEEDS), "aseed": draw(SMALL_SEEDS),
        "w": [draw(st.sampled_from([0.0, 0.3, 1.0, -2.0])) for _ in range(d)],
        "q": [draw(st.sampled_from([0.0, 0.5, -1.0])) for _ in range(d)],
        "inter": draw(st.sampled_from([0.0, 1.0, -3.0])),
        "scale": draw(st.sampled_from([1.0, 100.0])),
        "shift": draw(st.sampled_from([0.0, 50.0])),
    }


def model(case, U):
    V = 2 * U - 1
    y = V @ np.array(case["w"]) + (1.5 * V**2 - 0.5) @ np.array(case["q"])
    if case["order"] >= 2:
        y = y + case["inter"] * V[:, 0] * V[:, -1]
    return case["shift"] + case["scale"] * y


@sub("C21", models(), quick=96, shards=8, rule="the model varies")
def recovery(case, t):
    """For a polynomial within the reach of the expansion, indices are the
    variance shares of its terms, and the emulator predicts unseen points."""
    d = case["p"]["num_vars"]
    if case["order"] == 3 and (d == 2 or case["po"] == 3):
        case = {**case, "order": 2}
    inter = case["inter"] if case["order"] >= 2 else 0.0
    U, X = data(case)
    Y = model(case, U)
    var = np.array([w * w / 3 + q * q / 5 for w, q in zip(case["w"], case["q"])])
    tot = var.sum() + inter**2 / 9
    if tot < 0.05:
        return
    Si = call(case, X, Y)
    tt = terms(d, case["order"])
    # variance shares of the true components over this sample
    V = 2 * U - 1
    comp = {(i,): case["w"][i] * V[:, i] + case["q"][i] * (1.5 * V[:, i] ** 2 - 0.5) for i in range(d)}
    comp[(0, d - 1)] = inter * V[:, 0] * V[:, -1]
    y = (Y - Y.mean()) / case["scale"]
    share = np.array([np.mean(comp.get(u, 0.0) * y) / np.var(y) for u in tt])
    S = np.asarray(Si["S"], dtype=float)
    require(np.abs(S - share).max() < 0.2, "S {} but the variance shares are {}", np.round(S, 3), np.round(share, 3))
    V, Xt = data(case, n=100, salt=9)
    inside = np.all((Xt > X.min(0)) & (Xt < X.max(0)), axis=1)
    ref = model(case, V)[inside]
    e = Si.emulate(Xt[inside]) + Y.mean() - ref
    if case["ext"]:
        require(abs(Si["S_sum"] - 1) < 0.06, "indices sum to {}", Si["S_sum"])
        err = np.mean(e**2) / (tot * case["scale"] ** 2)
        require(err < 0.06, "emulator misses {} of the variance of unseen points", err)
    t.nontrivial()


BAD = [
    {"max_order": 0}, {"max_order": 4}, {"max_iter": 0, "extended_base": False},
    {"max_iter": 1001, "extended_base": False}, {"poly_order": 0}, {"poly_order": 11},
    {"bootstrap": 0}, {"bootstrap": 101}, {"subset": 299}, {"subset": "N+1"}, {"alpha": 0.49},
    {"alpha": 1.01}, {"l2_penalty": -0.1}, {"l2_penalty": 10.5}, {"N": 299}, {"d": 1},
    {"Y": "short"}, {"Y": "wide"}, {"names": 1}, {"bounds": 1}, {"num_vars": 1},
]


@sub("C21", cases(), quick=24, rule="every case (all invalid settings are tried)")
def rejects(case, t):
    """Settings outside the documented ranges are rejected, the limits are
    accepted."""
    for bad in BAD:
        refused({**case, "bad": bad}, t)


def refused(case, t):
    from SALib.analyze import enhanced_hdmr

    p, bad = case["p"], dict(case["bad"])
    N, d = bad.pop("N", case["N"]), bad.pop("d", p["num_vars"])
    yk = bad.pop("Y", None)
    if bad.get("subset") == "N+1":
        bad["subset"] = N + 1
    r = rng(case["seed"])
    X = r.random((N, d))
    Y = r.normal(size=N)
    if yk == "short":
        Y = Y[:-1]
    elif yk == "wide":
        Y = np.column_stack([Y, Y])
    q = {"num_vars": d, "names": ["a", "b", "c", "d"][:d], "bounds": [[0, 1]] * d}
    for k in ("names", "bounds"):
        if bad.pop(k, None):
            q[k] = list(q[k]) + [q[k][0]]
    if bad.pop("num_vars", None):
        q["num_vars"] = d + 1
    kw = dict(max_order=1, bootstrap=2, poly_order=1, seed=1)
    try:
        enhanced_hdmr.analyze(q, X, Y, **{**kw, **bad})
    except (ValueError, RuntimeError):
        t.nontrivial()
    else:
        fail("accepted {} with {} samples of {} inputs", case["bad"], N, d)
    if "max_order" in case["bad"]:
        for lim in ({"max_iter": 1}, {"max_iter": 1000}, {"bootstrap": 1}, {"subset": 300}, {"subset": N},
                    {"alpha": 0.5}, {"l2_penalty": 10}):
            enhanced_hdmr.analyze(q, X, Y, **{**kw, "extended_base": False, **lim})


@sub("C21", cases(), quick=64, shards=8, rule="several bootstraps")
def reproducible(case, t):
    """Seeded bootstraps repeat; the problem and a ProblemSpec are unchanged and
    hold the same results."""
    from SALib import ProblemSpec
    from SALib.analyze import enhanced_hdmr

    U, X = data(case)
    Y = outputs(case, U)
    c = {**case, "K": 3}
    q = mk(case["p"])
    a = enhanced_hdmr.analyze(q, X.copy(), Y.copy(), **kwargs(c), return_emulator=True)
    require(q == case["p"], "the problem became {}", q)
    np.random.seed(3)
    b = call(c, X, Y)
    for k in ("S", "Sa", "Sb", "S_conf", "ST", "Signf"):
        same(np.asarray(a[k], float), np.asarray(b[k], float), "repeat of " + k)
    if case["R"] != case["N"]:
        e = call({**c, "aseed": case["aseed"] + 1}, X, Y)
        require(not np.array_equal(np.asarray(a["hdmr"].idx), np.asarray(e["hdmr"].idx)), "seed has no effect")
    sp = ProblemSpec(mk(case["p"]))
    sp.set_samples(X.copy()).set_results(Y.copy())
    for _ in range(2):
        sp.analyze_enhanced_hdmr(**kwargs(c))
        for k in ("names", "bounds", "num_vars"):
            require(sp[k] == case["p"][k], "ProblemSpec {} became {}", k, sp[k])
        for k in ("S", "ST", "S_conf"):
            same(np.asarray(sp.analysis[k], float), np.asarray(a[k], float), "ProblemSpec " + k)
    t.nontrivial()
