"""Names, units and the way a problem is written down are labels only."""

import importlib

import numpy as np
from hypothesis import strategies as st

from checks.c22 import agree
from checks.c31 import analyzer
from checks import c22
from vlib.core import fail, require, sub
from vlib.gen import SMALL_SEEDS, group_list, mk, mk_y, problems, rng

RULE = "Random problems (distributions, groups), every sampler with every analyzer that accepts its samples, and random changes of names, units or notation; non-trivial = at least 2 inputs and an output that varies."

CHAINS = [("sobol", "sobol"), ("saltelli", "sobol"), ("sobol", "rbd_fast"), ("latin", "rbd_fast"), ("latin", "delta"), ("latin", "pawn"), ("latin", "rsa"), ("latin", "rsa_x"),
          ("latin", "discrepancy"), ("latin_big", "hdmr"), ("latin_big", "enhanced_hdmr"), ("latin_big", "enhanced_plain"), ("fast_sampler", "fast"), ("morris", "morris"), ("morris", "morris_scaled"),
          ("morris_opt", "morris"), ("finite_diff", "dgsm"), ("ff", "ff"), ("saltelli", "pawn"), ("saltelli", "delta")]
GROUPED = {"sobol", "saltelli", "latin", "morris", "morris_opt"}
GROUPED_AN = {"sobol", "morris", "pawn", "rsa", "rsa_x", "discrepancy"}
NODIST = {"dgsm", "ff", "discrepancy"}
FINITE = ["unif", "triang", "triang2", "truncnorm", "logunif"]
LABELS = {"names", "Term", "names/p", "interaction_names"}


def draw_for(s, p, seed):
    from SALib.sample import fast_sampler, ff, finite_diff, latin, morris, saltelli, sobol

    return {
        "sobol": lambda: sobol.sample(p, 16, seed=seed),
        "saltelli": lambda: saltelli.sample(p, 16),
        "latin": lambda: latin.sample(p, 120, seed=seed),
        "latin_big": lambda: latin.sample(p, 300, seed=seed),
        "fast_sampler": lambda: fast_sampler.sample(p, 90, M=4, seed=seed),
        "morris": lambda: morris.sample(p, 8, num_levels=4, seed=seed),
        "morris_opt": lambda: morris.sample(p, 6, num_levels=4, optimal_trajectories=3, seed=seed),
        "finite_diff": lambda: finite_diff.sample(p, 16),
        "ff": lambda: ff.sample(p, seed=seed),
    }[s]()


def run(a, p, X, Y, seed=3):
    mod, kw, withx = analyzer(a)
    f = importlib.import_module("SALib.analyze." + mod).analyze
    if a == "ff":
        kw = dict(second_order=True)
    return f(p, X.copy(), Y.copy(), seed=seed, **kw) if withx else f(p, Y.copy(), seed=seed, **kw)


@st.composite
def base(draw, chains=CHAINS, groups=True, **over):
    s, a = draw(st.sampled_from(chains))
    p = draw(problems(2, 4, groups=groups and s in GROUPED and a in GROUPED_AN, dists=a not in NODIST and over.get("dists", True), kinds=over.get("kinds")))
    return {"s": s, "a": a, "p": p, "y": draw(st.sampled_from(["normal", "func", "skew"])), "seed": draw(SMALL_SEEDS), "dseed": draw(SMALL_SEEDS)}


# ------------------------------------------------------------------- names
STYLES = ["plain", "sorted", "reverse", "prefix", "unicode", "keywords", "spaces", "numbers", "long"]


def rename(style, n, seed):
    """n distinct names"""
    k = rng(seed).permutation(n)
    if style == "plain":
        return ["v%d" % i for i in k]
    if style == "sorted":
        return ["a%02d" % i for i in range(n)]
    if style == "reverse":
        return ["z%02d" % (99 - i) for i in range(n)]
    if style == "prefix":
        return ["a" * (i + 1) for i in k]
    if style == "unicode":
        return ["θ%s" % "αβγδεζηλμνξπρσ"[i] for i in k]
    if style == "keywords":
        return [["groups", "dists", "S1", "Y", "mu", "None", "nan", "X", "num_vars", "0"][i] for i in k]
    if style == "spaces":
        return ["k %d (1/s) %% {x}" % i for i in k]
    if style == "numbers":
        return ["%d" % (10 - i) for i in k]
    return ["parameter_%s_%d" % ("x" * 80, i) for i in k]


@st.composite
def named(draw):
    c = draw(base())
    c["style"] = draw(st.sampled_from(STYLES))
    c["gstyle"] = draw(st.sampled_from(STYLES))
    c["nseed"] = draw(SMALL_SEEDS)
    return c


def relabelled(obj, table):
    """The result with the old labels replaced"""
    if isinstance(obj, str):
        return table.get(obj, obj)
    if isinstance(obj, (list, tuple)):
        return [relabelled(x, table) for x in obj]
    return obj


def numbers(Si):
    """Flat dictionary of the numeric results"""
    out = {}

    def walk(k, v):
        if k.split("/")[-1] in LABELS | {"RT", "X", "Y", "hdmr", "problem"} or k.startswith("Em/idx"):
            return
        if isinstance(v, dict):
            for kk in v:
                walk("%s/%s" % (k, kk), v[kk])
            return
        if isinstance(v, np.ma.MaskedArray):
            v = v.filled(np.nan)
        try:
            a = np.asarray(v, dtype=float)
        except (TypeError, ValueError):
            return
        out[k] = a

    for k in Si:
        walk(str(k), Si[k])
    return out


def compare(a, b, what, rtol=1e-9, atol=1e-12, keys=None, skip=()):
    A, B = numbers(a), numbers(b)
    require(set(A) == set(B) or keys is not None, "{}: results {} became {}", what, sorted(A), sorted(B))
    for k in keys or A:
        if k in skip:
            continue
        x, y = A[k], B[k]
        require(x.shape == y.shape, "{}: shape of {}", what, k)
        ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True) | ((x == y))
        require(np.all(ok), "{}: {} was {} and is {}", what, k, x.ravel()[~np.atleast_1d(ok).ravel()][:3], y.ravel()[~np.atleast_1d(ok).ravel()][:3])


def labels(Si):
    for k in ("Term", "names"):
        if k in Si:
            return list(Si[k])
    return None


@sub("C32", named(), quick=600, rule="the output varies")
def names(case, t):
    """Other names for the inputs and groups, of any kind and in any
    alphabetical order, give the same samples and results under the new names."""
    p, s, a = case["p"], case["s"], case["a"]
    D = p["num_vars"]
    new = rename(case["style"], D, case["nseed"])
    q = mk(p)
    q["names"] = list(new)
    table = dict(zip(p["names"], new))
    if "groups" in p:
        order, memb = group_list(p)
        gnew = rename(case["gstyle"], len(order), case["nseed"] + 1)
        q["groups"] = [gnew[i] for i in memb]
        table = dict(zip(order, gnew))
    X = draw_for(s, mk(p), case["seed"])
    q2 = mk(q)
    Z = draw_for(s, q2, case["seed"])
    require(X.shape == Z.shape and np.array_equal(X, Z, equal_nan=True), "{}: other samples under other names", s)
    w = [j for j in range(min(D, X.shape[1])) if np.isfinite(X[:, j]).all()]
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, w] if w else None)
    A, B = run(a, mk(p), X, Y), run(a, q, X, Y)
    if a in ("rsa", "rsa_x"):  # one entry per input
        require([str(k) for k in B] == [table.get(str(k), str(k)) for k in A] or case["style"] == "keywords", "results {} became {}", list(A), list(B))
    else:
        compare(A, B, "%s under other names" % a)
    la, lb = labels(A), labels(B)
    if la is not None and a != "ff":
        want = ["/".join(table.get(n, n) for n in str(x).split("/")) for x in la]
        require("/" in "".join(p["names"] + new) or [str(x) for x in lb] == want, "{}: labels {} should be {}", a, lb, want)
    if case["style"] == "keywords" and a in ("rsa", "rsa_x"):
        return  # its result holds one entry per parameter besides its own
    da, db = frames(A), frames(B)
    for x, y in zip(da, db):
        require(x.shape == y.shape, "{}: table of another shape", a)
        u, v = (z.drop(columns="notes", errors="ignore").to_numpy(dtype=float) for z in (x, y))
        require(np.allclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True), "{}: other table under other names", a)
        rows = [lab(i, table) for i in x.index]
        require([lab(i, {}) for i in y.index] == rows or a == "ff", "{}: rows {} should be {}", a, list(y.index), rows)
    t.label(a)
    t.label(case["style"])
    t.nontrivial(Y.std() > 0)


def lab(i, table):
    if isinstance(i, tuple):
        return tuple(table.get(x, x) for x in i)
    if isinstance(i, str):
        return table[i] if i in table else "/".join(table.get(x, x) for x in i.split("/"))
    return i


def frames(Si):
    d = Si.to_df()
    return list(d) if isinstance(d, (list, tuple)) else [d]


# ------------------------------------------------------------------- units
@st.composite
def rescaled(draw):
    c = draw(base(dists=True, kinds=["unif", "norm", "triang", "truncnorm"]))
    D = c["p"]["num_vars"]
    # powers of two change no digit
    c["mul"] = [2.0 ** draw(st.integers(-20, 20)) for _ in range(D)]
    c["add"] = [draw(st.sampled_from([0.0, 0.0, 1.0, -3.5, 100.0])) for _ in range(D)]
    return c


def other_units(p, mul, add):
    q = mk(p)
    ds = p.get("dists") or ["unif"] * p["num_vars"]
    for j, (d, b) in enumerate(zip(ds, p["bounds"])):
        m, c = mul[j], add[j]
        if d == "unif":
            q["bounds"][j] = [m * b[0] + c, m * b[1] + c]
        elif d == "norm":
            q["bounds"][j] = [m * b[0] + c, m * b[1]]
        elif d == "triang":
            q["bounds"][j] = [m * b[0] + c, m * b[1] + c, b[2]]
        else:
            q["bounds"][j] = [m * b[0] + c, m * b[1] + c, m * b[2] + c, m * b[3]]
    return q


@sub("C32", rescaled(), quick=600, rule="the output varies")
def units(case, t):
    """The same model in other units (bounds and distributions moved along)
    gets the correspondingly moved samples and the same indices."""
    p, s, a = case["p"], case["s"], case["a"]
    D = p["num_vars"]
    mul = np.array(case["mul"])
    lo = np.array([b[0] for b in p["bounds"]])
    hi = np.array([b[1] for b in p["bounds"]])
    add = np.array(case["add"])
    if s == "finite_diff" or a == "delta":  # (delta treats values up to zero apart)
        add = 0 * add  # its steps are fractions of the values
    # an offset far larger than the range would round the values away
    ds = p.get("dists") or ["unif"] * D
    w = np.array([b[1] if d == "norm" else b[3] if d == "truncnorm" else b[1] - b[0] for d, b in zip(ds, p["bounds"])]) * mul
    add = np.where(np.abs(add) + np.abs(lo) * mul < 1e5 * w, add, 0.0)
    q = other_units(p, mul, add)
    X = draw_for(s, mk(p), case["seed"])
    Z = draw_for(s, mk(q), case["seed"])
    require(X.shape == Z.shape, "{}: {} samples became {}", s, X.shape, Z.shape)
    shifted = bool(np.any(add != 0)) or (ds and "truncnorm" in ds)
    want = X[:, :D] * mul + add
    f = np.isfinite(want)
    tol = 1e-9 * (np.abs(add) + np.max(np.abs(np.where(f, want, 0)), axis=0))
    ok = (np.abs(np.where(f, Z[:, :D], 0) - np.where(f, want, 0)) <= tol) & (f | (Z[:, :D] == want))
    require(np.all(ok), "{}: samples do not follow the units", s)
    cols = [j for j in range(D) if np.isfinite(X[:, j]).all()]
    if len(cols) < D and a not in ("sobol", "fast"):
        return
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, cols] if cols else None)
    A = run(a, mk(p), X, Y)
    B = run(a, mk(q), Z, Y)
    tol = 1e-9 if not shifted else 1e-6
    if a == "dgsm":
        keys = ["dgsm", "dgsm_conf"]
        v, w = np.asarray(A["vi"]), np.asarray(B["vi"]) * mul**2
        require(np.allclose(v, w, rtol=1e-6), "vi {} does not follow the units: {}", v, w)
        tol = 1e-6
    elif "hdmr" in a or "enhanced" in a:
        keys = ["S", "Sa", "Sb", "ST"]
        tol = max(tol, 1e-5)
    elif a in ("rsa_x", "morris_scaled"):
        keys, tol = None, max(tol, 1e-6)
    else:
        keys = None
    compare(A, B, "%s in other units" % a, rtol=tol, atol=tol, keys=keys)
    t.label(a)
    t.nontrivial(Y.std() > 0)


# ------------------------------------------------------------ output units
LINEAR = {"mu", "mu_star", "sigma", "mu_star_conf", "ME", "IE"}
SQUARED = {"vi", "vi_std"}
SIGNED = {"mu", "ME", "IE"}


@st.composite
def output_rescaled(draw):
    c = draw(base([x for x in CHAINS if x[1] not in ("hdmr", "enhanced_plain")]))  # these iterate up to an absolute change
    c["k"] = draw(st.one_of(st.integers(-12, 12), st.integers(-12, 12), st.integers(-120, 120)))
    c["sign"] = draw(st.sampled_from([1, 1, -1]))
    return c


@sub("C32", output_rescaled(), quick=500, rule="other units and an output that varies")
def output_units(case, t):
    """The output in other units (and for methods that treat both directions
    alike, of the other sign) has the same indices without units, and others in
    proportion."""
    p, s, a = case["p"], case["s"], case["a"]
    D = p["num_vars"]
    X = draw_for(s, mk(p), case["seed"])
    cols = [j for j in range(D) if np.isfinite(X[:, j]).all()]
    if len(cols) < D and a not in ("sobol", "fast"):
        return
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, cols] if cols else None)
    m = 2.0 ** case["k"]  # changes no digit
    sg = case["sign"] if a in ("sobol", "fast", "rbd_fast", "dgsm", "morris", "morris_scaled", "ff") else 1
    A = run(a, mk(p), X, Y)
    B = run(a, mk(p), X, sg * m * Y)
    want = {}
    for k, v in A.items():
        if k in LINEAR and a != "morris_scaled":
            f = m
        elif k in SQUARED:
            f = m * m
        else:
            f = 1
        if k in SIGNED:
            f = f * sg
        want[k] = f * np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) if k in LINEAR | SQUARED else v
    tol = 1e-5 if "enhanced" in a else 1e-9
    for k in LINEAR | SQUARED:
        if k in want:
            x, y = np.asarray(want.pop(k), dtype=float), np.ma.filled(np.ma.asarray(B.pop(k), dtype=float), np.nan)
            f = np.nanmax(np.abs(x), initial=0) * 1e-9
            require(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=f, equal_nan=True), "{}: {} of {} times the output is {}, not {}", a, k, sg * m, y, x)
    compare(want, B, "%s of the output times %s" % (a, sg * m), rtol=tol, atol=tol, keys=["S", "Sa", "Sb", "ST"] if "enhanced" in a else None)
    t.label(a)
    t.nontrivial(Y.std() > 0 and sg * m != 1)


# ---------------------------------------------------------------- notation
FORMS = ["ints", "float-int", "tuple", "array", "npfloat", "unif-dists", "none-dists", "none-groups", "own-groups", "own-groups-2", "extra", "spec", "string-array", "num_vars"]


@st.composite
def forms(draw):
    c = draw(base(groups=False))
    c["form"] = draw(st.sampled_from(FORMS))
    return c


@sub("C32", forms(), quick=600, rule="the output varies")
def notation(case, t):
    """Whole numbers or floats, lists, tuples or arrays, missing or trivial
    groups and distributions, further entries and ProblemSpec make no
    difference."""
    p, s, a, form = mk(case["p"]), case["s"], case["a"], case["form"]
    D = p["num_vars"]
    q = mk(p)
    own = False
    if form in ("ints", "float-int"):
        p.pop("dists", None)
        p["bounds"] = [[float(-j - 1), float(3 * j + 2)] for j in range(D)]
        q = mk(p)
        q["bounds"] = [[-j - 1, 3 * j + 2] for j in range(D)]
        if form == "float-int":
            q["bounds"] = [[b[0], float(b[1])] for b in q["bounds"]]
    elif form == "tuple":
        q["bounds"] = [tuple(b) for b in q["bounds"]]
        q["names"] = tuple(q["names"])
    elif form == "array":
        if len({len(b) for b in q["bounds"]}) == 1:
            q["bounds"] = np.array(q["bounds"], dtype=float)
    elif form == "npfloat":
        q["bounds"] = [[np.float64(x) for x in b] for b in q["bounds"]]
    elif form == "string-array":
        q["names"] = np.array(q["names"])
        q["bounds"] = [np.array(b, dtype=float) for b in q["bounds"]]
    elif form == "unif-dists":
        p.pop("dists", None)
        p["bounds"] = [[b[0], b[1]] if b[1] > b[0] else [b[0], b[0] + 1] for b in p["bounds"]]
        q = mk(p)
        q["dists"] = ["unif"] * D
    elif form == "none-dists":
        if "dists" in p:
            return
        q["dists"] = None
    elif form == "none-groups":
        q["groups"] = None
    elif form in ("own-groups", "own-groups-2"):
        if s not in GROUPED or a not in GROUPED_AN:
            return
        own = True
        q["groups"] = list(q["names"]) if form == "own-groups" else ["g%d" % (D - j) for j in range(D)]
    elif form == "extra":
        q["comment"] = "anything"
        q["units"] = ["m"] * D
    elif form == "spec":
        from SALib import ProblemSpec

        q = ProblemSpec(q)
    elif form == "num_vars":
        q["num_vars"] = np.int64(D)
    X = draw_for(s, mk(p), case["seed"])
    q1 = q if form == "spec" else mk(q)
    Z = draw_for(s, q1, case["seed"])
    require(X.shape == Z.shape and (np.array_equal(X, Z, equal_nan=True) or (form == "unif-dists" and np.allclose(X, Z, rtol=1e-12, atol=0))), "{}: other samples for {}", s, form)
    cols = [j for j in range(D) if np.isfinite(X[:, j]).all()]
    if len(cols) < D and a == "morris_scaled":
        return
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, cols] if cols else None)
    A, B = run(a, mk(p), X, Y), run(a, q, Z, Y)
    if own and a in ("rsa", "rsa_x"):
        x, y = A.to_df().to_numpy(dtype=float), B.to_df().to_numpy(dtype=float)
        require(np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True), "{}: other results for {}", a, form)
    elif own:
        compare(A, B, "%s for %s" % (a, form), keys=[k for k in numbers(A) if k not in ("sigma", "mu", "mu_star", "mu_star_conf") or k in numbers(B)], skip=("mu", "sigma"))
    else:
        compare(A, B, "%s for %s" % (a, form))
        require(labels(A) == labels(B), "{}: labels {} became {}", a, labels(A), labels(B))
    t.label(form)
    t.label(a)
    t.nontrivial(Y.std() > 0)


@st.composite
def group_forms(draw):
    c = draw(base(chains=[x for x in CHAINS if x[0] in GROUPED and x[1] in GROUPED_AN]))
    c["names"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["groups"] = draw(st.sampled_from(["tuple", "array", "objects"]))
    # a few in groups by their own names
    c["own"] = draw(st.sampled_from([False, False, True]))
    return c


WRITTEN = {"list": list, "tuple": tuple, "array": np.array, "objects": lambda x: np.array(x, dtype=object)}


@sub("C32", group_forms(), quick=300, rule="more than one group")
def group_notation(case, t):
    """Names and groups in lists, tuples or arrays make no difference."""
    p, s, a = mk(case["p"]), case["s"], case["a"]
    if case["own"]:
        p["groups"] = list(p["names"])
    if not p.get("groups"):
        p["groups"] = ["G%d" % (j % 2) for j in range(p["num_vars"])]
    q = mk(p)
    q["names"], q["groups"] = WRITTEN[case["names"]](p["names"]), WRITTEN[case["groups"]](p["groups"])
    X, Z = draw_for(s, mk(p), case["seed"]), draw_for(s, mk(q), case["seed"])
    require(X.shape == Z.shape and np.array_equal(X, Z, equal_nan=True), "{}: other samples for groups in {}", s, case["groups"])
    cols = [j for j in range(X.shape[1]) if np.isfinite(X[:, j]).all()]
    if len(cols) < X.shape[1] and a == "morris_scaled":
        return
    Y = mk_y(case["y"], case["dseed"], len(X), X[:, cols] if cols else None)
    A, B = run(a, mk(p), X, Y), run(a, mk(q), Z, Y)
    compare(A, B, "%s for groups in %s" % (a, case["groups"]))
    require(labels(A) == labels(B), "{}: labels {} became {}", a, labels(A), labels(B))
    from SALib import ProblemSpec

    sp = ProblemSpec(mk(q))
    sp.set_samples(X).set_results(Y)
    if len(set(p["groups"])) > 1 and a in ("pawn", "rsa", "sobol"):
        kw = {"pawn": {"S": 5}, "rsa": {"bins": 5}, "sobol": {"num_resamples": 3, "seed": 1}}[a]
        getattr(sp, "analyze_" + a)(**kw)
        ref = ProblemSpec(mk(p)).set_samples(X).set_results(Y)
        getattr(ref, "analyze_" + a)(**kw)
        compare(ref.analysis, sp.analysis, "%s of a ProblemSpec with groups in %s" % (a, case["groups"]))
    t.label(a)
    t.nontrivial(len(set(p["groups"])) > 1)


# --------------------------------------------------- order of declaration
ORDER_AN = [("sobol", "sobol"), ("saltelli", "sobol"), ("latin", "rbd_fast"), ("latin", "pawn"), ("latin", "rsa"), ("latin", "rsa_x"), ("latin", "discrepancy"), ("morris", "morris"),
            ("morris", "morris_scaled"), ("finite_diff", "dgsm"), ("latin_big", "hdmr"), ("latin_big", "enhanced_hdmr")]
POINT = {"sobol": ["S1", "ST"], "rbd_fast": ["S1"], "pawn": None, "discrepancy": ["s_discrepancy"], "morris": ["mu", "mu_star", "sigma"], "morris_scaled": ["mu", "mu_star", "sigma"],
         "dgsm": ["vi", "vi_std", "dgsm"], "hdmr": ["S", "ST"], "enhanced_hdmr": ["S", "ST"]}


@st.composite
def reordered(draw):
    c = draw(base(chains=ORDER_AN, kinds=FINITE))
    c["perm"] = draw(st.permutations(list(range(c["p"]["num_vars"]))))
    return c


def permuted_data(case):
    """The sample of `p` and the same runs written for the permuted problem
    (methods whose rows belong to particular inputs get them moved along)."""
    p, s, perm = case["p"], case["s"], case["perm"]
    X = draw_for(s, mk(p), case["seed"])
    q = mk(p)
    for k in ("names", "bounds", "dists", "groups"):
        if k in q:
            q[k] = [p[k][j] for j in perm]
    o1, _ = group_list(p)
    o2, _ = group_list(q)
    rows = np.arange(len(X))
    if s in ("sobol", "saltelli"):
        G = len(o1)
        step = 2 * G + 2
        g = [o1.index(x) for x in o2]
        rows = np.concatenate([k * step + np.array([0] + [1 + i for i in g] + [1 + G + i for i in g] + [2 * G + 1]) for k in range(len(X) // step)])
    elif s == "finite_diff":
        step = p["num_vars"] + 1
        rows = np.concatenate([k * step + np.array([0] + [1 + i for i in perm]) for k in range(len(X) // step)])
    return q, X, rows, [o1.index(x) for x in o2]


@sub("C32", reordered(), quick=400, rule="a real permutation")
def declaration_order(case, t):
    """Declaring the inputs in another order puts the same results in that
    order."""
    p, a, perm = case["p"], case["a"], list(case["perm"])
    q, X, rows, g = permuted_data(case)
    Y = mk_y(case["y"], case["dseed"], len(X), X)
    A = run(a, mk(p), X, Y)
    B = run(a, mk(q), X[rows][:, perm], Y[rows])
    if a in ("rsa", "rsa_x"):
        x, y = A.to_df(), B.to_df()
        o1, o2 = group_list(p)[0], group_list(q)[0]
        for n in o2:
            u, v = x[n].to_numpy(dtype=float), y[n].to_numpy(dtype=float)
            require(np.allclose(u, v, rtol=1e-9, atol=1e-9, equal_nan=True), "{} of {}: {} in another order, {} before", a, n, v, u)
    else:
        keys = POINT[a] or ["minimum", "mean", "median", "maximum", "CV", "stdev"]
        tol = 2e-3 if a == "hdmr" else 1e-5 if "hdmr" in a else 1e-8
        for k in keys:
            u, v = np.asarray(A[k], dtype=float), np.asarray(B[k], dtype=float)
            if k == "sigma" and "groups" in p:
                continue
            require(np.allclose(u[: len(g)][g], v[: len(g)], rtol=tol, atol=tol * max(1e-3, np.nanmax(np.abs(u)) if np.isfinite(u).any() else 0), equal_nan=True),
                    "{}: {} is {} in the order {}, and {} in the order declared first", a, k, v, perm, u)
        if a == "sobol":
            S, T = np.asarray(A["S2"], float), np.asarray(B["S2"], float)
            S, T = np.where(np.isnan(S), S.T, S), np.where(np.isnan(T), T.T, T)
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    # the estimator treats the two inputs of a pair differently
                    if g[i] < g[j]:
                        require(np.isclose(S[g[i], g[j]], T[i, j], rtol=1e-8, atol=1e-8, equal_nan=True), "S2 {} and {}", S, T)
    t.label(a)
    t.nontrivial(perm != sorted(perm))


# ------------------------------------------------------------- number types
@st.composite
def counted(draw):
    m = draw(st.sampled_from([m for m in c22.ANALYZERS if not m.startswith("morris") and m != "sobol_par"]))
    return {"m": m, "p": draw(problems(2, 3, dists=False, groups=False)), "seed": draw(SMALL_SEEDS), "dseed": draw(SMALL_SEEDS), "y": draw(st.sampled_from(["normal", "func", "skew"])),
            "range": draw(st.sampled_from([3, 100, 10**5])), "type": draw(st.sampled_from(["int64", "int32", "uint32"]))}


@sub("C32", counted(), quick=200, rule="the output takes more than two values")
def whole_numbers(case, t):
    """Outputs that are whole numbers (counts) give the same results as integers
    and as floats. (Morris documents that it wants floats.)"""
    m = case["m"]
    X, Y = c22.prepare(case)
    Y = np.round((Y - Y.min()) / (np.ptp(Y) or 1.0) * case["range"])
    A = c22.run_analysis(m, case["p"], X, Y, case["seed"])
    B = c22.run_analysis(m, case["p"], X, Y.astype(case["type"]), case["seed"])
    require(c22.agree(A, B, 1e-7, 1e-8), "{}: other results for outputs of type {}", m, case["type"])
    t.label(m)
    t.nontrivial(len(np.unique(Y)) > 2)
