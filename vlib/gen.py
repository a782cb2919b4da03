"""Generators (Hypothesis strategies) for SALib problems and data, and the
builders turning JSON-able cases into arrays."""

import copy

import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2**31 - 1)
SMALL_SEEDS = st.one_of(st.just(0), st.integers(0, 50), SEEDS)


def _r(x):
    return float("%.6g" % x)


@st.composite
def unif_bounds(draw):
    if draw(st.integers(0, 9)) == 0:
        # physical scales: mole fractions, permittivities, Young's moduli
        w = _r(10.0 ** draw(st.sampled_from([-12, -9, -7, 5, 9, 11])))
        lo = _r(w * draw(st.sampled_from([0.0, 1.0, -0.5, 8.0])))
        return [lo, lo + w]
    if draw(st.integers(0, 7)) == 0:  # whole numbers, as Python integers
        lo = draw(st.integers(-20, 20))
        return [lo, lo + draw(st.integers(1, 30))]
    lo = draw(
        st.one_of(
            st.sampled_from([0.0, -1.0, 1.0, -np.pi, 100.0]).map(_r),
            st.floats(-1e3, 1e3).map(_r),
        )
    )
    w = draw(
        st.one_of(
            st.sampled_from([1.0, 2.0, 6.25, 1e-3, 500.0]), st.floats(1e-3, 1e3).map(_r)
        )
    )
    return [lo, _r(lo + w) if _r(lo + w) > lo else lo + w]


@st.composite
def dist_bounds(draw, kinds=None):
    k = draw(
        st.sampled_from(
            kinds
            or ["unif", "norm", "lognorm", "triang", "triang2", "truncnorm", "logunif", "weibull", "weibull2"]
        )
    )
    pos = st.floats(0.05, 20).map(_r)
    if k == "unif":
        return "unif", draw(unif_bounds())
    if k == "norm":
        return "norm", [draw(st.floats(-50, 50).map(_r)), draw(pos)]
    if k == "lognorm":
        return "lognorm", [
            draw(st.floats(-2, 2).map(_r)),
            draw(st.floats(0.05, 2).map(_r)),
        ]
    if k == "triang2":
        return "triang", [draw(pos), draw(st.floats(0.0, 0.99).map(_r))]
    if k == "triang":
        a = draw(st.floats(-20, 20).map(_r))
        b = a + draw(pos)
        if b < 0:
            b = abs(b)
        if b <= a:
            b = a + 1.0
        return "triang", [a, _r(b) if _r(b) > a else b, draw(st.floats(0.0, 0.99).map(_r))]
    if k == "truncnorm":
        m = draw(st.floats(-20, 20).map(_r))
        s = draw(st.floats(0.1, 10).map(_r))
        za = draw(st.one_of(st.floats(-3, 2), st.floats(-8, -3)))
        zb = za + draw(st.one_of(st.floats(0.2, 4), st.floats(4, 14)))
        return "truncnorm", [_r(m + za * s), m + zb * s, m, s]
    if k == "logunif":
        a = draw(st.floats(1e-3, 50).map(_r))
        return "logunif", [a, _r(a * draw(st.floats(1.1, 1000)))]
    if k == "weibull":
        return "weibull", [
            draw(st.floats(0.5, 5).map(_r)),
            draw(pos),
            draw(st.floats(-10, 10).map(_r)),
        ]
    if k == "weibull2":
        return "weibull", [draw(st.floats(0.5, 5).map(_r)), draw(pos)]


NAME_STYLES = ["x%d", "P %d", "alpha_%d", "k%d!", "%d", "x%.0s"]
GROUP_STYLES = ["G%d", "G%d", "grp %d", "%d", "own", "nested", "crossed"]


def _names(style, numbers):
    """Distinct names; the last style makes every name contain the previous one."""
    if style == "x%.0s":
        return ["x" * i for i in numbers]
    return [style % i for i in numbers]


def mostly(base, rare, k=9):
    """`base`, and `rare` once in k + 1."""
    return st.one_of(*[base] * k, rare)


@st.composite
def problems(
    draw,
    min_d=1,
    max_d=6,
    dists=True,
    groups=True,
    min_groups=2,
    force_groups=False,
    kinds=None,
    wide=None,
):
    """A problem spec.  Groups (if present) have >= min_groups distinct names,
    in arbitrary interleaved membership."""
    d = draw(st.integers(min_d, max_d))
    if wide and draw(st.integers(0, 11)) == 0:
        d = draw(st.integers(max_d + 1, wide))
    style = draw(st.sampled_from(NAME_STYLES))
    perm = draw(st.permutations(list(range(d))))
    names = _names(style, [i + 1 for i in perm])
    use_d = dists and draw(st.booleans())
    if use_d and draw(st.integers(0, 5)) == 0:
        # the same distribution for all
        kinds = [draw(st.sampled_from(kinds or ["unif", "norm", "lognorm", "triang", "truncnorm", "logunif", "weibull"]))]
    bounds, ds = [], []
    for _ in range(d):
        if use_d:
            k, b = draw(dist_bounds(kinds))
        else:
            k, b = "unif", draw(unif_bounds())
        bounds.append(b)
        ds.append(k)
    p = {"num_vars": d, "names": names, "bounds": bounds}
    if use_d:
        p["dists"] = ds
    if groups and d >= max(min_groups, 2) and (force_groups or draw(st.booleans())):
        ng = draw(st.integers(min_groups, d))
        memb = list(range(ng)) + [
            draw(st.integers(0, ng - 1)) for _ in range(d - ng)
        ]
        memb = draw(st.permutations(memb))
        gst = draw(st.sampled_from(GROUP_STYLES))
        if gst == "own":
            # groups named after one of their members, as for ungrouped factors
            gs = [names[memb.index(i)] for i in range(ng)]
        elif gst == "crossed":
            # groups named after parameters, not necessarily their members
            gs = draw(st.permutations(names))[:ng]
        elif gst == "nested":
            gs = draw(st.permutations(_names("x%.0s", range(1, ng + 1))))
        else:
            gs = draw(st.permutations(_names(gst, ([1, 10, 100, 11, 2, 3, 4, 5, 6, 7, 8, 9] + list(range(12, 60)))[:ng])))
        p["groups"] = [gs[m] for m in memb]
    return p


def mk(p):
    """Fresh deep copy of the problem dictionary for SALib to use/abuse."""
    q = copy.deepcopy(p)
    return q


def rng(seed):
    return np.random.Generator(np.random.PCG64(int(seed)))


def group_list(p):
    """(ordered unique group names, membership index list) as documented:
    groups default to the parameter names, order of first appearance."""
    g = p.get("groups") or p["names"]
    order = list(dict.fromkeys(g))
    return order, [order.index(x) for x in g]


YKINDS = ["normal", "func", "ties", "skew", "offset", "big", "tiny", "micro"]


def mk_y(kind, seed, n, X=None):
    """Deterministic output vectors of many shapes (pure function of args)."""
    r = rng(seed)
    if kind == "func" and X is not None:
        Xn = np.asarray(X, dtype=float)
        sd = Xn.std(axis=0)
        sd[sd == 0] = 1
        Z = (Xn - Xn.mean(axis=0)) / sd
        w = r.normal(size=Z.shape[1]) * (r.random(Z.shape[1]) < 0.8)
        y = Z @ w + 0.5 * np.sin(Z).sum(axis=1)
        if Z.shape[1] > 1:
            y = y + 0.7 * Z[:, 0] * Z[:, -1]
        return y
    if kind == "ties":
        return r.integers(0, 4, size=n).astype(float)
    if kind == "skew":
        return np.exp(r.normal(size=n) * 1.5)
    if kind == "offset":
        return r.normal(size=n) + 1000.0
    if kind == "big":
        return r.normal(size=n) * 1e6 - 3e5
    if kind == "tiny":
        return r.normal(size=n) * 1e-5
    if kind == "micro":  # mole fractions, concentrations
        return r.normal(size=n) * 1e-11 + 3e-11
    if kind == "const":
        return np.full(n, float(r.integers(-3, 4)))
    return r.normal(size=n)


def close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(
            np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        )
    )


def maxdiff(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s vs %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    if np.isnan(d).any():
        return "nan mismatch: %s vs %s" % (
            np.array2string(a, threshold=12),
            np.array2string(b, threshold=12),
        )
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return "max |diff| %.3g at %s (%r vs %r)" % (
        d.max() if d.size else 0,
        i,
        a[i] if d.size else None,
        b[i] if d.size else None,
    )


def same(a, b, what, rtol=1e-9, atol=1e-12):
    from vlib.core import fail

    if not close(a, b, rtol, atol):
        fail("{}: {}", what, maxdiff(a, b))


def ref_ppf(dist, b, u):
    """Independent quantile functions of the documented distributions."""
    import scipy.special as sc

    u = np.asarray(u, dtype=float)
    if dist == "unif":
        return b[0] + (b[1] - b[0]) * u
    if dist == "logunif":
        return np.exp(np.log(b[0]) + u * (np.log(b[1]) - np.log(b[0])))
    if dist == "norm":
        return b[0] + b[1] * sc.ndtri(u)
    if dist == "lognorm":
        return np.exp(b[0] + b[1] * sc.ndtri(u))
    if dist == "triang":
        if len(b) == 3:
            lo, hi, c = b
        else:
            lo, hi, c = 0.0, b[0], b[1]
        w = hi - lo
        left = lo + w * np.sqrt(c * u)
        right = hi - w * np.sqrt((1 - c) * (1 - u))
        return np.where(u < c, left, right)
    if dist == "truncnorm":
        lo, hi, m, s = b
        fa, fb = sc.ndtr((lo - m) / s), sc.ndtr((hi - m) / s)
        # use the tail with better precision
        if (lo - m) / s > 0:
            ga, gb = sc.ndtr(-(lo - m) / s), sc.ndtr(-(hi - m) / s)
            return m - s * sc.ndtri(ga + u * (gb - ga))
        return m + s * sc.ndtri(fa + u * (fb - fa))
    if dist == "weibull":
        k, lam = b[0], b[1]
        loc = b[2] if len(b) == 3 else 0.0
        return loc + lam * (-np.log1p(-u)) ** (1.0 / k)
    raise ValueError(dist)


def ref_cdf(dist, b, x):
    """Independent distribution functions (inverse of ref_ppf)."""
    import scipy.special as sc

    x = np.asarray(x, dtype=float)
    if dist == "unif":
        return (x - b[0]) / (b[1] - b[0])
    if dist == "logunif":
        return (np.log(x) - np.log(b[0])) / (np.log(b[1]) - np.log(b[0]))
    if dist == "norm":
        return sc.ndtr((x - b[0]) / b[1])
    if dist == "lognorm":
        with np.errstate(divide="ignore"):
            return sc.ndtr((np.log(x) - b[0]) / b[1])
    if dist == "triang":
        if len(b) == 3:
            lo, hi, c = b
        else:
            lo, hi, c = 0.0, b[0], b[1]
        z = (x - lo) / (hi - lo)
        with np.errstate(divide="ignore", invalid="ignore"):
            l = z**2 / c if c > 0 else np.zeros_like(z)
            r = 1 - (1 - z) ** 2 / (1 - c)
        return np.where(z < c, l, r)
    if dist == "truncnorm":
        lo, hi, m, s = b
        if (lo - m) / s > 0:
            ga, gb, gx = (sc.ndtr(-(v - m) / s) for v in (lo, hi, x))
            return (gx - ga) / (gb - ga)
        fa, fb, fx = (sc.ndtr((v - m) / s) for v in (lo, hi, x))
        return (fx - fa) / (fb - fa)
    if dist == "weibull":
        k, lam = b[0], b[1]
        loc = b[2] if len(b) == 3 else 0.0
        return -np.expm1(-(((x - loc) / lam) ** k))
    raise ValueError(dist)


def to_unit(X, p):
    """Map a scaled sample back to the unit cube with independent CDFs."""
    X = np.asarray(X, dtype=float)
    ds = p.get("dists") or ["unif"] * X.shape[1]
    return np.column_stack(
        [ref_cdf(ds[j], p["bounds"][j], X[:, j]) for j in range(X.shape[1])]
    )


def from_unit(U, p):
    U = np.asarray(U, dtype=float)
    ds = p.get("dists") or ["unif"] * U.shape[1]
    return np.column_stack(
        [ref_ppf(ds[j], p["bounds"][j], U[:, j]) for j in range(U.shape[1])]
    )


def support(d, b):
    """Interval the values of a distribution may take."""
    if d in ("unif", "logunif", "truncnorm") or (d == "triang" and len(b) == 3):
        return float(b[0]), float(b[1])
    if d == "triang":
        return 0.0, float(b[0])
    if d == "lognorm":
        return 0.0, np.inf
    if d == "weibull":
        return (float(b[2]) if len(b) == 3 else 0.0), np.inf
    return -np.inf, np.inf


def within(X, p):
    """Every value is inside its parameter's bounds or support, to the last bit."""
    from vlib.core import fail

    X = np.asarray(X)
    ds = p.get("dists") or ["unif"] * X.shape[1]
    for j in range(X.shape[1]):
        lo, hi = support(ds[j], p["bounds"][j])
        x = X[:, j]
        if not np.all((x >= lo) & (x <= hi)):
            k = int(np.argmax(~((x >= lo) & (x <= hi))))
            fail("parameter {} ({} {}) takes the value {!r}", j, ds[j], p["bounds"][j], x[k])


def same_x(a, b, what, rtol=1e-9):
    """Equality of scaled samples, relative to the size of each column."""
    from vlib.core import fail

    a, b = np.atleast_2d(np.asarray(a, dtype=float)), np.atleast_2d(np.asarray(b, dtype=float))
    if a.shape != b.shape:
        fail("{}: shapes {} and {}", what, a.shape, b.shape)
    for j in range(b.shape[1]):
        f = np.abs(b[:, j][np.isfinite(b[:, j])])
        same(a[:, j], b[:, j], "%s, column %d" % (what, j), rtol, rtol * (f.max() if f.size else 0.0))
