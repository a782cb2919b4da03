"""Independent reference implementations of published estimators."""

import numpy as np


def sobol_split(Y, D, so):
    step = 2 * D + 2 if so else D + 2
    M = np.asarray(Y, float).reshape(-1, step)
    A, B = M[:, 0], M[:, -1]
    AB = M[:, 1 : D + 1]
    BA = M[:, D + 1 : 2 * D + 1] if so else None
    return A, B, AB, BA


def sobol_indices(Y, D, so, rows=None):
    """Saltelli 2010 first/total and Saltelli 2002 second order estimators on the
    standardised output; `rows` (N, R) resamples base points."""
    Y = np.asarray(Y, float)
    Y = (Y - Y.mean()) / Y.std()
    A, B, AB, BA = sobol_split(Y, D, so)
    if rows is None:
        rows = np.arange(len(A))
    a, b, ab = A[rows], B[rows], AB[rows]
    both = np.concatenate([a, b])
    V = ((both - both.mean(axis=0)) ** 2).mean(axis=0)
    S1 = np.stack([(b * (ab[..., j] - a)).mean(axis=0) / V for j in range(D)])
    ST = np.stack([((a - ab[..., j]) ** 2).mean(axis=0) / (2 * V) for j in range(D)])
    S2 = None
    if so:
        ba = BA[rows]
        S2 = {}
        for j in range(D):
            for k in range(j + 1, D):
                Vjk = (ba[..., j] * ab[..., k] - a * b).mean(axis=0) / V
                S2[j, k] = Vjk - S1[j] - S1[k]
    return S1, ST, S2


def bootstrap_agrees(call, ref_samples, level, what, many=1000, few=2, calls=0, tol=0.3):
    """`call(R, seed)` returns an interval half-width built from R bootstrap
    resamples; `ref_samples` holds the statistic over an independent bootstrap.
    Checks the width with many resamples, and the unbiasedness of its square with
    few resamples (which tells a sample from a population standard deviation)."""
    from scipy.stats import norm

    from vlib.core import require

    z = norm.ppf(0.5 + level / 2)
    ref = np.std(ref_samples, ddof=1)
    got = float(call(many, 1)) / z
    tiny = 1e-9 * (np.abs(ref_samples).max() + 1e-300)
    require(
        (1 - tol) * ref - tiny <= got <= ref / (1 - tol) + tiny,
        "{}: half-width {} at level {} but {} expected", what, got * z, level, ref * z,
    )
    if calls:
        sq = np.mean([(float(call(few, 10 + i)) / z) ** 2 for i in range(calls)])
        require(
            sq >= 0.65 * ref**2 - tiny**2 and sq <= 1.8 * ref**2 + tiny**2,
            "{}: mean squared half-width with {} resamples is {} but {} expected", what, few, sq, ref**2,
        )


def spectrum(y):
    """|DFT|^2/N^2 at frequencies 1 .. ceil(N/2)-1, by explicit projection."""
    y = np.asarray(y, float)
    N = len(y)
    k = np.arange(1, int(np.ceil(N / 2)))
    if N <= 1500:
        ang = 2 * np.pi * np.outer(k, np.arange(N)) / N
        re, im = np.cos(ang) @ y, np.sin(ang) @ y
        return (re**2 + im**2) / N**2
    f = np.fft.rfft(y)
    return np.abs(f[k]) ** 2 / N**2


def fast_orders(y, M):
    """Saltelli, Tarantola & Chan (1999)."""
    N = len(y)
    omega = (N - 1) // (2 * M)
    Sp = spectrum(np.asarray(y, float) - np.mean(y))
    V = Sp.sum()
    S1 = sum(Sp[m * omega - 1] for m in range(1, M + 1)) / V
    ST = 1 - Sp[: omega // 2].sum() / V
    return S1, ST


def rbd_fast_s1(x, y, M):
    """Tarantola et al. 2006 with the ordering of Plischke 2010 and the bias
    correction of Tissot & Prieur 2012."""
    o = np.argsort(x)
    N = len(o)
    z = np.array([y[i] for i in list(o[0::2]) + list(o[1::2])[::-1]], float)
    z = z - z.mean()
    full = np.abs(np.fft.rfft(z)) ** 2
    w = np.full(len(full), 2.0)
    w[0] = 0
    if N % 2 == 0:
        w[-1] = 1.0
    V = (full * w).sum()
    S = 2 * full[1 : M + 1].sum() / V if M < N / 2 else np.nan
    lam = 2.0 * M / N
    return S - lam / (1 - lam) * (1 - S)
