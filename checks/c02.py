"""Sobol' sequence generator and direction numbers."""

import numpy as np
from hypothesis import strategies as st

from vlib.core import fail, require, sub

RULE = "Dimensions and lengths are drawn up to thousands; non-trivial = at least 4 points."


_REF = {}


def ref_points(n, dims, upto=None):
    from scipy.stats import qmc

    # scipy's 'bits' only bounds the number of points; the first n points agree
    return qmc.Sobol(dims, scramble=False, bits=31).random(n)


@sub(
    "C02",
    st.fixed_dictionaries(
        {
            "N": st.one_of(
                st.integers(1, 70), st.sampled_from([2**k for k in range(0, 12)]), st.integers(1, 1500)
            ),
            "D": st.one_of(st.integers(1, 60), st.sampled_from([1, 2, 3, 10])),
        }
    ),
    quick=300,
    rule="N>=4",
)
def agrees_with_reference(case, t):
    from SALib.sample import sobol_sequence

    N, D = case["N"], case["D"]
    X = sobol_sequence.sample(N, D)
    require(X.shape == (N, D), "shape {}", X.shape)
    ref = ref_points(N, D)
    if not np.array_equal(X, ref):
        i, j = np.argwhere(X != ref)[0]
        fail("point {} dim {}: {} != {}", i, j, X[i, j], ref[i, j])
    t.nontrivial(N >= 4)
    t.label("N power of two", N & (N - 1) == 0)


@sub(
    "C02",
    st.fixed_dictionaries({"lo": st.integers(0, 165), "k": st.integers(2, 7)}),
    quick=12,
    thorough=400,
    rule="block of 128 dimensions compared",
)
def high_dimensions(case, t):
    """All tabulated dimensions (up to 21201) agree with the reference."""
    from SALib.sample import sobol_sequence

    D = min((case["lo"] + 1) * 128, 21201)
    N = 2 ** case["k"]
    X = sobol_sequence.sample(N, D)
    ref = ref_points(N, D)
    if not np.array_equal(X, ref):
        i, j = np.argwhere(X != ref)[0]
        fail("point {} dim {}: {} != {}", i, j, X[i, j], ref[i, j])
    t.nontrivial()


@sub(
    "C02",
    st.fixed_dictionaries(
        {
            "m": st.integers(1, 10),
            "b": st.integers(0, 6),
            "D": st.integers(1, 80),
        }
    ),
    quick=200,
    rule="more than one point per block",
)
def stratified(case, t):
    """Every aligned block of 2^m points has one point in each dyadic interval
    of length 2^-m, in every dimension (the (0,1)-net property)."""
    from SALib.sample import sobol_sequence

    n = 2 ** case["m"]
    N = n * (case["b"] + 1)
    if N > 2048:
        N = n
    X = sobol_sequence.sample(N, case["D"])[-n:]
    cells = np.sort(np.floor(X * n).astype(int), axis=0)
    if not np.array_equal(cells, np.tile(np.arange(n)[:, None], (1, case["D"]))):
        bad = [j for j in range(case["D"]) if not np.array_equal(cells[:, j], np.arange(n))]
        fail("dimensions {} not stratified in the last block of {}", bad[:5], n)
    t.nontrivial(case["m"] > 1)


@sub(
    "C02",
    st.fixed_dictionaries(
        {"N": st.integers(1, 300), "M": st.integers(1, 300), "D": st.integers(1, 30), "E": st.integers(1, 30)}
    ),
    quick=150,
    rule="lengths or dimensions differ",
)
def prefix(case, t):
    """The sequence is one fixed infinite sequence: shorter / lower dimensional
    requests are its prefixes."""
    from SALib.sample import sobol_sequence

    a = sobol_sequence.sample(case["N"], case["D"])
    b = sobol_sequence.sample(case["M"], case["E"])
    n, d = min(case["N"], case["M"]), min(case["D"], case["E"])
    require(np.array_equal(a[:n, :d], b[:n, :d]), "prefix property fails")
    t.nontrivial(case["N"] != case["M"] or case["D"] != case["E"])


@sub(
    "C02",
    st.fixed_dictionaries({"block": st.integers(0, 84)}),
    quick=100,
    thorough=200,
    shards=1,
    rule="block of 250 tabulated dimensions compared in full",
)
def direction_numbers(case, t):
    """The tabulated initial direction numbers and primitive polynomials are the
    published Joe-Kuo ones (scipy carries the same table), and every m_i is odd
    and below 2^i."""
    from SALib.sample import directions as dmod

    dirs = getattr(dmod, "directions", None)
    if dirs is None or len(dirs) != 21200:
        return  # table kept in another form: the other sub-checks judge behaviour
    ref = _scipy_table()
    lo = case["block"] * 250
    for d in range(lo, min(lo + 250, 21200)):
        row = [int(v) for v in dirs[d]]
        ms = row[1:]
        for i, m in enumerate(ms, start=1):
            require(m % 2 == 1 and m < 2**i, "dimension {}: m_{}={}", d + 2, i, m)
        if ref is not None:
            poly, vinit = int(ref[0][d + 1]), [int(v) for v in ref[1][d + 1]]
            s = poly.bit_length() - 1
            require(len(ms) == s, "dimension {}: {} m values for degree {}", d + 2, len(ms), s)
            require(vinit[:s] == ms, "dimension {}: m={} but {}", d + 2, ms, vinit[:s])
            a = (poly - (1 << s) - 1) >> 1
            require(row[0] == a, "dimension {}: a={} but {}", d + 2, row[0], a)
            t.nontrivial()


def _scipy_table():
    if "t" not in _REF:
        try:
            import os
            import scipy.stats as ss

            z = np.load(os.path.join(os.path.dirname(ss.__file__), "_sobol_direction_numbers.npz"))
            _REF["t"] = (z["poly"], z["vinit"])
        except Exception:
            _REF["t"] = None
    return _REF["t"]


@sub(
    "C02",
    st.fixed_dictionaries({"D": st.integers(100, 700), "N": st.sampled_from([1024, 1025, 2048])}),
    quick=8,
    thorough=200,
    rule="hundreds of dimensions, more points than initial direction numbers",
)
def long_and_wide(case, t):
    from SALib.sample import sobol_sequence

    X = sobol_sequence.sample(case["N"], case["D"])
    ref = ref_points(case["N"], case["D"])
    if not np.array_equal(X, ref):
        i, j = np.argwhere(X != ref)[0]
        fail("point {} dim {}: {} != {}", i, j, X[i, j], ref[i, j])
    t.nontrivial()


@sub(
    "C02",
    st.fixed_dictionaries({"N": st.one_of(st.integers(30000, 70000), st.sampled_from([2**15, 2**15 + 1, 2**16 + 1, 2**17 + 3, 2**18 + 2])), "D": st.integers(1, 3)}),
    quick=12,
    thorough=120,
    rule="tens of thousands of points",
)
def long_sequences(case, t):
    from SALib.sample import sobol_sequence

    X = sobol_sequence.sample(case["N"], case["D"])
    ref = ref_points(case["N"], case["D"])
    if not np.array_equal(X, ref):
        i, j = np.argwhere(X != ref)[0]
        fail("point {} dim {}: {} != {}", i, j, X[i, j], ref[i, j])
    t.nontrivial()


@sub(
    "C02",
    st.fixed_dictionaries({"m": st.integers(20, 21), "e": st.integers(1, 1000)}),
    quick=2,
    thorough=24,
    rule="millions of points",
)
def very_long_sequences(case, t):
    from SALib.sample import sobol_sequence

    N = 2 ** case["m"] + case["e"]
    X = sobol_sequence.sample(N, 2)
    ref = ref_points(N, 2)
    if not np.array_equal(X, ref):
        i, j = np.argwhere(X != ref)[0]
        fail("point {} dim {}: {} != {}", i, j, X[i, j], ref[i, j])
    t.nontrivial()


@sub(
    "C02",
    st.fixed_dictionaries({"d": st.one_of(st.integers(2, 21201), st.integers(1100, 21201)), "e": st.integers(-2, 5)}),
    quick=64,
    thorough=600,
    shards=8,
    rule="more points than the dimension has initial direction numbers",
)
def one_dimension_far_out(case, t):
    """One high dimension beyond its initial direction numbers.  Generating all
    lower dimensions as well would take hours, so the table is replaced by the
    single row of that dimension while the generator runs (where the generator
    reads its table in another way this sub-check does not apply)."""
    from unittest import mock

    from SALib.sample import sobol_sequence

    ref = _scipy_table()
    table = getattr(sobol_sequence, "directions", None)
    if ref is None or table is None or len(table) != 21200:
        return
    d = case["d"]
    s = len(table[d - 2]) - 1
    N = 2 ** max(s + 1, 4) + case["e"]
    with mock.patch.object(sobol_sequence, "directions", [table[d - 2]]):
        probe = sobol_sequence.sample(8, 2)[:, 1]
        X = sobol_sequence.sample(N, 2)[:, 1]
    if not np.array_equal(probe, ref_points(8, d)[:, -1]):
        return  # reads its table in another way
    want = recurrence(int(ref[0][d - 1]), [int(v) for v in ref[1][d - 1]], N)
    if not np.array_equal(X, want):
        i = int(np.argmax(X != want))
        fail("dimension {} point {}: {} != {}", d, i, X[i], want[i])
    t.nontrivial()


def recurrence(poly, m, N):
    """Bratley and Fox: m_i = 2 a_1 m_{i-1} ^ ... ^ 2^s m_{i-s} ^ m_{i-s}, points in
    Gray-code order as the sum of direction numbers of the bits set."""
    s = poly.bit_length() - 1
    m = [int(v) for v in m[:s]]
    bits = max(int(N - 1).bit_length(), 1)
    while len(m) < bits:
        i = len(m)
        v = m[i - s] ^ (m[i - s] << s)
        for k in range(1, s):
            if (poly >> (s - k)) & 1:
                v ^= m[i - k] << k
        m.append(v)
    n = np.arange(N)
    g = n ^ (n >> 1)
    x = np.zeros(N, dtype=np.int64)
    for b in range(bits):
        x ^= np.where((g >> b) & 1, m[b] << (52 - b - 1), 0)
    return x / 2.0**52


@sub("C02", st.fixed_dictionaries({"D": st.integers(21202, 30000), "N": st.integers(1, 8)}), quick=20, rule="too many dimensions")
def too_many_dimensions(case, t):
    from SALib.sample import sobol_sequence

    t.nontrivial()
    try:
        sobol_sequence.sample(case["N"], case["D"])
    except ValueError:
        return
    fail("dimension {} accepted", case["D"])


@sub("C02", st.fixed_dictionaries({"e": st.integers(1, 2**20)}), quick=6, thorough=40, shards=1, rule="too many points")
def too_many_points(case, t):
    """More points than the 31-bit generator can distinguish are refused before
    any are generated (generating them would take hours: 20 s without a refusal
    means the request was accepted)."""
    import signal

    from SALib.sample import sobol_sequence

    t.nontrivial()

    def on_alarm(*a):
        raise TimeoutError

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(20)
    try:
        sobol_sequence.sample(2**31 + case["e"], 1)
    except ValueError:
        return
    except (TimeoutError, MemoryError):
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    fail("N={} accepted", 2**31 + case["e"])
