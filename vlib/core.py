"""Small property-based-testing harness on top of Hypothesis.

A *sub-check* is a function ``f(case, t)`` over a JSON-able ``case`` drawn from a
Hypothesis strategy.  It calls SALib (imported from /repo/src) and compares with
an oracle; it fails by raising.  ``t`` counts what was generated.  Failures are
shrunk by Hypothesis and written out as a replay file (JSON) that
``check.sh ID --replay FILE`` re-runs without Hypothesis.
"""

import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_paths():
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(VT_SITE)
        import hypothesis  # noqa: F401


class Violation(AssertionError):
    """The code under test disagrees with the oracle."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg="", *args):
    if not cond:
        fail(msg, *args)


REGISTRY = {}
PROBES = {}


class Sub:
    def __init__(self, prop, name, fn, strategy, quick, thorough, shards, rule):
        self.prop, self.name, self.fn, self.strategy = prop, name, fn, strategy
        self.quick, self.thorough, self.shards, self.rule = (
            quick,
            thorough,
            shards,
            rule,
        )


def sub(prop, strategy, quick=200, thorough=None, shards=None, rule=""):
    """Register a sub-check of property `prop`."""

    def deco(fn):
        th = thorough if thorough is not None else quick * 20
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, fn.__name__, fn, strategy, quick, th, shards, rule)
        )
        return fn

    return deco


def probe(prop, finding):
    """Register the reproducer of a known finding: fn() returns True when the
    recorded defect is still there exactly as described."""

    def deco(fn):
        PROBES.setdefault(prop, []).append((finding, fn))
        return fn

    return deco


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Tracker:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.labels = {}
        self._nt = False

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def begin(self):
        self._nt = False

    def end(self, case):
        self.evals += 1
        if self._nt:
            k = case_key(case)
            if k not in self.distinct:
                self.distinct.add(k)
                if len(self.samples) < 3:
                    self.samples.append(case)


def run_case(fn, case, tracker):
    """One evaluation: global state is reset, output is muted."""
    k = int(case_key(case)[:8], 16)
    import numpy as np

    np.random.seed(k)
    random.seed(k)
    tracker.begin()
    fresh = json.loads(json.dumps(case))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), contextlib.redirect_stdout(
            io.StringIO()
        ), contextlib.redirect_stderr(io.StringIO()):
            fn(fresh, tracker)
    tracker.end(case)


CASE_LIMIT = 200  # seconds; ordinary cases take well under one


class Hang(Violation):
    """A single call did not come back."""


def _on_alarm(*_):
    raise Hang("no result within %d s" % CASE_LIMIT)


def run_sub(s, n_examples, seed, budget, shrink_budget=25.0):
    """Run one shard.  Returns dict(result) with failure or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import UnsatisfiedAssumption, StopTest

    t = Tracker()
    st = {"best": None, "first_fail": None, "cut": 0, "dead": False}
    t0 = time.monotonic()

    def body(case):
        now = time.monotonic()
        if st["dead"]:
            return
        if st["first_fail"] is None:
            if now - t0 > budget:
                st["cut"] += 1
                return
        else:
            if now - st["first_fail"] > shrink_budget:
                return
        try:
            signal.signal(signal.SIGALRM, _on_alarm)
            signal.alarm(CASE_LIMIT)
            try:
                run_case(s.fn, case, t)
            finally:
                signal.alarm(0)
        except (UnsatisfiedAssumption, StopTest, MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            if st["first_fail"] is None:
                st["first_fail"] = time.monotonic()
            if isinstance(e, Hang):
                st["dead"] = True  # one hang is enough; do not shrink it
            if isinstance(e, Violation):
                msg = str(e)
            else:
                import traceback

                msg = "unexpected %s: %s\n%s" % (
                    type(e).__name__,
                    e,
                    "".join(traceback.format_tb(e.__traceback__)[-6:]),
                )
            size = len(json.dumps(case))
            if st["best"] is None or size <= st["best"][2]:
                st["best"] = (case, msg, size)
            if isinstance(e, SystemExit):
                raise Violation("SystemExit: %s" % e)
            raise

    test = given(s.strategy)(body)
    test = settings(
        max_examples=n_examples,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    err = None
    try:
        test()
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if st["best"] is None:
            import traceback

            err = "harness error in %s: %s\n%s" % (
                s.name,
                e,
                traceback.format_exc(),
            )
    return {
        "sub": s.name,
        "evals": t.evals,
        "distinct": sorted(t.distinct),
        "samples": t.samples,
        "labels": t.labels,
        "fail": None if st["best"] is None else st["best"][:2],
        "error": err,
        "cut": st["cut"],
        "wall": time.monotonic() - t0,
    }


def derive_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()
    return int(h[:15], 16)
