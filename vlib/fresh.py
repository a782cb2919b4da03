"""Calls in pristine processes.

A server (a new interpreter that has only imported SALib) forks one child per
request; the child runs the requested calls one after the other and returns the
results.  So a request sees no state from any other call of the check."""

import os
import pickle
import struct
import subprocess
import sys

PRELOAD = ["checks.c22", "checks.c30"] + ["SALib.sample." + m for m in "fast_sampler ff finite_diff latin morris saltelli sobol".split()] + [
    "SALib.analyze." + m for m in "delta dgsm discrepancy enhanced_hdmr fast ff hdmr morris pawn rbd_fast rsa sobol".split()]
_server = None


def _read(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<Q", h)[0]))


def _write(f, obj):
    b = pickle.dumps(obj, protocol=4)
    f.write(struct.pack("<Q", len(b)))
    f.write(b)
    f.flush()


def serve():
    import importlib

    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    for m in PRELOAD:
        importlib.import_module(m)
    while True:
        req = _read(inp)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import warnings

                import numpy as np

                warnings.simplefilter("ignore")
                np.seterr(all="ignore")
                mod, name, arg = req
                res = ("ok", getattr(importlib.import_module(mod), name)(arg))
            except BaseException as e:
                res = ("raised", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                _write(f, res)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            try:
                res = _read(f)
            except EOFError:
                res = None
        os.waitpid(pid, 0)
        _write(out, res or ("raised", "the process died"))


def call(mod, name, arg):
    """getattr(mod, name)(arg) in a pristine process."""
    global _server
    if _server is None or _server[0] != os.getpid() or _server[1].poll() is not None:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = "import sys; sys.path.insert(0, %r); from vlib import core; core.setup_paths(); from vlib import fresh; fresh.serve()" % here
        _server = (os.getpid(), subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    p = _server[1]
    _write(p.stdin, (mod, name, arg))
    st, res = _read(p.stdout)
    if st != "ok":
        raise RuntimeError(res)
    return res
