import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402

core.setup_paths()
KNOWN = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:") :].strip()
                toks = rest.split(None, 2)
                d = dict(x.split("=", 1) for x in toks[:2])
                if d.get("property") == prop:
                    out[d["id"]] = toks[2] if len(toks) > 2 else ""
    return out


def worker(prop, idx, shard, n, seed, budget, path):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        os.dup2(devnull.fileno(), 1)
    except OSError:
        pass
    s = core.REGISTRY[prop][idx]
    try:
        r = core.run_sub(s, n, seed, budget)
    except BaseException as e:  # harness failure, not a verdict
        import traceback

        r = {"sub": s.name, "error": "%r\n%s" % (e, traceback.format_exc())}
    with open(path + ".tmp", "w") as f:
        json.dump(r, f)
    os.replace(path + ".tmp", path)
    sys.stderr.flush()
    os._exit(0)


def write_replay(prop, name, case, msg):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, name, core.case_key(case)[:10]))
    with open(p, "w") as f:
        json.dump(
            {"property": prop, "sub": name, "case": case, "message": msg}, f, indent=1
        )
    return p


def setup():
    """Everything the checks need is importable; nothing is built."""
    for f in sorted(os.listdir(os.path.join(core.VERIF, "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            importlib.import_module("checks." + f[:-3])
    print("setup ok: %d properties have checks" % len(core.REGISTRY))
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()

    import SALib

    if not os.path.realpath(SALib.__file__).startswith(
        os.path.realpath(core.SRC) + os.sep
    ):
        print("error: SALib imported from", SALib.__file__)
        return 2
    mod = importlib.import_module("checks." + prop.lower())
    subs = core.REGISTRY[prop]

    if a.replay:
        d = json.load(open(a.replay))
        s = [x for x in subs if x.name == d["sub"]][0]
        try:
            core.run_case(s.fn, d["case"], core.Tracker())
        except Exception as e:
            print("%s: %s" % (type(e).__name__, e))
            if a.v:
                raise
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        print("replay passes")
        return 0

    violations = []
    errors = []
    # 1. saved minimal reproductions of past failures
    regress = []
    rp = os.path.join(core.VERIF, "regress", prop + ".jsonl")
    reg_t = core.Tracker()
    if os.path.exists(rp):
        regress = [json.loads(x) for x in open(rp) if x.strip()]
        byname = {s.name: s for s in subs}
        real_out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            for r in regress:
                if a.sub and r["sub"] not in a.sub:
                    continue
                s = byname[r["sub"]]
                try:
                    core.run_case(s.fn, r["case"], reg_t)
                except (KeyboardInterrupt, MemoryError):
                    raise
                except BaseException as e:
                    violations.append((s.name, r["case"], "regression: %r" % (e,)))
        finally:
            sys.stdout = real_out

    # 2. generated cases, sharded over processes
    tmp = os.path.join("/tmp", "vcases.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    # longest first gives better packing; the order does not affect verdicts
    budget = 150.0 if tier == "quick" else 780.0
    hard = 420.0 if tier == "quick" else 880.0
    tasks = []
    for i, s in enumerate(subs):
        if a.sub and s.name not in a.sub:
            continue
        total = a.examples or (s.quick if tier == "quick" else s.thorough)
        k = s.shards or max(1, min(8, total // 25))
        k = max(1, min(k, total))
        for sh in range(k):
            n = total // k + (1 if sh < total % k else 0)
            sd = core.derive_seed(seed, prop, s.name, sh, tier)
            tasks.append((i, sh, n, sd, os.path.join(tmp, "%d_%d.json" % (i, sh))))
    ctx = mp.get_context("fork")
    running = {}
    queue = list(tasks)
    results = []
    try:
        while queue or running:
            while queue and len(running) < a.jobs:
                i, sh, n, sd, path = queue.pop(0)
                p = ctx.Process(
                    target=worker, args=(prop, i, sh, n, sd, budget, path), daemon=False
                )
                p.start()
                running[p] = (i, sh, path)
            time.sleep(0.02)
            for p in list(running):
                if not p.is_alive():
                    p.join()
                    i, sh, path = running.pop(p)
                    if os.path.exists(path):
                        results.append((i, sh, json.load(open(path))))
                    else:
                        errors.append(
                            "worker for %s/%d died (exit %s)"
                            % (subs[i].name, sh, p.exitcode)
                        )
            if time.monotonic() - t0 > hard:
                for p in running:
                    p.kill()
                errors.append("hard time limit: %s" % sorted(subs[v[0]].name for v in running.values()))
                running = {}
                queue = []
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    results.sort(key=lambda r: (r[0], r[1]))
    per = {}
    for i, sh, r in results:
        if r.get("error"):
            errors.append(r["error"])
            continue
        d = per.setdefault(
            r["sub"],
            {"evals": 0, "distinct": set(), "samples": [], "labels": {}, "cut": 0, "wall": 0.0},
        )
        d["evals"] += r["evals"]
        d["distinct"].update(r["distinct"])
        d["cut"] += r["cut"]
        d["wall"] += r["wall"]
        if len(d["samples"]) < 2:
            d["samples"] += r["samples"][: 2 - len(d["samples"])]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if r["fail"]:
            violations.append((r["sub"], r["fail"][0], r["fail"][1]))

    # 3. known findings: replay each listed reproducer
    listed = known_findings(prop)
    for fid, fn in core.PROBES.get(prop, []):
        if fid not in listed:
            errors.append("probe %s has no entry in KNOWN_FINDINGS.txt" % fid)
            continue
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            still = fn()
        if still:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, fid, listed[fid]))

    evals = sum(d["evals"] for d in per.values()) + reg_t.evals
    distinct = sum(len(d["distinct"]) for d in per.values())
    rule = getattr(mod, "RULE", "") or ""
    rule += " Sub-checks: " + "; ".join(
        "%s (%s)" % (s.name, s.rule or "non-trivial when it calls t.nontrivial()")
        for s in subs
    )
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": rule.strip(),
            "samples": [
                {"sub": k, "case": c} for k, d in per.items() for c in d["samples"]
            ][:40],
            "per_subcheck": {
                k: {
                    "evaluations": d["evals"],
                    "distinct_nontrivial": len(d["distinct"]),
                    "labels": d["labels"],
                    "not_run_over_time_budget": d["cut"],
                    "cpu_s": round(d["wall"], 2),
                }
                for k, d in per.items()
            },
            "regression_cases_replayed": reg_t.evals,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(core.VERIF, "evidence", prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp", evp)

    if a.v:
        for k, d in per.items():
            print(
                "  %-34s evals=%d nontrivial=%d cpu=%.1fs cut=%d %s"
                % (k, d["evals"], len(d["distinct"]), d["wall"], d["cut"], d["labels"])
            )
    seen = set()
    for name, case, msg in violations:
        if name in seen:
            continue
        seen.add(name)
        p = write_replay(prop, name, case, msg)
        print("%s.%s: %s" % (prop, name, msg))
        print("  case: %s" % json.dumps(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    if errors:
        print("CHECK ERROR:\n" + "\n".join(errors))
        return 2
    print(
        "%s ok: %d cases, %d distinct non-trivial, %.1fs"
        % (prop, evals, distinct, time.monotonic() - t0)
    )
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
