"""Shared machinery: seeded case generation, parallel execution, verdicts, evidence.

A *case* is a pure function of (property, VERIF_SEED, index).  A check runs many
cases of the real code from /repo in worker processes; each case drives the public API
while monitors compare what they observe with a reference.  A monitor that sees a
discrepancy raises Violation; the runner writes a replay file and prints the
VIOLATION line.  A check whose monitors saw too little exits 2 (inconclusive).
"""
import collections
import faulthandler
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _fresh_imports():
    """Modules under /repo are always compiled from their source, never taken from a stale .pyc."""
    import importlib.machinery as m

    class Fresh(m.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    def hook(path):
        p = os.path.realpath(path)
        r = os.path.realpath(REPO)
        if p != r and not p.startswith(r + os.sep):
            raise ImportError
        return m.FileFinder(path, (m.ExtensionFileLoader, m.EXTENSION_SUFFIXES), (Fresh, m.SOURCE_SUFFIXES))

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


_fresh_imports()

EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")


class Violation(Exception):
    """The code under test broke the property."""


class KnownFinding(Exception):
    pass


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class Case:
    """Per-case recorder: PRNG, event log, counters, known findings."""

    def __init__(self, prop, seed, index, tier):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        h = hashlib.sha256(f"{prop}/{seed}/{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.log = []
        self.counts = collections.Counter()
        self.known = {}
        self.sig = []

    def ev(self, what, *args):
        """Append to the event log (kept for the replay file)."""
        self.log.append(f"{what} " + " ".join(_short(a) for a in args) if args else what)
        self.counts["events"] += 1

    def count(self, key, n=1):
        self.counts[key] += n

    def sign(self, *parts):
        """Feed the case signature (used to count distinct non-trivial cases)."""
        self.sig.append(parts)

    def finding(self, key, text):
        self.known[key] = text

    def check(self, cond, msg, *args):
        self.counts["assertions"] += 1
        if not cond:
            raise Violation(msg + (": " + "; ".join(_short(a, 600) for a in args) if args else ""))


def _short(a, n=160):
    s = a if isinstance(a, str) else repr(a)
    return s if len(s) <= n else s[: n - 3] + "..."


def load_known():
    """known_findings.txt: lines `known: property=<id> key=<key> <text>` and `fixed: ...`."""
    res = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            res[(prop, key)] = parts[3]
    return res


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def run_case(fn, prop, seed, index, tier, limit):
    """Runs one case; returns a plain dict."""
    case = Case(prop, seed, index, tier)
    res = {"index": index, "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(case)
    except Violation as e:
        res["status"] = "violation"
        res["message"] = str(e)
        res["trace"] = traceback.format_exc()
    except HarnessError as e:
        res["status"] = "error"
        res["message"] = str(e)
        res["trace"] = traceback.format_exc()
    except _Timeout:
        res["status"] = "timeout"
        res["message"] = f"the operation did not finish within {limit} s, twice"
        res["trace"] = traceback.format_exc()
    except Exception as e:  # noqa
        # An operation that must succeed raised, or what it returned could not even be inspected.
        res["trace"] = traceback.format_exc()
        res["message"] = f"unexpected {type(e).__name__}: {e}"
        res["status"] = "error" if isinstance(e, (ImportError, MemoryError)) else "violation"
    finally:
        signal.alarm(0)
    res["counts"] = dict(case.counts)
    res["known"] = case.known
    res["sig"] = hashlib.sha256(repr(case.sig).encode()).hexdigest()[:16] if case.sig else None
    if res["status"] != "ok" or index < 2:
        res["log"] = case.log
    return res


def _worker(fn_path, prop, seed, tier, indices, limit, deadline, q, stop):
    faulthandler.enable()
    if not os.environ.get("VERIF_DEBUG"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    fn = resolve(fn_path)
    for i in indices:
        if stop.is_set() or time.time() > deadline:
            break
        r = run_case(fn, prop, seed, i, tier, limit)
        if r["status"] == "timeout":
            r = run_case(fn, prop, seed, i, tier, limit)
            if r["status"] == "timeout":
                r["status"] = "violation"
        q.put(r)
        if r["status"] != "ok":
            break
    q.put(None)


def resolve(path):
    mod, name = path.split(":")
    import importlib

    return getattr(importlib.import_module(mod), name)


def run_check(prop, fn_path, tier, seed, n_cases, rule, min_nontrivial, limit=120, max_wall=600, procs=None, extra_assumptions=(), need=(), preload=()):
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    import importlib

    for m in preload:
        importlib.import_module(m)
    resolve(fn_path)
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    procs = procs or min(8, os.cpu_count() or 1)
    procs = max(1, min(procs, n_cases))
    q = ctx.Queue()
    stop = ctx.Event()
    deadline = t0 + max_wall
    ps = []
    for w in range(procs):
        p = ctx.Process(target=_worker, args=(fn_path, prop, seed, tier, list(range(w, n_cases, procs)), limit, deadline, q, stop), daemon=True)
        p.start()
        ps.append(p)
    live = procs
    counts = collections.Counter()
    sigs = set()
    known = {}
    samples = []
    evaluations = 0
    bad = []
    errors = []
    import queue as _q

    dead_since = None
    while live > 0:
        try:
            r = q.get(timeout=5)
        except _q.Empty:
            # A worker that died without its end marker (crash of the interpreter)
            if all(not p.is_alive() for p in ps):
                if dead_since is None:
                    dead_since = time.time()
                elif time.time() - dead_since > 10:
                    errors.append({"index": -1, "message": "worker process died", "trace": str([p.exitcode for p in ps]), "log": []})
                    break
            if time.time() > deadline + limit + 60:
                errors.append({"index": -1, "message": "workers did not stop", "trace": "", "log": []})
                break
            continue
        if r is None:
            live -= 1
            continue
        evaluations += 1
        counts.update(r["counts"])
        if r["sig"]:
            sigs.add(r["sig"])
        known.update(r["known"])
        if r.get("log") and r["status"] == "ok" and len(samples) < 3:
            samples.append({"case": r["index"], "events": r["log"][:60]})
        if r["status"] == "violation":
            bad.append(r)
            stop.set()
        elif r["status"] == "error":
            errors.append(r)
            stop.set()
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()

    listed = load_known()
    status = 0
    for key, text in sorted(known.items()):
        if (prop, key) in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[(prop, key)]}")
        else:
            bad.append({"index": -1, "message": f"unlisted finding {key}: {text}", "trace": "", "log": []})
    bad.sort(key=lambda r: r["index"])
    for r in bad[:1]:
        path = os.path.join(REPLAYS, f"{prop}-{tier}-{seed}-{r['index']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": r["index"], "tier": tier, "message": r["message"], "events": r.get("log"), "trace": r.get("trace")}, f, indent=1)
        print(f"{prop} case {r['index']}: {r['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    if not bad:
        for r in errors[:1]:
            print(f"{prop} case {r['index']}: harness error: {r['message']}\n{r.get('trace')}", file=sys.stderr)
            status = 2
    missing = [k for k in need if counts.get(k, 0) == 0]
    if status == 0 and (len(sigs) < min_nontrivial or missing):
        print(f"{prop}: inconclusive: {len(sigs)} distinct non-trivial cases (< {min_nontrivial}) or monitors never fired: {missing}", file=sys.stderr)
        status = 2
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": rule,
            "samples": samples or [{"case": r["index"], "events": (r.get("log") or [])[:60]} for r in bad[:1]],
            "monitor_counts": dict(sorted(counts.items())),
            "known_findings_observed": sorted(known),
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
        "assumptions": list(extra_assumptions),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(sigs)} distinct, {counts.get('assertions', 0)} assertions, {time.time() - t0:.1f} s, exit {status}")
    return status
