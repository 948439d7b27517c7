"""Workloads and monitors for the stream algorithms (C13-C17, C24).

Real pipelines are run; a recorder after the pipeline and the user functions inside it
produce one event log per run, and offline checkers decide the properties on that log.
"""
import contextlib
import copy
import glob
import io
import itertools
import json
import logging
import math
import os
import shutil
import tempfile
from unittest import mock

import apache_beam as beam
import dimod
from apache_beam.testing.test_stream import TestStream

import stream_cb
from common import HarnessError, Violation
from history import bqm_poly, check_poly, diff_snap, isnan, snapshot, table
from sawatabi.algorithm import IO, Attenuation, Delta, Incremental, Partial, Window
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import NHotConstraint
from sawatabi.solver import LocalSolver, SawatabiSolver
from shadow import BIT, SPIN, Poly, close, penalty_poly

logging.disable(logging.ERROR)

ALGOS = {"window": Window, "delta": Delta, "attenuation": Attenuation, "incremental": Incremental, "partial": Partial}
SLIDING = ("window", "attenuation", "partial")
TV = beam.window.TimestampedValue
OUTDATED = "The received event is outdated"


class Planned(Exception):
    pass


class Run:
    """One pipeline run: configuration, event log, user-function behaviour."""

    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.events = []
        self.outputs = []
        self.stamps = []
        self.arrived = []
        self.errors = []  # violations seen inside user functions (never swallowed by the pipeline)
        self.calls = {"map": 0, "solve": 0, "unmap": 0}
        self.fail_rate = {"map": 0.0, "solve": 0.0, "unmap": 0.0}
        self.plan_log = []
        self.newest = 0.0
        self.text_nl = True

    # ---- hooks
    def output(self, ts, element):
        self.outputs.append((float(ts), element))
        self.stamps.append(ts)

    def arrival(self, element):
        self.arrived.append(element)

    def record(self, step, elements, incoming, outgoing, **kw):
        n = self.calls[step] = self.calls[step] + 1
        ev = dict(step=step, n=n, elements=copy.deepcopy(list(elements)), incoming=copy.deepcopy(list(incoming)), outgoing=copy.deepcopy(list(outgoing)), **kw)
        self.events.append(ev)
        if elements:
            self.newest = max(e[0] for e in elements)
        return ev

    def maybe_fail(self, step, ev):
        if self.rng.random() < self.fail_rate[step]:
            msg = f"planned {step} failure {ev['n']} " + self.rng.choice(["", "é", "with\nnewline", "%s {x}"])
            ev["fail"] = msg
            raise self.rng.choice([ValueError, KeyError, Planned, RuntimeError, AssertionError, ZeroDivisionError, StopIteration])(msg)

    def guard(self, fn):
        try:
            return fn()
        except Violation as e:
            self.errors.append(e)
            raise
        except Planned:
            raise

    def map(self, prev_model, prev_ss, elements, incoming, outgoing):
        ev = self.record("map", elements, incoming, outgoing)
        return self.guard(lambda: self.on_map(ev, prev_model, prev_ss, elements, incoming, outgoing))

    def solve(self, solver, model, prev_ss, elements, incoming, outgoing):
        ev = self.record("solve", elements, incoming, outgoing)
        return self.guard(lambda: self.on_solve(ev, solver, model, prev_ss, elements, incoming, outgoing))

    def unmap(self, ss, elements, incoming, outgoing):
        ev = self.record("unmap", elements, incoming, outgoing)
        return self.guard(lambda: self.on_unmap(ev, ss, elements, incoming, outgoing))

    # ---- default behaviour
    def on_map(self, ev, model, ss, elements, incoming, outgoing):
        self.maybe_fail("map", ev)
        return model

    def on_solve(self, ev, solver, model, prev, elements, incoming, outgoing):
        self.maybe_fail("solve", ev)
        return ev["n"]

    def on_unmap(self, ev, ss, elements, incoming, outgoing):
        self.maybe_fail("unmap", ev)
        ev["text"] = f"solution {ev['n']} of {len(elements)}"
        return ev["text"]

    # ---- configuration
    def configure(self, algos=None, max_n=26, on_time=True, data=None, filters=None, big=130):
        rng = self.rng
        self.algo = rng.choice(list(algos or ALGOS))
        n = rng.choice([0, 1, 2]) if rng.random() < 0.06 else rng.randint(3, max_n)
        if rng.random() < 0.04 and big > max_n:
            n = rng.randint(max_n, big)
        q = rng.choice([1, 1, 1, 0.5, 0.25])
        # a few streams have windows with dozens of elements
        wide = self.algo in ("window", "delta") and rng.random() < 0.05
        huge = wide and big > 100 and rng.random() < 0.3
        if wide:
            n, q = rng.randint(60, 90) if not huge else rng.randint(240, 320), 1
        opts = {}
        if self.algo in SLIDING:
            size = rng.randint(1, 12)
            period = rng.choice([1, 2, size, rng.randint(1, size), size + rng.randint(1, 4)])
            if size / period > 8:
                period = math.ceil(size / 8)
            if wide:
                size = rng.randint(42, 55) if not huge else rng.randint(105, 230)
                period = rng.randint(15, size) if not huge else rng.randint(60, size)
            opts["window.size"], opts["window.period"] = size * q, period * q
        elif self.algo == "delta":
            opts["window.size"] = rng.randint(1, 8) * q if not wide else rng.randint(42, 55) if not huge else rng.randint(105, 230)
        else:
            opts["incremental.size"] = rng.randint(1, 8) * q
        if self.algo == "attenuation":
            opts["attenuation.key"] = "attributes.attn_ts"
            opts["attenuation.min_scale"] = rng.choice([0.1, 0.0, 0.5, 1.0, 0.25, rng.random()])
        if self.algo == "partial":
            self.filter = rng.choice(filters or stream_cb.FILTERS)
            opts["filter_fn"] = self.filter
        self.opts = opts
        self.reassign = rng.random() < 0.25
        pattern = rng.choice(["step", "ties", "gaps", "random", "sorted-random", "before-epoch"]) if not wide else rng.choice(["step", "ties"])
        base = rng.choice([0, 0, 100, 1600000000]) if pattern != "before-epoch" else -rng.randint(5, 60)
        ts, t = [], base
        big_gap = rng.choice([30, 100, 700, 4000, 90000])
        for _ in range(n):
            if pattern == "step":
                t += 1
            elif pattern == "ties":
                t += rng.choice([0, 0, 1, 2]) * q
            elif pattern == "gaps":
                t += rng.choice([0.25, 1, 1, 2, 30, big_gap])
            elif pattern == "before-epoch":
                t += rng.choice([0, 1, 2.5, 4])
            else:
                t = base + rng.randint(0, 4 * max(1, n)) / 4
            ts.append(t)
        if pattern == "sorted-random":
            ts.sort()
        if data is None:
            pool = rng.choice(["int", "str", "dict", "mixed"])
            mk = {
                "int": lambda i: rng.randint(0, 50),
                "str": lambda i: "s%d" % rng.randint(0, 5),
                "dict": lambda i: {"v": rng.randint(0, 3)},
                "mixed": lambda i: rng.choice([None, 1, "a", {"k": 1}, (1, 2), 2.5]),
            }[pool]
            data = mk
        self.data = [data(i) for i in range(n)]
        self.ts = ts
        self.runner = rng.choice(["DirectRunner", "DirectRunner", "BundleBasedDirectRunner", "TestStream"])
        if n == 0:
            self.runner = "DirectRunner"
        self.late = False
        if self.reassign:
            self.ts = [float(i) for i in range(n)]
            if self.runner == "TestStream":
                self.runner = "DirectRunner"
        self.no_gaps()
        self.batches = None
        if self.runner == "TestStream":
            self.plan_test_stream(on_time)
        self.pattern = pattern
        self.case.ev("pipeline", self.algo, {k: v for k, v in opts.items() if k != "filter_fn"}, self.runner, pattern, f"{n} elements", "reassign" if self.reassign else "", "late data" if self.late else "")
        self.case.ev("times", self.ts)
        self.case.sign(self.algo, tuple(sorted((k, str(v)) for k, v in opts.items() if k != "filter_fn")), tuple(self.ts), self.runner)
        return self

    def no_gaps(self):
        """The bundle-based runner cannot hold elements which belong to no window."""
        if self.runner != "DirectRunner" and self.opts.get("window.period", 0) > self.opts.get("window.size", 0):
            self.opts["window.period"] = self.opts["window.size"]

    def plan_test_stream(self, on_time):
        """Arrival batches with a watermark; later elements are not behind it when on time."""
        rng = self.rng
        n = len(self.ts)
        if on_time:
            order = sorted(range(n), key=lambda i: self.ts[i])
            batches, i = [], 0
            while i < n:
                k = rng.randint(1, 5)
                grp = order[i : i + k]
                i += k
                rng.shuffle(grp)
                w = self.ts[order[i]] if i < n else None
                batches.append((grp, w))
        else:
            order = sorted(range(n), key=lambda i: self.ts[i] + rng.choice([0, 0, 0, rng.uniform(0, 8)]))
            batches, i, wm = [], 0, -1e18
            while i < n:
                k = rng.randint(1, 5)
                grp = order[i : i + k]
                i += k
                m = max(self.ts[j] for j in grp)
                w = max(wm, m - rng.choice([0, 1, 3]))
                if any(self.ts[j] < wm for j in grp):
                    self.late = True
                wm = w
                batches.append((grp, w))
        arr = [i for g, _ in batches for i in g]
        self.ts, self.data = [self.ts[i] for i in arr], [self.data[i] for i in arr]
        pos, res = 0, []
        for g, w in batches:
            res.append((list(range(pos, pos + len(g))), w))
            pos += len(g)
        self.batches = res

    def source(self):
        if self.runner == "TestStream":
            s = TestStream()
            wm = None
            for g, w in self.batches:
                s = s.add_elements([TV(self.data[i], self.ts[i]) for i in g])
                if w is not None and (wm is None or w > wm):
                    wm = w
                    s = s.advance_watermark_to(w)
            return s.advance_watermark_to_infinity()
        pairs = list(zip(self.ts, self.data))
        return beam.Create(pairs) | beam.MapTuple(lambda t, d: TV(d, t))

    def args(self):
        return {"DirectRunner": ["--runner=DirectRunner"], "BundleBasedDirectRunner": ["--runner=BundleBasedDirectRunner"], "TestStream": ["--runner=DirectRunner", "--streaming"]}[self.runner]

    def execute(self, solver=None, input_fn=None, output_fn=None, mtype=None):
        opts = dict(self.opts)
        if self.reassign:
            opts["input.reassign_timestamp"] = True
        elif self.rng.random() < 0.15:
            opts["input.reassign_timestamp"] = False
        frozen = {k: v for k, v in opts.items()}
        kw = {}
        if solver is not None:
            kw["solver"] = solver
        if mtype is not None:
            kw["initial_mtype"] = mtype
        stream_cb.RUN = self
        try:
            p = ALGOS[self.algo].create_pipeline(
                algorithm_options=opts,
                input_fn=input_fn if input_fn is not None else self.source(),
                map_fn=stream_cb.map_fn,
                solve_fn=stream_cb.solve_fn,
                unmap_fn=stream_cb.unmap_fn,
                output_fn=output_fn if output_fn is not None else beam.ParDo(stream_cb.Recorder()),
                pipeline_args=self.args(),
                **kw,
            )
            r = p.run()
            r.wait_until_finish()
        except Violation:
            raise
        except Exception as e:  # noqa
            if self.errors:
                raise self.errors[0]
            self.case.check(False, f"the pipeline stopped with {type(e).__name__}: {e}")
        finally:
            stream_cb.RUN = None
        if self.errors:
            raise self.errors[0]
        self.case.check(opts == frozen, "the options passed in were changed", opts)
        self.case.count("pipelines")
        self.case.count("pipelines_" + self.runner)
        self.case.count("records", len(self.outputs))
        return self

    # ---- reference: windows
    def elements(self):
        return [(float(t), (i, d)) for i, (t, d) in enumerate(zip(self.ts, self.data))]

    def windows(self):
        """end -> sorted elements of every non-empty window."""
        res = {}
        for e in self.elements():
            t = e[0]
            if self.algo in SLIDING:
                size, per = self.opts["window.size"], self.opts["window.period"]
                k = math.floor(t / per)
                while k * per > t - size:
                    res.setdefault(k * per + size, []).append(e)
                    k -= 1
            else:
                size = self.opts.get("window.size", self.opts.get("incremental.size"))
                res.setdefault(math.floor(t / size) * size + size, []).append(e)
        for v in res.values():
            v.sort(key=lambda e: (e[0], e[1][0]))
        return res

    def window_of(self, ts, wins):
        cand = [end for end in wins if end - 0.0025 <= ts <= end]
        return cand[0] if len(cand) == 1 else None

    def processed(self):
        """Groups of events, one per processed window: map, maybe solve, maybe unmap."""
        groups = []
        for ev in self.events:
            if ev["step"] == "map":
                groups.append([ev])
            else:
                self.case.check(bool(groups), "a step ran before any mapping")
                groups[-1].append(ev)
        return groups


def same(case, a, b, what):
    case.check(len(a) == len(b) and all(x == y for x, y in zip(a, b)), what, a, b)


def key(e):
    return (e[0], e[1][0])


def check_windows(case, run, wins):
    """One output per window, outdated rule, order, and the elements seen."""
    seen = {}
    latest = None
    groups = run.processed()
    gi = 0
    prev = []
    for ts, text in run.outputs:
        end = run.window_of(ts, wins)
        case.check(end is not None, "an output record belongs to no window", ts, sorted(wins)[:8], str(text)[:120])
        case.check(end not in seen, "a window yielded more than one record", end, seen.get(end), str(text)[:80])
        seen[end] = str(text)[:80]
        if isinstance(text, str) and text.startswith(OUTDATED):
            case.check(latest is not None and end < latest, "a window was called outdated although no later one was processed", end, latest)
            case.count("outdated_windows")
            continue
        case.check(latest is None or end >= latest, "a window was processed after a later one", end, latest)
        latest = end
        case.check(gi < len(groups), "a record without a mapping", str(text)[:100])
        g = groups[gi]
        gi += 1
        exp = wins[end]
        if run.algo == "incremental":
            exp = sorted(prev + exp, key=key)
        elif run.algo == "partial":
            have = {key(e) for e in exp}
            keep = [e for e in prev if key(e) not in have and apply_filter(run, e, prev)]
            exp = sorted(keep + exp, key=key)
        for ev in g:
            same(case, ev["elements"], exp, f"elements seen by {ev['step']} for the window ending at {end} ({run.algo})")
            case.count("element_lists_checked")
        prev = exp
        check_record(case, g, text)
        case.count("processed_windows")
    case.check(set(seen) == set(wins), "windows without exactly one record", sorted(set(wins) - set(seen))[:5])
    case.check(gi == len(groups), "a mapping without a record", gi, len(groups))
    if len(seen) > 1:
        case.count("multi_window_runs")


def apply_filter(run, e, prev):
    if run.filter is stream_cb.filter_last3:
        return e[0] >= max(x[0] for x in prev) - 3
    return run.filter(e)


def check_record(case, g, text):
    """The record of a processed window: solution text, or a report of the failed step."""
    steps = [ev["step"] for ev in g]
    case.check(steps == ["map", "solve", "unmap"][: len(steps)], "order of steps", steps)
    failed = [ev for ev in g if "fail" in ev]
    if failed:
        ev = failed[0]
        case.check(ev is g[-1], "a step ran after a failed one", steps, ev["step"])
        case.check(isinstance(text, str) and text.startswith(f"Failed to {ev['step']}"), "the record does not report which step failed", ev["step"], str(text)[:100])
        case.check(ev["fail"] in text or repr(ev["fail"]) in text, "the record does not report why the step failed", ev["fail"], str(text)[:200])
        case.count("failures_reported")
    else:
        case.check(len(g) == 3, "steps missing without a failure", steps, str(text)[:300])
        case.check(text == g[-1]["text"], "the record is not the unmapped text", str(text)[:200], g[-1]["text"])
        case.count("solutions")


# ---------------------------------------------------------------- C13
def c13(case):
    run = Run(case)
    run.configure()
    if case.rng.random() < 0.4:
        run.fail_rate = {k: case.rng.choice([0, 0.2, 0.4]) for k in run.fail_rate}
    run.execute()
    check_windows(case, run, run.windows())


# ---------------------------------------------------------------- C14
def c14(case):
    run = Run(case)
    run.configure(on_time=case.rng.random() < 0.4)
    if case.rng.random() < 0.5:
        run.fail_rate = {k: case.rng.choice([0, 0.2, 0.5]) for k in run.fail_rate}
    run.execute()
    check_diffs(case, run)
    if not run.late:
        check_windows(case, run, run.windows())


def check_diffs(case, run):
    prev = []
    for g in run.processed():
        m = g[0]
        cur = m["elements"]
        pk, ck = {key(e) for e in prev}, {key(e) for e in cur}
        case.check(len(ck) == len(cur), "an element occurs twice in a window", cur)
        same(case, m["incoming"], [e for e in sorted(cur, key=key) if key(e) not in pk], "incoming elements")
        same(case, m["outgoing"], [e for e in sorted(prev, key=key) if key(e) not in ck], "outgoing elements")
        for ev in g[1:]:
            for f in ("elements", "incoming", "outgoing"):
                same(case, ev[f], m[f], f"{f} seen by {ev['step']} differ from those seen by the mapping")
        case.count("differences_checked")
        case.count("incoming", len(m["incoming"]))
        case.count("outgoing", len(m["outgoing"]))
        if m["outgoing"] and m["incoming"]:
            case.count("windows_with_both")
        prev = cur


# ---------------------------------------------------------------- C15
class StateRun(Run):
    def start(self, mtype):
        self.mtype = mtype
        self.exp_model = self.visible(LogicalModel(mtype=mtype))
        self.exp_tag = None
        self.exp_result = None
        self.k = 0

    def visible(self, m):
        s = snapshot(m, removed=False, dirty=False)
        if self.algo == "attenuation":
            for r in s["interactions"].values():
                r.pop("scale")
        return s

    def on_map(self, ev, model, ss, elements, incoming, outgoing):
        rng, case = self.rng, self.case
        got = self.visible(model)
        case.check(got == self.exp_model, "the mapping did not receive the model of the last successful mapping", diff_snap(self.exp_model, got))
        self.same_result(ss, "mapping")
        self.k += 1
        if rng.random() < 0.3:
            self.maybe_fail("map", ev)  # before touching anything
        new = model if rng.random() < 0.75 else LogicalModel(mtype=rng.choice([SPIN, BIT]))
        if new is not model and rng.random() < 0.3:
            # a model without interactions is a model as well
            if rng.random() < 0.7:
                new.variables("x", shape=(rng.randint(1, 3),))
            new.offset(float(self.k))
            self.maybe_fail("map", ev)
            self.exp_model = self.visible(new)
            self.exp_tag = float(self.k)
            self.case.count("empty_mappings")
            return new
        # edit the given model in place, as the sample applications do
        if "x" not in new.get_variables():
            new.variables("x", shape=(rng.randint(1, 3),))
        else:
            new.append("x", shape=(rng.randint(0, 2),))
        if "y" not in new.get_variables() and rng.random() < 0.3:
            y = new.variables("y", shape=(2,))
            new.add_interaction((y[0], y[1]), name=f"y{self.k}", coefficient=1.0, timestamp=self.k)
        x = new.get_variables_by_name("x")
        new.add_interaction(x[0], name=f"i{self.k}", coefficient=float(self.k), attributes={"attn_ts": float(self.k)} if rng.random() < 0.7 else None, timestamp=self.k)
        if rng.random() < 0.3:
            live = sorted(table(new))
            if len(live) > 2:
                new.remove_interaction(name=rng.choice(live[:-1]))
        if rng.random() < 0.25 and not new.get_constraints():
            new.add_constraint(NHotConstraint(variables=x[0], label=f"c{self.k}"))
        new.offset(float(self.k))
        self.maybe_fail("map", ev)  # after having changed it
        self.exp_model = self.visible(new)
        self.exp_tag = float(self.k)
        self.case.count("mappings")
        return new

    def same_result(self, ss, who):
        if self.exp_result is None or self.exp_result == "None":
            self.case.check(ss is None, f"the {who} received a result before any successful solve", ss)
        else:
            self.case.check(ss is not None and self.tag_of(ss) == self.exp_result, f"the {who} did not receive the result of the last successful solve", ss, self.exp_result)

    @staticmethod
    def tag_of(ss):
        if isinstance(ss, dimod.SampleSet):
            return float(ss.first.energy) if len(ss) else "no rows"
        if not ss:
            return repr(ss)
        return float(ss["tag"])

    def on_solve(self, ev, solver, model, prev, elements, incoming, outgoing):
        rng, case = self.rng, self.case
        case.check(isinstance(solver, SawatabiSolver) if self.with_solver else isinstance(solver, LocalSolver), "the solving function received another solver", type(solver).__name__)
        case.check(model.get_offset() == self.exp_tag, "the solving function did not receive the model of this window's mapping", model.get_offset(), self.exp_tag)
        got = self.visible(model)
        case.check(got == self.exp_model, "the solving function received a changed model", diff_snap(self.exp_model, got))
        self.same_result(prev, "solving function")
        self.maybe_fail("solve", ev)
        if rng.random() < 0.5:
            model.to_physical()
        t = float(100 + ev["n"])
        r = dimod.SampleSet.from_samples([{"x[0]": 1}], vartype=dimod.SPIN, energy=[t]) if rng.random() < 0.7 else {"tag": t}
        if rng.random() < 0.15:
            # results which count as false, or none at all
            r = rng.choice([None, [], 0, {}, "", False, dimod.SampleSet.from_samples([], vartype=dimod.SPIN, energy=[])])
            t = self.tag_of(r)
        self.exp_result = t
        self.case.count("solves")
        return r

    def on_unmap(self, ev, ss, elements, incoming, outgoing):
        self.same_result(ss, "unmapping function")
        return super().on_unmap(ev, ss, elements, incoming, outgoing)


def c15(case):
    rng = case.rng
    run = StateRun(case)
    run.configure(max_n=30)
    mtype = rng.choice([None, SPIN, BIT])
    run.start(mtype or SPIN)
    run.with_solver = rng.random() < 0.5
    style = rng.random()
    if style < 0.15:
        pass
    elif style < 0.5:
        run.fail_rate[rng.choice(["map", "solve", "unmap"])] = rng.choice([0.3, 0.6])
    else:
        run.fail_rate = {k: rng.choice([0.15, 0.3, 0.5]) for k in run.fail_rate}
    run.execute(mtype=mtype, solver=SawatabiSolver() if run.with_solver else None)
    check_windows(case, run, run.windows())
    fails = [ev["step"] for ev in run.events if "fail" in ev]
    case.sign(tuple(fails))
    pattern = ["".join(("F" if "fail" in ev else "o") + ev["step"][0] for ev in g) for g in run.processed()]
    for a, b in zip(pattern, pattern[1:]):
        if "F" in a and "F" not in b:
            case.count("recoveries")


# ---------------------------------------------------------------- C16
class AttnRun(Run):
    """Maintains interactions with reference values and tracks every expected scale."""

    def start(self):
        self.rows = {}  # name -> [attr or None, scale]
        self.k = 0
        self.pool = self.rng.choice(["time", "random", "ties", "huge", "close", "close"])
        self.near = (self.rng.choice([0.0, 7.0, 1.6e9]), self.rng.choice([1e-5, 1e-4, 0.003]))

    def ref(self, e):
        rng = self.rng
        if rng.random() < self.missing:
            return None
        if self.pool == "time":
            return e[0]
        if self.pool == "ties":
            return float(rng.randint(0, 2))
        if self.pool == "close":
            return self.near[0] + self.near[1] * rng.randint(0, 20)
        if self.pool == "huge":
            return rng.choice([-1, 1]) * rng.uniform(0, 1e12)
        return rng.choice([rng.uniform(-50, 50), rng.randint(-5, 5)])

    def add(self, model, name, target, e):
        rng = self.rng
        r = self.ref(e)
        sc = rng.choice([1.0, 1.0, 2.5, rng.uniform(0.1, 3)])
        attrs = {} if r is None else {"attn_ts": r}
        if rng.random() < 0.3:
            attrs["other"] = rng.choice(["foo", 3, 2.5])
        kw = {"attributes": attrs} if attrs else {}
        if sc != 1.0:
            kw["scale"] = sc
        model.add_interaction(target, name=name, coefficient=rng.choice([-1, 1]) * rng.randint(1, 9) / 2.0, timestamp=rng.randint(0, 99), **kw)
        self.rows[name] = [r, {sc}]

    def on_map(self, ev, model, ss, elements, incoming, outgoing):
        rng = self.rng
        if rng.random() < self.fresh:
            model = LogicalModel(mtype=SPIN)
            self.rows = {}
            incoming, outgoing = elements, []
        top = max([e[1][0] for e in elements], default=0) + 1
        have = model.get_variables()["x"].shape[0] if "x" in model.get_variables() else 0
        if have == 0:
            model.variables("x", shape=(int(top),))
        elif top > have:
            model.append("x", shape=(int(top - have),))
        x = model.get_variables_by_name("x")
        for e in incoming:
            self.k += 1
            i = e[1][0]
            self.add(model, f"l{self.k}", x[i], e)
            others = [j for j in elements if j[1][0] != i]
            if others and rng.random() < 0.5:
                self.k += 1
                self.add(model, f"q{self.k}", (x[i], x[rng.choice(others)[1][0]]), e)
        for o in outgoing:
            i = o[1][0]
            lab = f"x[{i}]"
            for n, r in table(model).items():
                if lab in r["key"]:
                    self.rows.pop(n, None)
            model.delete_variable(x[i])
        # removals which are not compiled yet, often of the newest or the oldest
        if self.rows and rng.random() < 0.4:
            withref = [n for n, r in self.rows.items() if r[0] is not None]
            n = rng.choice(list(self.rows))
            if withref and rng.random() < 0.6:
                n = (max if rng.random() < 0.5 else min)(withref, key=lambda m: self.rows[m][0])
            model.remove_interaction(name=n)
            del self.rows[n]
            self.case.count("uncompiled_removals")
        if self.rows and rng.random() < 0.3:
            n = rng.choice(list(self.rows))
            v = rng.uniform(-20, 20) if self.pool != "close" else self.near[0] + self.near[1] * rng.randint(0, 20)
            model.update_interaction(name=n, attributes={"attn_ts": v})
            self.rows[n][0] = v
        if self.rows and rng.random() < 0.2:
            n = rng.choice(list(self.rows))
            v = rng.choice([0.5, 4.0])
            model.update_interaction(name=n, scale=v)
            self.rows[n][1] = {v}
        if rng.random() < 0.1 and not model.get_constraints():
            model.add_constraint(NHotConstraint(variables=[x[0]], label="hot"))
        self.before = snapshot(model, removed=False, dirty=False)
        self.maybe_fail("map", ev)
        return model

    def on_solve(self, ev, solver, model, prev, elements, incoming, outgoing):
        case = self.case
        after = snapshot(model, removed=False, dirty=False)
        b = {k: v for k, v in self.before.items() if k != "interactions"}
        a = {k: v for k, v in after.items() if k != "interactions"}
        case.check(a == b, "weighting changed something else than scales", diff_snap(b, a))
        t0, t1 = self.before["interactions"], after["interactions"]
        case.check(set(t0) == set(self.rows), "HARNESS rows", sorted(set(t0) ^ set(self.rows))) if set(t0) == set(self.rows) else self.harness("rows out of step")
        case.check(set(t0) == set(t1), "weighting lost or added interactions", sorted(set(t0) ^ set(t1)))
        refs = [r[0] for r in self.rows.values() if r[0] is not None]
        lo, hi = (min(refs), max(refs)) if refs else (0, 0)
        ms = self.opts.get("attenuation.min_scale")
        for n, r in self.rows.items():
            for f in ("body", "key", "coefficient", "timestamp", "attrs"):
                case.check(t0[n][f] == t1[n][f], f"weighting changed the {f} of an interaction", n, t0[n], t1[n])
            got = float(t1[n]["scale"])
            if self.algo != "attenuation" or r[0] is None:
                case.check(got in r[1], "the scale of an interaction that is not to be weighted changed", n, got, r[1], self.algo)
            elif lo < hi:
                want = ms + (1.0 - ms) * ((r[0] - lo) / (hi - lo))
                case.check(abs(got - want) <= 1e-9, "scale is not linear between the oldest and the newest reference value", n, r[0], (lo, hi), got, want)
                if r[0] == hi:
                    case.check(abs(got - 1.0) <= 1e-9, "scale of the newest", got)
                case.count("weighted_interactions")
            else:
                case.check(got in r[1] or got == 1.0, "scale when all reference values are equal", n, got)
            r[1].add(got)  # whether the next window sees the weighted scale depends on the runner
        case.count("weightings_checked")
        self.maybe_fail("solve", ev)
        return ev["n"]

    def harness(self, msg):
        raise HarnessError(msg)

    def guard(self, fn):
        try:
            return fn()
        except (Violation, HarnessError) as e:
            self.errors.append(e)
            raise


def c16(case):
    rng = case.rng
    run = AttnRun(case)
    run.configure(algos=["attenuation"] * 6 + ["window", "delta", "partial", "incremental"], max_n=20, big=30, data=lambda i: i)
    run.start()
    run.missing = rng.choice([0.0, 0.0, 0.3, 1.0])
    run.fresh = rng.choice([0.0, 0.0, 0.3, 1.0])
    run.fail_rate = {"map": 0.0, "solve": rng.choice([0.0, 0.0, 0.3]), "unmap": 0.0}
    run.execute(mtype=SPIN)
    for _, text in run.outputs:
        case.check("planned" in text or not text.startswith("Failed"), "a step failed", text[:600])
    case.check(len(run.outputs) == len(run.windows()) or run.late, "number of records", len(run.outputs), len(run.windows()))
    case.sign(run.pool, run.missing, run.fresh)


# ---------------------------------------------------------------- C17
LINES = ["12", "0", "007", "9223372036854775807", "", " ", "-5", "+5", "5 ", " 5", "1.5", "1e3", "abc", "12a", "a12", "0x10", "１２", "٣", "1,000", "1_000", "42", "99", "7", "-", "12 13", "½", "²", "#5", "\t5"]
DIGITS = set("0123456789")


class TextRun(Run):
    def on_unmap(self, ev, ss, elements, incoming, outgoing):
        ev["text"] = self.rng.choice(["solution {}", "é {}", "{}", "[x] {}", " {} ", "%s {}"]).format(f"{ev['n']}/{len(elements)}")
        return ev["text"]


def rand_json(rng, d=0):
    k = rng.randint(0, 7 if d < 2 else 4)
    if k == 0:
        return rng.randint(-100, 100)
    if k == 1:
        return rng.choice(["s", "é", "", "a b", "1"])
    if k == 2:
        return rng.choice([None, True, False])
    if k == 3:
        return rng.choice([rng.randint(-80, 80) / 8, rng.random(), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 15)])
    if k in (4, 5):
        return [rand_json(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice("abcd"): rand_json(rng, d + 1) for _ in range(rng.randint(0, 3))}


def c17(case):
    rng = case.rng
    run = TextRun(case)
    run.configure(max_n=18)
    tmp = tempfile.mkdtemp(prefix="c17-")
    try:
        c17_body(case, run, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def c17_body(case, run, tmp):
    rng = case.rng
    mode = rng.choice(["number", "number", "json", "text", "memory", "pubsub"])
    patches = []
    input_fn = None
    if mode != "memory":
        run.reassign = True
        run.runner = rng.choice(["DirectRunner", "DirectRunner", "BundleBasedDirectRunner"])
        run.no_gaps()
        path = os.path.join(tmp, "in.txt")
        n = rng.randint(0, 20) if rng.random() < 0.97 else rng.randint(260, 420)
        if mode in ("number", "pubsub"):
            lines = [rng.choice(LINES) if rng.random() < 0.6 else str(rng.randint(0, 10**rng.randint(1, 12))) for _ in range(n)]
            want = [int(l) for l in lines if l and set(l) <= DIGITS]
        elif mode == "json":
            want = [rand_json(rng) for _ in range(n)]
            lines = [json.dumps(v, ensure_ascii=rng.random() < 0.5) for v in want]
        else:
            lines = want = [rng.choice(LINES) for _ in range(n)]
        end = "\n" if rng.random() < 0.7 or (lines and lines[-1] == "") else ""
        with open(path, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + (end if lines else ""))
        if mode == "number":
            input_fn = IO.read_from_text_as_number(path)
        elif mode == "json":
            input_fn = IO.read_from_text_as_json(path)
        elif mode == "text":
            input_fn = IO.read_from_text(path)
        else:
            asked = []

            def fake(topic=None, subscription=None, **kw):
                asked.append((topic, subscription))
                return beam.Create([l.encode("utf-8") for l in lines])

            name = {"topic": "tt"} if rng.random() < 0.5 else {"subscription": "ss"}
            js = rng.random() < 0.4
            if js:
                want = [rand_json(rng) for _ in range(n)]
                lines[:] = [json.dumps(v) for v in want]
            with mock.patch("apache_beam.io.ReadFromPubSub", fake):
                input_fn = (IO.read_from_pubsub_as_json if js else IO.read_from_pubsub_as_number)(project="pp", **name)
            case.check(asked == [("projects/pp/topics/tt", None) if "topic" in name else (None, "projects/pp/subscriptions/ss")], "another topic or subscription is read", asked)
        run.data = want
        run.ts = [float(i) for i in range(len(want))]
        case.ev("input", mode, lines)
    opt = {}
    if rng.random() < 0.5:
        opt["output.with_timestamp"] = rng.random() < 0.8
    if rng.random() < 0.6:
        opt["output.prefix"] = rng.choice(["<< ", "", "é", "{}", "%", " ", "\t"])
    if rng.random() < 0.6:
        opt["output.suffix"] = rng.choice([" >>", "", " ;", "{0}", " ", "\t", ".", "  "])
    run.opts.update(opt)
    case.ev("output options", opt)
    case.sign(mode, tuple(sorted(opt)), run.algo)
    out = os.path.join(tmp, "out.txt")
    sink = rng.choice(["file", "file", "stdout", "pubsub", "none"])
    if sink == "file" and run.runner == "TestStream":
        sink = "stdout"
    to_file = sink == "file"
    rec = beam.ParDo(stream_cb.Recorder())
    printed = io.StringIO()
    stream_cb.PUBLISHED.clear()
    if sink == "pubsub":
        asked_out = []
        with mock.patch("apache_beam.io.WriteToPubSub", lambda topic=None, **kw: asked_out.append((topic, kw)) or stream_cb.Publish()):
            output_fn = rec | IO.write_to_pubsub(project="qq", topic="uu")
        case.check(asked_out and all(t == "projects/qq/topics/uu" for t, _ in asked_out), "records are published to another topic", asked_out)
    else:
        output_fn = {"file": lambda: rec | IO.write_to_text(out), "stdout": lambda: rec | IO.write_to_stdout(), "none": lambda: rec}[sink]()
    with contextlib.redirect_stdout(printed):
        run.execute(input_fn=input_fn, output_fn=output_fn)
    if sink == "stdout":
        text = "".join(t + "\n" for _, t in run.outputs)
        case.check(sorted(printed.getvalue().split("\n")) == sorted(text.split("\n")), "printed lines differ from the output records", printed.getvalue()[:300], text[:300])
        case.count("printed_checked")
    elif sink == "pubsub":
        case.check(sorted(stream_cb.PUBLISHED, key=repr) == sorted((t.encode("utf-8") for _, t in run.outputs), key=repr), "published messages are not the UTF-8 encoded records", stream_cb.PUBLISHED[:5])
        case.count("published_checked")
    wins = run.windows()
    # every element was seen with its index, event time and value
    want_el = {key(e): e for e in run.elements()}
    seen_el = {}
    for g in run.processed():
        for e in g[0]["elements"]:
            case.check(key(e) in want_el and want_el[key(e)] == e, "an element has the wrong index, event time or value", e)
            case.check(type(e[1][1]) is type(want_el[key(e)][1][1]), "an element's value has another type", e)
            seen_el[key(e)] = e
    case.count("elements_seen", len(seen_el))
    # decoration, record by record
    groups = run.processed()
    gi = 0
    ends = set()
    for (ts, text), exact in zip(run.outputs, run.stamps):
        end = run.window_of(ts, wins)
        case.check(end is not None and end not in ends, "a record belongs to no window, or to one that already has a record", ts, text)
        ends.add(end)
        pre, suf = opt.get("output.prefix", ""), opt.get("output.suffix", "")
        case.check(isinstance(text, str) and text.startswith(pre) and text.endswith(suf) and len(text) >= len(pre) + len(suf), "prefix or suffix missing", text, opt)
        core = text[len(pre) : len(text) - len(suf)]
        if opt.get("output.with_timestamp"):
            stamp = f"[{exact.to_utc_datetime()}] "
            case.check(core.startswith(stamp), "timestamp missing or wrong", text, stamp)
            core = core[len(stamp) :]
        if core.startswith(OUTDATED):
            continue
        case.check(gi < len(groups), "a record without a mapping", text)
        g = groups[gi]
        gi += 1
        case.check(len(g) == 3, "a step failed", text[:400])
        case.check(core == g[-1]["text"], "the record is not the unmapped text with exactly the configured decoration", text, g[-1]["text"], opt)
        case.count("records_decorated")
    case.check(ends == set(wins), "windows without a record (elements lost)", sorted(set(wins) - ends)[:5])
    if to_file:
        lines = []
        for f in sorted(glob.glob(out + "*")):
            with open(f, encoding="utf-8") as fd:
                lines += fd.read().split("\n")[:-1]
        case.check(sorted(lines) == sorted(t for _, t in run.outputs), "written files differ from the output records", sorted(lines)[:5], sorted(t for _, t in run.outputs)[:5])
        case.count("files_checked")
    if mode != "memory" and wins and not any(t.startswith(OUTDATED) or OUTDATED in t for _, t in run.outputs):
        gap = run.algo in SLIDING and run.opts["window.period"] > run.opts["window.size"]
        if not gap:
            case.check(len(seen_el) == len(want_el), "elements were lost", len(seen_el), len(want_el))
    case.count("inputs_" + mode)


# ---------------------------------------------------------------- C24
class IncrRun(Run):
    """The incremental recipe of the sample applications, against a model built from scratch."""

    def edit(self, model, elements, incoming, outgoing):
        top = max([e[1][0] for e in elements], default=0) + 1
        have = model.get_variables()["x"].shape[0] if "x" in model.get_variables() else 0
        if have == 0:
            model.variables("x", shape=(int(top),)) if self.rng.random() < 0.5 else model.append("x", shape=(int(top),))
        elif top > have:
            model.append("x", shape=(int(top - have),))
        x = model.get_variables_by_name("x")
        inc = {key(e) for e in incoming}
        for i in incoming:
            a = i[1][0]
            if self.recipe == "npp":
                for j in elements:
                    if key(j) == key(i) or (key(j) in inc and key(j) > key(i)):
                        continue
                    model.add_interaction((x[a], x[j[1][0]]), coefficient=-1.0 * i[1][1] * j[1][1], attributes={"n": str(j)})
            else:
                model.add_interaction(x[a], coefficient=float(i[1][1]), timestamp=i[0])
        if self.recipe == "hot":
            if "pick" not in model.get_constraints():
                model.add_constraint(NHotConstraint(n=2, strength=self.strength, label="pick"))
            if incoming:
                model.get_constraints_by_label("pick").add_variable({x[e[1][0]] for e in incoming})
        for o in outgoing:
            model.delete_variable(target=x[o[1][0]])
        return model

    def scratch(self, elements):
        """From the window's elements alone: reference polynomial."""
        p = Poly()
        if self.recipe == "npp":
            for a, b in itertools.combinations(elements, 2):
                p.add([f"x[{a[1][0]}]", f"x[{b[1][0]}]"], 1.0 * a[1][1] * b[1][1])
        else:
            for e in elements:
                p.add([f"x[{e[1][0]}]"], -float(e[1][1]))
            p.add_poly(penalty_poly("nhot", self.strength, {f"x[{e[1][0]}]" for e in elements}, n=2))
        return p

    def on_map(self, ev, model, ss, elements, incoming, outgoing):
        return self.edit(model, elements, incoming, outgoing)

    def on_solve(self, ev, solver, model, prev, elements, incoming, outgoing):
        case = self.case
        p = model.to_physical()
        ref = self.scratch(elements)
        check_poly(case, p.to_bqm(), ref, None, self.mt, "model maintained over the stream")
        built = self.edit(LogicalModel(mtype=self.mt), elements, elements, [])
        q = built.to_physical()
        a, b = bqm_poly(p.to_bqm()), bqm_poly(q.to_bqm())
        case.check(set(a[0]) == set(b[0]) and all(close(a[0][k], b[0][k], 1e-9 * abs(b[0][k])) for k in b[0]) and close(a[1], b[1], 1e-9), "the maintained model differs from the one built from scratch", a, b)
        t0, t1 = table(model), table(built)
        case.check(len(t0) == len(t1) and {r["key"] for r in t0.values()} == {r["key"] for r in t1.values()}, "live interactions differ from those of a model built from scratch", sorted(set(t0) ^ set(t1))[:6])
        case.count("windows_compared")
        self.processed_n = getattr(self, "processed_n", 0) + 1
        if self.processed_n > 1 and outgoing:
            case.count("windows_with_history")
        self.maybe_fail("solve", ev)
        if not a[0] or len(a[0]) == 0 or len(elements) > 10:
            return None
        return solver.solve(p)

    def on_unmap(self, ev, ss, elements, incoming, outgoing):
        case = self.case
        ev["text"] = f"solution {ev['n']}"
        if ss is None:
            return ev["text"]
        s = ss.first.sample
        vals = [e[1][1] for e in elements]
        if self.recipe == "npp":
            # an element with value zero has no interaction with a non-zero coefficient
            side = [s.get(f"x[{e[1][0]}]", 1) for e in elements]
            got = abs(sum(a * b for a, b in zip(side, vals)))
            reach = {0}
            for v in vals:
                reach = {r + v for r in reach} | {r - v for r in reach}
            want = min(abs(r) for r in reach)
            if all(vals):
                case.check(got == want, "the unmapped partition is not an optimum of the window's problem", vals, got, want)
        else:
            lab = [f"x[{e[1][0]}]" for e in elements]
            ref = self.scratch(elements)
            e_got = ref.energy({l: s.get(l, 0) for l in lab})
            best = min(ref.energy(dict(zip(lab, v))) for v in itertools.product((0, 1), repeat=len(lab)))
            case.check(close(e_got, best, 1e-9 * sum(ref.m.values())), "the unmapped selection is not an optimum of the window's problem", e_got, best)
        case.count("optima_checked")
        self.maybe_fail("unmap", ev)
        return ev["text"]


def c24(case):
    rng = case.rng
    run = IncrRun(case)
    run.recipe = rng.choice(["npp", "npp", "hot"])
    run.mt = SPIN if run.recipe == "npp" else BIT
    run.strength = rng.choice([1.0, 30.0, 2.5])
    lo = rng.choice([1, 1, 0])
    run.configure(algos=["window", "window", "delta", "incremental", "partial"], max_n=18, big=30, data=lambda i: rng.randint(lo, 30))
    run.fail_rate = {"map": 0.0, "solve": rng.choice([0.0, 0.0, 0.3]), "unmap": rng.choice([0.0, 0.3])}
    run.execute(mtype=run.mt, solver=LocalSolver(exact=True))
    for _, text in run.outputs:
        case.check("planned" in text or not text.startswith("Failed"), "a step failed", text[:800])
    case.sign(run.recipe)
