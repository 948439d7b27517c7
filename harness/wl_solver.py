"""Workloads and monitors for the solvers (C08-C12) and the NPP reference solver (C18)."""
import copy
import gzip
import http.server
import itertools
import json
import math
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import threading

import dimod
import neal
import numpy as np

from common import HarnessError
from history import Hist, bqm_poly, check_physical, physical_numbers
from sawatabi.model import LogicalModel
from sawatabi.solver import DWaveSolver, LocalSolver, OptiganSolver, SawatabiSolver
from sawatabi.utils.npp import solve_npp_with_dp
from shadow import BIT, SPIN, Val, close
from wl_model import EDIT, n_ops, start

DOM = {SPIN: (-1, 1), BIT: (0, 1)}


class Built:
    """A compiled model with its reference energy."""

    def __init__(self, case, hist):
        self.h = hist
        self.p = hist.compile()
        self.poly, _ = hist.s.energy_poly(hist.last[1])
        self.bqm = self.p.to_bqm()
        self.shift = float(self.bqm.offset) - self.poly.const()  # non-zero only under the known finding
        if close(self.shift, 0.0, self.poly.tol(frozenset())):
            self.shift = 0.0
        self.vars = sorted(self.bqm.variables)
        self.mtype = hist.s.mtype
        self.n = len(self.vars)

    def energy(self, sample):
        e = self.shift
        for k, c in self.poly.t.items():
            v = c
            for l in k:
                # a variable all of whose terms cancelled does not occur in the model
                v *= sample.get(l, 0) if c == 0 or l not in sample else sample[l]
            e += v
        return e

    def tol(self):
        return 1e-9 * sum(self.poly.m.values()) + 1e-300


def build(case, max_vars=12, mtype=None, wide=None, need=1, constraints=True, tries=20):
    rng = case.rng
    for _ in range(tries):
        h = Hist(case, mtype=mtype, placeholders=rng.choice([0.0, 0.0, 0.2]), wide=rng.random() < 0.15 if wide is None else wide, max_arrays=3)
        for _ in range(rng.randint(1, 3)):
            # arrays longer than ten make the text order of labels differ from the index order
            h.declare(shape=rng.choice([(rng.randint(1, 5),), (rng.randint(10, 13),), (rng.randint(1, 2), rng.randint(1, 3)), (2, 11)]))
        w = dict(EDIT, update=2, append=1)
        if constraints and rng.random() < 0.4:
            w["add_constraint"] = 2
        if rng.random() < 0.4:
            w["delete"], w["fix"] = 1, 1
        h.run_ops(rng.randint(3, 8 + 2 * max_vars), w)
        if rng.random() < 0.5:
            # scattered labels such as x[2], x[10], x[11]
            labs = h.alive()
            for l in rng.sample(labs, min(len(labs), 4)):
                h.add(key=(l,), coef=Val(rng.randint(1, 9) / 2.0))
        if rng.random() < 0.12:
            h.convert()
        if rng.random() < 0.4:
            h.offset()
        b = Built(case, h)
        if b.poly.t and need <= b.n <= max_vars:
            case.ev("model", b.mtype, b.n, "variables", len(b.poly.t), "terms")
            return b
        case.count("models_of_unsuitable_size")
    return simple(case, max_vars, mtype)


def simple(case, n, mtype=None, dyadic=False, dense=0.6, name="x", offset=True, unit=1.0):
    rng = case.rng
    h = Hist(case, mtype=mtype, wide=False)
    n = max(1, n)
    h.declare(name, (n,))
    ls = h.s.labels()

    def num():
        return Val(unit * rng.choice([-1, 1]) * rng.randint(1, 32) / 8.0) if dyadic else Val(unit * rng.choice([-1, 1]) * rng.uniform(0.2, 5))

    for i, a in enumerate(ls):
        if rng.random() < 0.8 or n == 1:
            h.add(key=(a,), coef=num(), scale=Val(1.0), attrs=None)
        for b in ls[i + 1 :]:
            if rng.random() < dense:
                h.add(key=(a, b) if a < b else (b, a), coef=num(), scale=Val(1.0), attrs=None)
    if offset:
        h.m.offset(2.5 * unit)
        h.s.set_offset(Val(2.5 * unit))
    b = Built(case, h)
    if b.n == 0:
        h.add(key=(ls[0],), coef=Val(1.5 * unit), scale=Val(1.0), attrs=None)
        b = Built(case, h)
    return b


def small_or_huge(case, n):
    """A model all of whose coefficients are tiny, or all huge."""
    rng = case.rng
    return simple(case, n, dense=rng.random(), offset=rng.random() < 0.5, unit=rng.choice([1e-13, 1e-9, 1e-6, 1e6, 1e12]))


def edited(case, b):
    """The same logical model after a few more edits, compiled again."""
    rng = case.rng
    names = list(b.h.s.rows)
    for n in rng.sample(names, min(len(names), rng.randint(1, 4))):
        if rng.random() < 0.7 or len(b.h.s.rows) < 3:
            b.h.update(n, coef=Val(rng.choice([-1, 1]) * rng.randint(1, 32) / 8.0))
        else:
            b.h.remove(n)
    b2 = Built(case, b.h)
    return b2 if b2.n else b


def check_rows(case, b, ss, reads=None, what="", exact_tol=False):
    case.check(ss.vartype is (dimod.SPIN if b.mtype == SPIN else dimod.BINARY), f"{what}: sample set has the wrong variable type", ss.vartype)
    case.check(set(ss.variables) == set(b.vars) and len(ss.variables) == b.n, f"{what}: variables of the samples differ from the model's", sorted(ss.variables), b.vars)
    dom = DOM[b.mtype]
    total = 0
    for row in ss.data(["sample", "energy", "num_occurrences"]):
        s = dict(row.sample)
        case.check(set(s) == set(b.vars), f"{what}: a row does not assign exactly the model's variables")
        case.check(all(int(v) in dom and float(v) == int(v) for v in s.values()), f"{what}: value outside the domain", s)
        want = b.energy({l: int(v) for l, v in s.items()})
        case.check(close(float(row.energy), want, b.tol()), f"{what}: reported energy {float(row.energy)!r} differs from the energy {want!r} of the assignment", s)
        case.check(row.num_occurrences >= 1, f"{what}: occurrence count below one")
        total += int(row.num_occurrences)
        case.count("rows_checked")
    if reads is not None:
        case.check(total == reads, f"{what}: occurrence counts add up to {total}, {reads} reads were requested")


def sawatabi_options(rng, b=None, reads=None, sweeps=None):
    o = {}
    o["num_reads"] = reads if reads is not None else rng.choice([1, 1, 2, 3, 5, 8])
    o["num_sweeps"] = sweeps if sweeps is not None else rng.choice([1, 2, 3, 10, 30, 60])
    if rng.random() < 0.6:
        o["cooling_rate"] = rng.choice([0.9, 0.5, 0.99, 1.0, rng.uniform(0.3, 1.0)])
    if rng.random() < 0.6:
        o["initial_temperature"] = rng.choice([1.0, 0.01, 100.0, 1e-6, rng.uniform(0.1, 30)])
    if rng.random() < 0.6:
        o["pickup_mode"] = rng.choice(["random", "sequential"])
    if rng.random() < 0.7:
        o["seed"] = rng.choice([0, 1, 12345, rng.randint(0, 2**32 - 1)])
    k = rng.random()
    if k < 0.25:
        o["reverse_options"] = {"reverse_period": rng.randint(0, o["num_sweeps"] + 2), "reverse_temperature": rng.choice([1.0, 10.0, 0.1])}
    elif k < 0.35:
        o["reverse_options"] = rng.choice([None, {}])
    if b is not None and rng.random() < 0.4:
        o["initial_states"] = random_states(rng, b, o["num_reads"])
    return o


def random_states(rng, b, n):
    dom = DOM[b.mtype]
    res = []
    for _ in range(n):
        vs = list(b.vars)
        rng.shuffle(vs)
        res.append({l: rng.choice(dom) for l in vs})
    return res


def neal_options(rng, b=None):
    o = {"num_reads": rng.choice([1, 2, 4, 9]), "num_sweeps": rng.choice([1, 5, 40]), "seed": rng.choice([1, rng.randint(1, 2**31), rng.randint(1, 2**31)])}
    if rng.random() < 0.3:
        o["beta_range"] = rng.choice([(0.1, 3.0), [0.01, 10.0]])
    if b is not None and rng.random() < 0.25:
        o["initial_states"] = random_states(rng, b, o["num_reads"])
    return o


# ---------------------------------------------------------------- C08
def c08(case):
    rng = case.rng
    sol = SawatabiSolver()
    sa = LocalSolver(exact=False) if rng.random() < 0.5 else LocalSolver()
    b = None
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if b is not None and k < 0.45:
            b = edited(case, b)  # solver objects are used again for another version of the model
        elif k < 0.52:
            b = small_or_huge(case, rng.choice([1, 3, 8]))
        elif k < 0.56:
            b = simple(case, rng.randint(30, 70), dense=rng.choice([0.02, 0.1, 0.5]))
        else:
            b = build(case, max_vars=rng.choice([4, 9, 14, 30]))
        frozen = physical_numbers(b.p)
        keep = []
        if rng.random() < 0.2:
            sol = SawatabiSolver()
        for _ in range(rng.randint(1, 3)):
            o = sawatabi_options(rng, b)
            if rng.random() < 0.04 and b.n <= 30:
                o = sawatabi_options(rng, b, reads=rng.choice([40, 110, 260]), sweeps=rng.choice([1, 2, 3]))
            stats = rng.random() < 0.4
            case.ev("sawatabi", {k: v for k, v in o.items() if k != "initial_states"})
            r = sol.solve(b.p, need_stats=stats, **copy.deepcopy(o))
            ss = r[0] if stats else r
            check_rows(case, b, ss, o["num_reads"], "built-in annealer")
            keep.append((ss, ss.copy(), o["num_reads"]))
            case.sign("sawatabi", b.n, b.mtype, o["num_reads"])
            case.count("sawatabi_runs")
        try:
            nb = neal.default_beta_range(b.bqm)
        except Exception:  # noqa   (a degenerate model the sampler library itself refuses)
            nb = None
        if nb is not None:
            got = sa.default_beta_range(b.p)
            case.check(tuple(map(float, got)) == tuple(map(float, nb)), "default temperature range is not that of the model", got, nb)
        if nb is not None and not b.h.wide:
            for _ in range(rng.randint(1, 2)):
                o = neal_options(rng, b)
                if "initial_states" in o and not o["initial_states"][0]:
                    o.pop("initial_states")
                case.ev("simulated annealing", {k: v for k, v in o.items() if k != "initial_states"})
                ss = sa.solve(b.p, **copy.deepcopy(o))
                check_rows(case, b, ss, o["num_reads"], "simulated annealing")
                keep.append((ss, ss.copy(), o["num_reads"]))
                case.count("neal_runs")
        if b.n <= 10:
            ss = LocalSolver(exact=True).solve(b.p)
            check_rows(case, b, ss, 2**b.n, "exact solver")
            case.count("exact_runs")
        for ss, orig, reads in keep:
            case.check(ss == orig, "a sample set returned earlier changed afterwards")
            check_rows(case, b, ss, reads, "earlier result")
        case.check(physical_numbers(b.p) == frozen, "solving changed the model")
    if rng.random() < 0.5:
        reject_empty(case)


def reject_empty(case):
    rng = case.rng
    m = LogicalModel(mtype=rng.choice([SPIN, BIT]))
    x = m.variables("x", shape=(3,))
    k = rng.randint(0, 3)
    if k == 1:
        m.add_interaction(x[0], coefficient=2.0)
        m.remove_interaction(x[0])
    elif k == 2:
        m.add_interaction((x[0], x[1]), coefficient=2.0)
        m.delete_variable(x[0])
    elif k == 3:
        m.offset(3.0)
    p = m.to_physical()
    for name, s in (("built-in annealer", SawatabiSolver()), ("exact solver", LocalSolver(exact=True)), ("simulated annealing", LocalSolver(exact=False))):
        try:
            s.solve(p)
        except ValueError:
            case.count("empty_rejected")
        else:
            case.check(False, f"{name}: an empty model was accepted")


# ---------------------------------------------------------------- C09
def c09(case):
    rng = case.rng
    b = build(case, max_vars=rng.choice([3, 6, 8, 10])) if rng.random() < 0.85 else small_or_huge(case, rng.randint(1, 8))
    if rng.random() < 0.007:
        b = simple(case, rng.choice([11, 12, 13, 13]), dense=0.3)
        case.count("large_enumerations")
    s = LocalSolver(exact=True)
    for i in range(rng.randint(1, 3) if b.n <= 10 else 1):
        if i and rng.random() < 0.5:
            b2 = edited(case, b)
            b = b2 if b2.n <= 10 else b
        ss = s.solve(b.p)
        check_rows(case, b, ss, 2**b.n, "exact solver")
        seen = {}
        for row in ss.data(["sample", "energy"]):
            key = tuple(int(row.sample[l]) for l in b.vars)
            case.check(key not in seen, "an assignment occurs twice", key)
            seen[key] = float(row.energy)
        case.check(len(seen) == 2**b.n, "number of assignments", len(seen), b.n)
        all_e = {a: b.energy(dict(zip(b.vars, a))) for a in itertools.product(DOM[b.mtype], repeat=b.n)}
        best = min(all_e.values())
        tol = 2 * b.tol()
        case.check(close(float(ss.first.energy), best, tol), "the lowest row is not a global minimum", float(ss.first.energy), best)
        ground = {a for a, e in all_e.items() if e <= best + tol}
        low = {tuple(int(r.sample[l]) for l in b.vars) for r in ss.lowest(rtol=0, atol=2 * tol).data(["sample"])}
        case.check({a for a, e in all_e.items() if e == best} <= low, "a ground state is missing")
        case.check(low <= {a for a, e in all_e.items() if e <= best + 6 * tol}, "a non-ground state is reported as lowest")
        case.count("assignments_enumerated", len(seen))
        case.count("ground_states", len(ground))
    # the optimum is that of the logical model's energy, written out independently
    case.sign(b.n, b.mtype, round(best, 6))


# ---------------------------------------------------------------- C10
def result_key(r):
    """Everything a solve returns, as plain data (timing excluded)."""
    ss, stats = r if isinstance(r, tuple) else (r, None)
    rows = [(tuple(sorted((l, int(v)) for l, v in row.sample.items())), float(row.energy), int(row.num_occurrences)) for row in ss.data(["sample", "energy", "num_occurrences"], sorted_by=None)]
    st = None
    if stats is not None:
        st = [{k: [float(x) for x in v] for k, v in sorted(d.items())} for d in stats]
    return (str(ss.vartype), tuple(ss.variables), rows, st)


def global_random_state():
    s = np.random.get_state()
    return (random.getstate(), s[0], s[1].tobytes(), s[2:])


def run_one(solver_kind, p, o):
    if solver_kind == "sawatabi":
        return SawatabiSolver().solve(p, need_stats=True, **o)
    return LocalSolver(exact=False).solve(p, **o)


def c10(case):
    rng = case.rng
    mode = rng.random()
    jobs = []
    for _ in range(rng.randint(2, 4)):
        if jobs and rng.random() < 0.3:
            b = edited(case, jobs[-1][1])
        else:
            b = build(case, max_vars=20, wide=False) if rng.random() < 0.6 else simple(case, rng.randint(8, 16) if rng.random() < 0.9 else 30, dyadic=True)
        kind = rng.choice(["sawatabi", "sawatabi", "neal"])
        if kind == "sawatabi":
            o = sawatabi_options(rng, b)
            o["seed"] = rng.choice([0, 0, 1, 2, rng.randint(0, 2**32 - 1), rng.randint(0, 2**62)])
        else:
            try:
                neal.default_beta_range(b.bqm)
            except Exception:  # noqa
                continue
            o = neal_options(rng, b)
        jobs.append((kind, b, o))
        case.ev("job", kind, b.n, {k: v for k, v in o.items() if k != "initial_states"})
        case.sign(kind, b.n, o.get("seed"))
    if not jobs:
        return
    frozen = [physical_numbers(b.p) for _, b, _ in jobs]
    opts = [copy.deepcopy(o) for _, _, o in jobs]
    base = []
    held = []
    for kind, b, o in jobs:
        g0 = global_random_state()
        r = run_one(kind, b.p, o)
        case.check(global_random_state() == g0, f"solving ({kind}) changed the global random state")
        base.append(result_key(r))
        held.append(r)
        case.count("base_runs")
    # other global seeds, other solver objects, reused solver objects, other order
    shared = {"sawatabi": SawatabiSolver(), "neal": LocalSolver(exact=False)}
    for _ in range(rng.randint(2, 5)):
        i = rng.randrange(len(jobs))
        kind, b, o = jobs[i]
        np.random.seed(rng.randint(0, 1000))
        random.seed(rng.randint(0, 1000))
        if rng.random() < 0.4:
            try:
                run_noise(rng, shared, jobs)
            except ValueError:
                pass
        g0 = global_random_state()
        if rng.random() < 0.5:
            r = shared[kind].solve(b.p, **(dict(o, need_stats=True) if kind == "sawatabi" else o))
        else:
            r = run_one(kind, b.p, o)
        case.check(global_random_state() == g0, f"solving ({kind}) changed the global random state")
        case.check(result_key(r) == base[i], f"a seeded {kind} solve is not reproducible", jobs[i][2].get("seed"), diff_result(base[i], result_key(r)))
        case.count("repeat_runs")
        p2 = pickle.loads(pickle.dumps(b.p))
        if rng.random() < 0.3:
            case.check(result_key(run_one(kind, p2, o)) == base[i], "a seeded solve of a copied model differs")
    # concurrently, separate solver objects, aggressive thread switching
    if rng.random() < 0.6:
        threads_check(case, jobs, base)
    # different seeds give different streams
    if rng.random() < 0.6:
        b = simple(case, rng.randint(12, 18), dyadic=True)
        s1, s2 = rng.sample(range(0, 50), 2) if rng.random() < 0.7 else rng.sample([0, 1, 2, 2**31, 2**32 - 1], 2)
        o = {"num_reads": 6, "num_sweeps": 3, "initial_temperature": 5.0}
        r1, r2 = result_key(run_one("sawatabi", b.p, dict(o, seed=s1))), result_key(run_one("sawatabi", b.p, dict(o, seed=s2)))
        case.check(r1 != r2, "two different seeds gave identical runs", s1, s2)
        case.check(result_key(run_one("sawatabi", b.p, dict(o, seed=s1))) == r1, "not reproducible", s1)
        case.count("seed_pairs")
    for i, (kind, b, o) in enumerate(jobs):
        case.check(physical_numbers(b.p) == frozen[i], "solving changed the model")
        case.check(o == opts[i], "solving changed the options or initial states passed in", o, opts[i])
        case.check(result_key(held[i]) == base[i], "an earlier result changed")
    if case.index % 30 == 3:
        subprocess_check(case, jobs, base)


def run_noise(rng, shared, jobs):
    kind, b, o = rng.choice(jobs)
    o = dict(o)
    o.pop("initial_states", None)
    if kind == "sawatabi":
        o["seed"] = rng.choice([None, 0, 7])
    shared[kind].solve(b.p, **o)


def diff_result(a, b):
    for name, x, y in zip(("vartype", "variables", "rows", "stats"), a, b):
        if x != y:
            return f"{name}: {str(x)[:300]} / {str(y)[:300]}"


def threads_check(case, jobs, base):
    rng = case.rng
    out = {}
    errs = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        todo = [i for i in range(len(jobs)) for _ in range(2)]
        start_evt = threading.Event()

        def work(slot, i):
            start_evt.wait()
            try:
                kind, b, o = jobs[i]
                out[slot] = (i, result_key(run_one(kind, b.p, o)))
            except Exception as e:  # noqa
                errs.append(repr(e))

        ts = [threading.Thread(target=work, args=(slot, i)) for slot, i in enumerate(todo)]
        for t in ts:
            t.start()
        start_evt.set()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    case.check(not errs, "a concurrent solve failed", errs[:1])
    for i, r in out.values():
        case.check(r == base[i], "a concurrent seeded solve differs from the sequential one", jobs[i][0], diff_result(base[i], r))
    case.count("concurrent_runs", len(out))


CHILD = r"""
import os, sys, pickle
sys.path.insert(0, sys.argv[1])
import warnings; warnings.simplefilter("ignore")
import wl_solver
jobs = pickle.load(sys.stdin.buffer)
res = []
for kind, p, o in jobs:
    if isinstance(p, bytes):
        p = pickle.loads(p)
    else:
        p = wl_solver.rebuild(p)
    res.append(wl_solver.result_key(wl_solver.run_one(kind, p, o)))
out = os.fdopen(3, "wb")
pickle.dump(res, out)
out.close()
"""


def rebuild(spec):
    mtype, n, terms, cons = spec
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(n,))
    for k, c in terms:
        m.add_interaction(x[k[0]] if len(k) == 1 else (x[k[0]], x[k[1]]), coefficient=c)
    for i, (kind, vs) in enumerate(cons or []):
        label, vs = "constraint %d" % i, [x[j] for j in vs]
        if kind == "nhot":
            c = NHotConstraint(variables=vs, n=2, strength=4.0, label=label)
        elif kind == "zoh":
            c = ZeroOrOneHotConstraint(variables=vs, strength=1.5, label=label)
        else:
            c = EqualityConstraint(variables_1=vs[:3], variables_2=vs[3:], strength=2.0, label=label)
        m.add_constraint(c)
    return m.to_physical()


def subprocess_check(case, jobs, base):
    """The same solves in fresh processes under other hash seeds."""
    rng = case.rng
    specs = []
    for _ in range(8):
        n = rng.randint(8, 14)
        few = rng.choice([0, n // 2, n])
        dens = rng.choice([0.05, 0.4]) if few else 0.1
        terms = [((i,), rng.choice([-1, 1]) * rng.randint(1, 32) / 8.0) for i in range(few)]
        terms += [((i, j), rng.choice([-1, 1]) * rng.randint(1, 32) / 8.0) for i in range(n) for j in range(i + 1, n) if rng.random() < dens or (i, j) == (0, n - 1)]
        specs.append((rng.choice([SPIN, BIT]), n, terms, [(rng.choice(["nhot", "zoh", "eq"]), rng.sample(range(n), 6)) for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else None))
    opts = [{"num_reads": 3, "num_sweeps": 12, "seed": rng.choice([0, 5])} for _ in specs]
    kinds = [("sawatabi", "neal")[i % 2] for i in range(len(specs))]
    for k, o in zip(kinds, opts):
        if k == "neal":
            o["seed"] += 7
    mine = [result_key(run_one(k, rebuild(s), o)) for k, s, o in zip(kinds, specs, opts)]
    payload = [(k, pickle.dumps(b.p), o) for k, b, o in jobs] + list(zip(kinds, specs, opts))
    want = list(base) + mine
    here = os.path.dirname(os.path.abspath(__file__))
    for hs in ("random", str(rng.randint(1, 9999))):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        rfd, wfd = os.pipe()
        os.dup2(wfd, 203)
        try:
            p = subprocess.Popen([sys.executable, "-c", CHILD.replace("os.fdopen(3", "os.fdopen(203"), here], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, pass_fds=(203,))
            os.close(203)
            os.close(wfd)
            t = threading.Thread(target=lambda: (p.stdin.write(pickle.dumps(payload)), p.stdin.close()))
            t.start()
            err = []
            t2 = threading.Thread(target=lambda: err.append(p.stderr.read()))
            t2.start()
            with os.fdopen(rfd, "rb") as f:
                data = f.read()
            t.join()
            t2.join()
            p.wait()
        finally:
            pass
        case.check(p.returncode == 0, "a solve in another process failed", (err[0] if err else b"").decode(errors="replace")[-500:])
        res = pickle.loads(data)
        for i, (r, w) in enumerate(zip(res, want)):
            case.check(r == w, "a seeded solve in another process (other hash seed) differs", payload[i][0], diff_result(w, r))
        case.count("other_process_runs", len(res))


# ---------------------------------------------------------------- C11
def number_order(b):
    """Labels in index (declaration) order."""
    return [l for l in b.h.s.labels() if l in set(b.vars)]


def schedule(o):
    """Temperatures at the start of each sweep, from the specification."""
    n, r = o.get("num_sweeps", 100), o.get("cooling_rate", 0.9)
    rev = o.get("reverse_options")
    ts = []
    if not rev:
        t = o.get("initial_temperature", 100.0)
        for _ in range(n):
            ts.append(t)
            t *= r
        return ts
    per, rt = rev["reverse_period"], rev["reverse_temperature"]
    t = 1e-9
    for k in range(n):
        ts.append(t)
        if k < per:
            t = rt * (1.0 - r ** (k + 1))
        else:
            t *= r
    return ts


def flip(b, x, l):
    if b.mtype == SPIN:
        return -x[l]
    return 1 - x[l]


def accept_p(d, t):
    if d <= 0:
        return 1.0
    return math.exp(-d / t) if t > 0 and d / t < 700 else 0.0


def check_stats(case, b, o, stats, states=None):
    case.check(len(stats) == o["num_reads"], "statistics: one entry per read", len(stats))
    want = schedule(o)
    for r, st in enumerate(stats):
        eh, th, ah = list(st["energy_history"]), list(st["temperature_history"]), list(st["acceptance_history"])
        case.check(len(eh) == len(th) == len(ah) == o["num_sweeps"], "statistics: one entry per sweep", len(eh), len(th), len(ah), o["num_sweeps"])
        for k in range(len(th)):
            # the rising branch subtracts two numbers of the size of the reverse temperature
            scale = max(abs(want[k]), (o.get("reverse_options") or {}).get("reverse_temperature", 0.0))
            case.check(abs(th[k] - want[k]) <= 1e-9 * scale + 1e-300, f"temperature at the start of sweep {k}", th[k], want[k], o)
            case.check(0 <= ah[k] <= b.n, "number of accepted flips out of range", ah[k])
        if states is not None and eh:
            e0 = b.energy(states[r])
            case.check(close(float(eh[0]), e0, b.tol()), f"energy at the start of read {r} is not that of its initial state", float(eh[0]), e0)
        for k in range(len(eh) - 1):
            if ah[k] == 0:
                case.check(eh[k] == eh[k + 1], "the energy changed in a sweep without accepted flips")
        case.count("sweeps_observed", len(eh))


def c11(case):
    rng = case.rng
    k = rng.random()
    if k < 0.35:
        c11_greedy(case)
    elif k < 0.6:
        c11_hot(case)
    elif k < 0.75:
        c11_schedule(case)
    elif k < 0.80:
        c11_independence(case)
    elif k < 0.83:
        c11_orders(case)
    else:
        c11_chain(case)


def c11_independence(case):
    """One variable at a constant temperature: every uphill trial is an independent draw."""
    rng = case.rng
    b = simple(case, 1, dyadic=True)
    xs = [b.energy({b.vars[0]: v}) for v in DOM[b.mtype]] if b.n == 1 else []
    if len(xs) != 2 or abs(xs[0] - xs[1]) < 1e-9:
        return
    gap = abs(xs[0] - xs[1])
    low = min(xs)
    p = rng.uniform(0.3, 0.7)
    reads, sweeps = rng.choice([(1, 1500), (1, 9000), (3, 600), (12, 150)])
    rare = rng.random() < 0.4
    if rare:  # moves far uphill: seldom, but with their exact probability
        p = math.exp(-rng.uniform(1.5, 7.7))
        reads, sweeps = 1, 60000
    o = {"num_reads": reads, "num_sweeps": sweeps, "cooling_rate": 1.0, "initial_temperature": gap / -math.log(p), "seed": rng.randint(0, 10**9), "pickup_mode": rng.choice(["sequential", "random"])}
    case.ev("independence", b.mtype, p, o)
    case.sign("independence", b.mtype, reads, sweeps, o["pickup_mode"])
    _, stats = SawatabiSolver().solve(b.p, need_stats=True, **o)
    case.check(len(stats) == reads, "statistics: one entry per read", len(stats))
    seqs = []
    for st in stats:
        eh, ah = st["energy_history"], st["acceptance_history"]
        case.check(len(eh) == len(ah) == sweeps, "statistics: one entry per sweep", len(eh), len(ah))
        out = []
        for e, a in zip(eh, ah):
            if abs(float(e) - low) <= 0.25 * gap:
                out.append((int(a) - p) / math.sqrt(p * (1 - p)))
            else:
                case.check(int(a) == 1, "a flip that lowers the energy was not accepted", e, a)
        seqs.append(np.array(out))
    allz = np.concatenate(seqs)
    case.check(len(allz) > 100, "too few uphill trials", len(allz))
    z = float(allz.sum() / math.sqrt(len(allz)))
    if rare:
        got, n = round(float((allz * math.sqrt(p * (1 - p)) + p).sum())), len(allz)
        q = got / n
        kl = (q * math.log(q / p) if q else 0.0) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0.0)
        case.check(n * kl <= 25, f"moves far uphill (probability {p:.5f}) were accepted {got} times in {len(allz)} trials", o)
        case.count("rare_uphill_trials", len(allz))
        return
    case.check(abs(z) <= 7, f"uphill moves are accepted with frequency off by {z:.1f} standard deviations", o)
    for lag in range(1, 41):
        pr = [s[:-lag] * s[lag:] for s in seqs if len(s) > lag]
        n = sum(map(len, pr))
        if n >= 100:
            z = float(sum(v.sum() for v in pr) / math.sqrt(n))
            case.check(abs(z) <= 7, f"acceptances {lag} uphill trials apart are correlated ({z:.1f} standard deviations)", o)
            case.count("independence_tests")
    for s in seqs:
        if len(s) >= 900:
            # every longer distance at once
            f = np.fft.rfft(s, 2 * len(s))
            ac = np.fft.irfft(f * np.conj(f))[: len(s)]
            lags = np.arange(41, len(s) - 400)
            zs = ac[lags] / np.sqrt(len(s) - lags)
            worst = int(np.abs(zs).argmax())
            case.check(abs(zs[worst]) <= 7.5, f"acceptances {int(lags[worst])} uphill trials apart are correlated ({float(zs[worst]):.1f} standard deviations)", o)
            case.count("independence_tests", len(lags))
    for shift in (1, 2):
        pr = [u[: min(len(u), len(v))] * v[: min(len(u), len(v))] for u, v in zip(seqs, seqs[shift:])]
        n = sum(map(len, pr))
        if n >= 100:
            z = float(sum(v.sum() for v in pr) / math.sqrt(n))
            case.check(abs(z) <= 7, f"acceptances of different reads are correlated ({z:.1f} standard deviations)", o)
            case.count("independence_tests")


def c11_orders(case):
    """The order of the trials, read off the energies.

    Pairs (a, b) with coupling J, field J on a and -J on b have three states of (almost) equal
    energy and one far above. At a temperature far below J and far above the tiny additional
    fields every sweep moves a pair between the three states, and where to depends only on
    which of a and b is tried first. The tiny fields make the state visible in the energy.
    """
    rng = case.rng
    n = 16
    h = Hist(case, mtype=SPIN, wide=False)
    h.declare("x", (2 * n,))
    ls = h.s.labels()
    pos = list(ls)
    rng.shuffle(pos)
    pairs = [(pos[2 * i], pos[2 * i + 1]) for i in range(n)]
    for i, (a, b_) in enumerate(pairs):
        h.add(key=(a, b_) if a < b_ else (b_, a), coef=Val(64.0), scale=Val(1.0), attrs=None)
        h.add(key=(a,), coef=Val(64.0 + 2.0 ** (-38 + 2 * i)), scale=Val(1.0), attrs=None)
        h.add(key=(b_,), coef=Val(-64.0 + 2.0 ** (-37 + 2 * i)), scale=Val(1.0), attrs=None)
    b = Built(case, h)
    mode = rng.choice(["random", "random", "sequential"])
    reads, sweeps = rng.choice([(1, 700), (2, 300), (6, 60)])
    o = {"num_reads": reads, "num_sweeps": sweeps, "cooling_rate": 1.0, "initial_temperature": 6.0, "seed": rng.randint(0, 10**9), "pickup_mode": mode}
    start = {}
    for a, b_ in pairs:
        start[a], start[b_] = rng.choice([(1, 1), (1, -1), (-1, -1)])
    case.ev("orders", mode, o, pairs)
    case.sign("orders", mode, reads, sweeps, o["seed"])
    _, stats = SawatabiSolver().solve(b.p, need_stats=True, initial_states=[dict(start) for _ in range(reads)], **o)
    check_stats(case, b, o, stats, [start] * reads)
    base = -64.0 * n + sum(3 * 2.0 ** (-38 + 2 * i) for i in range(n))  # all tiny fields at spin -1
    first = []  # read -> sweep -> pair -> was a tried first (None: not known)
    for st in stats:
        states = []
        for e in st["energy_history"]:
            code = round((base - float(e)) * 2.0**37)
            states.append([((code >> 2 * i) & 1, (code >> 2 * i + 1) & 1) for i in range(n)] if 0 <= code < 4**n else None)
        case.check(states[0] == [((start[a] + 1) // 2, (start[b_] + 1) // 2) for a, b_ in pairs], "energy at the start", st["energy_history"][0])
        got = []
        for s, t in zip(states, states[1:]):
            case.check(s is not None and t is not None and (0, 1) not in t, "an energy in the history belongs to no reachable state")
            row = []
            for u, v in zip(s, t):
                row.append({((1, 1), (1, 0)): 1, ((1, 1), (0, 0)): 0, ((1, 0), (0, 0)): 1, ((1, 0), (1, 1)): 0, ((0, 0), (1, 1)): 1, ((0, 0), (1, 0)): 0}.get((u, v)))
            got.append(row)
        first.append(got)
        known = sum(x is not None for r in got for x in r)
        case.check(known >= 0.9 * n * len(got), "moves that cost (almost) nothing are often rejected", known, n * len(got))
        case.count("orders_observed", known)
    number = {l: i for i, l in enumerate(number_order(b))}
    want = [int(number[a] < number[b_]) for a, b_ in pairs]
    if mode == "sequential":
        wrong = sum(x is not None and x != w for got in first for r in got for x, w in zip(r, want))
        case.check(wrong <= 0.02 * n * reads * sweeps + 20, "sequential trials are not in index order", wrong, n * reads * sweeps)
        return
    z = []
    for got in first:
        m = np.array([[0.0 if x is None else 2.0 * x - 1.0 for x in r] for r in got])
        z.append(m)
    a = np.concatenate(z)
    k = len(a)
    case.check(np.abs(a.sum(0)).max() <= 7 * math.sqrt(k), "one variable of a pair is tried first too often", a.sum(0).tolist())
    g = a.T @ a - np.diag((a * a).sum(0))
    case.check(np.abs(g).max() <= 7 * math.sqrt(k), "the orders of different pairs are correlated", float(np.abs(g).max()), k)
    for m in z:
        for lag in range(1, min(len(m) - 20, 140)):
            pr = m[:-lag] * m[lag:]
            same = int((pr.sum(1) >= n - 1e-9).sum())
            case.check(same <= 3, f"sweeps {lag} apart use the same order ({same} times)", o)
            s = float(pr.sum() / math.sqrt(pr.size))
            case.check(abs(s) <= 7, f"the orders of sweeps {lag} apart are correlated ({s:.1f} standard deviations)", o)
            case.count("order_lags_tested")
    for u, v in zip(z, z[1:]):
        pr = u * v
        s = float(pr.sum() / math.sqrt(pr.size))
        case.check(abs(s) <= 7, f"the orders of different reads are correlated ({s:.1f} standard deviations)", o)


def c11_model(case, nmax=14):
    rng = case.rng
    if rng.random() < 0.5:
        return simple(case, rng.randint(1, nmax), dyadic=True, dense=rng.choice([0.2, 0.6, 1.0]), offset=rng.random() < 0.7)
    return build(case, max_vars=nmax, wide=False)


def c11_greedy(case):
    """At (almost) zero temperature every step is determined."""
    rng = case.rng
    b = c11_model(case, rng.choice([14, 14, 14, 14, 14, 26]))
    seq = rng.random() < 0.6
    reads, sweeps = rng.randint(1, 3) if rng.random() < 0.8 else rng.randint(4, 14), rng.choice([1, 1, 2, 3, 6, 15, 150])
    o = {"num_reads": reads, "num_sweeps": sweeps, "initial_temperature": 1e-12, "cooling_rate": rng.choice([1.0, 0.9, 0.5]), "pickup_mode": "sequential" if seq else "random", "seed": rng.randint(0, 10**6)}
    if rng.random() < 0.25:
        # reverse annealing whose temperature stays negligible
        o.pop("initial_temperature")
        o["reverse_options"] = {"reverse_period": rng.randint(0, sweeps), "reverse_temperature": 1e-9}
    states = random_states(rng, b, reads)
    order = number_order(b)
    # energy differences between negligible and rounding must not occur (decisions stay exact)
    case.ev("greedy", b.n, o)
    case.sign("greedy", seq, b.n, sweeps, bool(o.get("reverse_options")))
    ss, stats = SawatabiSolver().solve(b.p, initial_states=copy.deepcopy(states), need_stats=True, **o)
    check_stats(case, b, o, stats, states)
    finals = []
    exact = True
    for r in range(reads):
        eh, ah = stats[r]["energy_history"], stats[r]["acceptance_history"]
        x = dict(states[r])
        e = b.energy(x)
        for k in range(sweeps):
            case.check(close(float(eh[k]), e, b.tol()), f"energy at the start of sweep {k}", float(eh[k]), e)
            if seq:
                x, e, acc, clear = greedy_sweep(b, x, e, order)
                if not clear:
                    exact = False
                    break
                case.check(int(ah[k]) == acc, f"accepted flips of sweep {k} at zero temperature", int(ah[k]), acc)
            elif b.n <= 6 and k + 1 == sweeps and sweeps == 1:
                outs = set()
                for perm in itertools.permutations(order):
                    y, e2, acc, clear = greedy_sweep(b, x, e, perm)
                    exact = exact and clear
                    outs.add((tuple(y[l] for l in order), acc))
                finals.append(outs)
            else:
                break
            case.count("greedy_sweeps_replayed")
        if seq and exact:
            finals.append({(tuple(x[l] for l in order), None)})
    if not exact:
        case.count("ties_within_rounding_skipped")
        return
    if len(finals) == reads and (seq or reads <= 4):
        got = []
        for row in ss.data(["sample", "num_occurrences"], sorted_by=None):
            got += [tuple(int(row.sample[l]) for l in order)] * int(row.num_occurrences)
        case.check(len(got) == reads, "number of reads")
        if seq:
            want = sorted(next(iter(f))[0] for f in finals)
            case.check(sorted(got) == want, "final states of a zero-temperature sequential anneal", sorted(got), want)
            case.count("greedy_finals_matched", reads)
        else:
            case.check(any(all((g, int(stats[r]["acceptance_history"][0])) in finals[r] for r, g in enumerate(p)) for p in itertools.permutations(got)), "a final state is not reachable by flipping every variable once in some order", got)
            case.count("greedy_finals_reachable", reads)


def greedy_sweep(b, x, e, order):
    x = dict(x)
    acc, clear = 0, True
    for l in order:
        y = dict(x)
        y[l] = flip(b, x, l)
        e2 = b.energy(y)
        d = e2 - e
        if d != 0.0 and abs(d) < 1e-7:
            clear = False
        if d == 0.0 and not dyadic_model(b):
            clear = False
        if d <= 0.0:
            x, e = y, e2
            acc += 1
    return x, e, acc, clear


def dyadic_model(b):
    return all(c * 64 == int(c * 64) and abs(c) < 1e9 for c in b.poly.t.values())


def c11_hot(case):
    """At an enormous temperature every flip is accepted, so each sweep inverts every variable."""
    rng = case.rng
    b = c11_model(case, rng.choice([20, 20, 45]))
    reads, sweeps = rng.randint(1, 3) if rng.random() < 0.8 else rng.randint(4, 14), rng.choice([1, 2, 3, 4, 7, 20, 20, 130, 600])
    if reads > 4:
        sweeps = min(sweeps, 20)
    o = {"num_reads": reads, "num_sweeps": sweeps, "initial_temperature": 1e300, "cooling_rate": 1.0, "pickup_mode": rng.choice(["sequential", "random"]), "seed": rng.randint(0, 10**6)}
    states = random_states(rng, b, reads)
    given = rng.random() < 0.75
    case.ev("hot", b.n, o, "states given" if given else "random start")
    case.sign("hot", b.n, sweeps, o["pickup_mode"], given)
    ss, stats = SawatabiSolver().solve(b.p, need_stats=True, **dict(o, **({"initial_states": copy.deepcopy(states)} if given else {})))
    check_stats(case, b, o, stats, states if given else None)
    inv = [{l: flip(b, x, l) for l in x} for x in states]
    for r in range(reads):
        eh, ah = stats[r]["energy_history"], stats[r]["acceptance_history"]
        for k in range(sweeps):
            case.check(int(ah[k]) == b.n, "at an enormous temperature a sweep must flip every variable once", k, int(ah[k]), b.n)
            if given:
                e = b.energy(states[r] if k % 2 == 0 else inv[r])
                case.check(close(float(eh[k]), e, b.tol()), f"energy at the start of sweep {k}", float(eh[k]), e)
            if k >= 2:
                case.check(close(float(eh[k]), float(eh[k - 2]), b.tol()), "two sweeps that flip everything must restore the energy")
            case.count("hot_sweeps_replayed")
    if given:
        want = sorted(tuple((inv if sweeps % 2 else states)[r][l] for l in b.vars) for r in range(reads))
        got = sorted(t for row in ss.data(["sample", "num_occurrences"]) for t in [tuple(int(row.sample[l]) for l in b.vars)] * int(row.num_occurrences))
        case.check(got == want, "final states after flipping everything in every sweep", got, want)


def c11_schedule(case):
    rng = case.rng
    b = c11_model(case, 8)
    sweeps = rng.choice([1, 2, 5, 40, 120, 1500])
    o = {"num_reads": rng.randint(1, 2) if sweeps < 500 else 1, "num_sweeps": sweeps, "seed": rng.randint(0, 99)}
    if rng.random() < 0.7:
        o["cooling_rate"] = rng.choice([0.5, 0.9, 0.999, 1.0, rng.uniform(0.2, 1.0)])
    if rng.random() < 0.5:
        o["reverse_options"] = {"reverse_period": rng.choice([0, 1, sweeps // 2, sweeps, sweeps + 5]), "reverse_temperature": rng.choice([0.5, 3.0, 100.0])}
    elif rng.random() < 0.7:
        o["initial_temperature"] = rng.choice([0.1, 1.0, 55.5, 1e5])
    if rng.random() < 0.5:
        o["pickup_mode"] = rng.choice(["sequential", "random"])
    states = random_states(rng, b, o["num_reads"]) if rng.random() < 0.6 else None
    case.ev("schedule", b.n, o)
    case.sign("schedule", b.n, sweeps, o.get("cooling_rate"), str(o.get("reverse_options")))
    kw = {"initial_states": copy.deepcopy(states)} if states else {}
    ss, stats = SawatabiSolver().solve(b.p, need_stats=True, **kw, **o)
    check_stats(case, b, o, stats, states)
    check_rows(case, b, ss, o["num_reads"], "built-in annealer")
    # a read that ended where nothing moves anymore reports the energy history's last level
    case.count("schedules_checked")


def chain(b, order_mode, o, start_dist):
    """Exact distributions: states before each sweep, expected acceptances, final states."""
    order = number_order(b)
    n = len(order)
    dom = DOM[b.mtype]
    states = list(itertools.product(dom, repeat=n))
    idx = {s: i for i, s in enumerate(states)}
    en = [b.energy(dict(zip(order, s))) for s in states]
    nb = [[idx[s[:j] + ((dom[0] + dom[1] - s[j]),) + s[j + 1 :]] for j in range(n)] for s in states]
    perms = [tuple(range(n))] if order_mode == "sequential" else list(itertools.permutations(range(n)))
    dist = np.array([start_dist.get(s, 0.0) for s in states])
    before, acc = [], []
    for t in schedule(o):
        before.append(dist.copy())
        new = np.zeros(len(states))
        a = 0.0
        for perm in perms:
            d = dist / len(perms)
            for j in perm:
                d2 = np.zeros(len(states))
                for i in range(len(states)):
                    if d[i] == 0.0:
                        continue
                    p = accept_p(en[nb[i][j]] - en[i], t)
                    d2[nb[i][j]] += d[i] * p
                    d2[i] += d[i] * (1 - p)
                    a += d[i] * p
                d = d2
            new += d
        dist = new
        acc.append(a)
    return states, np.array(en), before, acc, dist, order


SIGMA = 6.5


def c11_chain(case):
    """Frequencies over many independent reads against the exact Markov chain."""
    rng = case.rng
    mode = rng.choice(["sequential", "sequential", "random"])
    n = rng.randint(1, 4 if mode == "sequential" else 3)
    b = simple(case, n, dyadic=True, dense=0.8)
    n = b.n
    sweeps = rng.choice([1, 1, 2, 3])
    reads = 3000
    if n <= 2 and sweeps <= 2 and rng.random() < 0.5:
        reads = 20000
    o = {"num_reads": reads, "num_sweeps": sweeps, "pickup_mode": mode, "seed": rng.randint(0, 10**9), "cooling_rate": rng.choice([1.0, 0.9, 0.6, 0.3]), "initial_temperature": rng.choice([0.7, 2.0, 6.0, 20.0])}
    if rng.random() < 0.5:
        # temperatures comparable to the energy differences, from cold to hot
        d = [abs(c) for k, c in b.poly.t.items() if k and c]
        o["initial_temperature"] = rng.choice(d) * 2.0 / rng.choice([0.1, 0.2, 0.28, 0.5, 0.8, 1.5, 3.0])
    if rng.random() < 0.3:
        o.pop("initial_temperature")
        o["num_sweeps"] = sweeps = rng.choice([2, 3, 4])
        o["reverse_options"] = {"reverse_period": rng.randint(1, sweeps), "reverse_temperature": rng.choice([2.0, 8.0])}
    order = number_order(b)
    if rng.random() < 0.7:
        x = random_states(rng, b, 1)[0]
        states0 = [dict(x) for _ in range(reads)]
        sd = {tuple(x[l] for l in order): 1.0}
    else:
        states0 = None
        sd = {s: 1.0 / 2**n for s in itertools.product(DOM[b.mtype], repeat=n)}
    case.ev("chain", b.mtype, n, o, "given start" if states0 else "random start")
    case.sign("chain", b.mtype, n, sweeps, mode, states0 is None, round(b.energy({l: 1 for l in b.vars}), 4))
    states, en, before, acc, dist, order = chain(b, mode, o, sd)
    kw = {"initial_states": states0} if states0 else {}
    ss, stats = SawatabiSolver().solve(b.p, need_stats=True, **kw, **o)
    case.check(len(stats) == reads, "statistics: one entry per read", len(stats))
    cnt = {s: 0 for s in states}
    for row in ss.data(["sample", "num_occurrences"]):
        cnt[tuple(int(row.sample[l]) for l in order)] += int(row.num_occurrences)
    for i, s in enumerate(states):
        p = min(1.0, max(0.0, dist[i]))
        sd_ = math.sqrt(reads * p * (1 - p))
        case.check(abs(cnt[s] - reads * p) <= SIGMA * sd_ + 4.0, f"frequency of final state {s}: {cnt[s]} of {reads} reads, the specification gives {reads * p:.1f} (sd {sd_:.1f})", o)
        case.count("state_frequencies")
    for k in range(sweeps):
        eh = np.array([float(st["energy_history"][k]) for st in stats])
        mean = float((before[k] * en).sum())
        var = float((before[k] * (en - mean) ** 2).sum())
        tol = SIGMA * math.sqrt(var / reads) + 6 * float(np.abs(en).max() + 1) / reads + 1e-9
        case.check(abs(eh.mean() - mean) <= tol, f"mean energy at the start of sweep {k}", float(eh.mean()), mean)
        ah = np.array([float(st["acceptance_history"][k]) for st in stats])
        tol = SIGMA * math.sqrt(max(n * n / 4.0, 1e-9) / reads)
        case.check(abs(ah.mean() - acc[k]) <= tol, f"mean number of accepted flips in sweep {k}", float(ah.mean()), acc[k])
        case.check(((ah >= 0) & (ah <= n)).all(), "accepted flips out of range")
        lev = set(np.round(en, 9))
        case.check(all(any(abs(v - w) <= 1e-6 for w in lev) for v in set(np.round(eh, 9))), "an energy in the history belongs to no state")
    case.count("chains_compared")
    case.count("reads_observed", reads)


# ---------------------------------------------------------------- C12
class Service:
    """A loopback stand-in for the remote annealing service."""

    def __init__(self):
        svc = self
        self.requests = []
        self.reply = None

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                raw = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                body = gzip.decompress(raw) if "gzip" in (self.headers.get("Content-Encoding") or "") else raw
                rec = {"path": self.path, "headers": {k.lower(): v for k, v in self.headers.items()}, "raw": raw, "body": body}
                svc.requests.append(rec)
                code, out, zipped = svc.reply(rec)
                if zipped:
                    out = gzip.compress(out)
                self.send_response(code)
                self.send_header("Content-Type", "application/json")
                if zipped:
                    self.send_header("Content-Encoding", "gzip")
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            def log_message(self, *a):
                pass

        self.httpd = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        self.port = self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()


def c12(case):
    if case.rng.random() < 0.65:
        c12_optigan(case)
    else:
        c12_dwave(case)


def c12_optigan(case):
    rng = case.rng
    svc = Service()
    tmp = tempfile.mkdtemp(prefix="c12-")
    old = {k: os.environ.get(k) for k in ("HOME", "NO_PROXY", "no_proxy")}
    os.environ.update(HOME=tmp, NO_PROXY="*", no_proxy="*")
    try:
        optigan_session(case, svc, tmp)
        if rng.random() < 0.25:
            # other credentials in the same configuration files
            optigan_session(case, svc, tmp)
            case.count("second_sessions")
    finally:
        svc.close()
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(tmp, ignore_errors=True)


def optigan_session(case, svc, tmp):
    rng = case.rng
    if rng.random() < 0.015:
        # a request of some 100 kB
        b = simple(case, 70, BIT, dense=1.0)
        case.count("large_requests")
    else:
        b = build(case, max_vars=rng.choice([4, 14, 25]), mtype=BIT, wide=False)
    if b.mtype != BIT:
        b.h.convert()
        b = Built(case, b.h)
    token = "tok-%d" % rng.randint(0, 10**6)
    other_token = "other"
    path = rng.choice(["/solve", "/v1/solver", "/"])
    url = f"http://127.0.0.1:{svc.port}{path}"
    bad_url = f"http://127.0.0.1:{svc.port}/wrong-endpoint"

    def conf(name, u, t):
        f = os.path.join(tmp, name)
        with open(f, "w") as fd:
            fd.write(f"api:\n  endpoint: {u}\n  token: {t}\n")
        return f

    source = rng.choice(["explicit", "config", "home", "explicit-over-config", "config-over-home", "partial"])
    if source == "explicit":
        sol = OptiganSolver(endpoint=url, token=token)
    elif source == "config":
        sol = OptiganSolver(config=conf("c.yml", url, token))
    elif source == "home":
        conf(".optigan.yml", url, token)
        sol = OptiganSolver()
    elif source == "explicit-over-config":
        sol = OptiganSolver(config=conf("c.yml", bad_url, other_token), endpoint=url, token=token)
    elif source == "partial":
        # half a pair of explicit credentials does not replace the configured pair
        sol = OptiganSolver(config=conf("c.yml", url, token), **rng.choice([{"endpoint": bad_url}, {"token": other_token}]))
    else:
        conf(".optigan.yml", bad_url, other_token)
        sol = OptiganSolver(config=conf("c.yml", url, token))
    frozen = physical_numbers(b.p)
    for _ in range(rng.randint(1, 3)):
        answers = []
        k = rng.randint(1, 6) if rng.random() < 0.92 else rng.randint(60, 300)
        dup = rng.random() < 0.5
        zipped = rng.random() < 0.5
        pool = [[rng.randint(0, 1) for _ in range(b.n)] for _ in range(rng.randint(1, k))]

        def reply(rec):
            poly = json.loads(rec["body"])["polynomial"]
            for _ in range(k):
                s = rng.choice(pool)
                answers.append((s, sum(c * s[i] * s[j] for i, j, c in poly)))
            out = {"spins": [s for s, _ in answers], "energies": [e for _, e in answers], "execution_time": {"annealing_time": 1.0}, "execution_parameters": {"num_unit_steps": 10}}
            return 200, json.dumps(out).encode(), zipped

        svc.reply = reply
        del svc.requests[:]
        o = {}
        if rng.random() < 0.6:
            o["num_unit_steps"] = rng.randint(1, 99) if rng.random() < 0.6 else rng.randint(100, 5000)
        if rng.random() < 0.6:
            o["timeout"] = rng.randint(1, 20000)
        if dup or rng.random() < 0.3:
            o["duplicate"] = dup
        gz = True
        if rng.random() < 0.6:
            gz = o["gzip_request"] = rng.random() < 0.5
        if rng.random() < 0.6:
            o["gzip_response"] = rng.random() < 0.5
        case.ev("optigan", source, o, f"{k} answers", b.n)
        case.sign("optigan", source, tuple(sorted(o)), k, b.n)
        ss = sol.solve(b.p, **o)
        case.check(len(svc.requests) == 1, "exactly one request must be submitted", len(svc.requests))
        rec = svc.requests[0]
        case.check(rec["path"] == path, "the request went to another endpoint", rec["path"], path)
        case.check(rec["headers"].get("authorization") == f"Bearer {token}", "the request does not carry the configured token", rec["headers"].get("authorization"))
        case.check((rec["raw"][:2] == b"\x1f\x8b") == gz, "compression of the request", o)
        body = json.loads(rec["body"])
        case.check(body["num_unit_steps"] == o.get("num_unit_steps", 10) and body["timeout"] == o.get("timeout", 10000), "options in the request", body.get("num_unit_steps"), body.get("timeout"))
        case.check(bool((body.get("outputs") or {}).get("duplicate")) == dup, "duplicate option in the request", body.get("outputs"))
        case.check(not dup or body["outputs"].get("num_outputs", 0) == 0, "repeated answers were asked for, but their number is limited", body.get("outputs"))
        if o.get("gzip_response", True):
            case.check("gzip" in rec["headers"].get("accept-encoding", ""), "a compressed response was not asked for")
        # the submitted problem, variable i being the i-th value of an answer
        case.check(all(isinstance(i, int) and isinstance(j, int) and 0 <= i < b.n and 0 <= j < b.n for i, j, _ in body["polynomial"]), "variable numbers of the submitted problem", b.n)
        case.check(ss.vartype is dimod.BINARY and set(ss.variables) == set(b.vars), "variables of the result", sorted(ss.variables), b.vars)
        want = {}
        for s, e in answers:
            want.setdefault(tuple(s), [e, 0])[1] += 1
        order = number_order(b)
        c0 = float(b.bqm.offset)
        case.check(len(ss) == len(want), "number of distinct answers", len(ss), len(want))
        for row in ss.data(["sample", "energy", "num_occurrences"]):
            key = tuple(int(row.sample[l]) for l in order)
            case.check(key in want, "a returned row was not among the answers (values attributed to wrong variables?)", key)
            case.check(float(row.energy) == want[key][0], "energy of an answer", float(row.energy), want[key][0])
            case.check(int(row.num_occurrences) == want[key][1], "repeated answers are not counted", int(row.num_occurrences), want[key][1])
            true = b.energy({l: int(v) for l, v in row.sample.items()})
            case.check(close(float(row.energy) + c0, true, b.tol()), "the problem submitted gives the decoded assignment another energy", float(row.energy) + c0, true)
            case.count("answers_checked")
        # all assignments: the submitted polynomial against the model, term by term
        agg = {}
        for i, j, c in body["polynomial"]:
            kk = frozenset([order[i], order[j]])
            agg[kk] = agg.get(kk, 0.0) + c
        for kk in set(agg) | {q for q in b.poly.t if q}:
            case.check(close(agg.get(kk, 0.0), b.poly.t.get(kk, 0.0), b.poly.tol(kk) if kk in b.poly.t else 0.0), "submitted coefficient", sorted(kk), agg.get(kk), b.poly.t.get(kk))
        case.count("problems_submitted")
        # error replies
        if rng.random() < 0.6:
            del svc.requests[:]
            code, out = rng.choice([(400, b"{}"), (401, b"unauthorized"), (403, b""), (404, b"nope"), (429, b"{}"), (500, b"oops"), (503, b""), (201, b"ok"), (200, b"not json"), (200, b"{}"), (202, b"ok"), (200, b"[]"), (200, b'{"energies": []}'), (200, json.dumps({"spins": [[0] * b.n]}).encode()), (200, b'{"message": "error"}')])
            if rng.random() < 0.5 and code != 200:
                out = json.dumps({"spins": [[0] * b.n], "energies": [0.0]}).encode()
            svc.reply = lambda rec: (code, out, False)
            expect_error(case, lambda: sol.solve(b.p, **o), f"a reply with status {code} and body {out[:20]!r}")
            case.count("error_replies")
        if rng.random() < 0.3:
            del svc.requests[:]
            svc.reply = reply
            m = LogicalModel(mtype=rng.choice([SPIN, BIT]))
            x = m.variables("x", shape=(2,))
            if m.get_mtype() == SPIN:
                m.add_interaction(x[0], coefficient=1.0)
            pe = m.to_physical()
            expect_error(case, lambda: sol.solve(pe), "an empty or Ising model")
            case.check(not svc.requests, "a rejected model was submitted")
            case.count("rejected_models")
    case.check(physical_numbers(b.p) == frozen, "solving changed the model")


def expect_error(case, fn, what):
    try:
        fn()
    except Exception as e:  # noqa
        if isinstance(e, (NameError,)) and not isinstance(e, UnboundLocalError):
            raise
        return
    case.check(False, f"{what} yielded a result instead of an error")


def c12_dwave(case):
    rng = case.rng
    from dwave.system.composites import EmbeddingComposite
    from dwave.system.samplers import DWaveSampler

    rec = {"sampler": [], "composite": [], "sample": []}
    b = build(case, max_vars=rng.choice([4, 12, 20]), wide=rng.random() < 0.2)
    saved = (DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample)
    replies = []

    def s_init(self, *a, **k):
        rec["sampler"].append((a, k))

    def c_init(self, *a, **k):
        rec["composite"].append((a, k))

    def sample(self, bqm, **k):
        rec["sample"].append((bqm.copy(), dict(k)))
        r = replies[0]
        if isinstance(r, Exception):
            raise r
        return r

    DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample = s_init, c_init, sample
    try:
        kw = {}
        if rng.random() < 0.5:
            kw.update(endpoint="https://example.invalid/%d" % rng.randint(0, 9), token="t%d" % rng.randint(0, 99))
        if rng.random() < 0.5:
            kw["solver"] = rng.choice(["Advantage_system4.1", "DW_2000Q_6"])
        if rng.random() < 0.5:
            kw["embedding_parameters"] = {"random_seed": rng.randint(0, 99), "tries": 3}
        case.ev("d-wave", kw, b.n)
        case.sign("dwave", tuple(sorted(kw)), b.n, b.mtype)
        sol = DWaveSolver(**copy.deepcopy(kw))
        case.check(len(rec["sampler"]) == 1 and len(rec["composite"]) == 1, "one client must be created")
        sk = rec["sampler"][0][1]
        for f in ("endpoint", "token"):
            case.check(sk.get(f) == kw.get(f), f"client created with another {f}", sk.get(f), kw.get(f))
        case.check(sk.get("solver") == kw.get("solver", "Advantage_system1.1"), "client created for another solver", sk.get("solver"))
        case.check((rec["composite"][0][1].get("embedding_parameters") or None) == kw.get("embedding_parameters"), "embedding parameters", rec["composite"][0])
        for _ in range(rng.randint(1, 3)):
            rows = random_states(rng, b, rng.randint(1, 4))
            ss = dimod.SampleSet.from_samples_bqm(rows, b.bqm, aggregate_samples=True)
            ss.info["timing"] = {"qpu_sampling_time": 1}
            replies[:] = [ss.copy()]
            del rec["sample"][:]
            o = {}
            if rng.random() < 0.8:
                o["num_reads"] = rng.randint(1, 1000)
            if rng.random() < 0.4:
                o.update(chain_strength=rng.uniform(1, 9), annealing_time=20)
            if rng.random() < 0.3:
                o.update(initial_state=dict(rows[0]), reinitialize_state=True)
            out = sol.solve(b.p, **copy.deepcopy(o))
            case.check(len(rec["sample"]) == 1, "exactly one problem must be submitted", len(rec["sample"]))
            bqm, got = rec["sample"][0]
            case.check(got == o, "options passed to the service", got, o)
            t, off = bqm_poly(bqm)
            case.check(bqm.vartype is b.bqm.vartype and set(bqm.variables) == set(b.vars), "variables submitted")
            for kk in set(t) | {q for q in b.poly.t if q}:
                case.check(close(t.get(kk, 0.0), b.poly.t.get(kk, 0.0), b.poly.tol(kk) if kk in b.poly.t else 0.0), "submitted coefficient", sorted(kk), t.get(kk), b.poly.t.get(kk))
            case.check(close(off, b.poly.const() + b.shift, b.poly.tol(frozenset())), "submitted offset", off)
            case.check(result_key(out) == result_key(ss), "the answer was altered", result_key(out), result_key(ss))
            check_rows(case, b, out, len(rows), "d-wave")
            case.count("problems_submitted")
        if rng.random() < 0.5:
            del rec["sample"][:]
            pe = LogicalModel(mtype=rng.choice([SPIN, BIT])).to_physical()
            expect_error(case, lambda: sol.solve(pe), "an empty model")
            case.check(not rec["sample"], "an empty model was submitted")
            case.count("rejected_models")
        if rng.random() < 0.4:
            replies[:] = [RuntimeError("service failed")]
            expect_error(case, lambda: sol.solve(b.p), "a failed service call")
            case.count("error_replies")
    finally:
        DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample = saved


# ---------------------------------------------------------------- C18
def c18(case):
    rng = case.rng
    for _ in range(20):
        kind = rng.random()
        if kind < 0.05:
            nums = [0] * rng.randint(0, 4)
        elif kind < 0.45:
            nums = [rng.randint(0, rng.choice([2, 5, 12])) for _ in range(rng.randint(0, 9))]
        elif kind < 0.7:
            nums = [rng.choice([1, 2, 3, 5, 10, 0]) for _ in range(rng.randint(1, 10))]
        elif kind < 0.8:
            nums = [rng.randint(0, 3) for _ in range(rng.randint(1, 5))] + [rng.randint(20, 60)]
            rng.shuffle(nums)
        elif kind < 0.9:
            g = rng.choice([2, 3, 4, 10])
            nums = [g * rng.randint(0, 8) for _ in range(rng.randint(1, 8))]
        else:
            nums = [rng.randint(0, 40) for _ in range(rng.randint(10, 25))]
        enum = rng.random() < 0.6 and len(nums) <= 10
        orig = list(nums)
        case.ev("npp", nums, enum)
        case.sign(tuple(nums), enum)
        kw = {"enumerate_all": enum} if enum or rng.random() < 0.5 else {}
        arg = tuple(nums) if rng.random() < 0.1 else nums
        ok, left, right = solve_npp_with_dp(arg, **kw)
        case.check(nums == orig, "the input list was changed", orig, nums)
        total = sum(nums)
        reach = 1
        for v in nums:
            reach |= reach << v
        best = max(s for s in range(total // 2 + 1) if reach >> s & 1)
        case.check(isinstance(ok, bool) and ok == (2 * best == total), "exact partition reported iff one exists", nums, ok, best, total)
        case.check(len(left) == len(right) and len(left) >= 1, "sides", left, right)
        for p, q in zip(left, right):
            case.check(sorted(list(p) + list(q)) == list(range(len(nums))), "the two sides are not a partition of the indices", nums, p, q)
            a, c = sum(nums[i] for i in p), sum(nums[i] for i in q)
            case.check(abs(a - c) == total - 2 * best, "the difference is not minimal", nums, p, q, abs(a - c), total - 2 * best)
        if enum:
            want = set()
            for mask in range(1 << len(nums)):
                sub = frozenset(i for i in range(len(nums)) if mask >> i & 1)
                if sum(nums[i] for i in sub) == best:
                    want.add(sub)
            got = [frozenset(p) for p in left]
            case.check(len(got) == len(set(got)), "a subset is returned twice", nums)
            case.check(set(got) == want, "enumeration differs from all best subsets", nums, sorted(map(sorted, set(got) ^ want))[:4])
            case.count("enumerations")
        else:
            case.check(len(left) == 1, "one partition expected", left)
        case.count("lists")
