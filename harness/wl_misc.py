"""Workloads and monitors for equality and printing (C26), rejected configurations (C27)
and reported times (C28)."""
import contextlib
import copy
import functools
import math
import os
import pickle
import random
import subprocess
import sys
import threading
import time
from unittest import mock

import apache_beam as beam
import dimod
import neal
import pyqubo

import sawatabi.utils as utils
import stream_cb
import wl_stream
from history import Hist, bqm_poly, diff_snap, physical_numbers, snapshot
from sawatabi.algorithm import Attenuation, Delta, Incremental, Partial, Window
from sawatabi.model import LogicalModel, PhysicalModel
from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint
from sawatabi.solver import DWaveSolver, LocalSolver, OptiganSolver, SawatabiSolver
from shadow import BIT, SPIN, Val
from wl_model import EDIT, n_ops, start
from wl_solver import build, edited, random_states, result_key, sawatabi_options, simple


# ---------------------------------------------------------------- C26
class Twin(Hist):
    """Every interaction gets an explicit timestamp, so that equal histories give equal models."""

    def __init__(self, case, rng, **kw):
        self._rng = rng
        super().__init__(case, **kw)

    @property
    def rng(self):
        return self._rng

    @rng.setter
    def rng(self, v):
        pass

    def add(self, key=None, **kw):
        kw.setdefault("ts", self.rng.choice([self.rng.randint(0, 10**6), self.rng.uniform(0, 2e9)]))
        return super().add(key, **kw)

    def update(self, name=None, **kw):
        kw.setdefault("ts", self.rng.choice([self.rng.randint(0, 10**6), self.rng.uniform(0, 2e9)]))
        return super().update(name, **kw)


PLAIN = {"add": 6, "update": 2, "remove": 1.2, "offset": 0.6, "append": 0.5, "add_constraint": 0.8, "edit_constraint": 0.8, "delete": 0.3, "compile": 0.3}


def eq(case, a, b, what):
    ab, ba, nab, nba = bool(a == b), bool(b == a), bool(a != b), bool(b != a)
    case.check(ab is True and ba is True and nab is False and nba is False, f"{what}: do not compare equal", ab, ba, nab, nba)
    case.count("equal_pairs")


def ne(case, a, b, what):
    ab, ba, nab, nba = bool(a == b), bool(b == a), bool(a != b), bool(b != a)
    case.check(ab is False and ba is False and nab is True and nba is True, f"{what}: compare equal", ab, ba, nab, nba)
    case.count("unequal_pairs")


def clones(m):
    return [("deep copy", copy.deepcopy(m)), ("restored from serialised form", pickle.loads(pickle.dumps(m)))]


def printed(case, m, h=None):
    before = snapshot(m) if isinstance(m, LogicalModel) else physical_numbers(m) if isinstance(m, PhysicalModel) else None
    s, r = str(m), repr(m)
    case.check(isinstance(s, str) and isinstance(r, str) and s and r, "printed form")
    if h is not None:
        for t in [h.s.mtype] + list(h.s.arrays) + list(h.s.cons):
            case.check(t in s and t in r, "a printed model lacks its type, an array or a constraint", t, s[:300])
    if before is not None:
        after = snapshot(m) if isinstance(m, LogicalModel) else physical_numbers(m)
        case.check(after == before, "printing changed the model", diff_snap(before, after) if isinstance(before, dict) else "")
    case.count("printed")


def visible_changes(case, h):
    """(what, function applying one visible change to a model equal to h.m), all with explicit timestamps."""
    rng = case.rng
    res = []
    names = sorted(h.s.rows)
    alive = h.alive()

    def at(m, label):
        name, idx = label.split("[", 1)
        idx = tuple(int(i) for i in idx[:-1].split("]["))
        return m.get_variables_by_name(name)[idx if len(idx) > 1 else idx[0]]

    if names:
        n = rng.choice(names)
        r = h.s.rows[n]
        t = r.ts if not isinstance(r.ts, tuple) else 5
        res.append(("another coefficient", lambda m: m.update_interaction(name=n, coefficient=12345.678, timestamp=t)))
        res.append(("another scale", lambda m: m.update_interaction(name=n, scale=77.125, timestamp=t)))
        res.append(("another timestamp", lambda m: m.update_interaction(name=n, timestamp=t + 1)))
        res.append(("another attribute value", lambda m: m.update_interaction(name=n, attributes={"foo": "changed"}, timestamp=t)))
        res.append(("a new attribute", lambda m: m.update_interaction(name=n, attributes={"brand new": 1}, timestamp=t)))
        res.append(("a removed interaction", lambda m: m.remove_interaction(name=n)))
    if alive:
        l = rng.choice(alive)
        res.append(("an added interaction", lambda m: m.add_interaction(at(m, l), name="only here", coefficient=0.5, timestamp=1)))
        res.append(("a deleted variable", lambda m: m.delete_variable(at(m, l))))
        v = rng.choice([1, -1] if h.s.mtype == SPIN else [0, 1])
        res.append(("a fixed variable", lambda m: m.fix_variable(at(m, l), v)))
        k = rng.choice([NHotConstraint, ZeroOrOneHotConstraint])
        res.append(("another constraint", lambda m: m.add_constraint(k(variables=[at(m, l)], label="only here"))))
    o = rng.choice([9.0625, -1e-7, 3, 1e9])
    if not isinstance(h.m.get_offset(), (int, float)) or h.m.get_offset() != o:
        res.append(("another offset", lambda m: m.offset(o)))
    cur = h.m.get_offset()
    if isinstance(cur, (int, float)) and cur == cur and abs(cur) < 1e300:
        near = rng.choice([math.nextafter(float(cur), 1e308), cur * (1 + 1e-6) + 1e-9, -cur if cur else 1e-12])
        if near != cur:
            res.append(("a slightly different offset", lambda m: m.offset(near)))
    res.append(("another array", lambda m: m.variables("only_here", shape=(2,))))
    if h.s.arrays:
        a = rng.choice(list(h.s.arrays))
        d = tuple([1] + [0] * (len(h.s.arrays[a]) - 1))
        res.append(("a longer array", lambda m: m.append(a, shape=d)))
    if h.s.cons:
        c = rng.choice(list(h.s.cons))
        res.append(("a removed constraint", lambda m: m.remove_constraint(c)))
        sc = h.s.cons[c]

        def rebuilt(m, kind=sc.kind, strength=sc.strength, n=sc.n, v1=None, v2=None):
            old = m.get_constraints_by_label(c)
            if kind == "eq":
                w1 = v1 if v1 is not None else set(old.get_variables_1())
                w2 = v2 if v2 is not None else set(old.get_variables_2())
                return EqualityConstraint(variables_1=w1 or None, variables_2=w2 or None, label=c, strength=strength)
            w = v1 if v1 is not None else set(old.get_variables_1() if sc.kind == "eq" else old.get_variables())
            return NHotConstraint(variables=w or None, n=n, label=c, strength=strength) if kind == "nhot" else ZeroOrOneHotConstraint(variables=w or None, label=c, strength=strength)

        res.append(("the strength of a constraint", lambda m: m.add_constraint(rebuilt(m, strength=sc.strength * 2 + 0.125))))
        if sc.kind == "nhot":
            res.append(("the number of a constraint", lambda m: m.add_constraint(rebuilt(m, n=sc.n + 1))))
        if sc.kind != "eq":
            other = "zoh" if sc.kind == "nhot" else "nhot"
            res.append(("the kind of a constraint", lambda m: m.add_constraint(rebuilt(m, kind=other))))
        out = [x for x in alive if x not in sc.v1 and x not in sc.v2]
        if out:
            y = rng.choice(out)

            def grow(m):
                con = m.get_constraints_by_label(c)
                (con.add_variable_to_2 if sc.kind == "eq" else con.add_variable)([at(m, y)])

            res.append(("a variable of a constraint", grow))
    res.append(("the other type", lambda m: m.to_qubo() if h.s.mtype == SPIN else m.to_ising()))
    rng.shuffle(res)
    return res


CHILD = r"""
import os, sys, pickle
sys.path.insert(0, sys.argv[1])
import warnings; warnings.simplefilter("ignore")
import wl_misc
seeds = pickle.load(sys.stdin.buffer)
models = [wl_misc.scripted(s) for s in seeds]
out = os.fdopen(int(sys.argv[2]), "wb")
pickle.dump([(m, m.to_physical()) for m in models], out)
out.close()
"""


def scripted(seed):
    """A model determined by the seed alone: attributes, merges, constraints, conversions."""
    rng = random.Random(seed)

    def some(n_attr, conv):
        m = LogicalModel(mtype=rng.choice(["ising", "qubo"]))
        x = m.variables("x", shape=(rng.randint(3, 9),))
        y = m.variables("long_name", shape=(2, 3))
        vs = list(x) + [y[i, j] for i in range(2) for j in range(3)]
        for i in range(rng.randint(1, 12)):
            a, b = rng.sample(vs, 2)
            m.add_interaction(a if rng.random() < 0.4 else (a, b), name="n%d" % i, coefficient=rng.uniform(-5, 5), scale=rng.choice([1.0, 0.5]), timestamp=i,
                              attributes={rng.choice(["foo", "bar", "ts", "weight", "k", "qux", "z"]): rng.randint(0, 9) for _ in range(rng.randint(0, n_attr))})
        for i in range(rng.randint(0, 2)):
            sub = rng.sample(vs, rng.randint(1, len(vs)))
            k = rng.randint(0, 2)
            label = "c%d %d" % (i, rng.randint(0, 10**9))
            if k == 0:
                c = NHotConstraint(variables=sub, n=rng.randint(1, 3), label=label, strength=rng.uniform(0.1, 3))
            elif k == 1:
                c = ZeroOrOneHotConstraint(variables=sub, label=label)
            else:
                c = EqualityConstraint(variables_1=sub[: len(sub) // 2] or None, variables_2=sub[len(sub) // 2 :], label=label)
            m.add_constraint(c)
        if rng.random() < 0.3:
            m.delete_variable(rng.choice(vs))
        m.offset(rng.uniform(-1, 1))
        return m

    m = some(4, True)
    for _ in range(rng.randint(0, 2)):
        o = some(4, False)
        if o.get_mtype() == m.get_mtype():  # the names of converted interactions carry the time
            # clashing names would get the identity of the model as a suffix
            o2 = o.empty()
            for name, arr in o.get_variables().items():
                o2.variables(name, shape=arr.shape)
            for i, rec in enumerate(o.select_interaction("removed == False", fmt="dict").values()):
                o2.add_interaction(rec["interacts"], name="o%d %d" % (i, rng.randint(0, 10**9)), coefficient=rec["coefficient"], scale=rec["scale"], timestamp=rec["timestamp"],
                                   attributes={k[len("attributes."):]: v for k, v in rec.items() if k.startswith("attributes.") and v == v})
            for c in o.get_constraints().values():
                o2.add_constraint(c)
            m.merge(o2)
    return m


def c26_process(case):
    """The same history in another process under another hash seed gives an equal model."""
    rng = case.rng
    seeds = [rng.randint(0, 10**12) for _ in range(25)]
    here = os.path.dirname(os.path.abspath(__file__))
    rfd, wfd = os.pipe()
    try:
        p = subprocess.Popen([sys.executable, "-c", CHILD, here, str(wfd)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             env=dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 99999))), pass_fds=(wfd,))
    finally:
        os.close(wfd)
    err = []
    t = threading.Thread(target=lambda: err.append(p.stderr.read()))
    t.start()
    p.stdin.write(pickle.dumps(seeds))
    p.stdin.close()
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    t.join()
    case.check(p.wait() == 0, "a history in another process failed", (err or [b""])[0].decode(errors="replace")[-600:])
    for s, (m, phys) in zip(seeds, pickle.loads(data)):
        mine = scripted(s)
        eq(case, mine.to_physical(), phys, "compiled models of the same history in two processes")
        eq(case, mine, m, "models with the same history in two processes")
        case.sign(s)
        case.count("process_pairs")


def c26(case):
    rng = case.rng
    k = rng.random()
    if case.index % 150 == 7:
        return c26_process(case)
    if k < 0.25:
        return c26_constraints(case)
    if k < 0.45:
        return c26_any(case)
    if k < 0.48:
        return c26_small(case)
    mt = rng.choice([SPIN, BIT])
    ph = rng.choice([0.0, 0.0, 0.3])
    s = rng.random()
    hs = []
    n = n_ops(case)
    for _ in range(2):
        h = Twin(case, random.Random(s), mtype=mt, placeholders=ph)
        for _ in range(h.rng.randint(1, 3)):
            h.declare()
        h.run_ops(n, PLAIN)
        hs.append(h)
    a, b = hs
    eq(case, a.m, b.m, "models with the same history")
    eq(case, a.m, a.m, "a model and itself")
    printed(case, a.m, a)
    eq(case, a.m, b.m, "models with the same history, one printed")
    for what, c in clones(a.m):
        eq(case, a.m, c, f"a model and its {what}")
    for what, change in visible_changes(case, a)[: 5 if case.tier == "quick" else 12]:
        c = copy.deepcopy(a.m) if rng.random() < 0.5 else pickle.loads(pickle.dumps(b.m))
        if rng.random() < 0.3:
            a.m.select_interaction("body == 1")
        change(c)
        case.ev("change", what)
        ne(case, a.m, c, f"models that differ by {what}")
        if what not in ("a fixed variable", "the other type"):
            d = pickle.loads(pickle.dumps(a.m)) if rng.random() < 0.5 else copy.deepcopy(b.m)
            change(d)
            eq(case, c, d, f"models after the same change ({what})")
    eq(case, a.m, b.m, "models with the same history whose copies were changed")
    if alive_in_constraints(a):
        # fixed to different values: the constraint tells them apart
        l = rng.choice(alive_in_constraints(a))
        c, d = copy.deepcopy(a.m), copy.deepcopy(b.m)
        name, idx = l.split("[", 1)
        idx = tuple(int(i) for i in idx[:-1].split("]["))
        vals = (1, -1) if mt == SPIN else (1, 0)
        for m, v in ((c, vals[0]), (d, vals[1])):
            m.fix_variable(m.get_variables_by_name(name)[idx if len(idx) > 1 else idx[0]], v)
        feed = a.feed()
        if bqm_poly(c.to_physical(placeholder=feed).to_bqm()) != bqm_poly(d.to_physical(placeholder=feed).to_bqm()):
            ne(case, c, d, "models with a variable fixed to different values")
            case.count("fixed_pairs")
    # compiled forms
    feed = a.feed()
    p, q = a.m.to_physical(placeholder=feed), b.m.to_physical(placeholder=feed)
    eq(case, p, q, "compiled models of equal models")
    eq(case, a.m, b.m, "compiled models with the same history")
    for what, c in clones(p):
        eq(case, p, c, f"a compiled model and its {what}")
    printed(case, p)
    alive = a.alive()
    if alive:
        l = rng.choice(alive)
        a.m.add_interaction(a.var(l), name="only here", coefficient=0.5, timestamp=1)
        r = a.m.to_physical(placeholder=feed)
        if bqm_poly(r.to_bqm())[0] != bqm_poly(p.to_bqm())[0]:
            ne(case, p, r, "compiled models with different energies")
            case.count("compiled_pairs")
    off = a.m.get_offset()
    a.m.offset(float(p.get_offset()) + 1.5 if not isinstance(off, (int, float)) else off + 1.5)
    r2 = a.m.to_physical(placeholder=feed)
    if r2.get_offset() != p.get_offset():
        ne(case, p, r2, "compiled models with different offsets")
    others(case, a.m)
    others(case, p)
    ne(case, a.m, p, "a logical and a physical model")
    case.sign(mt, n, tuple(sorted(a.s.rows))[:6], len(a.s.cons))


def others(case, m):
    for o in (None, 0, "x", [], {}, object(), type(m), str(m)):
        ne(case, m, o, f"a {type(m).__name__} and {type(o).__name__}")


def alive_in_constraints(h):
    alive = set(h.alive())
    return sorted({l for c in h.s.cons.values() for l in c.v1 | c.v2} & alive)


def c26_small(case):
    """Pairs that are told apart, or not, by one thing only."""
    rng = case.rng
    mt = rng.choice(["ising", "qubo"])

    def fresh(names, cons=False, terms=True):
        m = LogicalModel(mtype=mt)
        for n in names:
            m.variables(n, shape=(2,))
        x, y = m.get_variables_by_name("x"), m.get_variables_by_name("y")
        if terms:
            m.add_interaction((x[0], y[1]), coefficient=1.5, timestamp=1)
            m.add_interaction(y[0], coefficient=-0.5, timestamp=2)
        if cons:
            m.add_constraint(NHotConstraint(variables=list(x) + list(y), n=1))
        return m

    cons = rng.random() < 0.5
    p, q = fresh("xy", cons).to_physical(), fresh("yx", cons).to_physical()
    ne(case, p, q, "physical models whose variables are numbered differently")
    eq(case, p, fresh("xy", cons).to_physical(), "physical models of the same history")
    # nothing to compile: compiling leaves no visible trace
    a, b = fresh("xy", cons, False), fresh("xy", cons, False)
    a.to_physical()
    eq(case, a, b, "models without interactions, one of which was compiled")
    # compiled with different placeholder values, or more often: the same visible state
    a, b = fresh("xy", cons), fresh("xy", cons)
    for m in (a, b):
        m.add_interaction(m.get_variables_by_name("x")[1], coefficient=2.0 * pyqubo.Placeholder("P"), timestamp=3)
    a, b = copy.deepcopy(a), a
    pa, pb = a.to_physical(placeholder={"P": 1.0}), b.to_physical(placeholder={"P": 2.0})
    ne(case, pa, pb, "compiled models with different placeholder values")
    b.to_physical(placeholder={"P": 3.0}) if rng.random() < 0.5 else None
    eq(case, a, copy.deepcopy(a), "a model with placeholders and its copy")
    a2 = fresh("xy", cons)
    b2 = fresh("xy", cons)
    a2.to_physical()
    for _ in range(rng.randint(1, 3)):
        b2.to_physical()
    eq(case, a2, b2, "models compiled once and several times")
    x = a2.get_variables_by_name("x")
    eq(case, a2, pickle.loads(pickle.dumps(a2)), "a compiled model and its restored form")
    case.sign(mt, cons, "small")


def c26_any(case):
    """Arbitrary histories, fixings and conversions included: copies and printing only."""
    h = start(case, placeholders=case.rng.choice([0.0, 0.3]))
    w = dict(EDIT, update=2, delete=0.5, fix=0.7, add_constraint=1, edit_constraint=1, append=1, compile=0.5, remove=1)
    h.run_ops(n_ops(case), w)
    if case.rng.random() < 0.3:
        h.convert()
        h.run_ops(3, EDIT)
    for what, c in clones(h.m):
        eq(case, h.m, c, f"a model and its {what}")
    printed(case, h.m, h)
    for c in h.m.get_constraints().values():
        printed(case, c)
    c = copy.deepcopy(h.m)
    c.variables("only_here", shape=(1,))
    ne(case, h.m, c, "models that differ by an array")
    p = h.compile()
    printed(case, p)
    case.sign(tuple(sorted(h.s.rows))[:8], h.s.mtype)


def c26_constraints(case):
    rng = case.rng
    h = start(case, max_arrays=2)
    labels = h.s.labels()
    case.ev("constraints over", labels[:12])

    def make(kind, v1, v2, n, label, strength, order):
        def box(v):
            vs = [h.var(l) for l in v]
            order.shuffle(vs)
            return set(vs) if order.random() < 0.5 else vs

        kw = {"label": label, "strength": strength}
        if kind == "nhot":
            return NHotConstraint(variables=box(v1), n=n, **kw)
        if kind == "zoh":
            return ZeroOrOneHotConstraint(variables=box(v1), **kw)
        return EqualityConstraint(variables_1=box(v1), variables_2=box(v2) if v2 else None, **kw)

    kind = rng.choice(["nhot", "zoh", "eq"])
    ls = rng.sample(labels, rng.randint(1, min(8, len(labels))))
    cut = rng.randint(1, len(ls))
    v1, v2 = (ls[:cut], ls[cut:]) if kind == "eq" else (ls, [])
    base = dict(kind=kind, v1=v1, v2=v2, n=rng.randint(1, 4), label=rng.choice(["c", "a b", "é"]), strength=rng.choice([1.0, 2.5, 10]))
    a = make(**base, order=rng)
    eq(case, a, make(**base, order=rng), "equal constraints")
    for what, c in clones(a):
        eq(case, a, c, f"a constraint and its {what}")
    printed(case, a)
    others(case, a)
    diffs = [dict(label=base["label"] + "2"), dict(strength=base["strength"] + 0.5)]
    if kind == "nhot":
        diffs += [dict(n=base["n"] + 1), dict(kind="zoh")]
    elif kind == "zoh":
        diffs += [dict(kind="nhot", n=1)]
    else:
        diffs += [dict(kind="zoh")]
        if v2:
            diffs += [dict(v1=v2, v2=v1), dict(v2=v2[1:])]
    rest = [l for l in labels if l not in ls]
    if rest:
        diffs += [dict(v1=v1 + [rng.choice(rest)])]
        if kind == "eq":
            diffs += [dict(v2=v2 + [rng.choice(rest)])]
    if len(v1) > 1:
        diffs += [dict(v1=v1[1:])]
    for d in diffs:
        ne(case, a, make(**dict(base, **d), order=rng), f"constraints which differ in {sorted(d)}")
        case.count("constraint_pairs")
    # edited to be the same again
    b = make(**base, order=rng)
    if rest:
        r = h.var(rng.choice(rest))
        (b.add_variable_to_1 if kind == "eq" else b.add_variable)(r)
        ne(case, a, b, "constraints after adding a variable to one")
        (b.remove_variable_from_1 if kind == "eq" else b.remove_variable)(r)
        eq(case, a, b, "constraints after undoing an edit")
    case.sign(kind, len(v1), len(v2), base["n"], base["strength"])


# ---------------------------------------------------------------- C27
def rejects(case, what, fn):
    try:
        r = fn()
    except Exception as e:  # noqa
        case.ev("rejected", what, type(e).__name__)
        case.count("rejected")
        return
    case.check(False, f"accepted although it cannot be honoured: {what}", repr(r)[:200])


NOT_MODELS = [None, 5, "model", {}, [], object()]


def c27(case):
    if case.rng.random() < 0.8:
        c27_solver(case)
    else:
        c27_pipeline(case)


def c27_solver(case):
    rng = case.rng
    b = build(case, max_vars=8)
    kind = rng.choice(["sawatabi", "sawatabi", "sawatabi", "exact", "neal", "optigan", "dwave"])
    frozen = physical_numbers(b.p)
    logical = b.h.m
    lsnap = snapshot(logical)
    empty = LogicalModel(mtype=rng.choice([SPIN, BIT]))
    empty.variables("x", shape=(2,))
    if rng.random() < 0.5:
        empty.offset(3.0)
    pe = empty.to_physical()
    if kind == "sawatabi":
        s = SawatabiSolver()
        o = sawatabi_options(rng, b, reads=rng.randint(1, 4), sweeps=rng.randint(1, 12))
        o["seed"] = rng.randint(0, 10**6)
        reads = o["num_reads"]
        bad = []
        for m in rng.sample(NOT_MODELS, 2) + [logical, b.bqm]:
            bad.append((f"a {type(m).__name__} as model", dict(o, model=m)))
        bad.append(("an empty model", dict({k: v for k, v in o.items() if k != "initial_states"}, model=pe)))
        wrong = [n for n in (reads - 1, reads + 1, reads + 3) if n > 0 and n != reads]
        bad.append(("initial states for another number of reads", dict(o, initial_states=random_states(rng, b, rng.choice(wrong)))))
        st = random_states(rng, b, reads)
        i = rng.randrange(reads)
        gone = rng.choice(b.vars)
        st[i] = {k: v for k, v in st[i].items() if k != gone}
        bad.append(("an initial state without one of the variables", dict(o, initial_states=st)))
        bad.append(("an unknown visiting order", dict(o, pickup_mode=rng.choice(["Random", "", "seq", "sequential ", None, 1, "randomly", "reverse"]))))
        bad.append(("reverse options without the period", dict(o, reverse_options={"reverse_temperature": 5.0})))
        bad.append(("reverse options without the temperature", dict(o, reverse_options={"reverse_period": 3})))
        bad.append(("reverse options under other names", dict(o, reverse_options={"period": 3, "temperature": 1.0})))
        bad.append(("reverse options that are no mapping", dict(o, reverse_options=rng.choice([[3, 5.0], (3, 5.0), "reverse", 7, {"reverse_period"}, ["reverse_period", "reverse_temperature"]]))))
        first = result_key(s.solve(b.p, **o)) if rng.random() < 0.6 else None
        rng.shuffle(bad)
        for what, kw in bad[: rng.randint(2, len(bad))]:
            kw = dict({"model": b.p}, **kw)
            given = copy.deepcopy({k: v for k, v in kw.items() if k != "model"})
            rejects(case, f"SawatabiSolver with {what}", lambda: s.solve(**kw))
            case.check({k: v for k, v in kw.items() if k != "model"} == given, "a rejected call changed its arguments", what)
            case.sign(what)
        again = result_key(s.solve(b.p, **o))
        fresh = result_key(SawatabiSolver().solve(b.p, **o))
        case.check(again == fresh and (first is None or first == fresh), "a solver answers differently after rejected calls", str(again)[:300], str(fresh)[:300])
        case.count("recovered_solves")
    elif kind in ("exact", "neal"):
        s = LocalSolver(exact=kind == "exact")
        for m in rng.sample(NOT_MODELS, 3) + [logical, b.bqm, pe]:
            rejects(case, f"LocalSolver with a {'n empty' if m is pe else type(m).__name__} model", lambda: s.solve(m))
            rejects(case, f"default_beta_range of a {type(m).__name__}", lambda: s.default_beta_range(m))
        if kind == "neal":
            rejects(case, "a negative number of reads", lambda: s.solve(b.p, num_reads=-3))
            s.solve(b.p, num_reads=1, num_sweeps=5, seed=3)
        else:
            case.check(len(s.solve(b.p)) == 2**b.n, "the exact solver after rejected calls")
        case.count("recovered_solves")
        case.sign(kind, b.n)
    elif kind == "optigan":
        posted = []

        def post(*a, **k):
            posted.append((a, k))
            raise AssertionError("a request was sent")

        with mock.patch("requests.post", post), mock.patch("requests.sessions.Session.request", post):
            s = OptiganSolver(endpoint="http://127.0.0.1:9/x", token="t")
            for m in rng.sample(NOT_MODELS, 3) + [logical, b.bqm, pe]:
                rejects(case, f"OptiganSolver with {type(m).__name__}", lambda: s.solve(m))
            if b.mtype == SPIN:
                rejects(case, "OptiganSolver with an Ising model", lambda: s.solve(b.p))
            case.check(not posted, "a request was sent for a model that cannot be solved", str(posted)[:200])
            t = OptiganSolver(config="/nonexistent/optigan.yml")
            rejects(case, "a configuration file that does not exist", lambda: t.solve(b.p))
            case.check(not posted, "a request was sent without credentials", str(posted)[:200])
        case.sign(kind, b.mtype, b.n)
    else:
        sampled = []

        def sample(self, *a, **k):
            sampled.append(a)
            raise AssertionError("sampled")

        nothing = lambda self, *a, **k: None  # noqa: E731
        comp = "dwave.system.composites.EmbeddingComposite."
        with mock.patch("dwave.system.samplers.DWaveSampler.__init__", nothing), mock.patch(comp + "__init__", nothing), mock.patch(comp + "sample", sample):
            s = DWaveSolver(endpoint="e", token="t")
            for m in rng.sample(NOT_MODELS, 3) + [logical, b.bqm, pe]:
                rejects(case, f"DWaveSolver with {type(m).__name__}", lambda: s.solve(m))
        case.check(not sampled, "a model that cannot be solved was submitted")
        case.sign(kind, b.mtype, b.n)
    case.check(physical_numbers(b.p) == frozen, "a rejected call changed the model")
    case.check(snapshot(logical) == lsnap, "a rejected call changed the logical model")


NEEDED = {
    "window": (Window, ["window.size", "window.period"]),
    "attenuation": (Attenuation, ["window.size", "window.period", "attenuation.key", "attenuation.min_scale"]),
    "delta": (Delta, ["window.size"]),
    "incremental": (Incremental, ["incremental.size"]),
    "partial": (Partial, ["window.size", "window.period", "filter_fn"]),
}
GOOD = {"window.size": 4, "window.period": 2, "attenuation.key": "attributes.attn_ts", "attenuation.min_scale": 0.1, "incremental.size": 3, "filter_fn": stream_cb.filter_even}


def c27_pipeline(case):
    rng = case.rng
    algo = rng.choice(list(NEEDED))
    cls, keys = NEEDED[algo]
    gone = rng.choice(keys + ["mtype", "mtype-kind"])
    opts = {k: GOOD[k] for k in keys if k != gone}
    opts["input.reassign_timestamp"] = True
    if rng.random() < 0.5:
        opts["output.prefix"] = "p"
    kw = {}
    if gone == "mtype":
        kw["initial_mtype"] = rng.choice(["Ising", "QUBO", "", "spin", "qubo "])
    elif gone == "mtype-kind":
        kw["initial_mtype"] = rng.choice([None, 3, ["ising"], True])
    case.ev("pipeline", algo, "without or with a wrong", gone, kw)

    class R(wl_stream.Run):
        def on_map(self, ev, model, ss, elements, incoming, outgoing):
            if "x" not in model.get_variables():
                model.variables("x", shape=(1,))
            model.add_interaction(model.get_variables_by_name("x")[0], name=f"i{ev['n']}", coefficient=1.0, attributes={"attn_ts": float(ev["n"])})
            return model

    run = R(case)
    given = dict(opts)
    n = rng.randint(5, 12)

    def go():
        p = cls.create_pipeline(
            algorithm_options=opts, input_fn=beam.Create(list(range(n))), map_fn=stream_cb.map_fn, solve_fn=stream_cb.solve_fn, unmap_fn=stream_cb.unmap_fn,
            output_fn=beam.ParDo(stream_cb.Recorder()), **kw,
        )
        p.run().wait_until_finish()
        return [t for _, t in run.outputs]

    stream_cb.RUN = run
    try:
        rejects(case, f"{algo} pipeline: {gone}", go)
    finally:
        stream_cb.RUN = None
    case.check(opts == given, "a rejected call changed the options")
    good = [t for _, t in run.outputs if not str(t).startswith("Failed")]
    case.check(not [t for t in good if "solution" in str(t)], "solutions were produced by a pipeline that was then rejected", good[:3])
    case.count("rejected_pipelines")
    case.sign(algo, gone, str(kw))


# ---------------------------------------------------------------- C28
def c28(case):
    rng = case.rng
    k = rng.random()
    if k < 0.35:
        c28_profile(case)
    elif k < 0.5:
        c28_clock(case)
    else:
        c28_solver(case)


def c28_profile(case):
    rng = case.rng
    calls = []
    nap = rng.choice([0.0, 0.0, 0.002, 0.02])
    mode = rng.choice(["value", "value", "raise", "nested", "method", "recursive", "threads"])
    val = rng.choice([None, 0, "", [1, 2], {"return": 3}, (), {"profile": {}}, 5.5, object(), NotImplemented, Ellipsis, StopIteration(3), False, float("nan")])
    exc = rng.choice([KeyError, ValueError, StopIteration, GeneratorExit, SystemExit, KeyboardInterrupt, AttributeError, TypeError, TimeoutError, RecursionError])
    name = rng.choice(["solve", "f", "a_long_function_name", "get_profile"])

    def body(*a, **k):
        calls.append((a, k))
        if nap:
            time.sleep(nap)
        if mode == "raise":
            raise exc("told to")
        return val

    body.__name__ = name
    body.__doc__ = "documentation"
    f = utils.profile(body)
    case.check(f.__name__ == name and f.__doc__ == "documentation", "the wrapper hides the function's name or documentation", f.__name__)
    args, kw = tuple(rng.sample([1, "a", None, (2,), [3]], rng.randint(0, 3))), {k: rng.choice([rng.randint(0, 9), None, 0, "", []]) for k in rng.sample(["x", "start_sec", "func", "return_", "y"], rng.randint(0, 2))}
    t0 = time.perf_counter()
    if mode == "raise":
        try:
            f(*args, **kw)
        except exc as e:
            case.check(e.args == ("told to",) and type(e) is exc, "another exception", e)
        else:
            case.check(False, "the exception of the wrapped function was swallowed")
        case.check(calls == [(args, kw)], "the function was not called exactly once with its arguments", calls)
        case.count("exceptions_propagated")
        case.sign("raise", nap, name)
        return
    inner = 0.0
    reps = rng.randint(1, 3)
    for i in range(reps):
        t0 = time.perf_counter()
        r = f(*args, **kw)
        wall = time.perf_counter() - t0
        case.check(set(r) == {"return", "profile"} and r["return"] is val, "the wrapped function's value is not returned as it is", r)
        p = r["profile"]
        case.check(p["function_name"] == name, "reported function name", p)
        case.check(nap * 0.999 - 1e-6 <= p["execution_sec"] <= wall, "reported time is not the time spent in the function", p["execution_sec"], nap, wall)
        case.count("profiles_checked")
    case.check(calls == [(args, kw)] * reps, "the function was not called exactly once per call with its arguments", calls)
    if mode == "nested":
        g = utils.profile(f)
        r = g(*args, **kw)
        a, b2 = r["profile"]["execution_sec"], r["return"]["profile"]["execution_sec"]
        case.check(a >= b2 >= 0, "nested profiles", a, b2)
    if mode == "method":

        class A:
            def __init__(self):
                self.k = 3

            @utils.profile
            def get(self, d):
                return self.k + d

        case.check(A().get(4)["return"] == 7 and A().get(d=1)["return"] == 4, "profiled method")
    if mode == "recursive":
        # calls of one profiled function inside another call of it, with a nap at each level
        took = []

        @utils.profile
        def down(n):
            time.sleep(0.001)
            t = time.perf_counter()
            res = down(n - 1) if n else None
            if res is not None:
                took.append((res["profile"]["execution_sec"], time.perf_counter() - t))
            time.sleep(0.001)
            return n

        t0 = time.perf_counter()
        res = down(rng.randint(1, 3))
        took.append((res["profile"]["execution_sec"], time.perf_counter() - t0))
        for i, (e, wall) in enumerate(took):
            case.check(0.002 * (i + 1) * 0.99 <= e <= wall, "time of a recursive call", i, e, wall)
        case.count("recursive_profiles", len(took))
    if mode == "threads":
        res = {}
        naps = [rng.choice([0.001, 0.004, 0.01]) for _ in range(4)]

        @utils.profile
        def wait(i):
            time.sleep(naps[i])
            return i

        def work(i):
            t0 = time.perf_counter()
            v = wait(i)
            res[i] = (v, time.perf_counter() - t0)

        ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i, (v, wall) in res.items():
            e = v["profile"]["execution_sec"]
            case.check(v["return"] == i and naps[i] * 0.99 <= e <= wall, "profile of a concurrent call", i, v, naps[i], wall)
        case.count("concurrent_profiles", len(res))
    case.sign(mode, nap, name, len(args), tuple(sorted(kw)))


def c28_clock(case):
    units = {"": 1, "_ms": 1e3, "_us": 1e6, "_ns": 1e9}
    rng = case.rng
    # under a controlled clock as well as the real one
    for suffix, k in units.items():
        for as_int in (False, True):
            fn = getattr(utils, "current_time" + suffix + ("_as_int" if as_int else ""))
            t0 = time.time()
            v = fn()
            t1 = time.time()
            if t1 < t0:
                continue  # the clock was set back
            case.check(isinstance(v, int if as_int else float), "type of the reported time", suffix, type(v).__name__)
            slack = k * 1e-6 + 1  # resolution of the double and truncation
            case.check(t0 * k - slack <= v <= t1 * k + slack, "reported time is not the current time in its unit", suffix, v, t0 * k)
            case.count("clock_reads")
    # monotone together with the system clock, down to its own resolution (a clock set back explains one reading, not three)
    for suffix, k in units.items():
        for as_int in (False, True):
            fn = getattr(utils, "current_time" + suffix + ("_as_int" if as_int else ""))
            early = []
            for _ in range(20):
                t0 = time.time()
                v = fn()
                if v < (int(t0 * k) if as_int else t0 * k):
                    early.append((v, t0))
            case.check(len(early) < 3, "reported times lie before the call", suffix, as_int, early[:2])
    case.sign("clock", rng.randint(0, 3))


def c28_solver(case):
    rng = case.rng
    kind = rng.choice(["sawatabi", "sawatabi", "exact", "neal"])
    b = build(case, max_vars=8) if rng.random() < 0.7 else simple(case, 10)
    if kind == "sawatabi":
        s = SawatabiSolver()
        big = rng.random() < 0.25
        reads, sweeps = (rng.randint(3, 12), 400) if big else (rng.randint(1, 4), rng.randint(0, 20))
        kw = dict(num_reads=reads, num_sweeps=sweeps, seed=rng.randint(0, 99))
        if rng.random() < 0.5:
            kw["need_stats"] = True
    elif kind == "exact":
        s, kw = LocalSolver(exact=True), {}
    else:
        s, kw = LocalSolver(exact=False), dict(num_reads=rng.randint(1, 20), num_sweeps=rng.choice([1, 50, 2000]), seed=rng.randint(1, 99))
    last = None
    nap = rng.choice([0.0, 0.0, 0.001, 0.004])
    spent = []

    def slow(fn):
        """The search itself, taking a little longer, and noting how long."""
        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            t = time.perf_counter()
            try:
                res = fn(*args, **kwargs)
                time.sleep(nap)
                return res
            finally:
                spent.append(time.perf_counter() - t)
        return wrapper

    patch = {"sawatabi": (SawatabiSolver, "annealing"), "exact": (dimod.ExactSolver, "sample"), "neal": (neal.SimulatedAnnealingSampler, "sample")}[kind]
    for _ in range(rng.randint(1, 3)):
        del spent[:]
        with mock.patch.object(*patch, slow(getattr(*patch))) if hasattr(*patch) else contextlib.nullcontext():
            t0 = time.perf_counter()
            r = s.solve(b.p, **kw)
            wall = time.perf_counter() - t0
        ss = r[0] if isinstance(r, tuple) else r
        e = ss.info["timing"]["execution_sec"]
        case.check(isinstance(e, float) and 0.0 < e <= wall, "reported execution time is not within the duration of the call", kind, e, wall)
        case.check(e >= sum(spent), "reported execution time is shorter than the search", kind, e, sum(spent), len(spent))
        case.count("searches_timed", len(spent))
        if wall > 0.25 and kind == "sawatabi":
            case.check(e >= 0.25 * wall, "reported execution time leaves out most of the search", kind, e, wall)
            case.count("long_solves")
        if last is not None:
            case.check(last[0].info["timing"]["execution_sec"] == last[1], "the time of an earlier result changed", last[1])
        last = (ss, e)
        case.count("timings_checked")
    case.sign(kind, tuple(sorted((k, v) for k, v in kw.items() if k != "seed")), b.n)
