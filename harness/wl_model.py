"""Workloads and monitors for the logical/physical model properties."""
import copy
import itertools
import pickle

import dimod
import numpy as np
import pyqubo

from common import HarnessError
from history import (ALL, ARRAY_NAMES, Hist, bqm_poly, check_constraints, check_physical, check_poly, con_view, diff_snap, flat_labels, isnan,
                     physical_numbers, rand_feed, rand_number, rand_ph, same_physical, snapshot, table)
from sawatabi.model import LogicalModel, PhysicalModel
from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint
from shadow import BIT, SPIN, Con, Poly, Row, Shadow, Val, close, penalty_poly

EDIT = {"add": 10, "update": 6, "upsert": 1, "remove": 4, "remove_again": 1, "offset": 1, "compile": 2, "append": 1, "declare": 0}


def start(case, **kw):
    h = Hist(case, **kw)
    for _ in range(case.rng.randint(1, h.max_arrays)):
        h.declare()
    return h


def n_ops(case, lo=4, hi=30):
    k = case.rng.random()
    if k < 0.15:
        hi = hi * 2
    elif k < 0.165:
        lo, hi = hi * 3, hi * 6
    return case.rng.randint(lo, hi)


# ---------------------------------------------------------------- C01
def c01(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.15, 0.4]))
    h.run_ops(n_ops(case), EDIT)
    if rng.random() < 0.08:
        for _ in range(rng.randint(1, 3)):
            h.extreme()
    h.compile()
    # second phase on the same model: re-use of removed names after compilation
    for name in list(h.s.rows)[:3]:
        r = h.s.rows[name]
        if rng.random() < 0.5:
            key = r.key
            h.remove(name)
            h.compile()
            h.add(key=key, name=name)
    h.run_ops(rng.randint(0, 8), EDIT)
    if rng.random() < 0.5:
        # the same feed and another one
        _, ph = h.last
        h.compile(ph)
    h.compile()
    # a sum that cancels exactly must leave no term, one that does not must keep it
    key = h.pick_key(existing=0.0)
    if key and rng.random() < 0.5:
        c = rng.choice([0.5, 3.0, 1e-10, 2**40 * 1.0])
        h.add(key=key, name="cancel+", coef=Val(c), scale=Val(2.0))
        h.add(key=key, name="cancel-", coef=Val(-2.0 * c), scale=Val(1.0))
        h.compile()
        h.update(name="cancel-", coef=Val(-2.0 * c * (1 + rng.choice([0.0, 1e-3]))), scale=None)
        h.compile()


# ---------------------------------------------------------------- C02
def c02(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.2, 0.4]))
    w = dict(EDIT, add_constraint=3, edit_constraint=1, delete=1, fix=1, compile=0)
    old = []
    for _ in range(rng.randint(2, 5)):
        h.run_ops(n_ops(case, 2, 10), w)
        if rng.random() < 0.15:
            h.convert()
        if h.uses_ph and rng.random() < 0.6:
            failing_compile(case, h)
        before = snapshot(h.m, removed=False, dirty=False)
        p1 = h.compile()
        f1 = physical_numbers(p1)
        after = snapshot(h.m, removed=True, dirty=False)
        for r in after["interactions"].values():
            pass
        case.check(before == after, "compilation changed the logical model", diff_snap(before, after))
        ph = h.last[1]
        if rng.random() < 0.4 and h.uses_ph:
            h.compile()  # other placeholder values in between
            failing_compile(case, h)
        if rng.random() < 0.3:
            str(h.m), repr(h.m), str(p1), repr(p1)
        p2 = h.compile(ph)
        case.check(p1 == p2 and not (p1 != p2), "compiling again gives an unequal physical model")
        same_physical(case, p1, p2, "compiling again")
        after2 = snapshot(h.m, removed=True, dirty=False)
        case.check(before == after2, "second compilation changed the logical model", diff_snap(before, after2))
        # a second, independent compilation from a copy agrees as well
        old.append((p1, f1))
        for p, f in old:
            case.check(physical_numbers(p) == f, "an earlier physical model changed")
    h.run_ops(rng.randint(0, 6), w)
    if h.alive():
        h.fix() if rng.random() < 0.5 else h.delete()
    h.convert() if rng.random() < 0.3 else h.compile()
    for p, f in old:
        case.check(physical_numbers(p) == f, "an earlier physical model changed because of later operations")


def needs_placeholder(h):
    """Does any live coefficient/scale/offset need a placeholder value?"""
    class Probe(dict):
        used = False

        def __getitem__(self, k):
            Probe.used = True
            return 1.0

    Probe.used = False
    for _, f in h.s.terms():
        f(Probe())
    h.s.offset(Probe())
    return Probe.used


def failing_compile(case, h):
    if not needs_placeholder(h):
        return
    before = snapshot(h.m)
    try:
        if case.rng.random() < 0.5:
            p = h.m.to_physical()
        else:
            p = h.m.to_physical(placeholder={"unrelated": 1.0})
    except Exception as e:  # noqa
        case.ev("failed compile", type(e).__name__)
        case.count("failed_compiles")
        after = snapshot(h.m)
        case.check(before == after, "a failed compilation changed the logical model", diff_snap(before, after))
        return
    # Whether an expression still needs its placeholders (0 * P, say) is the symbolic
    # library's business: a compilation that does succeed is simply another compilation.
    # It then depends on no placeholder, whatever value one would have given.
    case.count("placeholder_free_after_all")
    for _ in range(2):
        check_physical(case, p, h.s, h.feed(), "compiled without placeholder values")
    h.s.compile()


# ---------------------------------------------------------------- C03
def c03(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.2]))
    w = dict(EDIT, add_constraint=3, edit_constraint=1)
    h.run_ops(n_ops(case, 4, 20), w)
    if rng.random() < 0.25:
        h.convert()
        h.compile() if rng.random() < 0.5 else None
    star = None
    if h.alive() and rng.random() < 0.06:
        star = rng.choice(h.alive())
        for i in range(rng.randint(30, 150)):
            others = [x for x in h.alive() if x != star]
            h.add(key=(star,) if not others or rng.random() < 0.3 else tuple(sorted((star, rng.choice(others)))), name="star %d" % i)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            h.compile()
        # removed-but-not-compiled interactions on the victim must stay removed
        label = None
        if h.s.removed and h.s.rows and rng.random() < 0.3:
            label = rng.choice(rng.choice(list(h.s.rows.values())).key)
        if h.s.cons and rng.random() < 0.4:
            c = rng.choice(list(h.s.cons.values()))
            cand = sorted(c.v1 | c.v2)
            label = rng.choice(cand) if cand else None
        if star in h.alive() and rng.random() < 0.7:
            label = star
        if rng.random() < 0.1 and h.alive():
            # fixed first, then deleted
            label = label if label in h.alive() else rng.choice(h.alive())
            h.fix(label)
            h.compile() if rng.random() < 0.5 else None
            case.count("deleted_after_fixing")
        if rng.random() < 0.1 and h.s.deleted:
            # deleted before, used again, deleted again
            label = rng.choice(sorted(h.s.deleted - set(h.s.fixed)) or [None])
            if label:
                case.sign("again")
                for i in range(rng.randint(1, 2)):
                    others = h.alive()
                    h.add(key=(label,) if not others or rng.random() < 0.5 else tuple(sorted((label, rng.choice(others)))), name=f"again {len(case.log)}")
                if others and rng.random() < 0.5:
                    h.add_constraint(labels=[label, rng.choice(others)])
                h.compile() if rng.random() < 0.5 else None
                case.count("deleted_again")
        h.delete(label)
        victim = case.log[-1].split(None, 1)[1]
        check_constraints(case, h.m, h.s)
        p = h.compile()
        case.check(victim not in p.to_bqm().variables and victim not in p._label_to_index, "a deleted variable occurs in the compiled model", victim)
        case.check(victim in h.m.get_deleted_array(), "deleted variable is not listed", victim)
        t = table(h.m)
        case.check(all(victim not in r["key"] for r in t.values()), "an interaction of a deleted variable is still live", victim)
        case.check(len(h.m.select_interactions_by_variable(h.var(victim))) == 0, "a deleted variable still selects interactions after compilation", victim)
        if h.alive():
            h.run_ops(rng.randint(0, 5), {"add": 5, "update": 3, "remove": 1, "add_constraint": 1, "append": 1})
        if rng.random() < 0.12:
            h.convert()
    if rng.random() < 0.4 and h.s.deleted:
        h.delete(rng.choice(sorted(h.s.deleted)))
    h.compile()


# ---------------------------------------------------------------- C04
def c04(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.25]), max_arrays=2)
    w = dict(EDIT, compile=1)
    if rng.random() < 0.5:
        w.update(add_constraint=2, edit_constraint=1)
    # dense small models so that fixings hit adjacent variables
    h.run_ops(n_ops(case, 5, 25), w)
    for a, b in itertools.combinations(h.alive()[:4], 2):
        if rng.random() < 0.5:
            h.add(key=(a, b) if a < b else (b, a))
    if rng.random() < 0.15:
        h.convert()
    star = None
    if h.alive() and rng.random() < 0.05:
        star = rng.choice(h.alive())
        for i in range(rng.randint(30, 120)):
            others = [x for x in h.alive() if x != star]
            h.add(key=(star,) if not others or rng.random() < 0.3 else tuple(sorted((star, rng.choice(others)))), name="star %d" % i)
    ph = h.feed()
    for _ in range(rng.randint(1, 5)):
        if not h.alive():
            break
        if rng.random() < 0.5:
            h.compile(ph)
        if rng.random() < 0.3:
            h.remove()
        before, bad0 = h.s.energy_poly(ph)
        reject = 0 if h.s.mtype == SPIN else -1
        if rng.random() < 0.2:
            v = h.var(rng.choice(h.alive()))
            snap = snapshot(h.m)
            try:
                h.m.fix_variable(v, rng.choice([reject, 2, 0.5, -2]))
            except ValueError:
                case.check(snapshot(h.m) == snap, "rejected fixing changed the model")
            else:
                case.check(False, "a value outside the domain was accepted")
        h.fix(star if star in h.alive() else None)
        label = case.log[-1].split()[1]
        value = h.s.fixed[label]
        # the property itself, on the shadow: restriction of the energy before
        after, _ = h.s.energy_poly(ph)
        want = before.substitute(label, value)
        for k in set(want.t) | set(after.t):
            if not close(want.t.get(k, 0.0), after.t.get(k, 0.0), want.tol(k) + after.tol(k)):
                raise HarnessError(f"shadow fixing is not a restriction at {k}")
        p = h.compile(ph) if rng.random() < 0.7 else None
        if p is not None:
            case.check(label not in p.to_bqm().variables, "a fixed variable occurs in the compiled model", label)
        case.check(label in h.m.get_fixed_array(), "fixed variable is not listed", label)
        if rng.random() < 0.4:
            h.run_ops(rng.randint(1, 3), {"add": 3, "update": 1, "remove": 1})
        if rng.random() < 0.1:
            h.convert()
        if rng.random() < 0.1 and h.alive():
            h.delete()
        if rng.random() < 0.12:
            # interactions that come after the fixing, and the same fixing once more
            v = None if label not in h.s.fixed else 1 if h.s.fixed[label] == 1 else -1 if h.s.mtype == SPIN else 0
            if v is not None and label not in h.s.deleted:
                for _ in range(rng.randint(1, 2)):
                    others = h.alive()
                    h.add(key=(label,) if not others or rng.random() < 0.5 else tuple(sorted((label, rng.choice(others)))), name=f"late {len(case.log)}")
                h.compile(ph) if rng.random() < 0.4 else None
                if rng.random() < 0.5:
                    # the partners of the fixed variable get fixed first
                    partners = sorted({l for r in h.s.rows.values() for l in r.key if label in r.key and l != label} & set(h.alive()))
                    if partners:
                        h.fix(rng.choice(partners))
                        h.compile(ph)
                h.fix(label, v)
                p = h.compile(ph)
                case.check(label not in p.to_bqm().variables, "a variable fixed again occurs in the compiled model", label)
                case.count("fixed_again")
        if rng.random() < 0.15 and h.alive() and h.s.fixed:
            # a constraint that comes later and contains fixed variables
            pool = h.alive() + [l for l in h.s.fixed if l not in h.s.deleted] * 2
            h.add_constraint(labels=list(dict.fromkeys(rng.choice(pool) for _ in range(rng.randint(2, 5)))))
            case.count("constraints_on_fixed")
            h.compile(ph)
    h.compile(ph)


# ---------------------------------------------------------------- C05
def brute_penalty(kind, n, strength, a, v1, v2):
    if kind == "nhot":
        return strength * (sum(a[l] for l in v1) - n) ** 2
    if kind == "zoh":
        s = sum(a[l] for l in v1)
        return strength * s * (s - 1)
    return strength * (sum(a[l] for l in v1) - sum(a[l] for l in v2)) ** 2


def c05(case):
    rng = case.rng
    h = start(case, max_arrays=2)
    if rng.random() < 0.6:
        h.run_ops(rng.randint(0, 6), EDIT)
    w = {"add_constraint": 5, "edit_constraint": 6, "readd_constraint": 1, "remove_constraint": 1, "add": 1, "compile": 1, "append": 1, "delete": 1}
    for _ in range(rng.randint(1, 4)):
        h.run_ops(rng.randint(1, 7), w)
        check_constraints(case, h.m, h.s)
        if rng.random() < 0.2 and h.s.cons:
            # the user's own interactions, named the way a constraint names its
            sc = h.s.cons[rng.choice(sorted(h.s.cons))]
            vs = [l for l in sorted(sc.v1 | sc.v2) if l in h.alive()]
            for _ in range(rng.randint(1, 3)):
                key = tuple(sorted(rng.sample(vs, min(len(vs), rng.choice([1, 2])))))
                name = f"{'*'.join(key)} ({sc.label})"
                if key and h.is_free(name):
                    h.add(key=key, name=name)
                    case.count("names_like_a_constraint")
        # each constraint's own model against direct evaluation of the penalty
        for label, c in h.m.get_constraints().items():
            sc = h.s.cons[label]
            direct_penalty(case, c.to_model().to_physical(), sc)
        p = h.compile()
        # with against without constraints, by direct evaluation
        bare = h.s.copy()
        bare.cons = {}
        base, _ = bare.energy_poly(h.last[1])
        compare_direct(case, p, base, list(h.s.cons.values()), h.s.mtype)
        if rng.random() < 0.15:
            h.convert()
    # construct, then fill step by step; construct from a whole array
    name = rng.choice(list(h.m.get_variables()))
    arr = h.m.get_variables_by_name(name)
    labs = [l for _, l in flat_labels(arr)]
    if len(labs) <= 12 and not (set(labs) & h.s.deleted):
        n, st = rng.randint(1, 5), rng.choice([1.0, 2.0, 0.3])
        c = NHotConstraint(n=n, strength=st, label="whole")
        c.add_variable(arr)
        h.m.add_constraint(c)
        h.s.cons["whole"] = Con("nhot", "whole", st, labs, n=n)
        case.ev("constraint over the whole array", name, n, st)
        h.compile()


def direct_penalty(case, p, sc):
    poly = Poly()
    compare_direct(case, p, poly, [sc], BIT, what=f"constraint {sc.describe()}")


def compare_direct(case, p, base, cons, mtype, what="model with constraints"):
    """Energies of (all or many) assignments against base + penalties, up to one constant."""
    rng = case.rng
    bqm = p.to_bqm()
    labels = sorted(base.labels() | {l for c in cons for l in c.v1 | c.v2})
    for l in bqm.variables:
        case.check(l in labels, f"{what}: foreign variable {l}")
    dom = (-1, 1) if mtype == SPIN else (0, 1)
    if len(labels) <= 6:
        assigns = [dict(zip(labels, v)) for v in itertools.product(dom, repeat=len(labels))]
    else:
        assigns = [{l: rng.choice(dom) for l in labels} for _ in range(24)]
        for c in cons:  # near-satisfied assignments
            vs = sorted(c.v1 | c.v2)
            for _ in range(4):
                on = set(rng.sample(vs, min(len(vs), rng.randint(0, 3))))
                assigns.append({l: (dom[1] if (l in on or (l not in vs and rng.random() < 0.5)) else dom[0]) for l in labels})
    const = None
    scale = base.tol() + sum(abs(c.strength) * (len(c.v1) + len(c.v2) + c.n + 1) ** 2 for c in cons) * 1e-9
    # Energies with huge magnitudes hide small penalties: compare term-free when possible
    for a in assigns:
        bits = {l: (1 if a[l] == dom[1] else 0) for l in labels}
        pen = sum(brute_penalty(c.kind, c.n, c.strength, bits, c.v1, c.v2) for c in cons)
        e = bqm.energy({l: a[l] for l in bqm.variables}) - base.energy(a) - pen
        if const is None:
            const = e
        case.check(abs(e - const) <= 4 * scale + 1e-12, f"{what}: penalty of an assignment is off by {e - const}", a)
        case.count("penalty_assignments")


# ---------------------------------------------------------------- C06
def c06(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.3]))
    w = dict(EDIT)
    if rng.random() < 0.4:
        w.update(add_constraint=2, edit_constraint=1)
    if rng.random() < 0.3:
        w.update(delete=1, fix=1)
    h.run_ops(n_ops(case, 2, 20), w)
    ph = h.feed()
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            h.compile(ph)
        before = snapshot(h.m, removed=False, dirty=False)
        h.convert()
        after = snapshot(h.m, removed=False, dirty=False)
        case.check(after["mtype"] == h.s.mtype and h.m.get_mtype() == h.s.mtype, "type not switched")
        vt = "Spin" if h.s.mtype == SPIN else "Binary"
        for n, (sh, labs) in after["variables"].items():
            case.check(n in before["variables"] and before["variables"][n][0] == sh, "variable array changed shape in conversion", n)
            case.check([l for _, l in labs] == [l for _, l in before["variables"][n][1]], "labels changed in conversion", n)
            case.check(all(t == vt for t, _ in labs), "variables do not have the converted type", n)
        case.check(set(after["variables"]) == set(before["variables"]), "variable arrays lost in conversion")
        for k in ("constraints", "deleted", "fixed", "sizes"):
            case.check(before[k] == after[k], f"conversion changed {k}", before[k], after[k])
        for n, r in before["interactions"].items():
            case.check(n in after["interactions"], "conversion lost an interaction", n)
            r2 = after["interactions"][n]
            case.check(r2["key"] == r["key"] and r2["body"] == r["body"] and r2["attrs"] == r["attrs"], "conversion changed key or attributes", n, r, r2)
        h.compile(ph)
        # converting again to the same type is a no-op
        if rng.random() < 0.3:
            s = snapshot(h.m)
            (h.m.to_ising if h.s.mtype == SPIN else h.m.to_qubo)()
            case.check(snapshot(h.m) == s, "converting to the current type changed the model")
        # later operations act on the converted energy
        h.run_ops(rng.randint(0, 4), {"add": 4, "delete": 1, "fix": 1, "add_constraint": 1, "append": 1})
        h.compile(ph)
    if rng.random() < 0.6:
        h.convert()
        h.compile(ph)
    case.sign(len(h.s.rest), h.s.mtype)


# ---------------------------------------------------------------- C07
def other_model(case, h, depth=0):
    """A second model, partly over the same arrays."""
    rng = case.rng
    o = Hist(case, mtype=h.s.mtype if rng.random() < 0.7 else None, placeholders=h.ph_rate, max_arrays=2)
    for n, sh in h.s.arrays.items():
        if rng.random() < 0.7:
            o.declare(n, tuple(max(1, d + rng.randint(-1, 2)) for d in sh))
    if not o.s.arrays or rng.random() < 0.4:
        o.declare()
    o.nname = 0 if rng.random() < 0.6 else 500  # user-given names may clash
    w = dict(EDIT)
    if rng.random() < 0.4:
        w["add_constraint"] = 2
    o.run_ops(n_ops(case, 0, 12), w)
    if rng.random() < 0.2:
        o.fix()
    if rng.random() < 0.15:
        o.delete()
    gone = sorted(h.s.deleted | set(h.s.fixed))
    gone = [l for l in gone if l in o.s.labels()]
    if gone and rng.random() < 0.5:
        # a variable that is gone in both, by the same or by different means
        l = rng.choice(gone)
        o.delete(l) if rng.random() < 0.6 else o.fix(l)
    return o


def rename_free(h, o):
    """Drop constraints of `o` whose label the receiver already has."""
    for l in list(o.s.cons):
        if l in h.s.cons:
            o.m.remove_constraint(l)
            del o.s.cons[l]


def compatible(h, o):
    for n, sh in o.s.arrays.items():
        if n in h.s.arrays and len(h.s.arrays[n]) != len(sh):
            return False
    # deletion and fixing are per-model decisions; merges where one model deleted or fixed a
    # variable which the other one uses are outside the property
    for a, b in ((h.s, o.s), (o.s, h.s)):
        used = {l for k, _ in b.terms() for l in k} | {l for c in b.cons.values() for l in c.v1 | c.v2}
        if (a.deleted | set(a.fixed)) & used:
            return False
    # two fixings of one variable may contradict each other
    if set(h.s.fixed) & set(o.s.fixed):
        return False
    return True


def norm_attrs(attrs):
    """Attribute values with numbers as floats (table columns have one numeric type)."""
    return tuple(sorted((k, v if isinstance(v, str) else float(v)) for k, v in attrs.items()))


def check_table_superset(case, before, after, who):
    """Every interaction of `before` is in `after` (possibly renamed), record for record."""
    def recs(t):
        out = {}
        for n, r in t.items():
            k = repr((r["body"], r["key"], float(r["coefficient"]) if not isinstance(r["coefficient"], str) else r["coefficient"],
                      float(r["scale"]) if not isinstance(r["scale"], str) else r["scale"], float(r["timestamp"]), norm_attrs(r["attrs"])))
            out.setdefault(k, []).append(n)
        return out
    a, b = recs(before), recs(after)
    for k, names in a.items():
        case.check(len(b.get(k, [])) >= len(names), f"merge lost or changed an interaction of the {who} model", names, k)
    for n, r in before.items():
        pass
    return a


def c07(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.25]))
    w = dict(EDIT, add_constraint=1)
    bare = rng.random() < 0.12  # nothing but variables in the receiving model
    if not bare:
        h.run_ops(n_ops(case, 2, 15), w)
    if rng.random() < 0.25:
        h.fix()
    if rng.random() < 0.15:
        h.delete()
    others = []
    for step in range(rng.randint(1, 4)):
        mode = rng.random()
        if mode < 0.15 and others:
            o = rng.choice(others)  # the same model again
        elif mode < 0.25 and not h.s.cons:
            o = h  # self merge
        else:
            o = other_model(case, h)
            if bare and step == 0 and rng.random() < 0.5:
                o.rand_attrs = lambda: None
                o.run_ops(rng.randint(1, 4), {"add": 1})
            others.append(o)
        if rng.random() < 0.25:
            reject_merge(case, h, o)
        rename_free(h, o) if o is not h else None
        if not compatible(h, o) or (o is h and (h.s.deleted or h.s.fixed or h.s.cons)):
            continue
        ph = h.feed()
        h.uses_ph = h.uses_ph or o.uses_ph
        o_snap = snapshot(o.m)
        h_tab, o_tab = table(h.m), table(o.m)
        mixed = o.s.mtype != h.s.mtype
        o_sh = o.s.copy()
        flags = {(r["name"], r["removed"]) for m in ({id(h.m): h.m, id(o.m): o.m}).values() for r in m.select_interaction(ALL, fmt="dict").values() if r["dirty"]}
        h.case.ev("merge", "self" if o is h else f"model of type {o.s.mtype} with {len(o_tab)} interactions")
        ret_labels = [l for _, a in sorted(h.m.get_variables().items()) for _, l in flat_labels(a)]
        h.m.merge(o.m)
        if o is not h:
            now = snapshot(o.m)
            case.check(now == o_snap, "merging changed the merged-in model", diff_snap(o_snap, now))
        h.s.merge(o_sh)
        case.count("merges")
        case.count("merges_mixed" if mixed else "merges_same_type")
        case.sign("merge", len(h_tab), len(o_tab), mixed)
        t = table(h.m, ALL, dirty=True)
        case.check(not any("DUPLICATE" in r for r in t.values()), "interaction names are not unique after merging", sorted(t))
        live = table(h.m)
        check_table_superset(case, h_tab, live, "receiving")
        if not mixed:
            check_table_superset(case, o_tab, live, "merged-in")
            case.check(len(live) == len(h_tab) + len(o_tab), "merge changed the number of interactions", len(live), len(h_tab), len(o_tab))
        else:
            have = [(r["body"], r["key"], norm_attrs(r["attrs"])) for r in live.values()]
            for r in o_tab.values():
                case.check((r["body"], r["key"], norm_attrs(r["attrs"])) in have, "merge lost an interaction of a model of the other type", r)
        for r in h.m.select_interaction(ALL, fmt="dict").values():
            if not mixed and o is not h and (r["name"], r["removed"]) in flags:
                case.check(r["dirty"], "an interaction that was not compiled yet no longer counts as modified after merging", r["name"])
                case.count("flags_kept")
        clash = set(h_tab) & set(o_tab)
        for n in list(h_tab) + ([] if mixed else list(o_tab)):
            if n not in clash and n in h.s.rows:
                case.check(n in live, "merge renamed an interaction whose name does not clash", n)
        check_constraints(case, h.m, h.s)
        shapes = {n: tuple(int(i) for i in a.shape) for n, a in h.m.get_variables().items()}
        case.check(shapes == h.s.arrays, "merged variable arrays have the wrong shapes", shapes, h.s.arrays)
        labels = [l for a in h.m.get_variables().values() for _, l in flat_labels(a)]
        case.check(sorted(labels) == sorted(h.s.labels()), "merged variable labels are wrong")
        vt = "Spin" if h.s.mtype == SPIN else "Binary"
        case.check(all(ty == vt for a in h.m.get_variables().values() for ty, _ in flat_labels(a)), "merged variables have the wrong type")
        case.check(sorted(h.m.get_deleted_array()) == sorted(h.s.deleted) and sorted(h.m.get_fixed_array()) == sorted(h.s.fixed), "deleted/fixed sets after merge")
        if rng.random() < 0.8:
            h.compile(ph)
        if o is not h:
            if rng.random() < 0.8:
                o.compile(ph)  # the merged-in model still has its own energy
            # later operations on either one leave the other one alone
            s_o = snapshot(o.m)
            h.run_ops(rng.randint(0, 4), {"add": 3, "update": 2, "remove": 1, "delete": 1, "edit_constraint": 2})
            case.check(snapshot(o.m) == s_o, "operations on the merged model affected the merged-in model", diff_snap(s_o, snapshot(o.m)))
            s_h = snapshot(h.m)
            o.run_ops(rng.randint(0, 4), {"add": 3, "update": 2, "remove": 1, "delete": 1, "edit_constraint": 2})
            case.check(snapshot(h.m) == s_h, "operations on the merged-in model affected the merged model", diff_snap(s_h, snapshot(h.m)))
        h.compile(ph)


def dress_bad(bad):
    """Whatever a model can carry besides interactions: nothing of it may leak when its merge is rejected."""
    rng = bad.rng
    for _ in range(rng.randint(0, 3)):
        k = rng.randint(0, 3)
        if k == 0:
            bad.delete("only_in_bad[1]")
        elif k == 1 and "only_in_bad[2]" in bad.alive():
            bad.fix("only_in_bad[2]")
        elif k == 2:
            bad.offset()
        elif len(bad.s.rows) > 1:
            bad.remove()


def reject_merge(case, h, o):
    rng = case.rng
    s_h, s_o = snapshot(h.m), snapshot(o.m)
    k = rng.randint(0, 2)
    if k == 0:
        bad = Hist(case, mtype=rng.choice([SPIN, BIT]))
        n = rng.choice(list(h.s.arrays))
        bad.declare(n, (2,) * (len(h.s.arrays[n]) % 3 + 1))
        bad.declare("only_in_bad", (3,))
        bad.add()
        dress_bad(bad)
        other = bad.m
    elif k == 1 and h.s.cons:
        bad = Hist(case, mtype=rng.choice([SPIN, BIT]))
        bad.declare("only_in_bad", (3,))
        bad.add()
        dress_bad(bad)
        clash = rng.choice(list(h.s.cons))
        if rng.random() < 0.5:
            bad.add_constraint(label="another constraint", labels=["only_in_bad[1]"])
        bad.add_constraint(label=clash, labels=["only_in_bad[0]"])
        if rng.random() < 0.5:
            bad.add_constraint(label="yet another constraint", labels=["only_in_bad[2]"])
        if not set(bad.s.cons) & set(h.s.cons):
            return
        other = bad.m
        if rng.random() < 0.3:
            other = copy.deepcopy(h.m)  # the very same constraints
    else:
        other = rng.choice([None, "model", 3, {}, "physical"])
        if other == "physical":
            other = LogicalModel(mtype=h.s.mtype).to_physical()
    s_b = snapshot(other) if isinstance(other, LogicalModel) else None
    case.ev("merge to be rejected", type(other).__name__)
    try:
        h.m.merge(other)
    except (ValueError, TypeError):
        now = snapshot(h.m)
        case.check(now == s_h, "a rejected merge changed the receiving model", diff_snap(s_h, now))
        if s_b is not None:
            now = snapshot(other)
            case.check(now == s_b, "a rejected merge changed the merged-in model", diff_snap(s_b, now))
        case.count("rejected_merges")
    else:
        case.check(False, "an impossible merge was accepted")


# ---------------------------------------------------------------- C19
def c19(case):
    rng = case.rng
    h = start(case)
    if rng.random() < 0.6:
        h.run_ops(rng.randint(0, 6), dict(EDIT, add_constraint=1))
    w = {"append": 8, "declare_more": 2, "delete": 2, "fix": 2, "add": 3, "convert_rare": 1, "append_new": 1, "merge_rare": 1, "compile": 1}

    def declare_more():
        if len(h.s.arrays) < 6:
            h.declare()

    def convert_rare():
        if rng.random() < 0.5:
            h.convert()

    def append_new():
        name = rng.choice(["fresh1", "fresh2", "fresh3"])
        if name in h.s.arrays:
            return
        sh = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
        case.ev("append-undefined", name, sh)
        h.m.append(name, shape=tuple(np.int64(i) for i in sh) if rng.random() < 0.3 else sh)
        h.s.arrays[name] = sh

    def merge_rare():
        o = Hist(case, mtype=None)
        for n, sh in h.s.arrays.items():
            if rng.random() < 0.6:
                o.declare(n, tuple(max(1, d + rng.randint(-2, 2)) for d in sh))
        if not o.s.arrays:
            o.declare("mm", (2,))
            if "mm" in h.s.arrays and len(h.s.arrays["mm"]) != 1:
                return
        if rng.random() < 0.5:
            cand = [l for l in o.s.labels() if l not in {x for k, _ in h.s.terms() for x in k} and l not in {v for c in h.s.cons.values() for v in c.v1 | c.v2}]
            if cand:
                o.delete(rng.choice(cand)) if rng.random() < 0.5 else o.fix(rng.choice(cand))
        case.ev("merge", o.s.arrays)
        h.m.merge(o.m)
        h.s.merge(o.s)

    h.declare_more, h.convert_rare, h.append_new, h.merge_rare = declare_more, convert_rare, append_new, merge_rare
    check_vars(case, h)
    for _ in range(rng.randint(3, 14)):
        op = rng.choices(list(w), list(w.values()))[0]
        pos_before = positions(h)
        e_before = None
        if op in ("append", "append_new", "declare_more"):
            e_before = physical_numbers(h.m.to_physical())
            h.s.compile()
        getattr(h, op)()
        case.sign(op, tuple(sorted(h.s.arrays.items())))
        pos_after = positions(h)
        for k, lab in pos_before.items():
            case.check(pos_after.get(k) == lab, "an existing variable moved or changed its label", k, lab, pos_after.get(k))
        if e_before is not None:
            e_after = physical_numbers(h.m.to_physical())
            case.check(e_before[1] == e_after[1], "growing a variable array changed the energy function")
            case.check(e_before[4] == e_after[4], "growing a variable array changed the offset")
        check_vars(case, h)
        if rng.random() < 0.25:
            # a different number of dimensions is rejected
            n = rng.choice(list(h.s.arrays))
            sh = h.s.arrays[n]
            s = snapshot(h.m)
            bad = tuple([1] * (len(sh) + rng.choice([1, -1] if len(sh) > 1 else [1])))
            try:
                h.m.append(n, shape=bad)
            except (ValueError, TypeError):
                case.check(snapshot(h.m) == s, "rejected append changed the model")
            else:
                case.check(False, "append with a different number of dimensions was accepted", n, sh, bad)
    h.compile()


def positions(h):
    res = {}
    for n, a in h.m.get_variables().items():
        sh = tuple(int(i) for i in a.shape)
        for idx in itertools.product(*[range(s) for s in sh]):
            res[(n, idx)] = (a[idx] if len(idx) > 1 else a[idx[0]]).label
    return res


def check_vars(case, h):
    vs = h.m.get_variables()
    case.check(list(vs) == list(h.s.arrays), "declared arrays differ", list(vs), list(h.s.arrays))
    vt = "Spin" if h.s.mtype == SPIN else "Binary"
    labels = []
    for n, a in vs.items():
        case.check(tuple(int(i) for i in a.shape) == h.s.arrays[n], "shape of an array", n, a.shape, h.s.arrays[n])
        case.check(h.m.get_variables_by_name(n) is a or flat_labels(h.m.get_variables_by_name(n)) == flat_labels(a), "array by name differs", n)
        labels += flat_labels(a)
    case.check([l for _, l in labels] == h.s.labels(), "labels", labels)
    case.check(len({l for _, l in labels}) == len(labels), "labels are not unique")
    case.check(all(t == vt for t, _ in labels), "element type", vt)
    for (n, idx), lab in positions(h).items():
        case.check(lab == n + "".join(f"[{i}]" for i in idx), "label does not name its position", n, idx, lab)
    case.check(set(h.m.get_deleted_array()) == h.s.deleted and len(h.m.get_deleted_array()) == len(h.s.deleted), "deleted list")
    case.check(set(h.m.get_fixed_array()) == set(h.s.fixed) and len(h.m.get_fixed_array()) == len(h.s.fixed), "fixed list")
    case.check(h.m.get_all_size() == len(labels), "total count", h.m.get_all_size(), len(labels))
    case.check(h.m.get_deleted_size() == len(h.s.deleted), "deleted count")
    case.check(h.m.get_fixed_size() == len(h.s.fixed), "fixed count")
    gone = h.s.deleted | set(h.s.fixed)
    case.check(h.m.get_size() == len(labels) - len(gone), "alive count", h.m.get_size(), len(labels) - len(gone))
    case.count("variable_tables_checked")


# ---------------------------------------------------------------- C20
def c20(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.1]))
    w = dict(EDIT, compile=1, append=1)
    for _ in range(n_ops(case, 5, 25)):
        h.run_ops(1, w)
        if rng.random() < 0.35:
            check_table(case, h)
        if rng.random() < 0.1:
            # names: duplicates are refused while live, and while removed but not compiled
            for pool in (list(h.s.rows), list(h.s.removed)):
                if pool and rng.random() < 0.7:
                    n = rng.choice(pool)
                    before = snapshot(h.m)
                    try:
                        h.m.add_interaction(h.target(h.pick_key()), name=n, coefficient=1.0)
                    except ValueError:
                        case.check(snapshot(h.m) == before, "a refused duplicate name changed the table")
                    else:
                        case.check(False, "a name in use was accepted again", n)
            if h.s.removed:
                n = rng.choice(list(h.s.removed))
                before = snapshot(h.m)
                try:
                    h.m.update_interaction(name=n, coefficient=2.0)
                except ValueError:
                    case.check(snapshot(h.m) == before, "a refused update changed the table")
                else:
                    case.check(False, "a removed interaction was updated", n)
        if rng.random() < 0.08:
            str(h.m), repr(h.m)
    check_table(case, h)
    h.compile()
    check_table(case, h)


def num_eq(a, b):
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return a == b or repr(a) == repr(b)


def check_table(case, h):
    rng = case.rng
    full = table(h.m, ALL, dirty=True)
    case.check(not any("DUPLICATE" in r for r in full.values()), "interaction names are not unique")
    live = {n: r for n, r in full.items() if not r["removed"]}
    case.check(set(live) == set(h.s.rows), "live interactions differ", sorted(set(live) ^ set(h.s.rows)))
    case.check({n for n, r in full.items() if r["removed"]} == set(h.s.removed), "removed-but-not-compiled interactions differ")
    for n, r in full.items():
        if r["removed"]:
            case.check(r["dirty"], "a removed interaction does not count as modified", n)
    raw = h.m.select_interaction(ALL, fmt="dict")
    raw = {rec["name"]: rec for rec in raw.values()}
    if raw and rng.random() < 0.3:
        q = rng.choice([ALL, "removed == False", "body == 1", "dirty == True"])
        d, f = h.m.select_interaction(q, fmt="dict"), h.m.select_interaction(q)
        case.check(list(d) == list(f.index) and all(set(r) == set(f.columns) for r in d.values()), "the two formats of a selection have different rows or columns", q)
        case.check(all(f"attributes.{k}" in f.columns for k in h.s.attr_keys), "a selection lacks attributes", q, list(f.columns))
        case.count("formats_compared")
    for n, exp in h.s.rows.items():
        r = live[n]
        case.check(r["key"] == exp.key and r["body"] == len(exp.key), "key of an interaction", n, r, exp.key)
        rec = raw[n]
        inter = rec["interacts"] if isinstance(rec["interacts"], tuple) else (rec["interacts"],)
        case.check(tuple(v.label for v in inter) == exp.key, "variables of an interaction", n)
        for f, v in (("coefficient", exp.coef), ("scale", exp.scale)):
            got = rec[f]
            ok = num_eq(got, v.real) if isinstance(v.real, (int, float, np.number)) else repr(got) == repr(v.real)
            case.check(ok, f"{f} of an interaction", n, got, v)
        ts = rec["timestamp"]
        if isinstance(exp.ts, tuple):
            case.check(exp.ts[0] - 1e-6 <= ts <= exp.ts[1] + 1e-6, "timestamp is not the time of the call", n, ts, exp.ts)
        else:
            case.check(float(ts) == float(exp.ts), "timestamp of an interaction", n, ts, exp.ts)
        case.check(r["dirty"] == exp.dirty, "modified flag", n, r["dirty"], exp.dirty)
        want = {f"attributes.{k}": v for k, v in exp.attrs.items()}
        case.check(set(r["attrs"]) == set(want) and all(num_eq(r["attrs"][k], want[k]) for k in want), "attributes of an interaction in a query", n, r["attrs"], want)
        case.count("rows_checked")
    # attribute access by name and by target
    for n in rng.sample(list(h.s.rows), min(3, len(h.s.rows))):
        exp = h.s.rows[n]
        if n == h.default_name(exp.key) and rng.random() < 0.5:
            got = h.m.get_attributes(target=h.target(exp.key))
        else:
            got = h.m.get_attributes(name=n)
        want = {f"attributes.{k}": v for k, v in exp.attrs.items()}
        case.check(set(got) == {f"attributes.{k}" for k in h.s.attr_keys}, "attribute keys", n, sorted(got), sorted(h.s.attr_keys))
        for k in got:
            if k in want:
                case.check(num_eq(got[k], want[k]), "attribute value", n, k, got[k], want[k])
                case.check(num_eq(h.m.get_attribute(name=n, key=k), want[k]), "single attribute value", n, k)
            else:
                case.check(isnan(got[k]), "an attribute that was never given has a value", n, k, got[k])
    # select by variable, by query, both formats
    labels = h.s.labels()
    for l in rng.sample(labels, min(3, len(labels))):
        got = list(h.m.select_interactions_by_variable(h.var(l)))
        got_live = sorted(n for n in got if n in h.s.rows)
        case.check(got_live == sorted(h.s.touching(l)), "selection by variable", l, got_live, sorted(h.s.touching(l)))
        case.check(all(n in h.s.rows or n in h.s.removed for n in got), "selection by variable returns unknown names", l)
    if h.s.rows:
        n = rng.choice(list(h.s.rows))
        if "'" not in n:
            for fmt in ("dict", "series"):
                got = h.m.select_interaction(f"name == '{n}'", fmt=fmt)
                names = [r["name"] for r in got.values()] if fmt == "dict" else list(got["name"].values)
                case.check(names == [n], "query by name", n, names)
        body = rng.choice([1, 2])
        got = h.m.select_interaction(f"body == {body} and removed == False")
        case.check(sorted(got["name"].values) == sorted(x for x, r in h.s.rows.items() if len(r.key) == body), "query by body")
        if h.s.attr_keys:
            k = rng.choice(sorted(h.s.attr_keys))
            nums = [r.attrs[k] for r in h.s.rows.values() if isinstance(r.attrs.get(k), str)]
            if nums:
                v = rng.choice(nums)
                got = h.m.select_interaction(f"`attributes.{k}` == '{v}' and removed == False")
                case.check(sorted(got["name"].values) == sorted(x for x, r in h.s.rows.items() if r.attrs.get(k) == v), "query by attribute", k, v)
                case.count("attribute_queries")


# ---------------------------------------------------------------- C21
def c21(case):
    rng = case.rng
    mtype = rng.choice([SPIN, BIT])
    h = Hist(case, mtype=mtype)
    for _ in range(rng.randint(1, 2)):
        h.declare(shape=rng.choice([(rng.randint(1, 6),), (rng.randint(1, 3), 2), (rng.randint(9, 12),), (2, rng.randint(1, 2), 2), (1, 2, 1, 2)]))
    full = rng.random() < 0.012  # a product of sums over many variables: hundreds of terms
    if full:
        h.declare(shape=(rng.randint(20, 26),))
    labels = h.s.labels()
    poly = Poly()

    unit = rng.choice([1.0] * 6 + [1e-6, 1e-8, 1e6])
    spread = rng.random() < 0.2

    def num():
        c = rng.choice([rng.randint(-9, 9), rng.randint(-40, 40) / 8.0, rng.uniform(-5, 5)])
        if spread and rng.random() < 0.4:
            c *= rng.choice([1e-7, 1e-5, 1e-3, 1e3])
        return c if unit == 1.0 else c * unit

    def lin():
        """random affine form: (expression, Poly)"""
        e, p = None, Poly()
        for l in rng.sample(labels, min(len(labels), rng.randint(1, 4) if not full else 40)):
            c = num()
            t = c * h.var(l)
            e = t if e is None else (e + t if rng.random() < 0.8 else e - (-1) * t)
            p.add([l], c)
        if rng.random() < 0.6:
            c = num()
            e = e + c
            p.add([], c)
        return e, p

    def mul(p, q):
        r = Poly()
        for k1, c1 in p.t.items():
            for k2, c2 in q.t.items():
                if mtype == BIT:
                    k = k1 | k2
                else:
                    k = k1 ^ k2
                r.add(k, c1 * c2, p.m[k1] * q.m[k2])
        return r

    expr, poly = lin()
    for _ in range(rng.randint(0, 5)):
        kind = rng.randint(0, 3)
        if kind == 0:
            e, p = lin()
        elif kind == 1:
            e, p = lin()
            e, p = e**2, mul(p, p)
        elif kind == 2:
            (e1, p1), (e2, p2) = lin(), lin()
            e, p = e1 * e2, mul(p1, p2)
        else:
            a = h.var(rng.choice(labels))
            b = h.var(rng.choice(labels))
            c = num()
            e = c * a * b
            p = mul(Poly({frozenset([a.label]): c}), Poly({frozenset([b.label]): 1.0}))
        expr = expr + e
        poly.add_poly(p)
    case.ev("expression", str(poly.t))
    case.sign(mtype, len(poly.t), len(labels))
    arg = expr
    if rng.random() < 0.5:
        arg = expr.compile()
        q0 = (dict(arg.to_qubo()[0]), arg.to_qubo()[1])
    if rng.random() < 0.1:
        h.m.offset(rng.choice([4.5, -3, 1e-3]))  # the offset of the model is replaced by the expression's
        case.ev("offset set before")
    h.m.from_pyqubo(arg)
    p1 = h.m.to_physical()
    check_poly(case, p1.to_bqm(), poly, None, mtype, "model loaded from an expression", slack=1e-12 * sum(poly.m.values()))
    if arg is not expr:
        q1 = (dict(arg.to_qubo()[0]), arg.to_qubo()[1])
        case.check(q0 == q1, "loading changed the compiled expression")
    # direct evaluation on assignments
    dom = (-1, 1) if mtype == SPIN else (0, 1)
    comp = expr.compile()
    bqm = p1.to_bqm()
    for _ in range(4):
        a = {l: rng.choice(dom) for l in labels}
        e = bqm.energy({l: a[l] for l in bqm.variables})
        used = {l: a[l] for l in comp.structure}
        want = comp.energy(used, vartype="SPIN" if mtype == SPIN else "BINARY")
        case.check(abs(e - want) <= poly.tol() * 10 + 1e-9 * sum(poly.m.values()), "energy against the symbolic library", a, e, want)
        case.count("energies_compared")
    # again into a fresh model
    m2 = LogicalModel(mtype=mtype)
    for n, sh in h.s.arrays.items():
        m2.variables(n, shape=sh)
    m2.from_pyqubo(arg)
    same_physical(case, p1, m2.to_physical(), "loading the same expression into another model")
    # the loaded model is an ordinary model
    for n, r in table(h.m).items():
        h.s.rest.append((frozenset(r["key"]), lambda ph, c=float(r["coefficient"]) * float(r["scale"]): -c))
        h.s.taken.add(n)
    off = h.m.get_offset()
    h.s.set_offset(Val(float(off)))
    h.run_ops(rng.randint(0, 4), {"add": 3, "delete": 1, "fix": 1, "compile": 1})
    h.compile()


# ---------------------------------------------------------------- C22
def solve_alike(case, p, p2):
    """A copied physical model is solved as the original, variable by variable."""
    from sawatabi.solver import SawatabiSolver

    if p.to_bqm().num_variables == 0 or p.to_bqm().num_variables > 60:
        return
    o = {"num_reads": 2, "num_sweeps": 4, "seed": case.rng.randint(0, 10**6), "pickup_mode": case.rng.choice(["sequential", "random"])}

    def go(m):
        ss, stats = SawatabiSolver().solve(m, need_stats=True, **o)
        rows = sorted((tuple(sorted((str(k), int(v)) for k, v in r.sample.items())), round(float(r.energy), 6), int(r.num_occurrences)) for r in ss.data(["sample", "energy", "num_occurrences"]))
        return rows, [[int(v) for v in st["acceptance_history"]] for st in stats]

    a, b = go(p), go(p2)
    case.check(a == b, "a copied physical model is solved differently by the seeded solver", a, b)
    case.count("solved_alike")


def c22(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.0, 0.2]))
    w = dict(EDIT, add_constraint=2, edit_constraint=1, delete=1, fix=1)
    h.run_ops(n_ops(case, 3, 20), w)
    if rng.random() < 0.15:
        h.convert()
    ph = h.feed()
    copies = []
    how = rng.choice(["deepcopy", "pickle", "pickle-twice"])
    case.ev("copy by", how)
    case.sign(how)
    orig = h.m

    def cp(x):
        if how == "deepcopy":
            return copy.deepcopy(x)
        x = pickle.loads(pickle.dumps(x))
        return pickle.loads(pickle.dumps(x)) if how == "pickle-twice" else x

    c = cp(orig)
    a, b = snapshot(orig), snapshot(c)
    case.check(a == b, "a copy differs from the original", diff_snap(a, b))
    sc = h.s.copy()
    if rng.random() < 0.4:
        # edits come before any compilation of either
        k = Hist.__new__(Hist)
        k.__dict__.update(h.__dict__)
        k.m, k.s = c, sc
        k.shared = h.shared = None
        first, second = (k, h) if rng.random() < 0.5 else (h, k)
        frozen = snapshot(second.m)
        first.run_ops(rng.randint(1, 8), dict(w, compile=0, delete=2, fix=2))
        case.check(snapshot(second.m) == frozen, "operations on one of original and copy affected the other", diff_snap(frozen, snapshot(second.m)))
        frozen = snapshot(first.m)
        second.run_ops(rng.randint(1, 8), dict(w, compile=0, delete=2, fix=2))
        case.check(snapshot(first.m) == frozen, "operations on one of original and copy affected the other", diff_snap(frozen, snapshot(first.m)))
        first.compile(ph)
        second.compile(ph)
        c = cp(orig)
        a, b = snapshot(orig), snapshot(c)
        case.check(a == b, "a copy differs from the original", diff_snap(a, b))
        sc = h.s.copy()
        case.count("edits_before_compilation")
    # independence: compile one, the other is untouched
    pc = c.to_physical(placeholder=ph)
    case.check(snapshot(orig) == a, "compiling a copy affected the original")
    check_physical(case, pc, h.s, ph, "compiled copy")
    po = h.compile(ph)
    same_physical(case, pc, po, "copy and original")
    case.check(snapshot(c) == snapshot(orig), "copy and original diverge after compiling both")
    # physical models as well
    p2 = cp(po)
    case.check(physical_numbers(p2) == physical_numbers(po), "a copied physical model differs")
    case.check(p2 == po, "a copied physical model is not equal to the original")
    if rng.random() < 0.1:
        solve_alike(case, po, p2)
    # further history applied to the copy behaves as on the original
    k = Hist.__new__(Hist)
    k.__dict__.update(h.__dict__)
    k.m, k.s = c, sc
    k.shared = h.shared = None
    k.s.compile()
    frozen = snapshot(orig)
    frozen_p = physical_numbers(po)
    k.run_ops(rng.randint(1, 8), w)
    k.compile(ph)
    case.check(snapshot(orig) == frozen, "operations on a copy affected the original", diff_snap(frozen, snapshot(orig)))
    case.check(physical_numbers(po) == frozen_p, "operations on a copy affected the original's physical model")
    frozen = snapshot(c)
    h.run_ops(rng.randint(1, 8), w)
    h.compile(ph)
    case.check(snapshot(c) == frozen, "operations on the original affected a copy", diff_snap(frozen, snapshot(c)))
    # an empty sibling
    e = orig.empty()
    blank = snapshot(LogicalModel(mtype=h.s.mtype))
    case.check(snapshot(e) == blank, "an empty sibling is not empty", diff_snap(blank, snapshot(e)))
    case.check(snapshot(c) == frozen, "empty() affected a model")
    x = e.variables("q", shape=(2,))
    e.add_interaction((x[0], x[1]), coefficient=1.5, attributes={"zz": 1})
    case.check("q" not in orig.get_variables() and "q" not in c.get_variables(), "models share variables")
    q = e.to_physical().to_bqm()
    got = {tuple(sorted(k)): float(v) for k, v in q.quadratic.items() if v}
    case.check(set(map(str, q.variables)) == {"q[0]", "q[1]"} and got == {("q[0]", "q[1]"): -1.5} and not any(q.linear.values()) and not q.offset, "an empty sibling does not compile what was added to it", str(q))
    case.check(LogicalModel(mtype=h.s.mtype).get_all_size() == 0, "a new model is not empty")
    case.count("copies_checked")


# ---------------------------------------------------------------- C23
def c23(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.2]), max_arrays=4)
    w = dict(EDIT, add_constraint=1, delete=1, fix=1)
    for _ in range(rng.randint(1, 3)):
        h.run_ops(n_ops(case, 2, 12), w)
        if rng.random() < 0.15:
            h.convert()
        if rng.random() < 0.15:
            o = other_model(case, h)
            rename_free(h, o)
            if compatible(h, o):
                h.uses_ph = h.uses_ph or o.uses_ph
                h.case.ev("merge")
                h.m.merge(o.m)
                h.s.merge(o.s)
        if rng.random() < 0.04:
            h.extreme()
        p = h.compile()
        check_exports(case, p, h)
    if rng.random() < 0.25:
        # merging a model that deleted a variable which this one still uses
        used = sorted({l for k, _ in h.s.terms() for l in k})
        if used:
            o = Hist(case, mtype=h.s.mtype)
            for n, sh in h.s.arrays.items():
                o.declare(n, sh)
            o.delete(rng.choice(used))
            h.case.ev("merge a model with a deleted variable")
            h.m.merge(o.m)
            h.s.merge(o.s)
            p = h.m.to_physical(placeholder=h.feed())
            numbering(case, p, h)


def numbering(case, p, h):
    bqm = p.to_bqm()
    l2i, i2l = dict(p._label_to_index), dict(p._index_to_label)
    case.check(set(l2i) == set(bqm.variables), "numbered variables differ from the model's variables", sorted(set(l2i) ^ set(bqm.variables)))
    n = len(l2i)
    case.check(list(i2l) == list(range(n)), "numbers are not consecutive from zero", i2l)
    case.check(all(l2i[i2l[i]] == i for i in range(n)) and all(i2l[l2i[l]] == l for l in l2i), "number and label do not translate back and forth")
    order = [l for l in h.s.labels() if l in l2i]
    case.check([i2l[i] for i in range(n)] == order, "numbering is not in declaration order", i2l, order)
    case.count("numberings_checked")


def check_exports(case, p, h):
    rng = case.rng
    numbering(case, p, h)
    frozen = physical_numbers(p)
    b1, b2 = p.to_bqm(), p.to_bqm(sign=1.0)
    t1, o1 = bqm_poly(b1)
    t2, o2 = bqm_poly(b2)
    case.check(o1 == o2, "offset depends on the sign convention")
    case.check({k: -v for k, v in t1.items()} == t2, "the sign conventions do not mirror each other")
    f = rng.choice([2.0, 0.5, -4.0, -0.25, 8, -2])
    t3, o3 = bqm_poly(p.to_bqm(sign=f))
    case.check(o1 == o3 and {k: -f * v for k, v in t1.items()} == t3, "a sign factor does not scale every coefficient alike", f)
    pol = p.to_polynomial()
    agg = {}
    for i, j, c in pol:
        case.check(isinstance(i, int) and isinstance(j, int), "polynomial indices are not integers", i, j)
        k = frozenset([p._index_to_label[i], p._index_to_label[j]])
        agg[k] = agg.get(k, 0.0) + c
    for k in set(agg) | set(t1):
        case.check(close(agg.get(k, 0.0), t1.get(k, 0.0), 1e-12 * abs(t1.get(k, 0.0))), "polynomial and binary quadratic model disagree", sorted(k), agg.get(k), t1.get(k))
    n = len(p._label_to_index)
    dom = (-1, 1) if h.s.mtype == SPIN else (0, 1)
    if h.s.mtype == BIT and n:
        for _ in range(3):
            x = [rng.choice(dom) for _ in range(n)]
            e = sum(c * x[i] * x[j] for i, j, c in pol)
            w = b1.energy({p._index_to_label[i]: x[i] for i in range(n)})
            case.check(close(e + o1, w, 1e-9 * (sum(abs(c) for _, _, c in pol) + abs(o1)) + 1e-300), "polynomial energy", e + o1, w)
    for b in (b1, b2):
        if rng.random() < 0.7:
            b.scale(3.0)
        if rng.random() < 0.5 and len(b.variables):
            b.add_linear(rng.choice(list(b.variables)), 5.0)
            b.offset += 1
    pol.clear()
    u1, u2 = bqm_poly(p.to_bqm()), bqm_poly(p.to_bqm(sign=1.0))
    case.check(u1 == (t1, o1) and u2 == (t2, o2), "editing an exported model changed the next export")
    str(p), repr(p)
    case.check(physical_numbers(p) == frozen, "exporting or editing an export changed the physical model")
    poly, _ = h.s.energy_poly(h.last[1])
    for k, c in poly.t.items():
        if k:
            case.check(close(t1.get(k, 0.0), c, poly.tol(k)), "exported coefficient", sorted(k), t1.get(k), c)
    case.count("exports_checked")
    case.sign(n, len(pol))


# ---------------------------------------------------------------- C25
def rejected_calls(case, h):
    """(description, call, allowed exceptions) which must all be rejected in h's state."""
    rng, m, s = case.rng, h.m, h.s
    labels = s.labels()
    v = h.var(rng.choice(labels))
    out = []
    T, V, K = TypeError, ValueError, KeyError

    def a(desc, fn, exc):
        out.append((desc, fn, exc))

    bad_targets = [None, 0, 3, "x[0]", (v,), (v, v), (v, 3), (v, v, v), [v], 1.5, ("x[0]", "x[1]")]
    for t in rng.sample(bad_targets, 4):
        a(f"add target {t!r}", lambda t=t: m.add_interaction(t, name="rej", coefficient=1.0), (T, V))
    a("add coefficient type", lambda: m.add_interaction(v, name="rej", coefficient=rng.choice(["1.0", None, [1], (1,), {}])), (T,))
    a("add scale type", lambda: m.add_interaction(v, name="rej", coefficient=1.0, scale=rng.choice(["1.0", None, [1]])), (T,))
    a("add attributes type", lambda: m.add_interaction(v, name="rej", coefficient=1.0, attributes=rng.choice(["a", [1], 3])), (T,))
    a("add timestamp type", lambda: m.add_interaction(v, name="rej", coefficient=1.0, timestamp=rng.choice(["now", [1], {}]), attributes={"newattr": 1}), (T,))
    a("add name type", lambda: m.add_interaction(v, name=rng.choice([3, ("a", "b"), 1.5]), coefficient=1.0, attributes={"newattr": 1}), (T,))
    for pool in (list(s.rows), list(s.removed)):
        if pool:
            n = rng.choice(pool)
            a(f"add duplicate {n!r}", lambda n=n: m.add_interaction(v, name=n, coefficient=1.0, attributes={"newattr": 1}), (V,))
    dn = [r for r in s.rows.values() if r.name == h.default_name(r.key)]
    if dn:
        r = rng.choice(dn)
        a("add duplicate default name", lambda r=r: m.add_interaction(h.target(r.key), coefficient=5.0), (V,))
        a("update target and name", lambda r=r: m.update_interaction(target=h.target(r.key), name=r.name, coefficient=5.0), (V,))
        a("remove target and name", lambda r=r: m.remove_interaction(target=h.target(r.key), name=r.name), (V,))
    if s.rows:
        n = rng.choice(list(s.rows))
        a("update coefficient type", lambda: m.update_interaction(name=n, coefficient="5", scale=2.0, attributes={"newattr": 1}), (T,))
        a("update scale type", lambda: m.update_interaction(name=n, coefficient=5.0, scale="2", attributes={"newattr": 1}), (T,))
        a("update attributes type", lambda: m.update_interaction(name=n, coefficient=5.0, scale=2.0, attributes="foo"), (T,))
        a("update timestamp type", lambda: m.update_interaction(name=n, coefficient=5.0, scale=2.0, timestamp="now"), (T,))
        a("unknown attribute", lambda: m.get_attribute(name=n, key="attributes.never given"), (K,))
        a("attribute key type", lambda: m.get_attribute(name=n, key=3), (T,))
    a("update nothing", lambda: m.update_interaction(coefficient=1.0), (V,))
    a("update unknown name", lambda: m.update_interaction(name="never added", coefficient=1.0), (K,))
    a("update bad target", lambda: m.update_interaction(target=rng.choice([(v, v), (v,), "x", 3]), coefficient=1.0), (T, V))
    if s.removed:
        n = rng.choice(list(s.removed))
        a("update removed", lambda n=n: m.update_interaction(name=n, coefficient=1.0, attributes={"newattr": 2}), (V,))
    a("remove nothing", lambda: m.remove_interaction(), (V,))
    a("remove unknown", lambda: m.remove_interaction(name="never added"), (K, V))
    a("remove bad target", lambda: m.remove_interaction(target=rng.choice([(v, v), "x", 3])), (T, V))
    a("attributes of unknown", lambda: m.get_attributes(name="never added"), (K, V))
    a("delete nothing", lambda: m.delete_variable(None), (V,))
    a("delete type", lambda: m.delete_variable(rng.choice(["x[0]", (v, v), 3])), (T,))
    a("fix nothing", lambda: m.fix_variable(None, 1), (V,))
    a("fix type", lambda: m.fix_variable(rng.choice(["x[0]", (v, v), 3]), 1), (T,))
    a("fix value", lambda: m.fix_variable(v, rng.choice([0, 2, -2, 0.5, "1", None] if s.mtype == SPIN else [-1, 2, 0.5, "1", None])), (V,))
    a("constraint type", lambda: m.add_constraint(rng.choice(["c", None, {}, v])), (T,))
    a("unknown constraint", lambda: m.remove_constraint("never added"), (K,))
    a("constraint label type", lambda: m.remove_constraint(3), (T,))
    a("get unknown constraint", lambda: m.get_constraints_by_label("never added"), (K,))
    a("variables name type", lambda: m.variables(rng.choice([3, None, 1.5, ["x"]]), shape=(2,)), (T,))
    a("variables shape", lambda: m.variables("rej", shape=rng.choice([(), 3, [2], ("2",), (2.0,), (2, "3")])), (T,))
    a("redeclare with a bad shape", lambda: m.variables(rng.choice(list(s.arrays)), shape=rng.choice([(), 3, ("2",), (1.5,)])), (T,))
    n0 = rng.choice(list(s.arrays))
    a("append shape", lambda: m.append(n0, shape=rng.choice([(), 3, ("2",), (1.5,)])), (T,))
    a("append dims", lambda: m.append(n0, shape=(1,) * (len(s.arrays[n0]) + 1)), (V, T))
    if len(s.arrays[n0]) > 1:
        a("append fewer dims", lambda: m.append(n0, shape=(1,) * (len(s.arrays[n0]) - rng.randint(1, len(s.arrays[n0]) - 1))), (V, T))
    a("append name type", lambda: m.append(3, shape=(1,)), (T,))
    a("array of the wrong type", lambda: m.variables(pyqubo.Array.create("rej", shape=(2,), vartype="BINARY" if s.mtype == SPIN else "SPIN")), (T,))
    a("unknown array", lambda: m.get_variables_by_name("never declared"), (K,))
    a("select format", lambda: m.select_interaction("body == 1", fmt="invalid"), (V,))
    a("select variable type", lambda: m.select_interactions_by_variable("x[0]"), (T,))
    a("from_pyqubo type", lambda: m.from_pyqubo(rng.choice(["expr", 3, None])), (T,))
    # expressions of which only a part could be loaded
    vt = pyqubo.Spin if s.mtype == SPIN else pyqubo.Binary
    free = [x for x in labels if h.is_free(x)]
    known = sum(((i + 1.5) * h.var(x) for i, x in enumerate(rng.sample(free, min(3, len(free))))), 0.25)
    foreign = pyqubo.Array.create("undeclared", shape=(2,), vartype="SPIN" if s.mtype == SPIN else "BINARY")
    beyond = pyqubo.Array.create(n0, shape=tuple(d + 1 for d in s.arrays[n0]), vartype="SPIN" if s.mtype == SPIN else "BINARY")
    last = beyond[tuple(s.arrays[n0])] if len(s.arrays[n0]) > 1 else beyond[s.arrays[n0][0]]
    if not isinstance(known, float):
        a("from_pyqubo with an undeclared array", lambda: m.from_pyqubo(known + 2.0 * foreign[1]), (K,))
        a("from_pyqubo with an undeclared element", lambda: m.from_pyqubo(known + 2.0 * last), (IndexError, K, V))
        clash = [r for r in s.rows.values() if r.name == h.default_name(r.key) and len(r.key) == 1]
        if clash:
            l1 = rng.choice(clash).key[0]
            a("from_pyqubo with a clashing name", lambda: m.from_pyqubo(known + 2.0 * vt(l1) if rng.random() < 0.5 else (known + h.var(l1)) if s.mtype == SPIN else known + 3.0 * h.var(l1)), (V, K))
    a("merge type", lambda: m.merge(rng.choice([None, "m", 3])), (T,))
    if s.cons:
        l = rng.choice(list(s.cons))
        c = m.get_constraints_by_label(l)
        sc = s.cons[l]
        outside = [x for x in labels if x not in sc.v1 and x not in sc.v2]
        rm = [c.remove_variable_from_1, c.remove_variable_from_2] if sc.kind == "eq" else [c.remove_variable]
        ad = [c.add_variable_to_1, c.add_variable_to_2] if sc.kind == "eq" else [c.add_variable]
        if outside:
            inside = sorted(sc.v1)[:1] if sc.kind != "eq" else []
            vs = [h.var(x) for x in inside + [rng.choice(outside)]]
            a("remove a variable a constraint does not have", lambda: rng.choice(rm)(vs), (V,))
        if sc.kind == "eq":
            for side, own, other in ((c.remove_variable_from_1, sc.v1, sc.v2), (c.remove_variable_from_2, sc.v2, sc.v1)):
                cand = sorted((set(labels) | other) - own)
                if cand:
                    l2 = rng.choice(sorted(other - own) or cand)
                    vs2 = [h.var(x) for x in sorted(own)[:1] + [l2]] if l2 in labels else None
                    if vs2:
                        a("remove from one side a variable it does not have", lambda side=side, vs2=vs2: side(vs2), (V,))
        a("constraint variables type", lambda: rng.choice(rm + ad)(rng.choice(["x[0]", 3, (v,), [v, "x"], [v, 3]])), (T,))
    a("n-hot n", lambda: NHotConstraint(variables=v, n=rng.choice([0, -1])), (V,))
    a("n-hot n type", lambda: NHotConstraint(variables=v, n=rng.choice(["1", 1.5, None])), (T,))
    cls = rng.choice([NHotConstraint, ZeroOrOneHotConstraint, EqualityConstraint])
    a("constraint label", lambda: cls(label=""), (V,))
    a("constraint label type", lambda: cls(label=rng.choice([3, None, ["c"]])), (T,))
    a("constraint strength", lambda: cls(strength=rng.choice(["1", None, [1.0]])), (T,))
    a("model type", lambda: LogicalModel(mtype=rng.choice(["", "Ising", "foo", None, 3])), (V,))
    a("physical model type", lambda: PhysicalModel(mtype=rng.choice(["", "Ising", "foo", None, 3])), (V,))
    return out


def c25(case):
    rng = case.rng
    h = start(case, placeholders=rng.choice([0.0, 0.15]))
    w = dict(EDIT, add_constraint=2, edit_constraint=1, delete=1, fix=1)
    for _ in range(rng.randint(1, 3)):
        h.run_ops(n_ops(case, 1, 10), w)
        if rng.random() < 0.15:
            h.convert()
        ph = h.feed()
        calls = rejected_calls(case, h)
        rng.shuffle(calls)
        before = snapshot(h.m)
        for desc, fn, exc in calls[: rng.randint(8, 25)]:
            case.ev("rejected:", desc)
            try:
                fn()
            except exc:
                pass
            else:
                case.check(False, "a call that must be rejected was accepted", desc)
            after = snapshot(h.m)
            case.check(before == after, f"a rejected call ({desc}) changed the model", diff_snap(before, after))
            case.count("rejected_calls")
            case.sign(desc)
        if rng.random() < 0.5:
            reject_merge(case, h, h)
        # the model still reacts as the reference, which never saw the rejected calls
        h.run_ops(rng.randint(0, 4), w)
        h.compile(ph)
        check_constraints(case, h.m, h.s)
        for n, r in h.s.rows.items():
            got = h.m.get_attributes(name=n)
            case.check(set(got) == {f"attributes.{k}" for k in h.s.attr_keys}, "a rejected call left attribute columns behind", n, sorted(got))
            break
