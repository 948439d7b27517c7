"""Drives a real LogicalModel and its shadow through random edit histories."""
import re
import time

import dimod
import numpy as np
import pyqubo

from common import HarnessError
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint
from shadow import BIT, SPIN, Con, Row, Shadow, Val, close

# properties whose statement includes the constant that the known finding gets wrong
FINDING_PROPS = ("C04", "C06", "C07")

PH_NAMES = ("a", "b", "c")
ARRAY_NAMES = ["x", "y", "z", "aa", "X", "foo_bar", "v1", "xx", "ax", "x1", "a"]


def rand_number(rng, wide=True):
    k = rng.random()
    if k < 0.45:
        return rng.choice([-1, 1]) * rng.randint(1, 40) / 8.0
    if k < 0.60:
        return rng.randint(-9, 9)
    if k < 0.78:
        return rng.uniform(-10, 10)
    if k < 0.83:
        return 0.0
    if not wide:
        return rng.uniform(-3, 3)
    if k < 0.88:
        return rng.choice([-1, 1]) * rng.uniform(1, 9) * 10.0 ** -rng.randint(6, 14)
    if k < 0.93:
        return rng.choice([-1, 1]) * rng.uniform(1, 9) * 10.0 ** rng.randint(4, 12)
    if k < 0.97:
        return np.float64(rng.randint(-30, 30) / 4.0)
    return np.int64(rng.randint(-5, 5))


def rand_ph(rng):
    """A random placeholder expression with its evaluator."""
    k = rng.randint(0, 3)
    n1, n2 = rng.choice(PH_NAMES), rng.choice(PH_NAMES)
    u, v = rng.randint(-8, 8) / 4.0, rng.randint(-8, 8) / 2.0
    p1, p2 = pyqubo.Placeholder(n1), pyqubo.Placeholder(n2)
    if k == 0:
        return Val(p1, lambda ph: ph[n1], f"P({n1})")
    if k == 1:
        return Val(u * p1 + v, lambda ph: u * ph[n1] + v, f"{u}*P({n1})+{v}")
    if k == 2:
        return Val(p1 * p2, lambda ph: ph[n1] * ph[n2], f"P({n1})*P({n2})")
    return Val(u * p1 + v * p2, lambda ph: u * ph[n1] + v * ph[n2], f"{u}*P({n1})+{v}*P({n2})")


def rand_ts(rng):
    return rng.choice([None, None, None, rng.randint(0, 10**6), rng.uniform(0, 2e9), 0, 0.0, -rng.uniform(0, 1e6)])


DEFAULT_NAME = re.compile(r"\w+(\[\d+\])+(\*\w+(\[\d+\])+)?")


def rand_feed(rng):
    f = {n: rng.choice([rng.randint(-12, 12) / 4.0, rng.uniform(-5, 5), 0.0, 1.0]) for n in PH_NAMES}
    return f


def plain(v):
    """Is v a plain python number (safe to combine with placeholder expressions)?"""
    return type(v.real) in (int, float)


class Hist:
    def __init__(self, case, mtype=None, placeholders=0.0, wide=True, max_arrays=3):
        self.case, self.rng = case, case.rng
        mtype = mtype or self.rng.choice([SPIN, BIT])
        self.m = LogicalModel(mtype=mtype)
        self.s = Shadow(mtype)
        self.ph_rate, self.wide = placeholders, wide
        self.uses_ph = False
        self.max_arrays = max_arrays
        self.nname = 0
        self.shared = None
        self.held = {}  # the caller's own constraint objects
        self.last = None
        case.ev("new", mtype)

    # -------------------------------------------------------------- helpers
    def var(self, label):
        name, idx = label.split("[", 1)
        idx = tuple(int(i) for i in idx[:-1].split("]["))
        a = self.m.get_variables_by_name(name)
        v = a[idx] if len(idx) > 1 else a[idx[0]]
        self.case.check(v.label == label, "variable at a position has the wrong label", label, v.label)
        return v

    def alive(self):
        bad = self.s.deleted | set(self.s.fixed)
        return [l for l in self.s.labels() if l not in bad]

    def value(self, allow_ph=True):
        if allow_ph and self.rng.random() < self.ph_rate:
            self.uses_ph = True
            return rand_ph(self.rng)
        return Val(rand_number(self.rng, self.wide))

    # -------------------------------------------------------------- operations
    def declare(self, name=None, shape=None):
        rng = self.rng
        name = name or rng.choice([n for n in ARRAY_NAMES if n not in self.s.arrays] or ["w%d" % len(self.s.arrays)])
        if shape is None and rng.random() < 0.02:
            shape = rng.choice([(rng.randint(90, 130),), (11, 12)])
        if shape is None:
            shape = rng.choice([(rng.randint(1, 12),), (rng.randint(1, 4),), (rng.randint(1, 3), rng.randint(1, 4)), (2, rng.randint(1, 2), 2)])
            if rng.random() < 0.04:
                shape = rng.choice([(2, 1, 2, 2), (1, 2, 2, 1), (1, 2, 1, 2, 2)])
        self.case.ev("variables", name, shape)
        if rng.random() < 0.15:
            arr = pyqubo.Array.create(name, shape=shape, vartype="SPIN" if self.s.mtype == SPIN else "BINARY")
            self.m.variables(arr)
        else:
            self.m.variables(name, shape=shape)
        self.s.arrays[name] = tuple(shape)
        return name

    def append(self, name=None, delta=None):
        rng = self.rng
        name = name or rng.choice(list(self.s.arrays))
        sh = self.s.arrays[name]
        delta = delta or tuple(rng.randint(0, 2) for _ in sh)
        if len(self.s.labels()) > 40:
            delta = tuple(0 for _ in sh)
        d = delta
        if rng.random() < 0.2:
            d = tuple(np.int64(i) for i in delta)
        self.case.ev("append", name, delta)
        self.m.append(name, shape=d)
        self.s.arrays[name] = tuple(a + b for a, b in zip(sh, delta))

    def extreme(self):
        """A term of extreme magnitude."""
        key = self.pick_key()
        if key:
            e = self.rng.choice([-200, -120, -60, -30, 30, 60, 105, 150])
            self.add(key=key, name=f"extreme {len(self.case.log)}", coef=Val(self.rng.choice([-1, 1]) * self.rng.uniform(1, 9) * 10.0**e), scale=Val(1.0))
            self.case.count("extreme_terms")

    def pick_key(self, existing=0.4):
        rng, labels = self.rng, self.alive()
        if not labels:
            return None
        if self.s.rows and rng.random() < existing:
            r = rng.choice(list(self.s.rows.values()))
            if all(l in labels for l in r.key):
                return r.key
        if len(labels) == 1 or rng.random() < 0.4:
            return (rng.choice(labels),)
        a, b = rng.sample(labels, 2)
        return (a, b) if a < b else (b, a)

    @staticmethod
    def default_name(key):
        return key[0] if len(key) == 1 else f"{key[0]}*{key[1]}"

    def target(self, key):
        if len(key) == 1:
            return self.var(key[0])
        a, b = self.var(key[0]), self.var(key[1])
        return (a, b) if self.rng.random() < 0.5 else (b, a)

    def rand_attrs(self):
        rng = self.rng
        if rng.random() < 0.55:
            return None
        keys = rng.sample(["foo", "ts", "n", "weight", "tag", "k%d" % rng.randint(0, 5)], rng.randint(1, 2))
        if rng.random() < 0.05:
            return {}
        return {k: rng.choice([rng.randint(0, 99), rng.uniform(0, 9), "s%d" % rng.randint(0, 9), 0, "", False, -1.5, None]) for k in keys}

    def is_free(self, name):
        return name not in self.s.rows and name not in self.s.taken and name not in self.s.removed

    def add(self, key=None, **kw):
        rng = self.rng
        key = key or self.pick_key()
        if key is None:
            return
        use_default = rng.random() < 0.6 and self.is_free(self.default_name(key))
        if "name" in kw:
            name = kw["name"]
            use_default = False
        elif use_default:
            name = self.default_name(key)
        else:
            form = rng.choice(["my name {}", "n{}", "{} (x)", "é{}", "x[{}]?", "a'b{}"])
            while True:
                self.nname += 1
                name = form.format(self.nname)
                if self.s.rows and rng.random() < 0.2:
                    # a name that resembles another one
                    o = rng.choice(list(self.s.rows))
                    name = rng.choice([o + " 2", o + " ", o + ")", "(" + o, o[:-1], o[1:], o.upper(), o + " (before fixed)", "%d" % self.nname])
                    if not name or DEFAULT_NAME.fullmatch(name):
                        continue
                if self.is_free(name):
                    break
        coef = kw.get("coef") or self.value()
        scale = kw.get("scale") or (Val(1.0) if rng.random() < 0.5 else self.value())
        if not (plain(coef) and plain(scale)) and (type(coef.real).__module__ == "numpy" or type(scale.real).__module__ == "numpy"):
            coef, scale = Val(2.5), Val(1.5)
        attrs = self.rand_attrs() if "attrs" not in kw else kw["attrs"]
        ts = kw.get("ts", rand_ts(rng))
        args = {"coefficient": coef.real}
        if not (scale.real == 1.0 and plain(scale) and rng.random() < 0.7) if plain(scale) else True:
            args["scale"] = scale.real
        if not use_default:
            args["name"] = name
        if attrs is not None:
            args["attributes"] = dict(attrs)
        if ts is not None:
            args["timestamp"] = ts
        self.case.ev("add", key, name, coef, scale, attrs, ts)
        t0 = time.time()
        self.m.add_interaction(self.target(key), **args)
        t1 = time.time()
        self.s.rows[name] = Row(name, key, coef, scale, attrs or {}, (t0, t1) if ts is None else ts, use_default)
        self.s.attr_keys |= set(attrs or {})
        self.case.count("op_add")
        return name

    def update(self, name=None, **kw):
        rng = self.rng
        if name is None:
            if not self.s.rows:
                return
            name = rng.choice(list(self.s.rows))
        r = self.s.rows[name]
        args = {}
        coef = kw.get("coef", self.value() if rng.random() < 0.7 else None)
        scale = kw.get("scale", self.value() if rng.random() < 0.4 else None)
        attrs = kw.get("attrs", self.rand_attrs())
        ts = kw.get("ts", rand_ts(rng))
        c2, s2 = coef or r.coef, scale or r.scale
        if not (plain(c2) and plain(s2)) and (type(c2.real).__module__ == "numpy" or type(s2.real).__module__ == "numpy"):
            coef, scale = Val(0.75), Val(2.0)
        if coef is not None:
            args["coefficient"] = coef.real
        if scale is not None:
            args["scale"] = scale.real
        if attrs is not None:
            args["attributes"] = dict(attrs)
        if ts is not None:
            args["timestamp"] = ts
        # a row is addressable by its target only when it carries the default name
        by_target = r.name == self.default_name(r.key) and rng.random() < 0.5
        self.case.ev("update", "target" if by_target else "name", name, coef, scale, attrs, ts)
        t0 = time.time()
        if by_target:
            self.m.update_interaction(target=self.target(r.key), **args)
        else:
            self.m.update_interaction(name=name, **args)
        t1 = time.time()
        if coef is not None:
            r.coef = coef
        if scale is not None:
            r.scale = scale
        if attrs is not None:
            r.attrs.update(attrs)
            r.attrs = {k: v for k, v in r.attrs.items() if v is not None}
            self.s.attr_keys |= set(attrs)
        r.ts = (t0, t1) if ts is None else ts
        r.dirty = True
        self.case.count("op_update")

    def upsert(self):
        """update_interaction on a target that has no interaction yet adds it."""
        key = self.pick_key(existing=0.0)
        if key is None or not self.is_free(self.default_name(key)):
            return
        coef = self.value() if self.rng.random() < 0.8 else None
        scale = self.value() if self.rng.random() < 0.3 else None
        if self.rng.random() < 0.1:
            scale = Val(self.rng.choice([0, 0.0]))
        if scale is not None and coef is not None and not (plain(coef) and plain(scale)):
            scale = None
        attrs = self.rand_attrs()
        ts = rand_ts(self.rng)
        args = {}
        if coef is not None:
            args["coefficient"] = coef.real
        if scale is not None:
            args["scale"] = scale.real
        if attrs is not None:
            args["attributes"] = dict(attrs)
        if ts is not None:
            args["timestamp"] = ts
        self.case.ev("upsert", key, coef, attrs, ts)
        t0 = time.time()
        self.m.update_interaction(target=self.target(key), **args)
        t1 = time.time()
        n = self.default_name(key)
        self.s.rows[n] = Row(n, key, coef or Val(0.0), scale or Val(1.0), attrs or {}, (t0, t1) if ts is None else ts, True)
        self.s.attr_keys |= set(attrs or {})
        self.case.count("op_upsert")

    def remove(self, name=None):
        rng = self.rng
        if name is None:
            if not self.s.rows:
                return
            name = rng.choice(list(self.s.rows))
        r = self.s.rows[name]
        by_target = name == self.default_name(r.key) and rng.random() < 0.5
        self.case.ev("remove", "target" if by_target else "name", name)
        if by_target:
            self.m.remove_interaction(target=self.target(r.key))
        else:
            self.m.remove_interaction(name=name)
        del self.s.rows[name]
        self.s.removed[name] = True
        self.case.count("op_remove")

    def remove_again(self):
        if not self.s.removed:
            return
        name = self.rng.choice(list(self.s.removed))
        self.case.ev("remove-again", name)
        self.m.remove_interaction(name=name)

    def offset(self):
        v = self.value()
        if type(v.real).__module__ == "numpy":
            v = Val(float(v.real))
        self.case.ev("offset", v)
        self.m.offset(v.real)
        self.s.set_offset(v)

    def delete(self, label=None):
        labels = self.s.labels()
        alive = self.alive()
        if label is None:
            if not labels:
                return
            label = self.rng.choice(alive if alive and self.rng.random() < 0.9 else labels)
        self.case.ev("delete", label)
        self.m.delete_variable(self.var(label))
        self.s.delete(label)
        self.case.count("op_delete")

    def fix(self, label=None, value=None):
        if label is None:
            alive = self.alive()
            if not alive:
                return
            label = self.rng.choice(alive)
            if self.s.rows and self.rng.random() < 0.6:
                r = self.rng.choice(list(self.s.rows.values()))
                cand = [l for l in r.key if l in alive]
                if cand:
                    label = self.rng.choice(cand)
        if value is None:
            value = self.rng.choice([1, -1] if self.s.mtype == SPIN else [1, 0])
        given = value
        if self.rng.random() < 0.1:  # the same number in another type
            given = self.rng.choice([float, np.int64, np.int8, np.float64] + ([bool, np.bool_] if value in (0, 1) else []))(value)
            self.case.count("op_fix_other_type")
        self.case.ev("fix", label, repr(given))
        self.m.fix_variable(self.var(label), given)
        self.s.fix(label, value)
        self.case.count("op_fix")

    def convert(self):
        self.case.ev("convert from", self.s.mtype)
        if self.s.mtype == SPIN:
            self.m.to_qubo()
        else:
            self.m.to_ising()
        self.s.convert()
        self.case.count("op_convert")

    # ---- constraints
    def rand_vars(self, labels, k):
        """The given labels in one of the accepted container forms."""
        vs = [self.var(l) for l in labels]
        f = self.rng.randint(0, 2)
        if len(vs) == 1 and f == 0:
            return vs[0]
        if f == 1:
            vs = set(vs)
            self.shared = (list(labels), vs, self.s.mtype)
        return vs

    def add_constraint(self, labels=None, kind=None, label=None, strength=None):
        rng = self.rng
        alive = self.alive()
        if not alive:
            return
        kind = kind or rng.choice(["nhot", "nhot", "eq", "zoh"])
        k = rng.randint(1, min(len(alive), 6 if rng.random() < 0.9 else 14))
        labels_free = labels is None
        labels = labels or rng.sample(alive, k)
        form = None
        if self.shared and kind != "eq" and labels_free and rng.random() < 0.3 and self.shared[2] == self.s.mtype and set(self.shared[0]) <= set(alive):
            labels, form = self.shared[0], self.shared[1]  # several constraints made from one set object
        label = label or rng.choice(["c1", "c2", "c3", "constraint %d" % rng.randint(0, 3)])
        if rng.random() < 0.1:
            label = {"nhot": "Default N-hot Constraint", "eq": "Default Equality Constraint", "zoh": "Default Zero-or-One-hot Constraint"}[kind]
        strength = strength if strength is not None else rng.choice([1.0, 1, 2.5, 0.5, 10, rng.uniform(0.1, 20), 0.001, -2.0, rng.choice([0, 0.0])])
        n = rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(5, 20)
        kw = {"strength": strength, "label": label}
        if strength == 1.0 and rng.random() < 0.5:
            kw.pop("strength")
        if kind == "nhot":
            if n == 1 and rng.random() < 0.5:
                c = NHotConstraint(variables=form if form is not None else self.rand_vars(labels, k), **kw)
            else:
                c = NHotConstraint(variables=form if form is not None else self.rand_vars(labels, k), n=n, **kw)
            sc = Con("nhot", label, strength, labels, n=n)
        elif kind == "zoh":
            c = ZeroOrOneHotConstraint(variables=form if form is not None else self.rand_vars(labels, k), **kw)
            sc = Con("zoh", label, strength, labels)
        else:
            cut = rng.randint(0, len(labels))
            v1, v2 = labels[:cut], labels[cut:]
            if rng.random() < 0.2:
                v2 = v2 + rng.sample(v1, rng.randint(0, len(v1)))
            c = EqualityConstraint(
                variables_1=self.rand_vars(v1, k) if v1 else None, variables_2=self.rand_vars(v2, k) if v2 else None, **kw
            )
            sc = Con("eq", label, strength, v1, v2)
        self.case.ev("constraint", sc.describe())
        if self.shared and rng.random() < 0.15:
            # the caller goes on using its own set
            self.case.ev("the caller's set changes")
            if rng.random() < 0.5:
                self.shared[1].clear()
            else:
                self.shared[1].add(self.var(rng.choice(alive)))
            self.shared = None
        self.m.add_constraint(c)
        self.s.cons[label] = sc
        self.held[label] = (c, self.m)
        self.case.count("op_constraint")

    def edit_constraint(self):
        rng = self.rng
        if not self.s.cons:
            return
        label = rng.choice(list(self.s.cons))
        sc = self.s.cons[label]
        c = self.m.get_constraints_by_label(label)
        if label in self.held and self.held[label][1] is self.m and rng.random() < 0.4:
            c = self.held[label][0]
        alive = self.alive()
        if not alive:
            return
        if rng.random() < 0.65:
            add = rng.sample(alive, rng.randint(1, min(3, len(alive))))
            if sc.kind == "eq":
                side = rng.randint(1, 2)
                other = sc.v2 if side == 1 else sc.v1
                if rng.random() < 0.8:
                    add = [a for a in add if a not in other]
                if not add:
                    return
                (c.add_variable_to_1 if side == 1 else c.add_variable_to_2)(self.rand_vars(add, 0))
                (sc.v1 if side == 1 else sc.v2).update(add)
            else:
                c.add_variable(self.rand_vars(add, 0))
                sc.v1.update(add)
            self.case.ev("constraint-add", label, add)
        else:
            side = 1 if sc.kind != "eq" else rng.randint(1, 2)
            cur = sorted((sc.v1 if side == 1 else sc.v2) & set(alive))
            if not cur:
                return
            rem = rng.sample(cur, rng.randint(1, min(2, len(cur))))
            if sc.kind == "eq":
                (c.remove_variable_from_1 if side == 1 else c.remove_variable_from_2)(self.rand_vars(rem, 0))
            else:
                c.remove_variable(self.rand_vars(rem, 0))
            (sc.v1 if side == 1 else sc.v2).difference_update(rem)
            self.case.ev("constraint-remove-vars", label, rem)
        self.case.count("op_constraint_edit")

    def readd_constraint(self):
        """Replace a constraint by an equal one; later edits concern the new object."""
        if not self.s.cons:
            return
        label = self.rng.choice(list(self.s.cons))
        sc = self.s.cons[label]
        if not (sc.v1 and (sc.kind != "eq" or sc.v2)) or not (sc.v1 | sc.v2) <= set(self.s.labels()):
            return
        kw = {"label": label, "strength": sc.strength}
        v1 = [self.var(l) for l in sorted(sc.v1)]
        if sc.kind == "nhot":
            c = NHotConstraint(variables=v1, n=sc.n, **kw)
        elif sc.kind == "zoh":
            c = ZeroOrOneHotConstraint(variables=v1, **kw)
        else:
            c = EqualityConstraint(variables_1=v1, variables_2=[self.var(l) for l in sorted(sc.v2)], **kw)
        self.case.ev("re-add an equal constraint", label)
        self.m.add_constraint(c)
        self.held[label] = (c, self.m)
        self.edit_constraint()

    def remove_constraint(self):
        if not self.s.cons:
            return
        label = self.rng.choice(list(self.s.cons))
        self.case.ev("remove-constraint", label)
        self.held.pop(label, None)
        self.m.remove_constraint(label)
        del self.s.cons[label]

    # -------------------------------------------------------------- compile + monitor
    def feed(self):
        return rand_feed(self.rng)

    def compile(self, ph=None, check=True):
        ph = ph if ph is not None else self.feed()
        self.case.ev("compile", ph if self.uses_ph else "")
        if self.uses_ph or self.rng.random() < 0.2:
            p = self.m.to_physical(placeholder=ph)
        else:
            p = self.m.to_physical()
        self.s.compile()
        self.case.count("compiles")
        self.last = (p, ph)
        if check:
            check_physical(self.case, p, self.s, ph)
        return p

    def run_ops(self, n, weights):
        ops = list(weights)
        w = [weights[o] for o in ops]
        for _ in range(n):
            op = self.rng.choices(ops, w)[0]
            getattr(self, op)()
            self.case.sign(op)


def bqm_poly(bqm):
    t = {}
    for l, c in bqm.linear.items():
        t[frozenset([l])] = float(c)
    for (a, b), c in bqm.quadratic.items():
        t[frozenset([a, b])] = float(c)
    return t, float(bqm.offset)


def check_poly(case, bqm, poly, bad_const, mtype, what="compiled model", finding="conversion-offset-sign", slack=0.0):
    """slack: extra absolute tolerance per term (expressions that went through another basis)."""
    want = dimod.SPIN if mtype == SPIN else dimod.BINARY
    case.check(bqm.vartype is want, f"{what}: wrong variable type", bqm.vartype, mtype)
    t, off = bqm_poly(bqm)
    for k, c in poly.t.items():
        if not k:
            continue
        got = t.get(k, 0.0)
        case.check(close(got, c, poly.tol(k) + slack), f"{what}: coefficient of {sorted(k)} is {got!r}, must be {c!r}")
    for k, c in t.items():
        if k not in poly.t:
            case.check(abs(c) <= slack, f"{what}: unexpected term {sorted(k)} = {c!r}")
    live = {l for k in poly.t for l in k}
    for l in bqm.variables:
        case.check(slack or l in live, f"{what}: variable {l!r} has no live term")
    for k, c in poly.t.items():
        if abs(c) > poly.tol(k) + slack:
            for l in k:
                case.check(l in bqm.variables, f"{what}: variable {l!r} is missing")
    tol = poly.tol(frozenset()) + slack
    c0 = poly.const()
    if not close(off, c0, tol):
        if bad_const is not None and close(off, bad_const, tol):
            # only some properties make a claim about this constant; the others accept it
            if case.prop in FINDING_PROPS:
                case.finding(finding, f"offset {off} instead of {c0}")
            case.count("offset_sign_observed")
        else:
            case.check(False, f"{what}: offset is {off!r}, must be {c0!r}")
    case.count("assertions", len(poly.t))
    case.count("energy_functions_compared")
    return off - c0


def check_physical(case, p, shadow, ph, what="compiled model"):
    case.check(p.get_mtype() == shadow.mtype, f"{what}: wrong type", p.get_mtype())
    poly, bad = shadow.energy_poly(ph)
    bqm = p.to_bqm()
    shift = check_poly(case, bqm, poly, bad, shadow.mtype, what)
    # direct energies on a few assignments
    dom = (-1, 1) if shadow.mtype == SPIN else (0, 1)
    labels = sorted(poly.labels() | set(bqm.variables))
    if labels:
        for _ in range(3):
            a = {l: case.rng.choice(dom) for l in labels}
            e = bqm.energy({l: a[l] for l in bqm.variables})
            case.check(close(e, poly.energy(a) + shift, poly.tol() * 2), f"{what}: energy of an assignment", a, e, poly.energy(a))
    case.check(close(p.get_offset(), bqm.offset, 0.0), f"{what}: get_offset disagrees with the exported offset", p.get_offset(), bqm.offset)


# ------------------------------------------------------------------ public snapshots
def isnan(v):
    """No value: a table shows an absent attribute as NaN, and one set to None as either."""
    return v is None or (isinstance(v, float) and v != v)


def con_view(c):
    kind = type(c).__name__
    if kind == "EqualityConstraint":
        v1 = {v.label for v in c.get_variables_1()}
        v2 = {v.label for v in c.get_variables_2()}
        n = None
    else:
        v1, v2 = {v.label for v in c.get_variables()}, set()
        n = c.get_n() if kind == "NHotConstraint" else None
    return (kind, c.get_label(), float(c.get_strength()), n, tuple(sorted(v1)), tuple(sorted(v2)))


def flat_labels(arr):
    out = []

    def rec(b):
        if isinstance(b, (list, tuple)):
            for e in b:
                rec(e)
        else:
            out.append((type(b).__name__, b.label))

    rec(arr.bit_list)
    return out


COLS = ("body", "name", "key", "coefficient", "scale", "timestamp")


def table(model, query="removed == False", dirty=False):
    """name -> visible record of the interactions matching the query."""
    d = model.select_interaction(query, fmt="dict")
    rows = {}
    for rec in d.values():
        attrs = {k: v for k, v in rec.items() if isinstance(k, str) and k.startswith("attributes.") and not isnan(v)}
        key = rec["key"] if isinstance(rec["key"], tuple) else (rec["key"],)
        row = {
            "body": rec["body"],
            "key": tuple(key),
            "coefficient": rec["coefficient"] if isinstance(rec["coefficient"], (int, float, np.number)) else repr(rec["coefficient"]),
            "scale": rec["scale"] if isinstance(rec["scale"], (int, float, np.number)) else repr(rec["scale"]),
            "timestamp": rec["timestamp"],
            "attrs": attrs,
        }
        if dirty:
            row["dirty"] = bool(rec["dirty"])
            row["removed"] = bool(rec["removed"])
        if rec["name"] in rows:
            row["DUPLICATE"] = True
            rows[rec["name"] + "#dup"] = row
        else:
            rows[rec["name"]] = row
    return rows


ALL = "removed == False or removed == True"


def snapshot(model, removed=True, dirty=True):
    """Everything a user can see of a logical model, as plain comparable data."""
    off = model.get_offset()
    return {
        "mtype": model.get_mtype(),
        "variables": {n: (tuple(int(i) for i in a.shape), flat_labels(a)) for n, a in model.get_variables().items()},
        "interactions": table(model, ALL if removed else "removed == False", dirty=dirty),
        "offset": off if isinstance(off, (int, float, np.number)) else repr(off),
        "constraints": {l: con_view(c) for l, c in model.get_constraints().items()},
        "deleted": sorted(model.get_deleted_array()),
        "fixed": sorted(model.get_fixed_array()),
        "sizes": (model.get_size(), model.get_deleted_size(), model.get_fixed_size(), model.get_all_size()),
    }


def diff_snap(a, b):
    res = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for kk in sorted(set(a[k]) | set(b[k]), key=str):
                    if a[k].get(kk) != b[k].get(kk):
                        res.append(f"{k}[{kk}]: {a[k].get(kk)} -> {b[k].get(kk)}")
            else:
                res.append(f"{k}: {a[k]} -> {b[k]}")
    return "; ".join(res)


def same_physical(case, p, q, what):
    a, b = bqm_poly(p.to_bqm()), bqm_poly(q.to_bqm())
    case.check(p.get_mtype() == q.get_mtype(), f"{what}: type differs")
    case.check(a == b, f"{what}: energy function differs", a, b)
    case.check(dict(p._label_to_index) == dict(q._label_to_index) and dict(p._index_to_label) == dict(q._index_to_label), f"{what}: numbering differs")


def check_constraints(case, model, shadow):
    kinds = {"nhot": "NHotConstraint", "eq": "EqualityConstraint", "zoh": "ZeroOrOneHotConstraint"}
    got = {l: con_view(c) for l, c in model.get_constraints().items()}
    exp = {
        l: (kinds[c.kind], c.label, float(c.strength), c.n if c.kind == "nhot" else None, tuple(sorted(c.v1)), tuple(sorted(c.v2)))
        for l, c in shadow.cons.items()
    }
    case.check(got == exp, "constraints differ", got, exp)


def physical_numbers(p):
    """Frozen copy of everything visible of a physical model."""
    return (p.get_mtype(), bqm_poly(p.to_bqm()), dict(p._label_to_index), dict(p._index_to_label), p.get_offset())
