"""Executable reference ("shadow") for logical models, written from the properties' text.

Energies are multilinear polynomials over variable labels; two energy functions over
spins (or bits) agree on every assignment iff their polynomials agree term by term, so
comparing polynomials decides equality for all 2^n assignments at once.
"""
import math

SPIN, BIT = "ising", "qubo"


class Val:
    """A number or a placeholder expression: what the code gets, and how to evaluate it."""

    __slots__ = ("real", "fn", "text")

    def __init__(self, real, fn=None, text=None):
        self.real = real
        if fn is None:
            c = float(real)
            fn = lambda ph: c  # noqa: E731
        self.fn = fn
        self.text = text if text is not None else repr(real)

    def __repr__(self):
        return self.text


class F:
    """A number with a bound on the magnitudes that entered it (bounds rounding under cancellation)."""

    __slots__ = ("v", "m")

    def __init__(self, v, m=None):
        self.v, self.m = v, abs(v) if m is None else m

    @staticmethod
    def of(x):
        return x if isinstance(x, F) else F(float(x))

    def __add__(self, o):
        o = F.of(o)
        return F(self.v + o.v, self.m + o.m)

    __radd__ = __add__

    def __mul__(self, o):
        o = F.of(o)
        return F(self.v * o.v, self.m * o.m)

    __rmul__ = __mul__

    def __neg__(self):
        return F(-self.v, self.m)

    def __abs__(self):
        return F(abs(self.v), self.m)


def mag(fn, ph):
    """Sum of the magnitudes of the products that make up fn(ph)."""
    return F.of(fn({k: F.of(v) for k, v in ph.items()} if ph else ph)).m


class Poly:
    """sum of terms; t: frozenset(labels) -> coefficient; m: key -> sum of |contributions|
    (bounds the rounding error of any summation order)."""

    def __init__(self, terms=None, mags=None):
        self.t = dict(terms or {})
        self.m = dict(mags if mags is not None else {k: abs(v) for k, v in self.t.items()})

    def add(self, key, c, m=None):
        key = frozenset(key)
        self.t[key] = self.t.get(key, 0.0) + c
        self.m[key] = self.m.get(key, 0.0) + (abs(c) if m is None else m)

    def add_poly(self, other, k=1.0):
        for key, c in other.t.items():
            self.add(key, k * c, abs(k) * other.m[key])
        return self

    def copy(self):
        return Poly(self.t, self.m)

    def const(self):
        return self.t.get(frozenset(), 0.0)

    def labels(self):
        return {l for k in self.t for l in k}

    def energy(self, assign):
        e = 0.0
        for k, c in self.t.items():
            v = c
            for l in k:
                v *= assign[l]
            e += v
        return e

    def without(self, label):
        ks = [k for k in self.t if label not in k]
        return Poly({k: self.t[k] for k in ks}, {k: self.m[k] for k in ks})

    def substitute(self, label, value):
        r = Poly()
        for k, c in self.t.items():
            if label in k:
                r.add(k - {label}, c * value, self.m[k])
            else:
                r.add(k, c, self.m[k])
        return r

    def convert(self, to):
        """to=ising: x=(s+1)/2 ; to=qubo: s=2x-1 (exact substitution)."""
        a, b = (0.5, 0.5) if to == SPIN else (2.0, -1.0)
        r = Poly()
        for k, c in self.t.items():
            parts = [(frozenset(), c, self.m[k])]
            for l in k:
                parts = [(s | {l}, v * a, m * abs(a)) for s, v, m in parts] + [(s, v * b, m * abs(b)) for s, v, m in parts]
            for s, v, m in parts:
                r.add(s, v, m)
        return r

    def tol(self, key=None):
        if key is None:
            return 1e-9 * sum(self.m.values())
        return 1e-9 * self.m.get(frozenset(key), 0.0)


def penalty_poly(kind, strength, vars1, vars2=(), n=1):
    """strength * penalty over bits, without the constant term the library drops."""
    p = Poly()
    v1, v2 = sorted(vars1), sorted(vars2)
    if kind == "eq":  # a variable on both sides cancels
        v1, v2 = sorted(set(vars1) - set(vars2)), sorted(set(vars2) - set(vars1))
    if kind == "nhot":
        # strength*(sum-n)^2, constant strength*n^2 dropped
        for i, a in enumerate(v1):
            p.add([a], strength * (1 - 2 * n))
            for b in v1[i + 1 :]:
                p.add([a, b], 2.0 * strength)
    elif kind == "zoh":
        for i, a in enumerate(v1):
            for b in v1[i + 1 :]:
                p.add([a, b], 2.0 * strength)
    elif kind == "eq":
        for grp in (v1, v2):
            for i, a in enumerate(grp):
                p.add([a], strength)
                for b in grp[i + 1 :]:
                    p.add([a, b], 2.0 * strength)
        for a in v1:
            for b in v2:
                p.add([a, b], -2.0 * strength)
    return p


class Row:
    __slots__ = ("name", "key", "coef", "scale", "attrs", "ts", "dirty", "default")

    def __init__(self, name, key, coef, scale, attrs, ts, default):
        self.name, self.key, self.coef, self.scale = name, key, coef, scale
        self.attrs, self.ts, self.dirty, self.default = {k: v for k, v in attrs.items() if v is not None}, ts, True, default

    def term(self):
        c, s = self.coef.fn, self.scale.fn
        return (frozenset(self.key), lambda ph: -(c(ph) * s(ph)))


class Con:
    def __init__(self, kind, label, strength, v1, v2=(), n=1):
        self.kind, self.label, self.strength, self.n = kind, label, strength, n
        self.v1, self.v2 = set(v1), set(v2)

    def copy(self):
        return Con(self.kind, self.label, self.strength, self.v1, self.v2, self.n)

    def poly(self):
        return penalty_poly(self.kind, self.strength, self.v1, self.v2, self.n)

    def describe(self):
        return (self.kind, self.label, float(self.strength), self.n, tuple(sorted(self.v1)), tuple(sorted(self.v2)))


class Shadow:
    def __init__(self, mtype):
        self.mtype = mtype
        self.arrays = {}  # name -> shape
        self.rows = {}  # live rows addressable by name
        self.taken = set()  # live names which can no longer be edited (converted / merged)
        self.removed = {}  # removed but not yet compiled: name -> dirty irrelevant
        self.rest = []  # (key, fn): live energy terms not held in rows
        self.offset = lambda ph: 0.0
        # what the offset is when every type conversion adds its constant with the wrong
        # sign (the known finding); equal to `offset` as long as nothing was converted
        self.offset_bad = lambda ph: 0.0
        self.offset_mag = lambda ph: 0.0  # sum of |contributions|, bounds rounding
        self.deleted, self.fixed = set(), {}
        self.cons = {}
        self.attr_keys = set()
        self.converted = False

    def copy(self):
        o = Shadow(self.mtype)
        o.arrays = dict(self.arrays)
        for n, r in self.rows.items():
            c = Row(r.name, r.key, r.coef, r.scale, r.attrs, r.ts, r.default)
            c.dirty = r.dirty
            o.rows[n] = c
        o.taken, o.removed, o.rest = set(self.taken), dict(self.removed), list(self.rest)
        o.offset, o.offset_bad, o.offset_mag = self.offset, self.offset_bad, self.offset_mag
        o.deleted, o.fixed = set(self.deleted), dict(self.fixed)
        o.cons = {k: c.copy() for k, c in self.cons.items()}
        o.attr_keys = set(self.attr_keys)
        o.converted = self.converted
        return o

    # ---- labels
    def labels(self):
        res = []
        for name, shape in self.arrays.items():
            idx = [()]
            for s in shape:
                idx = [i + (j,) for i in idx for j in range(s)]
            res += [name + "".join(f"[{j}]" for j in i) for i in idx]
        return res

    # ---- energies
    def terms(self):
        return [r.term() for r in self.rows.values()] + self.rest

    def poly_interactions(self, ph):
        """Interaction part in the model's own type, constant excluded."""
        p = Poly()
        for key, fn in self.terms():
            p.add(key, fn(ph), mag(fn, ph))
        return p

    def poly_constraints_bits(self):
        p = Poly()
        for c in self.cons.values():
            q = c.poly()
            for l, v in self.fixed.items():
                q = q.substitute(l, 1 if v == 1 else 0)
            p.add_poly(q)
        return p

    def energy_poly(self, ph):
        """(poly, bad_const): the exact energy and the constant under the known finding."""
        p = self.poly_interactions(ph)
        cb = self.poly_constraints_bits()
        bad_delta = 0.0
        if self.mtype == SPIN:
            bad = 0.0
            for c in self.cons.values():
                q = c.poly()
                for l, v in self.fixed.items():
                    q = q.substitute(l, 1 if v == 1 else 0)
                k0 = q.const()
                k1 = q.convert(SPIN).const()
                bad += k0 - (k1 - k0)
            cs = cb.convert(SPIN)
            bad_delta = bad - cs.const()
            p.add_poly(cs)
        else:
            p.add_poly(cb)
        base = p.const()
        off, off_bad = self.offset(ph), self.offset_bad(ph)
        p.add([], off)
        p.m[frozenset()] = p.m.get(frozenset(), 0.0) + abs(bad_delta) + mag(self.offset, ph) + mag(self.offset_bad, ph) + mag(self.offset_mag, ph)
        return p, base + off_bad + bad_delta

    # ---- operations (mirror the documented effect)
    def fold(self, names=None):
        """Move rows into `rest`; their names stay taken."""
        for n in list(self.rows) if names is None else list(names):
            r = self.rows.pop(n)
            self.rest.append(r.term())
            self.taken.add(n)

    def touching(self, label):
        return [n for n, r in self.rows.items() if label in r.key]

    def delete(self, label):
        self.deleted.add(label)
        for n in self.touching(label):
            del self.rows[n]
            self.removed[n] = True
        self.rest = [(k, f) for k, f in self.rest if label not in k]
        for c in self.cons.values():
            c.v1.discard(label)
            c.v2.discard(label)

    def fix(self, label, value):
        self.fixed[label] = value
        for n in self.touching(label):
            r = self.rows.pop(n)
            self.removed[n] = True
            self.rest.append(r.term())
        new = []
        consts = []
        for k, f in self.rest:
            if label in k:
                k2 = k - {label}
                g = lambda ph, f=f: f(ph) * value  # noqa: E731
                if k2:
                    new.append((k2, g))
                else:
                    consts.append(g)
            else:
                new.append((k, f))
        self.rest = new
        if consts:
            self._add_offset(lambda ph: sum(g(ph) for g in consts), mag=lambda ph: sum(abs(g(ph)) for g in consts))

    def _add_offset(self, fn, bad=None, mag=None):
        a, b, c = self.offset, self.offset_bad, self.offset_mag
        self.offset_mag = lambda ph: c(ph) + mag(ph)
        self.offset = lambda ph: a(ph) + fn(ph)
        self.offset_bad = lambda ph: b(ph) + (bad or fn)(ph)

    def set_offset(self, val):
        self.offset = self.offset_bad = val.fn
        self.offset_mag = lambda ph: abs(val.fn(ph))

    def convert(self):
        to = SPIN if self.mtype == BIT else BIT
        self.fold()
        a, b = (0.5, 0.5) if to == SPIN else (2.0, -1.0)
        new, consts = [], []
        for k, f in self.rest:
            parts = [(frozenset(), 1.0)]
            for l in k:
                parts = [(s | {l}, v * a) for s, v in parts] + [(s, v * b) for s, v in parts]
            for s, v in parts:
                g = lambda ph, f=f, v=v: f(ph) * v  # noqa: E731
                (new if s else consts).append((s, g) if s else g)
        self.rest = new
        self._add_offset(lambda ph: sum(g(ph) for g in consts), lambda ph: -sum(g(ph) for g in consts), lambda ph: sum(abs(g(ph)) for g in consts))
        self.mtype = to
        self.converted = True

    def compile(self):
        """Effect of a successful compilation on the table."""
        self.removed.clear()
        for r in self.rows.values():
            r.dirty = False

    def merge(self, other):
        o = other.copy()
        self.converted = self.converted or o.converted or (o.mtype != self.mtype and bool(o.cons))
        if o.mtype != self.mtype:
            o.convert()
        for n, sh in o.arrays.items():
            if n not in self.arrays:
                self.arrays[n] = sh
            else:
                self.arrays[n] = tuple(max(a, b) for a, b in zip(self.arrays[n], sh))
        mine = set(self.rows) | self.taken | set(self.removed)
        theirs = set(o.rows) | o.taken | set(o.removed)
        clash = mine & theirs
        for s in (self, o):
            s.fold([n for n in s.rows if n in clash])
            s.taken -= clash
            s.removed = {n: True for n in s.removed if n not in clash}
        self.rows.update(o.rows)
        self.taken |= o.taken
        self.removed.update(o.removed)
        self.rest += o.rest
        self._add_offset(o.offset, o.offset_bad, o.offset_mag)
        self.cons.update(o.cons)
        self.deleted |= o.deleted
        self.fixed.update(o.fixed)
        self.attr_keys |= o.attr_keys


def close(a, b, tol):
    return abs(a - b) <= tol or (math.isinf(a) and a == b)
