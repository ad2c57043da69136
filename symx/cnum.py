"""Complex numbers that are polynomials over real-valued symbols (amplitudes, matrix entries, probabilities).

The code under test (numpy code over complex128 arrays) runs unchanged on object arrays of these.  A claim about
them is handed to the solver as an (in)equality of real polynomials, decided for every real value of the symbols.
"""

from __future__ import annotations

import cmath
import math
from fractions import Fraction

import numpy as np

from .engine import Inconclusive, Unsupported, Violation, z3
from .proxy import Real, SymBool, TPoly, cur, sand

EPS = 1e-13
R2 = math.sqrt(2)


class Ctx:
    """Variables and rewriting facts of one path."""

    def __init__(self, e):
        self.e = e
        self.names = []
        self.ix = {}
        self.z = []
        self.sq = {}  # var -> Cx: value of its square
        self.inv = {}  # (var, var) -> True: product is 1
        self.pinv = []  # (var, polynomial): the variable is the inverse of the polynomial
        self.facts = []  # z3 facts about auxiliary variables
        self.roots = {}  # polynomial -> root variable
        self.r2 = None
        self.unit = []  # polynomials known to be 1
        self.defs = {}  # polynomial -> variable standing for it in conditions

    def var(self, name, real_input=True, lo=None, hi=None):
        if name in self.ix:
            return self.ix[name]
        i = len(self.names)
        self.names.append(name)
        self.ix[name] = i
        v = z3.Real(name)
        self.z.append(v)
        if real_input:
            self.e.reals[name] = v
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        return i

    def root2(self):
        if self.r2 is None:
            self.r2 = z3.Real("sqrt(2)")
            self.e.add(self.r2 * self.r2 == 2)
            self.e.add(self.r2 > 0)
        return self.r2


def ctx():
    e = cur()
    c = getattr(e, "_cx", None)
    if c is None:
        c = e._cx = Ctx(e)
        e.late = late_facts
    return c


def coef(x):
    """A float as an exact element of Q(sqrt 2)."""
    if abs(x) < 1e-7:
        return Fraction(repr(float(x))), Fraction(0)
    f = Fraction(x).limit_denominator(5040)
    if abs(float(f) - x) < 1e-12:
        return f, Fraction(0)
    g = Fraction(x / R2).limit_denominator(5040)
    if abs(float(g) - x / R2) < 1e-12:
        return Fraction(0), g
    return Fraction(x).limit_denominator(10**9), Fraction(0)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, p in m2:
        d[v] = d.get(v, 0) + p
    return tuple(sorted(d.items()))


def clear(p):
    """Multiply by the denominators (nonzero on this path): an equivalent polynomial free of inverse variables."""
    for i, q in reversed(ctx().pinv):
        by = {}
        for m, k in p.d.items():
            n = next((x for v, x in m if v == i), 0)
            by.setdefault(n, {})[tuple((v, x) for v, x in m if v != i)] = k
        d = max(by, default=0)
        if not d:
            continue
        r = Cx({})
        for n, dd in by.items():
            t = Cx(dd)
            for _ in range(d - n):
                t = t * q
            r = r + t
        p = r.reduce()
    return p


class Cx:
    __slots__ = ("d",)
    _cx = True

    def __init__(self, d):
        self.d = d

    # ------------------------------------------------------------ building
    @staticmethod
    def const(x):
        x = complex(x)
        return Cx({(): x} if x else {})

    @staticmethod
    def lift(o):
        if type(o) is Cx:
            return o
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return Cx.lift(o.item())
            return None
        if type(o) is Real:
            return None
        if type(o) is TPoly:
            return from_trig(o)
        try:
            return Cx.const(o)
        except (TypeError, ValueError):
            return None

    def reduce(self):
        """Rewrite squares of roots and products of inverse pairs."""
        c = ctx()
        if not c.sq and not c.inv:
            return self
        todo = dict(self.d)
        out = {}
        while todo:
            m, k = todo.popitem()
            for v, p in m:
                if p >= 2 and v in c.sq:
                    rest = tuple((w, q if w != v else q - 2) for w, q in m if w != v or q > 2)
                    for m2, k2 in c.sq[v].d.items():
                        mm = mono_mul(rest, m2)
                        s = todo.get(mm, 0) + k * k2
                        todo[mm] = s
                    break
                hit = next((w for w, _ in m if (v, w) in c.inv), None) if c.inv else None
                if hit is not None:
                    rest = tuple((w, q - 1 if w in (v, hit) else q) for w, q in m if not (w in (v, hit) and q == 1))
                    todo[rest] = todo.get(rest, 0) + k
                    break
            else:
                out[m] = out.get(m, 0) + k
        return Cx({m: k for m, k in out.items() if abs(k) > EPS})

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        if not o.d:
            return self
        r = dict(self.d)
        for m, k in o.d.items():
            v = r.get(m, 0) + k
            if abs(v) < EPS:
                r.pop(m, None)
            else:
                r[m] = v
        return Cx(r)

    __radd__ = __add__

    def __neg__(self):
        return Cx({m: -k for m, k in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Cx.lift(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = Cx.lift(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        r = {}
        for m1, k1 in self.d.items():
            for m2, k2 in o.d.items():
                m = mono_mul(m1, m2)
                r[m] = r.get(m, 0) + k1 * k2
        return Cx({m: k for m, k in r.items() if abs(k) > EPS}).reduce()

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0.5:
            return self.sqrt()
        if not isinstance(n, (int, np.integer)) or n < 0:
            raise Unsupported(f"power {n} of a symbolic number")
        r = Cx.const(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def constant(self):
        """The value when it does not depend on the symbols, else None."""
        if not self.d:
            return 0j
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def inverse(self):
        v = self.constant()
        if v is not None:
            return Cx.const(1 / v)
        c = ctx()
        if not self.is_real():
            n = self * self.conjugate()
            return self.conjugate() * n.inverse()
        key = ("inv", frozenset((m, round(k.real, 11)) for m, k in self.d.items()))
        if key in c.roots:
            return c.roots[key]
        base = self
        if len(self.d) == 1:
            ((m, k),) = self.d.items()
            if len(m) == 1 and m[0][0] in c.sq:
                base = c.sq[m[0][0]]  # a root vanishes when its square does
        if bool(base == 0):
            raise ZeroDivisionError
        if len(self.d) == 1:  # k * v^p
            if len(m) == 1 and m[0][1] == 1:
                i = c.var(f"1/{c.names[m[0][0]]}", False)
                c.inv[(i, m[0][0])] = c.inv[(m[0][0], i)] = True
                c.e.add(c.z[i] * c.z[m[0][0]] == 1)
                if m[0][0] in c.sq:  # i^2 * square = 1
                    sq = c.sq[m[0][0]]
                    c.facts.append((i, sq))
                r = Cx({((i, 1),): 1 / k})
                c.roots[key] = r
                return r
        i = c.var(f"inv{len(c.names)}", False)
        c.e.add(c.z[i] * self.zcond() == 1)
        c.pinv.append((i, self))
        r = Cx({((i, 1),): 1.0 + 0j})
        c.roots[key] = r
        return r

    def __truediv__(self, o):
        o = Cx.lift(o)
        return NotImplemented if o is None else self * o.inverse()

    def __rtruediv__(self, o):
        o = Cx.lift(o)
        return NotImplemented if o is None else o * self.inverse()

    def conjugate(self):
        return Cx({m: k.conjugate() for m, k in self.d.items()})

    @property
    def real(self):
        return Cx({m: complex(k.real) for m, k in self.d.items() if abs(k.real) > EPS})

    @property
    def imag(self):
        return Cx({m: complex(k.imag) for m, k in self.d.items() if abs(k.imag) > EPS})

    def is_real(self):
        return all(abs(k.imag) <= EPS for k in self.d.values())

    def abs2(self):
        return self.real * self.real + self.imag * self.imag

    def sqrt(self, nonneg=False):
        """Nonnegative root of a nonnegative real."""
        v = self.constant()
        if v is not None:
            if v.real < 0:
                raise NanError("root of a negative number")
            return Cx.const(cmath.sqrt(v))
        if not self.is_real():
            raise Unsupported("root of a complex number")
        c = ctx()
        key = frozenset((m, round(k.real, 11)) for m, k in self.d.items())
        for u in c.unit:
            if len((self - u).d) == 0:
                return Cx.const(1)
        if key in c.roots:
            return c.roots[key]
        if not nonneg and not bool(self >= 0):
            raise NanError("root of a negative number")
        # a perfect square of one symbol
        i = c.var(f"root{len(c.names)}", False)
        c.e.add(c.z[i] >= 0)
        c.e.add(c.z[i] * c.z[i] == self.zcond())
        c.sq[i] = self
        r = Cx({((i, 1),): 1.0 + 0j})
        c.roots[key] = r
        return r

    def __abs__(self):
        v = self.constant()
        if v is not None:
            return Cx.const(abs(v))
        if self.is_real():
            if any(not (self - u).d for u in ctx().unit):
                return Cx.const(1)
            return self if bool(self >= 0) else -self
        return self.abs2().sqrt(True)

    # ----------------------------------------------------------- solver
    def _z(self, part):
        c = ctx()
        terms = []
        for m, k in self.d.items():
            x = k.real if part == 0 else k.imag
            if abs(x) <= EPS:
                continue
            a, b = coef(x)
            f = z3.RealVal(str(a)) if not b else z3.RealVal(str(b)) * c.root2() if not a else None
            fs = [f]
            for v, p in m:
                fs += [c.z[v]] * p
            terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)

    def zre(self):
        return self._z(0)

    def zcond(self):
        """Real part for use in conditions: a large polynomial is named, its definition is added on demand."""
        if len(self.d) <= 3 or all(sum(p for _, p in m) <= 1 for m in self.d):
            return self._z(0)
        c = ctx()
        # constant term and leading sign apart, so that p <= a and p - b > 0 share the name
        k0 = self.d.get((), 0)
        rest = {m: k for m, k in self.d.items() if m}
        lead = min(rest)
        f = rest[lead].real
        key = frozenset((m, round(k.real / f, 10)) for m, k in rest.items())
        v = c.defs.get(key)
        if v is None:
            v = c.defs[key] = (z3.Real(f"poly{len(c.defs)}"), Cx({m: k / f for m, k in rest.items()})._z(0))
        a, b = coef(f)
        fz = z3.RealVal(str(a)) if not b else z3.RealVal(str(b)) * c.root2()
        return v[0] * fz + Cx({(): k0} if k0 else {})._z(0)

    def zim(self):
        return self._z(1)

    def _cmp(self, o, op):
        o = Cx.lift(o)
        if o is None:
            return NotImplemented
        d = self - o
        v = d.constant()
        if v is not None:
            return {"<": v.real < -0.0, "<=": v.real <= 0, ">": v.real > 0, ">=": v.real >= 0}[op]
        if not d.is_real():
            raise Unsupported("order of complex numbers")
        z = d.zcond()
        return SymBool({"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0}[op])

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        o = Cx.lift(o)
        if o is None:
            return False
        d = self - o
        v = d.constant()
        if v is not None:
            return abs(v) < 1e-12
        return SymBool(d.zcond() == 0 if d.is_real() else z3.And(d.zre() == 0, d.zim() == 0))

    def __ne__(self, o):
        r = self == o
        return ~r if hasattr(r, "_sym") else not r

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __complex__(self):
        v = self.constant()
        if v is None:
            raise Unsupported("complex() of a symbolic number")
        return complex(v)

    def __float__(self):
        v = self.constant()
        if v is None:
            raise Unsupported("float() of a symbolic number")
        return float(v.real)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        c = ctx()
        return " + ".join(f"{k:.3g}*" + "*".join(f"{c.names[v]}^{p}" if p > 1 else c.names[v] for v, p in m)
                          for m, k in list(self.d.items())[:6]) or "0"


def from_trig(p):
    """A polynomial in cosines and sines: each pair becomes two variables on the unit circle."""
    c = ctx()
    r = {}
    for m, k in p.d.items():
        mono = ()
        for a, pc, ps in m:
            ic = c.var(f"cos({a})", False)
            new = f"sin({a})" not in c.ix
            si = c.var(f"sin({a})", False)
            if new:
                c.e.add(c.z[ic] * c.z[ic] + c.z[si] * c.z[si] == 1)
                c.sq[si] = Cx({(): 1 + 0j, ((ic, 2),): -1 + 0j})
            if pc:
                mono = mono_mul(mono, ((ic, pc),))
            if ps:
                mono = mono_mul(mono, ((si, ps),))
        r[mono] = r.get(mono, 0) + k
    return Cx(r)


class NanError(Exception):
    """A root of a negative number: numpy gives nan (and a warning)."""


# ---------------------------------------------------------------- inputs
def rvar(name, lo=None, hi=None):
    """A real input."""
    e = cur()
    if e.mode == "concrete":
        v = float(e.model.get(name, 0.0))
        return v
    return Cx({((ctx().var(name, True, lo, hi), 1),): 1.0 + 0j})


def cvar(name):
    """A complex input."""
    e = cur()
    a, b = rvar(name + ".re"), rvar(name + ".im")
    if e.mode == "concrete":
        return complex(a, b)
    return a + Cx.const(1j) * b


def arr(vals, shape=None):
    """Array of (symbolic) numbers."""
    e = cur()
    vals = list(vals)
    if e.mode == "concrete":
        r = np.array(vals, dtype=np.complex128)
    else:
        r = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            r[i] = Cx.lift(v)
    return r.reshape(shape) if shape is not None else r


def carr(name, *shape):
    n = int(np.prod(shape))
    return arr([cvar(f"{name}{i}") for i in range(n)], shape)


def herm(name, dim):
    """A Hermitian matrix."""
    m = [[None] * dim for _ in range(dim)]
    for i in range(dim):
        for j in range(i + 1):
            if i == j:
                m[i][i] = rvar(f"{name}{i}{i}")
            else:
                z = cvar(f"{name}{i}{j}")
                m[i][j] = z
                m[j][i] = z.conjugate()
    return arr([x for r in m for x in r], (dim, dim))


def norm2(v):
    return sum((x * x.conjugate() for x in np.asarray(v).flat), 0 if cur().mode == "concrete" else Cx.const(0))


def unit(v):
    """The vector v restricted to norm 1 (a replay normalises the values found).

    The constraint itself is kept out of the path condition (it makes every query nonlinear); it is added when a
    claim is not an identity without it.
    """
    e = cur()
    n = norm2(v)
    if e.mode == "concrete":
        if abs(n) < 1e-12:
            v[0] = 1
            return v
        return v / math.sqrt(n.real)
    if n.constant() is None:
        ctx().unit.append(n)
    return v


# ---------------------------------------------------------------- claims
def facts():
    """z3 facts about roots that are consequences of their definitions (i^2 * s^2 = 1 with s^2 = N gives i^2*N = 1)."""
    c = ctx()
    r = []
    for i, sq in c.facts:
        p = Cx({((i, 2),): 1.0 + 0j})
        full = {}
        for m, k in sq.d.items():
            full[mono_mul(((i, 2),), m)] = k
        r.append(Cx(full).zre() == 1)
    return r


def same(e, got, want, msg, tol=1e-7):
    """Claim: the arrays are equal for all values of the symbols."""
    if e.mode == "concrete":
        g, w = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
        e.check(g.shape == w.shape and bool(np.allclose(g, w, atol=tol)), msg)
        return
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    if got.shape != want.shape:
        e.check(False, msg + f" (shape {got.shape} instead of {want.shape})")
        return
    dis, extra = [], None
    for g, w in zip(got.flat, want.flat):
        g, w = Cx.lift(g), Cx.lift(w)
        d = g - w
        if d.d and ctx().pinv:
            g, w = clear(d), Cx.const(0)
            g = d = Cx({m: k for m, k in g.d.items() if abs(k) > 1e-10})
        if len(d.d) < len(g.d) + len(w.d):  # coefficients equal up to rounding get the same exact value
            g = Cx({m: w.d[m] if m in w.d and abs(k - w.d[m]) < 1e-10 else k for m, k in g.d.items()
                    if abs(k) > 1e-10 or m in w.d})
        # parts that are identical as polynomials are still given to the solver, expanded separately
        dis.append(g.zre() != w.zre())
        if not (g.is_real() and w.is_real()):
            dis.append(g.zim() != w.zim())
        if d.d and ctx().facts:
            extra = facts()
    decide(e, z3.Not(z3.Or(*dis)) if dis else z3.BoolVal(True), msg, list(extra or ()))


def decide(e, claim, msg, extra=()):
    """Claim as a z3 Bool: first for all real values, then under the path condition, then for normalised states."""
    e.stats.claims += 1
    e.stats.claim_queries += 1
    import time

    t = time.perf_counter()
    s = z3.SimpleSolver()
    s.set("timeout", min(3000, e.query_ms))
    s.add(z3.Not(claim))
    for x in extra:
        s.add(x)
    c = ctx()
    if c.r2 is not None:
        s.add(c.r2 * c.r2 == 2)
    r = s.check()
    e.stats.queries += 1
    e.stats.solver_s += time.perf_counter() - t
    if r == z3.unsat:
        return
    e.stats.claim_queries -= 1
    if not c.unit and not c.defs:
        e.check_z(claim, msg, extra)
        return
    r, m = e.query(z3.Not(claim), *extra)
    e.stats.claim_queries += 1
    if r == z3.unsat:
        return
    r2, m2 = e.query(z3.Not(claim), *extra, *[v == d for v, d in c.defs.values()])
    if r2 == z3.unsat:
        return
    if r2 == z3.sat:
        m = m2
    r2, m2 = e.query(z3.Not(claim), *extra, *[v == d for v, d in c.defs.values()], *[u.zre() == 1 for u in c.unit])
    if r2 == z3.unsat:
        return
    if r2 == z3.sat:
        raise Violation(msg, e.get_model(m2))
    if r == z3.sat:
        raise Violation(msg, e.get_model(e.nice(r, m, z3.Not(claim), *extra)))
    raise Inconclusive(msg)


def late_facts():
    c = ctx()
    return [v == d for v, d in c.defs.values()] + [u.zre() == 1 for u in c.unit]


def claim(e, cond, msg):
    """e.check for conditions on symbolic numbers."""
    if e.mode == "concrete" or not hasattr(cond, "_sym"):
        e.check(bool(cond), msg)
        return
    decide(e, cond.z3(), msg)


def proportional(e, got, want, msg):
    """Claim: the vectors are collinear (all 2x2 minors vanish)."""
    g, w = list(np.asarray(got).flat), list(np.asarray(want).flat)
    if len(g) != len(w):
        e.check(False, msg + f" (length {len(g)} instead of {len(w)})")
        return
    a, b = [], []
    for i in range(len(g)):
        for j in range(i):
            a.append(g[i] * w[j])
            b.append(g[j] * w[i])
    same(e, arr(a), arr(b), msg)


# ---------------------------------------------------------------- numpy for the code under test
class NpLinalg:
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    @staticmethod
    def norm(v, *a, **k):
        v = np.asarray(v)
        if v.dtype == object and not a and not k:
            return norm2(v).sqrt(True)
        return np.linalg.norm(v, *a, **k)


def vanishes(d):
    """d is zero once the denominators are cleared (coefficients are exact up to rounding)."""
    if not d.d:
        return True
    return bool(ctx().pinv) and all(abs(k) <= 1e-10 for k in clear(d).d.values())


def _isclose1(a, b, rtol, atol):
    d = Cx.lift(a) - Cx.lift(b)
    if vanishes(d):
        return True
    if any(k != k for k in d.d.values()):
        return False
    v = d.constant()
    tb = Cx.lift(b).constant()
    if v is not None:
        return abs(v) <= atol + rtol * (abs(tb) if tb is not None else 1)
    if tb is None:
        tol = Cx.const(atol) + (abs(Cx.lift(b)) * rtol if rtol else 0)
    else:
        tol = Cx.const(atol + rtol * abs(tb))
    if d.is_real():
        return sand(d <= tol, d >= -tol)
    re, im, t = d.real.zcond(), d.imag.zcond(), tol.zcond()
    return SymBool(re * re + im * im <= t * t)


class NpSym:
    """numpy, with complex arrays holding symbolic entries."""

    complex128 = object
    float64 = object
    linalg = NpLinalg()

    object_ = np.dtype("V7")  # different from every dtype in use: the code takes its numeric branch

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != object and b.dtype != object:
            return np.isclose(a, b, rtol, atol)
        a, b = np.broadcast_arrays(a, b)
        r = np.empty(a.shape, dtype=bool)
        for ix in np.ndindex(a.shape):
            r[ix] = bool(_isclose1(a[ix], b[ix], rtol, atol))
        return r if r.ndim else bool(r)

    @classmethod
    def allclose(cls, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != object and b.dtype != object:
            return np.allclose(a, b, rtol, atol)
        return bool(np.all(cls.isclose(a, b, rtol, atol)))

    @staticmethod
    def vectorize(f, otypes=None, **kw):
        """Entrywise application; without otypes the type of the first result is imposed on the others, as numpy does."""

        def g(*arrays):
            if kw or not any(np.asarray(a).dtype == object for a in arrays):
                return np.vectorize(f, otypes=otypes, **kw)(*arrays)
            arrays = np.broadcast_arrays(*arrays)
            r = np.empty(arrays[0].shape, dtype=object)
            for ix in np.ndindex(r.shape):
                r[ix] = f(*(a[ix] for a in arrays))
            num = [v for v in r.flat if type(v) is Cx or isinstance(v, (int, float, complex))]
            if otypes is None and r.size and any(v is r.flat[0] for v in num):
                if len(num) < r.size or (Cx.lift(r.flat[0]).is_real() and not all(Cx.lift(v).is_real() for v in num)):
                    raise TypeError("must be real number (type inferred from the first entry)")
            return r

        return g

    @staticmethod
    def sqrt(x):
        if type(x) is Cx:
            try:
                return x.sqrt()
            except NanError:
                return Cx.const(math.nan)
        return np.sqrt(x)

    @staticmethod
    def abs(x):
        if type(x) is Cx:
            return abs(x)
        x = np.asarray(x)
        if x.dtype == object:
            r = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(x.shape):
                r[ix] = abs(x[ix])
            return r
        return np.abs(x)


def sym_complex(x=0, y=0):
    if type(x) is Cx:
        return x
    return complex(x, y) if not isinstance(x, str) else complex(x)


def sym_float(x=0.0):
    if type(x) is Cx:
        if not x.is_real():
            raise TypeError("float() of a complex number")
        return x
    return float(x)


_patched = {}


def patch_math():
    if _patched:
        return
    _patched["sqrt"] = math.sqrt
    _patched["isclose"] = math.isclose
    math.sqrt = lambda x: x.sqrt() if type(x) is Cx else _patched["sqrt"](x)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if type(a) is Cx or type(b) is Cx:
            a, b = Cx.lift(a), Cx.lift(b)
            d = a - b
            v = d.constant()
            ca, cb = a.constant(), b.constant()
            if (v is not None and abs(v) < 1e-14) or vanishes(d):
                return True
            if v is not None and ca is not None and cb is not None:
                return _patched["isclose"](ca.real, cb.real, rel_tol=rel_tol, abs_tol=abs_tol)
            ab = lambda x: z3.If(x >= 0, x, -x)
            za, zb, zd = ab(a.zcond()), ab(b.zcond()), ab(d.zcond())
            m = z3.If(za >= zb, za, zb) * z3.RealVal(str(Fraction(rel_tol)))
            t = z3.RealVal(str(Fraction(abs_tol)))
            return SymBool(zd <= z3.If(m >= t, m, t))
        return _patched["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    math.isclose = isclose
