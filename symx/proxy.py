"""Symbolic proxies: bits, linear integer combinations, sets, reals/angles."""

from __future__ import annotations

import dis
import math
import operator
import sys
import numpy as np
from collections.abc import MutableSet, Set as AbcSet
from fractions import Fraction

from . import engine as E
from .engine import ONE, ZERO, Anf, Unsupported, mk, z3


def cur():
    e = E.CUR
    if e is None:
        raise Unsupported("no engine")
    return e


# ------------------------------------------------------------------ booleans
class SymBool:
    """A z3 Bool with Python bool behaviour (forks on truth)."""

    _sym = True
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def z3(self):
        return self.e

    def __bool__(self):
        return cur().decide_z(self.e)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def _o(self, o):
        return zbool(o)

    def __and__(self, o):
        return SymBool(z3.And(self.e, self._o(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, self._o(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, self._o(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        return SymBool(self.e == self._o(o))

    def __ne__(self, o):
        return SymBool(self.e != self._o(o))

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __repr__(self):
        return f"SymBool({self.e})"

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__


def zbool(o):
    if hasattr(o, "_sym"):
        return o.z3()
    return z3.BoolVal(bool(o))


def _split(xs):
    sym = [x for x in xs if hasattr(x, "_sym")]
    return [bool(x) for x in xs if not hasattr(x, "_sym")], sym


def sand(*xs):
    con, sym = _split(xs)
    if not all(con):
        return False
    return SymBool(E.zand([zbool(x) for x in sym])) if sym else True


def sor(*xs):
    con, sym = _split(xs)
    if any(con):
        return True
    return SymBool(E.zor([zbool(x) for x in sym])) if sym else False


def snot(x):
    return SymBool(E.znot(zbool(x))) if hasattr(x, "_sym") else not x


def simplies(a, b):
    return sor(snot(a), b)


def anf_of(o):
    if isinstance(o, Anf):
        return o
    if type(o) is Bit:
        return o.a
    if type(o) is LinBits:
        b = o % 2
        return anf_of(b)
    if type(o) is SymBool:
        return mk(bool(o))
    return mk(int(o) & 1)


class Bit:
    """A 0/1 value given by a GF(2) polynomial."""

    _sym = True
    __slots__ = ("a",)

    def __new__(cls, a):
        if E.CUR is not None and E.CUR.known:
            a = E.CUR.reduce(a)
        c = a.const()
        if c is not None:
            return c
        self = object.__new__(cls)
        self.a = a
        return self

    @property
    def __class__(self):
        return int

    def z3(self):
        return cur().z(self.a)

    def __bool__(self):
        return cur().decide_anf(self.a)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(int(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def _gf(o):
        if type(o) is Bit:
            return o.a
        if type(o) is SymBool:
            return mk(bool(o))
        if isinstance(o, bool) or (isinstance(o, int) and o in (0, 1)):
            return mk(int(o))
        return None

    def __xor__(self, o):
        g = self._gf(o)
        if g is None:
            return int(self) ^ o
        return Bit(self.a ^ g)

    __rxor__ = __xor__

    def __and__(self, o):
        g = self._gf(o)
        if g is None:
            return int(self) & o
        return Bit(self.a & g)

    __rand__ = __and__

    def __or__(self, o):
        g = self._gf(o)
        if g is None:
            return int(self) | o
        return Bit(self.a ^ g ^ (self.a & g))

    __ror__ = __or__

    def __eq__(self, o):
        g = self._gf(o)
        if g is None:
            if isinstance(o, (int, float)) and type(o) in (int, float):
                return False
            if type(o) in (LinBits,):
                return o == self
            if hasattr(o, "__index__"):
                return self.__eq__(int(o))
            return False
        return Bit(self.a ^ g ^ ONE)

    def __ne__(self, o):
        r = self.__eq__(o)
        if type(r) is Bit:
            return Bit(r.a ^ ONE)
        return not r

    def lin(self):
        return LinBits({self.a: 1}, 0)

    def __add__(self, o):
        return self.lin() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.lin() - o

    def __rsub__(self, o):
        return (-self.lin()) + o

    def __neg__(self):
        return -self.lin()

    def __mul__(self, o):
        if type(o) is Bit:
            return Bit(self.a & o.a)
        if isinstance(o, bool) or (type(o) is int):
            if o == 0:
                return 0
            if o == 1:
                return self
            return self.lin() * o
        return NotImplemented

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.lin() % o

    def __lt__(self, o):
        return self.lin() < o

    def __le__(self, o):
        return self.lin() <= o

    def __gt__(self, o):
        return self.lin() > o

    def __ge__(self, o):
        return self.lin() >= o

    def __rpow__(self, base):
        return base ** int(self)

    def __invert__(self):
        return ~int(self)

    def __repr__(self):
        return f"Bit({self.a})"

    def __format__(self, spec):
        return format(int(self), spec)


def bit(name):
    e = cur()
    return Bit(e.anf(name))


class LinBits:
    """Integer  const + sum coef * bit."""

    _sym = True
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t = {a: k for a, k in t.items() if k}
        self.c = c

    @property
    def __class__(self):
        return int

    def z3(self):
        # truthiness
        return self.zint() != 0

    def zint(self):
        e = cur()
        return z3.Sum([z3.IntVal(self.c)] + [z3.If(e.z(a), z3.IntVal(k), z3.IntVal(0)) for a, k in self.t.items()])

    def _coerce(self, o):
        if type(o) is LinBits:
            return o
        if type(o) is Bit:
            return o.lin()
        if isinstance(o, (bool, int)):
            return LinBits({}, int(o))
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for a, k in o.t.items():
            t[a] = t.get(a, 0) + k
        return LinBits(t, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return LinBits({a: -k for a, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is int:
            return LinBits({a: k * o for a, k in self.t.items()}, self.c * o)
        return NotImplemented

    __rmul__ = __mul__

    def __mod__(self, o):
        if o == 2:
            r = mk(self.c & 1)
            for a, k in self.t.items():
                if k & 1:
                    r = r ^ a
            return Bit(r)
        return int(self) % o

    def __and__(self, o):
        if o == 1:
            return self % 2
        return int(self) & o

    def _cmp(self, o, op):
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        d = self - o2
        if not d.t:
            return op(d.c, 0)
        return SymBool(op(d.zint(), 0))

    def __eq__(self, o):
        r = self._cmp(o, operator.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return self.c + sum(k * int(cur().decide_anf(a)) for a, k in self.t.items())

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __rpow__(self, base):
        return base ** int(self)

    def __repr__(self):
        return f"LinBits({self.t},{self.c})"


# ---------------------------------------------------------------------- sets
_BINARY_OP = dis.opmap.get("BINARY_OP")
_INPLACE = min((i for i, (n, _) in enumerate(getattr(dis, "_nb_ops", ())) if n.startswith("NB_INPLACE")), default=None)


def shared_inplace(o):
    """Is the running `a op= b` of the code under test an update of a plain set that something else refers to?

    Python hands such a statement to the reflected method of ``b``; binding ``a`` to a new symbolic set would
    lose the update, so the caller decides the memberships and changes the plain set itself."""
    if type(o) is not set or _INPLACE is None:
        return False
    f = sys._getframe(2)
    code, i = f.f_code.co_code, f.f_lasti
    if i < 0 or code[i] != _BINARY_OP or code[i + 1] < _INPLACE:
        return False
    return sys.getrefcount(o) > REFS_ALONE


REFS_ALONE = 5  # variable, operand stack, the two argument slots, getrefcount


def mutate(o, s, method):
    getattr(o, method)(set(s))
    return o


class SymSet(MutableSet):
    """A set over a finite universe with symbolic membership."""

    _sym = True

    def __init__(self, m=None, frozen=False):
        self.m = dict(m or {})
        self.frozen = frozen

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    # -- helpers
    @staticmethod
    def lift(o):
        if type(o) is SymSet:
            return o
        if isinstance(o, (set, frozenset, AbcSet)):
            return SymSet({x: ONE for x in o})
        if isinstance(o, (list, tuple)) or hasattr(o, "__iter__"):
            return SymSet({x: ONE for x in o})
        return None

    def mem(self, x):
        a = self.m.get(x)
        if a is None:
            return ZERO
        return cur().reduce(a)

    def _bin(self, o, f, cls_frozen=None):
        o = SymSet.lift(o)
        if o is None:
            return NotImplemented
        r = {}
        for x in list(self.m) + [y for y in o.m if y not in self.m]:
            v = f(self.mem(x), o.mem(x))
            if v.m:
                r[x] = v
        return SymSet(r, self.frozen if cls_frozen is None else cls_frozen)

    def z3(self):
        return z3.Or(*[cur().z(a) for a in self.m.values()]) if self.m else z3.BoolVal(False)

    def nonempty(self):
        return sor(*[Bit(a) for a in self.m.values()]) if self.m else False

    # -- algebra
    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b)

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a ^ b ^ (a & b))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a ^ (a & b))

    def __rxor__(self, o):
        return mutate(o, self, "symmetric_difference_update") if shared_inplace(o) else self ^ o

    def __rand__(self, o):
        return mutate(o, self, "intersection_update") if shared_inplace(o) else self & o

    def __ror__(self, o):
        return mutate(o, self, "update") if shared_inplace(o) else self | o

    def __rsub__(self, o):
        if shared_inplace(o):
            return mutate(o, self, "difference_update")
        o = SymSet.lift(o)
        return NotImplemented if o is None else o - self

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self.frozen:
            return r
        self.m = r.m
        return self

    def __ixor__(self, o):
        return self._inplace(self ^ o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def symmetric_difference(self, o):
        return self ^ o

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r if os else self.copy()

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def update(self, *os):
        for o in os:
            self.__ior__(o)

    def symmetric_difference_update(self, o):
        self.__ixor__(o)

    def difference_update(self, *os):
        for o in os:
            self.__isub__(o)

    def intersection_update(self, *os):
        for o in os:
            self.__iand__(o)

    def copy(self):
        return SymSet(self.m, self.frozen)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    # -- element access (fork)
    def __contains__(self, x):
        return cur().decide_anf(self.mem(x))

    def __iter__(self):
        for x in list(self.m):
            if cur().decide_anf(self.mem(x)):
                yield x

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        vals = [cur().reduce(a) for a in self.m.values()]
        vals = [a for a in vals if a.m]
        if not vals:
            return False
        if any(a.const() == 1 for a in vals):
            return True
        if len(vals) == 1:
            return cur().decide_anf(vals[0])
        return cur().decide_z(z3.Or(*[cur().z(a) for a in vals]))

    def add(self, x):
        self.m[x] = ONE

    def discard(self, x):
        self.m.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.m.pop(x, None)

    def pop(self):
        for x in self:
            self.m.pop(x)
            return x
        raise KeyError

    def clear(self):
        self.m = {}

    def concrete(self):
        s = [x for x in self]
        return frozenset(s) if self.frozen else set(s)

    def __eq__(self, o):
        if not (type(o) is SymSet or isinstance(o, (set, frozenset, AbcSet))):
            return False
        d = self ^ o
        v = [a for a in d.m.values()]
        if any(a.const() == 1 for a in v):
            return False
        if not v:
            return True
        if len(v) == 1:
            return Bit(v[0] ^ ONE)
        return SymBool(z3.Not(z3.Or(*[cur().z(a) for a in v])))

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r) if hasattr(r, "_sym") else not r

    def issubset(self, o):
        return not (self - o)

    def issuperset(self, o):
        o = SymSet.lift(o)
        return not (o - self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and not (self == o)

    def __gt__(self, o):
        return self.issuperset(o) and not (self == o)

    def isdisjoint(self, o):
        return not (self & o)

    def __hash__(self):
        return hash(frozenset(self.concrete()))

    def __repr__(self):
        return f"SymSet({self.m})"


def symset(name, universe):
    """A set with arbitrary membership over the universe."""
    e = cur()
    universe = list(universe)
    m = {x: e.anf(f"{name}.{x}") for x in universe}
    if e.mode in ("concrete", "eager"):
        return {x for x in universe if m[x].const() == 1}
    return SymSet(m)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls._base or o is cls

    def __hash__(cls):
        return hash(cls._base)

    def __getattr__(cls, name):  # set.union(a, b), frozenset.union(*sets), ...
        base = getattr(cls._base, name)

        def method(a, *os):
            if any(type(x) is SymSet for x in (a, *os)):
                return getattr(SymSet.lift(a), name)(*os)
            return base(a, *os)

        return method


def _members(it):
    if type(it) is SymSet:
        return it.m
    return None


class SetShim(metaclass=_SetMeta):
    """Stands for builtin ``set`` in the module under test: keeps SymSet lazy."""

    _base = set

    def __new__(cls, it=()):
        if type(it) is SymSet:
            return SymSet(it.m, False)
        return set(it)

    def __class_getitem__(cls, k):
        return set[k]


class FrozenSetShim(metaclass=_SetMeta):
    _base = frozenset

    def __new__(cls, it=()):
        if type(it) is SymSet:
            return SymSet(it.m, True)
        return frozenset(it)

    def __class_getitem__(cls, k):
        return frozenset[k]


def set_shims(*modules):
    """Make set()/frozenset() in these modules accept SymSet without forking."""
    for m in modules:
        m.set = SetShim
        m.frozenset = FrozenSetShim


# --------------------------------------------------------------------- reals
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    f = Fraction(x).limit_denominator(1 << 20)
    if abs(float(f) - x) > 1e-12:
        return Fraction(x)
    return f


class Real:
    """Linear form  c + sum k_i x_i  over real-valued symbolic atoms,
    optionally multiplied by pi (``rad``)."""

    _sym = True
    __slots__ = ("t", "c", "rad")

    def __init__(self, t, c=Fraction(0), rad=False):
        self.t = {a: k for a, k in t.items() if k}
        self.c = c
        self.rad = rad

    @property
    def __class__(self):
        return float

    def z3(self):
        return self.zr() != 0

    def zr(self):
        e = cur()
        if self.rad:
            raise Unsupported("value in radians in an arithmetic condition")
        return z3.Sum([z3.RealVal(str(self.c))] + [z3.RealVal(str(k)) * e.reals[a] for a, k in self.t.items()])

    def _co(self, o):
        if type(o) is Real:
            return o
        if type(o) is RoundInt:
            return o.asreal()
        if type(o) is bool or type(o) in (int, float, Fraction):
            if self.rad and o != 0:
                q = o / math.pi
                f = Fraction(q).limit_denominator(1 << 12)
                if abs(float(f) - q) > 1e-12:
                    raise Unsupported("non-pi constant with radians")
                return Real({}, f, True)
            return Real({}, frac(o), self.rad)
        import numpy as np

        if isinstance(o, np.number):
            return self._co(float(o))
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if o.rad != self.rad:
            raise Unsupported("mixing radians and plain")
        t = dict(self.t)
        for a, k in o.t.items():
            t[a] = t.get(a, 0) + k
        return Real(t, self.c + o.c, self.rad)

    __radd__ = __add__

    def __neg__(self):
        return Real({a: -k for a, k in self.t.items()}, -self.c, self.rad)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        if type(o) in (int, bool, Fraction):
            return Real({a: k * o for a, k in self.t.items()}, self.c * o, self.rad)
        if type(o) is float or type(o).__module__ == "numpy":
            o = float(o)
            q = o / math.pi
            f = Fraction(q).limit_denominator(64)
            if abs(float(f) - q) < 1e-14 and q != 0:
                if self.rad:
                    raise Unsupported("pi*pi")
                return Real({a: k * f for a, k in self.t.items()}, self.c * f, True)
            f = frac(o)
            return Real({a: k * f for a, k in self.t.items()}, self.c * f, self.rad)
        if type(o) is Bit:
            return self if o else 0.0
        if type(o) is complex:
            return ImagReal(self * o.imag) if o.real == 0 else NotImplemented
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is int:
            return self * Fraction(1, o)
        if type(o) is float:
            q = o / math.pi
            f = Fraction(q).limit_denominator(64)
            if self.rad and abs(float(f) - q) < 1e-14 and q != 0:
                g = 1 / f
                return Real({a: k * g for a, k in self.t.items()}, self.c * g, False)
            return self * (1 / frac(o))
        return NotImplemented

    def span(self):
        """Static bounds (lo, hi) of the value, or None."""
        iv = cur().ival
        lo = hi = self.c
        for n, k in self.t.items():
            b = iv.get(n)
            if b is None:
                return None
            lo += k * (b[0] if k > 0 else b[1])
            hi += k * (b[1] if k > 0 else b[0])
        return lo, hi

    def __mod__(self, o):
        # value - o * floor(value / o)
        if type(o) not in (int, float):
            return NotImplemented
        q = frac(o)
        if not self.t:
            return float(self.c % q)
        if self.rad:
            raise Unsupported("mod in radians")
        fl = self._floor(q)
        return Real(self.t, self.c - q * fl)

    def _floor(self, q=Fraction(1)):
        """Concretise floor(self/q) by forking over the feasible integers."""
        e = cur()
        b = None if self.rad else self.span()
        if b is not None and b[0] // q == b[1] // q:
            return int(b[0] // q)
        expr = self.zr() / z3.RealVal(str(q))
        k = 0
        # search outwards from 0
        for mag in range(0, 64):
            for k in ([0] if mag == 0 else [mag, -mag]):
                if e.decide_z(z3.And(expr >= k, expr < k + 1)):
                    return k
        raise Unsupported("floor out of range")

    def __floor__(self):
        return self._floor()

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        e = cur()
        # round-half-even only matters at exact halves; fork on the integer
        b = None if self.rad else self.span()
        if b is not None:
            k = round((b[0] + b[1]) / 2)
            if k - Fraction(1, 2) < b[0] and b[1] < k + Fraction(1, 2):
                return k
        expr = self.zr()
        for mag in range(0, 64):
            for k in ([0] if mag == 0 else [mag, -mag]):
                half = z3.RealVal("1/2")
                lo = expr >= k - half if k % 2 == 0 else expr > k - half
                hi = expr <= k + half if k % 2 == 0 else expr < k + half
                if e.decide_z(z3.And(lo, hi)):
                    return k
        raise Unsupported("round out of range")

    def _cmp(self, o, op):
        if self.rad and type(o) in (int, float, Fraction) and o:  # a number of radians: o/pi as its double
            o = Real({}, Fraction(o / math.pi), True)
        o = self._co(o)
        if o is None:
            return NotImplemented
        d = self - o
        if not d.t:
            return op(d.c, 0)
        b = d.span()
        if b is not None:
            if b[0] > 0:
                return op(1, 0)
            if b[1] < 0:
                return op(-1, 0)
        d = Real(d.t, d.c, False)
        return SymBool(op(d.zr(), 0))

    def __eq__(self, o):
        r = self._cmp(o, operator.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return self if self >= 0 else -self

    def __float__(self):
        if not self.t:
            return float(self.c) * (math.pi if self.rad else 1)
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.c, self.rad))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")

    def cos(self):
        return trig(self, "c")

    def sin(self):
        return trig(self, "s")

    def __repr__(self):
        if getattr(E.CUR, "repr_tokens", False):
            return format(self)
        return f"Real({self.t},{self.c}{',rad' if self.rad else ''})"

    def __format__(self, spec):
        from .text import token

        return token(self)

    def __str__(self):
        return format(self)


class ImagReal:
    """i times a Real (argument of an exponential)."""

    __slots__ = ("r",)
    _sym = True

    def __init__(self, r):
        self.r = r

    @property
    def __class__(self):
        return complex

    def __neg__(self):
        return ImagReal(-self.r)

    def __mul__(self, o):
        return ImagReal(self.r * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return ImagReal(self.r / o)

    def exp(self):
        r = self.r
        c, s = trig(r, "c"), trig(r, "s")
        return c + s * 1j


class RoundInt:  # placeholder for isinstance tests
    pass


def real(name, lo=None, hi=None):
    """A symbolic real atom with bounds lo <= x < hi."""
    e = cur()
    if e.mode == "concrete":
        return float(e.model.get(name, 0.0))
    v = e.reals.get(name)
    if v is None:
        v = z3.Real(name)
        e.reals[name] = v
        if lo is not None and hi is not None:
            e.ival[name] = (Fraction(lo), Fraction(hi))
        if lo is not None:
            e.add(v >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            e.add(v < z3.RealVal(str(Fraction(hi))))
    return Real({name: Fraction(1)})


PAULI_GAP = Fraction(1, 10**6)


def angle(name, lo=0, hi=2):
    """A generic angle in [lo, hi) at least 1e-6 away from every multiple of 1/2."""
    e = cur()
    fresh = e.mode != "concrete" and name not in e.reals
    r = real(name, lo, hi)
    if e.mode == "concrete":
        return r
    if fresh:
        v = e.reals[name]
        k = math.ceil(2 * lo)
        while k <= 2 * hi:
            c = Fraction(k, 2)
            e.add(z3.Or(v <= z3.RealVal(str(c - PAULI_GAP)), v >= z3.RealVal(str(c + PAULI_GAP))))
            k += 1
    return r


# trigonometric polynomials with complex numeric coefficients -----------------
# monomial: tuple of ((atom, e_c, e_s), ...) meaning prod cos(pi a)^e_c sin(pi a)^e_s
# with e_s in {0,1} (sin^2 rewritten).


def _norm_mul(m1, m2):
    """Product of two monomials -> dict of monomials."""
    d = {}
    for a, c, s in m1:
        d[a] = [c, s]
    for a, c, s in m2:
        if a in d:
            d[a][0] += c
            d[a][1] += s
        else:
            d[a] = [c, s]
    res = {(): 1.0}
    for a in sorted(d):
        c, s = d[a]
        terms = {(c, s): 1.0}
        while any(ss >= 2 for (_, ss) in terms):
            nt = {}
            for (cc, ss), k in terms.items():
                if ss >= 2:
                    nt[(cc, ss - 2)] = nt.get((cc, ss - 2), 0) + k
                    nt[(cc + 2, ss - 2)] = nt.get((cc + 2, ss - 2), 0) - k
                else:
                    nt[(cc, ss)] = nt.get((cc, ss), 0) + k
            terms = nt
        nres = {}
        for m, k in res.items():
            for (cc, ss), kk in terms.items():
                key = m + ((a, cc, ss),) if (cc or ss) else m
                nres[key] = nres.get(key, 0) + k * kk
        res = nres
    return res


class TPoly:
    """Polynomial in cos/sin of the atoms with complex coefficients."""

    __slots__ = ("d",)

    def __truediv__(self, o):
        if isinstance(o, (int, float, complex, Fraction)):
            return self * (1 / o)
        if type(o) is TPoly:
            from .cnum import from_trig

            return from_trig(self) / from_trig(o)
        return NotImplemented

    def conjugate(self):
        return TPoly({m: k.conjugate() if isinstance(k, complex) else k for m, k in self.d.items()})

    def __float__(self):
        raise E.Unsupported("float() of a symbolic value")

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(x):
        return TPoly({(): complex(x)}) if x else TPoly({})

    def __add__(self, o):
        if not isinstance(o, TPoly):
            if hasattr(o, "_cx") or isinstance(o, np.ndarray):
                return NotImplemented
            o = TPoly.const(o)
        r = dict(self.d)
        for m, k in o.d.items():
            v = r.get(m, 0) + k
            if abs(v) < 1e-14:
                r.pop(m, None)
            else:
                r[m] = v
        return TPoly(r)

    __radd__ = __add__

    def __neg__(self):
        return TPoly({m: -k for m, k in self.d.items()})

    def __sub__(self, o):
        if hasattr(o, "_cx") or isinstance(o, np.ndarray):
            return NotImplemented
        return self + (-o if isinstance(o, TPoly) else TPoly.const(-o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, TPoly):
            if hasattr(o, "_cx") or isinstance(o, np.ndarray):
                return NotImplemented
            return TPoly({m: k * o for m, k in self.d.items()} if o else {})
        r = {}
        for m1, k1 in self.d.items():
            for m2, k2 in o.d.items():
                if not m1:
                    pr = {m2: 1.0}
                elif not m2:
                    pr = {m1: 1.0}
                else:
                    pr = _norm_mul(m1, m2)
                for m, k in pr.items():
                    r[m] = r.get(m, 0) + k * k1 * k2
        return TPoly({m: k for m, k in r.items() if abs(k) > 1e-14})

    __rmul__ = __mul__


_trig_cache = {}


def trig_poly(form, c, which):
    """cos/sin(pi*(c + sum k a)) as TPoly; form: dict atom->Fraction (integer multiples
    of the base unit 1/q are handled by using atom units a/q)."""
    key = (tuple(sorted(form.items())), c % 2, which, UNIT_DEN)
    r = _trig_cache.get(key)
    if r is not None:
        return r
    # e^{i pi form}
    cc, ss = TPoly.const(math.cos(math.pi * float(c % 2))), TPoly.const(math.sin(math.pi * float(c % 2)))
    if (c * 2).denominator == 1:
        j = int(c * 2) % 4
        cc = TPoly.const((1, 0, -1, 0)[j])
        ss = TPoly.const((0, 1, 0, -1)[j])
    for a, k in sorted(form.items()):
        kk = k * UNIT_DEN
        if kk.denominator != 1:
            raise Unsupported(f"angle coefficient {k} finer than unit 1/{UNIT_DEN}")
        unit = a
        n = abs(kk.numerator)
        sg = 1 if k > 0 else -1
        ca, sa = TPoly({((unit, 1, 0),): 1.0 + 0j}), TPoly({((unit, 0, 1),): complex(sg)})
        for _ in range(n):
            cc, ss = cc * ca - ss * sa, ss * ca + cc * sa
    _trig_cache[(key[0], key[1], "c", UNIT_DEN)] = cc
    _trig_cache[(key[0], key[1], "s", UNIT_DEN)] = ss
    return cc if which == "c" else ss


def trig(r, which):
    if not r.rad and (r.t or r.c):
        raise Unsupported("trig of a value not in radians")
    if not r.t:
        v = math.pi * float(r.c)
        return math.cos(v) if which == "c" else math.sin(v)
    return TPoly(dict(trig_poly(r.t, r.c, which).d))


# patches of the math module for symbolic arguments ---------------------------
_orig = {}


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if type(a) is Real or type(b) is Real:
        ra = a if type(a) is Real else Real({}, frac(a))
        d = ra - b
        if not d.t:
            return _orig["isclose"](float(d.c), 0.0, rel_tol=rel_tol, abs_tol=max(abs_tol, 1e-12))
        sd = d.span()
        if sd is not None and not ra.rad:
            sa = ra.span()
            m = max(abs(sa[0]), abs(sa[1])) + max(abs(sd[0]), abs(sd[1])) if sa else None
            gap = sd[0] if sd[0] > 0 else -sd[1] if sd[1] < 0 else 0
            if m is not None and gap > max(Fraction(rel_tol) * m, Fraction(abs_tol)):
                return False
        d = Real(d.t, d.c, False)
        za = ra.zr()
        zb = (b.zr() if type(b) is Real else z3.RealVal(str(frac(b))))
        ab = lambda x: z3.If(x >= 0, x, -x)
        mx = z3.If(ab(za) >= ab(zb), ab(za), ab(zb))
        rt = z3.RealVal(str(Fraction(rel_tol)))
        at = z3.RealVal(str(Fraction(abs_tol)))
        tol = z3.If(rt * mx >= at, rt * mx, at)
        return SymBool(ab(d.zr()) <= tol)
    if type(a) in (Bit, LinBits) or type(b) in (Bit, LinBits):
        return a == b
    return _orig["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def patch_math():
    if _orig:
        return
    for n in ("isclose", "cos", "sin"):
        _orig[n] = getattr(math, n)
    math.isclose = _isclose

    def cos(x):
        return trig(x, "c") if type(x) is Real else _orig["cos"](x)

    def sin(x):
        return trig(x, "s") if type(x) is Real else _orig["sin"](x)

    math.cos = cos
    math.sin = sin
    import cmath

    cexp = cmath.exp
    cmath.exp = lambda z: z.exp() if type(z) is ImagReal else cexp(z)
UNIT_DEN = 1
