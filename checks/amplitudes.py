"""Printed numbers, statevectors and density matrices denote the printed value (P36).

graphix.pretty_print runs on symbolic reals; decimals print as tokens.  The text is read back by an own parser (sums of
coefficients and kets) and z3 compares the value read with the value given, for all reals on the path.
"""

from __future__ import annotations

import builtins
import math
import re
import types
from fractions import Fraction

import graphix.pretty_print as pp
import numpy as np
from graphix.parameter import Placeholder
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector

from symx.proxy import SymBool, cur, real

from .common import *  # noqa: F403

z3 = engine.z3
Unsupported = engine.Unsupported
OUT = pp.OutputFormat

# lowest terms; the recognised values are one of these (times -1), or none of them
RATS = [(0, 1), (1, 1), (1, 2), (2, 3), (3, 4), (3, 5), (4, 5), (2, 1)]
SQS = [(0, 1), (1, 2), (3, 4), (3, 16), (8, 9), (2, 1), (12, 1), (2, 3)]
ANGLES = [(1, 4), (-1, 4), (2, 3), (-1, 3), (-5, 6), (1, 5), (3, 1999)]


def rv(x):
    return z3.RealVal(str(Fraction(x)))


class Num:
    """A symbolic real number: any z3 term, with an interval if known."""

    _sym = True
    __slots__ = ("t", "iv")

    def __init__(self, t, iv=None):
        self.t, self.iv = t, iv

    @property
    def __class__(self):
        return float

    @staticmethod
    def of(o):
        if type(o) is Num:
            return o.t
        if type(o) is Frac:
            return Num.of(o.value)
        if isinstance(o, (int, float, Fraction, np.floating, np.integer)):
            return rv(o if isinstance(o, (int, Fraction)) else float(o))
        return None

    @staticmethod
    def ivof(o):
        if type(o) is Num:
            return o.iv
        if type(o) is Frac:
            return Num.ivof(o.value)
        return (Fraction(o), Fraction(o))

    def _bin(self, o, f, div=None):
        t = Num.of(o)
        if t is None:
            return NotImplemented
        a, b, iv = self.iv, Num.ivof(o), None
        if a and b:
            if div and (b if div == 1 else a)[0] <= 0 <= (b if div == 1 else a)[1]:
                iv = None
            else:
                ends = [f(x, y) for x in a for y in b]
                iv = min(ends), max(ends)
        return Num(f(self.t, t), iv)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, 1)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    __rmul__ = __mul__

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a, 2)

    def __neg__(self):
        return Num(-self.t, self.iv and (-self.iv[1], -self.iv[0]))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def _cmp(self, o, f):
        t = Num.of(o)
        if t is None:
            return NotImplemented
        a, b = self.iv, Num.ivof(o)
        if a and b and (a[1] < b[0] or b[1] < a[0]):
            return f(a[0], b[0])
        return SymBool(f(self.t, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return bool(self != 0)

    def __format__(self, spec):
        e = cur()
        neg = bool(self < 0)
        e.tokens.append((-self if neg else self, spec.lstrip("+- ")))
        return ("-" if neg else "+" if spec.startswith("+") else "") + f"{TOKEN + len(e.tokens) - 1}.0"

    def __repr__(self):
        return self.__format__("")

    __str__ = __repr__


class Frac:
    """The result of limit_denominator: numerator and denominator are known, or it is not close to the number."""

    def __init__(self, value, num=None, den=None):
        self.value, self.num, self.den = value, num, den

    def known(self):
        if self.num is None:
            raise Unsupported("a fraction outside the stated pool")
        return self

    numerator = property(lambda s: s.known().num)
    denominator = property(lambda s: s.known().den)

    def __eq__(self, o):
        return Fraction(self.num, self.den) == o if self.num is not None else False

    __hash__ = None

    def __lt__(self, o):
        return Fraction(self.known().num, self.den) < o

    def __gt__(self, o):
        return Fraction(self.known().num, self.den) > o

    def __abs__(self):
        return Frac(abs(Fraction(self.known().num, self.den)), abs(self.num), self.den)

    def __float__(self):
        return self.num / self.known().den


class Exact:
    """Fraction(x) of a symbolic x."""

    def __init__(self, x):
        self.x = x

    def limit_denominator(self, m=1000000):
        e = cur()
        k = e.nfrac = getattr(e, "nfrac", -1) + 1
        pool = [(s * n, d) for n, d in e.pool for s in ((1, -1) if n else (1,)) if d <= m]
        if iv := self.x.iv:
            w = {nd: (Fraction(*nd) - Fraction(1, 2 * nd[1] * m), Fraction(*nd) + Fraction(1, 2 * nd[1] * m)) for nd in pool}
            pool = [nd for nd in pool if iv[0] < w[nd][1] and w[nd][0] < iv[1]]
            rest = [] if any(w[nd][0] < iv[0] and iv[1] < w[nd][1] for nd in pool) else [None]
        else:
            rest = [None]
        c = e.choose(f"frac{k}", [*pool, *rest])
        half = [z3.And(self.x.t - rv(Fraction(n, d)) < rv(Fraction(1, 2 * d * m)), self.x.t - rv(Fraction(n, d)) > -rv(Fraction(1, 2 * d * m))) for n, d in pool]
        if c is None:
            for h in half:
                e.add(z3.Not(h))
            return Frac(None)  # another fraction: it is not close to x
        e.add(half[pool.index(c)])
        return Frac(Fraction(*c), *c)


class Theta:
    """atan2 of a symbolic number with a known direction, or of one without a simple direction."""

    def __init__(self, nd):
        self.nd = nd

    def __truediv__(self, o):
        if o != math.pi:
            raise Unsupported("angle over something else than pi")
        return Ratio(self.nd)

    def num(self):
        if self.nd is None:
            raise Unsupported("comparison of an unknown angle")
        return self.nd[0] / self.nd[1] * (1 if type(self) is Ratio else math.pi)

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __neg__(self):
        return type(self)(self.nd and (-self.nd[0], self.nd[1]))

    def __abs__(self):
        return type(self)(self.nd and (abs(self.nd[0]), self.nd[1]))


class Ratio(Theta):
    pass


def fraction(x, *a):
    if type(x) is Num:
        return Exact(x)
    if type(x) is Ratio:
        nd = x.nd

        class L:
            def limit_denominator(self, m=1000000):
                if nd is None or nd[1] > m:
                    return Frac(None)
                return Frac(Fraction(*nd), *nd)

        return L()
    return Fraction(x, *a)


def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if type(b) is Ratio or type(a) is Ratio:
        r, f = (a, b) if type(a) is Ratio else (b, a)
        return type(f) is not Far and r.nd is not None
    if type(a) is Far or type(b) is Far:
        return False
    if type(a) is not Num and type(b) is not Num:
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = Num.of(a), Num.of(b)
    i, j = Num.ivof(a), Num.ivof(b)
    if i and j:
        worst = 2 * Fraction(max(abs_tol, rel_tol * float(max(map(abs, i + j)))))
        if i[1] + worst < j[0] or j[1] + worst < i[0]:
            return False
    d = x - y
    tol = [rv(abs_tol)]
    if rel_tol:
        tol += [rv(rel_tol) * t for t in (x, -x, y, -y)]

    def within(f):
        f = rv(f)
        return z3.And(z3.Or(*[d <= f * t for t in tol]), z3.Or(*[-d <= f * t for t in tol]))

    r = bool(SymBool(within(1)))
    # rounding decides next to the limit
    cur().add(within("999/1000") if r else z3.Not(within("1001/1000")))
    return r


class Far:
    """float of a fraction that is not close."""


class SymFloat(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)


class FloatShim(metaclass=SymFloat):
    def __new__(cls, x=0.0):
        if type(x) is Frac:
            return Far() if x.value is None else x.num / x.den
        return x if type(x) in (Num, Ratio, Far) else builtins.float(x)


class SymComplexMeta(type):
    def __instancecheck__(cls, o):
        return type(o) is Z or isinstance(o, builtins.complex)


class ComplexShim(metaclass=SymComplexMeta):
    def __new__(cls, x=0, y=0):
        if type(x) is Z:
            return x
        if type(x) is Num:
            return Z(x, Num(rv(0)))
        return builtins.complex(x, y)


class Z:
    """A symbolic complex number, with its direction (n, d) in units of pi and radius if known."""

    _sym = True

    def __init__(self, re, im, nd=None, rad=None, what=""):
        self.real, self.imag, self.nd, self.rad, self.what = re, im, nd, rad, what

    def __complex__(self):
        raise Unsupported("complex()")

    def __abs__(self):
        return hypot(self.real, self.imag, self)

    def __truediv__(self, r):
        e = cur()
        me = abs(self)
        k = e.nquot = getattr(e, "nquot", -1) + 1

        def quot(name, x, lo):
            if type(x) is not Num or z3.is_rational_value(x.t) and x.t.as_fraction() == 0:
                return Num(rv(0), (Fraction(0), Fraction(0)))
            if type(r) is Num and x.t.eq(r.t):
                return Num(rv(1), (Fraction(1), Fraction(1)))
            q = Num(real(name, lo, 10**6).zr(), (x / r).iv if x.iv and Num.ivof(r) else None)
            if q.iv:
                e.add(q.t >= rv(q.iv[0]))
                e.add(q.t <= rv(q.iv[1]))
            e.add(q.t * Num.of(r) == x.t)
            return q

        q = quot(f"q{k}", me, 0)
        if self.nd is not None:
            return polar(self.nd, q)
        z = Z(quot(f"q{k}r", self.real, -10**6), quot(f"q{k}i", self.imag, -10**6), None, q)
        e.zs.append(z)
        return z


def polar(nd, r):
    th = math.pi * nd[0] / nd[1]
    return Z(r * math.cos(th), r * math.sin(th), nd, r)


def find(re, im):
    for z in cur().zs:
        if (z.real is re or z.real.t.eq(re.t)) and (z.imag is im or z.imag.t.eq(im.t)):
            return z
    return None


def hypot(re, im, z=None):
    if type(re) is not Num and type(im) is not Num:
        return math.hypot(re, im)
    e = cur()
    z = z or find(re, im)
    if z is not None and z.rad is not None:
        return z.rad
    for a, b in ((re, im), (im, re)):
        if (type(a) is not Num and a == 0 or type(a) is Num and z3.is_rational_value(a.t) and a.t.as_fraction() == 0) and type(b) is Num and b.iv and b.iv[0] * b.iv[1] > 0:
            r = b if b.iv[0] > 0 else -b
            if z is not None:
                z.rad = r
            return r
    k = e.nhyp = getattr(e, "nhyp", -1) + 1
    r = Num(real(f"hyp{k}", 0, 10**6).zr())
    e.add(r.t * r.t == Num.of(re) * Num.of(re) + Num.of(im) * Num.of(im))
    if z is not None:
        z.rad = r
    return r


def atan2(im, re):
    if type(re) is not Num and type(im) is not Num:
        return math.atan2(im, re)
    e = cur()
    z = find(re, im)
    if z is not None and z.nd is not None:
        return Theta(z.nd)
    # no simple direction
    x, y = Num.of(re), Num.of(im)
    for n, d in ANGLES + [(0, 1), (1, 1), (1, 2), (-1, 2), (1, 3), (-2, 3), (3, 4), (-3, 4), (1, 6), (5, 6), (-1, 6)]:
        th = math.pi * n / d
        c, s = rv(math.cos(th)), rv(math.sin(th))
        cr = y * c - x * s
        e.add(z3.Or(cr > rv("1/100000"), cr < rv("-1/100000"), x * c + y * s <= 0))
    return Theta(None)


SHIMMED = {}


def setup(e, pool="rats"):
    e.tokens, e.zs = [], []
    if e.mode == "concrete":
        pp.math, pp.Fraction, pp.__dict__["pi"] = math, Fraction, math.pi
        vars(pp).update(SHIMMED)
        pp.__dict__.pop("float", None)
        pp.__dict__.pop("complex", None)
        return
    e.pool = POOLS[pool]
    m = types.SimpleNamespace(**{k: getattr(math, k) for k in dir(math) if not k.startswith("_")})
    m.isclose, m.hypot, m.atan2 = isclose, hypot, atan2
    pp.math, pp.Fraction = m, fraction
    for k, v in list(vars(pp).items()):  # functions imported by name
        for f, g in ((math.isclose, isclose), (math.hypot, hypot), (math.atan2, atan2)):
            if v is f:
                SHIMMED[k] = f
                setattr(pp, k, g)
    pp.float, pp.complex = FloatShim, ComplexShim


POOLS = {"rats": RATS + [x for x in SQS if x not in RATS], "few": [(0, 1), (1, 1), (1, 2), (3, 5), (4, 5)]}


# ------------------------------------------------------------------ numbers
NEAR = Fraction(1, 20000)


def mk_real(e, name, lo=-30, hi=30, near=None):
    """With near: a number next to one of those given."""
    if near:
        c = Fraction(*e.choose(name + ".near", near)).limit_denominator(10**8)
        lo, hi = c - NEAR, c + NEAR
    x = real(name, lo, hi)
    return x if e.mode == "concrete" else Num(x.zr(), (lo, hi) if near else None)


def mk_z(e, name, kinds, near=None):
    """A complex number of a chosen kind: (value given to the code, (re, im) of the reference)."""
    k = e.choose(f"{name}.kind", kinds)
    conc = e.mode == "concrete"
    if k == "cart":
        re, im = mk_real(e, name + "r", near=near), mk_real(e, name + "i", near=near)
    elif k == "real":
        re, im = mk_real(e, name + "r", near=near), 0
    elif k == "imag":
        re, im = 0, mk_real(e, name + "i", near=near)
    elif isinstance(k, complex):
        re, im = k.real, k.imag
    else:
        r = mk_real(e, name + "a", Fraction(1, 10**6), near=[x for x in near if x[0] > 0] if near else None)
        th = math.pi * k[0] / k[1]
        if conc:
            re, im = r * math.cos(th), r * math.sin(th)
        else:
            z = polar(k, r)
            e.zs.append(z)
            return z, (z.real, z.imag)
    if conc:
        return complex(re, im), (re, im)
    re, im = (x if type(x) is Num else Num(rv(x)) for x in (re, im))
    z = Z(re, im)
    e.zs.append(z)
    return z, (re, im)


# ------------------------------------------------------------------ own reader
class ParseError(Exception):
    pass


TOKEN = 7_000_000  # a decimal stands for the number: 7000003.0 for the fourth one printed
LEX = re.compile(r"\s*(?:(7\d{6})\.0|(\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(\\frac|\\sqrt|\\mathrm\{e\}|\\mathrm\{i\}|\\pi|\\ket\{[01]*\}|\|[01]*[⟩>]|sqrt|alpha|pi|√|π|i|e)|([-+*/·^(){}]))")


class Reader:
    """Values: ({ket or None: (re, im)}); a number has the key None only."""

    def __init__(self, text, precision):
        self.toks, i, self.dens, self.decimal = [], 0, [], False
        self.precision = precision
        while i < len(text):
            m = LEX.match(text, i)
            if not m:
                if not text[i:].strip():
                    break
                raise ParseError(f"unreadable: {text[i:]!r}")
            t, n, w, c = m.groups()
            if t:
                v, spec = cur().tokens[int(t) - TOKEN]
                if spec != f".{precision}g":
                    raise ParseError(f"format {spec!r} although the precision is {precision}")
                self.toks.append(("n", v))
            elif n:
                self.toks.append(("n", float(n) if "." in n or "e" in n else int(n)))
            else:
                self.toks.append(("s", w or c))
            i = m.end()
        self.i = 0

    def coarse(self, s):
        """Integers can be rounded decimals, too."""
        self.decimal |= not any(x in s for x in ("/", "sqrt", "√", "frac"))

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def take(self, *s):
        if self.peek()[0] == "s" and self.peek()[1] in s:
            self.i += 1
            return self.toks[self.i - 1][1]
        return None

    def need(self, s):
        if not self.take(s):
            raise ParseError(f"{s!r} expected, not {self.peek()[1]!r}")

    def parse(self):
        v = self.sum()
        if self.i < len(self.toks):
            raise ParseError(f"unexpected {self.peek()[1]!r}")
        return v

    def sum(self):
        v = self.term(self.take("-"))
        while op := self.take("+", "-"):
            w = self.term(op == "-" or None) if not (op == "+" and self.take("-")) else self.term(True)
            if (None in v) != (None in w):
                raise ParseError("a sum of a number and a ket")
            v = {k: add(v.get(k, (0, 0)), w.get(k, (0, 0))) for k in {**v, **w}}
        return v

    def term(self, neg):
        v = self.factor()
        while True:
            if self.take("*", "·"):
                v = mul(v, self.factor())
            elif self.take("/"):
                v = self.div(v, self.factor())
            elif self.peek()[0] is None or self.peek()[1] in ("+", "-", ")", "}") and self.peek()[0] == "s":
                break
            else:
                v = mul(v, self.factor())
        return {k: (-x, -y) for k, (x, y) in v.items()} if neg else v

    def div(self, a, b):
        if set(b) != {None} or b[None][1] != 0 or not isinstance(b[None][0], int) or b[None][0] <= 0:
            raise ParseError("a denominator that is no positive integer")
        d = b[None][0]
        self.dens.append(d)
        return {k: (divn(x, d), divn(y, d)) for k, (x, y) in a.items()}

    def factor(self):
        kind, t = self.peek()
        if kind is None:
            raise ParseError("something is missing at the end")
        self.i += 1
        if kind == "n":
            self.decimal |= isinstance(t, builtins.float) and type(t) is not Num
            return {None: (t, 0)}
        if t in ("i", r"\mathrm{i}"):
            return {None: (0, 1)}
        if t in ("pi", "π", r"\pi"):
            return {None: (math.pi, 0)}
        if t == "alpha":
            return {None: (ALPHA, 0)}
        if t[0] in "|" or t.startswith(r"\ket"):
            return {re.sub(r"[^01]", "", t): (1, 0)}
        if t in ("(", "{"):
            v = self.sum()
            self.need(")" if t == "(" else "}")
            return v
        if t in ("sqrt", r"\sqrt", "√"):
            if t != "√":
                self.need("(" if t == "sqrt" else "{")
            kind, n = self.peek()
            if kind != "n" or not isinstance(n, int) or n < 2:
                raise ParseError("the root of something else than an integer")
            self.i += 1
            if t != "√":
                self.need(")" if t == "sqrt" else "}")
            if any(n % (k * k) == 0 for k in range(2, math.isqrt(n) + 1)):
                raise ParseError(f"the root of {n} can be simplified")
            return {None: (math.sqrt(n), 0)}
        if t == r"\frac":
            self.need("{")
            a = self.sum()
            self.need("}")
            self.need("{")
            b = self.sum()
            self.need("}")
            return self.div(a, b)
        if t in ("e", r"\mathrm{e}"):
            self.need("^")
            o = self.take("(", "{")
            if o is None:
                raise ParseError("no exponent")
            keep = self.decimal
            a = self.sum()
            self.decimal = keep
            self.need(")" if o == "(" else "}")
            if set(a) != {None} or a[None][0] != 0 or not isinstance(a[None][1], (int, float)):
                raise ParseError("an exponent that is not imaginary")
            th = a[None][1]
            return {None: (math.cos(th), math.sin(th))}
        raise ParseError(f"unexpected {t!r}")


ALPHA = 0.3125


def divn(x, d):
    return Fraction(x, d) if isinstance(x, int) and type(x) is not Num else x / d


def add(a, b):
    return a[0] + b[0], a[1] + b[1]


def mul(a, b):
    if None not in a and None not in b:
        raise ParseError("a product of kets")
    if None in a and None in b:
        return {None: mulc(a[None], b[None])}
    if None in a:
        a, b = b, a
    return {k: mulc(v, b[None]) for k, v in a.items()}


def times(x, y):
    if (not isinstance(x, builtins.float) and x == 0) or (not isinstance(y, builtins.float) and y == 0):
        return 0
    return float(x) * y if isinstance(x, Fraction) and type(y) is builtins.float else y * float(x) if isinstance(y, Fraction) and type(x) is builtins.float else x * y


def mulc(a, b):
    return times(a[0], b[0]) - times(a[1], b[1]), times(a[0], b[1]) + times(a[1], b[0])


def close(e, got, want, atol, rtol, decimal, precision, msg):
    """The number read is the number given, up to the tolerances asked for."""
    if e.mode == "concrete":
        mag = max(abs(float(x)) for x in want)
        for g, w in zip(got, want):
            g, w = float(g), float(w)
            tol = atol * 1.02 + 1e-11 + rtol * 1.02 * max(abs(g), abs(w), mag) + (4 * mag * 10.0 ** (1 - precision) if decimal else 0)
            e.check(abs(g - w) <= tol or g * w >= 0 and abs(g * g - w * w) <= max(atol, rtol * w * w) * 1.02 + 1e-11, f"{msg}: {g} for {w}")
        return
    tol0 = rv(atol * 1.01 + 1e-11)
    alls = [t for w in want for t in (Num.of(w), -Num.of(w))]
    for g, w in zip(got, want):
        g, w = Num.of(g), Num.of(w)
        tols = [tol0] if not rtol else [tol0 + rv(rtol * 1.01) * t for t in (g, -g, *alls)]
        d = g - w
        lin = z3.And(z3.Or(*[d <= t for t in tols]), z3.Or(*[-d <= t for t in tols]))
        q = g * g - w * w
        sq = [tol0] + ([rv(rtol * 1.01) * w * w] if rtol else [])
        e.check_z(z3.Or(lin, z3.And(g * w >= 0, z3.Or(*[q <= t for t in sq]), z3.Or(*[-q <= t for t in sq]))), msg)


def read(e, text, precision):
    try:
        r = Reader(text, precision)
        return r, r.parse()
    except ParseError as ex:
        e.check(False, f"{text!r} cannot be read: {ex}")


def lowest(e, text):
    """Fractions in lowest terms."""
    for m in re.finditer(r"(?<![\d.])(\d*)(?:i|\\mathrm\{i\})?(?:√\d+|sqrt\(\d+\)|\\sqrt\{\d+\})?(?:/|\}\{)(\d+)", text):
        e.check(math.gcd(int(m[1] or 1), int(m[2])) == 1, f"{text!r} is not in lowest terms")


def digits_ok(e, text, precision):
    if e.mode == "concrete":
        text = re.sub(r"\^[({].*?[)}]+", "", text)
        for m in re.finditer(r"(\d+)\.(\d+)(e[-+]?\d+)?", text):
            e.check(len((m[1] + m[2]).lstrip("0")) <= precision, f"{text!r} has more than {precision} digits")


def h_number(e, kinds, pool, opts, near=None):
    setup(e, pool)
    z, want = mk_z(e, "z", kinds, near)
    atol, rtol, md, prec = e.choose("opts", opts)
    out = e.choose("out", [OUT.ASCII, OUT.Unicode, OUT.LaTeX])
    kw = {} if (atol, rtol, md, prec) == DEF else dict(max_denominator=md, atol=atol, rtol=rtol, precision=prec)
    s = pp.complex_to_str(z, out, **kw)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((z, out.name, s, kw))
    r, v = read(e, s, prec)
    r.coarse(s)
    e.check(set(v) == {None}, "a number prints as a state")
    digits_ok(e, s, prec)
    lowest(e, s)
    close(e, v[None], want, atol, rtol, r.decimal, prec, "complex_to_str: another number")
    if "sqrt" not in s and "√" not in s:
        e.check(all(d <= md for d in r.dens), "complex_to_str: a denominator above the maximum")
    # one part only when the other is negligible
    if r.toks and not any(t[1] in ("i", r"\mathrm{i}") for t in r.toks):
        close(e, (0, v[None][1]), (0, want[1]), atol, 0, r.decimal, prec, "complex_to_str: the imaginary part is missing")


DEF = (1e-9, 0.0, 1000, 4)


class FakeSV:
    def __init__(self, e, amps):
        self.e, self.amps = e, amps

    def to_dict(self, encoding="MSB", rtol=0, atol=0):
        self.args = (encoding, rtol, atol)
        return dict(self.amps)


class Alpha:
    """A symbolic parameter: prints its name, is no number."""


def h_state(e, kets, kinds, pool, opts=(DEF,), par=False, near=None):
    setup(e, pool)
    amps, want = {}, {}
    for i, k in enumerate(kets):
        if par and e.choose(f"par{i}", [0, 1]):
            a = Placeholder("alpha")
            ex, val = e.choose(f"ex{i}", [(a, ALPHA), (2 * a + 1, 2 * ALPHA + 1), (-a, -ALPHA), (a - 1, ALPHA - 1)])
            amps[k], want[k] = ex, (val, 0)
        else:
            amps[k], want[k] = mk_z(e, f"z{i}", kinds, near)
    # amplitudes close to zero have been dropped
    for k, (re_, im) in want.items():
        if e.mode != "concrete" and type(amps[k]) is Z:
            e.add(z3.Or(*[t for x in (re_, im) for t in (Num.of(x) > rv("1/1000"), Num.of(x) < rv("-1/1000"))]))
    atol, rtol, md, prec = e.choose("opts", list(opts))
    out, enc = e.choose("out", [(OUT.ASCII, "MSB"), (OUT.Unicode, "LSB"), (OUT.LaTeX, "MSB")])
    f = FakeSV(e, amps)
    s = Statevector.draw(f, out, encoding=enc, max_denominator=md, atol=atol, rtol=rtol, precision=prec)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((amps, out.name, s))
    e.check(f.args == (enc, rtol, atol), "draw passes other options to to_dict")
    r, v = read(e, s, prec)
    r.coarse(s)
    e.check(set(v) == set(kets), "the drawn state has other basis states")
    digits_ok(e, s, prec)
    lowest(e, s)
    for k in kets:
        close(e, v[k], want[k], 2.1 * atol if len(kets) > 1 else atol, rtol, r.decimal, prec, "the drawn state has another amplitude")


def h_matrix(e, kinds, pool, opts=(DEF,)):
    setup(e, pool)
    n = 2
    rho, want = [], []
    for i in range(n):
        row = []
        for j in range(n):
            z, w = mk_z(e, f"z{i}{j}", kinds if (i, j) in ((0, 0), (0, 1)) else [0.5 + 0j, 1 + 2j, -0.25j])
            row.append(z)
            want.append(w)
        rho.append(row)
    atol, rtol, md, prec = e.choose("opts", list(opts))
    out = e.choose("out", [OUT.ASCII, OUT.Unicode, OUT.LaTeX])

    class D:
        pass

    d = D()
    d.rho = rho
    s = DensityMatrix.draw(d, out, max_denominator=md, atol=atol, rtol=rtol, precision=prec)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((rho, out.name, s))
    if out is OUT.LaTeX:
        m = re.fullmatch(r"\\begin\{pmatrix\}(.*)\\end\{pmatrix\}", s)
        e.check(m is not None, "no matrix")
        rows = [r.split(" & ") for r in m[1].split(r" \\ ")]
    else:
        ls = s.split("\n")
        e.check(len({len(l) for l in ls}) == 1 or e.mode != "concrete", "the rows have different lengths")
        e.check(all(l.startswith("[ ") and l.endswith(" ]") for l in ls), "no matrix")
        rows = [re.split(r"\s{2,}", l[2:-2].strip()) for l in ls]
    e.check([len(r) for r in rows] == [n] * n, "the matrix has another shape")
    for k, (t, w) in enumerate(zip([x for r in rows for x in r], want)):
        r, v = read(e, t, prec)
        r.coarse(t)
        e.check(set(v) == {None}, "an entry is no number")
        close(e, v[None], w, atol, rtol, r.decimal, prec, "the drawn matrix has another entry")


# ------------------------------------------------------------------ the decomposition of integers
class Int:
    """A symbolic integer."""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(o):
        return o.t if type(o) is Int else z3.IntVal(int(o))

    def __mul__(self, o):
        return Int(self.t * Int.of(o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return Int(self.t / Int.of(o))

    def __mod__(self, o):
        return Int(self.t % Int.of(o))

    def __eq__(self, o):
        return SymBool(self.t == Int.of(o))

    def __ne__(self, o):
        return SymBool(self.t != Int.of(o))

    def __lt__(self, o):
        return SymBool(self.t < Int.of(o))

    def __le__(self, o):
        return SymBool(self.t <= Int.of(o))

    def __gt__(self, o):
        return SymBool(self.t > Int.of(o))

    def __ge__(self, o):
        return SymBool(self.t >= Int.of(o))

    __hash__ = None


def h_squarefree(e, nmax):
    setup(e)
    x = real("n", 0, nmax)
    if e.mode == "concrete":
        n = int(round(x))
    else:
        k = z3.Int("n.i")
        e.add(z3.ToReal(k) == e.reals["n"])
        n = Int(k)
    o, i = pp._squarefree_decomposition(n)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((n, o, i))
        e.check(o * o * i == n, "outer² · inner is not n")
        e.check(i >= 1 and o >= 0 and all(i % (k * k) for k in range(2, math.isqrt(nmax) + 1)), "inner is not squarefree")
        return
    o, i = Int.of(o), Int.of(i)
    e.check_z(o * o * i == n.t, "outer² · inner is not n")
    e.check_z(z3.And(i >= 1, o >= 0, *[i % (k * k) != 0 for k in range(2, math.isqrt(nmax) + 1)]), "inner is not squarefree")


SPOTS = [(1, 1), (1, 2), (3, 4), (2, 1), (math.sqrt(2),), (math.sqrt(3) / 4,), (math.sqrt(8) / 3,), (0.7318203,)]


def jobs(tier):
    t = tier == "thorough"
    opts = [DEF, (1e-3, 0.0, 1000, 6), (1e-9, 1e-4, 1000, 2), (1e-9, 0.0, 2, 4), (1e-9, 0.0, 1, 3), (1e-9, 0.0, 5000, 4)]
    js = [
        Job("sqfree", h_squarefree, dict(nmax=2000 if t else 400), "all integers up to the bound"),
        Job("real", h_number, dict(kinds=["real", "imag"], pool="rats", opts=opts), "real and imaginary numbers in [-30, 30], 15 recognised fractions/squares"),
        Job("polar", h_number, dict(kinds=ANGLES, pool="rats" if t else "few", opts=opts[:3:2] + opts[5:]), "7 directions, any radius"),
        Job("nearp", h_number, dict(kinds=ANGLES, pool="rats", opts=[DEF], near=SPOTS), "7 directions, radius within 5e-5 of one of 8 values"),
        Job("nearc", h_number, dict(kinds=["cart"], pool="rats", opts=[DEF], near=[SPOTS[1], (-1, 1), (-SPOTS[4][0],), SPOTS[5], SPOTS[7]]), "both parts within 5e-5 of one of 5 values"),
        Job("nearr", h_number, dict(kinds=["real", "imag"], pool="rats", opts=[DEF], near=SPOTS + [(-x, *d) for x, *d in SPOTS]), "one part within 5e-5 of one of 16 values"),
        Job("neart", h_state, dict(kets=["0", "1"], kinds=["real", (1, 4), (2, 3)], pool="rats", near=SPOTS[:2] + SPOTS[4:6]), "two basis states, radii within 5e-5 of one of 4 values"),
        Job("neark", h_state, dict(kets=["00", "01", "11"], kinds=["real", (2, 3)], pool="rats", near=[SPOTS[4], (-1, 2)]), "three basis states, radii within 5e-5 of one of 2 values"),
        Job("cart", h_number, dict(kinds=["cart"], pool="few" if not t else "rats", opts=opts[:3]), "any complex number without a simple direction", 1.5),
        Job("one", h_state, dict(kets=["01"], kinds=["real", "imag", (1, 4), (-2, 3), "cart"], pool="few"), "one basis state"),
        Job("two", h_state, dict(kets=["0", "1"], kinds=["real", "imag", (2, 3), (-1, 4)], pool="few"), "two basis states, any radius and 4 directions", 1.5),
        Job("twoc", h_state, dict(kets=["00", "10"], kinds=["real", "cart", -0.6 + 0.8j, 0.3 - 0.4j], pool="few"), "two basis states, with amplitudes in general directions", 1.5),
        Job("par", h_state, dict(kets=["0", "1"], kinds=["real", (2, 3)], pool="few", par=True), "parametric amplitudes"),
        Job("matrix", h_matrix, dict(kinds=["real", (2, 3), "cart"], pool="few"), "density matrices"),
    ]
    return js


CHECKS = {"P36": dict(jobs=jobs, quick_s=75, thorough_s=420,
                      outside="numbers within 0.1% of a tolerance's limit (rounding decides); fractions and squares outside the stated pool are treated as not recognised; directions within the tolerance of a simple one but not equal to it; "
                              "nan and infinity; the rounding of the decimals themselves (Python's format)")}
