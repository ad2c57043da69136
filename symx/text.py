"""Strings with symbolic numbers in them: a symbolic real prints as a token, and own evaluators read the text back."""

from __future__ import annotations

import builtins
import math
import re
from fractions import Fraction

from . import engine

from .proxy import Real, cur, real

z3 = engine.z3
TOK = re.compile("⟦(\\d+)⟧")


def token(r):
    e = cur()
    e.tokens.append(r)
    return f"⟦{len(e.tokens) - 1}⟧"


class SymFrac:
    """Fraction(angle) of a symbolic angle: n/d in lowest terms or 'no simple fraction'."""

    def __init__(self, a):
        self.a = a

    def limit_denominator(self, m=1000000):
        e = cur()
        self.max = m
        k = e.fracs = getattr(e, "fracs", -1) + 1  # several fractions on one path
        x = "" if k == 0 else f".{k}"
        d = e.choose(f"den{x}", [x for x in e.den_opts if x == "no" or x <= m])
        if d == "no":
            # not close to any simple fraction: the nearest one, f, is at least 1e-6 away
            f = real(f"nearest{x}", -1000, 1000)
            e.assume((f - self.a >= Fraction(1, 10**6)) | (self.a - f >= Fraction(1, 10**6)))
            self.value, self.numerator, self.denominator = f, None, None
            return self
        n = real(f"num{x}", -4000, 4000)
        e.add(z3.IsInt(e.reals[f"num{x}"]))
        e.assume(self.a == n * Fraction(1, d))
        for p in {p for p in (2, 3, 5, 7, 11, 13) if d % p == 0}:
            k = z3.Int(f"num{x}.i")
            e.add(z3.And(z3.ToReal(k) == e.reals[f"num{x}"], k % p != 0))
        self.value, self.numerator, self.denominator = self.a, n, d
        return self


def _fraction(x, *a):
    return SymFrac(x) if type(x) is Real else Fraction(x, *a)


def _float(x=0.0):
    if type(x) is SymFrac:
        return x.value
    return x if type(x) is Real else builtins.float(x)


def install(e, module, dens=("no",)):
    """Symbolic angles can be printed by graphix.pretty_print."""
    e.den_opts = list(dens)
    if e.mode == "concrete":
        module.Fraction = Fraction
        module.__dict__.pop("float", None)
    else:
        module.Fraction = _fraction
        module.float = _float


# ------------------------------------------------------------ reading back
class Val:
    """r * pi**p, r a number or a symbolic real."""

    def __init__(self, r, p=0):
        self.r, self.p = r, p


def const(r):
    return type(r) is not Real


class ParseError(Exception):
    pass


class Expr:
    """Recursive descent parser of + - * / ( ) over numbers, pi and symbolic tokens."""

    def __init__(self, s, pi=("pi", "π"), implicit=False, mul=("*", "×"), latex=False):
        e = cur()
        self.toks = []
        self.implicit = implicit
        pat = r"\s*(?:(⟦\d+⟧)|(\d+\.?\d*(?:[eE][-+]?\d+)?)|(\\?[A-Za-zπ]+)|(.))"
        for m in re.finditer(pat, s.strip()):
            t, n, w, c = m.groups()
            if t:
                r = e.tokens[int(t[1:-1])]
                self.toks.append(("v", Val(Real(r.t, r.c, False), 1) if r.rad else Val(r)))
            elif n:
                self.toks.append(("v", Val(Fraction(n))))
            elif w:
                if w in pi:
                    self.toks.append(("v", Val(Fraction(1), 1)))
                else:
                    self.toks.append(("w", w))
            elif c in mul:
                self.toks.append(("o", "*"))
            elif c is not None and not c.isspace():
                self.toks.append(("o", c))
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def take(self, o):
        if self.peek() == ("o", o):
            self.i += 1
            return True
        return False

    def parse(self):
        v = self.sum()
        if self.i != len(self.toks):
            raise ParseError(f"unexpected {self.peek()[1]!r}")
        return v

    def sum(self):
        neg = self.take("-")
        if not neg:
            self.take("+")
        v = self.term()
        if neg:
            v = Val(-v.r, v.p)
        while True:
            if self.take("+"):
                v = add(v, self.term())
            elif self.take("-"):
                w = self.term()
                v = add(v, Val(-w.r, w.p))
            else:
                return v

    def term(self):
        v = self.factor()
        while True:
            if self.take("*"):
                v = mul_(v, self.factor())
            elif self.take("/"):
                w = self.factor()
                if not const(w.r) or w.r == 0:
                    raise ParseError("division")
                v = Val(v.r * (Fraction(1) / w.r) if const(v.r) else v.r * (Fraction(1) / Fraction(w.r)), v.p - w.p)
            elif self.implicit and (self.peek()[0] == "v" or self.peek() == ("o", "(")):
                v = mul_(v, self.factor())
            else:
                return v

    def factor(self):
        k, v = self.peek()
        if k == "v":
            self.i += 1
            return v
        if self.take("("):
            v = self.sum()
            if not self.take(")"):
                raise ParseError("missing )")
            return v
        if self.take("-"):
            v = self.factor()
            return Val(-v.r, v.p)
        raise ParseError(f"unexpected {v!r}")


def mul_(a, b):
    if not const(a.r) and not const(b.r):
        raise ParseError("product of symbols")
    return Val(a.r * b.r if const(b.r) else b.r * a.r, a.p + b.p)


def add(a, b):
    if const(a.r) and a.r == 0:
        return b
    if const(b.r) and b.r == 0:
        return a
    if a.p != b.p:
        if const(a.r) and const(b.r):
            return Val(Fraction(float(a.r) * math.pi**a.p + float(b.r) * math.pi**b.p), 0)
        raise ParseError("mixed units")
    return Val(a.r + b.r, a.p)


def turns(v):
    """A value in radians as a multiple of pi."""
    if v.p == 1:
        return v.r
    if v.p == 0:
        if const(v.r):
            return v.r if v.r == 0 else float(v.r) / math.pi
        raise ParseError("symbolic number of radians without pi")
    raise ParseError("power of pi")
