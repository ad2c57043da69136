"""Symbolic parameters: affine expressions and substitution in programs (P28)."""

from __future__ import annotations

import copy as cpmod
import itertools
import math

import graphix.parameter as gp
import numpy as np
from graphix import instruction as gi
from graphix.branch_selector import BranchSelector
from graphix.measurements import BlochMeasurement
from graphix.parameter import AffineExpression, Expression, ExpressionWithTrigonometry, Parameter, Placeholder, PlaceholderOperationError
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.transpiler import Circuit

from symx import cnum
from symx.cnum import Cx, arr, claim, herm, rvar, same

from . import backends as B
from . import circuits as C
from .common import *  # noqa: F403

z3 = engine.z3


def setup(e):
    B.setup(e)
    if e.mode == "concrete":
        gp.__dict__.pop("float", None)
    else:
        gp.float = lambda x=0.0: x if type(x) in (Real, Cx) else float(x)


def number(e, x):
    return not isinstance(x, Expression)


# ------------------------------------------------------------------ expressions
class Den:
    """The affine function a * p + b denoted by an expression (p None: a constant)."""

    def __init__(self, a, p, b):
        self.a, self.p, self.b = a, p, b

    def at(self, env):
        return self.a * env[self.p] + self.b if self.p is not None else self.b

    def mixes(self, o):
        return self.p is not None and o.p is not None and self.p is not o.p

    def add(self, o, k=1):
        p = self.p if self.p is not None else o.p
        return Den(self.a + k * o.a, p, self.b + k * o.b)


NUM = ("+c", "c+", "-c", "c-", "*c", "c*", "/c")
EXP = ("+x", "-x", "+y", "x-", "+2nd", "-2nd", "2nd-", "self-", "self+")
BAD = ("*x", "/x", "c/", "+str", "*str", "*None")


def subst(e, r, env, how):
    """All ways of substituting every parameter."""
    ps = list(env)
    if how == "param":
        for p in ps:
            r = gp.with_parameter(r, p, env[p])
    elif how == "params":
        r = gp.with_parameters(r, dict(env))
    elif how == "method":
        for p in ps:
            r = r.with_parameter(p, env[p]) if isinstance(r, Expression) else r
    elif how == "methods":
        r = r.with_parameters(dict(env)) if isinstance(r, Expression) else r
    elif how == "subs":
        for p in ps:
            r = r.subs(p, env[p]) if isinstance(r, Expression) else r
    else:
        r = r.xreplace(dict(env)) if isinstance(r, Expression) else r
    return r


HOWS = ("param", "params", "method", "methods", "subs", "xreplace")


def h_expr(e, L, ops, consts=(0, 1, True), hows=HOWS):
    setup(e)
    x, y = Placeholder("t"), Placeholder(e.choose("name", ["t", "u"]))
    z = Placeholder("t")
    X, Y = Den(1, x, 0), Den(1, y, 0)
    vx, vy = rvar("vx"), rvar("vy")
    r, d = x, X
    k2, c2 = rvar("k2"), rvar("c2")
    e.assume(snot(k2 == 0)) if e.mode != "concrete" else None
    if e.mode == "concrete" and k2 == 0:
        return
    second, D2 = k2 * x + c2, Den(k2, x, c2)
    hist = []
    for i in range(L):
        op = e.choose(f"op{i}", list(ops))
        hist.append((op, r))
        c = None
        if "c" in op:
            ck = e.choose(f"k{i}", ["sym", *consts])
            c = rvar(f"c{i}") if ck == "sym" else ck
        try:
            if op == "+c":
                r2, d2 = r + c, Den(d.a, d.p, d.b + c)
            elif op == "c+":
                r2, d2 = c + r, Den(d.a, d.p, d.b + c)
            elif op == "-c":
                r2, d2 = r - c, Den(d.a, d.p, d.b - c)
            elif op == "c-":
                r2, d2 = c - r, Den(-d.a, d.p, c - d.b)
            elif op == "*c":
                r2, d2 = r * c, Den(d.a * c, d.p, d.b * c)
            elif op == "c*":
                r2, d2 = c * r, Den(c * d.a, d.p, c * d.b)
            elif op == "/c":
                if ck == "sym" or c == 0:
                    nz = bool(c == 0)
                    if nz:
                        e.check(not isinstance(r, Expression) or B.raises(lambda: r / c, ZeroDivisionError), "division by zero is refused")
                        e.reached()
                        return
                r2, d2 = r / c, Den(d.a / c, d.p, d.b / c)
            elif op == "neg":
                r2, d2 = -r, Den(-d.a, d.p, -d.b)
            else:
                o, w = {"x": (x, X), "y": (y, Y), "z": (z, Den(1, z, 0)), "2nd": (second, D2), "self": (r, d)}[op.strip("+-")]
                if op[0] == "+" or op == "self+":
                    d2 = d.add(w)
                    r2 = r + o
                elif op == "self-" or op[0] == "-":
                    d2 = d.add(w, -1)
                    r2 = r - o
                else:  # o - r
                    d2 = w.add(d, -1)
                    r2 = o - r
                e.check(number(e, r) or not w.mixes(d), "expressions over different parameters are not combined")
        except PlaceholderOperationError:
            w = {"x": X, "y": Y, "z": Den(1, z, 0), "2nd": D2, "self": d}.get(op.strip("+-"))
            e.check(w is not None and not number(e, r) and w.mixes(d), "an operation is refused only for different parameters")
            e.reached()
            return
        if number(e, r2):  # the slope vanished
            same(e, arr([d2.a]), arr([0]), "a number only when the parameter cancels")
            d2 = Den(0, None, d2.b)
        r, d = r2, d2
    env = {x: vx, y: vy, z: rvar("vz")}
    e.reached()
    # substituting another parameter (of the same name) changes nothing
    for other in (y, z):
        if d.p is not other and not number(e, r):
            e.check(gp.with_parameter(r, other, vy) is r and gp.with_parameters(r, {other: vy}) is r, "other parameters are untouched")
    how = e.choose("how", list(hows))
    got = subst(e, r, env, how)
    e.check(not isinstance(got, Expression), "no parameter is left")
    if isinstance(got, Expression):
        return
    same(e, arr([got]), arr([d.at(env)]), "substitution commutes with the operations")
    if not number(e, r):
        # through an intermediate expression: parallel substitution does not feed the value back
        mid = 2 * y + 1
        g2 = gp.with_parameters(r, {x: mid, y: vx})
        want = Den(d.a * 2, y, d.a + d.b) if d.p is x else None
        if want is not None:
            # d.a = 0 on this path gives a number
            e.check(number(e, g2) or isinstance(g2, Expression), "an expression")
            g3 = gp.with_parameter(g2, y, vy)
            same(e, arr([g3]), arr([want.at({y: vy})]), "parallel substitution is simultaneous")
            g4 = gp.with_parameter(gp.with_parameter(r, x, mid), y, vy)
            same(e, arr([g4]), arr([want.at({y: vy})]), "substitution by an expression")
        g5 = gp.with_parameter(r, x, 0)
        if d.p is x:
            same(e, arr([g5]), arr([d.b]), "substitution by zero")
    e.check(gp.with_parameter(vx, x, vy) is vx and gp.with_parameters("s", {x: vy}) == "s", "values without parameters are unchanged")


def h_mutation(e):
    """Operators leave their operands unchanged; equality is equality of functions."""
    setup(e)
    x, y = Placeholder("t"), Placeholder("t")
    a, b, c, d = (rvar(n) for n in "abcd")
    for v in (a, c):
        if e.mode != "concrete":
            e.assume(snot(v == 0))
        elif v == 0:
            return
    p, q = a * x + b, c * e.choose("q", [x, y]) + d
    before = [(t.a, t.x, t.b) for t in (p, q)]
    for f in (lambda: p + q, lambda: p - q, lambda: p * d, lambda: p / a, lambda: -p, lambda: d - p, lambda: p.with_parameter(x, d), lambda: p.with_parameters({x: q})):
        try:
            f()
        except PlaceholderOperationError:
            e.check(q.x is y, "an operation is refused only for different parameters")
    for t, (ta, tx, tb) in zip((p, q), before):
        e.check(t.x is tx and t.a is ta and t.b is tb, "operands are unchanged")
    eq = p == q
    if eq:
        e.check(q.x is x, "equal expressions have the same parameter")
        same(e, arr([a, b]), arr([c, d]), "equal expressions denote the same function")
    elif q.x is x:
        differs = sor(snot(a == c), snot(b == d))
        e.check(bool(differs), "different expressions denote different functions")
    e.check(bool(p != q) == (not eq), "!= is the negation of ==")
    e.check((x == y) is False and (x == x) is True and x != y and hash(x) == hash(x) and len({x: 1, y: 2}) == 2, "parameters are distinct objects whatever their names")
    e.check(bool(1 * x == x) and bool(x == 1 * x) and not (x + 1 == x) and not (x == y + 0), "a parameter equals the identity function")
    e.check({x: 1}[x] == 1 and x.name == "t" and str(x) == "t", "the name")
    e.reached()


def h_bad(e):
    """Operations outside the affine ones are refused."""
    setup(e)
    x, y = Placeholder("t"), Placeholder("u")
    r = e.choose("r", [x, 2 * x, x + 0.5, 3 * x - 1])
    cases = {
        "*": lambda: r * x, "*y": lambda: r * y, "/": lambda: r / x, "c/": lambda: 1 / r, "+str": lambda: r + "a", "str*": lambda: "a" * r, "None": lambda: r - None, "None-": lambda: None - r,
        "list": lambda: [1] + r, "**": lambda: r**2, "complex*": lambda: r * 1j, "float": lambda: float(r), "math": lambda: math.cos(r), "+y": lambda: r + y, "y-": lambda: y - r,
    }
    k = e.choose("case", list(cases))
    e.check(B.raises(cases[k], TypeError, ValueError), f"{k} is refused")
    e.check(B.raises(lambda: gp.cos_sin(r), PlaceholderOperationError) and B.raises(lambda: gp.exp(r), PlaceholderOperationError), "no trigonometry on placeholders")
    c, s = gp.cos_sin(0.7)
    e.check(abs(c - math.cos(0.7)) < 1e-12 and abs(s - math.sin(0.7)) < 1e-12 and abs(gp.exp(0.5j) - complex(math.cos(0.5), math.sin(0.5))) < 1e-12, "trigonometry on numbers")
    v = e.choose("v", [0.5, np.float64(2), x, 1 + 2j, "a", None])
    for f, okc in ((gp.check_expression_or_float, (0.5, np.float64(2))), (gp.check_expression_or_complex, (1 + 2j,))):
        ok = v is x or any(type(v) is type(w) and v == w for w in okc)
        if f is gp.check_expression_or_complex and isinstance(v, float):
            continue  # floats implement SupportsFloat, not SupportsComplex
        if ok:
            t = f(v)
            e.check(t is x if v is x else t == v, "numbers and expressions pass")
        else:
            e.check(B.raises(lambda: f(v), TypeError), "other objects are refused")
    e.reached()


# ------------------------------------------------------------------ programs
def ang_same(e, a, b, msg, turns=False):
    """Equal angles (up to full turns)."""
    if isinstance(a, Expression) or isinstance(b, Expression):
        e.check(isinstance(a, Expression) and isinstance(b, Expression) and a == b, msg)
        return
    if e.mode == "concrete":
        d = float(a) - float(b)
        e.check(abs((d + 1) % 2 - 1 if turns else d) < 1e-9, msg)
        return
    d = a - b
    if turns and (type(d) is not Real or not d.t):
        e.check(abs((float(d.c if type(d) is Real else d) + 1) % 2 - 1) < 1e-12, msg)
    elif type(d) is Real:
        if d.t or d.c:
            e.check_z(z3.IsInt(d.zr() / 2) if turns else d.zr() == 0, msg)
        else:
            e.stats.claims += 1
            e.stats.folded += 1
    else:
        e.check(abs(float(d)) < 1e-12, msg)


def dom_same(e, a, b):
    return bool(a == b)


def meas_same(e, a, b, msg, turns=False):
    ok = type(a) is type(b)
    if isinstance(a, BlochMeasurement):
        e.check(ok and a.plane == b.plane, msg)
        if ok:
            ang_same(e, a.angle, b.angle, msg, turns)
    else:
        e.check(ok and a == b, msg)


def pat_same(e, p, q, msg, turns=False):
    ok = list(p.input_nodes) == list(q.input_nodes) and list(p.output_nodes) == list(q.output_nodes) and [c.kind for c in p] == [c.kind for c in q]
    e.check(ok, msg)
    if not ok:
        return
    for c, d in zip(p, q):
        k = c.kind.name
        if k == "M":
            e.check(c.node == d.node and dom_same(e, c.s_domain, d.s_domain) and dom_same(e, c.t_domain, d.t_domain), msg)
            meas_same(e, c.measurement, d.measurement, msg, turns)
        elif k in "XZ":
            e.check(c.node == d.node and dom_same(e, c.domain, d.domain), msg)
        else:
            e.check(c == d, msg)


def og_same(e, g, h, msg, turns=True):
    e.check(set(g.graph.nodes) == set(h.graph.nodes) and {frozenset(x) for x in g.graph.edges} == {frozenset(x) for x in h.graph.edges}
            and list(g.input_nodes) == list(h.input_nodes) and list(g.output_nodes) == list(h.output_nodes) and set(g.measurements) == set(h.measurements), msg)
    for v in g.measurements:
        meas_same(e, g.measurements[v], h.measurements[v], msg, turns)


def circ_same(e, c, d, msg):
    e.check(c.width == d.width and len(c.instruction) == len(d.instruction), msg)
    for i, j in zip(c.instruction, d.instruction):
        e.check(type(i) is type(j) and all(getattr(i, f, None) == getattr(j, f, None) for f in ("target", "control", "controls", "targets", "axis")), msg)
        if hasattr(i, "angle"):
            ang_same(e, i.angle, j.angle, msg)


class Env:
    """Three parameters (two of the same name), their values, and the angles built from them."""

    def __init__(self, e, values=True):
        self.x, self.y, self.z = Placeholder("alpha"), Placeholder("alpha"), Placeholder("beta")
        self.ps = (self.x, self.y, self.z)
        self.v = {p: angle(f"v{i}", 0, 1) for i, p in enumerate(self.ps)}

    def template(self, k):
        """(expression, value)"""
        x, y, z = self.ps
        v = self.v
        return {
            "x": lambda: (x, v[x]),
            "2x-1/2": lambda: (2 * x - 0.5, 2 * v[x] - 0.5),
            "1-y": lambda: (1 - y, 1 - v[y]),
            "y": lambda: (y, v[y]),
            "-z/4": lambda: (-z / 4, -v[z] / 4),
            "0.3": lambda: (0.3, 0.3),
            "z": lambda: (z, v[z]),
        }[k]()

    def params(self, ks):
        """parameters occurring in the chosen angles"""
        x, y, z = self.ps
        m = {"x": x, "2x-1/2": x, "1-y": y, "y": y, "-z/4": z, "z": z}
        return {m[k] for k in ks if k in m}


TEMPL = ("x", "2x-1/2", "1-y", "0.3", "-z/4")


def replace(e, obj, env, how, inplace):
    """Substitute every parameter of env in obj; in place, by copy, or with the pure methods."""
    if how == "each":
        for p in env.ps:
            obj = obj.replace_parameter(p, env.v[p], copy=not inplace)
    elif how == "all":
        obj = obj.replace_parameters(dict(env.v), copy=not inplace)
    elif how == "with":
        for p in env.ps:
            obj = obj.with_parameter(p, env.v[p])
    elif how == "withs":
        obj = obj.with_parameters(dict(env.v))
    elif how == "subs":
        for p in env.ps:
            obj = obj.subs(p, env.v[p])
    elif how == "xreplace":
        obj = obj.xreplace(dict(env.v))
    elif how == "chain":  # x -> 1 - y first; then the values
        x, y, z = env.ps
        obj = obj.with_parameters({x: 1 - y, y: z + 0.25})
        return obj
    return obj


def chain_value(env, k):
    """Value of a template under x -> 1 - y, y -> z + 1/4 in parallel, then y, z := values."""
    x, y, z = env.ps
    v = env.v
    nx, ny = 1 - v[y], v[z] + 0.25
    return {"x": nx, "2x-1/2": 2 * nx - 0.5, "1-y": 1 - ny, "y": ny, "-z/4": -v[z] / 4, "0.3": 0.3, "z": v[z]}[k]


REPL = ("each", "all", "with", "withs", "subs", "xreplace", "chain")


def h_pattern(e, templ=TEMPL, repl=REPL, **kw):
    """Substituting in a pattern, its open graph and its flow."""
    setup(e)
    env = Env(e)
    ks = {}

    def mk(sub):
        p = gen_pattern(e, **kw)
        q = Pattern(input_nodes=list(p.input_nodes))
        for c in p:
            if c.kind.name == "M" and isinstance(c.measurement, BlochMeasurement):
                k = ks.setdefault(c.node, e.choose(f"k{c.node}", list(templ)))
                c = command.M(c.node, BlochMeasurement(sub(k), c.measurement.plane), c.s_domain.copy() if c.s_domain else set(), c.t_domain.copy() if c.t_domain else set())
            q.add(c)
        q.reorder_output_nodes(list(p.output_nodes))
        return q

    sym = mk(lambda k: env.template(k)[0])
    num = mk(lambda k: env.template(k)[1])
    if e.mode == "concrete":
        e.notes.append(show(sym))
    used = env.params(ks.values())
    e.check(sym.is_parameterized() == bool(used) and not num.is_parameterized(), "is_parameterized")
    how = e.choose("how", list(repl))
    inplace = how in ("each", "all") and e.choose("inplace", [False, True])
    keep = snapshot(sym)
    e.reached()
    r = replace(e, sym, env, how, inplace)
    if inplace:
        e.check(r is sym, "in place")
    else:
        e.check(r is not sym, "a copy")
        pat_same(e, sym, keep, "the pattern is not modified")
    if how == "chain":
        x, y, z = env.ps
        e.check(env.params(ks.values()) == set() or r.is_parameterized(), "parameters remain")
        r = r.with_parameter(y, env.v[y]).with_parameter(z, env.v[z])
        num = mk(lambda k: chain_value(env, k))
    e.check(not r.is_parameterized(), "every parameter is replaced")
    pat_same(e, r, num, "the pattern built with the values")


def h_partial(e, templ, **kw):
    """Substituting one parameter leaves the others, in patterns, open graphs, circuits."""
    setup(e)
    env = Env(e)
    x, y, z = env.ps
    ks = [e.choose(f"k{i}", list(templ)) for i in range(2)]
    one = e.choose("one", [0, 1, 2])
    p1 = env.ps[one]

    def val(k):
        ex, v = env.template(k)
        return v if env.params([k]) == {p1} else ex

    obj = e.choose("obj", ["pattern", "circuit", "opengraph"])
    if obj == "circuit":
        def mk(f):
            c = Circuit(2)
            c.rz(0, f(ks[0]))
            c.rzz(0, 1, f(ks[1]))
            c.j(1, f(ks[0]))
            return c
        cmp = circ_same
    else:
        def mk(f):
            p = Pattern(input_nodes=[3], cmds=[command.N(1), command.N(5), command.E((3, 1)), command.E((1, 5)), command.M(3, BlochMeasurement(f(ks[0]), Plane.XY)),
                                               command.M(1, BlochMeasurement(f(ks[1]), Plane.YZ), {3}), command.X(5, {1})])
            return p if obj == "pattern" else p.to_opengraph()
        cmp = pat_same if obj == "pattern" else og_same
    a, b = mk(lambda k: env.template(k)[0]), mk(val)
    how = e.choose("how", ["with", "withs"])
    r = a.with_parameter(p1, env.v[p1]) if how == "with" else a.with_parameters({p1: env.v[p1]})
    cmp(e, r, b, "only the given parameter is replaced")
    if obj != "opengraph":
        e.check(r.is_parameterized() == bool(env.params(ks) - {p1}), "is_parameterized")
    e.reached()


PASSES = {
    "standardize": lambda p: p.standardize(),
    "shift": lambda p: p.shift_signals(),
    "space": lambda p: p.minimize_space(),
    "std+shift": lambda p: (p.standardize(), p.shift_signals()),
    "pauli": lambda p: p.remove_pauli_measurements() if hasattr(p, "remove_pauli_measurements") else p.standardize(),
    "pauli-infer": lambda p: p.infer_pauli_measurements(),
}


def run_pass(name, p):
    q = p.copy()
    r = PASSES[name](q)
    return r if isinstance(r, Pattern) else q


def circuits(e, env, w, L, gates, templ):
    seq, ks = [], []
    for i in range(L):
        g = gates[i] if isinstance(gates[0], (list, tuple)) else gates
        t = e.choose(f"g{i}", C.templates(w, g))
        k = None
        if t[0] in C.ROTQ or t[0] == "RZZ":
            k = e.choose(f"k{i}", list(templ))
        seq.append(t)
        ks.append(k)

    def mk(f):
        c = Circuit(w)
        for t, k in zip(seq, ks):
            C.call_instr(c, t, f(k) if k else None)
        return c

    return mk, [k for k in ks if k]


def h_circuit(e, w, L, gates, templ=TEMPL, repl=REPL, passes=(), og=False):
    """Substituting in a circuit, and before or after transpiling and rewriting it."""
    setup(e)
    C.sym_ops(e)
    env = Env(e)
    mk, ks = circuits(e, env, w, L, gates, templ)
    sym, num = mk(lambda k: env.template(k)[0]), mk(lambda k: env.template(k)[1])
    if e.mode == "concrete":
        e.notes.append([str(i) for i in sym.instruction])
    used = env.params(ks)
    e.check(sym.is_parameterized() == bool(used) and not num.is_parameterized(), "is_parameterized")
    how = e.choose("how", list(repl))
    inplace = how in ("each", "all") and e.choose("inplace", [False, True])
    keep = mk(lambda k: env.template(k)[0])
    e.reached()
    tr = None
    if passes:
        tr = sym.transpile().pattern
    r = replace(e, sym, env, how, inplace)
    if inplace:
        e.check(r is sym, "in place")
    else:
        e.check(r is not sym, "a copy")
        circ_same(e, sym, keep, "the circuit is not modified")
    if how == "chain":
        x, y, z = env.ps
        r = r.with_parameter(y, env.v[y]).with_parameter(z, env.v[z])
        num = mk(lambda k: chain_value(env, k))
    e.check(not r.is_parameterized(), "every parameter is replaced")
    circ_same(e, r, num, "the circuit built with the values")
    if not passes:
        return
    tn = num.transpile().pattern
    pat_same(e, replace(e, tr, env, "all", False), tn, "substitution commutes with transpile", True)
    name = e.choose("pass", list(passes))
    if name == "opengraph":
        a, b = tr.to_opengraph(), tn.to_opengraph()
        og_same(e, a.with_parameters(dict(env.v)), b, "substitution commutes with to_opengraph")
        og_same(e, a.with_parameter(env.x, env.v[env.x]).with_parameter(env.y, env.v[env.y]).with_parameter(env.z, env.v[env.z]), b, "substitution commutes with to_opengraph")
        og_same(e, a, sym.transpile().pattern.to_opengraph() if not inplace else a, "the open graph is not modified")
    elif name == "flow":
        for f in ("to_causalflow", "to_gflow", "to_pauliflow"):
            a, b = (getattr(t if f == "to_pauliflow" else t.to_bloch(), f)() for t in (tr, tn))
            for s in (a.with_parameters(dict(env.v)), a.with_parameter(env.x, env.v[env.x]).with_parameter(env.y, env.v[env.y]).with_parameter(env.z, env.v[env.z])):
                og_same(e, s.og, b.og, "substitution commutes with flow extraction")
                e.check(type(s) is type(a) and s.correction_function == a.correction_function and s.partial_order_layers == a.partial_order_layers, "the flow is kept")
        a, b = tr.to_xzcorrections(), tn.to_xzcorrections()
        for s in (a.with_parameters(dict(env.v)), a.with_parameter(env.x, env.v[env.x]).with_parameter(env.y, env.v[env.y]).with_parameter(env.z, env.v[env.z])):
            og_same(e, s.og, b.og, "substitution commutes with correction extraction")
            e.check(s.x_corrections == a.x_corrections and s.z_corrections == a.z_corrections and s.partial_order_layers == a.partial_order_layers, "the corrections are kept")
    else:
        pat_same(e, replace(e, run_pass(name, tr), env, "all", False), run_pass(name, tn), f"substitution commutes with {name}", True)


# ------------------------------------------------------------------ symbolic density matrices
class Ex(ExpressionWithTrigonometry):
    """Arbitrary expression: a function of the assignment (what a computer-algebra plugin provides)."""

    def __init__(self, f, free):
        self.f, self.free = f, frozenset(free)

    def _lift(self, o):
        if isinstance(o, Ex):
            return o
        if isinstance(o, np.ndarray) or o is None:
            return None
        return Ex(lambda env: o, ())

    def _bin(self, o, g):
        o = self._lift(o)
        return NotImplemented if o is None else Ex(lambda env: g(self.f(env), o.f(env)), self.free | o.free)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def _un(self, g):
        return Ex(lambda env: g(self.f(env)), self.free)

    def __neg__(self):
        return self._un(lambda a: -a)

    def conjugate(self):
        return self._un(lambda a: a.conjugate() if hasattr(a, "conjugate") else a)

    def sqrt(self):
        return self._un(lambda a: a.sqrt() if hasattr(a, "sqrt") else a**0.5)

    @property
    def real(self):
        return self._un(lambda a: a.real if hasattr(a, "real") else a)

    @property
    def imag(self):
        return self._un(lambda a: a.imag)

    def cos(self):
        return self._un(trig(0))

    def sin(self):
        return self._un(trig(1))

    def exp(self):
        raise PlaceholderOperationError

    def with_parameter(self, variable, substitute):
        return self.with_parameters({variable: substitute})

    def with_parameters(self, assignment):
        # deferred values are only forced once no parameter is left
        sub = {p: v for p, v in assignment.items() if p in self.free}
        if not sub:
            return self
        left = (self.free - set(sub)) | {q for v in sub.values() if isinstance(v, Ex) for q in v.free}

        def f(env):
            inner = dict(env)
            for p, v in sub.items():
                inner[p] = v.f(env) if isinstance(v, Ex) else v
            return self.f(inner)

        if left:
            return Ex(f, left)
        r = f({})
        return r if type(r) is Cx else complex(r)


def trig(i):
    def g(a):
        import builtins

        if isinstance(a, builtins.float) and type(a) is float or type(a) is int:
            return (math.cos, math.sin)[i](a)
        return gp.cos_sin(a)[i]

    return g


class ExParam(Ex, Parameter):
    def __init__(self, name):
        Ex.__init__(self, lambda env: env[self], ())
        self.free = frozenset([self])
        self.name = name

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Fixed(BranchSelector):
    def __init__(self, e):
        self.e, self.n = e, 0

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.n += 1
        return self.e.choose(f"o{self.n}", [0, 1])


def h_dm(e):
    """Density matrices with expressions as entries: substitution is entrywise, whatever the values."""
    setup(e)
    n = e.choose("n", [1, 2])
    N = 1 << n
    x, y = ExParam("t"), ExParam("t")
    vx, vy = rvar("vx"), rvar("vy")
    dm = DensityMatrix(nqubit=n)
    rho = np.empty((N, N), dtype=object)
    want = np.empty((N, N), dtype=object)
    c = [cnum.cvar(f"c{i}") for i in range(3)]
    pats = {"mixed": lambda i, j: (i + j) % 4, "first": lambda i, j: 0 if i + j else 1, "number first": lambda i, j: 2 if i + j == 0 else 3, "real first": lambda i, j: 4 if i + j == 0 else 1}
    pat = pats[e.choose("pattern", list(pats))]
    lift = (lambda v: v) if e.mode == "concrete" else Cx.lift
    for i in range(N):
        for j in range(N):
            k = pat(i, j)
            rho[i, j], want[i, j] = {0: (x * c[0] + 1, vx * c[0] + 1), 1: (y * c[1], vy * c[1]), 2: (c[2], c[2]), 3: (x * c[1] - y, vx * c[1] - vy), 4: (x * x, vx * vx)}[k]
            want[i, j] = lift(want[i, j])
    dm.rho = rho
    how = e.choose("how", ["withs", "with", "inplace"])
    keep = rho.copy()
    e.reached()
    if how == "withs":
        r = dm.with_parameters({x: vx, y: vy})
    elif how == "with":
        r = dm.with_parameter(x, vx)
        e.check(all(isinstance(a, Ex) == (isinstance(b, Ex) and y in b.free) for a, b in zip(r.rho.flat, keep.flat)), "the other parameters remain")
        r = r.with_parameter(y, vy)
    else:
        r = dm.replace_parameters({x: vx, y: vy})
        e.check(r is dm, "in place")
    if how != "inplace":
        e.check(r is not dm and all(a is b for a, b in zip(dm.rho.flat, keep.flat)), "the matrix is not modified")
    e.check(r.nqubit == n and r.rho.shape == (N, N), "the shape")
    if e.mode == "concrete":
        e.check(r.rho.dtype == np.complex128, "numeric once no parameter is left")
    same(e, r.rho, want if e.mode != "concrete" else want.astype(complex), "entries are substituted")


class NpObj(cnum.NpSym):
    """numpy for the symbolic branches of the code."""

    object_ = np.object_


def symbolic_branches(e):
    if e.mode != "concrete":
        for m in B.MODS:
            m.np = NpObj()
            for n in B.DISPATCH:
                if n in m.__dict__:
                    setattr(m, n, B.DISPATCH[n])


def h_symsim(e, which, planes=PLANES):
    """Simulating with parameters and then substituting = substituting and then simulating."""
    setup(e)
    C.sym_ops(e)
    x = ExParam("t")
    v = angle("v")
    pl = Plane[e.choose("plane", list(planes))]
    form = e.choose("form", ["x", "1/2-x"])
    ex, vv = {"x": (x, v), "1/2-x": (0.5 - x, 0.5 - v)}[form]

    def mk(a):
        if which == "one":
            return Pattern(input_nodes=[3], cmds=[command.N(1), command.E((3, 1)), command.M(3, BlochMeasurement(a, pl)), command.X(1, {3})])
        return Pattern(input_nodes=[3], cmds=[command.N(1), command.E((3, 1)), command.M(3, BlochMeasurement(0.25, Plane.XY)), command.N(7), command.E((7, 1)), command.M(1, BlochMeasurement(a, pl), {3}, {3}),
                                              command.X(7, {1}), command.Z(7, {3})])

    data = getattr(BasicStates, e.choose("in", ["PLUS_I", "ZERO"]))
    ps, pn = mk(ex), mk(vv)
    try:
        num = pn.simulate(backend=DensityMatrixBackend(branch_selector=Fixed(e)), input_state=data)
    except ZeroDivisionError:
        e.reached()
        return
    symbolic_branches(e)
    st = ps.simulate(backend=DensityMatrixBackend(branch_selector=Fixed(e), symbolic=True), input_state=data)
    r = st.with_parameter(x, v) if e.choose("how", [0, 1]) else st.with_parameters({x: v})
    e.check(r.nqubit == 1 and not any(isinstance(t, Expression) for t in r.rho.flat), "no parameter is left")
    same(e, r.rho, num.rho, "simulation commutes with substitution")
    e.reached()


def jobs_P28(tier):
    t = tier == "thorough"
    js = [
        Job("expr2", h_expr, dict(L=2, ops=NUM + EXP + ("neg",)), "2 operations, every operator and operand order, any coefficients"),
        Job("expr3", h_expr, dict(L=3, ops=("+c", "c-", "*c", "/c", "-2nd", "x-", "neg"), consts=(0,), hows=("params", "method")), "3 operations"),
        Job("equality", h_mutation, {}, "two affine expressions, any coefficients"),
        Job("bad", h_bad, {}, "operations outside the affine ones", 0.5),
        Job("pattern", h_pattern, dict(n=2, nin=1, nout=1, kinds=PLANES + ["-Y"], edges=[(0, 1)], final_c=(None, 6)), "2-node patterns, any domains and values"),
        Job("pattern3", h_pattern, dict(n=3, nin=1, nout=1, kinds=["XY", "XZ"], edges="path", templ=("x", "1-y", "-z/4"), repl=("each", "chain")), "3-node patterns"),
        Job("pattern.out2", h_pattern, dict(n=3, nin=2, nout=2, kinds=["XY"], edges=[(0, 1)], templ=("x", "1-y"), repl=("each", "all", "with", "withs"), sdom=False, tdom=False, in_perm=True, out_perm=True), "inputs and outputs in any order", 0.5),
        Job("partial", h_partial, dict(templ=TEMPL + ("y", "z")), "one of several parameters"),
        Job("circuit", h_circuit, dict(w=2, L=2, gates=["RX", "RZ", "RZZ", "J", "CNOT"], templ=TEMPL), "2-instruction circuits"),
        Job("rewrite", h_circuit, dict(w=2, L=2, gates=[["RX", "RZ", "RY", "J"], ["RZZ", "RX", "CNOT"]], templ=("x", "1-y", "-z/4"), repl=("all",),
                                       passes=("standardize", "shift", "space", "std+shift", "pauli-infer", "opengraph", "flow")), "2-instruction circuits, every pass"),
        Job("dm", h_dm, {}, "1 and 2 qubits, any values"),
        Job("sim", h_symsim, dict(which="one"), "one measurement, every plane"),
        Job("sim2", h_symsim, dict(which="two"), "two measurements"),
    ]
    if t:
        js += [
            Job("expr3full", h_expr, dict(L=3, ops=NUM + EXP + ("neg",), consts=(0,), hows=("param", "methods")), "3 operations, every operator", 2),
            Job("circuit3", h_circuit, dict(w=2, L=3, gates=["RX", "RZZ", "J", "CNOT"], templ=("x", "1-y", "-z/4"), repl=("all", "chain"), passes=("std+shift", "flow")), "3-instruction circuits", 2),
        ]
    return js


CHECKS = {
    "P28": dict(jobs=jobs_P28, quick_s=90, thorough_s=600, outside="longer expressions and programs; complex coefficients; floating-point rounding, overflow and underflow"),
}
