"""Printed forms and evaluable representations (P32)."""

from __future__ import annotations

import math
import re
import types
from fractions import Fraction

import graphix.flow.core as fc
import graphix.fundamentals as fu
import graphix.parameter as gparam
import graphix.pretty_print as gpp
from graphix import command, instruction, states
from graphix.circ_ext.extraction import PauliString
from graphix.parameter import AffineExpression, Placeholder
from graphix.pauli import Pauli
from graphix.pretty_print import OutputFormat
from graphix.transpiler import Circuit
from symx import text

from .common import *  # noqa: F403

ASCII, UNI, TEX = OutputFormat.ASCII, OutputFormat.Unicode, OutputFormat.LaTeX
DENS = ("no", 1, 2, 3, 8, 1000)
SHORT = ("no", 1, 4)
NODES = [12, 1, 0, 2]
PIS = ("pi", "π", "\\pi")


class Bad(Exception):
    pass


def near(e, got, want, msg):
    """Claim: the two numbers agree up to rounding."""
    d = got - want
    if type(d) is Real:
        e.check(sand(d <= Fraction(4, 10**9), -d <= Fraction(4, 10**9)), msg)
    else:
        w = abs(float(want)) if type(want) is not Real else 1
        e.check(abs(float(d)) <= 4e-9 * max(1, w), msg)


# ---------------------------------------------------------------- reading printed text
def untex(s):
    s = s.replace(r"\times", "*")
    while True:
        t = re.sub(r"\\frac\{([^{}]*)\}\{([^{}]*)\}", r"((\1)/(\2))", s)
        if t == s:
            return s
        s = t


def read_angle(s, out):
    """An angle as a multiple of pi; only the symbols of the output format are accepted."""
    if out == TEX:
        s = untex(s)
    pi = {ASCII: "pi", UNI: "π", TEX: "\\pi"}[out]
    if any(p in s.replace("\\pi", "P" if p != "\\pi" else "\\pi") for p in PIS if p != pi):
        raise Bad(f"foreign pi in {s!r}")
    try:
        return text.turns(text.Expr(s, pi=(pi,), implicit=True, mul=("*", "×")).parse())
    except text.ParseError as ex:
        raise Bad(f"{s!r}: {ex}") from ex


def read_ints(s, sep=","):
    return [int(x) for x in s.split(sep)] if s else []


SUB = {c: str(i) for i, c in enumerate("₀₁₂₃₄₅₆₇₈₉")}
SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}


def plain(s, table, plus):
    """Digits from sub- or superscripts, with separators."""
    r = []
    for w in s.split(plus):
        if not w or any(c not in table for c in w):
            raise Bad(f"bad index {s!r}")
        r.append(int("".join(table[c] for c in w)))
    return r


class Read:
    """What a printed command says."""

    def __init__(self, kind, nodes, args=(), dom=(), tdom=()):
        self.kind, self.nodes, self.args, self.dom, self.tdom = kind, list(nodes), list(args), list(dom), list(tdom)


def split_top(s):
    """Split at commas outside brackets."""
    r, d, cur_ = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        if c in ")]}":
            d -= 1
        if c == "," and d == 0:
            r.append(cur_)
            cur_ = ""
        else:
            cur_ += c
    return [*r, cur_] if cur_ or r else []


def full(pat, s):
    m = re.fullmatch(pat, s, re.S)
    if m is None:
        raise Bad(f"cannot read {s!r}")
    return m


def read_command(s, out):
    """The grammar of printed commands."""
    if s == "T":
        return Read("T", [])
    if out == ASCII:
        m = full(r"(\{[\d,]+\})?(\[)?([A-Z])\((.*)\)(\])?(\{[\d,]+\})?", s)
        t, lb, kind, args, rb, sd = m.groups()
        args = split_top(args)
        if kind == "E":
            if len(args) != 2 or t or lb or rb or sd:
                raise Bad(f"cannot read {s!r}")
            return Read("E", map(int, args))
        node, args = int(args[0]), args[1:]
        dom = read_ints(sd[1:-1]) if sd else []
        if kind in "XZS" and args and args[-1].startswith("{"):
            dom += read_ints(args.pop()[1:-1])
    elif out == UNI:
        if s[0] == "E":
            m = full(r"E([₀-₉]+)₋([₀-₉]+)", s)
            return Read("E", plain(m[1], SUB, "₊") + plain(m[2], SUB, "₊"))
        m = full(r"([₀-₉₊]+)?(\[)?([A-Z])([₀-₉]+)(?:\((.*)\))?(\])?([⁰¹²³⁴-⁹⁺]+)?", s)
        t, lb, kind, n, args, rb, sd = m.groups()
        node = plain(n, SUB, "₊")[0]
        args = split_top(args) if args else []
        dom = plain(sd, SUP, "⁺") if sd else []
        t = "{" + ",".join(map(str, plain(t, SUB, "₊"))) + "}" if t else None
    else:
        if s[0] == "E":
            m = full(r"E_\{(\d+),(\d+)\}", s)
            return Read("E", [int(m[1]), int(m[2])])
        m = full(r"(?:\{\}_\{([\d,]+)\})?(\[)?([A-Z])_\{(\d+)\}(.*?)(\])?(?:\^\{([\d,]+)\})?", s)
        t, lb, kind, n, rest, rb, sd = m.groups()
        node = int(n)
        args = []
        if kind in "XZS":
            if rest:
                raise Bad(f"cannot read {s!r}")
        elif rest:
            args = split_top(full(r"\^\{(.*)\}", rest)[1])
        elif sd and not lb:  # M_{0}^{...} reads as arguments without brackets
            args, sd = split_top(sd), None
        dom = read_ints(sd) if sd else []
        t = "{" + t + "}" if t else None
    if bool(lb) != bool(rb) or (lb and kind != "M") or (kind == "M" and bool(t or dom) != bool(lb)):
        raise Bad(f"brackets in {s!r}")
    if t and kind != "M":
        raise Bad(f"cannot read {s!r}")
    return Read(kind, [node], args, dom, read_ints(t[1:-1]) if t else [])


def read_affine(s, name, out):
    """(a, b) of a*name + b in multiples of pi (None: coefficient 1)."""
    m = full(r"(?:(.*?)(?:\*|×| \\times ))?" + name + r"(?:\+(.*))?", s)
    return (None if m[1] is None else read_angle(m[1], out)), (0 if m[2] is None else read_angle(m[2], out))


LABEL = {
    **{i: s for i, s in enumerate(["I", "X", "Y", "Z"])},
}


def says(e, s, cmd, out, par=None):
    """Claim: the text s describes the command."""
    if e.mode == "concrete":
        e.notes.append(s)
    try:
        r = read_command(s, out)
        k = cmd.kind.name
        e.check(r.kind == k, f"{k} is printed as {r.kind}")
        e.check(r.nodes == (list(cmd.nodes) if k == "E" else [] if k == "T" else [cmd.node]), "the nodes are printed")
        if k in "XZS":
            e.check(len(set(r.dom)) == len(r.dom) and set(r.dom) == set(cmd.domain), "the domain is printed")
        if k == "M":
            e.check(len(r.dom) == len(set(r.dom)) and set(r.dom) == set(cmd.s_domain), "the s-domain is printed")
            e.check(len(r.tdom) == len(set(r.tdom)) and set(r.tdom) == set(cmd.t_domain), "the t-domain is printed")
            meas(e, r.args, cmd.measurement, out, par)
        elif k == "C":
            e.check(r.args == [str(cmd.clifford)], "the Clifford is printed")
        else:
            e.check(not r.args, "no other arguments")
    except (Bad, ValueError) as ex:
        e.check(False, f"printed command: {ex}")


def meas(e, args, m, out, par):
    if isinstance(m, PauliMeasurement):
        want = [] if m == Measurement.X else [("+" if m.sign == Sign.PLUS else "-") + m.axis.name]
        e.check(args == want, "the Pauli measurement is printed")
        return
    args = list(args)
    plane = args.pop(0) if args and args[0] in ("XY", "XZ", "YZ") else "XY"
    e.check(plane == m.plane.name, "the plane is printed")
    e.check(len(args) == 1 and args[0] not in ("+X", "-X", "+Y", "-Y", "+Z", "-Z"), "one angle is printed")
    if par is not None:
        a, b = read_affine(args[0], "alpha", out)
        near(e, b, par[1], "the constant of the angle is printed")
        if a is None:
            near(e, par[0] * math.pi if type(par[0]) is not Real else par[0], 1 if type(par[0]) is not Real else Fraction(1 / math.pi), "a coefficient 1 is omitted")
        else:
            near(e, a, par[0], "the coefficient of the angle is printed")
        return
    near(e, read_angle(args[0], out), m.angle, "the angle is printed")


# ---------------------------------------------------------------- generation
def setup(e, dens=DENS):
    proxy.UNIT_DEN = 1
    text.install(e, gpp, dens)
    if e.mode == "concrete":
        gparam.__dict__.pop("float", None)
    else:
        gparam.float = text._float
    e.repr_tokens = True
    gpp.default_output_format.set(ASCII)


def subset(e, name, universe):
    return {x for x in universe if bit(f"{name}[{x}]")}


def gen_cmd(e, kind, meas_kinds=(*PLANES, *PAULIS), dom=(3, 12, 1), node=None):
    n = e.choose("node", NODES[:3]) if node is None else node
    k = kind
    if k == "N":
        return command.N(n)
    if k == "E":
        return command.E((n, next(x for x in NODES if x != n)))
    if k == "M":
        mk_ = e.choose("meas", list(meas_kinds))
        return command.M(n, mk_meas(mk_, real("a", -3, 3) if mk_ in PLANES else None), subset(e, "s", dom), subset(e, "t", dom))
    if k == "C":
        return command.C(n, Clifford(e.choose("clifford", range(24))))
    if k == "T":
        return command.T()
    return getattr(command, k)(n, subset(e, "d", dom))


def h_angle(e, dens, mul=(False, True), lim=(1000,)):
    setup(e, dens)
    a = real("a", -3, 3)
    out = e.choose("out", [ASCII, UNI, TEX])
    how = e.choose("how", ["argument", "default"])
    m = e.choose("mul", list(mul))
    md = e.choose("max", list(lim))
    if how == "default":
        gpp.default_output_format.set(out)
    s = gpp.angle_to_str(a, None if how == "default" else out, max_denominator=md, multiplication_sign=m)
    gpp.default_output_format.set(ASCII)
    if e.mode == "concrete":
        e.notes.append(s)
    try:
        near(e, read_angle(s, out), a, "the printed angle is the angle")
    except Bad as ex:
        e.check(False, f"printed angle: {ex}")
        return
    if m:
        e.check(not re.search(r"\d\\?(pi|π)", s), "the multiplication sign is explicit")
    else:
        e.check("*" not in s and "×" not in s and "times" not in s, "the multiplication sign is implicit")
    e.reached()


def h_command(e, kind, **kw):
    setup(e, SHORT)
    cmd = gen_cmd(e, kind, **kw)
    out = e.choose("out", [ASCII, UNI, TEX])
    says(e, gpp.command_to_str(cmd, out), cmd, out)
    e.reached()


def h_parameter(e, plane="XY"):
    """Angles with a parameter."""
    setup(e, ("no", 1, 4))
    x = Placeholder("alpha")
    a, b = real("a", -2, 2), real("b", -2, 2)
    e.assume(sor(a > 0, a < 0))
    ang = AffineExpression(a, x, b)
    m = BlochMeasurement(ang, Plane[e.choose("plane", PLANES)])
    cmd = command.M(2, m, {1}, set())
    out = e.choose("out", [ASCII, UNI, TEX])
    says(e, gpp.command_to_str(cmd, out), cmd, out, (a, b))
    e.reached()


def h_clifford(e):
    """Different Clifford commands print differently."""
    setup(e)
    out = e.choose("out", [ASCII, UNI, TEX])
    i = e.choose("i", range(24))
    j = e.choose("j", range(24))
    if i == j:
        return
    same = gpp.command_to_str(command.C(0, Clifford(i)), out) == gpp.command_to_str(command.C(0, Clifford(j)), out)
    if same and any(i in g and j in g for g in ALIKE) and known("P32", "clifford-labels"):
        e.reached()
        return
    e.check(not same, "different Cliffords print differently")
    e.check(repr(Clifford(i)) != repr(Clifford(j)), "different Cliffords are represented differently")
    e.reached()


ALIKE = [{9, 11}, {10, 13, 14}, set(range(16, 24))]


def alike_still():
    return all(len({str(Clifford(i)) for i in g}) == 1 for g in ALIKE)


def h_pattern(e, kinds, L, inputs=(0,)):
    """The order, the limit and the selection of the commands of a pattern."""
    setup(e)
    p = Pattern(input_nodes=[0])
    cmds = []
    for i in range(L):
        k = e.choose(f"kind{i}", kinds)
        c = {"N": lambda i=i: command.N(10 + i), "E": lambda i=i: command.E((0, 10 + i)), "M": lambda: command.M(12, Measurement.YZ(0.25), {1, 0}, {2}), "X": lambda i=i: command.X(0, {10, 1}), "Z": lambda: command.Z(0), "C": lambda: command.C(0, Clifford.S), "T": command.T, "S": lambda: command.S(11, {1})}[k]()
        cmds.append(c)
    p = types.SimpleNamespace(__iter__=None)
    pat = Pattern(input_nodes=[])
    pat._Pattern__seq[:] = cmds
    out = e.choose("out", [ASCII, UNI, TEX])
    ltr = e.choose("ltr", [False, True])
    limit = e.choose("limit", [None, 0, 1, L - 1, L, "default"]) if L > 1 else e.choose("limit", [None, 0, 1, "default"])
    tgt = e.choose("target", [None, "some"])
    target = None if tgt is None else {command.CommandKind[k] for k in kinds[:2]}
    kw = {} if limit == "default" else {"limit": limit}
    how = e.choose("how", ["function", "method"])
    if how == "function":
        s = gpp.pattern_to_str(pat, out, ltr, target=target, **kw)
    else:
        s = {ASCII: pat.to_ascii, UNI: pat.to_unicode, TEX: pat.to_latex}[out](left_to_right=ltr, target=target, **kw)
    if e.mode == "concrete":
        e.notes.append(s)
    want = [c for c in cmds if target is None or c.kind in target]
    if not ltr:
        want = want[::-1]
    m = re.fullmatch(r"(.*?)(?:\.\.\.\((\d+) more commands\))?", s, re.S)
    body, more = m[1], int(m[2] or 0)
    if out == TEX:
        e.check(body.startswith("\\(") and body.endswith("\\)"), "LaTeX is in math mode")
        body = body[2:-2]
    parts = body.split("\\," if out == TEX else " ") if body else []
    e.check(len(parts) + more == len(want), "every command is printed or counted")
    if limit is None or limit == "default" or limit >= len(want):
        e.check(more == 0 and m[2] is None, "all the commands are printed up to the limit")
    else:
        e.check(len(parts) <= limit, "no more commands than the limit are printed")
    for t, c in zip(parts, want):
        says(e, t, c, out)
    e.check(list(pat) == cmds, "the pattern is unchanged")
    if limit == "default" and tgt is None and not ltr and out == ASCII:
        e.check(str(pat) == s, "str gives the ASCII form")
    e.reached()


# ---------------------------------------------------------------- evaluable representations
def scope(e, extra=()):
    import graphix

    ns = {"graphix": graphix, "Measurement": Measurement, "Clifford": Clifford, "Axis": Axis, "Plane": Plane, "Sign": Sign, "Pattern": Pattern, "Pauli": Pauli, "ComplexUnit": fu.ComplexUnit, "Placeholder": dict(extra).get, "AffineExpression": AffineExpression, **{k: getattr(command, k) for k in "NEMCXZST"}, **dict(extra)}
    ns["__t"] = lambda i: e.tokens[i]
    return ns


def evaluate(e, s, extra=()):
    if e.mode == "concrete":
        e.notes.append(s)
    try:
        return eval(text.TOK.sub(r"__t(\1)", s), scope(e, extra))  # noqa: S307
    except Exception as ex:  # noqa: BLE001
        if isinstance(ex, (engine.Unsupported, engine.Violation)):
            raise
        e.check(False, f"the representation does not evaluate: {type(ex).__name__}")


def same_angle(e, got, want, msg):
    if isinstance(want, AffineExpression):
        e.check(isinstance(got, AffineExpression) and got.x is want.x, msg)
        near(e, got.a, want.a, msg)
        near(e, got.b, want.b, msg)
    else:
        near(e, got, want, msg)


def same_cmd(e, got, cmd, msg):
    e.check(type(got) is type(cmd), msg)
    k = cmd.kind.name
    if k == "M" and isinstance(cmd.measurement, BlochMeasurement):
        e.check(got.node == cmd.node and got.s_domain == cmd.s_domain and got.t_domain == cmd.t_domain and type(got.measurement) is BlochMeasurement and got.measurement.plane == cmd.measurement.plane, msg)
        same_angle(e, got.measurement.angle, cmd.measurement.angle, msg)
    elif k == "N":
        e.check(got.node == cmd.node and got.state.plane == cmd.state.plane, msg)
        same_angle(e, got.state.angle, cmd.state.angle, msg)
    else:
        e.check(got == cmd, msg)


def h_repr(e, kind, **kw):
    setup(e)
    extra = {}
    if kind == "Nstate":
        cmd = command.N(e.choose("node", NODES[:3]), states.PlanarState(Plane[e.choose("plane", PLANES)], real("a", -3, 3)))
    elif kind == "Mparam":
        x = Placeholder("alpha")
        extra = {"alpha": x}
        ang = e.choose("expr", [0, 1])
        a = real("a", -2, 2)
        e.assume(sor(a > 0, a < 0))
        cmd = command.M(0, BlochMeasurement(AffineExpression(a, x, real("b", -2, 2)) if ang else x, Plane[e.choose("plane", PLANES)]), subset(e, "s", (1, 12)), subset(e, "t", (1, 12)))
    else:
        cmd = gen_cmd(e, kind, **kw)
    same_cmd(e, evaluate(e, repr(cmd), extra), cmd, "the representation evaluates to the command")
    e.reached()


def h_repr_pattern(e, nin=1):
    """Representations of whole patterns."""
    setup(e)
    nin = e.choose("inputs", [0, 1, 2])
    ins = [7, 0][:nin]
    cmds = []
    if e.choose("more", [True, False]):
        cmds = [command.N(3), command.E((3, 5)), command.N(5, states.BasicStates.ZERO)][:: e.choose("step", [1, 2])]
        if nin:
            cmds += [command.M(7, BlochMeasurement(real("a", -3, 3), Plane.XZ), subset(e, "s", (1, 12)), set()), command.X(3, subset(e, "d", (7, 1)))]
        if e.choose("tail", [True, False]):
            cmds += [command.C(3, Clifford.H), command.T()]
    outs = [n for n in (3, 5) if any(c.kind.name == "N" and c.node == n for c in cmds)] + [n for n in ins if not any(c.kind.name == "M" for c in cmds) or n != 7]
    if e.choose("reverse", [False, True]):
        outs = outs[::-1]
    p = Pattern(input_nodes=ins, cmds=cmds, output_nodes=outs)
    q = evaluate(e, repr(p))
    e.check(type(q) is Pattern and q.input_nodes == ins and q.output_nodes == outs and len(list(q)) == len(cmds), "the representation evaluates to the pattern")
    for x, c in zip(q, cmds):
        same_cmd(e, x, c, "the representation evaluates to the pattern")
    e.reached()


def h_repr_values(e):
    """Representations of fundamental values."""
    setup(e)
    which = e.choose("which", ["clifford", "sign", "unit", "axis", "plane", "pauli", "state", "affine", "placeholder", "measurement"])
    if which == "clifford":
        v = Clifford(e.choose("i", range(24)))
    elif which == "sign":
        v = e.choose("v", list(Sign))
    elif which == "unit":
        v = e.choose("v", list(fu.ComplexUnit))
    elif which == "axis":
        v = e.choose("v", list(Axis))
    elif which == "plane":
        v = e.choose("v", list(Plane))
    elif which == "pauli":
        v = e.choose("v", list(Pauli))
    elif which == "measurement":
        k = e.choose("v", [*PAULIS, *PLANES])
        v = mk_meas(k, real("a", -3, 3) if k in PLANES else None)
    elif which == "state":
        v = e.choose("v", [*states.BasicStates.VEC])
    else:
        x = Placeholder("alpha")
        if which == "placeholder":
            e.check(evaluate(e, repr(x), {"alpha": x}) is x and str(x) == "alpha", "the representation of a parameter")
        else:
            a = real("a", -2, 2)
            e.assume(sor(a > 0, a < 0))
            v = AffineExpression(a, x, real("b", -2, 2))
            same_angle(e, evaluate(e, repr(v), {"alpha": x}), v, "the representation evaluates to the expression")
            same_angle(e, evaluate(e, str(v), {"alpha": x}), v, "the printed expression evaluates to the expression")
        e.reached()
        return
    w = evaluate(e, repr(v))
    e.check(type(w) is type(v), "the representation evaluates to the value")
    if which == "measurement" and isinstance(v, BlochMeasurement):
        e.check(w.plane == v.plane, "the representation evaluates to the value")
        same_angle(e, w.angle, v.angle, "the representation evaluates to the value")
    else:
        e.check(w == v, "the representation evaluates to the value")
    if which == "sign":
        e.check(str(v) == ("+" if v == Sign.PLUS else "-"), "the printed sign")
    if which == "unit":
        e.check(complex(str(v)) == complex(v), "the printed unit")
    if which == "pauli":
        e.check(eval(str(v), {k: getattr(Pauli, k) for k in "IXYZ"}) == v, "the printed Pauli")  # noqa: S307
    if which == "measurement" and isinstance(v, PauliMeasurement):
        e.check(str(v) == str(v.sign) + v.axis.name, "the printed measurement")
    e.reached()


GATES = ["CCX", "RZZ", "CNOT", "CZ", "SWAP", "H", "S", "X", "Y", "Z", "I", "M", "RX", "RY", "RZ", "J"]


def h_gate(e, gates):
    """Represented gates: the angle is shown in radians."""
    setup(e)
    k = e.choose("gate", gates)
    C = getattr(instruction, k)
    q = e.choose("qubits", [(0, 12, 3), (11, 0, 1)])
    a = None
    if k in ("RX", "RY", "RZ", "J", "RZZ"):
        a = real("a", -3, 3)
        g = C(*q[:2], a) if k == "RZZ" else C(q[0], a)
        args = list(q[:2]) if k == "RZZ" else [q[0]]
    elif k == "CCX":
        g, args = C(q[0], q[1:]), [q[0], tuple(q[1:])]
    elif k in ("CZ", "SWAP"):
        g, args = C(q[:2]), [tuple(q[:2])]
    elif k == "CNOT":
        g, args = C(q[0], q[1]), list(q[:2])
    elif k == "M":
        ax = e.choose("axis", list(Axis))
        g, args = C(q[0], ax), [q[0], ax]
    else:
        g, args = C(q[0]), [q[0]]
    s = repr(g)
    if e.choose("circuit", [False, True]):
        c = Circuit(13)
        c.instruction.append(g)
        c.instruction.append(instruction.H(4))
        t = repr(c)
        e.check(t.startswith("Circuit(width=13, instr=[") and t.endswith(", H(4)])"), "the represented circuit")
        s = t[len("Circuit(width=13, instr=[") : -len(", H(4)])")]
    if e.mode == "concrete":
        e.notes.append(s)
    try:
        m = full(r"([A-Z]+)\((.*)\)", s)
        e.check(m[1] == k, "the name of the gate")
        parts = [x.strip() for x in split_top(m[2])]
        e.check(len(parts) == len(args) + (a is not None), "the number of arguments")
        for x, w in zip(parts, args):
            e.check(eval(x, {"Axis": Axis}) == w, "the qubits of the gate")  # noqa: S307
        if a is not None:
            near(e, read_angle(parts[-1], ASCII), a, "the angle of the gate")
    except (Bad, ValueError) as ex:
        e.check(False, f"represented gate: {ex}")
    e.reached()


def h_flow(e, what, nodes=(12, 1, 0)):
    """Correction functions and orders of flows and corrections."""
    setup(e)
    out = e.choose("out", [ASCII, UNI, TEX])
    multi = e.choose("multi", [False, True])
    U = (3, 12, 1)
    f = {n: subset(e, f"f{n}", U) for n in nodes[: e.choose("size", [0, 2, 3])]}
    layers = [[{3}, {12, 1}, {0}], [{12, 0, 1, 3}], []][e.choose("order", range(3))]
    layers = [frozenset(x) for x in layers]
    if what == "xz":
        obj = fc.XZCorrections.__new__(fc.XZCorrections)
        g = {n: {1} for n in nodes[:2]}
        fields = {"x_corrections": f, "z_corrections": g}
        names = [("x", f), ("z", g)]
    else:
        K = {"pauli": fc.PauliFlow, "g": fc.GFlow, "causal": fc.CausalFlow}[what]
        obj = K.__new__(K)
        fields = {"correction_function": f}
        names = [({"pauli": "p", "g": "g", "causal": "c"}[what], f)]
    fields["partial_order_layers"] = tuple(layers)
    fields["og"] = None
    for k, v in fields.items():
        object.__setattr__(obj, k, v)
    s = {ASCII: obj.to_ascii, UNI: obj.to_unicode, TEX: obj.to_latex}[out](multiline=multi)
    if e.mode == "concrete":
        e.notes.append(s)
    sep = {(TEX, True): r";\\", (TEX, False): r"; \;"}.get((out, multi), "\n" if multi else "; ")
    lt = {ASCII: " < ", UNI: " ≺ ", TEX: r" \prec "}[out]
    inner = {(TEX, True): r",\\", (TEX, False): r", \;"}.get((out, multi), "\n" if multi else ", ")

    def rset(t):
        m = full(r"\\\{(.*)\\\}" if out == TEX else r"\{(.*)\}", t)
        xs = [int(x) for x in m[1].split(", ")] if m[1] else []
        e.check(len(xs) == len(set(xs)), "elements are printed once")
        return set(xs)

    try:
        # the order is after the last separator; entries are recognised one by one
        body, _, order = s.rpartition(sep)
        entries = re.findall(r"([a-z])\((\d+)\) = (\\?\{[^{}]*\})", body)
        want = [(nm, n, v) for nm, d in names for n, v in d.items()]
        e.check([(a, int(b)) for a, b, _ in entries] == [(a, b) for a, b, _ in want], "every correction is printed, in order")
        for (_, _, t), (_, _, v) in zip(entries, want):
            e.check(rset(t) == v, "the correction set is printed")
        rest = re.sub(r"([a-z])\((\d+)\) = (\\?\{[^{}]*\})", "§", body)
        e.check(rest == sep.join(inner.join("§" for _ in d) for _, d in names), "the separators")
        ls = [rset(t) for t in order.split(lt)] if order else []
        e.check(ls == [set(x) for x in layers[::-1]], "the layers are printed from the first to the last")
    except (Bad, ValueError) as ex:
        e.check(False, f"printed flow: {ex}")
        return
    if out == ASCII and not multi:
        e.check(str(obj) == s, "str gives the ASCII form")
    e.reached()


def h_string(e):
    """Pauli strings."""
    setup(e)
    n = e.choose("dim", [1, 3, 4])
    ops = [e.choose(f"op{i}", "IXYZ") for i in range(n)]
    sg = e.choose("sign", list(Sign))
    p = PauliString(sign=sg, dim=n, axes={i: Axis[o] for i, o in enumerate(ops) if o != "I"})
    e.check(str(p) == str(sg) + "".join(ops), "the printed Pauli string")
    e.reached()


def jobs_P32(tier):
    t = tier == "thorough"
    js = [
        Job("angles", h_angle, dict(dens=DENS if not t else ("no", 1, 2, 3, 4, 5, 7, 8, 12, 100, 999, 1000)), "all angles in [-3, 3] close to a fraction with the given denominators, or far from any"),
        Job("angles_max", h_angle, dict(dens=("no", 1, 3, 8), mul=(False,), lim=(1, 4, 50)), "smaller denominators"),
        *[Job(f"command_{k}", h_command, dict(kind=k), f"commands {k}, all formats", 3 if k == "M" else 1) for k in "NEMCXZST"],
        Job("parameters", h_parameter, {}, "measurement angles with a parameter", 2),
        Job("cliffords", h_clifford, {}, "all pairs of Cliffords", 1),
        Job("patterns", h_pattern, dict(kinds=["M", "X", "E", "N"], L=2), "order, limits, selection: two commands", 2),
        Job("patterns3", h_pattern, dict(kinds=["T", "M", "Z"], L=3), "order, limits, selection: three commands", 2),
        Job("patterns1", h_pattern, dict(kinds=["C", "S"], L=1), "order, limits, selection: one command", 1),
        Job("patterns0", h_pattern, dict(kinds=["C", "S"], L=0), "the empty pattern", 1),
        *[Job(f"repr_{k}", h_repr, dict(kind=k), f"representations of commands {k}") for k in ("N", "Nstate", "E", "M", "Mparam", "C", "X", "Z", "S", "T")],
        Job("repr_pattern", h_repr_pattern, {}, "representations of patterns"),
        Job("repr_values", h_repr_values, {}, "representations of fundamental values"),
        Job("gates", h_gate, dict(gates=GATES), "represented gates and circuits"),
        *[Job(f"flow_{k}", h_flow, dict(what=k), f"printed corrections: {k}", 2) for k in ("pauli", "g", "causal", "xz")],
        Job("strings", h_string, {}, "Pauli strings of up to 4 qubits"),
    ]
    return js


CHECKS = {
    "P32": dict(
        jobs=jobs_P32,
        quick_s=150,
        thorough_s=600,
        outside="states of prepared nodes in the human-readable forms; printed state vectors and density matrices; angles within rounding of each other; other expression types",
        known={"clifford-labels": ("C(0, c) prints alike for several Cliffords c (labels \\sqrt{I}, \\sqrt{-I}, I^{1/3})", alike_still)},
    ),
}
