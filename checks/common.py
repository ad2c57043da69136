"""Shared generators of symbolic patterns, graphs, measurements."""

from __future__ import annotations

import itertools
import os
import sys
import warnings

import graphix
from graphix import command
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.pattern import Pattern
from graphix.states import BasicStates

from symx import engine, proxy, sem
from symx.engine import ONE, ZERO, Anf, PathEnd, mk
from symx.proxy import Bit, Real, SymBool, SymSet, angle, bit, real, sand, snot, sor, symset
from symx.runner import Job

LABELS = [4, 0, 7, 2, 9, 3, 12, 5]
PLANES = ["XY", "YZ", "XZ"]
PAULIS = ["+X", "-X", "+Y", "-Y", "+Z", "-Z"]


def mk_meas(kind, a):
    """kind: 'XY','YZ','XZ' with angle a, 'XY@0.5' with a fixed angle, or a signed Pauli like '-Y'."""
    if "@" in kind:
        pl, v = kind.split("@")
        return BlochMeasurement(float(v), Plane[pl])
    if kind in PLANES:
        return BlochMeasurement(a, Plane[kind])
    return PauliMeasurement(Axis[kind[1]], Sign.MINUS if kind[0] == "-" else Sign.PLUS)


def gen_meas(e, name, kinds):
    k = e.choose(f"{name}.kind", kinds)
    return mk_meas(k, angle(f"{name}.angle") if k in PLANES else None)


def out_anf(e, node, tag="m"):
    """Outcome variable of a node (shared between the patterns compared)."""
    return e.anf(f"{tag}[{node}]")


class Outc:
    """Outcome assignment shared by several interpretations."""

    def __init__(self, e, tag="m"):
        self.e, self.tag, self.d = e, tag, {}

    def __call__(self, node):
        if node not in self.d:
            self.d[node] = out_anf(self.e, node, self.tag)
        return self.d[node]


def gen_pattern(e, n, nin, nout, *, kinds, edges="choose", edge_times=False, mid=(), mid_c=(), final_c=(None,),
                labels=None, late=False, states=("PLUS",), doms="all", orders=("CXZ",), out_perm=False, in_perm=False,
                meas_out_of=None, sdom=True, tdom=True, final=True):
    """A symbolic pattern of n nodes: nin first are inputs, nout last are outputs.

    Measurement order is the label order.  Domains range over all nodes measured before.
    edges: "choose" (every subset), "path", "complete", a list of index pairs or {"fixed": pairs, "maybe": pairs}.
    edge_times: E commands may come at any step before their first endpoint is measured.
    mid: indices (step, node index) after which optional X/Z corrections (and Cliffords mid_c) are inserted.
    """
    labels = labels or LABELS[:n]
    inputs = labels[:nin]
    outputs = labels[n - nout:] if nout else []
    nm = n - nout
    meas = labels[:nm]
    pos = {v: i for i, v in enumerate(labels)}
    if edges == "choose":
        pairs = [p for p in itertools.combinations(range(n), 2) if e.choose(f"e{p}", [0, 1])]
    elif edges == "multi":  # an edge may also be applied twice (and cancel)
        pairs = [p for p in itertools.combinations(range(n), 2) for _ in range(e.choose(f"e{p}", [0, 1, 2]))]
    elif edges == "path":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif edges == "complete":
        pairs = list(itertools.combinations(range(n), 2))
    elif isinstance(edges, dict):  # fixed edges, and edges that may be there
        pairs = [tuple(p) for p in edges["fixed"]] + [tuple(p) for p in edges["maybe"] if e.choose(f"e{p}", [1, 0])]
    else:
        pairs = [tuple(p) for p in edges]
    etime = {}
    for p in pairs:
        tmax = min(min(p), nm)
        etime[p] = e.choose(f"t{p}", list(range(tmax + 1))) if edge_times and tmax > 0 else 0
    pat = Pattern(input_nodes=inputs)
    prepared = set(range(nin))
    state = {}

    def prep(i):
        if i not in prepared:
            prepared.add(i)
            s = e.choose(f"st{i}", list(states))
            pat.add(command.N(labels[i], getattr(BasicStates, s)))

    if not late:
        for i in range(n):
            prep(i)
    done = []

    def dom(name):
        if not done:
            return set()
        return symset(name, done)

    def corrections(name, node, cl):
        order = e.choose(f"{name}.ord", list(orders)) if len(orders) > 1 else orders[0]
        for k in order:
            if k == "X":
                d = dom(f"{name}.X")
                if done:
                    pat.add(command.X(node, d))
            elif k == "Z":
                d = dom(f"{name}.Z")
                if done:
                    pat.add(command.Z(node, d))
            elif k == "C" and cl:
                c = e.choose(f"{name}.C", list(cl))
                if c is not None:
                    pat.add(command.C(node, Clifford(c)))

    for step in range(nm + 1):
        for p in pairs:
            if etime[p] == step:
                for i in p:
                    prep(i)
                u, v = (labels[p[0]], labels[p[1]])
                pat.add(command.E((u, v) if (p[0] + p[1]) % 2 else (v, u)))
        if step == nm:
            break
        prep(step)
        # measure
        node = labels[step]
        m = gen_meas(e, f"M{node}", kinds)
        pat.add(command.M(node, m, dom(f"s{node}") if sdom else set(), dom(f"t{node}") if tdom else set()))
        done.append(node)
        for (st, i) in mid:
            if st == step and i > step:
                prep(i)
                corrections(f"mid{st}.{i}", labels[i], mid_c)
    for i in range(nm, n):
        prep(i)
        if final:
            corrections(f"fin{i}", labels[i], final_c if any(c is not None for c in final_c) else ())
    outs = list(outputs)
    if out_perm and len(outs) > 1:
        outs = list(e.choose("outperm", list(itertools.permutations(outs))))
    pat.reorder_output_nodes(outs)
    if in_perm and nin > 1:
        pat.reorder_input_nodes(list(e.choose("inperm", list(itertools.permutations(inputs)))))
    return pat


def bitval(a):
    c = a.const()
    return c if c is not None else Bit(a)


def show(p):
    return f"Pattern(in={list(p.input_nodes)}, out={list(p.output_nodes)}, cmds={list(p)!r})"


def snapshot(p):
    """An isolated copy of the pattern's commands (domains duplicated)."""
    q = Pattern(input_nodes=list(p.input_nodes))
    for c in p:
        k = c.kind.name
        if k == "M":
            q.add(command.M(c.node, c.measurement, c.s_domain.copy(), c.t_domain.copy()))
        elif k in ("X", "Z"):
            q.add(type(c)(c.node, c.domain.copy()))
        else:
            q.add(c)
    q.reorder_output_nodes(list(p.output_nodes))
    return q


def relax_runnability():
    """check_runnability iterates over every domain, which would fork on every bit; runnability of the
    generated patterns holds by construction and check_runnability itself is the subject of its own property."""
    if getattr(Pattern, "_symx_relaxed", False):
        return
    orig = Pattern.check_runnability

    def check_runnability(self):
        for c in self:
            for attr in ("s_domain", "t_domain", "domain"):
                if type(getattr(c, attr, None)) is SymSet:
                    return None
        return orig(self)

    Pattern._symx_check = orig
    Pattern.check_runnability = check_runnability
    Pattern._symx_relaxed = True


def shim_all():
    """set()/frozenset() calls inside graphix accept symbolic sets."""
    for name, m in list(sys.modules.items()):
        if name.startswith("graphix") and m is not None and name not in ("graphix.visualization",):
            proxy.set_shims(m)


_KNOWN = None


def known(pid, key):
    """Is this defect listed in known_findings.txt?  (lines "known: property=<id> key=<key> ...")"""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = set()
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
        for line in open(path):
            p = line.split()
            if len(p) >= 3 and p[0] == "known:" and p[1].startswith("property=") and p[2].startswith("key="):
                _KNOWN.add((p[1][9:], p[2][4:]))
    return (pid, key) in _KNOWN
