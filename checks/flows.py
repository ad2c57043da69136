"""Flow search, flow-based corrections, validators, extraction from patterns, open graphs (P12-P18)."""

from __future__ import annotations

import warnings
from fractions import Fraction

import networkx as nx
from graphix.flow import core as fcore
from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.opengraph import OpenGraph, OpenGraphError

from .common import *  # noqa: F403
from .rewrites import bitb, deq, live_counts, mnodes, runnable

shim_all()
relax_runnability()
z3 = engine.z3
warnings.simplefilter("ignore")

GPLANES = ["XY", "YZ", "XZ"]
AXES = ["X", "Y", "Z"]
SIX = GPLANES + AXES


# ------------------------------------------------------------------ symbolic graphs
class SymGraph(nx.Graph):
    """A networkx graph whose edges are symbolic bits; neighbourhoods are symbolic sets.

    Any access other than neighbors() decides the edges (forking) and falls back to networkx."""

    def __init__(self, nodes=(), bits=None):
        self.__dict__["_pend"] = None
        super().__init__()
        self.add_nodes_from(nodes)
        self.__dict__["_pend"] = bits  # frozenset({u, v}) -> Anf

    @property
    def _adj(self):
        if self.__dict__.get("_pend") is not None:
            bits = self.__dict__["_pend"]
            self.__dict__["_pend"] = None
            for k, a in bits.items():
                u, v = sorted(k)
                if bool(bitval(a)):
                    self.add_edge(u, v)
        return self.__dict__["_store"]

    @_adj.setter
    def _adj(self, v):
        self.__dict__["_store"] = v

    def neighbors(self, n):
        bits = self.__dict__["_pend"]
        if bits is None:
            return super().neighbors(n)
        r = SymSet({v: self.edge(n, v) for v in self._node if v != n})
        return r if any(a.const() is None for a in r.m.values()) else iter([v for v, a in r.m.items() if a.const()])

    def edge(self, u, v):
        return self.__dict__["_pend"].get(frozenset((u, v)), ZERO)

    def copy(self, as_view=False):
        return nx.Graph(self)


def gen_adj(e, labels, mode, drop=()):
    """Adjacency: dict frozenset({u,v}) -> Anf.  mode: 'sym' (symbolic), 'fork' (each edge set is a path), list."""
    A = {}
    for i, j in itertools.combinations(range(len(labels)), 2):
        k = frozenset((labels[i], labels[j]))
        if mode == "sym":
            A[k] = e.anf(f"e{i}{j}")
        elif mode == "fork":
            A[k] = mk(e.choose(f"e{i}{j}", [0, 1])) if (i, j) not in drop else ZERO
        else:
            A[k] = mk((i, j) in mode)
    return A


def mk_graph(labels, A):
    if all(a.const() is not None for a in A.values()):
        g = nx.Graph()
        g.add_nodes_from(labels)
        g.add_edges_from(tuple(sorted(k)) for k, a in A.items() if a.const())
        return g
    return SymGraph(labels, A)


def adj(A, u, v):
    return A.get(frozenset((u, v)), ZERO)


def odd(A, nodes, S, v):
    """Anf: v in Odd(S), S: dict node -> Anf."""
    r = ZERO
    for u, a in S.items():
        r = r ^ (adj(A, u, v) & a)
    return r


# ------------------------------------------------------------------ own definitions
def T(x):
    return bitb(x)


def F(x):
    return bitb(x.neg())


def flow_conditions(kind, A, nodes, ins, outs, lab, p, before):
    """Conditions of a causal flow / gflow / Pauli flow p (dict node -> dict node -> Anf) for an order
    before(i, j) (i strictly before j).  Returns a list of claims."""
    out = []
    meas = [v for v in nodes if v not in outs]
    for i in meas:
        S = p[i]
        ind = lambda v: S.get(v, ZERO)  # noqa: E731
        od = {v: odd(A, nodes, S, v) for v in nodes}
        for v in ins:
            out.append(F(ind(v)))
        if kind == "causal":
            if lab[i] != "XY":
                out.append(False)
            # exactly one
            mem = [ind(v) for v in nodes]
            out.append(sor(*[sand(T(mem[a]), *[F(mem[b]) for b in range(len(mem)) if b != a]) for a in range(len(mem))]))
            for v in nodes:
                # v = c(i): i ~ v, i before v, i before every other neighbour of v
                out.append(simpl(T(ind(v)), T(adj(A, i, v))))
                out.append(simpl(T(ind(v)), before(i, v)))
                for k in nodes:
                    if k != i:
                        out.append(simpl(sand(T(ind(v)), T(adj(A, v, k))), before(i, k)))
            continue
        for j in nodes:
            if j == i:
                continue
            lj = lab.get(j)  # None for outputs
            if kind == "gflow" or lj not in ("X", "Y"):
                out.append(simpl(T(ind(j)), before(i, j)))
            if kind == "gflow" or lj not in ("Y", "Z"):
                out.append(simpl(T(od[j]), before(i, j)))
            if kind == "pauli" and lj == "Y":
                out.append(sor(before(i, j), F(ind(j) ^ od[j])))
        si, oi = ind(i), od[i]
        l = lab[i]
        if l == "XY":
            out += [F(si), T(oi)]
        elif l == "XZ":
            out += [T(si), T(oi)]
        elif l == "YZ":
            out += [T(si), F(oi)]
        elif l == "X":
            out.append(T(oi))
        elif l == "Z":
            out.append(T(si))
        elif l == "Y":
            out.append(T(si ^ oi))
    return out


def simpl(a, b):
    return sor(snot(a), b)


def layer_before(layers):
    pos = {}
    for k, l in enumerate(layers):
        for v in l:
            pos[v] = k
    return lambda i, j: pos.get(i, -1) > pos.get(j, 10**6)


def layering_ok(nodes, outs, layers):
    layers = [set(l) for l in layers]
    if not nodes:
        return all(not l for l in layers) and not layers
    if not layers:
        return False
    if outs:
        if layers[0] != set(outs):
            return False
        rest = layers[1:]
    else:
        rest = layers
    seen = set()
    for l in rest:
        if not l or (l & seen) or not l <= set(nodes) - set(outs):
            return False
        seen |= l
    return seen == set(nodes) - set(outs)


def existence(e, kind, A, nodes, ins, outs, lab):
    """z3 constraints saying that some flow of this kind exists (free variables: correction sets and order)."""
    meas = [v for v in nodes if v not in outs]
    order = {}
    for a, b in itertools.combinations(range(len(meas)), 2):
        order[a, b] = z3.Bool(f"?o{a}.{b}")
    pos = {v: k for k, v in enumerate(meas)}

    def bef(i, j):
        if j not in pos:
            return z3.BoolVal(True)
        a, b = pos[i], pos[j]
        return order[a, b] if a < b else z3.Not(order[b, a])

    cs = []
    m = len(meas)
    for a, b, c in itertools.permutations(range(m), 3):
        cs.append(z3.Implies(z3.And(bef(meas[a], meas[b]), bef(meas[b], meas[c])), bef(meas[a], meas[c])))

    def za(a):
        c = a.const()
        return z3.BoolVal(bool(c)) if c is not None else e.z(a)

    for i in meas:
        cand = [v for v in nodes if v not in ins]
        S = {v: z3.Bool(f"?p{pos[i]}.{nodes.index(v)}") for v in cand}
        l = lab[i]

        def ind(v):
            return S.get(v, z3.BoolVal(False))

        def od(v):
            r = None
            for u in cand:
                w = adj(A, u, v)
                if w.const() == 0:
                    continue
                t = S[u] if w.const() == 1 else z3.And(za(w), S[u])
                r = t if r is None else z3.Xor(r, t)
            return z3.BoolVal(False) if r is None else r

        if kind == "causal":
            if l != "XY":
                cs.append(z3.BoolVal(False))
                continue
            cs.append(z3.Or(*S.values()) if S else z3.BoolVal(False))
            for u, v in itertools.combinations(cand, 2):
                cs.append(z3.Not(z3.And(S[u], S[v])))
            for v in cand:
                cs.append(z3.Implies(S[v], za(adj(A, i, v)) if v != i else z3.BoolVal(False)))
                if v != i:
                    cs.append(z3.Implies(S[v], bef(i, v)))
                for k in nodes:
                    if k not in (i, v):
                        cs.append(z3.Implies(z3.And(S[v], za(adj(A, v, k))), bef(i, k)))
            continue
        for j in nodes:
            if j == i or j in outs:
                continue
            lj = lab.get(j)
            if kind == "gflow" or lj not in ("X", "Y"):
                cs.append(z3.Implies(ind(j), bef(i, j)))
            if kind == "gflow" or lj not in ("Y", "Z"):
                cs.append(z3.Implies(od(j), bef(i, j)))
            if kind == "pauli" and lj == "Y":
                cs.append(z3.Or(bef(i, j), ind(j) == od(j)))
        si, oi = ind(i), od(i)
        cs += {"XY": [z3.Not(si), oi], "XZ": [si, oi], "YZ": [si, z3.Not(oi)], "X": [oi], "Z": [si],
               "Y": [z3.Xor(si, oi)]}[l]
    return cs


def no_flow(e, kind, A, nodes, ins, outs, lab, msg):
    """Claim: no flow exists (for every graph of this path)."""
    cs = existence(e, kind, A, nodes, ins, outs, lab)
    if e.mode == "concrete":
        s = z3.Solver()
        s.add(*cs)
        if s.check() == z3.sat:
            m = s.model()
            wit = {str(d): z3.is_true(m[d]) for d in m.decls()}
            e.fail(msg + f" (witness {sorted(k for k, v in wit.items() if v)})")
        return
    e.stats.claims += 1
    e.check_z(z3.Not(z3.And(*cs)) if cs else z3.BoolVal(False), msg)


def claims(e, cs, msg):
    """One claim for a conjunction."""
    c = sand(*cs)
    e.check(c, msg)


def label_obj(e, l, style, i):
    """Measurement label: 'obj' -> Plane/Axis instance, 'meas' -> Measurement with symbolic angle / Pauli."""
    if style == "obj":
        return Plane[l] if l in GPLANES else Axis[l]
    if l in GPLANES:
        return BlochMeasurement(angle(f"a{i}") if style == "full" else gangle(f"a{i}"), Plane[l])
    return PauliMeasurement(Axis[l], Sign.PLUS if i % 2 else Sign.MINUS)


def gen_io(e, labels, io):
    """io: 'all' -> every pair of subsets, or a list of (inputs idx, outputs idx)."""
    n = len(labels)
    if io == "all":
        kind = [e.choose(f"io{i}", ["-", "i", "o", "io"]) for i in range(n)]
        ins = [labels[i] for i in range(n) if "i" in kind[i]]
        outs = [labels[i] for i in range(n) if "o" in kind[i]]
    else:
        i, o = e.choose("io", list(io))
        ins, outs = [labels[k] for k in i], [labels[k] for k in o]
    return ins, outs


def as_anf(s, nodes):
    s = SymSet.lift(s) or SymSet({x: ONE for x in s})
    return {v: s.mem(v) for v in nodes}


def show_og(A, ins, outs, lab):
    return f"edges={[tuple(sorted(k)) for k, a in A.items() if a.const()]} in={ins} out={outs} labels={lab}"


# ------------------------------------------------------------------ P12-P14
def h_search(e, kind, n, labs, io="all", graph="fork", styles=("obj",), labels=None, drop=()):
    labels = (labels or LABELS)[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    lab = {}
    if labs == "mix":
        for k, v in enumerate(meas):
            lab[v] = e.choose(f"l{k}", SIX if kind == "pauli" else GPLANES)
    elif isinstance(labs, (list, tuple)):
        for k, v in enumerate(meas):
            lab[v] = e.choose(f"l{k}", list(labs))
    style = e.choose("style", list(styles))
    A = gen_adj(e, labels, graph, drop)
    g = mk_graph(labels, A)
    og = OpenGraph(g, ins, outs, {v: label_obj(e, lab[v], style, i) for i, v in enumerate(meas)})
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, lab))
    if kind == "causal":
        f = og.to_causalflow_or_none()
    elif kind == "gflow":
        f = og.to_gflow_or_none()
    else:
        f = og.to_pauliflow_or_none()
    e.reached()
    if f is None:
        no_flow(e, kind, A, labels, ins, outs, lab, f"{kind} search returned None but a flow exists")
        if e.mode == "concrete" or e.stats.paths % 7 == 0:
            try:
                {"causal": og.to_causalflow, "gflow": og.to_gflow, "pauli": og.to_pauliflow}[kind]()
                e.fail("search raised no OpenGraphError")
            except OpenGraphError:
                pass
        return
    if e.mode == "concrete":
        e.notes.append(f"flow={dict(f.correction_function)} layers={list(f.partial_order_layers)}")
    e.check(type(f) is {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}[kind] and f.og is og or f.og == og,
            "flow of a different kind or for a different open graph")
    if e.mode == "concrete" or e.stats.paths % 7 == 0:
        f2 = {"causal": og.to_causalflow, "gflow": og.to_gflow, "pauli": og.to_pauliflow}[kind]()
        e.check(type(f2) is type(f) and {k: set(v) for k, v in f2.correction_function.items()} == {k: set(v) for k, v in f.correction_function.items()}
                and f2.partial_order_layers == f.partial_order_layers, f"to_{kind}flow and to_{kind}flow_or_none disagree")
    e.check(set(f.correction_function.keys()) == set(meas), "correction function not defined on the measured nodes")
    e.check(layering_ok(labels, outs, f.partial_order_layers), "layers do not form a valid measurement order")
    p = {i: as_anf(f.correction_function[i], labels) for i in meas}
    e.check(all(set(f.correction_function[i]) <= set(labels) for i in meas
                if type(f.correction_function[i]) is not SymSet), "correction sets mention foreign nodes")
    claims(e, flow_conditions(kind, A, labels, ins, outs, lab, p, layer_before(f.partial_order_layers)),
           f"returned {kind} flow violates its conditions")
    if kind != "causal":
        claims(e, focused_conditions(kind, A, labels, outs, lab, p), f"returned {kind} flow is not focused")
        if e.stats.paths % 5 == 0:
            e.check(bool(f.is_focused()), "is_focused() is False on a focused flow")


def focused_conditions(kind, A, nodes, outs, lab, p):
    """Simmons, Definition 4.3."""
    cs = []
    for i, S in p.items():
        for v in nodes:
            if v == i or v in outs:
                continue
            s, o = S.get(v, ZERO), odd(A, nodes, S, v)
            l = lab[v]
            if l not in ("XY", "X", "Y"):
                cs.append(F(s))
            if l not in ("XZ", "YZ", "Y", "Z"):
                cs.append(F(o))
            if l == "Y":
                cs.append(F(s ^ o))
    return cs


def ios(n, specs):
    """(inputs, outputs) index choices."""
    return [(tuple(i), tuple(o)) for i, o in specs]


IO4 = [((), ()), ((), (3,)), ((0,), (3,)), ((3,), (0,)), ((1,), (0, 2)), ((0, 1), (2, 3)), ((), (1, 2)), ((0, 1), (1, 3)),
       ((2,), (2, 3)), ((0, 1), (2,)), ((), (0, 1, 3)), ((3,), (1, 2, 0))]
IO5 = [((), (4,)), ((0,), (4,)), ((4,), (0,)), ((1, 0), (3, 4)), ((2,), (0, 4)), ((), (0, 3)), ((), (0, 2, 4)), ((2,), (0, 1, 3)),
       ((1, 4), (4, 2)), ((3,), (3, 1))]
IO6 = [((0,), (5,)), ((5, 1), (0, 3)), ((2,), (0, 4)), ((), (1, 3)), ((), (0, 2, 5)), ((0, 1, 2), (3, 4, 5)), ((1,), (0, 3, 5)),
       ((1, 2), (2, 5))]


def jobs_P12(tier):
    t = tier == "thorough"
    js = [
        Job("cf.n3", h_search, dict(kind="causal", n=3, labs=["XY", "XZ", "YZ"], graph="sym", styles=("obj", "meas")),
            "3 nodes, all graphs (symbolic edges), all inputs/outputs, all plane assignments"),
        Job("cf.n4", h_search, dict(kind="causal", n=4, labs=["XY"], graph="sym", styles=("obj", "meas")),
            "4 nodes, all graphs (symbolic edges), all inputs/outputs"),
        Job("cf.n5", h_search, dict(kind="causal", n=5, labs=["XY"], io=IO5, graph="sym"),
            "5 nodes, all graphs (symbolic edges), 10 input/output choices", 1.5),
        Job("cf.n6", h_search, dict(kind="causal", n=6, labs=["XY"], io=IO6, graph="sym"),
            "6 nodes, all graphs (symbolic edges), 8 input/output choices", 2.0),
    ]
    if t:
        js.append(Job("cf.n5all", h_search, dict(kind="causal", n=5, labs=["XY"], graph="sym"),
                      "5 nodes, all graphs (symbolic), all inputs/outputs", 2.0))
        js.append(Job("cf.n7", h_search, dict(kind="causal", n=7, labs=["XY"], graph="sym",
                      io=[((0,), (6,)), ((1, 4), (6, 0)), ((5, 2, 0), (6, 1, 3)), ((), (3, 5)), ((0, 1), (1, 6))]),
                      "7 nodes, all graphs (symbolic)", 3.0))
    return js


def jobs_P13(tier):
    t = tier == "thorough"
    js = [
        Job("gf.n3", h_search, dict(kind="gflow", n=3, labs="mix", styles=("obj", "meas")), "3 nodes, all graphs/planes/io"),
        Job("gf.n4", h_search, dict(kind="gflow", n=4, labs="mix", io=IO4, styles=("obj",)),
            "4 nodes, all graphs, all planes, 12 io choices", 1.5),
        Job("gf.n5", h_search, dict(kind="gflow", n=5, labs=["XY", "XZ", "YZ"], io=[((2,), (0, 1, 3)), ((), (0, 2, 4)), ((), (1, 3)), ((1, 0), (3, 4))]),
            "5 nodes, all graphs, all planes, 4 io choices", 1.5),
        Job("gf.n5xy", h_search, dict(kind="gflow", n=5, labs=["XY"], io=IO5), "5 nodes, all graphs, XY", 1.0),
    ]
    if t:
        js.append(Job("gf.n4all", h_search, dict(kind="gflow", n=4, labs="mix"), "4 nodes, everything", 2.0))
        js.append(Job("gf.n6xy", h_search, dict(kind="gflow", n=6, labs=["XY"], io=IO6), "6 nodes, all graphs, XY", 2.0))
        js.append(Job("gf.n6", h_search, dict(kind="gflow", n=6, labs="mix", io=[((), (1, 3, 5)), ((2,), (0, 3, 5))]),
                      "6 nodes, 3 outputs, all planes", 2.0))
    return js


def jobs_P14(tier):
    t = tier == "thorough"
    js = [
        Job("pf.n3", h_search, dict(kind="pauli", n=3, labs="mix", styles=("obj",)), "3 nodes, all graphs, six labels, all io"),
        Job("pf.n4", h_search, dict(kind="pauli", n=4, labs="mix", io=IO4), "4 nodes, all graphs, six labels, 12 io choices", 2.0),
        Job("pf.n5", h_search, dict(kind="pauli", n=5, labs=["XY", "X", "Y", "XZ"], io=[((2,), (0, 1, 3)), ((), (0, 2, 4)), ((), (1, 3)), ((1, 0), (3, 4)), ((0,), (2, 4))]),
            "5 nodes, all graphs, 4 labels", 2.0),
        Job("pf.ang", h_search, dict(kind="pauli", n=3, labs=["XY", "YZ", "XZ", "Y"], styles=("full",), io=[((0,), (2,)), ((), (1,)), ((1,), (0, 2))]),
            "3 nodes, Bloch measurements of any symbolic angle stay planar"),
    ]
    if t:
        js.append(Job("pf.n5all", h_search, dict(kind="pauli", n=5, labs="mix", io=IO5), "5 nodes, six labels", 3.0))
        js.append(Job("pf.n4all", h_search, dict(kind="pauli", n=4, labs="mix"), "4 nodes, everything", 2.0))
        js.append(Job("pf.n6", h_search, dict(kind="pauli", n=6, labs=["XY", "X", "Y"], io=[((), (1, 3, 5)), ((2,), (0, 3, 5)), ((1,), (4, 0))]),
                      "6 nodes, 2-3 outputs", 2.0))
    return js


# ------------------------------------------------------------------ P15 determinism of flow-based patterns
MEAS = GPLANES + PAULIS


def lab_of(kind):
    return kind[-1] if kind in PAULIS else kind.split("@")[0]


def gangle(name):
    """A generic angle strictly between two Pauli angles (the trigonometric normal form is an identity in it)."""
    return angle(name, Fraction(1, 20), Fraction(1, 5))


def gen_mlabels(e, meas, kinds, full=False):
    ks = [e.choose(f"k{i}", list(kinds)) for i in range(len(meas))]
    return {v: mk_meas(k, (angle if full else gangle)(f"a{i}") if k in GPLANES else None) for i, (v, k) in enumerate(zip(meas, ks))}, \
        {v: lab_of(k) for v, k in zip(meas, ks)}


def og_reference(og):
    """Own pattern of the postselected map of an open graph: |+> on non-inputs, CZ, projections, Cliffords."""
    p = Pattern(input_nodes=list(og.input_nodes))
    for v in sorted(set(og.graph.nodes) - set(og.input_nodes)):
        p.add(command.N(v))
    for u, v in sorted(tuple(sorted(x)) for x in og.graph.edges):
        p.add(command.E((u, v)))
    for v in sorted(set(og.graph.nodes) - set(og.output_nodes)):
        p.add(command.M(v, og.measurements[v]))
    for v in og.output_nodes:
        if v in og.output_cliffords:
            p.add(command.C(v, og.output_cliffords[v]))
    p.reorder_output_nodes(list(og.output_nodes))
    return p


def zero(_):
    return ZERO


def deterministic(e, og, pat, what):
    """Claims: pat is runnable on og and every branch is the postselected map of og."""
    if e.mode == "concrete":
        e.notes.append(show(pat))
    e.check(list(pat.input_nodes) == list(og.input_nodes) and list(pat.output_nodes) == list(og.output_nodes),
            f"{what}: inputs or outputs differ from the open graph's")
    live = runnable(e, pat, what)
    e.check(live == set(og.output_nodes), f"{what}: live nodes at the end are not the outputs")
    pat.check_runnability()
    e.check(set(mnodes(pat)) == set(og.measurements) and len(mnodes(pat)) == len(og.measurements),
            f"{what}: measured nodes differ from the open graph's")
    oc = Outc(e)
    R = sem.run_pattern(e, og_reference(og), zero)
    B = sem.run_pattern(e, pat, oc)
    sem.check_equal(e, R, B, f"{what}: a branch is not the open graph's postselected map")


def xz_ok(e, og, xz, what):
    """Own well-formedness of XZ-corrections."""
    nodes, outs = list(og.graph.nodes), list(og.output_nodes)
    e.check(layering_ok(nodes, outs, xz.partial_order_layers), f"{what}: layers of the corrections are not a measurement order")
    bef = layer_before(xz.partial_order_layers)
    cs = []
    for d in (xz.x_corrections, xz.z_corrections):
        e.check(set(d) <= set(og.measurements), f"{what}: corrections conditioned on an unmeasured node")
        for i, s in d.items():
            for j in (s.m if type(s) is SymSet else s):
                if not bef(i, j):
                    cs.append(F(SymSet.lift(s).mem(j)) if type(s) is SymSet else False)
    e.check(sand(*cs), f"{what}: a correction does not follow the measurement order")


def gen_og(e, n, kinds, io, edges, cliff=(None,), labels=None, full=False):
    labels = (labels or LABELS)[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    m, lab = gen_mlabels(e, meas, kinds, full)
    if edges == "fork" or edges == "sym":
        A = gen_adj(e, labels, edges)
    else:
        A = gen_adj(e, labels, e.choose("edges", list(edges)))
    g = mk_graph(labels, A)
    oc = {}
    for k, v in enumerate(outs):
        c = e.choose(f"c{k}", list(cliff))
        if c is not None:
            oc[v] = Clifford(c)
    og = OpenGraph(g, ins, outs, m, oc)
    return og, A, labels, ins, outs, lab


def h_flow_pattern(e, n, kinds, io, edges, cliff=(None,), routes=("pattern", "causal", "gflow", "pauli"), full=False):
    og, A, labels, ins, outs, lab = gen_og(e, n, kinds, io, edges, cliff, full=full)
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, og.measurements))
    planar = all(l in GPLANES for l in lab.values())
    route = e.choose("route", [r for r in routes if planar or r in ("pattern", "pauli")])
    if route == "pattern":
        try:
            pat = og.to_pattern()
        except OpenGraphError:
            no_flow(e, "pauli", A, labels, ins, outs, lab, "to_pattern finds no flow but a Pauli flow exists")
            return
        e.reached()
        deterministic(e, og, pat, "OpenGraph.to_pattern")
        return
    f = {"causal": og.to_causalflow_or_none, "gflow": og.to_gflow_or_none, "pauli": og.to_pauliflow_or_none}[route]() \
        if route != "causal" or all(l == "XY" for l in lab.values()) else None
    if f is None:
        return
    if e.mode == "concrete":
        e.notes.append(f"{route}: {dict(f.correction_function)} {list(f.partial_order_layers)}")
    corrections_pattern(e, og, f, route)


def corrections_pattern(e, og, f, route):
    xz = f.to_xzcorrections()
    e.reached()
    xz_ok(e, og, xz, f"{route} to_xzcorrections")
    meas = list(xz.og.measurements)
    order = e.choose("order", ["default", "own", "bad"] if 0 < len(meas) <= 4 else ["default", "own"])
    if order == "default":
        pat = xz.to_pattern()
    elif order == "bad":
        pos = {v: -i for i, l in enumerate(xz.partial_order_layers) for v in l}
        m = sorted(meas, key=lambda v: (pos[v], v))
        o = e.choose("bad", [m[:-1], m + m[-1:], m[:-1] + m[:1], [*m[:-1], 98], m[::-1]])
        good = sorted(o) == sorted(m) and all(pos[a] <= pos[b] for a, b in zip(o, o[1:]))
        try:
            pat = xz.to_pattern(o)
        except XZCorrectionsError:
            e.check(not good, "to_pattern refuses a measurement order that follows the layers")
            return
        e.check(good and mnodes(pat) == o, "to_pattern accepts a measurement order that does not follow the layers")
    else:
        shift = 1 if og.output_nodes else 0
        o = [v for l in reversed(list(xz.partial_order_layers)[shift:]) for v in sorted(l, reverse=True)]
        e.check(xz.is_compatible(o), "is_compatible rejects an order of the layers")
        pat = xz.to_pattern(total_measurement_order=o)
        e.check(not o or mnodes(pat) == o, "to_pattern does not measure in the given order")
    deterministic(e, og, pat, f"{route} pattern")


def gen_flow(e, kind, A, labels, ins, outs, lab, layers):
    """A symbolic flow: any correction function satisfying the conditions (assumed)."""
    meas = [v for v in labels if v not in outs]
    cand = [v for v in labels if v not in ins]
    cf = {i: symset(f"p{i}", cand) for i in meas}
    if e.mode != "concrete":
        cf = {i: SymSet({v: s.mem(v) for v in cand}) for i, s in cf.items()}
    p = {i: as_anf(cf[i], labels) for i in meas}
    cs = flow_conditions(kind, A, labels, ins, outs, lab, p, layer_before(layers))
    e.assume(sand(*cs))
    return cf, p


def gen_layers(e, labels, outs, nl):
    """A valid layering of the measured nodes (outputs first)."""
    meas = [v for v in labels if v not in outs]
    opts = [q for q in itertools.product(range(min(nl, len(meas))), repeat=len(meas)) if set(q) == set(range(len(set(q))))]
    pos = e.choose("layers", opts)
    ls = [frozenset(v for v, q in zip(meas, pos) if q == k) for k in sorted(set(pos))]
    return ([frozenset(outs)] if outs else []) + ls


def h_any_flow(e, kind, n, kinds, io, edges, nl, cliff=(None,)):
    """Any valid flow (not only those found by the search) yields a deterministic pattern."""
    og, A, labels, ins, outs, lab = gen_og(e, n, kinds, io, edges, cliff)
    layers = gen_layers(e, labels, outs, nl)
    cf, p = gen_flow(e, kind, A, labels, ins, outs, lab, layers)
    cls = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}[kind]
    # the sets are decided before the corrections are derived: the pattern has concrete corrections
    cf = {i: frozenset(v for v in labels if bool(bitval(p[i].get(v, ZERO)))) for i in cf}
    f = cls(og, cf, tuple(layers))
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, og.measurements))
        e.notes.append(f"{kind}: {cf} {layers}")
    f.check_well_formed()
    corrections_pattern(e, og, f, kind)


PATH4 = [[(0, 1), (1, 2), (2, 3)]]
SOME4 = [[(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 2), (1, 2), (1, 3), (0, 1)],
         [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], [(0, 2), (0, 3), (1, 2), (1, 3)], [(0, 3), (1, 3), (2, 3)]]
IO3 = [((0,), (2,)), ((), (2,)), ((1,), (0, 2)), ((0, 1), (1, 2)), ((2,), (2,)), ((), (0, 1)), ((), ())]


def jobs_P15(tier):
    t = tier == "thorough"
    js = [
        Job("det.n3", h_flow_pattern, dict(n=3, kinds=MEAS, io=IO3, edges="fork", cliff=(None, 6, 16)),
            "3 nodes, all graphs, 3 planes (all angles) + 6 signed Paulis, 7 io choices, output Cliffords, all routes"),
        Job("det.full", h_flow_pattern, dict(n=3, kinds=["XY", "XZ", "+Y"], io=[((0,), (2,)), ((), (0, 1))], edges=[[(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)]], full=True),
            "3 nodes, angles over the whole circle", 0.7),
        Job("det.n4", h_flow_pattern, dict(n=4, kinds=["XY", "XZ", "YZ", "-Y"], io=[((0,), (3,)), ((0, 1), (3, 2)), ((1,), (0, 2)), ((), (1, 2))],
            edges="fork", cliff=(None,)), "4 nodes, all graphs, planes and -Y, 4 io choices", 1.5),
        Job("det.n4c", h_flow_pattern, dict(n=4, kinds=["XY", "-X", "+Z"], io=[((0,), (3,)), ((2, 0), (3, 1))],
            edges=SOME4, cliff=(None, 6, 16, 20, 9, 4)), "4 nodes, output Cliffords", 1.0),
        Job("det.n5", h_flow_pattern, dict(n=5, kinds=["XY", "+X", "-Y"], io=[((0,), (4,)), ((0, 1), (4, 3)), ((), (2, 3))],
            edges=[[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 2), (1, 3), (2, 3), (2, 4), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)],
                   [(0, 2), (0, 3), (1, 2), (1, 4), (2, 4)]]), "5 nodes, 4 graphs", 1.0),
        Job("any.gflow3", h_any_flow, dict(kind="gflow", n=3, kinds=GPLANES, io=IO3[:4] + IO3[5:6], edges="fork", nl=3, cliff=(None, )),
            "3 nodes: every valid gflow and layering"),
        Job("any.pauli3", h_any_flow, dict(kind="pauli", n=3, kinds=["XY", "YZ", "+X", "-Y", "-Z"], io=IO3[:3] + IO3[5:6], edges="fork", nl=3),
            "3 nodes: every valid Pauli flow and layering"),
        Job("any.pauli4", h_any_flow, dict(kind="pauli", n=4, kinds=["XY", "-X", "+Y", "+Z"], io=[((0,), (3,)), ((), (2, 3)), ((0, 1), (2, 3))],
            edges=SOME4, nl=3), "4 nodes, 6 graphs: every valid Pauli flow and layering", 1.0),
        Job("any.causal4", h_any_flow, dict(kind="causal", n=4, kinds=["XY"], io=IO4[2:6], edges="fork", nl=3),
            "4 nodes, all graphs: every valid causal flow and layering"),
    ]
    if t:
        js += [
            Job("det.n4all", h_flow_pattern, dict(n=4, kinds=MEAS, io=IO4, edges="fork", cliff=(None, 6)), "4 nodes, all", 3.0),
            Job("det.n5all", h_flow_pattern, dict(n=5, kinds=["XY", "XZ", "YZ", "+X", "-Y", "+Z"], io=IO5, edges="fork"), "5 nodes", 3.0),
            Job("any.gflow4", h_any_flow, dict(kind="gflow", n=4, kinds=GPLANES, io=IO4, edges="fork", nl=3), "4 nodes, all gflows", 2.0),
            Job("any.pauli4all", h_any_flow, dict(kind="pauli", n=4, kinds=["XY", "XZ", "YZ", "-X", "+Y", "+Z"], io=IO4, edges="fork", nl=3),
                "4 nodes, all Pauli flows", 2.0),
        ]
    return js


# ------------------------------------------------------------------ P16 validators
def mutate_layers(e, layers, labels, outs, muts=True):
    """Turn a valid layering into a possibly invalid one."""
    meas = [v for v in labels if v not in outs]
    ls = [set(l) for l in layers]
    m = e.choose("mut", muts if muts is not True else ["none", "none2", "swap", "drop", "missing", "dup", "empty", "foreign", "out_late", "out_only_part", "meas_first",
                         "nothing", "rev", "move_last_first", "empty_last", "dupout"])
    if m == "swap" and len(ls) > 1:
        ls[0], ls[1] = ls[1], ls[0]
    elif m == "drop":
        del ls[0]
    elif m == "missing" and meas:
        v = e.choose("mv", meas)
        ls = [l - {v} for l in ls]
        if e.choose("mkeep", [0, 1]):
            ls = [l for l in ls if l]
    elif m == "dup" and meas:
        ls[e.choose("mi", [-1, 0, 1, 2]) % len(ls)].add(e.choose("mv", meas))
    elif m == "empty":
        ls.insert(e.choose("mi", list(range(len(ls) + 1))), set())
    elif m == "empty_last":
        ls.append(set())
    elif m == "foreign":
        if e.choose("mf", [0, 1]) and ls:
            ls[-1].add(77)
        else:
            ls.append({77})
    elif m == "out_late" and outs:
        ls[-1].add(outs[0])
    elif m == "dupout" and outs:
        ls.append({outs[-1]})
    elif m == "out_only_part" and len(outs) > 0 and ls:
        ls[0] = set(outs[1:])
    elif m == "meas_first" and meas and ls:
        ls[0].add(meas[0])
    elif m == "nothing":
        ls = []
    elif m == "rev":
        ls.reverse()
    elif m == "move_last_first" and ls:
        ls.insert(0, ls.pop())
    return [frozenset(l) for l in ls]


def explains_layers(e, ex, labels, outs, layers):
    """The layer named by a PartialOrder(Layer)Error is wrong; True if the error is of that kind."""
    name = type(ex).__name__
    if name == "PartialOrderError":
        seen = set().union(*map(set, layers)) if layers else set()
        r = ex.reason.name
        e.check(r == "Empty" and not layers and bool(labels) or r == "IncorrectNodes" and seen | set(outs) != set(labels), f"{r} is reported although the layers contain the nodes")
        return True
    if name != "PartialOrderLayerError":
        return False
    r, k = ex.reason.name, ex.layer_index
    e.check(0 <= k < len(layers) and layers[k] == ex.layer, "the error names another layer than the one it shows")
    if r == "FirstLayer":
        e.check(k == 0 and bool(outs) and layers[0] != set(outs), "the first layer is reported although it is the set of outputs")
    else:
        l = layers[k]
        e.check(k >= (1 if outs else 0) and (not l or not l <= set(labels) - set(outs) or any(l & l2 for l2 in layers[k + 1:])), "a correct layer is reported")
    e.check(str(set(ex.layer)) in str(ex).replace("frozenset()", "set()").replace("frozenset({", "{").replace("})", "}"), "the message does not show the layer")
    return True


def shows(e, ex, *what):
    msg = str(ex)
    e.check(bool(msg) and "self." not in msg and all(str(w) in msg for w in what), "the message does not show the values that are wrong")


def explains_flow(e, ex, kind, A, labels, ins, outs, lab, p, layers, dom_ok, static):
    """The error names a condition that really is violated, by the node it names."""
    if explains_layers(e, ex, labels, outs, layers):
        return
    r = ex.reason.name
    name = type(ex).__name__
    meas = [v for v in labels if v not in outs]
    if name == "FlowGenericError":
        shows(e, ex)
        if r == "IncorrectCorrectionFunctionDomain":
            e.check(not dom_ok, "the domain is reported although it is correct")
        elif r == "IncorrectCorrectionFunctionImage":
            e.check(sor(*[T(p[i].get(v, ZERO)) for i in p for v in ins]) if dom_ok else True, "the image is reported although it contains no input")
        else:
            e.check(r == "XYPlane" and any(lab[v] != "XY" for v in meas), "another measurement plane is reported although there is none")
        return
    i = ex.node
    e.check(i in meas, "the error names a node that is not measured")
    shows(e, ex, i)
    S = p[i]
    for v in labels:
        e.check(F(S.get(v, ZERO) ^ as_anf(ex.correction_set, labels)[v]), "the error shows another correction set")
    if not static:
        return
    e.check(r[0] == {"causal": "C", "gflow": "G", "pauli": "P"}[kind], "a condition of another kind of flow is reported")
    od = {v: odd(A, labels, S, v) for v in labels}
    si, oi = S.get(i, ZERO), od[i]
    if name == "FlowPropositionError":
        l = lab[i]
        num = {"G3": "XY", "P4": "XY", "G4": "XZ", "P5": "XZ", "G5": "YZ", "P6": "YZ", "P7": "X", "P8": "Z", "P9": "Y"}.get(r)
        e.check(num is None or num == l, f"{r} is reported for a node measured in {l}")
        mem = [S.get(v, ZERO) for v in labels]
        ok = {"C0": lambda: sor(*[sand(T(mem[a]), *[F(mem[b]) for b in range(len(mem)) if b != a]) for a in range(len(mem))]),
              "C1": lambda: sor(*[sand(T(S.get(v, ZERO)), T(adj(A, i, v))) for v in labels]),
              "XY": lambda: sand(F(si), T(oi)), "XZ": lambda: sand(T(si), T(oi)), "YZ": lambda: sand(T(si), F(oi)),
              "X": lambda: T(oi), "Z": lambda: T(si), "Y": lambda: T(si ^ oi)}[num or r]()
        e.check(snot(ok), f"{r} is reported although it holds")
        return
    past = sorted(ex.past_and_present_nodes)
    bef = layer_before(layers)
    e.check(name == "FlowPropositionOrderError" and all(v in meas and not bef(i, v) for v in past), "a node of the future is reported as past or present")
    near = {v: [T(S.get(u, ZERO)) and sand(T(S.get(u, ZERO)), T(adj(A, u, v))) for u in labels] for v in labels}
    w = []
    for v in past:
        if v == i and r != "C2":
            continue
        if r in ("C2", "G1"):
            w.append(T(S.get(v, ZERO)))
        elif r == "C3":
            w += near[v]
        elif r == "G2":
            w.append(T(od[v]))
        elif r == "P1" and lab[v] not in ("X", "Y"):
            w.append(T(S.get(v, ZERO)))
        elif r == "P2" and lab[v] not in ("Y", "Z"):
            w.append(T(od[v]))
        elif r == "P3" and lab[v] == "Y":
            w.append(T(S.get(v, ZERO) ^ od[v]))
    e.check(sor(*w) if w else False, f"{r} is reported although it holds")


def explains_xz(e, ex, labels, ins, outs, xs, zs, layers, keys_ok):
    if explains_layers(e, ex, labels, outs, layers):
        return
    r = ex.reason.name
    if type(ex).__name__ == "XZCorrectionsGenericError":
        shows(e, ex)
        e.check(r == "IncorrectKeys" and not keys_ok, f"{r} is reported although it does not apply")
        return
    i, d = ex.node, {"X": xs, "Z": zs}[r]
    e.check(i in d, "the error names a node without such corrections")
    shows(e, ex, i, f"{r}-correction")
    got, want = as_anf(ex.correction_set, labels), as_anf(d[i], labels)
    for v in labels:
        e.check(F(got[v] ^ want[v]), "the error shows another correction set")
    pos = {v: k for k, l in reversed(list(enumerate(layers))) for v in l}
    past = sorted(ex.past_and_present_nodes)
    e.check(all(any(v in l for l in layers[pos[i]:]) for v in past), "a node of the future is reported as past or present")
    e.check(sor(*[T(want[v]) for v in past]) if past else False, "a correction that respects the order is reported")


def h_flow_valid(e, kind, n, labs, io, nl, graph="sym", mut=True, keys=True, styles=("obj",)):
    labels = LABELS[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    lab = {v: e.choose(f"l{k}", list(labs)) for k, v in enumerate(meas)}
    style = e.choose("style", list(styles))
    A = gen_adj(e, labels, graph)
    g = mk_graph(labels, A)
    og = OpenGraph(g, ins, outs, {v: label_obj(e, lab[v], style, i) for i, v in enumerate(meas)})
    layers = gen_layers(e, labels, outs, nl)
    if mut:
        layers = mutate_layers(e, layers, labels, outs, mut)
    cf = {i: symset(f"p{i}", labels) for i in meas}
    p = {i: as_anf(cf[i], labels) for i in meas}
    km = e.choose("keys", ["ok", "ok2", "miss", "extra", "out"]) if keys else "ok"
    dom_ok = True
    if km == "miss" and meas:
        del cf[meas[-1]]
        dom_ok = False
    elif km == "extra":
        cf[99] = set()
        dom_ok = False
    elif km == "out" and outs:
        cf[outs[0]] = {labels[0]}
        dom_ok = False
    cls = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}[kind]
    f = cls(og, cf, tuple(layers))
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, lab))
        e.notes.append(f"{kind}: {cf} layers={layers}")
    static = dom_ok and layering_ok(labels, outs, layers)
    valid = False
    if static:
        valid = sand(*flow_conditions(kind, A, labels, ins, outs, lab, p, layer_before(layers)))
    via = e.choose("via", ["check", "is"])
    e.reached()
    if via == "check":
        try:
            f.check_well_formed()
            acc = True
        except FlowError as ex:
            acc = False
            explains_flow(e, ex, kind, A, labels, ins, outs, lab, p, layers, dom_ok, static)
    else:
        acc = bool(f.is_well_formed())
    if acc:
        e.check(valid, f"the {kind} check accepts an invalid flow")
    else:
        e.check(snot(valid), f"the {kind} check rejects a valid flow")


def h_focused(e, kind, n, labs, io, graph="sym"):
    """is_focused on any correction function (Simmons, Definition 4.3); extraction needs focused flows."""
    labels = LABELS[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    lab = {v: e.choose(f"l{k}", list(labs)) for k, v in enumerate(meas)}
    A = gen_adj(e, labels, graph)
    style = "obj" if graph == "sym" else "meas"
    og = OpenGraph(mk_graph(labels, A), ins, outs, {v: label_obj(e, lab[v], style, i) for i, v in enumerate(meas)})
    cf = {i: symset(f"p{i}", labels) for i in meas}
    p = {i: as_anf(cf[i], labels) for i in meas}
    cls = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}[kind]
    f = cls(og, cf, tuple([frozenset(outs)] * bool(outs) + [frozenset({v}) for v in meas]))
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, lab))
        e.notes.append(f"{kind}: {cf}")
    want = sand(*focused_conditions(kind, A, labels, outs, lab, p))
    got = bool(f.is_focused())
    e.reached()
    e.check(want if got else snot(want), f"is_focused() is {got}")
    if style == "meas" and not got:
        try:
            f.extraction_pauli_strings
            e.fail("Pauli strings extracted from a flow that is not focused")
        except ValueError:
            pass


def h_xz_valid(e, n, io, nl, keys=True, mut=True):
    labels = LABELS[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    g = mk_graph(labels, gen_adj(e, labels, [(i, i + 1) for i in range(n - 1)]))
    og = OpenGraph(g, ins, outs, {v: Plane.XY for v in meas})
    layers = gen_layers(e, labels, outs, nl)
    if mut:
        layers = mutate_layers(e, layers, labels, outs, mut)
    xs = {i: symset(f"x{i}", labels) for i in meas if e.choose(f"kx{i}", [1, 0])}
    zs = {i: symset(f"z{i}", labels) for i in meas if e.choose(f"kz{i}", [1, 0])}
    ok = True
    km = e.choose("keys", ["ok", "out", "foreign"]) if keys else "ok"
    if km == "out" and outs:
        e.choose("kd", [xs, zs])[outs[0]] = set()
        ok = False
    elif km == "foreign":
        e.choose("kd", [xs, zs])[99] = {labels[0]}
        ok = False
    xz = XZCorrections(og, xs, zs, tuple(layers))
    if e.mode == "concrete":
        e.notes.append((ins, outs, xs, zs, layers))
    valid = False
    if ok and layering_ok(labels, outs, layers):
        bef = layer_before(layers)
        cs = []
        for d in (xs, zs):
            for i, s in d.items():
                s = as_anf(s, labels)
                cs += [F(s[j]) for j in labels if j not in outs and not bef(i, j)]
        valid = sand(*cs)
    e.reached()
    try:
        xz.check_well_formed()
        acc = True
    except (XZCorrectionsError, FlowError) as ex:
        acc = False
        explains_xz(e, ex, labels, ins, outs, xs, zs, layers, ok)
    if acc:
        e.check(valid, "check_well_formed accepts invalid XZ-corrections")
    else:
        e.check(snot(valid), "check_well_formed rejects valid XZ-corrections")


def h_xz_mapping(e, n, io, vals="all"):
    """from_measured_nodes_mapping: accepts exactly acyclic corrections and computes a valid order."""
    labels = LABELS[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    g = mk_graph(labels, gen_adj(e, labels, [(i, i + 1) for i in range(n - 1)]))
    og = OpenGraph(g, ins, outs, {v: Plane.XY for v in meas})
    tgt = meas if vals == "meas" else labels
    xs = {i: symset(f"x{i}", tgt) for i in meas}
    zs = {i: symset(f"z{i}", tgt[:1]) for i in meas}
    for d in (xs, zs):
        for i in list(d):
            if type(d[i]) is SymSet and e.choose(f"k{i}", [1, 1]) == 0:
                del d[i]
    bad = e.choose("bad", ["no", "no2", "key_out", "key_foreign", "val_foreign", "none"])
    ok = True
    if bad == "key_out" and outs:
        xs[outs[0]] = {labels[0]}
        ok = False
    elif bad == "key_foreign":
        zs[99] = set()
        ok = False
    elif bad == "val_foreign" and meas:
        zs[meas[0]] = {99}
        ok = False
    elif bad == "none":
        zs = None
    e.reached()
    ax = {i: as_anf(s, labels) for i, s in xs.items() if i in meas}
    az = {i: as_anf(s, labels) for i, s in (zs or {}).items() if i in meas}
    rel = {(i, j): sor(T(ax.get(i, {}).get(j, ZERO)), T(az.get(i, {}).get(j, ZERO))) for i in meas for j in meas}
    # acyclic iff some linear order exists: decided as the absence of a cycle (transitive closure)
    cl = dict(rel)
    for k in meas:
        for i in meas:
            for j in meas:
                cl[i, j] = sor(cl[i, j], sand(cl[i, k], cl[k, j]))
    acyclic = snot(sor(*[cl[i, i] for i in meas])) if meas else True
    try:
        xz = XZCorrections.from_measured_nodes_mapping(og, xs, zs)
    except XZCorrectionsError:
        e.check(sor(not ok, snot(acyclic)), "from_measured_nodes_mapping rejects well-formed corrections")
        return
    e.check(sand(ok, acyclic), "from_measured_nodes_mapping accepts ill-formed corrections")
    xz_ok(e, og, xz, "from_measured_nodes_mapping")
    layers = list(xz.partial_order_layers)
    if meas:
        last = layers[-1]
        for j in meas:
            e.check(sor(j in last, *[rel[i, j] for i in meas]), "a non-corrected measured node is not in the last layer")
    xz.check_well_formed()
    # order queries
    tot = list(xz.generate_total_measurement_order())
    pos = {v: k for k, v in enumerate(layers[::-1]) for v in v}
    e.check(sorted(tot) == sorted(meas) and all(pos[a] <= pos[b] for a, b in zip(tot, tot[1:])),
            "generate_total_measurement_order is not a linearisation of the layers")
    if len(meas) <= 3:
        perm = list(e.choose("perm", list(itertools.permutations(meas)) + [tuple(meas[:-1]), tuple(meas) + tuple(meas[:1]), tuple(meas[:-1]) + (98,), tuple(meas[:-1]) + tuple(meas[:1])]))
        good = sorted(perm) == sorted(meas) and all(pos[a] <= pos[b] for a, b in zip(perm, perm[1:]))
        e.check(bool(xz.is_compatible(perm)) == good, "is_compatible disagrees with the layers")
    d = xz.to_dag()
    e.check(all(sor(*[T(x.get(i, {}).get(j, ZERO)) for x in (ax, az)]) if True else 0 for i, j in d.edges), "to_dag has an edge without a correction")
    e.check(all((i, j) in d.edges for i in meas for j in labels if bool(sor(T(ax.get(i, {}).get(j, ZERO)), T(az.get(i, {}).get(j, ZERO))))),
            "to_dag misses a correction")


def jobs_P16(tier):
    t = tier == "thorough"
    io3 = [((0,), (2,)), ((), (1, 2)), ((1,), (0,)), ((), ()), ((0, 1), (1, 2)), ((2,), (2,))]
    io4 = [((0,), (3,)), ((0, 1), (3, 2)), ((3,), (0, 1)), ((), (2,))]
    js = []
    for kind, labs in (("causal", ["XY", "YZ"]), ("gflow", GPLANES), ("pauli", SIX)):
        js.append(Job(f"{kind}.n3", h_flow_valid, dict(kind=kind, n=3, labs=labs, io=io3, nl=3, keys=False, mut=False),
                      "3 nodes, all graphs, all correction sets, all layerings, 6 io choices"))
        js.append(Job(f"{kind}.lay", h_flow_valid, dict(kind=kind, n=3, labs=labs[:1] + labs[-1:], io=io3, nl=2),
                      "3 nodes: malformed layers and domains"))
        js.append(Job(f"{kind}.dup", h_flow_valid, dict(kind=kind, n=4, labs=labs[:1] if kind == "causal" else labs[-1:], io=[((), (2, 3))], nl=2, keys=False,
                      graph=[(0, 2), (1, 3)], mut=["dup"]), "4 nodes, one graph: every way to repeat a node"))
        js.append(Job(f"{kind}.n4", h_flow_valid, dict(kind=kind, n=4, labs=labs if kind != "pauli" else ["XY", "XZ", "X", "Y", "Z"], io=io4, nl=3, keys=False, mut=False),
                      "4 nodes, all graphs, all correction sets, all layerings up to 3", 1.5))
    js += [
        Job("pauli.meas", h_flow_valid, dict(kind="pauli", n=3, labs=["XY", "X", "Y", "YZ"], io=[((0,), (2,))], nl=2, keys=False, mut=False, styles=("meas",)),
            "3 nodes with measurement objects of any angle"),
        Job("focus.pauli", h_focused, dict(kind="pauli", n=3, labs=SIX, io=[((0,), (2,)), ((), (1,)), ((), ())]), "3 nodes, all graphs, all correction sets: is_focused", 0.6),
        Job("focus.gflow", h_focused, dict(kind="gflow", n=3, labs=GPLANES, io=[((), (2,)), ((), ())]), "3 nodes, all graphs, all correction sets: is_focused", 0.4),
        Job("focus.meas", h_focused, dict(kind="pauli", n=3, labs=["XY", "X", "Y", "YZ"], io=[((0,), (2,))], graph=[(0, 1), (1, 2)]), "3 nodes, one graph: extraction refuses flows that are not focused", 0.4),
        Job("xz.n3", h_xz_valid, dict(n=3, io=io3, nl=3), "3 nodes: all corrections, layers and key sets"),
        Job("xz.n4", h_xz_valid, dict(n=4, io=io4, nl=3, keys=False), "4 nodes: all corrections, layers"),
        Job("map.n3", h_xz_mapping, dict(n=3, io=io3), "3 nodes: all X-corrections, some Z: acyclic iff accepted, layers, orders, dag"),
        Job("map.n4", h_xz_mapping, dict(n=4, io=[((0,), (3,))], vals="meas"), "4 nodes, 3 measured"),
    ]
    if t:
        js += [
            Job("pauli.n4all", h_flow_valid, dict(kind="pauli", n=4, labs=SIX, io=IO4, nl=4, keys=False, mut=False), "4 nodes, everything", 2.0),
            Job("pauli.n5", h_flow_valid, dict(kind="pauli", n=5, labs=["XY", "X", "Y", "XZ"], io=IO5[:4], nl=3, keys=False, mut=False), "5 nodes", 2.0),
            Job("gflow.n5", h_flow_valid, dict(kind="gflow", n=5, labs=GPLANES, io=IO5[:4], nl=3, keys=False, mut=False), "5 nodes", 1.0),
            Job("causal.n5", h_flow_valid, dict(kind="causal", n=5, labs=["XY"], io=IO5, nl=4, keys=False, mut=False), "5 nodes", 1.0),
            Job("xz.n5", h_xz_valid, dict(n=5, io=IO5[:4], nl=4, keys=False), "5 nodes", 1.0),
            Job("map.n4all", h_xz_mapping, dict(n=4, io=io4), "4 nodes", 1.0),
        ]
    return js


# ------------------------------------------------------------------ P17 extraction from patterns
def pattern_graph(p):
    """Edges of a pattern modulo two (own computation)."""
    es = set()
    for c in p:
        if c.kind.name == "E":
            es ^= {frozenset(c.nodes)}
    return es


def h_extract(e, what=("xz", "og", "layers", "misc"), **kw):
    """Corrections, open graph and layers of any pattern."""
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    if e.mode == "concrete":
        e.notes.append(show(ref))
    w = e.choose("what", list(what))
    nodes = set(ref.input_nodes) | {c.node for c in ref if c.kind.name == "N"}
    meas = [c.node for c in ref if c.kind.name == "M"]
    outs = list(ref.output_nodes)
    try:
        r = {"xz": p.to_xzcorrections, "og": p.to_opengraph, "layers": p.partial_order_layers, "misc": p.to_opengraph}[w]()
    except NotImplementedError:
        return  # a mid-circuit Clifford that does not commute with CZ: documented limitation
    e.reached()
    oc = Outc(e)
    if w == "misc":
        edges = pattern_graph(ref)
        e.check({frozenset(x) for x in r.graph.edges} == edges and set(r.graph.nodes) == nodes, "graph of the open graph differs from the E commands")
        deg = {v: sum(v in x for x in edges) for v in nodes}
        e.check(p.max_degree() == max(deg.values(), default=0), "max_degree is wrong")
        e.check(set(p.isolated_nodes()) == {v for v, d in deg.items() if d == 0}, "isolated_nodes is wrong")
        e.check(set(p.nodes()) == nodes and p.n_node == len(nodes), "nodes/n_node is wrong")
        e.check(list(p.measurement_commands()) == meas, "measurement_commands is wrong")
        return
    if w == "og":
        e.check(list(r.input_nodes) == list(ref.input_nodes) and list(r.output_nodes) == outs, "ports of the open graph differ")
        e.check(set(r.measurements) == set(meas), "measured nodes of the open graph differ")
        sem.check_equal(e, sem.run_pattern(e, ref, zero), sem.run_pattern(e, og_reference(r), zero),
                        "the open graph's postselected map is not the pattern's all-zero branch")
        return
    if w == "layers":
        e.check(layering_ok(sorted(nodes), outs, r), "partial_order_layers is not a layering with the outputs first")
        bef = layer_before(r)
        q = snapshot(ref)
        q.standardize()
        cs = []
        for c in q:
            if c.kind.name == "M":
                for d in (c.s_domain, c.t_domain):
                    for j in meas:
                        if not bef(j, c.node):
                            cs.append(F(d.mem(j)) if type(d) is SymSet else j not in d)
        e.check(sand(*cs), "a measurement depends on a node that is not in an earlier-measured layer")
        return
    if e.mode == "concrete":
        e.notes.append((r.x_corrections, r.z_corrections, r.partial_order_layers))
    xz_ok(e, r.og, r, "to_xzcorrections")
    q = r.to_pattern()
    if e.mode == "concrete":
        e.notes.append(show(q))
    e.check(list(q.input_nodes) == list(ref.input_nodes) and list(q.output_nodes) == outs, "ports changed")
    runnable(e, q, "to_xzcorrections().to_pattern()")
    sem.check_equal(e, sem.run_pattern(e, ref, oc), sem.run_pattern(e, q, oc),
                    "to_xzcorrections().to_pattern() changed a branch")
    sem.check_equal(e, sem.run_pattern(e, ref, oc), sem.run_pattern(e, p, oc), "to_xzcorrections modified its argument")


def conc(s, labels):
    """Decide a symbolic set (fork)."""
    return frozenset(v for v in labels if bool(bitval(as_anf(s, labels)[v])))


def strip(d):
    return {k: frozenset(v) for k, v in d.items() if v}


def pauli_from_xz(e, A, labels, ins, outs, lab, layers, xs, zs):
    """z3 constraints: a Pauli flow for these layers whose corrections are xs and zs exists."""
    bef = layer_before(layers)
    cs = []
    out = []
    for i in (v for v in labels if v not in outs):
        cand = [v for v in labels if v not in ins]
        S = {v: z3.Bool(f"?q{i}.{v}") for v in cand}
        ind = lambda v: S.get(v, z3.BoolVal(False))  # noqa: E731

        def od(v):
            t = [S[u] for u in cand if adj(A, u, v).const()]
            r = z3.BoolVal(False)
            for x in t:
                r = z3.Xor(r, x)
            return r

        for j in labels:
            if j == i:
                continue
            if bef(i, j):
                cs.append(ind(j) == (j in xs.get(i, ())))
                cs.append(od(j) == (j in zs.get(i, ())))
            else:
                lj = lab.get(j)
                if lj not in ("X", "Y"):
                    cs.append(z3.Not(ind(j)))
                if lj not in ("Y", "Z"):
                    cs.append(z3.Not(od(j)))
                if lj == "Y":
                    cs.append(ind(j) == od(j))
        si, oi = ind(i), od(i)
        cs += {"XY": [z3.Not(si), oi], "XZ": [si, oi], "YZ": [si, z3.Not(oi)], "X": [oi], "Z": [si], "Y": [z3.Xor(si, oi)]}[lab[i]]
    return cs


def h_xz_to_flow(e, n, kinds, io, edges, nl, source, target, style="obj"):
    """XZCorrections.to_causalflow / to_gflow / to_pauliflow: succeed exactly when a flow with these corrections exists."""
    labels = LABELS[:n]
    ins, outs = gen_io(e, labels, io)
    meas = [v for v in labels if v not in outs]
    lab = {v: e.choose(f"l{k}", list(kinds)) for k, v in enumerate(meas)}
    A = gen_adj(e, labels, edges if edges == "fork" else e.choose("edges", list(edges)))
    g = mk_graph(labels, A)
    og = OpenGraph(g, ins, outs, {v: label_obj(e, lab[v], style, i) for i, v in enumerate(meas)})
    layers = gen_layers(e, labels, outs, nl)
    bef = layer_before(layers)
    if source == "any":
        if target == "pauli" or e.choose("near", [0, 1]):
            xs = {i: conc(symset(f"x{i}", [v for v in labels if bef(i, v)]), labels) for i in meas}
        else:
            xs = {i: frozenset(x for x in e.choose(f"x{i}", [(), *[(v,) for v in labels if bef(i, v)]])) for i in meas}
        zs = {}
        for i in meas:
            if e.choose(f"zm{i}", [0, 1]):
                # the odd neighbourhood of the X-corrections: mostly consistent
                z = frozenset(v for v in labels if bef(i, v) and sum(1 for u in xs[i] if adj(A, u, v).const()) % 2)
                zs[i] = z
            else:
                zs[i] = conc(symset(f"z{i}", [v for v in labels if bef(i, v)]), labels)
        xz = XZCorrections(og, xs, zs, tuple(layers))
    else:
        cf, p = gen_flow(e, source, A, labels, ins, outs, lab, layers)
        cf = {i: frozenset(v for v in labels if bool(bitval(p[i].get(v, ZERO)))) for i in cf}
        xz = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}[source](og, cf, tuple(layers)).to_xzcorrections()
        xs, zs = strip(xz.x_corrections), strip(xz.z_corrections)
        layers = list(xz.partial_order_layers)
        bef = layer_before(layers)
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, lab))
        e.notes.append(f"x={xs} z={zs} layers={layers} -> {target}")
    e.reached()
    try:
        f = {"causal": xz.to_causalflow, "gflow": xz.to_gflow, "pauli": xz.to_pauliflow}[target]()
    except FlowError as ex:
        str(ex)
        f = None
    if target in ("causal", "gflow"):
        S = {i: frozenset(xs.get(i, ())) | (frozenset([i]) if target == "gflow" and lab[i] in ("XZ", "YZ") else frozenset()) for i in meas}
        p = {i: as_anf(S[i], labels) for i in meas}
        good = sand(*flow_conditions(target, A, labels, ins, outs, lab, p, bef))
        if f is None:
            e.check(snot(good), f"to_{target}flow rejects corrections that define a valid flow")
            return
        e.check(good, f"to_{target}flow accepts corrections that define no valid flow")
        e.check({i: frozenset(s) for i, s in f.correction_function.items()} == S, f"to_{target}flow returns another correction function")
    else:
        if f is None:
            cs = pauli_from_xz(e, A, labels, ins, outs, lab, layers, xs, zs)
            s = z3.And(*cs)
            if e.mode == "concrete":
                so = z3.Solver()
                so.add(s)
                e.check(so.check() != z3.sat, "to_pauliflow finds no flow but one compatible with the corrections exists")
            else:
                e.stats.claims += 1
                e.check_z(z3.Not(s), "to_pauliflow finds no flow but one compatible with the corrections exists")
            return
        if e.mode == "concrete":
            e.notes.append(f"flow={dict(f.correction_function)}")
        p = {i: as_anf(frozenset(f.correction_function[i]), labels) for i in meas}
        e.check(set(f.correction_function) == set(meas), "domain of the reconstructed flow")
        claims(e, flow_conditions("pauli", A, labels, ins, outs, lab, p, layer_before(f.partial_order_layers)),
               "to_pauliflow returned an invalid Pauli flow")
    e.check(list(map(frozenset, f.partial_order_layers)) == list(map(frozenset, layers)), "layers changed")
    if source != "any" or target == "pauli":
        back = f.to_xzcorrections()
        e.check(strip(back.x_corrections) == {k: v for k, v in strip(xs).items()} and strip(back.z_corrections) == strip(zs),
                f"the corrections of to_{target}flow() differ from the original ones")


def same_og(a, b):
    return ({frozenset(x) for x in a.graph.edges} == {frozenset(x) for x in b.graph.edges} and set(a.graph.nodes) == set(b.graph.nodes)
            and list(a.input_nodes) == list(b.input_nodes) and list(a.output_nodes) == list(b.output_nodes)
            and {k: c for k, c in a.output_cliffords.items() if c != Clifford.I} == {k: c for k, c in b.output_cliffords.items() if c != Clifford.I}
            and set(a.measurements) == set(b.measurements) and all(bool(m.isclose(b.measurements[k])) for k, m in a.measurements.items()))


def h_pattern_flow(e, n, kinds, io, edges, cliff=(None,)):
    """Flow-based pattern -> flow extracted from the pattern -> pattern again."""
    og, A, labels, ins, outs, lab = gen_og(e, n, kinds, io, edges, cliff)
    planar = all(l in GPLANES for l in lab.values()) and not any(isinstance(m, PauliMeasurement) for m in og.measurements.values())
    route = e.choose("route", ["causal", "gflow", "pauli"] if planar else ["pauli"])
    if route == "causal" and not all(l == "XY" for l in lab.values()):
        return
    f = {"causal": og.to_causalflow_or_none, "gflow": og.to_gflow_or_none, "pauli": og.to_pauliflow_or_none}[route]()
    if f is None:
        return
    pat = f.to_xzcorrections().to_pattern()
    pre = e.choose("pre", ["none", "standardize", "parallelize", "shift"])
    if pre == "standardize":
        pat.standardize()
    elif pre == "parallelize":
        pat.parallelize_pattern()
    elif pre == "shift":
        pat.shift_signals()
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, og.measurements))
        e.notes.append(f"{route} {pre} {show(pat)}")
    e.reached()
    try:
        f2 = {"causal": pat.to_causalflow, "gflow": pat.to_gflow, "pauli": pat.to_pauliflow}[route]()
    except FlowError as ex:
        if pre == "shift":
            return  # shifted signals: focused-like corrections need not come from the same kind of flow
        if route != "pauli":
            e.fail(f"no {route} flow extracted from a pattern built from one ({ex})")
        return
    e.check(same_og(f2.og, og), "the open graph of the extracted flow differs")
    p2 = {i: as_anf(frozenset(s), labels) for i, s in f2.correction_function.items()}
    e.check(layering_ok(labels, outs, f2.partial_order_layers), "layers of the extracted flow are not a measurement order")
    claims(e, flow_conditions(route, A, labels, ins, outs, lab, p2, layer_before(f2.partial_order_layers)),
           f"the {route} flow extracted from the pattern is invalid")
    if pre != "shift" and route != "pauli":
        e.check({i: frozenset(s) for i, s in f2.correction_function.items()} == {i: frozenset(s) for i, s in f.correction_function.items()},
                f"the {route} flow extracted from the pattern is not the one it was built from")
    deterministic(e, og, f2.to_xzcorrections().to_pattern(), f"{route} round trip")


def jobs_P17(tier):
    t = tier == "thorough"
    io3 = IO3[:4] + IO3[5:]
    js = [
        Job("ex.n3", h_extract, dict(n=3, nin=1, nout=1, kinds=PLANES + ["-Y"], edges="choose", edge_times=True, mid=[(0, 1), (0, 2), (1, 2)],
            final_c=(None, 6, 16)), "3 nodes, 1 in, 1 out: all edges/times, all domains, mid corrections, output Cliffords"),
        Job("ex.n4", h_extract, dict(n=4, nin=1, nout=1, kinds=["XY", "XZ"], edges="choose", final_c=(None,)),
            "4 nodes, 3 measured, all edges, all domains", 1.5),
        Job("ex.n4m", h_extract, dict(n=4, nin=2, nout=2, kinds=["XY", "+Y", "YZ"], edges="multi", edge_times=True, mid=[(0, 1), (0, 3), (1, 2)],
            mid_c=(None, 1, 3, 4), final_c=(None, 9), out_perm=True, in_perm=True), "4 nodes, repeated edges, mid-circuit Cliffords"),
        Job("ex.noout", h_extract, dict(n=3, nin=0, nout=0, kinds=["XY", "YZ"], edges="choose"), "no output"),
    ]
    for k, lb in (("causal", ["XY"]), ("gflow", GPLANES), ("pauli", SIX)):
        js.append(Job(f"xz.{k}.any", h_xz_to_flow, dict(n=3, kinds=lb + (["XZ"] if k == "causal" else []), io=io3, edges="fork", nl=3, source="any", target=k),
                      f"3 nodes: every XZ-corrections object -> {k} flow", 1.5 if k == "pauli" else 1.0))
        js.append(Job(f"xz.{k}.flow", h_xz_to_flow, dict(n=4, kinds=lb, io=[((0,), (3,)), ((), (1, 2)), ((0, 1), (2, 3))], edges=SOME4, nl=3, source=k, target=k),
                      f"4 nodes, 6 graphs: corrections of every {k} flow -> {k} flow"))
    js += [
        Job("rt.n3", h_pattern_flow, dict(n=3, kinds=MEAS, io=io3, edges="fork", cliff=(None, 6)), "3 nodes: flow -> pattern -> flow -> pattern"),
        Job("rt.n4", h_pattern_flow, dict(n=4, kinds=["XY", "YZ", "-X", "+Y"], io=[((0,), (3,)), ((0, 1), (3, 2)), ((), (1, 2))], edges="fork"),
            "4 nodes: flow -> pattern -> flow -> pattern", 1.5),
    ]
    if t:
        js += [
            Job("ex.n5", h_extract, dict(n=5, nin=1, nout=1, kinds=["XY", "XZ", "+Y"], edges="path", mid=[(0, 2), (1, 3), (2, 4)], final_c=(None, 6)), "5-node path", 2.0),
            Job("xz.pauli.any4", h_xz_to_flow, dict(n=4, kinds=SIX, io=IO4, edges="fork", nl=3, source="any", target="pauli"), "4 nodes", 2.0),
            Job("xz.pauli.flow4", h_xz_to_flow, dict(n=4, kinds=SIX, io=IO4, edges="fork", nl=3, source="pauli", target="pauli"), "4 nodes", 2.0),
            Job("rt.n4all", h_pattern_flow, dict(n=4, kinds=MEAS, io=IO4, edges="fork", cliff=(None, 16)), "4 nodes", 2.0),
            Job("rt.n5", h_pattern_flow, dict(n=5, kinds=["XY", "-X", "+Y"], io=IO5, edges="fork"), "5 nodes", 2.0),
        ]
    return js


# ------------------------------------------------------------------ P18 open graphs
def relabel_pattern(p, f):
    q = Pattern(input_nodes=[f(v) for v in p.input_nodes])
    for c in p:
        k = c.kind.name
        if k == "E":
            q.add(command.E((f(c.nodes[0]), f(c.nodes[1]))))
        elif k == "N":
            q.add(command.N(f(c.node), c.state))
        elif k == "M":
            q.add(command.M(f(c.node), c.measurement))
        else:
            q.add(command.C(f(c.node), c.clifford))
    q.reorder_output_nodes([f(v) for v in p.output_nodes])
    return q


def small_og(e, tag, labels, ins, outs, kinds, edges, cliff, full=False):
    meas = [v for v in labels if v not in outs]
    m = {}
    for i, v in enumerate(meas):
        k = e.choose(f"{tag}k{i}", list(kinds))
        m[v] = mk_meas(k, (angle if full else gangle)(f"{tag}a{i}") if k in GPLANES else None)
    g = nx.Graph()
    g.add_nodes_from(labels)
    if edges == "fork":
        es = [p for p in itertools.combinations(range(len(labels)), 2) if e.choose(f"{tag}e{p}", [0, 1])]
    else:
        es = e.choose(f"{tag}e", list(edges))
    g.add_edges_from((labels[a], labels[b]) for a, b in es)
    oc = {}
    for i, v in enumerate(outs):
        c = e.choose(f"{tag}c{i}", list(cliff))
        if c is not None:
            oc[v] = Clifford(c)
    return OpenGraph(g, ins, outs, m, oc)


def frozen_og(o):
    return (frozenset(map(frozenset, o.graph.edges)), frozenset(o.graph.nodes), tuple(o.input_nodes), tuple(o.output_nodes),
            tuple((k, id(m)) for k, m in o.measurements.items()), tuple(o.output_cliffords.items()))


DIAG = (Clifford.I, Clifford.Z, Clifford.S, Clifford.SDG)


def h_compose_map(e, n1, n2, shapes, kinds, edges="fork", cliff=(None, 6)):
    """Sequential composition: the map of the composed open graph is the composition of the maps."""
    L1, L2 = LABELS[:n1], e.choose("L2", [LABELS[:n2], [4, 5, 7, 11, 8, 13][:n2]])
    (i1, o1), (i2, o2), back = e.choose("shape", list(shapes))
    og1 = small_og(e, "A", L1, [L1[k] for k in i1], [L1[k] for k in o1], kinds, edges, cliff)
    og2 = small_og(e, "B", L2, [L2[k] for k in i2], [L2[k] for k in o2], kinds, edges, cliff)
    # forward: outputs of self feed inputs of other; backward: outputs of other feed inputs of self
    src, dst = (og1.output_nodes, og2.input_nodes) if not back else (og1.input_nodes, og2.output_nodes)
    k = e.choose("k", list(range(min(len(src), len(dst)) + 1)))
    us = e.choose("us", list(itertools.permutations(src, k)))
    vs = e.choose("vs", list(itertools.combinations(dst, k)))
    mapping = dict(zip(vs, us))
    for v in L2:
        if v not in mapping and e.choose(f"rn{v}", [0, 1]):
            mapping[v] = 50 + (37 * v) % 17
    # documented overlay semantics: an edge present in both graphs appears once
    shared = {frozenset(x) for x in og1.graph.edges} & {frozenset(mapping.get(v, -1 - v) for v in x) for x in og2.graph.edges}
    if shared:
        return
    f1, f2 = frozen_og(og1), frozen_og(og2)
    if e.mode == "concrete":
        e.notes.append((og1, list(og1.graph.edges), og2, list(og2.graph.edges), mapping))
    og, mc = og1.compose(og2, mapping)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((og, list(og.graph.edges), mc))
    e.check(frozen_og(og1) == f1 and frozen_og(og2) == f2, "compose modified its arguments")
    e.check(all(mc[v] == u for v, u in mapping.items()) and set(mc) == set(L2) and len(set(mc.values())) == len(L2)
            and all(mc[v] not in L1 for v in L2 if v not in mapping), "mapping_complete is not a fresh injective extension of the mapping")
    r1, r2 = og_reference(og1), relabel_pattern(og_reference(og2), lambda v: mc[v])
    first, second = (r1, r2) if not back else (r2, r1)
    live = list(first.output_nodes)
    ref = Pattern(input_nodes=list(first.input_nodes) + [v for v in second.input_nodes if v not in live])
    ref.extend(list(first))
    ref.extend(list(second))
    merged = set(us)
    e.check(list(og.input_nodes) == [v for v in og1.input_nodes if v not in merged or v in r2.input_nodes]
            + [v for v in r2.input_nodes if v not in merged], "input nodes of the composition")
    e.check(list(og.output_nodes) == [v for v in og1.output_nodes if v not in merged or v in r2.output_nodes]
            + [v for v in r2.output_nodes if v not in merged], "output nodes of the composition")
    e.check(set(ref.output_nodes) == set(og.output_nodes) and set(ref.input_nodes) == set(og.input_nodes), "ports of the composition")
    ref.reorder_output_nodes(list(og.output_nodes))
    ref.reorder_input_nodes(list(og.input_nodes))
    # documented rule for the Cliffords of merged ports
    inv = {u: v for v, u in mc.items()}
    I = Clifford.I
    for u in og.graph.nodes:
        v = inv.get(u)
        c1, c2 = og1.output_cliffords.get(u, I), og2.output_cliffords.get(v, I) if v is not None else I
        if u in og.measurements:
            m = og1.measurements.get(u)
            m = m.clifford(c2) if m is not None else og2.measurements[v].clifford(c1)
            e.check(og.measurements[u].isclose(m), "measurement of a merged port does not absorb the output Clifford")
        else:
            e.check(og.output_cliffords.get(u, I) == c2 @ c1, "output Clifford of the composition")
    early = og2 if back else og1
    later = og1 if back else og2
    for v, u in mapping.items():
        if u in merged:
            c = early.output_cliffords.get(v if back else u, I)
            if back and c != I and og1.output_cliffords.get(u, I) != I:
                return  # two output ports: documented as self's Clifford first
            if c not in DIAG and any(True for _ in later.graph.neighbors(u if back else v)):
                return  # documented convention: the Clifford is moved after the entanglement of the second graph
    sem.check_equal(e, sem.run_pattern(e, ref, zero), sem.run_pattern(e, og_reference(og), zero),
                    "the map of the composed open graph is not the composition of the maps")


def h_compose_struct(e, n, kinds, styles=("obj", "meas")):
    """Any merge: the documented structure, and rejection exactly of incompatible or ill-formed mappings."""
    L1, L2 = LABELS[:n], [4, 5, 7, 11, 8, 13][:n]
    style = e.choose("style", list(styles))

    def mkog(tag, L):
        io = [e.choose(f"{tag}io{i}", ["-", "i", "o", "io"]) for i in range(n)]
        ins = [v for v, k in zip(L, io) if "i" in k][::-1]
        outs = [v for v, k in zip(L, io) if "o" in k]
        g = nx.Graph()
        g.add_nodes_from(L)
        g.add_edges_from((L[a], L[b]) for a, b in itertools.combinations(range(n), 2) if e.choose(f"{tag}e{a}{b}", [0, 1]))
        m = {}
        for i, v in enumerate(L):
            if v not in outs:
                k = e.choose(f"{tag}k{i}", list(kinds))
                m[v] = label_obj(e, k, style, i) if style == "obj" or k not in GPLANES else BlochMeasurement(real(f"{tag}a{i}", 0, 1), Plane[k])
        return OpenGraph(g, ins, outs, m)

    og1, og2 = mkog("A", L1), mkog("B", L2)
    mapping = {}
    for i, v in enumerate(L2):
        t = e.choose(f"m{i}", [None, *L1, 60])
        if t is not None:
            mapping[v] = t
    bad = e.choose("bad", [0, 0, 0, 1])
    if bad:
        mapping[99] = 70
    ok_map = not bad and len(set(mapping.values())) == len(mapping)
    comp = []
    for v, u in mapping.items():
        if v in og2.measurements and u in og1.measurements:
            a, b = og2.measurements[v], og1.measurements[u]
            if style == "meas" and isinstance(a, BlochMeasurement) and isinstance(b, BlochMeasurement) and a.plane == b.plane:
                d = a.angle - b.angle
                far = sor(d > Fraction(1, 1000), d < -Fraction(1, 1000))
                e.assume(sor(far, a.angle == b.angle))
                comp.append(a.angle == b.angle)
            else:
                comp.append(type(a) is type(b) and a == b)
    compat = sand(*comp)
    if e.mode == "concrete":
        e.notes.append((og1, list(og1.graph.edges), og2, list(og2.graph.edges), mapping))
    e.reached()
    try:
        og, mc = og1.compose(og2, mapping)
    except ValueError:
        e.check(not ok_map, "compose rejects a well-formed mapping")
        return
    except OpenGraphError:
        e.check(snot(compat), "compose rejects compatible measurements")
        return
    e.check(ok_map, "compose accepts an ill-formed mapping")
    e.check(compat, "compose merges incompatible measurements")
    M = set(mapping.values()) & set(L1)
    e.check(set(mc) == set(L2) and len(set(mc.values())) == n and all(mc[v] == u for v, u in mapping.items())
            and all(mc[v] not in L1 and mc[v] not in mapping.values() for v in L2 if v not in mapping), "mapping_complete")
    e.check({frozenset(x) for x in og.graph.edges} == {frozenset(x) for x in og1.graph.edges} | {frozenset(mc[v] for v in x) for x in og2.graph.edges}
            and set(og.graph.nodes) == set(L1) | set(mc.values()), "graph of the composition")
    for a, b, c, w in ((og1.input_nodes, og2.input_nodes, og.input_nodes, "input"), (og1.output_nodes, og2.output_nodes, og.output_nodes, "output")):
        b = [mc[v] for v in b]
        exp = [v for v in a if v not in M or v in b] + [v for v in b if v not in M]
        e.check(list(c) == exp, f"{w} nodes of the composition: {list(c)} instead of {exp}")
    inv = {u: v for v, u in mc.items()}
    for u, m in og.measurements.items():
        cands = [o.measurements[x] for o, x in ((og1, u), (og2, inv.get(u))) if x in o.measurements]
        e.check(any(m is c or m == c for c in cands) if style == "obj" else sor(*[m.isclose(c) for c in cands if type(c) is type(m)]),
                "measurement of the composition")
    e.check(set(og.measurements) == set(og.graph.nodes) - set(og.output_nodes), "measured nodes of the composition")


def h_neighbors(e, n):
    labels = LABELS[:n]
    A = gen_adj(e, labels, "sym")
    g = mk_graph(labels, A)
    og = OpenGraph(g, [], labels, {})
    w = e.choose("w", ["odd", "nb"])
    S = symset("S", labels) if e.mode != "concrete" else symset("S", labels)
    sa = as_anf(S, labels)
    cont = e.choose("cont", [set, list, tuple, frozenset])
    chosen = cont(v for v in labels if bool(bitval(sa[v])))
    e.reached()
    r = (og.odd_neighbors if w == "odd" else og.neighbors)(chosen)
    ra = as_anf(r, labels)
    cs = []
    for v in labels:
        ns = [adj(A, u, v) for u in chosen]
        if w == "odd":
            x = ZERO
            for a in ns:
                x = x ^ a
            cs.append(F(ra[v] ^ x))
        else:
            cs.append(F(ra[v]) if not ns else sor(sand(T(ra[v]), sor(*map(T, ns))), sand(F(ra[v]), *map(F, ns))))
    claims(e, cs, f"{'odd_neighbors' if w == 'odd' else 'neighbors'} is wrong")
    if type(r) is not SymSet:
        e.check(set(r) <= set(labels), "foreign nodes")


def h_og_reject(e, n):
    """The constructor accepts exactly the well-formed open graphs."""
    labels = LABELS[:n]
    g = nx.path_graph(0)
    g.add_nodes_from(labels)
    ext = labels + [77]
    ins = [v for v in ext if bool(bitval(e.anf(f"i{v}")))]
    outs = [v for v in ext if bool(bitval(e.anf(f"o{v}")))]
    meas = {v: Plane.XY for v in ext if bool(bitval(e.anf(f"m{v}")))}
    ocl = {v: Clifford.H for v in (ext[0], ext[-1]) if bool(bitval(e.anf(f"c{v}")))}
    dup = e.choose("dup", ["no", "no2", "in", "out"])
    if dup == "in":
        ins = ins + ins[:1]
    if dup == "out":
        outs = outs[:1] + outs
    good = (set(ins) <= set(labels) and set(outs) <= set(labels) and set(meas) == set(labels) - set(outs)
            and len(set(ins)) == len(ins) and len(set(outs)) == len(outs) and set(ocl) <= set(outs))
    if e.mode == "concrete":
        e.notes.append((labels, ins, outs, meas, ocl))
    e.reached()
    try:
        OpenGraph(g, ins, outs, meas, ocl)
    except OpenGraphError:
        e.check(not good, "a well-formed open graph is rejected")
        return
    e.check(good, "an ill-formed open graph is accepted")


def h_og_meas(e, n, kinds):
    """to_bloch / downcast_bloch / infer_pauli_measurements / isclose / is_equal_structurally."""
    labels = LABELS[:n]
    ins, outs = e.choose("io", [([0], [n - 1]), ([], [1]), ([1, 0], [0])])
    og = small_og(e, "A", labels, [labels[i] for i in ins], [labels[i] for i in outs], kinds, [[(i, i + 1) for i in range(n - 1)]], (None, 6, 16), full=True)
    w = e.choose("w", ["bloch", "down", "infer", "eq", "tol"])
    e.reached()
    if e.mode == "concrete":
        e.notes.append((og, list(og.graph.edges), w))
    if w == "tol":
        rel, ab = e.choose("tol", [(1e-9, 0.125), (0.0625, 0.0)])
        for r in (og.infer_pauli_measurements(rel, ab), og.infer_pauli_measurements(abs_tol=ab, rel_tol=rel)):
            e.check(set(r.measurements) == set(og.measurements) and all(
                type(r.measurements[v]) is type(x) and (r.measurements[v] == x if isinstance(x, PauliMeasurement) else r.measurements[v].angle is x.angle or r.measurements[v].angle == x.angle)
                for v, x in ((v, m.to_pauli_or_bloch(rel_tol=rel, abs_tol=ab)) for v, m in og.measurements.items())), "infer_pauli_measurements with given tolerances")
        return
    ref = sem.run_pattern(e, og_reference(og), zero) if w != "eq" else None
    if w == "down":
        allb = all(isinstance(m, BlochMeasurement) for m in og.measurements.values())
        try:
            r = og.downcast_bloch()
        except TypeError:
            e.check(not allb, "downcast_bloch rejects an open graph with Bloch measurements only")
            return
        e.check(allb, "downcast_bloch accepts a Pauli measurement")
    elif w == "bloch":
        r = og.to_bloch()
        e.check(all(isinstance(m, BlochMeasurement) for m in r.measurements.values()), "to_bloch leaves a Pauli measurement")
    elif w == "infer":
        r = og.infer_pauli_measurements()
        for v, m in r.measurements.items():
            o = og.measurements[v]
            if isinstance(m, BlochMeasurement) and isinstance(o, BlochMeasurement):
                e.check(m.angle == o.angle and m.plane == o.plane, "a measurement changed")
            elif isinstance(o, PauliMeasurement):
                e.check(m == o, "a Pauli measurement changed")
    else:
        ch = e.choose("ch", ["none", "edge", "node", "in", "out", "cliff", "plane", "angle", "pauli"])
        g = nx.Graph()
        g.add_nodes_from(reversed(list(og.graph.nodes)))
        g.add_edges_from((b, a) for a, b in og.graph.edges)
        i2, o2, m2, c2 = list(og.input_nodes), list(og.output_nodes), dict(reversed(list(og.measurements.items()))), dict(og.output_cliffords)
        struct, label = True, True
        if ch == "edge":
            g.remove_edge(*next(iter(g.edges)))
            struct = False
        elif ch == "node":
            g.add_node(70)
            m2[70] = PauliMeasurement(Axis.X)
            struct = False
        elif ch == "in":
            if len(i2) > 1:
                i2 = i2[::-1]
            else:
                i2 = [labels[1]] if i2 != [labels[1]] else []
            struct = False
        elif ch == "out":
            return
        elif ch == "cliff":
            c2 = {**c2, o2[0]: Clifford(9)}
            struct = False
        elif m2:
            v = sorted(m2)[0]
            m = m2[v]
            if isinstance(m, BlochMeasurement):
                if ch == "plane":
                    m2[v] = BlochMeasurement(m.angle, Plane.XY if m.plane != Plane.XY else Plane.XZ)
                    label = False
                elif ch == "angle":
                    m2[v] = BlochMeasurement(m.angle + Fraction(1, 16), m.plane)
                    label = False
            elif ch in ("pauli", "plane"):
                m2[v] = PauliMeasurement(m.axis, Sign.MINUS if m.sign == Sign.PLUS else Sign.PLUS) if ch == "pauli" else \
                    PauliMeasurement(Axis.X if m.axis != Axis.X else Axis.Y, m.sign)
                label = False
        r = OpenGraph(g, i2, o2, m2, c2)
        if ch == "angle" and not label:
            # tolerances are handed to the measurements
            for rel, ab in ((1e-9, 0.25), (0.0625, 0.0)):
                exp = bool(m.isclose(m2[v], rel_tol=rel, abs_tol=ab))
                e.check(bool(og.isclose(r, rel, ab)) == exp and bool(r.isclose(og, abs_tol=ab, rel_tol=rel)) == exp, "isclose with given tolerances")
        e.check(bool(og.is_equal_structurally(r)) == struct, "is_equal_structurally is wrong")
        e.check(bool(og.isclose(r)) == (struct and label), "isclose is wrong")
        e.check(bool(r.isclose(og)) == (struct and label), "isclose is not symmetric")
        return
    e.check({frozenset(x) for x in r.graph.edges} == {frozenset(x) for x in og.graph.edges} and set(r.graph.nodes) == set(og.graph.nodes)
            and list(r.input_nodes) == list(og.input_nodes) and list(r.output_nodes) == list(og.output_nodes)
            and dict(r.output_cliffords) == dict(og.output_cliffords) and set(r.measurements) == set(og.measurements), f"{w} changed the structure")
    sem.check_equal(e, ref, sem.run_pattern(e, og_reference(r), zero), f"{w} changed the map of the open graph")


def jobs_P18(tier):
    t = tier == "thorough"
    S22 = [(((0,), (1,)), ((0,), (1,)), 0), (((0, 1), (1, 0)), ((1, 0), (0,)), 0), (((0,), (0, 1)), ((0,), (0, 1)), 0), (((0,), (1,)), ((1,), (0,)), 1),
           (((0, 1), (0, 1)), ((0,), (1, 0)), 1)]
    S32 = [(((0,), (2, 1)), ((0, 1), (1,)), 0), (((0, 1), (1, 2)), ((1, 0), (1, 0)), 0), (((0, 2), (1,)), ((0,), (1, 0)), 1)]
    S33 = [(((0,), (2, 1)), ((0, 1), (2, 1)), 0), (((0, 1), (2,)), ((1, 0), (2, 0)), 1)]
    js = [
        Job("comp.2x2", h_compose_map, dict(n1=2, n2=2, shapes=S22, kinds=["XY", "YZ", "+Y"], cliff=(None, 6, 4)), "2+2 nodes, all graphs, 5 shapes, both directions, Cliffords"),
        Job("comp.3x2", h_compose_map, dict(n1=3, n2=2, shapes=S32, kinds=["XY", "-X"], cliff=(None, 5)), "3+2 nodes, all graphs", 1.5),
        Job("comp.cliff", h_compose_map, dict(n1=2, n2=2, shapes=S22[:2] + S22[3:4], kinds=["XY", "XZ", "-Z"], edges=[[(0, 1)]], cliff=tuple(range(24))), "2+2 nodes, all 24x24 Cliffords"),
        Job("comp.3x3", h_compose_map, dict(n1=3, n2=3, shapes=S33, kinds=["XY", "YZ"], edges=[[(0, 1), (1, 2)], [(0, 1), (0, 2)]], cliff=(None, 20)), "3+3 nodes"),
        Job("struct.2", h_compose_struct, dict(n=2, kinds=["XY", "YZ", "Y"]), "2+2 nodes, every mapping (including overlays)"),
        Job("struct.3", h_compose_struct, dict(n=3, kinds=["XY", "X"]), "3+3 nodes, mappings"),
        Job("neigh", h_neighbors, dict(n=5), "5 nodes: all graphs (symbolic edges), all node sets"),
        Job("reject", h_og_reject, dict(n=2), "2 nodes and one foreign: all ports, measurements, Cliffords, duplicates"),
        Job("meas", h_og_meas, dict(n=3, kinds=MEAS), "3-node path: conversions and comparisons, all labels, all angles"),
    ]
    if t:
        js += [
            Job("comp.4x3", h_compose_map, dict(n1=4, n2=3, shapes=[(((0, 1), (2, 3)), ((0, 1), (2, 1)), 0), (((0, 1), (3,)), ((1, 0), (2, 0)), 1)], kinds=["XY", "XZ", "-Y"], cliff=(None, 6, 16)), "4+3 nodes", 2.0),
            Job("neigh6", h_neighbors, dict(n=6), "6 nodes", 1.0),
            Job("reject3", h_og_reject, dict(n=3), "3 nodes", 1.0),
            Job("comp.all", h_compose_map, dict(n1=3, n2=3, shapes=S33, kinds=MEAS, cliff=(None, 6, 16, 20)), "3+3 nodes, all graphs", 2.0),
        ]
    return js


OUT_SEARCH = "graphs with more nodes; self-loops; label sets beyond those listed per job"

CHECKS = {
    "P12": dict(jobs=jobs_P12, quick_s=45, thorough_s=600, outside=OUT_SEARCH),
    "P13": dict(jobs=jobs_P13, quick_s=45, thorough_s=600, outside=OUT_SEARCH),
    "P14": dict(jobs=jobs_P14, quick_s=45, thorough_s=600, outside=OUT_SEARCH),
    "P15": dict(jobs=jobs_P15, quick_s=50, thorough_s=600, outside=OUT_SEARCH),
    "P16": dict(jobs=jobs_P16, quick_s=70, thorough_s=600, outside=OUT_SEARCH),
    "P17": dict(jobs=jobs_P17, quick_s=50, thorough_s=600, outside=OUT_SEARCH),
    "P18": dict(jobs=jobs_P18, quick_s=45, thorough_s=600, outside=OUT_SEARCH + "; edges present in both composed graphs (documented overlay)"),
}
