"""Graph-state simulation (P30) and decomposition into resource graphs (P31)."""

from __future__ import annotations

import ast
import inspect
import itertools
import signal
import types

import graphix.extraction as gx
import graphix.graphsim as gs
import networkx as nx
import numpy as np

from . import backends as B
from .common import *  # noqa: F403

z3 = engine.z3

LAB = [3, 0, 7, 1, 12, 5]
X, Z = (1, 0), (0, 1)


# ---------------------------------------------------------------- symbolic execution of graphsim
class _Not(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name("__not__", ast.Load()), [n.operand], []), n)
        return n


def _not(x):
    return Bit(x.a ^ engine.ONE) if type(x) is Bit else not x


class _Bool:
    """bool() that keeps symbolic bits."""

    def __new__(cls, x=False):
        return x if type(x) is Bit else bool(x)


_mod = None


def symbolic():
    """The module graphix.graphsim, re-read from its source, where `not` keeps symbolic bits symbolic."""
    global _mod
    if _mod is None:
        t = ast.fix_missing_locations(_Not().visit(ast.parse(inspect.getsource(gs))))
        _mod = types.ModuleType("graphix.graphsim")
        _mod.__dict__.update(__not__=_not, bool=_Bool)
        exec(compile(t, gs.__file__, "exec"), _mod.__dict__)
    return _mod


def cls(e):
    return gs.GraphState if e.mode == "concrete" else symbolic().GraphState


class Zb:
    """A propositional term, handed to the solver as it is built (constants folded only)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def const(self):
        return int(self.t) if isinstance(self.t, bool) else None

    def neg(self):
        return Zb(not self.t) if isinstance(self.t, bool) else Zb(z3.Not(self.t))

    def __xor__(self, o):
        if isinstance(o.t, bool):
            return self.neg() if o.t else self
        if isinstance(self.t, bool):
            return o.neg() if self.t else o
        return Zb(z3.Xor(self.t, o.t))

    def __and__(self, o):
        if isinstance(o.t, bool):
            return self if o.t else o
        if isinstance(self.t, bool):
            return o if self.t else self
        return Zb(z3.And(self.t, o.t))


ZERO, ONE = Zb(False), Zb(True)


def mk(v):
    return ONE if v else ZERO


def anf(x):
    if type(x) is not Bit:
        return mk(bool(x))
    e = cur()
    a = e.reduce(x.a)
    c = a.const()
    return mk(c) if c is not None else Zb(e.z(a))


# ---------------------------------------------------------------- reference: decorated graphs as stabiliser states
class Dec:
    """A decorated graph: H^hollow S^loop Z^sign (CZ over the edges) |+...+>."""

    def __init__(self, order, edges, att):
        self.order = list(order)
        self.edges = [tuple(x) for x in edges]
        self.att = att  # node -> (sign, loop, hollow) Anf

    @staticmethod
    def of(g):
        e = cur()
        for n in g.nodes:
            e.check(set(g.nodes[n]) == {"sign", "loop", "hollow"}, f"node {n} has the three attributes")
        e.check(all(a != b for a, b in g.edges), "no self edges")
        return Dec(g.nodes, g.edges, {n: tuple(anf(g.nodes[n][k]) for k in ("sign", "loop", "hollow")) for n in g.nodes})

    def gens(self):
        """Stabiliser generators."""
        return [self.forward(Pauli({v: (ONE, ZERO)}, ZERO)) for v in self.order]

    def forward(self, p):
        p = p.copy()
        for u, v in self.edges:
            p.cz(u, v)
        for v in self.order:
            s, l, h = self.att[v]
            p.z(v, s)
            p.s(v, l)
            p.h(v, h)
        return p

    def backward(self, p):
        p = p.copy()
        for v in self.order:
            s, l, h = self.att[v]
            p.h(v, h)
            p.sdg(v, l)
            p.z(v, s)
        for u, v in self.edges:
            p.cz(u, v)
        return p

    def contains(self, p):
        """List of polynomials that vanish exactly when p stabilises the state."""
        q = self.backward(p)
        r = [q.get(v)[1] for v in self.order] + [q.sign]
        for v in q.d:
            if v not in self.att:
                r += list(q.d[v])
        return r


class Pauli:
    """A signed Hermitian Pauli operator with polynomial exponents."""

    def __init__(self, d, sign):
        self.d, self.sign = dict(d), sign

    def copy(self):
        return Pauli(self.d, self.sign)

    def get(self, v):
        return self.d.get(v, (ZERO, ZERO))

    def cz(self, u, v):
        (xu, zu), (xv, zv) = self.get(u), self.get(v)
        self.sign = self.sign ^ (xu & xv & (zu ^ zv))
        self.d[u] = (xu, zu ^ xv)
        self.d[v] = (xv, zv ^ xu)

    def z(self, v, s):
        self.sign = self.sign ^ (self.get(v)[0] & s)

    def x(self, v, s):
        self.sign = self.sign ^ (self.get(v)[1] & s)

    def s(self, v, l):
        x, z = self.get(v)
        self.sign = self.sign ^ (l & x & z)
        self.d[v] = (x, z ^ (l & x))

    def sdg(self, v, l):
        self.z(v, l)
        self.s(v, l)

    def h(self, v, b):
        x, z = self.get(v)
        self.sign = self.sign ^ (b & x & z)
        t = b & (x ^ z)
        self.d[v] = (x ^ t, z ^ t)

    def clifford(self, v, mat):
        x, z = self.get(v)
        c = x.const(), z.const()
        if None in c:
            # image of X and of Z, and of Y for the sign
            perm = sem.clifford_perm(mat)
            code = {1: (1, 0), 2: (0, 1), 3: (1, 1)}
            ix, iz, iy = perm[1], perm[2], perm[3]
            self.sign = self.sign ^ (x & z.neg() & mk(ix[1])) ^ (x.neg() & z & mk(iz[1])) ^ (x & z & mk(iy[1]))
            (a, b), (c_, d) = code[ix[0]], code[iz[0]]
            self.d[v] = ((x & mk(a)) ^ (z & mk(c_)), (x & mk(b)) ^ (z & mk(d)))
            return
        k = c[0] + 2 * c[1]
        p, s = sem.clifford_perm(mat)[k]
        self.sign = self.sign ^ mk(s)
        self.d[v] = tuple(mk(b) for b in (p & 1, p >> 1))

    def mul(self, o, bit_):
        """self * o^bit, for o acting on one node where self commutes with it."""
        r = self.copy()
        for v, (x2, z2) in o.d.items():
            x1, z1 = r.get(v)
            # only used when the node carries I or o itself in self: no phase arises
            r.d[v] = (x1 ^ (bit_ & x2), z1 ^ (bit_ & z2))
        r.sign = r.sign ^ (bit_ & o.sign)
        return r


def vanish(ps):
    ps = [p for p in ps if p.const() != 0]
    return z3.BoolVal(True) if not ps else z3.Not(z3.Or([z3.BoolVal(True) if p.const() else p.t for p in ps]))


def claim(e, c, msg):
    c = z3.simplify(c) if e.mode == "concrete" else c
    if e.mode == "concrete":
        e.check(z3.is_true(c), msg)
        return
    e.stats.claims += 1
    if z3.is_true(c):
        e.stats.folded += 1
    else:
        e.check_z(c, msg)


def claim_all(e, ps, msg):
    """Claim: all terms vanish."""
    claim(e, vanish(ps), msg)


def claim_not(e, ps, msg):
    claim(e, z3.Not(vanish(ps)), msg)


def same_state(e, gens, dec, msg):
    """Claim: the state stabilised by the generators is the decorated graph state."""
    claim_all(e, [p for g in gens for p in dec.contains(g)], msg)


# ---------------------------------------------------------------- generation
_iso = {}


def rooted(n):
    """Edge sets on n nodes, one per isomorphism class fixing node 0."""
    if n not in _iso:
        pairs = list(itertools.combinations(range(n), 2))
        seen, r = set(), []
        for m in range(1 << len(pairs)):
            es = [p for i, p in enumerate(pairs) if m >> i & 1]
            key = min(tuple(sorted(tuple(sorted((0 if a == 0 else pm[a - 1], 0 if b == 0 else pm[b - 1]))) for a, b in es)) for pm in itertools.permutations(range(1, n)))
            if key not in seen:
                seen.add(key)
                r.append(es)
        _iso[n] = r
    return _iso[n]


def gen_edges(e, n, classes):
    if classes:
        return rooted(n)[e.choose("graph", range(len(rooted(n))))]
    return [p for p in itertools.combinations(range(n), 2) if e.choose(f"edge{p}", [False, True])]


def gen(e, n, classes=False, lab=LAB):
    """A decorated graph: the graph is forked, the decorations are symbolic bits."""
    es = gen_edges(e, n, classes)
    g = cls(e)(nodes=lab[:n], edges=[(lab[a], lab[b]) for a, b in es])
    for v in lab[:n]:
        for k in ("sign", "loop", "hollow"):
            b = bit(f"{k}[{v}]")
            g.nodes[v][k] = b if type(b) is Bit else bool(b)
    return g


OPS = ["h", "s", "z", "e1", "e2", "fill", "flip_fill", "flip_sign", "advance"]


def h_ops(e, n, classes=False, ops=OPS):
    op = e.choose("op", ops)
    g = gen(e, n, classes)
    before = Dec.of(g)
    gens = before.gens()
    v = LAB[0]
    nodes = list(g.nodes)
    if op in ("h", "s", "z"):
        r = getattr(g, op)(v)
        for p in gens:
            getattr(p, op)(v, ONE)
        same_state(e, gens, Dec.of(g), f"the gate {op} is applied to the state")
    elif op == "e1":
        if not g.nodes[v]["loop"]:
            e.check(B.raises(lambda: g.equivalent_graph_e1(v), ValueError), "E1 needs a loop")
        else:
            g.equivalent_graph_e1(v)
        same_state(e, gens, Dec.of(g), "E1 keeps the state")
    elif op == "e2":
        u = LAB[e.choose("other", range(1, n))]
        a, b = (v, u) if e.choose("swap", [False, True]) else (u, v)
        if not g.has_edge(v, u) or g.nodes[v]["loop"] or g.nodes[u]["loop"]:
            e.check(B.raises(lambda: g.equivalent_graph_e2(a, b), ValueError), "E2 needs an edge and no loops")
        else:
            g.equivalent_graph_e2(a, b)
        same_state(e, gens, Dec.of(g), "E2 keeps the state")
    elif op == "fill":
        r = g.equivalent_fill_node(v)
        d = Dec.of(g)
        same_state(e, gens, d, "filling a node keeps the state")
        alone = not list(g.neighbors(v))
        if r == 0:
            claim_all(e, [d.att[v][2]], "0: the node is filled")
        elif r == 1:
            e.check(alone, "1: the node is isolated")
            claim_all(e, [d.att[v][2].neg()], "1: the node is hollow")
        else:
            e.check(r == 2 and alone, "2: the node is isolated")
            claim_all(e, [d.att[v][2]], "2: the node is filled")
    else:
        # elementary attribute changes
        s, l, h = before.att[v]
        getattr(g, op)(v)
        want = {"flip_fill": (s, l, h.neg()), "flip_sign": (s.neg(), l, h), "advance": (s ^ l, l.neg(), h)}[op]
        d = Dec.of(g)
        claim_all(e, [a ^ b for a, b in zip(d.att[v], want)], f"{op} changes the attributes of the node")
        e.check(sorted(map(sorted, d.edges)) == sorted(map(sorted, before.edges)), f"{op} keeps the edges")
        claim_all(e, [a ^ b for w in nodes[1:] for a, b in zip(d.att[w], before.att[w])], f"{op} keeps the other nodes")
    e.check(list(g.nodes) == nodes, "the nodes are unchanged")
    e.reached()


AX = {"x": (ONE, ZERO), "y": (ONE, ONE), "z": (ZERO, ONE)}


def h_measure(e, n, classes=False, axes="xyz", steps=1):
    g = gen(e, n, classes)
    for k in range(steps):
        ax = e.choose(f"axis{k}", list(axes))
        v = LAB[k]
        choice = e.choose(f"choice{k}", [0, 1])
        d = Dec.of(g)
        m = Pauli({v: AX[ax]}, ZERO)
        plus = d.contains(m)
        minus = d.contains(Pauli(m.d, ONE))
        o = getattr(g, f"measure_{ax}")(v, choice=choice)
        e.check(o in (0, 1), "the outcome is a bit")
        e.check(v not in g.nodes and list(g.nodes) == [w for w in d.order if w != v], "the node is removed")
        claim_not(e, minus if o == 0 else plus, f"the reported outcome {o} of {ax.upper()} is possible")
        if o != choice:
            claim_all(e, minus if o else plus, f"another outcome than the chosen one is reported only when the chosen one is impossible ({ax.upper()})")
        mo = Pauli(m.d, mk(o))
        cs = [z3.Or([vanish(d.contains(p)), vanish(d.contains(p.mul(mo, ONE)))]) for p in Dec.of(g).gens()]
        claim(e, z3.And(cs), f"the state after measuring {ax.upper()} with outcome {o}")
    e.reached()


def h_choice(e):
    g = gen(e, 2)
    ax = e.choose("axis", list("xyz"))
    d = Dec.of(g)
    c = e.choose("choice", [2, -1])
    e.check(B.raises(lambda: getattr(g, f"measure_{ax}")(LAB[0], choice=c), ValueError), "the choice is 0 or 1")
    same_state(e, d.gens(), Dec.of(g), "a refused measurement keeps the state")
    e.reached()


def h_local(e, n):
    g = gen(e, n)
    v = LAB[0]
    d = Dec.of(g)
    nb = set(g.neighbors(v))
    old = {frozenset(x) for x in g.edges}
    g.local_complement(v)
    new = {frozenset(x) for x in g.edges}
    want = {frozenset((a, b)) for a, b in itertools.combinations(LAB[:n], 2) if (frozenset((a, b)) in old) != (a in nb and b in nb)}
    e.check(new == want, "local complementation complements the neighbourhood")
    d2 = Dec.of(g)
    e.check(list(g.nodes) == d.order, "the nodes are unchanged")
    claim_all(e, [a ^ b for w in d.order for a, b in zip(d.att[w], d2.att[w])], "the decorations are unchanged")
    e.check(sorted(map(str, g.isolated_nodes())) == sorted(str(w) for w in LAB[:n] if not any(w in x for x in want)), "isolated nodes")
    e.reached()


def h_vops(e, n, classes=False):
    """Cliffords on the nodes of a graph state, and their extraction."""
    how = e.choose("how", ["apply", "init"])
    i = e.choose("clifford", range(24))
    vop = Clifford(i)
    if how == "apply":
        g = gen(e, n, classes)
        gens = Dec.of(g).gens()
        vops = {LAB[0]: vop}
        g.apply_vops(vops)
    else:
        es = gen_edges(e, n, classes)
        edges = [(LAB[a], LAB[b]) for a, b in es]
        j = e.choose("clifford2", [0, 6, 17])
        vops = {LAB[n - 1]: Clifford(j), LAB[0]: vop} if n > 1 else {LAB[0]: vop}
        nodes = e.choose("nodes", ["given", "edges only"]) == "given" or len({x for p in edges for x in p}) < n
        g = cls(e)(nodes=LAB[:n] if nodes else None, edges=edges if edges or e.choose("none", [0, 1]) else None, vops=vops)
        gens = Dec(LAB[:n], edges, {w: (ZERO, ZERO, ZERO) for w in LAB[:n]}).gens()
    for w, c in vops.items():
        for p in gens:
            p.clifford(w, c.matrix)
    e.check(vops[LAB[0]] == vop, "the operators are unchanged")
    same_state(e, gens, Dec.of(g), "the Cliffords are applied to the state")
    if how == "init":
        out = g.extract_vops()
        e.check(list(out) == list(g.nodes), "one operator per node")
        gens2 = Dec(g.nodes, g.edges, {w: (ZERO, ZERO, ZERO) for w in g.nodes}).gens()
        for w, c in out.items():
            for p in gens2:
                p.clifford(w, c.matrix)
        same_state(e, gens2, Dec.of(g), "the extracted operators give the state from the bare graph")
    e.reached()


def h_extract(e):
    """Extraction for all decorations."""
    g = gen(e, 2)
    d = Dec.of(g)
    out = g.extract_vops()
    e.check(list(out) == list(g.nodes), "one operator per node")
    bare = Dec(g.nodes, g.edges, {w: (ZERO, ZERO, ZERO) for w in g.nodes}).gens()
    for w, c in out.items():
        for p in bare:
            p.clifford(w, c.matrix)
    same_state(e, bare, d, "the extracted operators give the state from the bare graph")
    same_state(e, d.gens(), Dec.of(g), "extraction keeps the state")
    e.reached()


PMAT = {(0, 0): np.eye(2), (1, 0): np.array([[0, 1], [1, 0]]), (1, 1): np.array([[0, -1j], [1j, 0]]), (0, 1): np.diag([1, -1])}


def h_vector(e, n, classes=False):
    """The state vector."""
    g = gen(e, n, classes)
    sv = g.to_statevector()
    e.check(sv.flatten().shape == (2 ** n,), "one amplitude per basis state")
    psi = sv.flatten()
    for w in g.nodes:
        for k in g.nodes[w]:
            g.nodes[w][k] = bool(g.nodes[w][k])
    d = Dec.of(g)
    for p in d.gens():
        m = np.eye(1)
        for w in d.order:
            x, z = p.get(w)
            m = np.kron(m, PMAT[x.const(), z.const()])
        s = p.sign.const()
        e.check(bool(np.allclose(m @ psi, psi if not s else -psi)), "every generator stabilises the state vector")
    e.check(bool(np.isclose(np.linalg.norm(psi), 1)), "the state vector is normalised")
    e.reached()


def h_nodes(e):
    """Attributes of added nodes."""
    G = cls(e)
    a = {k: bit(f"{k}") for k in ("sign", "loop", "hollow")}
    if e.mode == "concrete":
        a = {k: bool(v) for k, v in a.items()}
    how = e.choose("how", ["add_node", "add_nodes_from", "tuple", "partial", "plain", "edge", "edges"])
    zero = {"sign": False, "loop": False, "hollow": False}
    g = G()
    want = a
    if how == "add_node":
        g.add_node(4, **a)
    elif how == "add_nodes_from":
        g.add_nodes_from([4], **a)
    elif how == "tuple":
        g.add_nodes_from([(4, dict(a))])
    elif how == "partial":
        k = e.choose("which", ["sign", "loop", "hollow"])
        g.add_node(4, **{k: a[k]})
        want = {**zero, k: a[k]}
    elif how == "plain":
        g.add_nodes_from(iter([4, 0]))
        want = zero
    elif how == "edge":
        g.add_edge(4, 0)
        want = zero
    else:
        g.add_edges_from([(4, 0)])
        want = zero
    d = Dec.of(g)
    claim_all(e, [x ^ anf(want[k]) for x, k in zip(d.att[4], ("sign", "loop", "hollow"))], "the attributes of the node")
    e.check(B.raises(lambda: g.add_nodes_from([(9, {"colour": True})]), ValueError), "unknown attributes are refused")
    e.reached()


def cur():
    return engine.CUR


J = Job


def jobs_p30(tier):
    js = [J(f"ops{n}", h_ops, dict(n=n), f"all graphs on {n} nodes, all decorations, one operation", w) for n, w in ((1, 1), (2, 1), (3, 2), (4, 8)) if n > 1]
    js += [J("ops1", h_ops, dict(n=1, ops=[o for o in OPS if o != "e2"]), "one node", 1)]
    js += [J(f"measure{n}", h_measure, dict(n=n), f"all graphs on {n} nodes, all decorations, one measurement", w) for n, w in ((1, 1), (2, 1), (3, 2), (4, 10))]
    js += [
        J("measure3x2", h_measure, dict(n=3, steps=2), "all graphs on 3 nodes, two measurements", 6),
        J("choice", h_choice, {}, "choices outside {0, 1}", 1),
        J("local4", h_local, dict(n=4), "local complementation on all graphs of 4 nodes", 1),
        J("vops3", h_vops, dict(n=3, classes=True), "a Clifford on a node of a graph of 3 nodes (up to isomorphism)", 4),
        J("extract", h_extract, {}, "extraction on 2 nodes", 1),
        J("vector3", h_vector, dict(n=3, classes=True), "state vector of all graphs on 3 nodes (up to isomorphism)", 4),
        J("nodes", h_nodes, {}, "node attributes", 1),
        J("ops5", h_ops, dict(n=5, classes=True), "graphs on 5 nodes up to isomorphism fixing the first node, one operation", 10),
        J("measure5", h_measure, dict(n=5, classes=True), "graphs on 5 nodes up to isomorphism fixing the first node, one measurement", 12),
    ]
    if tier == "thorough":
        js += [
            J("vops4", h_vops, dict(n=4), "a Clifford on a node of a graph of 4 nodes", 10),
            J("ops5all", h_ops, dict(n=5), "all graphs on 5 nodes, one operation", 20),
            J("measure5all", h_measure, dict(n=5), "all graphs on 5 nodes, one measurement", 20),
            J("measure4x2", h_measure, dict(n=4, steps=2), "all graphs on 4 nodes, two measurements", 20),
            J("vector4", h_vector, dict(n=4, classes=True), "state vector on 4 nodes", 10),
        ]
    return js


# ---------------------------------------------------------------- P31
class Hang(Exception):
    pass


def timed(f, cpu_s=1.5):
    """Run f with a limit on processor time."""

    def stop(*_):
        raise Hang

    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_s)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def resource(r):
    """(type, nodes) after checking the shape of a resource graph."""
    e = cur()
    g = r.graph
    n = g.number_of_nodes()
    deg = sorted(dict(g.degree).values())
    e.check(n >= 1 and g.number_of_edges() == n - 1 and nx.is_connected(g), "a resource graph is a tree")
    if r.cltype == gx.ResourceType.GHZ:
        e.check(n == 1 or deg[-1] == n - 1, "a GHZ resource is a star")
    else:
        e.check(r.cltype == gx.ResourceType.LINEAR, "the resource is GHZ or linear")
        e.check(deg[-1] <= 2, "a linear resource is a path")
    return n


def symint(name, lo):
    """A symbolic integer between lo and lo + 3."""
    return lo + bit(f"{name}.0") + 2 * bit(f"{name}.1")


def limit(e, name, lo):
    """A symbolic size limit of at least lo, or no limit."""
    return np.inf if e.choose(f"no {name}", [True, False]) else symint(name, lo)


def h_fusion(e, n, atlas=False, perms=1):
    if atlas:
        gs_ = [g for g in nx.graph_atlas_g() if g.number_of_nodes() == n]
        es = sorted(map(sorted, gs_[e.choose("graph", range(len(gs_)))].edges))
        pm = e.choose("perm", range(perms))
        lab = [x * 3 % 11 if pm == 0 else (7 * x + pm) % 11 for x in range(n)]
        if pm == 1:
            es = es[::-1]
        if pm == 2:
            es = [(b, a) for a, b in es[1::2] + es[::2]]
    else:
        es = [p for p in itertools.combinations(range(n), 2) if e.choose(f"edge{p}", [False, True])]
        lab = LAB[:n]
    g = nx.Graph()
    g.add_nodes_from(lab)
    g.add_edges_from((lab[a], lab[b]) for a, b in es)
    before = g.copy()
    ghz, lin = limit(e, "max_ghz", 3), limit(e, "max_lin", 2)
    try:
        rs = timed(lambda: gx.graph_to_fusion_network(g, max_ghz=ghz, max_lin=lin))
    except Hang:
        e.check(False, "the decomposition terminates")
        return
    e.check(nx.utils.graphs_equal(g, before), "the graph is unchanged")
    edges = []
    for r in rs:
        k = resource(r)
        edges += [tuple(sorted(x)) for x in r.graph.edges]
        e.check(k <= (ghz if r.cltype == gx.ResourceType.GHZ else lin), f"a {r.cltype} resource has at most the given size")
    e.check(sorted(edges) == sorted(tuple(sorted(x)) for x in g.edges), "every edge is in exactly one resource")
    e.check({x for r in rs for x in r.graph.nodes} == set(g.nodes), "every node is in a resource")
    e.check(all(len(r.graph) > 1 or g.degree[next(iter(r.graph))] == 0 for r in rs), "resources of one node are isolated nodes")
    for a, b in itertools.combinations(rs, 2):
        f = gx.fusion_nodes(a, b)
        e.check(len(set(f)) == len(f) and set(f) == set(a.graph.nodes) & set(b.graph.nodes) and set(gx.fusion_nodes(b, a)) == set(f), "the fusion nodes are the shared nodes")
    top = max(dict(g.degree).values(), default=0)
    if top > 2:
        big = [len(r.graph) for r in rs if r.cltype == gx.ResourceType.GHZ]
        if ghz is np.inf:
            e.check(max(big) == top + 1, "the first GHZ resource takes a whole neighbourhood")
        else:
            e.check(sor(max(big) >= top + 1, max(big) + 1 > ghz), "the largest GHZ resource has the largest size available")
    e.reached()


def h_resources(e):
    """Resource graphs by themselves."""
    k = e.choose("size", range(1, 6))
    ids = [4, 0, 7, 1, 9][:k]
    root = e.choose("root", [None, *ids])
    r = gx.create_resource_graph(ids, root=root)
    e.check(resource(r) == k and set(r.graph.nodes) == set(ids), "the nodes of the resource")
    e.check(r.cltype == (gx.ResourceType.LINEAR if root is None else gx.ResourceType.GHZ), "the type of the resource")
    want = {frozenset(x) for x in zip(ids, ids[1:])} if root is None else {frozenset((root, x)) for x in ids if x != root}
    e.check({frozenset(x) for x in r.graph.edges} == want, "the edges of the resource")
    j = e.choose("size2", range(1, 6))
    ids2 = [9, 7, 5, 0, 4][:j]
    root2 = e.choose("root2", [None, *ids2])
    r2 = gx.create_resource_graph(ids2, root=root2)
    want2 = {frozenset(x) for x in zip(ids2, ids2[1:])} if root2 is None else {frozenset((root2, x)) for x in ids2 if x != root2}
    same = r2.cltype == r.cltype and want == want2 and set(ids) == set(ids2)
    e.check((r == r2) == same and (r != r2) == (not same), "equality of resources")
    e.check(set(gx.fusion_nodes(r, r2)) == (set() if same else set(ids) & set(ids2)), "the fusion nodes are the shared nodes")
    e.check(gx.fusion_nodes(r, r) == [], "no fusion of a resource with itself")
    e.check(B.raises(lambda: r == 3, TypeError) and B.raises(lambda: gx.fusion_nodes(r, 3), TypeError) and B.raises(lambda: gx.fusion_nodes(3, r), TypeError), "only resources are compared and fused")
    e.reached()


def h_limits(e):
    """Limits that no resource with an edge satisfies."""
    g = nx.Graph([(3, 0), (0, 7)])
    which = e.choose("which", ["max_ghz", "max_lin"])
    v = symint(which, -2)
    try:
        e.check(B.raises(lambda: timed(lambda: gx.graph_to_fusion_network(g, **{which: v})), ValueError), "impossible limits are refused")
    except Hang:
        e.check(False, "impossible limits are refused")
    e.reached()


def jobs_p31(tier):
    js = [J(f"fusion{n}", h_fusion, dict(n=n), f"all graphs on {n} nodes, all size limits (GHZ at least 3, linear at least 2)", n) for n in (1, 2, 3, 4, 5)]
    js += [
        J("fusion6", h_fusion, dict(n=6, atlas=True, perms=2), "graphs on 6 nodes up to isomorphism, two node orders", 6),
        J("resources", h_resources, {}, "resource graphs of up to 5 nodes, pairs of them", 1),
        J("limits", h_limits, {}, "limits below two nodes", 1),
    ]
    if tier == "thorough":
        js += [
            J("fusion6x3", h_fusion, dict(n=6, atlas=True, perms=3), "graphs on 6 nodes up to isomorphism, three node orders", 10),
            J("fusion7", h_fusion, dict(n=7, atlas=True, perms=3), "graphs on 7 nodes up to isomorphism, three node orders", 30),
        ]
    return js


CHECKS = {
    "P30": dict(jobs=jobs_p30, quick_s=200, thorough_s=1500, outside="graphs with more nodes; drawing"),
    "P31": dict(jobs=jobs_p31, quick_s=200, thorough_s=900, outside="larger graphs; GHZ limit of two nodes (clusters of three nodes are always GHZ resources); graphs with self edges"),
}
