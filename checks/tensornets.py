"""Tensor-network simulation (P33)."""

from __future__ import annotations

import autoray
import graphix.sim.tensornet as tnm
import graphix.states as gstates
import quimb.tensor as qtn
from graphix.branch_selector import BranchSelector
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.simulator import DefaultMeasureMethod

from . import backends as B
from .backends import *  # noqa: F403
from .common import *  # noqa: F403
from .simul import RefVec

# quimb's simplifications and truncated decompositions read floating-point values: they are replaced by exact
# ones (no simplification; T = identity . T), whose contraction is the same by the contract of quimb.
autoray.register_backend(Cx, "numpy")
SIMPLIFY = {c: c.__dict__.get("full_simplify") for c in (qtn.TensorNetwork, MBQCTensorNet)}
SPLIT = qtn.Tensor.split


def exact_split(self, left_inds, bond_ind=None, right_inds=None, **kw):
    left = list(left_inds)
    right = [i for i in self.inds if i not in left]
    t = self.transpose(*left, *right)
    sh = t.data.shape[: len(left)]
    d = int(np.prod(sh))
    bond = bond_ind or qtn.rand_uuid()
    a = qtn.Tensor(np.eye(d).reshape(*sh, d), [*left, bond], self.tags)
    b = qtn.Tensor(t.data.reshape(d, *t.data.shape[len(left):]), [bond, *right], self.tags)
    return qtn.TensorNetwork([a, b])


CZ0 = [np.array(t) for t in tnm._decompose_cz()]


def snap(t):
    """The numerical factors of CZ with rounding removed (multiples of 2^-1/4 and such are kept)."""
    return np.where(np.abs(t) < 1e-12, 0, t)


def trig_cx(f):
    return staticmethod(lambda x: Cx.lift(f(x)) if isinstance(x, (proxy.Real, proxy.ImagReal)) else f(x))


class TnNp(cnum.NpSym):
    """Trigonometric functions of symbolic angles as symbolic numbers."""

    cos, sin, exp = map(trig_cx, (np.cos, np.sin, np.exp))


def setup_tn(e):
    proxy.UNIT_DEN = 2  # half angles
    B.setup(e)
    sym = e.mode != "concrete"
    tnm.np = gstates.np = TnNp() if sym else np
    if sym:
        tnm.float = cnum.sym_float
        for c in SIMPLIFY:
            c.full_simplify = lambda self, *a, **k: self
        qtn.Tensor.split = exact_split
        tnm.SupportsComplex = SC
    else:
        tnm.__dict__.pop("float", None)
        for c, f in SIMPLIFY.items():
            if f is not None:
                c.full_simplify = f
            elif "full_simplify" in c.__dict__:
                del c.full_simplify
        qtn.Tensor.split = SPLIT


SC = tnm.SupportsComplex


class Sel1(BranchSelector):
    """Chosen outcomes; records the probabilities offered."""

    def __init__(self, e):
        self.e, self.calls = e, []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        o = self.e.choose(f"o{len(self.calls)}", [0, 1])
        self.calls.append((qubit, f_expectation0(), o))
        return o

    @property
    def out(self):
        return {q: o for q, _, o in self.calls}


def lifted(e, v):
    return v if e.mode == "concrete" else [Cx.lift(x) for x in v]


def vecs(e, meas):
    """Unit eigenvectors of the measurement for outcomes 0 and 1."""
    if not hasattr(meas, "plane"):
        s = 1 if meas.sign.name == "PLUS" else -1
        v = {"X": ("PLUS", "MINUS"), "Y": ("PLUS_I", "MINUS_I"), "Z": ("ZERO", "ONE")}[meas.axis.name][::s]
        return [st_vec(x) for x in v]
    a = meas.angle
    if e.mode == "concrete":
        t = math.pi * float(a)
        c, s, h, k = math.cos(t), math.sin(t), math.cos(t / 2), math.sin(t / 2)
        I1 = 1j
    else:
        (c, s), (h, k) = (tuple(map(Cx.lift, sem.cos_sin(x))) for x in (a, a / 2))
        I1 = Cx.const(1j)
    if meas.plane.name == "XY":
        return [arr([R2 + 0 * c, (c + I1 * s) * R2]), arr([R2 + 0 * c, -(c + I1 * s) * R2])]
    if meas.plane.name == "XZ":
        return [arr([h, k]), arr([-k, h])]
    return [arr([h, I1 * k]), arr([I1 * k, h])]


def project(ref, q, v):
    n, k = len(ref.names), ref.names.index(q)
    w = []
    for i in range(1 << (n - 1)):
        b = B.bits(i, n - 1)
        w.append(sum((v[x].conjugate() * ref.psi[B.unbits((*b[:k], x, *b[k:]))] for x in (0, 1)), 0))
    return arr(w)


def vanishing(x):
    v = Cx.lift(x).constant()
    return v is not None and abs(v) < 1e-9


def h_pat(e, preps, what="coef", **kw):
    """Whole patterns: every branch, symbolic angles."""
    setup_tn(e)
    p = gen_pattern(e, **kw)
    e.notes.append(show(p))
    prep = e.choose("prep", list(preps))
    sel = Sel1(e)
    meth = DefaultMeasureMethod()
    # degrees in the graph of the pattern
    deg = {}
    for c in p:
        if c.kind.name == "E":
            ed = frozenset(c.nodes)
            deg[ed] = deg.get(ed, 0) ^ 1
    nodes = set(p.input_nodes) | {c.node for c in p if c.kind.name == "N"}
    isolated = {v for v in nodes if not any(x and v in ed for ed, x in deg.items())}
    try:
        be = TensorNetworkBackend(p, graph_prep=prep, branch_selector=sel) if prep != "name" else "tensornetwork"
    except NotImplementedError:
        cl = [i for i, c in enumerate(p) if c.kind.name == "C"]
        e.check(any(c.kind.name == "E" and p[i].node in c.nodes for i in cl for c in list(p)[i:]), "only patterns with a Clifford gate before an edge may be refused")
        e.reached()
        return
    kws = {} if prep != "name" else dict(branch_selector=sel)
    par = lambda d: bool(sum((sel.out[x] for x in d), 0) % 2)
    try:
        st = p.simulate(backend=be, measure_method=meth, **kws)
    except ZeroDivisionError:
        st = None
    e.check([q for q, _, _ in sel.calls] == [c.node for c in p if c.kind.name == "M"][: len(sel.calls)] and (st is None or len(sel.calls) == len(p.input_nodes) + sum(c.kind.name == "N" for c in p) - len(p.output_nodes)), "the selector is asked once for each measurement, in order")
    e.check(st is None or dict(meth.results) == sel.out, "the outcomes of the selector are recorded")
    ref = RefVec(arr([1]), [])
    for v in p.input_nodes:
        ref.prep(v, st_vec("PLUS"))
    k = 0
    for c in p:
        kind = c.kind.name
        if kind == "N":
            ref.prep(c.node, st_vec("PLUS"))
        elif kind == "E":
            ref.op(B.CZM, *c.nodes)
        elif kind in "XZ":
            if par(c.domain):
                ref.op(B.PXS[1 if kind == "X" else 3], c.node)
        elif kind == "C":
            ref.op(c.clifford.matrix, c.node)
        elif kind == "M":
            if par(c.s_domain):
                ref.op(B.PXS[1], c.node)
            if par(c.t_domain):
                ref.op(B.PXS[3], c.node)
            v0, v1 = vecs(e, c.measurement)
            q, p0, o = sel.calls[k]
            k += 1
            full = ref.psi
            w = project(ref, c.node, (v0, v1)[o])
            if c.node in isolated:
                w0 = project(ref, c.node, v0)
                same(e, arr([p0 * norm2(full)]), arr([norm2(w0)]), "an isolated node is measured with its actual probabilities")
            else:
                e.check(p0 == 0.5, "connected nodes are measured with even probabilities")
            ref.psi = w
            ref.names.remove(c.node)
            if k == len(sel.calls) and st is None:
                claim(e, norm2(w).real <= 1e-7, "a measurement fails only on outcomes of probability zero")
                e.reached()
                return
    outs = list(p.output_nodes)
    want = ref.result(outs)
    n = len(outs)
    if e.mode == "concrete":
        if abs(norm2(want)) < 1e-9:
            return
    elif vanishing(norm2(want)):
        e.reached()
        return
    if what == "coef":
        got = arr([st.basis_coefficient(i if i % 2 else format(i, f"0{n}b"), normalize=False) for i in range(1 << n)])
        proportional(e, got, want, "the coefficients are those of the branch of the pattern")
        n2 = norm2(got)
        for _, p0, o in sel.calls:
            n2 = n2 * (1 - p0 if o else p0)
        same(e, arr([n2]), arr([norm2(want)]), "the network is rescaled by the probability of the branch")
    else:
        try:
            got = st.to_statevector() if what == "sv" else st.flatten()
        except ZeroDivisionError:
            same(e, arr([norm2(want)]), arr([0]), "the state vanishes only for outcomes of probability zero")
            e.reached()
            return
        proportional(e, got, want, "the state vector is the branch of the pattern")
        same(e, arr([norm2(got)]), arr([1]), "the state vector is normalised")
    e.reached()


NAMES = {"plus": "PLUS", "minus": "MINUS", "zero": "ZERO", "one": "ONE", "iplus": "PLUS_I", "iminus": "MINUS_I"}
ORDERS = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [2, 0, 1], [1, 0, 2]]}


def symvec(e, name):
    return unit(carr(name, 2))


def start(e, n, forms=("list", "name", "mixed", "vec", "single")):
    """A fresh network of n qubits in chosen states, and the reference."""
    nodes = [7, 0, 12, 3][:n]
    out = [nodes[i] for i in e.choose("outs", ORDERS[n])]
    st = MBQCTensorNet(branch_selector=Sel1(e), default_output_nodes=out)
    form = e.choose("form", list(forms))
    if form == "list":
        v = [symvec(e, f"v{i}") for i in range(n)]
        st.add_qubits(nodes, v)
    elif form == "one":  # a symbolic state and fixed ones
        k = e.choose("sym", list(range(n)))
        v = [symvec(e, "v") if i == k else [arr([0.6, 0.8j]), arr([0.8, -0.6]), st_vec("PLUS_I")][i] for i in range(n)]
        st.add_qubits(nodes, v)
    elif form == "vec":
        v = [symvec(e, "v0")] * n
        st.add_qubits(nodes, list(v[0]) if e.choose("aslist", [0, 1]) else v[0])
    elif form == "name":
        s = e.choose("name", list(NAMES))
        st.add_qubits(nodes, s)
        v = [st_vec(NAMES[s])] * n
    elif form == "mixed":
        s = e.choose("name", list(NAMES))
        v = [st_vec(NAMES[s])] + [symvec(e, f"v{i}") for i in range(1, n)]
        st.add_qubits(nodes, [s] + v[1:])
    else:
        v = [symvec(e, f"v{i}") for i in range(n - 1)] + [st_vec("PLUS")]
        for q, x in zip(nodes[:-1], v):
            st.add_qubit(q, x)
        st.add_qubit(nodes[-1])
    ref = RefVec(arr([1]), [])
    for q, x in zip(nodes, v):
        ref.prep(q, x)
    return st, ref, nodes, out


def coefs(st, n, indices=None, normalize=False):
    kw = {} if indices is None else dict(indices=indices)
    return arr([st.basis_coefficient(i if i % 2 else format(i, f"0{n}b"), normalize=normalize, **kw) for i in range(1 << n)])


def h_net(e, n, L, forms, ops):
    """Operations on a network, then every reading of its amplitudes."""
    setup_tn(e)
    st, ref, nodes, out = start(e, n, forms)
    for i in range(L):
        o = e.choose(f"op{i}", list(ops))
        if o == "single":
            q = e.choose(f"q{i}", nodes)
            m = carr(f"m{i}", 2, 2)
            st.evolve_single(q, m)
            ref.op(m, q)
        elif o in ("evolve", "split"):
            k = min(2, n)
            qs = e.choose(f"qs{i}", [list(x) for x in itertools.permutations(range(n), k)])
            m = carr(f"m{i}", 1 << k, 1 << k)
            st.evolve(m if e.choose(f"shape{i}", [0, 1]) else m.reshape((2,) * (2 * k)), qs, decompose=o == "split")
            ref.op(m, *(out[q] for q in qs))
        elif o == "copy":  # the copy is worked on, the original stays
            old, oldref = st, ref.result(out)
            st = st.copy(deep=bool(e.choose(f"deep{i}", [0, 1])))
            m = carr(f"m{i}", 2, 2)
            st.evolve_single(nodes[0], m)
            ref.op(m, nodes[0])
            same(e, coefs(old, n), oldref, "operations on a copy leave the network alone")
    same(e, coefs(st, n), ref.result(out), "the basis coefficients are those of the state")
    perm = list(reversed(out))
    same(e, coefs(st, n, perm), ref.result(perm), "the coefficients follow the given order of the nodes")
    e.reached()


def h_read(e, n, what):
    """Normalised readings of a state prepared from unit vectors by a fixed circuit."""
    setup_tn(e)
    scaled = what in ("amp", "exp") and e.choose("scaled", [0, 1])
    st, ref, nodes, out = start(e, n, ("name",) if what == "norm" or scaled else ("one",))
    if n > 1:
        st.evolve(B.CZM.astype(complex), [0, 1], decompose=False)
        ref.op(B.CZM, out[0], out[1])
    H = np.array([[1, 1], [1, -1]]) * R2 + 0j
    st.evolve_single(nodes[0], H)
    ref.op(H, nodes[0])
    if scaled:  # a state that is not normalised
        m = arr([cvar("m0"), 0, 0, 0.6], (2, 2))
        st.evolve_single(nodes[0], m)
        ref.op(m, nodes[0])
    psi = ref.result(out)
    if scaled and (abs(norm2(psi)) < 1e-6 if e.mode == "concrete" else bool(norm2(psi) < 1e-6)):
        return
    if what == "sv":
        same(e, st.to_statevector(), psi, "state vector")
        same(e, st.to_statevector(list(reversed(out))), ref.result(list(reversed(out))), "state vector in the given order")
    elif what == "flatten":
        same(e, st.flatten(), psi, "flattened state vector")
    elif what == "norm":
        m = arr([cvar("m0"), 0, 0, cvar("m1")], (2, 2))
        k = e.choose("scaled", [0, 1])
        if k:
            st.evolve_single(nodes[-1], m)
            ref.op(m, nodes[-1])
            psi = ref.result(out)
        nn = st.norm()
        same(e, arr([nn * nn]), arr([norm2(psi)]), "the norm of the state")
    elif what == "amp":
        i = e.choose("i", list(range(1 << n)))
        b = i if e.choose("str", [0, 1]) else format(i, f"0{n}b")
        c = st.basis_coefficient(b)
        N = norm2(psi)
        if not scaled:
            same(e, arr([c]), arr([psi[i]]), "normalised coefficient")
        else:
            same(e, arr([c * c * N]), arr([psi[i] * psi[i]]), "normalised coefficient")
        a = st.basis_amplitude(b)
        same(e, arr([a * N if scaled else a]), arr([norm2(arr([psi[i]]))]), "basis_amplitude is the probability of the basis state")
    else:
        k = e.choose("k", list(range(1, n + 1)))
        qs = e.choose("qs", [list(x) for x in itertools.permutations(range(n), k)])
        op = carr("op", 1 << k, 1 << k)
        got = st.expectation_value(op, qs) if e.choose("explicit", [0, 1]) else st.expectation_value(op, qs, output_node_indices=list(out))
        w = ref_evolve(psi, n, op, qs)
        same(e, arr([got * norm2(psi) if scaled else got]), arr([ref_inner(psi, w)]), "expectation value")
        same(e, coefs(st, n), psi, "reading does not change the network")
    e.reached()


def h_meas(e, n):
    """measure_single in Pauli bases and on a given vector."""
    setup_tn(e)
    st, ref, nodes, out = start(e, n, ("list",))
    if n > 1:
        st.evolve(B.CZM.astype(complex), [0, 1], decompose=False)
        ref.op(B.CZM, out[0], out[1])
    q = e.choose("q", nodes)
    basis = e.choose("basis", ["X", "Y", "Z", "vec"])
    sel = st._MBQCTensorNet__branch_selector
    if basis == "vec":
        v = carr("w", 2)
        st.measure_single(q, basis=v)
    else:
        how = e.choose("how", ["selector", "given"])
        if how == "given":
            o = e.choose("o", [0, 1])
            r = st.measure_single(q, basis, outcome=o)
            e.check(r == o and not sel.calls, "the given outcome is taken")
        else:
            r = st.measure_single(q, basis)
            e.check([(c[0], c[2]) for c in sel.calls] == [(q, r)] and sel.calls[0][1] == 0.5, "the selector is asked for the node")
        v = st_vec({"X": ("PLUS", "MINUS"), "Y": ("PLUS_I", "MINUS_I"), "Z": ("ZERO", "ONE")}[basis][r])
    w = project(ref, q, v)
    rest = [x for x in out if x != q]
    ref.psi = w
    ref.names.remove(q)
    if rest:
        same(e, coefs(st, n - 1, rest), ref.result(rest), "the node is projected on the measured state")
    else:
        same(e, arr([st.contract(output_inds=[])]), w, "the node is projected on the measured state")
    e.reached()


def h_graph(e, n, sparse=None):
    """Graph states prepared from the graph, then any operator on two of the qubits."""
    setup_tn(e)
    nodes = [4, 11, 2, 9, 6][:n]
    pairs = list(itertools.combinations(range(n), 2))
    if sparse is not None:
        edges = e.choose("graph", sparse)
    else:
        edges = [p for p in pairs if e.choose(f"e{p}", [0, 1])]
    order = e.choose("dir", [0, 1])
    ed = [(nodes[a], nodes[b]) if order else (nodes[b], nodes[a]) for a, b in edges]
    st = MBQCTensorNet(branch_selector=Sel1(e), graph_nodes=nodes, graph_edges=ed, default_output_nodes=nodes)
    ref = RefVec(arr([1]), [])
    for q in nodes:
        ref.prep(q, st_vec("PLUS"))
    for a, b in ed:
        ref.op(B.CZM, a, b)
    v = carr("w", 2)
    q = nodes[e.choose("q", list(range(n)))]
    st.measure_single(q, basis=v)
    ref.psi = project(ref, q, v)
    ref.names.remove(q)
    rest = [x for x in nodes if x != q]
    same(e, coefs(st, n - 1, rest), ref.result(rest), "the graph state")
    e.reached()


def h_tnbad(e):
    """Documented errors."""
    setup_tn(e)
    st = MBQCTensorNet(branch_selector=Sel1(e))
    w = e.choose("what", ["name", "shape", "norm", "basis", "prob", "outs", "len", "prep", "input", "node", "nonstd", "par"])
    r = raises
    p = Pattern(input_nodes=[0])
    p.extend([command.N(1), command.E((0, 1)), command.M(0), command.X(1, {0})])
    if w == "name":
        e.check(r(lambda: st.add_qubit(0, "foo"), TypeError), "unknown state names are rejected")
    elif w == "shape":
        e.check(r(lambda: st.add_qubit(0, np.array([1, 0, 0, 0j])), ValueError), "states of other shapes are rejected")
    elif w == "norm":
        v = carr("v", 2)
        ok = not r(lambda: st.add_qubit(0, v), ValueError)
        if e.mode == "concrete":
            n2 = norm2(v).real
            e.check(ok == (abs(math.sqrt(n2) - 1) < 1e-5) or abs(abs(math.sqrt(n2) - 1) - 1e-5) < 1e-6, "unnormalised states are rejected")
        else:
            n2 = norm2(v).real
            claim(e, sand(n2 <= 1.0001, n2 >= 0.9999) if ok else sor(n2 <= 0.99999, n2 >= 1.00001), "unnormalised states are rejected")
    elif w == "basis":
        st.add_qubit(0)
        e.check(r(lambda: st.measure_single(0, "W"), ValueError), "unknown bases are rejected")
    elif w == "prob":
        st.add_qubit(0)
        e.check(r(lambda: st.measure_single(0, "Z", bypass_probability_calculation=False), NotImplementedError), "probabilities are not implemented")
    elif w == "outs":
        st.add_qubit(0)
        e.check(r(st.to_statevector, ValueError) and r(lambda: st.basis_coefficient(0), ValueError), "output nodes are required")
        same(e, st.to_statevector([0]), st_vec("PLUS"), "explicit nodes")
    elif w == "len":
        e.check(r(lambda: st.add_qubits([0, 1], ["plus"]), ValueError), "as many states as nodes")
    elif w == "prep":
        e.check(r(lambda: TensorNetworkBackend(p, graph_prep="foo"), ValueError), "unknown strategies are rejected")
    elif w == "input":
        e.check(r(lambda: TensorNetworkBackend(p, input_state=BasicStates.ZERO), NotImplementedError) and r(lambda: p.simulate("tensornetwork", input_state=BasicStates.ZERO, graph_prep=e.choose("gp", ["sequential", "parallel"])), NotImplementedError), "only |+> inputs")
    elif w == "node":
        p2 = Pattern(cmds=[command.N(1, BasicStates.ZERO)], output_nodes=[1])
        e.check(r(lambda: p2.simulate("tensornetwork", graph_prep=e.choose("gp", ["sequential", "parallel"])), NotImplementedError, ValueError), "only |+> nodes")
    elif w == "nonstd":
        p2 = Pattern(input_nodes=[0])
        p2.extend([command.N(1), command.E((0, 1)), command.M(0), command.N(2), command.E((1, 2)), command.M(1, s_domain={0})])
        e.check(r(lambda: TensorNetworkBackend(p2, graph_prep="parallel"), ValueError), "parallel preparation needs a standard pattern")
    elif w == "par":
        from graphix.parameter import Placeholder

        p2 = Pattern(input_nodes=[0])
        p2.extend([command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(Placeholder("a"))), command.X(1, {0})])
        e.check(r(lambda: p2.simulate("tensornetwork"), TypeError), "parameterised patterns are rejected")
    e.reached()


def jobs_P33(tier):
    t = tier == "thorough"
    P = ("parallel", "sequential")
    js = [
        Job("pat2", h_pat, dict(preps=("parallel", "sequential", "auto", "name"), n=2, nin=1, nout=1, kinds=PLANES + PAULIS, edges=[(0, 1)], final_c=(None, 4, 13)), "2 nodes, every measurement, input kinds, corrections"),
        Job("iso2", h_pat, dict(preps=P, n=2, nin=1, nout=1, kinds=PLANES + PAULIS, edges="multi"), "2 nodes, edges applied 0 to 2 times"),
        Job("iso2c", h_pat, dict(preps=P[1:], n=3, nin=1, nout=1, kinds=("XZ", "-X"), edges=[(0, 2)], mid=[(0, 1)], mid_c=(None, 6), final=False), "an isolated node that was corrected"),
        Job("pat3", h_pat, dict(preps=P[:1], n=3, nin=1, nout=1, kinds=("XY", "-Y"), edges="choose", final=True), "3 nodes, any graph"),
        Job("pat3o", h_pat, dict(preps=P, n=3, nin=2, nout=2, kinds=("YZ", "XZ", "+X"), edges="choose", out_perm=True, in_perm=True, final_c=(None, 6), what="sv"), "3 nodes, 2 in, 2 out in any order, state vector"),
        Job("pat3s", h_pat, dict(preps=("sequential", "auto"), n=3, nin=1, nout=2, kinds=("XY",), edges="path", edge_times=True, mid=[(0, 1), (0, 2)], mid_c=(None, 6), late=True), "corrections between commands"),
        Job("net1", h_net, dict(n=1, L=2, forms=("list", "name", "vec", "single"), ops=("single", "evolve", "copy")), "1 qubit, 2 operations"),
        Job("net2", h_net, dict(n=2, L=2, forms=("list", "mixed"), ops=("single", "evolve", "split", "copy")), "2 qubits, 2 operations"),
        Job("net3", h_net, dict(n=3, L=1, forms=("list", "mixed", "single"), ops=("single", "evolve", "split")), "3 qubits, 1 operation"),
        *[Job(f"read.{w}{n}", h_read, dict(n=n, what=w), f"{n} qubits") for w in ("sv", "flatten", "norm", "amp", "exp") for n in (1, 2)],
        Job("read.exp3", h_read, dict(n=3, what="exp"), "3 qubits"),
        Job("meas1", h_meas, dict(n=1), "1 qubit"), Job("meas3", h_meas, dict(n=3), "3 qubits"),
        Job("star", h_graph, dict(n=5, sparse=[[(0, i) for i in range(1, 5)], [(i, 4) for i in range(4)], [(2, i) for i in (0, 1, 3, 4)] + [(0, 1)],
                                                [(1, i) for i in (0, 2, 3, 4)] + [(3, i) for i in (0, 2, 4)]]), "5 nodes, degrees up to 4", 2),
        Job("graph3", h_graph, dict(n=3), "every graph on 3 nodes"), Job("graph4", h_graph, dict(n=4), "every graph on 4 nodes"),
        Job("bad", h_tnbad, {}, "every documented error", 0.5),
    ]
    if t:
        js += [
            Job("pat4", h_pat, dict(preps=P[:1], n=4, nin=1, nout=1, kinds=("XY", "+Y"), edges="choose", final=True), "4 nodes, any graph", 2),
            Job("pat4s", h_pat, dict(preps=P[1:], n=4, nin=2, nout=2, kinds=("XY", "YZ"), edges="path", edge_times=True, mid=[(0, 1)], mid_c=(None, 6), late=True, out_perm=True), "4 nodes, sequential", 2),
            Job("net2.3", h_net, dict(n=2, L=3, forms=("list", "mixed"), ops=("single", "evolve", "split", "copy")), "2 qubits, 3 operations"),
            Job("graph5", h_graph, dict(n=5), "every graph on 5 nodes"),
        ]
    return js


CHECKS = {
    "P33": dict(jobs=jobs_P33, quick_s=60, thorough_s=600, outside="quimb's simplification and truncated decompositions (replaced by exact ones: no "
                "simplification, T = identity.T), contraction-path optimisers, deprecated strategy names, networks larger than the stated bounds, "
                "probabilities of measurements on nodes with neighbours (taken as 1/2 by the backend, which holds for patterns with flow)"),
}
