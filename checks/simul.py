"""Pattern simulation on backends, branch selection, noise models (P25-P27)."""

from __future__ import annotations

import itertools
import math

import graphix.sim.base_backend as bb
import numpy as np
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.channels import KrausChannel, KrausData
from graphix.command import CommandKind
from graphix.noise_models import (
    AmplitudeDampingNoise,
    AmplitudeDampingNoiseModel,
    ApplyNoise,
    ComposeNoiseModel,
    DepolarisingNoise,
    DepolarisingNoiseModel,
    TwoQubitAmplitudeDampingNoise,
    TwoQubitDepolarisingNoise,
)
from graphix.noise_models.noise_model import Noise, NoiselessNoiseModel
from graphix.sim.base_backend import NodeIndex, NoiseNotSupportedError
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod, PatternSimulator

from symx import cnum
from symx.cnum import Cx, arr, carr, claim, cvar, herm, norm2, proportional, rvar, same, unit

from . import backends as B
from .circuits import Marker, RecBackend, RecState, SymSelector
from .common import *  # noqa: F403

z3 = engine.z3


def plain(e):
    """The modules compute with plain numpy (the recording backend needs no arrays of symbols)."""
    for m in B.MODS:
        m.np = np
        for n in ("complex", "float"):
            if n in m.__dict__:
                delattr(m, n)
        for n in B.DISPATCH:
            if n in m.__dict__:
                setattr(m, n, B.DISPATCH[n])


# ------------------------------------------------------------------ P25
class Rng:
    """Identified by address only: the simulator hands it on."""


MODES = [("default", "simulator", True, 0), ("data", "pattern", False, 0), ("states", "pattern", True, 0), ("none", "simulator", False, 0), ("data", "simulator", True, 1)]


def h_pattern(e, modes=MODES, **kw):
    """PatternSimulator on a recording backend."""
    plain(e)
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    if e.mode == "concrete":
        e.notes.append(show(ref))
    cmds, outs = list(p), list(p.output_nodes)
    inp, via, expect, pre = e.choose("mode", list(modes))
    sel = SymSelector(e, lambda q, k: f"m[{q}]", expect=expect)
    nin = len(p.input_nodes)
    st = RecState(e, list(p.input_nodes) if inp == "none" else ())
    be = RecBackend(st, branch_selector=sel, symbolic=e.mode != "concrete")
    if inp == "none":
        be.node_index.extend(p.input_nodes)
    given = {p.input_nodes[0]: 1, 99: 1} if pre else None
    meth = DefaultMeasureMethod(given) if via == "pattern" or pre else None
    rng = Rng()
    data = {"default": None, "data": Marker(nin), "states": [BasicStates.ZERO, BasicStates.PLUS_I, BasicStates.MINUS][:nin]}
    run = {} if inp == "default" else {"input_state": data.get(inp)}
    e.reached()
    if via == "simulator":
        sim = PatternSimulator(p, backend=be, measure_method=meth)
        sim.run(rng=rng, **run)
        meth = sim.measure_method
        e.check(sim.backend is be and sim.pattern is p, "the simulator uses the given backend and pattern")
    else:
        kw2 = {} if meth is None else {"measure_method": meth}
        r = p.simulate(backend=be, rng=rng, **run, **kw2)
        e.check(r is be.state, "simulate returns the state of the backend")
    e.check([c is d for c, d in zip(list(p), cmds)] == [True] * len(cmds) and list(p.output_nodes) == outs, "the simulation changed the pattern")
    nodes = [c.node for c in ref if c.kind.name == "M"]
    e.check([q for q, _, _ in sel.calls] == nodes, "measurements happen once per command, in order")
    e.check(all(r is rng for _, _, r in sel.calls), "the random generator is handed on to the branch selector")
    res = {q: o for q, o, _ in sel.calls}
    if meth is not None:
        want = {**(given or {}), **res}
        e.check(dict(meth.results) == want, "the outcome of every measured node is recorded")
        e.check(given is None or given == {p.input_nodes[0]: 1, 99: 1}, "the given results are not modified")
    e.check(list(be.node_index) == outs and st.nqubit == len(outs), "the outputs are left in the declared order")
    oc = lambda n: mk(int(res[n]))
    s0 = sem.new_state(e, list(p.input_nodes) if inp in ("none", "data") else [])
    if inp in ("default", "states"):
        for i, v in enumerate(p.input_nodes):
            sv = BasicStates.PLUS if inp == "default" else data["states"][i]
            s0.prep(v, sem.state_vec(sv) if e.mode == "concrete" else sem.state_bloch(sv))
    A = sem.run_pattern(e, ref, oc, st=s0)
    sem.check_equal(e, st.result(), A, "the simulation applies the commands of the pattern in order")


def h_nodeindex(e, L):
    """NodeIndex after any history of extensions, removals, swaps."""
    ix, ref = NodeIndex(), []
    fresh = [4, 0, 7, 2, 9, 3, 12, 5]
    for i in range(L):
        ops = ["extend", "clear"] + (["remove"] if ref else []) + (["swap"] if len(ref) > 1 else [])
        o = e.choose(f"op{i}", ops)
        if o == "extend":
            k = e.choose(f"k{i}", [1, 2, 0])
            ns = [fresh.pop(0) for _ in range(min(k, len(fresh)))]
            form = e.choose(f"as{i}", ["list", "iter", "tuple"])
            ix.extend(ns if form == "list" else iter(ns) if form == "iter" else tuple(ns))
            ref += ns
        elif o == "remove":
            v = ref[e.choose(f"r{i}", list(range(len(ref))))]
            ix.remove(v)
            ref.remove(v)
            fresh.insert(0, v)
        elif o == "swap":
            a, b = e.choose(f"s{i}", list(itertools.permutations(range(len(ref)), 2)))
            ix.swap(a, b)
            ref[a], ref[b] = ref[b], ref[a]
        else:
            ix.clear()
            ref = []
        e.check(list(ix) == ref and len(ix) == len(ref) and [ix[j] for j in range(len(ref))] == ref
                and [ix.index(v) for v in ref] == list(range(len(ref))), "node index")
        for v in (4, 0, 7, 2, 9):
            if v not in ref:
                e.check(B.raises(lambda: ix.index(v), KeyError), "absent nodes have no index")
    e.reached()


def h_simbad(e):
    """Configurations the simulator documents as errors."""
    plain(e)
    p = Pattern(input_nodes=[0])
    p.extend([command.N(1), command.E((0, 1)), command.M(0), command.X(1, {0})])
    rp = Pattern(input_nodes=[0])
    rp.extend([command.N(1), command.E((0, 1)), command.X(1, {0}), command.M(0)])
    noise = DepolarisingNoiseModel()
    sel = ConstBranchSelector(0)
    mk_be = {"sv": StatevectorBackend, "dm": DensityMatrixBackend}[e.choose("be", ["sv", "dm"])]

    def prepared(k):
        be = mk_be()
        be.add_nodes(list(range(k)))
        return be

    cases = {
        "none on an empty backend": lambda: p.simulate(backend=prepared(0), input_state=None),
        "none on two nodes": lambda: p.simulate(backend=prepared(2), input_state=None),
        "data on a used backend": lambda: p.simulate(backend=prepared(1)),
        "selector and backend": lambda: PatternSimulator(p, mk_be(), branch_selector=sel),
        "graph_prep and backend": lambda: PatternSimulator(p, mk_be(), graph_prep="auto"),
        "symbolic and backend": lambda: PatternSimulator(p, mk_be(), symbolic=True),
        "noise on a statevector": lambda: PatternSimulator(p, "statevector", noise_model=noise),
        "symbolic statevector": lambda: PatternSimulator(p, "statevector", symbolic=True),
        "graph_prep on a dense backend": lambda: PatternSimulator(p, e.choose("d", ["statevector", "densitymatrix"]), graph_prep="auto"),
        "noise on a tensor network": lambda: PatternSimulator(p, "tensornetwork", noise_model=noise),
        "symbolic tensor network": lambda: PatternSimulator(p, "mps", symbolic=True),
        "unknown backend": lambda: PatternSimulator(p, "foo"),
        "not runnable": lambda: PatternSimulator(rp, mk_be()).run(),
        "signal commands": lambda: PatternSimulator(_with_signal(p), mk_be()).run(),
        "too many inputs": lambda: PatternSimulator(p, mk_be()).run(input_state=[BasicStates.PLUS, BasicStates.PLUS]),
    }
    k = e.choose("case", list(cases))
    e.check(B.raises(cases[k], ValueError, pattern_mod.RunnabilityError), f"{k} is rejected")
    ok = {
        "none on one node": lambda: p.simulate(backend=_noinput(mk_be, p), input_state=None, rng=np.random.default_rng(1)),
        "data": lambda: p.simulate(backend=mk_be(), rng=np.random.default_rng(1)),
        "selector by name": lambda: p.simulate(backend="statevector", branch_selector=sel),
        "noise by name": lambda: p.simulate(backend="densitymatrix", noise_model=noise, rng=np.random.default_rng(1)),
    }
    k = e.choose("ok", list(ok))
    e.check(ok[k]().nqubit == 1, f"{k} is accepted")
    e.reached()


class RecPrepare(DefaultPrepareMethod):
    def __init__(self):
        super().__init__()
        self.seen = []

    def prepare(self, backend, cmd, *a, **k):
        self.seen.append(cmd.node)
        return super().prepare(backend, cmd, *a, **k)


class Contrary(DefaultMeasureMethod):
    """A user-defined method: records the outcomes, answers with their complements."""

    def measurement_outcome(self, node):
        return 1 - super().measurement_outcome(node)


def h_options(e):
    """The options given by the user reach the simulation."""
    plain(e)
    p = Pattern(input_nodes=[0])
    p.extend([command.N(1), command.E((0, 1)), command.M(0), command.X(1, {0}), command.N(2), command.E((1, 2)), command.M(1), command.X(2, {1}), command.Z(2, {0, 1})])
    name = e.choose("backend", ["statevector", "densitymatrix", "tensornetwork", "mps"])
    dense = name in ("statevector", "densitymatrix")
    kw = {}
    sel = ConstBranchSelector(e.choose("o", [0, 1])) if e.choose("sel", [True, False]) else None
    if sel is not None:
        kw["branch_selector"] = sel
    sym = name == "densitymatrix" and e.choose("symbolic", [True, False])
    if sym:
        kw["symbolic"] = True
    if not dense:
        kw["graph_prep"] = e.choose("prep", ["parallel", "sequential", "auto"]) if e.choose("gp", [True, False]) else None
        if kw["graph_prep"] == "parallel":
            p = p.copy()
            p.standardize()
    noise = NoiselessNoiseModel() if name == "densitymatrix" and e.choose("noise", [True, False]) else None
    if noise is not None:
        kw["noise_model"] = noise
    prep = RecPrepare() if e.choose("prepare", [True, False]) else None
    meth = e.choose("measure", [None, DefaultMeasureMethod, Contrary])
    if prep is not None:
        kw["prepare_method"] = prep
    if meth is not None:
        meth = meth()
        kw["measure_method"] = meth
    sim = PatternSimulator(p, name, **kw)
    be = sim.backend
    if sel is None:
        e.check(type(be.branch_selector) is RandomBranchSelector and be.branch_selector.pr_calc, "outcomes are random by default")
    else:
        e.check(be.branch_selector is sel, "the branch selector is the one given")
    if dense:
        e.check(be.symbolic is sym, "the symbolic option reaches the backend")
    e.check(sim.noise_model is noise, "the noise model is the one given")
    sim.run(rng=np.random.default_rng(5))
    if prep is not None:
        e.check(prep.seen == [c.node for c in p if c.kind == CommandKind.N], "nodes are prepared by the method given, in order")
    if meth is not None:
        e.check(sim.measure_method is meth and set(meth.results) == {0, 1}, "measurements are made by the method given")
        if sel is not None:
            e.check(set(meth.results.values()) == {sel.result}, "the recorded outcomes are the selected ones")
    if dense and sel is not None:
        # corrections follow what the measurement method answers
        flip = 1 if isinstance(meth, Contrary) else 0
        ref = PatternSimulator(_corrected(p, sel.result, flip), name, branch_selector=sel)
        ref.run()
        a, b = (x.state.flatten() if name == "statevector" else x.state.rho for x in (be, ref.backend))
        d = abs(np.vdot(a, b)) if name == "statevector" else (a.conj() * b).sum().real
        e.check(abs(d - 1) < 1e-9, "corrections follow the outcomes answered by the measurement method")
    e.reached()


def _corrected(p, o, flip):
    """The corrections of p, applied exactly when they should given the answers o xor flip."""
    q = Pattern(input_nodes=p.input_nodes)
    for c in p:
        if c.kind in (CommandKind.X, CommandKind.Z):
            if len(c.domain) * (o ^ flip) % 2:
                q.add(command.C(c.node, Clifford.X if c.kind == CommandKind.X else Clifford.Z))
        else:
            q.add(c)
    return q


import graphix.pattern as pattern_mod


def _with_signal(p):
    q = p.copy()
    q.add(command.S(1, {0}))
    return q


def _noinput(mk_be, p):
    be = mk_be()
    be.add_nodes(p.input_nodes)
    return be


# ---------------------------------------------------------------- patterns on the real dense backends
def eigvec(meas, s, t, o):
    """|phi_o> of the measurement after the corrections X^s Z^t."""
    v = sem._vec(sem._np_bloch(meas), o)
    X, Z = np.array([[0, 1], [1, 0]]), np.diag([1, -1])
    if t:
        v = Z @ v
    if s:
        v = X @ v
    return v


class RefVec:
    """Unnormalised amplitudes of named qubits."""

    def __init__(self, psi, names):
        self.psi, self.names = psi, list(names)

    def op(self, m, *qs):
        self.psi = B.ref_evolve(self.psi, len(self.names), np.asarray(m), [self.names.index(q) for q in qs])

    def prep(self, q, v):
        self.psi = B.kron(self.psi, v)
        self.names.append(q)

    def project(self, q, v):
        n, k = len(self.names), self.names.index(q)
        w = []
        for i in range(1 << (n - 1)):
            b = B.bits(i, n - 1)
            w.append(sum(complex(v[x]).conjugate() * self.psi[B.unbits((*b[:k], x, *b[k:]))] for x in (0, 1)))
        self.psi = arr(w)
        self.names.remove(q)

    def result(self, order):
        n = len(order)
        out = []
        for i in range(1 << n):
            b = B.bits(i, n)
            out.append(self.psi[B.unbits([b[order.index(q)] for q in self.names])])
        return arr(out)


class RefMat:
    def __init__(self, rho, names):
        self.rho, self.names = rho, list(names)

    def op(self, m, *qs):
        self.rho = B.ref_dm(self.rho, len(self.names), np.asarray(m), [self.names.index(q) for q in qs])

    def mix(self, ms, *qs):
        at = [self.names.index(q) for q in qs]
        self.rho = sum(B.ref_dm(self.rho, len(self.names), m, at) for m in ms)

    def channel(self, name, p, *qs):
        self.rho = B.ref_channel(name, self.rho, len(self.names), [self.names.index(q) for q in qs], [p])

    def prep(self, q, v):
        n = len(self.rho)
        g = [[x * y.conjugate() for y in v] for x in v]
        self.rho = arr([self.rho[i // 2, j // 2] * g[i % 2][j % 2] for i in range(2 * n) for j in range(2 * n)], (2 * n, 2 * n))
        self.names.append(q)

    def project(self, q, v):
        n, k = len(self.names), self.names.index(q)
        K = 1 << (n - 1)
        w = []
        at = lambda b, x: B.unbits((*b[:k], x, *b[k:]))
        for i in range(K):
            for j in range(K):
                bi, bj = B.bits(i, n - 1), B.bits(j, n - 1)
                w.append(sum(complex(v[x]).conjugate() * complex(v[y]) * self.rho[at(bi, x), at(bj, y)] for x in (0, 1) for y in (0, 1)))
        self.rho = arr(w, (K, K))
        self.names.remove(q)

    def result(self, order):
        n = len(order)
        src = lambda i: B.unbits([B.bits(i, n)[order.index(q)] for q in self.names])
        return arr([self.rho[src(i), src(j)] for i in range(1 << n) for j in range(1 << n)], (1 << n, 1 << n))


STV = {s: B.st_vec(s) for s in ()}


def st_of(s):
    for n in B.STATES:
        if getattr(BasicStates, n) == s:
            return B.st_vec(n)
    raise KeyError(s)


def run_ref(ref, cmds, outs, res, noises=None):
    """Apply the commands to the reference state; res: outcomes recorded; noises: callback."""
    par = lambda d: sum(res[x] for x in d) % 2
    for c in cmds:
        k = c.kind.name
        if k == "N":
            ref.prep(c.node, st_of(c.state))
        elif k == "E":
            ref.op(B.CZM, *c.nodes)
        elif k == "X":
            if par(c.domain):
                ref.op(B.PXS[1], c.node)
        elif k == "Z":
            if par(c.domain):
                ref.op(B.PXS[3], c.node)
        elif k == "C":
            ref.op(c.clifford.matrix, c.node)
        elif k == "M":
            s, t = par(c.s_domain), par(c.t_domain)
            ref.project(c.node, eigvec(c.measurement, s, t, noises.true[c.node] if noises else res[c.node]))
        elif k == "ApplyNoise":
            if c.domain is None or par(c.domain):
                noises(ref, c)
    return ref.result(outs)


def fixed_pattern(e, which):
    """Patterns with concrete commands (the state and the outcomes vary)."""
    m = lambda pl, a: BlochMeasurement(a, Plane[pl])
    P = Measurement
    a, b = (BasicStates.PLUS, BasicStates.ZERO)
    if which == "j2":  # two J gates
        p = Pattern(input_nodes=[3], cmds=[command.N(1), command.E((3, 1)), command.M(3, m("XY", 0.25)), command.N(7), command.E((1, 7)),
                    command.M(1, m("XY", -0.4), s_domain={3}), command.X(7, {1}), command.Z(7, {3}), command.C(7, Clifford.S)])
        p.reorder_output_nodes([7])
    elif which == "two":  # two inputs, three measured, outputs out of order
        p = Pattern(input_nodes=[5, 2], cmds=[command.N(0), command.E((2, 0)), command.N(9, BasicStates.PLUS_I), command.E((5, 9)), command.E((9, 0)),
                    command.M(5, m("XZ", 0.3)), command.M(2, P.Y, s_domain={5}, t_domain={5}), command.Z(9, {2}), command.X(0, {5, 2}), command.Z(0, {5})])
        p.reorder_output_nodes([0, 9])
    else:  # late preparation, YZ, T and C commands before a measurement
        p = Pattern(input_nodes=[1], cmds=[command.N(4, BasicStates.MINUS), command.T(), command.E((4, 1)), command.C(4, Clifford.H), command.M(4, m("YZ", 0.7)),
                    command.N(0), command.E((0, 1)), command.X(1, {4}), command.C(1, Clifford.S), command.M(1, -P.X, s_domain=set(), t_domain={4}), command.Z(0, {1, 4}), command.X(0, {4})])
        p.reorder_output_nodes([0])
    return p


class Sel(BranchSelector):
    """Chosen outcomes; optionally evaluates the probability."""

    def __init__(self, e):
        self.e, self.out, self.n = e, {}, 0

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.out[qubit] = self.e.choose(f"o{self.n}", [0, 1])
        self.n += 1
        return self.out[qubit]


def h_dense(e, which, backend):
    """The real backends on whole patterns: any input state, all outcomes."""
    B.setup(e)
    p = fixed_pattern(e, which)
    nin = len(p.input_nodes)
    sel = Sel(e)
    meth = DefaultMeasureMethod()
    if backend == "sv":
        psi = unit(carr("psi", 1 << nin))
        ref = RefVec(psi, p.input_nodes)
        data = Statevector(psi)
    else:
        data, h = B.mk_dm(e, nin)
        ref = RefMat(h, p.input_nodes)
    how = e.choose("how", ["name", "capacity0"]) if backend == "sv" else "name"
    try:
        if how == "name":
            st = p.simulate(backend={"sv": "statevector", "dm": "densitymatrix"}[backend], input_state=data, branch_selector=sel, measure_method=meth)
        else:
            st = p.simulate(backend=StatevectorBackend(branch_selector=sel), input_state=data, measure_method=meth)
    except (RuntimeError, ZeroDivisionError):
        e.reached()  # an outcome of probability zero was selected
        return
    e.check(dict(meth.results) == sel.out, "results are recorded")
    want = run_ref(ref, list(p), list(p.output_nodes), sel.out)
    if e.mode == "concrete" and abs(norm2(want).real) < 1e-9:
        return
    got = st.flatten() if backend == "sv" else st.rho
    proportional(e, got, want, "the output state is the branch of the pattern")
    same(e, arr([norm2(got) if backend == "sv" else B.trace(got)]), arr([1]), "the output state is normalised")
    e.reached()


class OddNoise(Noise):
    """A user-defined noise that tells its two qubits apart: dephases the first, flips the second where the first is 1."""

    def __init__(self, k):
        self.k = k

    @property
    def nqubits(self):
        return self.k

    def mats(self):
        p0, p1, y = np.diag([1.0 + 0j, 0]), np.diag([0, 1.0 + 0j]), np.array([[0, -1j], [1j, 0]])
        return [np.kron(p0, np.eye(2)), np.kron(p1, y)] if self.k == 2 else [p0, y @ p1]

    def to_krauschannel(self):
        return KrausChannel([KrausData(1.0, m) for m in self.mats()])


OPS = ["entangle_nodes", "apply_clifford", "correct_byproduct", "apply_single", "apply_noise"]


def h_backend(e, n, L, backend, ops=tuple(OPS), cliffords=tuple(range(24))):
    """The operations of a real backend on named nodes, then the declared output order."""
    B.setup(e)
    names = LABELS[:n]
    if backend == "sv":
        st = unit(carr("psi", 1 << n))
        be, ref = StatevectorBackend(), RefVec(st, names)
        data = Statevector(st)
    else:
        data, h = B.mk_dm(e, n)
        be, ref = DensityMatrixBackend(), RefMat(h, names)
    split = False
    if backend == "sv" and n > 1:
        split = e.choose("split", [False, True])
    if split:  # the nodes arrive one by one
        first, last = names[:-1], names[-1]
        st = unit(carr("chi", 1 << (n - 1)))
        ref = RefVec(st, first)
        be.add_nodes(first, Statevector(st))
        be.add_nodes([last], BasicStates.PLUS_I)
        ref.prep(last, [2 ** -0.5, 2 ** -0.5 * 1j])
    else:
        be.add_nodes(names, data)
    for i in range(L):
        op = e.choose(f"op{i}", [o for o in ops if (n > 1 or o != "entangle_nodes")])
        q = e.choose(f"q{i}", list(names))
        r = e.choose(f"r{i}", [x for x in names if x != q]) if op in ("entangle_nodes", "apply_noise") and n > 1 else None
        if op == "entangle_nodes":
            be.entangle_nodes((q, r))
            ref.op(np.diag([1, 1, 1, -1]), q, r)
        elif op == "apply_clifford":
            c = list(Clifford)[e.choose(f"c{i}", list(cliffords))]
            be.apply_clifford(q, c)
            ref.op(c.matrix, q)
        elif op == "correct_byproduct":
            k = e.choose(f"k{i}", "XZ")
            be.correct_byproduct(command.X(q, {77}) if k == "X" else command.Z(q, {77}))
            ref.op([[0, 1], [1, 0]] if k == "X" else [[1, 0], [0, -1]], q)
        elif op == "apply_single":
            u = np.array([[0.6, 0.8j], [0.8, -0.6j]])
            be.apply_single(q, u.copy())
            ref.op(u, q)
        else:
            nz = OddNoise(2 if n > 1 and e.choose(f"two{i}", [True, False]) else 1)
            qs = [q, r][: nz.k]
            if backend == "sv":
                e.check(B.raises(lambda: be.apply_noise(ApplyNoise(nz, qs)), NoiseNotSupportedError), "statevectors refuse noise")
                continue
            be.apply_noise(ApplyNoise(nz, qs))
            ref.mix(nz.mats(), *qs)
    out = list(e.choose("out", list(itertools.permutations(names))))
    be.finalize(out)
    e.check(list(be.node_index) == out and be.nqubit == n, "finalize leaves the nodes in the declared order")
    want = ref.result(out)
    got = be.state.flatten() if backend == "sv" else be.state.rho
    same(e, got, want, "each operation acts on the nodes it names")
    e.reached()


def jobs_P25(tier):
    t = tier == "thorough"
    js = [
        Job("sim2", h_pattern, dict(n=2, nin=1, nout=1, kinds=PLANES + PAULIS, edges=[(0, 1)], final_c=(None, 4, 13), orders=("CXZ", "ZXC"), late=True),
            "2 nodes, every measurement, input kinds, corrections"),
        Job("sim3", h_pattern, dict(n=3, nin=1, nout=1, kinds=["XY", "-Y"], edges=[(0, 1), (1, 2)], late=True, modes=MODES[1:2]), "3-node path, all domains"),
        Job("sim3o", h_pattern, dict(n=3, nin=2, nout=2, kinds=["YZ", "+X"], edges=[(0, 1), (0, 2)], out_perm=True, in_perm=True, final_c=(None, 6), states=("PLUS", "ZERO"), modes=MODES[2:]), "3 nodes, 2 in, 2 out in any order"),
        Job("sim3m", h_pattern, dict(n=3, nin=1, nout=2, kinds=["XY"], edges="path", edge_times=True, mid=[(0, 1), (0, 2)], mid_c=(None, 6), modes=MODES[1:2], late=True), "corrections between commands"),
        Job("index", h_nodeindex, dict(L=3), "3 operations", 0.5),
        Job("bad", h_simbad, {}, "every documented error", 0.5),
        Job("options", h_options, {}, "every combination of options on the built-in backends", 0.5),
        *[Job(f"{b}.{w}", h_dense, dict(which=w, backend=b), "whole pattern, any input state, all outcomes") for b, w in (("sv", "j2"), ("sv", "two"), ("sv", "late"), ("dm", "j2"), ("dm", "late"))],
        Job("ops.sv", h_backend, dict(n=3, L=1, backend="sv", cliffords=(4, 6, 13, 20)), "a backend operation on 3 named nodes, any state, any output order"),
        Job("ops.sv2", h_backend, dict(n=2, L=2, backend="sv", cliffords=(4, 6)), "two backend operations on 2 named nodes"),
        Job("ops.dm", h_backend, dict(n=2, L=2, backend="dm", cliffords=(4, 6, 13)), "two backend operations on 2 named nodes, any density matrix, two-qubit noise that tells its qubits apart"),
    ]
    if t:
        js += [
            Job("sim4", h_pattern, dict(n=4, nin=1, nout=1, kinds=["XY", "-Z"], edges="path", late=True, modes=MODES[1:2]), "4-node path, all domains", 2),
            Job("sim4o", h_pattern, dict(n=4, nin=2, nout=2, kinds=["XY", "XZ"], edges="path", out_perm=True, modes=MODES[1:2], final_c=(None, 6)), "4 nodes, 2 in, 2 out", 2),
            Job("index5", h_nodeindex, dict(L=5), "5 operations"),
            Job("ops.sv3", h_backend, dict(n=3, L=2, backend="sv", cliffords=(4, 6, 13)), "two backend operations on 3 named nodes, any state, any output order"),
            Job("ops.dm3", h_backend, dict(n=3, L=1, backend="dm"), "a backend operation on 3 named nodes, any density matrix"),
        ]
    return js


# ------------------------------------------------------------------ P26
class FakeRng:
    """A generator whose draws are symbolic; records what is asked of it."""

    def __init__(self, e):
        self.e, self.calls = e, []

    def random(self, *a, **k):
        return self._u("random")

    def uniform(self, low=0.0, high=1.0, *a, **k):
        u = self._u("uniform")
        return u * (high - low) + low if (low, high) != (0.0, 1.0) else u

    def _u(self, kind):
        u = rvar(f"u{len(self.calls)}", 0, 1)
        if self.e.mode == "concrete":
            u = min(max(u, 0.0), math.nextafter(1, 0))
        else:
            self.e.assume(u < 1)
        self.calls.append((kind, u))
        return u

    def _pick(self, seq, kind):
        seq = list(seq)
        i = self.e.choose(f"pick{len(self.calls)}", list(range(len(seq))))
        self.calls.append((kind, (seq, i)))
        return seq[i]

    def choice(self, seq, *a, **k):
        return self._pick(range(seq) if isinstance(seq, int) else seq, "pick")

    def integers(self, low, high=None, *, endpoint=False, **k):
        low, high = (0, low) if high is None else (low, high)
        return self._pick(range(low, high + endpoint), "pick")


def numeric(e, x):
    return x


def h_random(e):
    """RandomBranchSelector: outcome 0 with exactly the probability of outcome 0."""
    plain(e)
    p = rvar("p", 0, 1)
    rng = FakeRng(e)
    evals = []

    def f():
        evals.append(1)
        return p

    calc = e.choose("pr_calc", [True, False, None])
    sel = RandomBranchSelector() if calc is None else RandomBranchSelector(pr_calc=calc)
    o = sel.measure(3, f, rng)
    e.check(o in (0, 1), "the outcome is a bit")
    e.check(len(rng.calls) == 1, "one draw per measurement, from the generator passed by the user")
    kind, u = rng.calls[0]
    if calc is False:
        e.check(not evals, "the probability is not computed when it is not used")
        if kind == "pick":
            e.check(sorted(int(x) for x in u[0]) == [0, 1] and int(o) == int(u[0][u[1]]), "a fair draw between 0 and 1")
        else:
            claim(e, u >= 0.5 if o else u < 0.5, "a fair draw between 0 and 1")
    else:
        e.check(len(evals) == 1, "the probability is computed once")
        e.check(kind in ("random", "uniform"), "a uniform draw")
        if kind in ("random", "uniform"):
            # the draws giving outcome 0 must be [0, p) or [1 - p, 1)
            c0 = (u < p) if o == 0 else (u >= p)
            c1 = (u >= 1 - p) if o == 0 else (u < 1 - p)
            if e.mode == "concrete":
                e.check(c0 or c1, "outcome 0 has probability p")
            elif e.query(z3.Not(c0.z3()))[0] != z3.unsat:
                claim(e, SymBool(z3.Or(c0.z3(), c1.z3())), "outcome 0 has probability p")
                claim(e, c1, "outcome 0 has probability p")
            else:
                claim(e, c0, "outcome 0 has probability p")
    e.reached()


def h_selectors(e):
    """Fixed and constant selectors: prescribed outcomes, nothing else evaluated."""
    plain(e)
    ev, seen = [], []

    def f():
        ev.append(1)
        return 0.5

    class Probe(BranchSelector):
        def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
            seen.append((qubit, f_expectation0, rng))
            return e.choose("sub", [0, 1])

    rng = Rng()
    kind = e.choose("kind", ["const", "fixed", "fixed+default"])
    q = e.choose("q", [4, 0, 7])
    if kind == "const":
        v = e.choose("v", [0, 1])
        o = ConstBranchSelector(v).measure(q, f, rng)
        e.check(o == v, "the constant outcome")
    else:
        nodes = e.choose("nodes", [(), (4,), (0,), (0, 7), (4, 0, 7)])
        res = {n: e.choose(f"r{n}", [0, 1]) for n in nodes}
        before = dict(res)
        sel = FixedBranchSelector(res, Probe()) if kind != "fixed" else FixedBranchSelector(res)
        try:
            o = sel.measure(q, f, rng)
        except ValueError:
            e.check(kind == "fixed" and q not in res, "only nodes without a prescribed outcome are refused")
            e.check(not ev and not seen, "nothing is evaluated")
            e.reached()
            return
        if q in res:
            e.check(o == res[q] and not seen, "the prescribed outcome is returned")
        else:
            e.check(kind != "fixed", "a node without a prescribed outcome is refused")
            e.check(seen == [(q, f, rng)], "the default selector gets the node, the probability and the generator")
            e.check(o == e.choose("sub", [0, 1]) if e.mode == "concrete" else True, "the default selector decides")
        e.check(res == before, "the mapping is not modified")
    e.check(not ev, "the probability is not evaluated")
    e.reached()


class ProbeSel(BranchSelector):
    """Chosen outcome, probability evaluated a chosen number of times."""

    def __init__(self, e):
        self.e, self.calls, self.p = e, [], []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.calls.append((qubit, rng))
        for _ in range(self.e.choose("evals", [0, 1, 2])):
            self.p.append(f_expectation0())
        o = self.e.choose("o", [0, 1])
        self.o = o
        return o


def h_measure(e, n, backend, kinds, fix=()):
    """DenseStateBackend.measure: probability of outcome 0, projected and normalised state, for any state and angle."""
    B.setup(e)
    sel = ProbeSel(e)
    labels = LABELS[:n]
    kind = e.choose("kind", kinds)
    a = angle("a") if kind in PLANES else None
    meas = mk_meas(kind, a)
    q = e.choose("q", list(range(n)))
    if backend == "sv":
        psi = unit(carr("psi", 1 << n))
        be = StatevectorBackend.with_capacity(n + e.choose("cap", [0, 1]), branch_selector=sel)
        be.add_nodes(labels, Statevector(psi))
    else:
        be = DensityMatrixBackend(branch_selector=sel)
        dm, h = B.mk_dm(e, n)
        be.add_nodes(labels, dm)
    # reference: P_o = (1 + (-1)^o v.sigma) / 2
    bl = meas.to_bloch()
    c, s = sem.cos_sin(a) if e.mode != "concrete" and a is not None else (math.cos(math.pi * bl.angle), math.sin(math.pi * bl.angle))
    v = {"XY": (c, s, 0), "YZ": (0, s, c), "XZ": (s, 0, c)}[bl.plane.name]
    lift = (lambda x: x) if e.mode == "concrete" else Cx.lift
    v = [lift(x) for x in v]
    if kind in PAULIS:  # not through to_bloch
        v = [lift((1 if kind[0] == "+" else -1) if kind[1] == ax else 0) for ax in "XYZ"]
    I1 = 1j if e.mode == "concrete" else Cx.const(1j)

    def proj(o):
        g = -1 if o else 1
        x, y, z = (g * t for t in v)
        return arr([(1 + z) * 0.5, (x - I1 * y) * 0.5, (x + I1 * y) * 0.5, (1 - z) * 0.5], (2, 2))

    try:
        gen = Rng()
        o = be.measure(labels[q], meas, rng=gen)
    except (RuntimeError, ZeroDivisionError):
        P = proj(sel.o)
        if backend == "sv":
            w = B.ref_evolve(psi, n, P, [q])
            p = norm2(w)
            if e.mode == "concrete":
                e.check(abs(p) < 1e-7, "a measurement fails only on outcomes of probability zero")
            else:
                claim(e, p.real <= 1e-7, "a measurement fails only on outcomes of probability zero")
        e.reached()
        return
    e.check(o == sel.o, "the outcome of the selector is reported")
    e.check([c0[0] for c0 in sel.calls] == [labels[q]], "the selector is asked once, for the measured node")
    e.check(all(c0[1] is gen for c0 in sel.calls), "the selector is handed the generator given to the measurement")
    e.check(list(be.node_index) == labels[:q] + labels[q + 1:] and be.nqubit == n - 1, "the measured node is removed")
    N = 1 << n
    P = proj(0)
    if backend == "sv":
        p0 = B.ref_inner(psi, B.ref_evolve(psi, n, P, [q]))
    else:
        p0 = sum(B.ref_evolve(h[:, j], n, P, [q])[j] for j in range(N))
    for x in sel.p:
        same(e, arr([x]), arr([p0]), "the selector sees the probability of outcome 0")
    P = proj(o)
    if backend == "sv":
        w = B.ref_evolve(psi, n, P, [q])  # |phi> (x) rest: collinear with got (x) column of P
        got = be.state.flatten()
        rows = []
        for x in range(2):
            rows.append([w[B.unbits((*b[:q], x, *b[q:]))] for b in (B.bits(i, n - 1) for i in range(1 << (n - 1)))])
        if e.mode == "concrete" and norm2(w).real < 1e-9:
            return
        for x in range(2):
            proportional(e, got, arr(rows[x]), "the state is projected on the reported outcome")
        same(e, arr([norm2(got)]), arr([1]), "the state is normalised")
    else:
        Ph = B.ref_dm(h, n, P, [q])
        want = B.ref_ptrace(Ph, n, [q])
        if e.mode == "concrete" and abs(B.trace(want)) < 1e-9:
            return
        proportional(e, be.state.rho, want, "the state is projected on the reported outcome")
        same(e, arr([B.trace(be.state.rho)]), arr([1]), "the state is normalised")
    e.reached()


def jobs_P26(tier):
    t = tier == "thorough"
    js = [
        Job("random", h_random, {}, "all probabilities and draws"),
        Job("fixed", h_selectors, {}, "partial result maps over 3 nodes"),
        Job("sv1", h_measure, dict(n=1, backend="sv", kinds=PLANES + PAULIS), "1 qubit, any state and angle"),
        Job("sv2", h_measure, dict(n=2, backend="sv", kinds=PLANES + PAULIS), "2 qubits, any state and angle"),
        Job("dm1", h_measure, dict(n=1, backend="dm", kinds=PLANES + PAULIS), "1 qubit, any density matrix and angle"),
        Job("dm2", h_measure, dict(n=2, backend="dm", kinds=PLANES + PAULIS), "2 qubits, any density matrix and angle"),
    ]
    if t:
        js += [
            Job("sv3", h_measure, dict(n=3, backend="sv", kinds=PLANES + PAULIS), "3 qubits"),
        ]
    return js


# ------------------------------------------------------------------ P27
class CH:
    """A channel the model declares (reference form of ApplyNoise)."""

    class kind:
        name = "ApplyNoise"

    def __init__(self, name, p, nodes, domain=None):
        self.name, self.p, self.nodes, self.domain = name, p, tuple(nodes), domain


PARAMS = ("prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob")
FAMILY = {"dep": (DepolarisingNoiseModel, DepolarisingNoise, TwoQubitDepolarisingNoise, "depolarising", "two_qubit_depolarising"),
          "ad": (AmplitudeDampingNoiseModel, AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise, "amplitude_damping", "two_qubit_amplitude_damping")}


def noise_params(e, tag, which=PARAMS):
    return {k: rvar(f"{tag}{k}", 0, 1) if k in which else 0.0 for k in PARAMS}


class Spec:
    """A noise model and its declared meaning: ("dep"|"ad", params), "none", or a list of them (composed)."""

    def __init__(self, s):
        self.s = s

    def real(self):
        if self.s == "none":
            return NoiselessNoiseModel()
        if isinstance(self.s, list):
            return ComposeNoiseModel([Spec(x).real() for x in self.s])
        fam, par = self.s
        return FAMILY[fam][0](**par)

    def inputs(self, nodes):
        if self.s == "none":
            return []
        if isinstance(self.s, list):
            return [x for s in self.s for x in Spec(s).inputs(nodes)]
        fam, par = self.s
        return [CH(FAMILY[fam][3], par["prepare_error_prob"], [v]) for v in nodes]

    def command(self, c):
        if self.s == "none":
            return [c]
        if isinstance(self.s, list):
            seq = [c]
            for s in self.s:
                seq = [y for x in seq for y in Spec(s).command(x)]
            return seq
        fam, par = self.s
        one, two = FAMILY[fam][3:]
        k = c.kind.name
        if k == "N":
            return [c, CH(one, par["prepare_error_prob"], [c.node])]
        if k == "E":
            return [c, CH(two, par["entanglement_error_prob"], c.nodes)]
        if k == "M":
            return [CH(one, par["measure_channel_prob"], [c.node]), c]
        if k in "XZ":
            return [c, CH(one, par[f"{k.lower()}_error_prob"], [c.node], c.domain)]
        return [c]

    def flips(self):
        """Readout error probabilities, in the order of the draws."""
        if self.s == "none":
            return []
        if isinstance(self.s, list):
            return [p for s in self.s for p in Spec(s).flips()]
        return [self.s[1]["measure_error_prob"]]


def mk_spec(e, name):
    par = lambda t: noise_params(e, t)
    return Spec({
        "dep": lambda: ("dep", par("d")),
        "ad": lambda: ("ad", par("a")),
        "none": lambda: "none",
        "dep+ad": lambda: [("dep", par("d")), ("ad", par("a"))],
        "ad+none+dep": lambda: [("ad", par("a")), "none", ("dep", par("d"))],
        "ad+[dep+ad]": lambda: [("ad", par("a")), [("dep", par("d")), ("ad", par("b"))]],
        "[]": lambda: [],
    }[name]())


SPECS = ("dep", "ad", "none", "dep+ad", "ad+none+dep", "ad+[dep+ad]", "[]")


def samedom(e, a, b):
    if (a is None) != (b is None):
        return False
    return a is b or a is None or bool(a == b)


def check_seq(e, got, want, what):
    ok = len(got) == len(want)
    if ok:
        for g, w in zip(got, want):
            if not isinstance(w, CH):
                ok = ok and g is w
                continue
            if g.kind is not CommandKind.ApplyNoise:
                ok = False
                break
            k = 1 + ("two" in w.name)
            cls = [t for f in FAMILY.values() for t, nm in zip(f[1:3], f[3:5]) if nm == w.name][0]
            ok = ok and isinstance(g.noise, cls) and g.noise.nqubits == k and len(g.nodes) == k
            ok = ok and (tuple(g.nodes) == w.nodes or sorted(g.nodes) == sorted(w.nodes)) and samedom(e, g.domain, w.domain)
    e.check(ok, f"{what}: the declared channels at the declared places")
    if not ok:
        return
    for g, w in zip(got, want):
        if isinstance(w, CH):
            same(e, arr([g.noise.prob]), arr([w.p]), f"{what}: the declared strength")


def h_transpile(e, specs=SPECS, **kw):
    B.setup(e)
    sp = mk_spec(e, e.choose("model", list(specs)))
    p = gen_pattern(e, **kw)
    if e.choose("tick", [0, 1]):
        p = _with(p, e.choose("at", list(range(len(list(p)) + 1))), command.T())
    extra = ApplyNoise(DepolarisingNoise(0.25), [p.input_nodes[0]])
    seq = list(p)
    if e.choose("pre", [0, 1]):
        seq.insert(0, extra)
    before = snapshot(p)
    m = sp.real()
    rng = FakeRng(e)
    e.reached()
    src = e.choose("form", ["list", "iter"])
    got = m.transpile(seq if src == "list" else iter(seq), rng=rng)
    check_seq(e, list(got), [y for c in seq for y in sp.command(c)], "transpile")
    nodes = e.choose("inputs", [[], [3], [7, 0]])
    check_seq(e, list(m.input_nodes(nodes, rng=rng)), sp.inputs(nodes), "input nodes")
    e.check([show_cmd(c) for c in p] == [show_cmd(c) for c in before], "the pattern is unchanged")
    e.check(B.raises(lambda: m.transpile([command.S(1, {0})]), ValueError) if sp.flips() else True, "signals are refused")


def show_cmd(c):
    return (c.kind.name, getattr(c, "node", None), getattr(c, "nodes", None))


def _with(p, i, cmd):
    q = Pattern(input_nodes=p.input_nodes)
    cs = list(p)
    cs.insert(i, cmd)
    q.extend(cs)
    q.reorder_output_nodes(list(p.output_nodes))
    return q


def h_confuse(e):
    """Readout errors: every model flips with its own probability, in order, with fresh draws."""
    B.setup(e)
    sp = mk_spec(e, e.choose("model", list(SPECS)))
    m = sp.real()
    rng = FakeRng(e)
    r = e.choose("result", [0, 1])
    got = m.confuse_result(command.M(3), r, rng=rng)
    e.check(got in (0, 1), "the result is a bit")
    fl = sp.flips()
    e.check(len(rng.calls) == len(fl) and all(k in ("random", "uniform") for k, _ in rng.calls), "one uniform draw per readout error")
    # the number of flips: each draw below its probability (or, equally likely, above the complement)
    if e.mode == "concrete":
        n = sum(u < p for (_, u), p in zip(rng.calls, fl))
        n2 = sum(u >= 1 - p for (_, u), p in zip(rng.calls, fl))
        e.check(int(got) in ((r + n) % 2, (r + n2) % 2), "the outcome flips with the declared probability")
    else:
        def par(conds):
            x = z3.BoolVal(bool(r))
            for c in conds:
                x = z3.Xor(x, c.z3() if hasattr(c, "z3") else z3.BoolVal(bool(c)))
            return x == z3.BoolVal(bool(got))
        low = par([u < p for (_, u), p in zip(rng.calls, fl)])
        if e.query(z3.Not(low))[0] == z3.unsat:
            e.check_z(low, "the outcome flips with the declared probability")
        else:
            e.check_z(par([u >= 1 - p for (_, u), p in zip(rng.calls, fl)]), "the outcome flips with the declared probability")
    e.reached()


def h_probability(e):
    """Strengths outside [0, 1] are rejected, the others kept; each element declares the channel of its name."""
    B.setup(e)
    fam = e.choose("family", list(FAMILY))
    k = e.choose("k", [1, 2])
    cls, name = FAMILY[fam][k], FAMILY[fam][2 + k]
    p = rvar("p", -2, 3)
    try:
        nz = cls(p)
    except ValueError:
        claim_or(e, [p < 0, p > 1], "only strengths outside [0, 1] are rejected")
        e.reached()
        return
    claim(e, p >= 0, "negative strengths are rejected")
    claim(e, p <= 1, "strengths above 1 are rejected")
    same(e, arr([nz.prob]), arr([p]), "the strength is kept")
    e.check(nz.nqubits == k, "the number of qubits")
    ch = nz.to_krauschannel()
    e.check(ch.nqubit == k, "the channel acts on as many qubits")
    dm, h = B.mk_dm(e, k)
    be = DensityMatrixBackend()
    labels = LABELS[:k]
    be.add_nodes(labels, dm)
    qs = e.choose("nodes", [list(x) for x in itertools.permutations(labels)])
    dom = e.choose("domain", [None, {3}, set()])
    be.apply_noise(ApplyNoise(nz, qs, dom))
    want = B.ref_channel(name, h, k, [labels.index(q) for q in qs], [p])
    same(e, be.state.rho, want, "the channel of the declared strength on the declared nodes")
    sv = StatevectorBackend()
    sv.add_nodes(labels)
    e.check(B.raises(lambda: sv.apply_noise(ApplyNoise(nz, qs)), NoiseNotSupportedError), "statevectors refuse noise")
    e.reached()


def claim_or(e, conds, msg):
    if e.mode == "concrete":
        e.check(any(bool(c) for c in conds), msg)
    else:
        e.check_z(z3.Or([c.z3() if hasattr(c, "z3") else z3.BoolVal(bool(c)) for c in conds]), msg)


def noisy_pattern(which):
    m = lambda pl, a: BlochMeasurement(a, Plane[pl])
    if which == "j":  # one measurement, both corrections
        p = Pattern(input_nodes=[3], cmds=[command.N(1), command.E((3, 1)), command.M(3, m("XY", 0.25)), command.X(1, {3}), command.Z(1, {3}), command.C(1, Clifford.S)])
        p.reorder_output_nodes([1])
    elif which == "empty":  # empty and cancelling domains
        p = Pattern(input_nodes=[3], cmds=[command.N(1, BasicStates.ZERO), command.T(), command.M(3, Measurement.Y), command.X(1, set()), command.Z(1, {3}), command.X(1, {3})])
        p.reorder_output_nodes([1])
    else:  # the recorded result drives a later measurement and corrections
        p = Pattern(input_nodes=[3], cmds=[command.N(1), command.E((3, 1)), command.M(3, m("XZ", 0.25)), command.N(7), command.E((7, 1)), command.M(1, m("XY", -0.4), s_domain={3}),
                    command.Z(7, {3}), command.X(7, {1, 3})])
        p.reorder_output_nodes([7])
    return p


class ChSel(Sel):
    pass


def h_noisy(e, which, model, params, inp=True):
    """A noisy simulation is the pattern with the declared channels, the recorded results being the confused ones."""
    B.setup(e)
    p = noisy_pattern(which)

    def par(t):
        return noise_params(e, t, params)

    sp = Spec({"dep": lambda: ("dep", par("d")), "ad": lambda: ("ad", par("a")), "dep+ad": lambda: [("dep", par("d")), ("ad", par("a"))], "none": lambda: "none",
               "zero": lambda: [("dep", noise_params(e, "", ())), ("ad", noise_params(e, "", ()))]}[model]())
    sel = Sel(e)
    flip = []

    m = sp.real()
    rng = FakeRng(e) if "measure_error_prob" in params else Rng0()
    meth = DefaultMeasureMethod()
    data, h = B.mk_dm(e, 1)
    given = e.choose("given", ["state", "backend"]) if inp else "state"
    try:
        if given == "state":
            st = p.simulate(backend="densitymatrix", input_state=data, branch_selector=sel, measure_method=meth, noise_model=m, rng=rng)
        else:
            be = DensityMatrixBackend(branch_selector=sel)
            be.add_nodes(p.input_nodes, data)
            st = p.simulate(backend=be, input_state=None, measure_method=meth, noise_model=m, rng=rng)
    except ZeroDivisionError:
        e.reached()
        return
    rec = dict(meth.results)
    e.check(set(rec) == set(sel.out) and all(v in (0, 1) for v in rec.values()), "a bit is recorded for every measured node")
    if "measure_error_prob" in params:
        # recorded results differ from the true ones exactly where the draw says so (one model with readout errors)
        for i, (q, o) in enumerate(sel.out.items()):
            _, u = rng.calls[i]
            pr = sp.flips()[0]
            c = (u < pr) if rec[q] != o else (u >= pr)
            c2 = (u >= 1 - pr) if rec[q] != o else (u < 1 - pr)
            if e.mode == "concrete":
                e.check(bool(c) or bool(c2), "readout flips follow the draws")
            elif hasattr(c, "z3") and e.query(z3.Not(c.z3()))[0] != z3.unsat:
                claim(e, c2, "readout flips follow the draws")
            else:
                claim(e, c, "readout flips follow the draws")
    else:
        e.check(rec == sel.out, "no readout error: the outcome is recorded")
    ref = RefMat(h, p.input_nodes)
    cmds = (sp.inputs(p.input_nodes) if given == "state" else []) + [y for c in p for y in sp.command(c)]

    def noises(r, c):
        r.channel(c.name, c.p, *c.nodes)

    noises.true = sel.out
    want = run_ref(ref, cmds, list(p.output_nodes), rec, noises)
    if e.mode == "concrete" and abs(B.trace(want)) < 1e-9:
        return
    proportional(e, st.rho, want, "the noisy output state")
    same(e, arr([B.trace(st.rho)]), arr([1]), "the output state is normalised")
    e.reached()


class Rng0:
    def uniform(self, *a, **k):
        return 0.5

    random = uniform


def jobs_P27(tier):
    t = tier == "thorough"
    one = PARAMS[:5]
    js = [
        Job("transpile", h_transpile, dict(n=2, nin=1, nout=1, kinds=["XY", "-Y"], edges=[(0, 1)], late=True, orders=("CXZ", "ZXC"), final_c=(None, 4)), "2-node patterns, every model, any strengths"),
        Job("transpile3", h_transpile, dict(n=3, nin=1, nout=2, kinds=["XY"], edges="path", late=True, mid=[(0, 1)], mid_c=(None, 6), specs=("dep", "ad", "ad+none+dep")), "3-node patterns"),
        Job("confuse", h_confuse, {}, "every model, all draws and probabilities"),
        Job("element", h_probability, {}, "each noise element, any state, any strength"),
        *[Job(f"sim.{m}.{w}", h_noisy, dict(which=w, model=m, params=one), "any input, all strengths, all outcomes") for m in ("dep", "ad") for w in ("j", "empty")],
        Job("sim.readout", h_noisy, dict(which="next", model="dep", params=("measure_error_prob", "x_error_prob")), "two measurements, all readout errors"),
        Job("sim.readout.ad", h_noisy, dict(which="next", model="ad", params=("measure_error_prob", "z_error_prob")), "two measurements, all readout errors"),
        Job("sim.compose", h_noisy, dict(which="j", model="dep+ad", params=("prepare_error_prob", "measure_channel_prob", "x_error_prob")), "composed models"),
        Job("sim.none", h_noisy, dict(which="next", model="none", params=()), "noiseless model"),
        Job("sim.zero", h_noisy, dict(which="next", model="zero", params=()), "zero-strength models"),
    ]
    if t:
        js += [
            Job("sim.dep.next", h_noisy, dict(which="next", model="dep", params=one), "two measurements, all strengths", 2),
            Job("sim.ad.next", h_noisy, dict(which="next", model="ad", params=one[:3] + one[4:]), "two measurements", 2),
            Job("sim.compose3", h_noisy, dict(which="next", model="dep+ad", params=("prepare_error_prob", "entanglement_error_prob", "z_error_prob")), "composed models", 2),
            Job("transpile4", h_transpile, dict(n=3, nin=1, nout=1, kinds=["XY", "-Z", "YZ"], edges="choose", late=True), "3-node patterns, all edges"),
        ]
    return js


CHECKS = {
    "P25": dict(jobs=jobs_P25, quick_s=45, thorough_s=600, outside="more nodes or measurements than stated; the tensor-network backend; custom prepare/measure methods"),
    "P26": dict(jobs=jobs_P26, quick_s=45, thorough_s=600, outside="more qubits than stated; floating-point rounding; the quality of numpy's generator"),
    "P27": dict(jobs=jobs_P27, quick_s=90, thorough_s=600, outside="more nodes than stated; custom noise models; the quality of numpy's generator"),
}
