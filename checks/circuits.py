"""Circuits: transpilation, rewrites, simulation, extraction, OpenQASM export (P19-P22)."""

from __future__ import annotations

import copy as cpmod
import itertools
import math
import warnings
from fractions import Fraction

import graphix.ops as gops
import numpy as np
from graphix import instruction as gi
from graphix import transpiler
from graphix.branch_selector import BranchSelector
from graphix.ops import Ops
from graphix.sim.base_backend import DenseState, DenseStateBackend
from graphix.transpiler import Circuit

from symx.proxy import TPoly

from .common import *  # noqa: F403

shim_all()
relax_runnability()
z3 = engine.z3
warnings.simplefilter("ignore")

ONEQ = ["H", "S", "X", "Y", "Z", "I"]
ROTQ = ["RX", "RY", "RZ", "J"]


class NpShim:
    """numpy for a module under test, with complex arrays holding symbolic entries."""

    complex128 = object

    def __getattr__(self, n):
        return getattr(np, n)


def sym_ops(e):
    """Ops.rx(...) etc. keep symbolic entries."""
    gops.np = np if e.mode == "concrete" else NpShim()


def templates(w, gates, meas="XYZ"):
    """All instructions over w qubits, as (kind, qubits[, axis])."""
    r = []
    for g in gates:
        if g in ONEQ or g in ROTQ:
            r += [(g, (q,)) for q in range(w)]
        elif g in ("CNOT", "RZZ"):
            r += [(g, p) for p in itertools.permutations(range(w), 2)]
        elif g in ("CZ", "SWAP"):
            r += [(g, p) for p in itertools.permutations(range(w), 2)]
        elif g == "CCX":
            r += [(g, p) for p in itertools.permutations(range(w), 3)]
        elif g == "M":
            r += [(g, (q,), a) for q in range(w) for a in meas]
        else:
            raise ValueError(g)
    return r


def mk_instr(t, a):
    g, q = t[0], t[1]
    if g in ONEQ:
        return getattr(gi, g)(q[0])
    if g in ROTQ:
        return getattr(gi, g)(q[0], a)
    if g == "CNOT":
        return gi.CNOT(target=q[1], control=q[0])
    if g == "RZZ":
        return gi.RZZ(target=q[1], control=q[0], angle=a)
    if g == "CZ":
        return gi.CZ(tuple(q))
    if g == "SWAP":
        return gi.SWAP(tuple(q))
    if g == "CCX":
        return gi.CCX(target=q[2], controls=(q[0], q[1]))
    return gi.M(q[0], Axis[t[2]])


def call_instr(c, t, a):
    g, q = t[0], t[1]
    if g in ONEQ:
        getattr(c, g.lower())(q[0])
    elif g in ROTQ:
        if g != "J" and a is not None and q[0] % 2:
            c.r(q[0], Axis[g[1]], a)
        else:
            getattr(c, g.lower())(q[0], a)
    elif g == "RZZ":
        c.rzz(q[0], q[1], a)
    elif g == "M":
        c.m(q[0], Axis[t[2]])
    else:
        getattr(c, g.lower())(*q)


def gen_angle(e, name, lo, hi, consts=()):
    if consts:
        k = e.choose(f"{name}.k", ["sym", *consts])
        if k != "sym":
            return k
    return real(name, lo, hi)


def gen_circuit(e, w, L, gates, lo=-1, hi=3, consts=(), meas="XYZ", first=None, how=("methods",), maxm=99):
    """An arbitrary circuit of L instructions."""
    seq = []
    live = set(range(w))
    nm = 0
    for i in range(L):
        g = gates[i] if isinstance(gates[0], (list, tuple)) and not isinstance(gates[0], str) else gates
        opts = [t for t in templates(w, g, meas) if set(t[1]) <= live and (t[0] != "M" or nm < maxm)]
        if not opts:
            break
        t = e.choose(f"g{i}", opts)
        a = gen_angle(e, f"a{i}", lo, hi, consts) if t[0] in ROTQ or t[0] == "RZZ" else None
        seq.append((t, a))
        if t[0] == "M":
            live -= set(t[1])
            nm += 1
    h = e.choose("how", list(how)) if len(how) > 1 else how[0]
    if h == "methods":
        c = Circuit(w)
        for t, a in seq:
            call_instr(c, t, a)
    elif h == "init":
        c = Circuit(w, [mk_instr(t, a) for t, a in seq])
    else:
        c = Circuit(w)
        k = len(seq) // 2
        c.extend(mk_instr(t, a) for t, a in seq[:k])
        for t, a in seq[k:]:
            c.add(mk_instr(t, a))
    if e.mode == "concrete":
        e.notes.append((w, [(t, a) for t, a in seq]))
    return c, seq, live


def same_instr(a, b):
    ok = type(a) is type(b)
    for f in ("target", "control", "controls", "targets", "axis"):
        ok = ok and getattr(a, f, None) == getattr(b, f, None)
    if ok and hasattr(a, "angle"):
        x, y = a.angle, b.angle
        if type(x) is Real or type(y) is Real:
            return type(x) is type(y) and x.t == y.t and x.c == y.c
        return x == y and type(x) is type(y)
    return ok


def ref_instrs(seq):
    return [mk_instr(t, a) for t, a in seq]


# ----------------------------------------------------------------- P19
class COut:
    """Outcomes of the circuit's measurements c[k] and of the pattern's own nodes m[v]."""

    def __init__(self, e, classical=()):
        self.e = e
        self.cl = {v: k for k, v in enumerate(classical)}

    def __call__(self, v):
        if v in self.cl:
            return self.e.anf(f"c{self.cl[v]}")
        return self.e.anf(f"m[{v}]")


def h_transpile(e, w, L, gates, vias=("swaps", "noswaps", "flow"), **kw):
    proxy.UNIT_DEN = 1
    c, seq, live = gen_circuit(e, w, L, gates, **kw)
    via = e.choose("via", list(vias))
    e.reached()
    if via == "swaps":
        tp_ = c.transpile()
    elif via == "noswaps":
        tp_ = c.transpile(transpile_swaps=False)
    else:
        tp_ = c.transpile_to_causalflow().to_pattern()
    pat, cl = tp_.pattern, tuple(tp_.classical_outputs)
    ref = ref_instrs(seq)
    e.check(len(c.instruction) == len(ref) and all(same_instr(x, y) for x, y in zip(c.instruction, ref)), "transpile changed the circuit")
    nm = sum(t[0] == "M" for t, _ in seq)
    e.check(len(cl) == nm and len(set(cl)) == nm, "number of classical outputs")
    e.check(len(pat.input_nodes) == w and len(pat.output_nodes) == len(live), "number of inputs or outputs")
    if e.mode == "concrete":
        e.notes.append(show(pat) + f" classical={cl}")
    for k, v in enumerate(cl):
        e.check(any(x.kind.name == "M" and x.node == v for x in pat), "classical output is not measured")
    A = sem.run_circuit(e, w, ref, lambda k: e.anf(f"c{k}"))
    B = sem.run_pattern(e, pat, COut(e, cl))
    njs = sum(1 for x in pat if x.kind.name == "M") - nm
    sem.check_equal(e, B, A, "the transpiled pattern does not implement the circuit", scale=0.5**njs if e.mode == "concrete" else 1.0)


ALL1 = [*ROTQ, *ONEQ]
ALL2 = ["CNOT", "CZ", "SWAP", "RZZ"]


NF = dict(lo=Fraction(-1999, 1000), hi=0)  # every angle modulo 2 pi (up to 0.001 pi): one branch of angle % 2 only


def jobs_P19(tier):
    t = tier == "thorough"
    js = [
        Job("w1.L3", h_transpile, dict(w=1, L=3, gates=[ALL1, ALL1, [*ALL1, "M"]], vias=("swaps",)), "1 qubit, every sequence of 3 gates (last may be a measurement), all angles"),
        Job("w2.L1", h_transpile, dict(w=2, L=1, gates=[*ALL1, *ALL2, "M"], consts=(0, 1, Fraction(1, 2), -0.25), how=("methods", "init", "add")), "2 qubits, every instruction"),
        Job("w2.L2", h_transpile, dict(w=2, L=2, gates=[*ALL1, *ALL2, "M"], **NF), "2 qubits, every sequence of 2 instructions"),
        Job("w2.L3", h_transpile, dict(w=2, L=3, gates=["RX", "RZ", "J", "S", *ALL2, "M"], **NF), "2 qubits, sequences of 3 instructions", 1.5),
        Job("w2.meas", h_transpile, dict(w=2, L=4, gates=[["J", "RY"], ["CZ", "CNOT", "SWAP"], ["SWAP", "M", "RX"], ["M"]], **NF), "2 qubits, entangle, swap, measure"),
        Job("w3.swap", h_transpile, dict(w=3, L=5, gates=[["J"], ["CNOT", "CZ", "SWAP"], ["SWAP"], ["M", "SWAP"], ["M", "H"]], **NF, meas="XZ"), "3 qubits, swaps and measurements", 1.5),
        Job("w3.ccx", h_transpile, dict(w=3, L=1, gates=["CCX"], vias=("swaps", "noswaps")), "3 qubits, CCX in every order"),
        Job("w3.L3", h_transpile, dict(w=3, L=3, gates=["J", "CNOT", "CZ", "RZZ", "SWAP", "M"], **NF, meas="Y", vias=("swaps", "noswaps")), "3 qubits, sequences of 3 instructions", 1.5),
        Job("w2.L5", h_transpile, dict(w=2, L=5, gates=["J", "CZ", "CNOT", "SWAP", "M"], **NF, meas="XY", vias=("swaps", "noswaps")), "2 qubits, sequences of 5 J/CZ/CNOT/SWAP/M"),
    ]
    if t:
        js += [
            Job("w1.L4", h_transpile, dict(w=1, L=4, gates=[ALL1, ALL1, ALL1, [*ALL1, "M"]], vias=("swaps",), **NF), "1 qubit, 4 gates", 1.0),
            Job("w2.L3all", h_transpile, dict(w=2, L=3, gates=[*ALL1, *ALL2, "M"]), "2 qubits, every sequence of 3 instructions", 2.0),
            Job("w3.ccx2", h_transpile, dict(w=3, L=3, gates=[["J", "M", "CNOT"], ["CCX", "SWAP"], ["CCX", "M", "RX", "SWAP"]], **NF, meas="Z", vias=("swaps",)), "3 qubits, CCX in context", 1.0),
            Job("w3.L4", h_transpile, dict(w=3, L=4, gates=["J", "CNOT", "CZ", "RZZ", "SWAP", "M", "S"], **NF), "3 qubits, 4 instructions", 1.0),
            Job("w4.L3", h_transpile, dict(w=4, L=3, gates=["J", "CNOT", "RZZ", "SWAP", "M"], **NF, meas="X"), "4 qubits, 3 instructions", 1.0),
        ]
    return js


# ----------------------------------------------------------------- P20
def seq_equal(e, c, seq, w, msg, outputs=None):
    """The instructions of c implement the sequence seq (outputs: where each original qubit ends up)."""
    A = sem.run_circuit(e, w, ref_instrs(seq), lambda k: e.anf(f"c{k}"))
    B = sem.run_circuit(e, w, c, lambda k: e.anf(f"c{k}"), outputs=outputs)
    sem.check_equal(e, B, A, msg)


def untouched(e, c, seq, msg):
    ref = ref_instrs(seq)
    e.check(len(c.instruction) == len(ref) and all(same_instr(x, y) for x, y in zip(c.instruction, ref)), msg)


def accepts(c, q):
    """Does the circuit accept a further gate on the qubit?"""
    n = len(c.instruction)
    try:
        c.h(q)
    except AssertionError:
        return False
    del c.instruction[n:]
    return True


class AngleVisitor(gi.InstructionVisitor):
    def __init__(self, perm, d):
        self.perm, self.d = perm, d

    def visit_qubit(self, q):
        return self.perm[q]

    def visit_angle(self, a):
        return a + self.d

    def visit_axis(self, ax):
        return {Axis.X: Axis.Y, Axis.Y: Axis.Z, Axis.Z: Axis.X}[ax]


CYC = {"X": "Y", "Y": "Z", "Z": "X"}


def h_rewrite(e, w, L, gates, what, **kw):
    proxy.UNIT_DEN = 1
    c, seq, live = gen_circuit(e, w, L, gates, **kw)
    wh = e.choose("what", list(what))
    e.reached()
    outs = sorted(live)
    if wh == "jcz":
        r = list(transpiler.instructions_to_jcz(c.instruction))
        e.check(all(i.kind.name in ("J", "CZ", "M") for i in r), "instructions_to_jcz yields another instruction")
        seq_equal(e, r, seq, w, "instructions_to_jcz changes the circuit")
        untouched(e, c, seq, "instructions_to_jcz changed its input")
    elif wh in ("swapcopy", "swapin"):
        cp = wh == "swapcopy"
        res = transpiler.transpile_swaps(c, copy=cp)
        e.check((res.circuit is c) != cp, "copy flag of transpile_swaps")
        if cp:
            untouched(e, c, seq, "transpile_swaps(copy=True) changed its input")
        rc = res.circuit
        e.check(rc.width == w and all(i.kind.name != "SWAP" for i in rc.instruction), "a SWAP remains")
        e.check(len(res.outputs) == w, "outputs of transpile_swaps")
        # position of the measurement of each original qubit
        mi = {}
        for t, _ in seq:
            if t[0] == "M":
                mi[t[1][0]] = len(mi)
        K = transpiler.OutputKind
        for q in range(w):
            o = res.outputs[q]
            e.check(o.kind == (K.Bit if q in mi else K.Qubit), "output kind")
            if q in mi:
                e.check(o.index == mi[q], "measurement index")
        dest = [res.outputs[q].index for q in outs]
        meas_new = {i.target for i in rc.instruction if i.kind.name == "M"}
        e.check(sorted(dest) == sorted(set(range(w)) - meas_new), "output qubits of the swapped circuit")
        seq_equal(e, rc.instruction, seq, w, "transpile_swaps changes the circuit", outputs=dest)
        # documented helper views
        ordered = sorted(dest)
        e.check(tuple(res.extract_outputs(K.Qubit)) == tuple(dest), "extract_outputs(Qubit)")
        e.check(tuple(res.extract_outputs(K.Bit)) == tuple(mi[q] for q in sorted(mi)), "extract_outputs(Bit)")
        e.check(tuple(res.extract_output_node_indices()) == tuple(ordered.index(d) for d in dest), "extract_output_node_indices")
        names = [f"n{d}" for d in ordered]
        e.check(tuple(res.swap_output_nodes(names)) == tuple(f"n{d}" for d in dest), "swap_output_nodes")
        e.check(tuple(res.swap_classical_outputs([f"b{k}" for k in range(len(mi))])) == tuple(f"b{mi[q]}" for q in sorted(mi)), "swap_classical_outputs")
        for q in range(w):
            e.check(accepts(rc, q) == (q not in meas_new), "the rewritten circuit accepts gates on measured qubits or rejects live ones")
    elif wh == "zaxis":
        r = c.transpile_measurements_to_z_axis()
        e.check(all(i.kind.name != "M" or i.axis == Axis.Z for i in r.instruction) and r.width == w, "a measurement is not along Z")
        seq_equal(e, r.instruction, seq, w, "transpile_measurements_to_z_axis changes the circuit")
        untouched(e, c, seq, "transpile_measurements_to_z_axis changed its input")
    elif wh == "rzh":
        r = c.transpile_j_to_rzh()
        e.check(all(i.kind.name != "J" for i in r.instruction) and r.width == w, "a J remains")
        seq_equal(e, r.instruction, seq, w, "transpile_j_to_rzh changes the circuit")
        untouched(e, c, seq, "transpile_j_to_rzh changed its input")
    else:  # visit / apply_angle, copy or in place
        cp = wh.endswith("copy")
        d = Fraction(1, 4)
        if wh.startswith("visit"):
            perm = e.choose("perm", list(itertools.permutations(range(w))))
            r = c.visit(AngleVisitor(perm, d), copy=cp)
            exp = [((t[0], tuple(perm[q] for q in t[1]), *(CYC[a] for a in t[2:])), a if a is None else a + d) for t, a in seq]
        else:
            perm = list(range(w))
            r = c.apply_angle(lambda a: a + d, copy=cp)
            exp = [(t, a if a is None else a + d) for t, a in seq]
        e.check((r is c) != cp, "copy flag")
        e.check(r.width == w, "width")
        untouched(e, r, exp, f"{wh} does not rewrite every instruction as asked")
        if cp:
            untouched(e, c, seq, f"{wh} changed its input")
            for i in r.instruction:
                e.check(not any(i is j for j in c.instruction), "the copy shares an instruction with the original")
        for q in range(w):
            e.check(accepts(r, perm[q]) == (q in live), "the rewritten circuit accepts gates on measured qubits or rejects live ones")
            if cp:
                e.check(accepts(c, q) == (q in live), "the original circuit changed")


def h_decompose(e, gate):
    """The module-level decompositions, one instruction, all qubit orders and angles."""
    proxy.UNIT_DEN = 1
    w = 3
    t = e.choose("t", templates(w, [gate]))
    a = real("a", -3, 4) if gate in ROTQ or gate == "RZZ" else None
    ins = mk_instr(t, a)
    if e.mode == "concrete":
        e.notes.append(ins)
    e.reached()
    r = list(getattr(transpiler, f"decompose_{gate.lower()}")(ins))
    seq_equal(e, r, [(t, a)], w, f"decompose_{gate.lower()} is wrong")


def h_normalize(e):
    w = e.choose("type", ["float", "int"])
    a = real("a", -7, 9) if w == "float" else e.choose("n", [0, 1, 2, 3, -1, -5])
    e.reached()
    r = transpiler.normalize_angle(a)
    d = r - a
    if w == "int":
        e.check((r - a) % 2 == 0, "angle changed")
        return
    e.check(sand(r >= 0, r < 2), "normalize_angle out of range")
    if type(d) is Real:
        e.check(not d.t and d.c % 2 == 0, "normalize_angle changes the angle")
    else:
        e.check(abs(d / 2 - round(d / 2)) < 1e-9, "normalize_angle changes the angle")


# ---------------------------------------------------------------- recording backend
class Marker:
    """Stands for arbitrary input data of n qubits."""

    def __init__(self, n):
        self.n = n


class RecState(DenseState):
    """A state that applies every backend operation to the reference semantics."""

    def __init__(self, e, inputs=()):
        self.e = e
        self.ref = sem.new_state(e, list(inputs))
        self.pos = list(inputs)  # names by position
        self.fresh = 0
        self.marker = Marker(0)
        self.log = []

    @property
    def nqubit(self):
        return len(self.pos)

    def flatten(self):
        raise NotImplementedError

    def _name(self, q):
        if not 0 <= q < len(self.pos):
            raise IndexError(q)
        return self.pos[q]

    def add_nodes(self, nqubit, data):
        if isinstance(data, Marker):
            if self.pos or nqubit != data.n:
                raise sem.SemError("input data on a used state")
            self.ref = sem.new_state(self.e, list(range(nqubit)))
            self.pos = list(range(nqubit))
            self.fresh = nqubit
            return
        sts = list(data) if isinstance(data, (list, tuple)) else [data] * nqubit
        if len(sts) != nqubit:
            raise sem.SemError("length of data")
        for s in sts:
            n = ("q", self.fresh)
            self.fresh += 1
            if self.e.mode == "concrete":
                self.ref.prep(n, sem.state_vec(s))
            else:
                self.ref.prep(n, sem.state_bloch(s))
            self.pos.append(n)

    def entangle(self, qubits):
        self.evolve(sem.GATE["CZ"], qubits)

    def evolve(self, op, qubits):
        ns = [self._name(q) for q in qubits]
        if len(set(ns)) != len(ns):
            raise sem.SemError("repeated qubit")
        if self.e.mode == "concrete":
            self.ref.opn(ns, np.asarray(op, complex))
        else:
            self.ref.unitary(ns, sem.mat_entries(op))

    def evolve_single(self, op, qubit):
        self.evolve(op, [qubit])

    def _bloch(self, op):
        """(trace, Bloch vector) of a projector."""
        op = np.asarray(op)
        g = lambda p: sum((sem.tp(op[i, j]) * complex(sem.PM[p][j, i]) for i in range(2) for j in range(2) if sem.PM[p][j, i]), TPoly())
        return g(0), {p: v for p in (1, 2, 3) if (v := clean(g(p))).d}

    def expectation_single(self, op, qubit):
        self.log.append(("exp", qubit))
        return 0.5 + 0j

    def remove_qubit(self, qubit):
        raise NotImplementedError

    def project_qubit(self, op, qubit):
        n = self._name(qubit)
        if self.e.mode == "concrete":
            w, u = np.linalg.eigh(np.asarray(op, complex))
            if not np.allclose(w, [0, 1], atol=1e-9):
                raise sem.SemError("not a projector")
            self.ref.project(n, u[:, 1])
        else:
            tr, bv = self._bloch(op)
            if clean(tr - 1).d:
                raise sem.SemError("not a projector")
            self.ref.measure(n, bv, ZERO)
        self.pos.pop(qubit)

    def swap(self, qubits):
        a, b = qubits
        self._name(a), self._name(b)
        self.pos[a], self.pos[b] = self.pos[b], self.pos[a]

    def permute(self, permutation):
        p = list(permutation)
        if sorted(p) != list(range(len(self.pos))):
            raise ValueError("not a permutation")
        self.pos = [self.pos[i] for i in p]

    def result(self):
        return self.ref.result(self.pos)


def clean(x):
    x = sem.tp(x)
    return TPoly({m: c for m, c in x.d.items() if abs(c) > 1e-12})


import dataclasses


@dataclasses.dataclass(frozen=True)
class RecBackend(DenseStateBackend):
    state: RecState = dataclasses.field(default=None)


class SymSelector(BranchSelector):
    """Outcome of a measurement: an arbitrary bit named by ``name(node, index)``."""

    def __init__(self, e, name, expect=True):
        self.e, self.name, self.n, self.calls, self.expect = e, name, 0, [], expect

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        if self.expect:
            f_expectation0()
        b = bool(bitval(self.e.anf(self.name(qubit, self.n))))
        self.calls.append((qubit, int(b), rng))
        self.n += 1
        return int(b)


def h_simulate(e, w, L, gates, **kw):
    """Circuit.simulate on a recording backend applies exactly the product of the gates in order."""
    proxy.UNIT_DEN = 2
    sym_ops(e)
    c, seq, live = gen_circuit(e, w, L, gates, **kw)
    inp = e.choose("input", ["default", "data"])
    e.reached()
    sel = SymSelector(e, lambda q, k: f"c{k}", expect=e.choose("exp", [True, False]) if any(t[0] == "M" for t, _ in seq) else False)
    be = RecBackend(RecState(e), branch_selector=sel, symbolic=e.mode != "concrete")
    res = c.simulate(backend=be, input_state=None if inp == "default" else Marker(w))
    untouched(e, c, seq, "simulate changed the circuit")
    st = res.state
    e.check(st is be.state, "returned state")
    nm = [t[1][0] for t, _ in seq if t[0] == "M"]
    e.check(tuple(res.classical_measures) == tuple(o for _, o, _ in sel.calls) and [q for q, _, _ in sel.calls] == nm, "classical measures")
    e.check(list(be.node_index) == sorted(live), "qubits left in the backend")
    ref = sem.new_state(e, list(range(w)) if inp == "data" else [])
    if inp == "default":
        for q in range(w):
            ref.prep(q, sem.state_vec(BasicStates.PLUS)) if e.mode == "concrete" else ref.prep(q, sem.state_bloch(BasicStates.PLUS))
    k = 0
    for ins in ref_instrs(seq):
        if ins.kind.name == "M":
            sem.meas_axis(e, ref, ins.target, ins.axis.name, mk(sel.calls[k][1]))
            k += 1
        else:
            sem.apply_instr(e, ref, ins)
    sem.check_equal(e, st.result(), ref.result(sorted(live)), "simulate does not apply the gates of the circuit")


def h_ops(e, gate):
    """Ops.rx/ry/rz/j/rzz are the documented matrices for every angle (including phase)."""
    proxy.UNIT_DEN = 2
    sym_ops(e)
    a = real("a", -4, 4)
    e.reached()
    m = getattr(Ops, gate)(a)
    c, s = sem.cos_sin(a / 2) if e.mode != "concrete" else (math.cos(math.pi * a / 2), math.sin(math.pi * a / 2))
    c2, s2 = sem.cos_sin(a) if e.mode != "concrete" else (math.cos(math.pi * a), math.sin(math.pi * a))
    i = 1j
    r = 1 / math.sqrt(2)
    em, ep, e1 = c + s * (-i), c + s * i, (c2 + s2 * i) * r
    exp = {
        "rx": [[c, s * -i], [s * -i, c]],
        "ry": [[c, s * -1], [s, c]],
        "rz": [[em, 0], [0, ep]],
        "j": [[r, e1], [r, e1 * -1]],
        "rzz": [[em, 0, 0, 0], [0, ep, 0, 0], [0, 0, ep, 0], [0, 0, 0, em]],
    }[gate]
    n = len(exp)
    e.check(m.shape == (n, n), "shape")
    for x in range(n):
        for y in range(n):
            if e.mode == "concrete":
                e.check(abs(m[x, y] - exp[x][y]) < 1e-9, f"Ops.{gate} entry {x}{y}")
            else:
                zero_poly(e, sem.tp(m[x, y]) - sem.tp(exp[x][y]), f"Ops.{gate} entry {x}{y}")


def zero_poly(e, p, msg):
    """Claim: a trigonometric polynomial vanishes identically."""
    p = clean(p)
    e.stats.claims += 1
    if not p.d:
        e.stats.folded += 1
        return
    e.check_z(z3.BoolVal(False), msg)


def jobs_P20(tier):
    t = tier == "thorough"
    RW = ("jcz", "swapcopy", "swapin", "zaxis", "rzh", "visitcopy", "visitin", "anglecopy", "anglein")
    G1 = [*ALL1, *ALL2, "M"]
    js = [
        Job("dec", h_rewrite, dict(w=3, L=1, gates=[*ALL1, *ALL2, "CCX", "M"], what=RW, consts=(0, 1, -0.25)), "3 qubits, every single instruction, every rewrite"),
        *[Job(f"decompose.{g}", h_decompose, dict(gate=g), "3 qubits, all orders and angles", 0.3) for g in ("RX", "RY", "RZ", "RZZ", "CNOT", "SWAP", "Y", "CCX")],
        Job("norm", h_normalize, {}, "angles in [-7, 9)", 0.2),
        Job("rw2.L2", h_rewrite, dict(w=2, L=2, gates=G1, what=RW, how=("methods", "init")), "2 qubits, every sequence of 2 instructions"),
        Job("rw2.L3", h_rewrite, dict(w=2, L=3, gates=["RY", "J", *ALL2, "M"], what=RW, **NF), "2 qubits, sequences of 3"),
        Job("rw3.swap", h_rewrite, dict(w=3, L=5, gates=[["RX", "CNOT"], ["SWAP"], ["SWAP", "M"], ["M", "SWAP", "RZZ"], ["M", "CNOT", "J"]], what=("swapcopy", "swapin", "zaxis"), **NF, meas="XY"), "3 qubits, swaps and measurements", 1.5),
        Job("rw2.M", h_rewrite, dict(w=2, L=4, gates=[["J", "CNOT"], ["M", "SWAP"], ["M", "H"], ["M", "RX", "S"]], what=RW, **NF), "2 qubits, measurements"),
        Job("sim.1", h_simulate, dict(w=3, L=1, gates=[*ALL1, *ALL2, "CCX", "M"]), "3 qubits, every instruction"),
        Job("sim.2", h_simulate, dict(w=2, L=3, gates=[*ROTQ, "S", "Y", *ALL2, "M"], **NF), "2 qubits, sequences of 3", 1.5),
        Job("sim.3", h_simulate, dict(w=3, L=4, gates=[["RX", "J"], ["CNOT", "SWAP", "RZZ"], ["M", "SWAP"], ["M", "CNOT", "CZ", "RY"]], **NF), "3 qubits, measurements in the middle"),
        *[Job(f"ops.{g}", h_ops, dict(gate=g), "all angles in [-4, 4)", 0.2) for g in ("rx", "ry", "rz", "j", "rzz")],
    ]
    if t:
        js += [
            Job("rw2.L3all", h_rewrite, dict(w=2, L=3, gates=G1, what=RW), "2 qubits, every sequence of 3", 2.0),
            Job("rw3.L4", h_rewrite, dict(w=3, L=4, gates=["J", "RY", "CCX", *ALL2, "M"], what=RW, **NF), "3 qubits, sequences of 4", 1.0),
            Job("rw4.swap", h_rewrite, dict(w=4, L=6, gates=[["RX", "CNOT"], ["SWAP"], ["SWAP", "M"], ["M", "SWAP"], ["SWAP", "RZZ"], ["M", "CNOT"]], what=("swapcopy", "swapin"), **NF, meas="X"), "4 qubits, swaps", 1.0),
            Job("sim.4", h_simulate, dict(w=3, L=4, gates=["RX", "J", "CNOT", "SWAP", "RZZ", "CCX", "CZ", "M"], **NF), "3 qubits, sequences of 4", 1.0),
        ]
    return js


# ----------------------------------------------------------------- P21
from graphix.circ_ext import extraction as cex
from graphix.flow.core import PauliFlow as _PauliFlow

from .flows import (F as _F, GPLANES, MEAS, T as _T, focused_conditions, gen_flow, gen_layers, gen_og, og_reference, show_og, zero)

AXN = {"X": 1, "Y": 3, "Z": 2}


def ps_tuple(ps, n):
    return tuple(AXN[ps.axes[k].name] if k in ps.axes else 0 for k in range(n))


def h_pauli_exp(e, st, qs, paulis, a):
    """exp(-i pi a/2 P) on the qubits qs."""
    sup = [(q, p) for q, p in zip(qs, paulis) if p]
    if not sup:
        return
    if isinstance(st, sem.Dense):
        st.opn([q for q, _ in sup], sem.rot_matrix(tuple(p for _, p in sup), a))
    else:
        st.unitary([q for q, _ in sup], sem.rot_entries(tuple(p for _, p in sup), a))


def rotate_to_z(e, st, qs, paulis):
    """Cliffords mapping P to Z on the last qubit of its support; returns this qubit."""
    g = (lambda ns, m: st.opn(ns, m)) if isinstance(st, sem.Dense) else (lambda ns, m: st.unitary(ns, sem.num_entries(m)))
    sup = [(q, p) for q, p in zip(qs, paulis) if p]
    for q, p in sup:
        if p == 3:
            g([q], np.array([[1, 0], [0, -1j]]))
        if p & 1:
            g([q], sem.GATE["H"])
    for (a, _), (b, _) in zip(sup, sup[1:]):
        g([a, b], sem.GATE["CNOT"])
    return sup[-1][0]


def vanishes(e, st, outs, msg):
    r = st.result(outs)
    if e.mode == "concrete":
        e.check(bool(np.allclose(r, 0, atol=1e-6)), msg)
    else:
        sem.check_equal(e, r, {}, msg)


def stabiliser_relations(e, og, er):
    """C maps the +1 eigenstate of X_i / Z_i on input i to a +1 eigenstate of its image, where C is the
    pattern's map followed by the inverse of the Pauli exponentials."""
    outs = list(og.output_nodes)
    n = len(outs)
    dag, cm = er.pexp_dag, er.clifford_map
    e.check(list(cm.input_nodes) == list(og.input_nodes) and list(cm.output_nodes) == outs and list(dag.output_nodes) == outs,
            "inputs or outputs of the extraction")
    e.check(len(cm.x_map) == len(cm.z_map) == len(og.input_nodes), "one image per input")
    e.check(all(ps.dim == n and set(ps.axes) <= set(range(n)) for ps in (*cm.x_map, *cm.z_map)), "dimension of an image")
    ls = [list(l) for l in dag.partial_order_layers]
    order = [v for l in ls for v in l if v in og.measurements]
    e.check(sorted(order) == sorted(og.measurements) and set(dag.pauli_exponentials) == set(og.measurements), "one exponential per measured node")
    for l in ls:
        for u, v in itertools.combinations([v for v in l if v in og.measurements], 2):
            a, b = (ps_tuple(dag.pauli_exponentials[k].pauli_string, n) for k in (u, v))
            if all(hasattr(og.measurements[k], "plane") for k in (u, v)):
                e.check(sum(1 for x, y in zip(a, b) if x and y and x != y) % 2 == 0, "exponentials of one layer do not commute")
    pat = og_reference(og)
    for i, v in enumerate(og.input_nodes):
        for img, s in ((cm.x_map[i], BasicStates.PLUS), (cm.z_map[i], BasicStates.ZERO)):
            others = [w for w in og.input_nodes if w != v]
            p2 = Pattern(input_nodes=others)
            p2.add(command.N(v, s))
            for c in pat:
                p2.add(c)
            st = new_run(e, p2)
            for k in order:
                pe = dag.pauli_exponentials[k]
                m = og.measurements[k]
                if hasattr(m, "plane"):
                    # exp(i pi alpha P) with alpha = angle/2, undone
                    h_pauli_exp(e, st, outs, ps_tuple(pe.pauli_string, n), m.angle * pe.pauli_string.sign.value)
            P = ps_tuple(img, n)
            if not any(P):
                e.check(False, "an image is proportional to the identity")
            q = rotate_to_z(e, st, outs, P)
            sem.meas_axis(e, st, q, "Z", ONE if img.sign.value == 1 else ZERO)
            vanishes(e, st, [w for w in outs if w != q], "an image does not stabilise the extracted Clifford")


def new_run(e, pat):
    """Run a pattern (all outcomes 0) and return the state object itself."""
    if e.mode == "concrete":
        st = sem.Dense(pat.input_nodes)
        sem.dense_pattern(pat, zero, st=st)
    else:
        st = sem.PTM(pat.input_nodes)
        sem.ptm_pattern(pat, zero, st=st)
    return st


def check_extraction(e, og, er, what):
    if e.mode == "concrete":
        e.notes.append(f"{er.clifford_map} {er.pexp_dag.pauli_exponentials} {list(er.pexp_dag.partial_order_layers)}")
    for v, m in og.measurements.items():
        pe = er.pexp_dag.pauli_exponentials.get(v)
        e.check(pe is not None, "an exponential is missing")
    stabiliser_relations(e, og, er)
    if len(og.input_nodes) != len(og.output_nodes):
        try:
            er.to_circuit()
        except NotImplementedError:
            pass
        else:
            e.check(False, "an isometry is compiled to a circuit")
        return
    c = er.to_circuit()
    e.check(c.width == len(og.output_nodes), "width of the extracted circuit")
    if e.mode == "concrete":
        e.notes.append(str(c))
    A = sem.run_pattern(e, og_reference(og), zero)
    B = sem.run_circuit(e, c.width, c.instruction, None)
    sem.check_equal(e, A, B, f"the circuit extracted from {what} differs from the open graph's map", scale=0.5 ** len(og.measurements) if e.mode == "concrete" else 1.0)


def h_extract_circuit(e, n, kinds, io, edges, routes=("pauli", "gflow"), full=False):
    proxy.UNIT_DEN = 2
    og, A, labels, ins, outs, lab = gen_og(e, n, kinds, io, edges, full=full)
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, og.measurements))
    planar = all(l in GPLANES for l in lab.values())
    route = e.choose("route", [r for r in routes if planar or r == "pauli"])
    f = og.to_pauliflow_or_none() if route == "pauli" else og.to_gflow_or_none()
    if f is None:
        return
    e.reached()
    er = f.extract_circuit()
    check_extraction(e, og, er, f"the {route} flow")
    if route == "pauli" and len(og.input_nodes) == len(og.output_nodes):
        c, d = og.to_circuit(), er.to_circuit()
        e.check(c.width == d.width and len(c.instruction) == len(d.instruction), "OpenGraph.to_circuit is another circuit")
        for x, y in zip(c.instruction, d.instruction):
            fx, fy = ({k: getattr(i, k) for k in i.__dataclass_fields__} for i in (x, y))
            e.check(x.kind == y.kind and fx.keys() == fy.keys() and all(fx[k] == fy[k] for k in fy if k not in ("angle", "kind")), "OpenGraph.to_circuit is another circuit")
            if "angle" in fy:
                e.check(fx["angle"] == fy["angle"], "OpenGraph.to_circuit has other angles")


def h_any_focused(e, n, kinds, io, edges, nl):
    """Any valid flow: refused exactly when it is not focused, otherwise extracted correctly."""
    proxy.UNIT_DEN = 2
    og, A, labels, ins, outs, lab = gen_og(e, n, kinds, io, edges)
    layers = gen_layers(e, labels, outs, nl)
    cf, p = gen_flow(e, "pauli", A, labels, ins, outs, lab, layers)
    foc = sand(*focused_conditions("pauli", A, labels, outs, lab, p))
    cf = {i: frozenset(v for v in labels if bool(bitval(p[i].get(v, ZERO)))) for i in cf}
    f = _PauliFlow(og, cf, tuple(layers))
    if e.mode == "concrete":
        e.notes.append(show_og(A, ins, outs, og.measurements))
        e.notes.append(f"{cf} {layers}")
    try:
        er = f.extract_circuit()
    except ValueError:
        e.check(snot(foc), "extraction refuses a focused flow")
        return
    e.check(foc, "extraction accepts a flow that is not focused")
    e.reached()
    check_extraction(e, og, er, "a focused flow")


def pauli_words(n):
    return list(itertools.product("IXYZ", repeat=n))


def h_pauli_string(e, n):
    proxy.UNIT_DEN = 1
    w = [e.choose(f"p{i}", list("IXYZ")) for i in range(n)]
    s = e.choose("s", ["", "+", "-"])
    e.reached()
    PS = cex.PauliString
    ps = PS.from_str(s + "".join(w))
    e.check(ps.dim == n and {k: a.name for k, a in ps.axes.items()} == {k: a for k, a in enumerate(w) if a != "I"} and ps.sign.value == (-1 if s == "-" else 1), "PauliString.from_str")
    e.check(str(ps) == (s or "+") + "".join(w), "PauliString.__str__")
    t = ps.to_tableau()
    exp = [int(a in "XY") for a in w] + [int(a in "YZ") for a in w] + [int(s == "-")]
    e.check([int(x) for x in t] == exp, "PauliString.to_tableau")
    from graphix._linalg import MatGF2

    e.check(PS.from_tableau(MatGF2(exp)) == ps, "PauliString.from_tableau")


def pm_word(w):
    m = np.eye(1)
    for a in w:
        m = np.kron(m, sem.PM[{"I": 0, **AXN}[a]])
    return m


def h_clifford_pass(e, n, signs="all"):
    """cm_berg_pass synthesises every Clifford tableau."""
    proxy.UNIT_DEN = 1
    words = [w for w in pauli_words(n) if any(a != "I" for a in w)]
    com = lambda a, b: sum(1 for x, y in zip(a, b) if x != "I" and y != "I" and x != y) % 2 == 0  # noqa: E731
    xs, zs = [], []
    for q in range(n):
        done = xs + zs
        x = e.choose(f"x{q}", [w for w in words if all(com(w, v) for v in done) and not dependent(w, done)])
        z = e.choose(f"z{q}", [w for w in words if not com(w, x) and all(com(w, v) for v in done)])
        xs.append(x)
        zs.append(z)
    sg = e.choose("signs", list(itertools.product("+-", repeat=2 * n)) if signs == "all" else ["+" * (2 * n), "-" * (2 * n), "-+" * n])
    PS = cex.PauliString
    X = [PS.from_str(sg[q] + "".join(xs[q])) for q in range(n)]
    Z = [PS.from_str(sg[n + q] + "".join(zs[q])) for q in range(n)]
    cm = cex.CliffordMap(tuple(X), tuple(Z), tuple(range(10, 10 + n)), tuple(range(20, 20 + n)))
    if e.mode == "concrete":
        e.notes.append(str(cm))
    c = Circuit(n)
    from graphix.circ_ext.compilation import cm_berg_pass

    cm_berg_pass(cm, c)
    e.reached()
    B = sem.run_circuit(e, n, c.instruction, None)
    # expected: every input Pauli goes to the product of the images of its generators
    if e.mode == "concrete":
        U = None
    else:
        sem.check_equal(e, B, clifford_ptm(n, xs, zs, sg), "cm_berg_pass synthesises another Clifford")
        return
    st = np.eye(2**n, dtype=complex)
    for ins in c.instruction:
        qs, k = sem.instr_op(ins)
        st = full_op(n, qs, sem.GATE[k]) @ st
    for q in range(n):
        for a, img, s in (("X", xs[q], sg[q]), ("Z", zs[q], sg[n + q])):
            g = pm_word(["I"] * q + [a] + ["I"] * (n - q - 1))
            e.check(np.allclose(st @ g @ st.conj().T, (-1 if s == "-" else 1) * pm_word(img)), "cm_berg_pass synthesises another Clifford")


def dependent(w, done):
    """w is in the group generated by done (up to sign)."""
    if not done:
        return False
    vec = lambda a: sum(((c in "XY") << (2 * i)) | ((c in "YZ") << (2 * i + 1)) for i, c in enumerate(a))  # noqa: E731
    span = {0}
    for d in done:
        span |= {s ^ vec(d) for s in span}
    return vec(w) in span


def full_op(n, qs, m):
    st = sem.Dense(list(range(n)))
    k = len(qs)
    U = np.zeros((2**n, 2**n), complex)
    for x in range(2**n):
        bits = [(x >> (n - 1 - i)) & 1 for i in range(n)]
        col = sum(bits[q] << (k - 1 - i) for i, q in enumerate(qs))
        for row in range(2**k):
            b2 = list(bits)
            for i, q in enumerate(qs):
                b2[q] = (row >> (k - 1 - i)) & 1
            U[sum(b << (n - 1 - i) for i, b in enumerate(b2)), x] += m[row, col]
    return U


def clifford_ptm(n, xs, zs, sg):
    """{(out paulis, in key): {ZERO: TPoly}} of the Clifford with the given images."""
    r = {}
    for key in range(4**n):
        ps, kk = [], key
        for _ in range(n):
            ps.append(kk & 3)
            kk >>= 2
        M = np.eye(2**n, dtype=complex)
        for q, p in enumerate(ps):
            sx, sz = (-1 if sg[q] == "-" else 1), (-1 if sg[n + q] == "-" else 1)
            Xm, Zm = sx * pm_word(xs[q]), sz * pm_word(zs[q])
            M = M @ {0: np.eye(2**n), 1: Xm, 2: Zm, 3: 1j * Xm @ Zm}[p]
        for w in itertools.product(range(4), repeat=n):
            v = np.trace(sem._kron(w) @ M) / 2**n
            if abs(v) > 1e-9:
                r[(tuple(w), key)] = {ZERO: TPoly.const(v.real)}
    return r


def jobs_P21(tier):
    t = tier == "thorough"
    sq3 = [((0,), (2,)), ((0, 1), (1, 2)), ((1, 0), (2, 1)), ((2,), (2,)), ((0, 1, 2), (2, 0, 1))]
    iso3 = [((), (2,)), ((), (0, 1)), ((1,), (0, 2)), ((0,), (2, 0)), ((), (1, 2, 0))]
    sq4 = [((0,), (3,)), ((0, 1), (2, 3)), ((1, 0), (2, 3)), ((0, 1), (1, 3)), ((2, 0), (3, 1))]
    iso4 = [((1,), (0, 2)), ((), (1, 2)), ((), (3,)), ((2, 0), (3, 1, 0)), ((3,), (1, 2, 0))]
    sq5 = [((0,), (4,)), ((0, 1), (4, 3)), ((1, 0), (4, 2)), ((3, 0), (3, 4)), ((2, 1, 0), (4, 3, 2))]
    E5 = [[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 2), (1, 3), (2, 3), (2, 4), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)],
          [(0, 2), (0, 3), (1, 2), (1, 4), (2, 4)], [(0, 2), (0, 3), (0, 4), (1, 3), (1, 4), (2, 3)], [(0, 3), (1, 4), (2, 3), (2, 4), (0, 2)]]
    js = [
        Job("n3.sq", h_extract_circuit, dict(n=3, kinds=MEAS, io=sq3, edges="fork"), "3 nodes, all graphs, planes (all angles) + signed Paulis, |I|=|O|"),
        Job("n3.iso", h_extract_circuit, dict(n=3, kinds=MEAS, io=iso3, edges="fork"), "3 nodes, all graphs, |I|<|O|: stabiliser relations"),
        Job("n4.sq", h_extract_circuit, dict(n=4, kinds=["XY", "XZ", "YZ", "-Y", "+X"], io=sq4, edges="fork", routes=("pauli",)), "4 nodes, all graphs, |I|=|O|", 1.5),
        Job("n4.iso", h_extract_circuit, dict(n=4, kinds=["XY", "YZ", "-X", "+Y", "-Z"], io=iso4, edges="fork", routes=("pauli",)), "4 nodes, all graphs, |I|<|O|", 1.2),
        Job("n4.pa", h_extract_circuit, dict(n=4, kinds=["XY", "XY@0", "XZ@0.5", "XY@1", "+Z", "-X"], io=sq4[:3], edges="fork", routes=("pauli",)), "4 nodes, Pauli angles written as planar measurements", 1.0),
        Job("n5.sq", h_extract_circuit, dict(n=5, kinds=["XY", "XZ", "YZ", "-Y"], io=sq5, edges=E5, routes=("pauli",)), "5 nodes, 6 graphs", 1.5),
        Job("any3", h_any_focused, dict(n=3, kinds=["XY", "YZ", "+X", "-Y", "-Z"], io=sq3[:4] + iso3[:3], edges="fork", nl=3), "3 nodes: every valid Pauli flow and layering"),
        Job("any4", h_any_focused, dict(n=4, kinds=["XY", "-X", "+Y"], io=sq4[:2] + iso4[1:2], edges=[[(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 2), (1, 2), (1, 3), (0, 1)], [(0, 2), (0, 3), (1, 2), (1, 3)]], nl=3), "4 nodes: every valid Pauli flow", 1.0),
        Job("str", h_pauli_string, dict(n=3), "all Pauli strings of 3 qubits", 0.3),
        Job("str0", h_pauli_string, dict(n=1), "all Pauli strings of 1 qubit", 0.1),
        Job("berg1", h_clifford_pass, dict(n=1), "all 1-qubit Cliffords", 0.2),
        Job("berg2", h_clifford_pass, dict(n=2, signs="some"), "all 2-qubit symplectic tableaux, 3 sign vectors", 1.0),
    ]
    if t:
        js += [
            Job("berg2all", h_clifford_pass, dict(n=2), "all 11520 2-qubit Cliffords", 1.5),
            Job("berg3", h_clifford_pass, dict(n=3, signs="some"), "3-qubit tableaux", 1.5),
            Job("n4.all", h_extract_circuit, dict(n=4, kinds=MEAS, io=sq4 + iso4, edges="fork"), "4 nodes", 2.0),
            Job("n5.all", h_extract_circuit, dict(n=5, kinds=["XY", "XZ", "YZ", "-Y", "+X", "-Z"], io=sq5, edges="fork"), "5 nodes", 2.0),
            Job("any4all", h_any_focused, dict(n=4, kinds=["XY", "XZ", "YZ", "-X", "+Y", "+Z"], io=sq4 + iso4, edges="fork", nl=3), "4 nodes", 2.0),
        ]
    return js


# ----------------------------------------------------------------- P22
import tempfile
import os as _os

from graphix import pretty_print as gpp
from graphix import qasm3_exporter as qx

from symx import qasm, text


def qasm_result(e, src, outcome, outs, inputs=None):
    """The map of an OpenQASM program on the given qubits; a program that cannot be interpreted is a violation."""
    try:
        pr = qasm.Program(e, src, outcome, inputs)
    except (qasm.QasmError, sem.SemError) as ex:
        e.check(False, f"the exported program is not valid: {ex}")
        raise engine.PathEnd from None
    live = [q for q in pr.qubits if q not in {m for m, _ in pr.measured}]
    if sorted(live) != sorted(outs):
        e.check(False, "qubits left at the end of the exported program")
        raise engine.PathEnd
    return pr, pr.st.result(outs)


def crz_known(e, st_seq, w, outs):
    """The circuit with every RZZ read as a controlled RZ (known finding)."""
    st = sem.new_state(e, list(range(w)))
    for ins in st_seq:
        if ins.kind.name == "M":
            sem.meas_axis(e, st, ins.target, ins.axis.name, e.anf(f"b{ins.target}"))
        elif ins.kind.name == "RZZ":
            c, t, a = ins.control, ins.target, ins.angle
            h_pauli_exp(e, st, [t], (2,), a / 2)
            h_pauli_exp(e, st, [c, t], (2, 2), -a / 2)
        else:
            sem.apply_instr(e, st, ins)
    return st.result(outs)


def check_either(e, B, A, A2, msg):
    """B equals A, or A2 where A2 is not None."""
    if A2 is None:
        sem.check_equal(e, B, A, msg)
    elif e.mode == "concrete":
        e.check(any(B.shape == x.shape and np.allclose(B, x, atol=1e-6) for x in (A, A2)), msg)
    else:
        e.stats.claims += 1
        d = z3.And(z3.simplify(sem.maps_differ(e, A, B)), z3.simplify(sem.maps_differ(e, A2, B)))
        if z3.is_false(z3.simplify(d)):
            e.stats.folded += 1
            return
        e._mark_z(d)
        e.check_z(z3.Not(d), msg)


def h_qasm_circuit(e, w, L, gates, dens=("no",), **kw):
    proxy.UNIT_DEN = 2
    text.install(e, gpp, dens)
    c, seq, live = gen_circuit(e, w, L, gates, **kw)
    tr = e.choose("transpile", [True, False])
    try:
        src = qx.circuit_to_qasm3(c, transpile=tr)
    except ValueError:
        e.check(not tr and any(t[0] == "J" or (t[0] == "M" and t[2] != "Z") for t, _ in seq), "the export refuses a circuit")
        return
    e.reached()
    if not tr:
        e.check(not any(t[0] == "J" for t, _ in seq), "J is exported")
    if e.mode == "concrete":
        e.notes.append(src)
    e.check("\n".join(qx.circuit_to_qasm3_lines(c, transpile=tr)) == src or e.mode != "concrete", "lines differ from the text")
    untouched(e, c, seq, "the export changed the circuit")
    ms = [t[1][0] for t, _ in seq if t[0] == "M"]
    qs = [f"q[{k}]" for k in range(w)]
    pr, B = qasm_result(e, src, lambda b: e.anf("b" + b[2:-1]), [qs[k] for k in sorted(live)], qs)
    e.check([q for q, _ in pr.measured] == [qs[k] for k in ms] and all(b == f"b[{q[2:-1]}]" for q, b in pr.measured), "measurements of the exported program")
    ref = ref_instrs(seq)
    A = sem.run_circuit(e, w, ref, lambda k: e.anf(f"b{ms[k]}"))
    lenient = known("P22", "rzz-crz") and any(t[0] == "RZZ" for t, _ in seq)
    check_either(e, B, A, crz_known(e, ref, w, sorted(live)) if lenient else None, "the exported program differs from the circuit")


def h_qasm_pattern(e, states=("PLUS",), in_states=("PLUS", "ZERO"), dens=("no",), **kw):
    proxy.UNIT_DEN = 1
    text.install(e, gpp, dens)
    p = gen_pattern(e, states=states, **kw)
    form = e.choose("form", ["single", "map"]) if p.input_nodes else "single"
    if form == "single":
        s = e.choose("is", list(in_states))
        ins = dict.fromkeys(p.input_nodes, s)
        arg = getattr(BasicStates, s)
    else:
        ins = {v: e.choose(f"is{v}", list(in_states)) for v in p.input_nodes}
        arg = {v: getattr(BasicStates, s) for v, s in ins.items()}
    allst = set(ins.values()) | {st for st in ("PLUS", "ZERO", "PLUS_I", "MINUS", "ONE", "MINUS_I") for c in p if c.kind.name == "N" and c.state == getattr(BasicStates, st)}
    try:
        if form == "single" and ins and s == "PLUS":
            src = qx.pattern_to_qasm3(p)
        else:
            src = qx.pattern_to_qasm3(p, arg)
    except ValueError:
        e.check(not allst <= {"PLUS", "ZERO"}, "the export refuses a pattern")
        return
    e.check(allst <= {"PLUS", "ZERO"}, "another initial state is exported silently")
    e.reached()
    if e.mode == "concrete":
        e.notes += [show(p), str(ins), src]
    with tempfile.TemporaryDirectory() as d:
        f = _os.path.join(d, "x")
        p.to_qasm3(f, arg)
        e.check(_os.listdir(d) == ["x.qasm"], "to_qasm3 does not write the .qasm file")
        with open(f + ".qasm", encoding="utf-8") as h:
            got = h.read()
    e.check(got == src, "to_qasm3 writes another program")
    q = Pattern(input_nodes=[])
    for v in p.input_nodes:
        q.add(command.N(v, getattr(BasicStates, ins[v])))
    for c in p:
        q.add(c)
    q.reorder_output_nodes(list(p.output_nodes))
    A = sem.run_pattern(e, q, Outc(e))
    names = {f"c{c.node}": c.node for c in p if c.kind.name == "M"}

    def outcome(b):
        if b not in names:
            raise qasm.QasmError(f"measurement into {b}")
        return e.anf(f"m[{names[b]}]")

    _, B = qasm_result(e, src, outcome, [f"q{v}" for v in p.output_nodes])
    sem.check_equal(e, B, A, "the exported program differs from the pattern")


def h_qasm_angle(e, lo, hi, dens):
    """The angle strings denote the angle."""
    proxy.UNIT_DEN = 1
    text.install(e, gpp, dens)
    a = real("a", lo, hi)
    e.reached()
    s = qx.angle_to_qasm3(a)
    if e.mode == "concrete":
        e.notes.append(s)
    try:
        v = text.turns(text.Expr(s).parse())
    except text.ParseError as ex:
        e.check(False, f"angle string does not parse: {ex}")
        return
    d = v - a
    if type(d) is Real:
        e.check(sand(d <= Fraction(1, 10**9) * 4, -d <= Fraction(1, 10**9) * 4), "the angle string denotes another angle")
    else:
        e.check(abs(d) <= 4e-9, "the angle string denotes another angle")


DENS = (1, 2, 3, 4, 5, 7, 8, 12, 16, 100, 999, 1000, "no")


def rzz_fails():
    c = Circuit(2)
    c.rzz(0, 1, 0.5)
    src = qx.circuit_to_qasm3(c)
    return "crz" in src


def jobs_P22(tier):
    t = tier == "thorough"
    ONE1 = [*ALL1, "M"]
    js = [
        Job("c.L1", h_qasm_circuit, dict(w=3, L=1, gates=[*ALL1, *ALL2, "CCX", "M"], consts=(0, 1, -0.25, 0.3), how=("methods", "init")), "3 qubits, every instruction, all angles"),
        Job("c.L2", h_qasm_circuit, dict(w=2, L=2, gates=[*ALL1, *ALL2, "M"]), "2 qubits, sequences of 2"),
        Job("c.L3", h_qasm_circuit, dict(w=2, L=4, gates=[["RX", "J", "RZ"], ["CNOT", "SWAP", "RZZ", "CZ"], ["M", "RY", "J"], ["M", "S"]], **NF), "2 qubits, sequences of 4"),
        Job("c.L3m", h_qasm_circuit, dict(w=3, L=5, gates=[["RX"], ["CNOT", "CCX"], ["M"], ["M", "SWAP", "J"], ["M", "RZ"]], meas="XYZ", **NF), "3 qubits, several measurements"),
        Job("p.n3", h_qasm_pattern, dict(n=3, nin=1, nout=1, kinds=["XY", "XZ", "YZ", "-X", "+Y"], final_c=(None, 6), states=("PLUS", "ZERO")), "3 nodes, all domains, 3 planes, Paulis"),
        Job("p.n2c", h_qasm_pattern, dict(n=2, nin=1, nout=1, kinds=["XY", "XZ", "YZ", "+X", "-X", "+Y", "-Y", "+Z", "-Z", "XY@0", "XZ@0.5", "YZ@0.3", "XY@1"], final_c=(None, *range(24)), orders=("XCZ",)), "2 nodes, every Clifford and measurement"),
        Job("p.st", h_qasm_pattern, dict(n=3, nin=2, nout=2, kinds=["XY"], edges="path", states=("PLUS", "ZERO", "PLUS_I", "MINUS"), in_states=("PLUS", "ZERO", "MINUS", "ONE"), orders=("CXZ", "ZXC")), "initial states, supported or not"),
        Job("p.n4", h_qasm_pattern, dict(n=4, nin=2, nout=1, kinds=["XY", "-Y", "YZ"], edges=[(0, 1), (1, 2), (0, 3), (2, 3)], mid=((0, 2), (1, 3)), late=True, final_c=(None, 10)), "4 nodes, corrections in the middle, late preparation", 1.2),
        Job("p.out2", h_qasm_pattern, dict(n=4, nin=2, nout=2, kinds=["XY", "XZ"], edges="path", out_perm=True, in_perm=True, mid=((0, 1),), mid_c=(None, 8, 13), edge_times=True), "4 nodes, 2 outputs in any order"),
        Job("angle", h_qasm_angle, dict(lo=-5, hi=5, dens=DENS), "all angles in [-5, 5)", 0.5),
    ]
    if t:
        js += [
            Job("c.L3all", h_qasm_circuit, dict(w=2, L=3, gates=[*ALL1, *ALL2, "M"]), "2 qubits, all sequences of 3", 1.5),
            Job("c.w3", h_qasm_circuit, dict(w=3, L=3, gates=[*ALL1, *ALL2, "CCX", "M"]), "3 qubits, sequences of 3", 1.5),
            Job("p.n4all", h_qasm_pattern, dict(n=4, nin=1, nout=1, kinds=["XY", "XZ", "YZ", "-X", "+Y", "-Z"], mid=((0, 2), (1, 3), (1, 2)), mid_c=(None, 6), late=True, states=("PLUS", "ZERO"), final_c=(None, 10, 15, 22)), "4 nodes", 2.0),
            Job("p.n5", h_qasm_pattern, dict(n=5, nin=1, nout=1, kinds=["XY", "YZ"], edges="path", final_c=(None, 7)), "5 nodes, path", 1.0),
            Job("angle.all", h_qasm_angle, dict(lo=-100, hi=100, dens=tuple(range(1, 1001, 7)) + ("no",)), "all angles in [-100, 100)", 0.5),
        ]
    return js


OUT_C = "longer or wider circuits than stated per job"
CHECKS = {
    "P19": dict(jobs=jobs_P19, quick_s=45, thorough_s=600, outside=OUT_C),
    "P20": dict(jobs=jobs_P20, quick_s=45, thorough_s=600, outside=OUT_C),
    "P21": dict(jobs=jobs_P21, quick_s=45, thorough_s=600, outside="larger open graphs; isometries are checked through their stabiliser relations only"),
    "P22": dict(jobs=jobs_P22, quick_s=45, thorough_s=600, outside="longer programs; OpenQASM features the exporter does not use",
                known={"rzz-crz": ("circuit RZZ(control, target, angle) is exported as the OpenQASM gate crz, which is a controlled RZ and not exp(-i angle/2 ZZ)", rzz_fails)}),
}
