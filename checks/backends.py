"""Simulation backends: statevectors, density matrices, channels, pattern simulation, noise (P23-P27)."""

from __future__ import annotations

import copy as cpmod
import itertools
import math
import warnings

import graphix.channels as gch
import graphix.linalg_validations as lv
import graphix.ops as gops
import graphix.sim.base_backend as bb
import graphix.sim.density_matrix as dmm
import graphix.sim.statevec as svm
import graphix.states as gstates
import numpy as np
from graphix.ops import Ops
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates, PlanarState

from symx import cnum
from symx.cnum import Cx, arr, carr, claim, cvar, herm, norm2, proportional, rvar, same, unit

from .common import *  # noqa: F403

shim_all()
relax_runnability()
cnum.patch_math()
z3 = engine.z3
warnings.simplefilter("ignore")
MODS = (svm, dmm, bb, gch, lv, gstates, gops)
NB = svm.nb
PAR = svm.NUM_QUBIT_PARALLEL


class NbShim:
    """prange in the order given (any order of the iterations must do)."""

    def __init__(self, rev):
        self.rev = rev

    def __getattr__(self, n):
        return getattr(NB, n)

    def prange(self, *a):
        r = range(*a)
        return reversed(r) if self.rev else r


DISPATCH = {f: getattr(bb, f) for f in ("tensordot", "kron", "outer", "vdot", "matmul")}


def both_object(f):
    """Plain complex operands of a mixed product become symbolic ones (the real run has complex128 on both sides)."""

    def g(*a, **k):
        return f(*(x.astype(object) if isinstance(x, np.ndarray) and x.dtype == np.complex128 else x for x in a), **k)

    return g


DISPATCH_SYM = {n: both_object(f) for n, f in DISPATCH.items()}


def setup(e, par="seq"):
    """Let the modules compute with symbolic numbers (symbolic run) or plainly (replay)."""
    sym = e.mode != "concrete"
    for m in MODS:
        m.np = cnum.NpSym() if sym else np
        for n, f in (("complex", cnum.sym_complex), ("float", cnum.sym_float)):
            if sym:
                setattr(m, n, f)
            elif n in m.__dict__:
                delattr(m, n)
        for n in DISPATCH:
            if n in m.__dict__:
                setattr(m, n, (DISPATCH_SYM if sym else DISPATCH)[n])
    svm.NUM_QUBIT_PARALLEL = PAR if par == "seq" else 0
    svm.nb = NbShim(par == "rev")


# ------------------------------------------------------------------ reference linear algebra (on index bits)
def bits(i, n):
    return tuple((i >> (n - 1 - k)) & 1 for k in range(n))


def unbits(b):
    r = 0
    for x in b:
        r = 2 * r + int(x)
    return r


def ref_evolve(psi, n, op, qs):
    k = len(qs)
    out = []
    for i in range(1 << n):
        b = bits(i, n)
        row = unbits([b[q] for q in qs])
        acc = 0
        for c in range(1 << k):
            nb = list(b)
            for q, x in zip(qs, bits(c, k)):
                nb[q] = x
            acc = acc + op[row, c] * psi[unbits(nb)]
        out.append(acc)
    return arr(out)


def ref_dm(rho, n, op, qs):
    """op rho op^dagger on the qubits qs."""
    N = 1 << n
    a = np.array([ref_evolve(rho[:, j], n, op, qs) for j in range(N)]).T  # op rho
    opc = np.array([[x.conjugate() for x in r] for r in np.asarray(op)], dtype=np.asarray(op).dtype)
    return np.array([ref_evolve(a[i, :], n, opc, qs) for i in range(N)])


def ref_inner(a, b):
    return sum((x.conjugate() * y for x, y in zip(a, b)), 0)


def mk_sv(e, n, cap="choose", name="psi"):
    psi = carr(name, 1 << n)
    psi = unit(psi)
    extra = e.choose(name + ".cap", [None, 0, 2]) if cap == "choose" else cap
    src = psi.copy()
    sv = Statevector(src, max_qubits=None if extra is None else n + extra)
    src[:] = 0  # the statevector holds its own copy
    e.check(sv.nqubit == n and len(sv.flatten()) == 1 << n, "Statevector(data).nqubit")
    return sv, psi


def qrange(e, name, n):
    return e.choose(name, list(range(n)))


def raises(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


# ------------------------------------------------------------------ P23
def h_sv1(e, n, par=("seq", "fwd", "rev")):
    """evolve_single, expectation_single on every position."""
    setup(e, e.choose("par", list(par)))
    sv, psi = mk_sv(e, n)
    q = qrange(e, "q", n)
    op = carr("u", 2, 2)
    if e.choose("T", [0, 1]):
        op = op.T  # not contiguous
    op0 = op.copy()
    what = e.choose("op", ["evolve_single", "expectation_single", "expectation_value", "evolve"])
    if what.startswith("evolve"):
        sv.evolve_single(op, q) if what == "evolve_single" else sv.evolve(op, [q])
        e.check(sv.nqubit == n, "number of qubits after " + what)
        same(e, sv.flatten(), ref_evolve(psi, n, op, [q]), f"{what} applies the operator to the qubit")
    else:
        r = getattr(sv, what)(op, q if what == "expectation_single" else [q])
        same(e, arr([r]), arr([ref_inner(psi, ref_evolve(psi, n, op, [q]))]), f"{what} is <psi|op|psi>")
        same(e, sv.flatten(), psi, f"{what} leaves the state unchanged")
    same(e, op, op0, "the operator is left unchanged")
    e.reached()


def h_svk(e, n, k):
    """evolve and expectation_value with an operator on k qubits, in any order."""
    setup(e)
    sv, psi = mk_sv(e, n)
    qs = e.choose("qs", list(itertools.permutations(range(n), k)))
    op = carr("u", 1 << k, 1 << k)
    cont = e.choose("arg", ["list", "tuple", "array"])
    arg = list(qs) if cont == "list" else tuple(qs) if cont == "tuple" else np.array(qs)
    if e.choose("op", ["evolve", "expectation_value"]) == "evolve":
        sv.evolve(op, arg)
        same(e, sv.flatten(), ref_evolve(psi, n, op, qs), "evolve applies the operator to the qubits in the given order")
        e.check(sv.nqubit == n, "evolve keeps the number of qubits")
    else:
        r = sv.expectation_value(op, arg)
        same(e, arr([r]), arr([ref_inner(psi, ref_evolve(psi, n, op, qs))]), "expectation_value is <psi|op|psi>")
        same(e, sv.flatten(), psi, "expectation_value leaves the state unchanged")
    e.reached()


CZM = np.diag([1, 1, 1, -1]).astype(complex)
SWAPM = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def h_sv2(e, n):
    """entangle, swap, permute."""
    setup(e, e.choose("par", ["seq", "fwd", "rev"]))
    sv, psi = mk_sv(e, n)
    what = e.choose("op", ["entangle", "swap", "permute"])
    if what == "permute":
        p = e.choose("perm", list(itertools.permutations(range(n))))
        sv.permute(list(p))
        want = []
        for i in range(1 << n):
            b = bits(i, n)  # bit k of the result is bit p[k] of the original
            o = [0] * n
            for k, x in enumerate(p):
                o[x] = b[k]
            want.append(psi[unbits(o)])
        same(e, sv.flatten(), arr(want), "permute reorders the qubits")
    else:
        qs = e.choose("qs", [*itertools.permutations(range(n), 2), *([(i, i) for i in range(n)] if what == "swap" else [])])
        getattr(sv, what)(qs)
        if qs[0] == qs[1]:
            same(e, sv.flatten(), psi, "swap of a qubit with itself")
        else:
            same(e, sv.flatten(), ref_evolve(psi, n, CZM if what == "entangle" else SWAPM, qs), f"{what} of two qubits")
    e.check(sv.nqubit == n, "number of qubits")
    e.reached()


def h_svbad(e, n, ops):
    """Positions out of range and non-permutations are rejected and leave the state as it was."""
    setup(e)
    sv, psi = mk_sv(e, n, cap=e.choose("cap", [None, 2]))
    what = e.choose("op", ops)
    u = carr("u", 2, 2)
    if what == "permute":
        p = e.choose("perm", [p for p in itertools.product(range(-1, n + 1), repeat=n) if sorted(p) != list(range(n))]
                     + [tuple(range(n - 1)), tuple(range(n + 1))])
        ok = raises(lambda: sv.permute(p), ValueError)
        msg = f"permute({p}) on {n} qubits is rejected"
    else:
        bad = e.choose("bad", [-n - 1, -n, -2, -1, n, n + 1, n + 2])
        if what in ("entangle", "swap"):
            g = qrange(e, "q", n)
            qs = (bad, g) if e.choose("first", [0, 1]) else (g, bad)
            f = lambda: getattr(sv, what)(qs)
        elif what in ("evolve", "expectation_value"):
            if e.choose("k", [1, 2]) == 1:
                f = lambda: getattr(sv, what)(u, [bad])
            else:
                g = qrange(e, "q", n)
                qs = [bad, g] if e.choose("first", [0, 1]) else [g, bad]
                f = lambda: getattr(sv, what)(carr("v", 4, 4), qs)
        else:
            f = lambda: getattr(sv, what)(u, bad)
        ok = raises(f, IndexError, ValueError)
        msg = f"{what} on position {bad} of {n} qubits is rejected"
    e.check(ok, msg)
    e.check(sv.nqubit == n, msg + ": number of qubits kept")
    same(e, sv.flatten(), psi, msg + ": state kept")
    e.reached()


def unit2(e, name="phi"):
    """A single-qubit unit vector."""
    return unit(carr(name, 2))


def h_svproj(e, n, par=("seq", "fwd", "rev")):
    """project_qubit with the projector onto any single-qubit state: <phi| on the qubit, normalised."""
    setup(e, e.choose("par", list(par)))
    sv, psi = mk_sv(e, n, cap=e.choose("cap", [None, 1]))
    q = qrange(e, "q", n)
    kind = e.choose("phi", ["any", "0", "1"])
    phi = unit2(e) if kind == "any" else arr([1, 0]) if kind == "0" else arr([0, 1])
    P = np.array([[phi[i] * phi[j].conjugate() for j in range(2)] for i in range(2)])
    P = arr(P.flat, (2, 2))
    w = []
    for i in range(1 << (n - 1)):
        b = bits(i, n - 1)
        at = lambda x: psi[unbits((*b[:q], x, *b[q:]))]
        w.append(phi[0].conjugate() * at(0) + phi[1].conjugate() * at(1))
    w = arr(w)
    p = norm2(w)
    try:
        sv.project_qubit(P, q)
    except RuntimeError:
        claim(e, (p * norm2(phi)).real <= 1e-7, "project_qubit fails only on outcomes of probability zero")
        e.reached()
        return
    e.check(sv.nqubit == n - 1 and len(sv.flatten()) == 1 << (n - 1), "project_qubit removes one qubit")
    if e.mode == "concrete" and p.real < 1e-9:
        e.reached()
        return
    proportional(e, sv.flatten(), w, "project_qubit leaves <phi|psi> on the other qubits")
    same(e, arr([norm2(sv.flatten())]), arr([1]), "project_qubit leaves a normalised state")
    e.reached()


STATES = ("PLUS", "MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I")


def st_vec(s):
    return arr({"PLUS": [R2, R2], "MINUS": [R2, -R2], "ZERO": [1, 0], "ONE": [0, 1], "PLUS_I": [R2, R2 * 1j],
                "MINUS_I": [R2, -R2 * 1j]}[s])


R2 = 1 / math.sqrt(2)


def kron(a, b):
    return arr([x * y for x in a for y in b])


def h_svadd(e, n, kmax):
    """add_nodes and tensor: |psi> (x) added state, for every form of the added state and every capacity."""
    setup(e)
    sv, psi = mk_sv(e, n)
    form = e.choose("form", ["state", "default", "list", "vector", "statevec", "tensor", "copyplus"])
    k = e.choose("k", list(range(0 if form in ("list", "state") else 1, kmax + 1)))
    if form in ("default", "copyplus"):
        k = 1
        d = BasicStates.PLUS if form == "default" else PlanarState(gstates.Plane.XY, 0)
        want = st_vec("PLUS")
    elif form == "state":
        s = e.choose("s", STATES)
        d = getattr(BasicStates, s)
        want = arr([1])
        for _ in range(k):
            want = kron(want, st_vec(s))
    elif form == "list":
        ss = [e.choose(f"s{i}", STATES) for i in range(k)]
        d = [getattr(BasicStates, s) for s in ss]
        want = arr([1])
        for s in ss:
            want = kron(want, st_vec(s))
    else:
        want = carr("phi", 1 << k)
        want = unit(want)
        d = want.copy() if form == "vector" else Statevector(want, max_qubits=e.choose("ocap", [None, k + 1]))
    if form == "tensor":
        sv.tensor(d)
    else:
        sv.add_nodes(k, d)
    if form in ("tensor", "statevec"):
        same(e, d.flatten(), want, "the added statevector is left unchanged")
        e.check(d.nqubit == k, "the added statevector is left unchanged")
    e.check(sv.nqubit == n + k, "number of qubits after adding nodes")
    e.check(sv.max_qubits >= sv.nqubit, "capacity covers the qubits")
    same(e, sv.flatten(), kron(psi, want), "adding nodes gives the tensor product")
    e.reached()


def h_svinit(e, nmax):
    """Constructor: inferred sizes, rejected inconsistencies, copies."""
    setup(e)
    form = e.choose("form", ["vector", "state", "list", "copy"])
    nq = e.choose("nqubit", [None, -1, *range(nmax + 2)])
    mq = e.choose("max", [None, -1, *range(nmax + 2)])
    if form == "vector":
        ln = e.choose("len", list(range((1 << nmax) + 1)))
        v = carr("psi", ln)
        isunit = e.choose("unit", [1, 0])
        if isunit and ln:
            v = unit(v)
        elif ln:
            d = norm2(v).real
            e.assume(sor(d < 0.9, d > 1.1))
        ok = ln == 0 or (ln & (ln - 1) == 0 and isunit)
        n = ln.bit_length() - 1 if ln else 0
        want = v if ln else arr([1])
        data = list(v) if e.choose("as", ["list", "array"]) == "list" else v
    elif form == "state":
        s = e.choose("s", STATES)
        data, ok = getattr(BasicStates, s), True
        n = nq if nq is not None else 1
        want = arr([1])
        for _ in range(max(n, 0)):
            want = kron(want, st_vec(s))
    elif form == "list":
        ln = e.choose("len", list(range(nmax + 1)))
        ss = [e.choose(f"s{i}", STATES[:3 + (i == 0) * 3]) for i in range(ln)]
        data, ok, n = [getattr(BasicStates, s) for s in ss], True, ln
        want = arr([1])
        for s in ss:
            want = kron(want, st_vec(s))
    else:
        n = e.choose("n", list(range(1, nmax + 1)))
        data, want = mk_sv(e, n)
        ok = True
    bad = (not ok or (nq is not None and (nq < 0 or nq != n)) or (mq is not None and (mq < 0 or mq < n)))
    try:
        sv = Statevector(data, nqubit=nq, max_qubits=mq)
    except ValueError:
        e.check(bad, f"Statevector({form}, nqubit={nq}, max_qubits={mq}) of {n} qubits is accepted")
        e.reached()
        return
    e.check(not bad, f"inconsistent Statevector({form}, nqubit={nq}, max_qubits={mq}) is rejected")
    e.check(sv.nqubit == n, "inferred number of qubits")
    same(e, sv.flatten(), want, f"Statevector({form})")
    if mq is not None:
        e.check(sv.max_qubits == mq, "max_qubits is honoured")
    if form == "copy":
        sv.evolve_single(Ops.X, 0)
        same(e, data.flatten(), want, "Statevector(statevector) is an independent copy")
    e.reached()


def h_svout(e, n):
    """fidelity, isclose, to_dict and to_prob_dict."""
    setup(e)
    sv, psi = mk_sv(e, n)
    what = e.choose("op", ["fidelity", "isclose", "to_dict", "to_prob_dict"])
    if what in ("fidelity", "isclose"):
        other, phi = mk_sv(e, n, name="phi")
        f = sum((x.conjugate() * y for x, y in zip(psi, phi)), 0)
        if what == "fidelity":
            same(e, arr([sv.fidelity(other)]), arr([f * f.conjugate()]), "fidelity is |<a|b>|^2")
        else:
            r = bool(sv.isclose(other))
            p = (f * f.conjugate()).real
            claim(e, p >= 1 - 1e-7 if r else sor(p <= 1 - 1e-11, p >= 1 + 1e-11), f"isclose is {r} exactly when the fidelity is close to 1")
    else:
        enc = e.choose("enc", ["MSB", "LSB"])
        d = getattr(sv, what)(encoding=enc)
        for i in range(1 << n):
            k = "".join(map(str, bits(i, n)))
            k = k if enc == "MSB" else k[::-1]
            p = (psi[i] * psi[i].conjugate()).real
            if k in d:
                same(e, arr([d[k]]), arr([psi[i] if what == "to_dict" else psi[i] * psi[i].conjugate()]), f"{what} value of {k}")
            else:
                claim(e, p <= 1e-12, f"{what} omits only vanishing amplitudes")
        e.check(len(d) <= 1 << n, f"{what}: only basis states")
    same(e, sv.flatten(), psi, f"{what} leaves the state unchanged")
    e.reached()


def h_svseq(e, n, L):
    """Sequences of operations on one statevector (positions move, capacity grows and shrinks)."""
    setup(e)
    sv, psi = mk_sv(e, n, cap=e.choose("cap", [None, 1]))
    m = n
    ref = psi
    for i in range(L):
        ops = ["add"] if m == 0 else ["add", "entangle", "swap", "single", "proj"] if m > 1 else ["add", "single", "proj"]
        if m >= n + 1:
            ops.remove("add")
        o = e.choose(f"op{i}", ops)
        if o == "add":
            s = e.choose(f"s{i}", ("PLUS", "ZERO"))
            sv.add_nodes(1, getattr(BasicStates, s))
            ref = kron(ref, st_vec(s))
            m += 1
        elif o in ("entangle", "swap"):
            qs = e.choose(f"q{i}", list(itertools.permutations(range(m), 2)))
            getattr(sv, o)(qs)
            ref = ref_evolve(ref, m, CZM if o == "entangle" else SWAPM, qs)
        elif o == "single":
            q = qrange(e, f"q{i}", m)
            op = getattr(Ops, e.choose(f"u{i}", ["H", "S"]))
            sv.evolve_single(op, q)
            ref = ref_evolve(ref, m, op, [q])
        else:
            q = qrange(e, f"q{i}", m)
            x = e.choose(f"x{i}", [0, 1])
            P = np.diag([1 - x, x]).astype(complex)
            w = arr([ref[unbits((*b[:q], x, *b[q:]))] for b in (bits(j, m - 1) for j in range(1 << (m - 1)))])
            p = norm2(w)
            e.assume(p.real >= 0.01)
            sv.project_qubit(P, q)
            if e.mode == "concrete":
                ref = w / math.sqrt(p.real)
            else:
                t = 1 / p.sqrt()
                ref = arr([x * t for x in w])
            m -= 1
    e.check(sv.nqubit == m, "number of qubits after the sequence")
    same(e, sv.flatten(), ref, "state after the sequence")
    e.reached()


# ------------------------------------------------------------------ P24
def mk_dm(e, n, name="r", trace1=True):
    """A density matrix with arbitrary Hermitian content."""
    dm = DensityMatrix(nqubit=n)
    h = herm(name, 1 << n)
    if trace1:
        N = 1 << n
        h[N - 1, N - 1] = 1 - sum(h[i, i] for i in range(N - 1))
    dm.rho = h.copy()
    return dm, h


def trace(m):
    return sum(m[i, i] for i in range(len(m)))


def h_dm1(e, n):
    """evolve_single, evolve, expectation_single on one qubit."""
    setup(e)
    dm, h = mk_dm(e, n, trace1=False)
    q = qrange(e, "q", n)
    op = carr("u", 2, 2)
    op0 = op.copy()
    what = e.choose("op", ["evolve_single", "evolve", "expectation_single"])
    if what == "expectation_single":
        t = trace(h)
        if e.mode == "concrete":
            if abs(t) < 1e-6:
                raise PathEnd
        else:
            e.assume(t != 0)
        r = dm.expectation_single(op, q)
        ref = arr([ref_evolve(h[:, j], n, op, [q])[j] for j in range(1 << n)])
        same(e, arr([r * t]), arr([sum(ref, 0)]), "expectation_single is tr(op rho) / tr(rho)")
        same(e, dm.rho, h, "expectation_single leaves the state unchanged")
    else:
        dm.evolve_single(op, q) if what == "evolve_single" else dm.evolve(op, [q])
        same(e, dm.rho, ref_dm(h, n, op, [q]), f"{what} is op rho op^dagger")
    same(e, op, op0, "the operator is left unchanged")
    e.check(dm.nqubit == n, "number of qubits")
    e.reached()


def h_dmk(e, n, k):
    setup(e)
    dm, h = mk_dm(e, n, trace1=False)
    qs = e.choose("qs", list(itertools.permutations(range(n), k)))
    op = carr("u", 1 << k, 1 << k)
    dm.evolve(op, e.choose("arg", [list, tuple])(qs))
    same(e, dm.rho, ref_dm(h, n, op, qs), "evolve is op rho op^dagger on the qubits in the given order")
    e.reached()


CNOTM = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)


def ref_ptrace(h, n, out):
    keep = [q for q in range(n) if q not in out]
    K = len(keep)
    r = []
    for i in range(1 << K):
        for j in range(1 << K):
            bi, bj = bits(i, K), bits(j, K)
            acc = 0
            for x in itertools.product([0, 1], repeat=len(out)):
                a, b = [0] * n, [0] * n
                for q, v in zip(keep, bi):
                    a[q] = v
                for q, v in zip(keep, bj):
                    b[q] = v
                for q, v in zip(out, x):
                    a[q] = b[q] = v
                acc = acc + h[unbits(a), unbits(b)]
            r.append(acc)
    return arr(r, (1 << K, 1 << K))


def h_dm2(e, n):
    """CZ, CNOT, swap, permute, partial trace, removal, tensor."""
    setup(e)
    dm, h = mk_dm(e, n, trace1=False)
    what = e.choose("op", ["entangle", "swap", "cnot", "permute", "ptrace", "remove_qubit", "tensor", "flatten", "copy"])
    if what in ("entangle", "swap", "cnot"):
        qs = e.choose("qs", list(itertools.permutations(range(n), 2)))
        getattr(dm, what)(qs)
        m = {"entangle": CZM, "swap": SWAPM, "cnot": CNOTM}[what]
        same(e, dm.rho, ref_dm(h, n, m, qs), f"{what} of two qubits")
    elif what == "permute":
        p = e.choose("perm", list(itertools.permutations(range(n))))
        dm.permute(p)
        N = 1 << n

        def src(i):
            b, o = bits(i, n), [0] * n
            for k, x in enumerate(p):
                o[x] = b[k]
            return unbits(o)

        same(e, dm.rho, arr([h[src(i), src(j)] for i in range(N) for j in range(N)], (N, N)), "permute reorders the qubits")
    elif what == "ptrace":
        out = e.choose("out", [c for k in range(1, n + 1) for c in itertools.permutations(range(n), k)])
        dm.ptrace(out[0] if len(out) == 1 and e.choose("int", [0, 1]) else e.choose("arg", [list, tuple])(out))
        same(e, dm.rho, ref_ptrace(h, n, out), "ptrace is the partial trace")
        e.check(dm.nqubit == n - len(out), "number of qubits after ptrace")
    elif what == "remove_qubit":
        q = qrange(e, "q", n)
        t = trace(h)
        if e.mode == "concrete":
            if abs(t) < 1e-6:
                raise PathEnd
        else:
            e.assume(t != 0)
        dm.remove_qubit(q)
        same(e, arr([x * t for x in dm.rho.flat]), arr(ref_ptrace(h, n, [q]).flat), "remove_qubit traces the qubit out and normalises")
    elif what == "tensor":
        other, g = mk_dm(e, 1, "g", trace1=False)
        dm.tensor(other)
        N = 1 << n
        want = arr([h[i // 2, j // 2] * g[i % 2, j % 2] for i in range(2 * N) for j in range(2 * N)], (2 * N, 2 * N))
        same(e, dm.rho, want, "tensor is the Kronecker product")
        same(e, other.rho, g, "tensor leaves the other matrix unchanged")
    elif what == "flatten":
        same(e, dm.flatten(), h.flatten(), "flatten")
    else:
        d2 = DensityMatrix(dm, nqubit=e.choose("nq", [None, n]))
        d2.evolve_single(Ops.H, 0)
        d2.normalize if e.mode == "concrete" else None
        d2.rho[0, 0] = 7
        same(e, dm.rho, h, "DensityMatrix(dm) is an independent copy")
    e.reached()


def h_dmproj(e, n):
    """project_qubit: <phi| rho |phi> normalised."""
    setup(e)
    dm, h = mk_dm(e, n)
    q = qrange(e, "q", n)
    phi = unit2(e) if e.choose("phi", ["any", "1"]) == "any" else arr([0, 1])
    P = arr([phi[i] * phi[j].conjugate() for i in range(2) for j in range(2)], (2, 2))
    K = 1 << (n - 1)
    w = []
    for i in range(K):
        for j in range(K):
            bi, bj = bits(i, n - 1), bits(j, n - 1)
            acc = 0
            for x in range(2):
                for y in range(2):
                    acc = acc + phi[x].conjugate() * phi[y] * h[unbits((*bi[:q], x, *bi[q:])), unbits((*bj[:q], y, *bj[q:]))]
            w.append(acc)
    w = arr(w, (K, K))
    p = trace(w)
    f = norm2(phi)  # 1; written out so that the claim is an identity
    if e.mode == "concrete":
        if abs(p) < 1e-6:
            raise PathEnd
    else:
        e.assume((p * f).real != 0)
    dm.project_qubit(P, q)
    e.check(dm.nqubit == n - 1, "project_qubit removes one qubit")
    proportional(e, dm.rho, w, "project_qubit leaves <phi|rho|phi>")
    same(e, arr([trace(dm.rho)]), arr([1]), "project_qubit normalises the state")
    e.reached()


def h_dmadd(e, n, kmax):
    setup(e)
    dm, h = mk_dm(e, n, trace1=False) if n else (DensityMatrix(nqubit=0), arr([1], (1, 1)))
    form = e.choose("form", ["state", "list", "vector", "statevec", "dm"])
    k = e.choose("k", list(range(1, kmax + 1)))
    if form == "state":
        s = e.choose("s", STATES)
        d, v = getattr(BasicStates, s), arr([1])
        for _ in range(k):
            v = kron(v, st_vec(s))
    elif form == "list":
        ss = [e.choose(f"s{i}", STATES) for i in range(k)]
        d, v = [getattr(BasicStates, s) for s in ss], arr([1])
        for s in ss:
            v = kron(v, st_vec(s))
    elif form != "dm":
        v = unit(carr("phi", 1 << k))
        d = v.copy() if form == "vector" else Statevector(v)
    K = 1 << k
    if form == "dm":
        d, g = mk_dm(e, k, "g", trace1=False)
    else:
        g = arr([x * y.conjugate() for x in v for y in v], (K, K))
    dm.add_nodes(k, d)
    N = K << n
    want = arr([h[i // K, j // K] * g[i % K, j % K] for i in range(N) for j in range(N)], (N, N))
    same(e, dm.rho, want, "adding nodes gives the tensor product")
    e.check(dm.nqubit == n + k, "number of qubits")
    e.reached()


def h_dmreal(e):
    """Matrices given with integer or float entries behave like complex ones."""
    setup(e)
    for m in MODS:
        m.np = np  # plain numbers: the types of the entries matter here
    ty = e.choose("type", [int, float, complex])
    kind = e.choose("m", ["0", "1", "mix"] if ty is not int else ["0", "1"])
    rows = {"0": [[1, 0], [0, 0]], "1": [[0, 0], [0, 1]], "mix": [[0.25, 0], [0, 0.75]]}[kind]
    rows = [[ty(x) for x in r] for r in rows]
    if e.choose("as", ["list", "array"]) == "array":
        rows = np.array(rows)
    what = e.choose("op", ["tensor", "add_nodes", "evolve", "ptrace", "normalize", "fidelity"])
    dm = DensityMatrix(rows)
    g = np.array(rows, dtype=complex)
    plus = np.full((2, 2), 0.5)
    if what in ("tensor", "evolve", "ptrace"):
        dm.tensor(DensityMatrix(nqubit=1))
        want = np.kron(g, plus)
        if what == "evolve":
            dm.entangle((0, 1))
            want = CZM @ want @ CZM
        if what == "ptrace":
            dm.ptrace(1)
            want = g
    elif what == "add_nodes":
        dm = DensityMatrix(nqubit=1)
        dm.add_nodes(1, rows)
        want = np.kron(plus, g)
    else:
        dm.normalize() if what == "normalize" else dm.fidelity(Statevector(nqubit=1))
        want = g
    e.check(np.allclose(np.asarray(dm.rho, dtype=complex), want), f"{what} of a matrix with {ty.__name__} entries")
    e.reached()


class EigLinalg(cnum.NpLinalg):
    """Eigenvalues of Hermitian 1x1 and 2x2 matrices in closed form."""

    @staticmethod
    def eigvalsh(m):
        if m.dtype != object:
            return np.linalg.eigvalsh(m)
        if len(m) == 1:
            return arr([m[0, 0].real])
        a, d, b = m[0, 0].real, m[1, 1].real, m[1, 0]
        disc = ((a - d) * (a - d) * 0.25 + b.abs2()).sqrt(True) if type(b) is Cx else abs(a - d) / 2
        mid = (a + d) * 0.5
        r = np.empty(2, dtype=object)
        r[0], r[1] = mid - disc, mid + disc
        return r


def h_dminit(e):
    """A 2x2 matrix is accepted exactly when it is Hermitian, of trace 1 and positive semidefinite."""
    setup(e)
    if e.mode != "concrete":
        sh = cnum.NpSym()
        sh.object_ = np.dtype("V7")
        sh.linalg = EigLinalg()
        lv.np = dmm.np = sh
    kind = e.choose("kind", ["valid", "trace", "herm", "neg"])
    x, y, z = rvar("x"), rvar("y"), rvar("z")
    r2 = x * x + y * y + z * z
    t = 1
    if kind in ("valid", "trace"):
        e.assume(r2 <= 1 - 1e-9) if kind == "valid" else e.assume(r2 <= 0.5)
    if kind == "neg":
        e.assume(r2 >= 1.01)
    if kind == "trace":
        t = rvar("t")
        e.assume(sor(sand(t >= 1.01, t <= 10), sand(t <= 0.99, t >= 0.8)))
    bad = 0
    if kind == "herm":
        bad = cvar("w")
        e.assume(r2 <= 0.5)
        w2 = bad.real * bad.real + bad.imag * bad.imag
        e.assume(sor(w2 >= 0.01))
    I1 = 1j if e.mode == "concrete" else Cx.const(1j)
    m = [[(t + z) * 0.5, (x - I1 * y) * 0.5], [(x + I1 * y) * 0.5 + bad, (t - z) * 0.5]]
    nq = e.choose("nq", [None, 0, 1, 2]) if kind == "valid" else None
    ok = kind == "valid" and nq in (None, 1)
    try:
        dm = DensityMatrix(m, nqubit=nq)
    except ValueError:
        e.check(not ok, f"{kind}: a matrix that is a density matrix is accepted")
        e.reached()
        return
    e.check(ok, f"{kind}: a matrix that is not a density matrix (or not of that size) is rejected")
    same(e, dm.rho, arr([v for r in m for v in r], (2, 2)), "DensityMatrix(matrix)")
    e.reached()


PXS = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def pauli_mix(h, n, qs, ws):
    """sum over Pauli strings of weight * P rho P; ws: dict of tuples -> weight."""
    N = 1 << n
    acc = [0] * (N * N)
    for ps, w in ws.items():
        P = np.array([[1]], dtype=complex)
        for p in ps:
            P = np.kron(P, PXS[p])
        m = ref_dm(h, n, P, qs)
        acc = [a + w * x for a, x in zip(acc, m.flat)]
    return arr(acc, (N, N))


def ref_channel(name, h, n, qs, p):
    if name == "dephasing":
        return pauli_mix(h, n, qs, {(0,): 1 - p[0], (3,): p[0]})
    if name == "depolarising":
        return pauli_mix(h, n, qs, {(0,): 1 - p[0], **{(k,): p[0] * (1 / 3) for k in (1, 2, 3)}})
    if name == "pauli":
        return pauli_mix(h, n, qs, {(0,): 1 - p[0] - p[1] - p[2], **{(k,): p[k - 1] for k in (1, 2, 3)}})
    if name == "two_qubit_depolarising":
        return pauli_mix(h, n, qs, {(a, b): (p[0] * (1 / 15) if a or b else 1 - p[0]) for a in range(4) for b in range(4)})
    if name == "two_qubit_depolarising_tensor":
        for q in qs:
            h = ref_channel("depolarising", h, n, [q], p)
        return h
    if name == "amplitude_damping":  # entries: the excited population decays, coherences shrink by sqrt(1-p)
        q, = qs
        N = 1 << n
        s = math.sqrt(1 - p[0]) if e_concrete() or isinstance(p[0], float) else (1 - p[0]).sqrt(True)
        out = []
        for i in range(N):
            for j in range(N):
                bi, bj = bits(i, n)[q], bits(j, n)[q]
                m = 1 << (n - 1 - q)
                if (bi, bj) == (0, 0):
                    out.append(h[i, j] + p[0] * h[i | m, j | m])
                elif bi and bj:
                    out.append((1 - p[0]) * h[i, j])
                else:
                    out.append(s * h[i, j])
        return arr(out, (N, N))
    if name == "two_qubit_amplitude_damping":
        for q in qs:
            h = ref_channel("amplitude_damping", h, n, [q], p)
        return h
    raise KeyError(name)


def e_concrete():
    return proxy.cur().mode == "concrete"


CHANNELS = {"dephasing": 1, "depolarising": 1, "pauli": 1, "amplitude_damping": 1, "two_qubit_depolarising": 2,
            "two_qubit_depolarising_tensor": 2, "two_qubit_amplitude_damping": 2}


def probs(e, name):
    if name == "pauli":
        p = [rvar(x) for x in ("px", "py", "pz")]
        return p
    return [rvar("p")]


def h_channel(e, n, names):
    """Every built-in channel: trace preserving, and the documented action, for every parameter in range."""
    setup(e)
    name = e.choose("channel", names)
    k = CHANNELS[name]
    p = probs(e, name)
    for x in p:
        e.assume(sand(x >= 0, x <= 1) if e.mode != "concrete" else 0 <= x <= 1)
    if name == "pauli":
        s = p[0] + p[1] + p[2]
        e.assume(s <= 1)
    ch = getattr(gch, name + "_channel")(*p)
    e.check(ch.nqubit == k and len(list(ch)) == len(ch) >= 1, f"{name}: acts on {k} qubits")
    D = 1 << k
    acc = [0] * (D * D)
    for kd in ch:
        K = np.asarray(kd.operator)
        c = kd.coef
        for i in range(D):
            for j in range(D):
                s = 0
                for l in range(D):
                    s = s + K[l, i].conjugate() * K[l, j]
                acc[i * D + j] = acc[i * D + j] + c.conjugate() * c * s
    same(e, arr(acc), arr(np.eye(D).flat), f"{name}: sum of K^dagger K is the identity")
    dm, h = mk_dm(e, n)
    qs = e.choose("qs", list(itertools.permutations(range(n), k)))
    dm.apply_channel(ch, list(qs))
    same(e, dm.rho, ref_channel(name, h, n, qs, p), f"{name}: documented action on the state")
    same(e, arr([trace(dm.rho)]), arr([1]), f"{name}: trace 1 after the channel")
    e.reached()


def h_chanbad(e, names):
    """Parameters out of range are rejected."""
    setup(e)
    name = e.choose("channel", names)
    p = probs(e, name)
    k = e.choose("which", list(range(len(p))))
    neg = e.choose("how", ["negative", "above"])
    e.assume(p[k] <= -0.001 if neg == "negative" else p[k] >= 1.001)
    for i, x in enumerate(p):
        e.assume(sand(x >= -3, x <= 3) if e.mode != "concrete" else -3 <= x <= 3)
        if i != k:
            e.assume(sand(x >= 0, x <= 1) if e.mode != "concrete" else 0 <= x <= 1)
    try:
        getattr(gch, name + "_channel")(*p)
    except ValueError:
        e.reached()
        return
    e.check(False, f"{name} channel with a parameter outside [0, 1] is rejected")


def h_kraus(e, k):
    """KrausChannel accepts exactly the operator lists with sum K^dagger K = 1 and matching shapes."""
    setup(e)
    form = e.choose("form", ["free", "unitary", "shape", "count"])
    D = 1 << k
    if form == "shape":
        a = e.choose("a", [(2, 2), (4, 4), (2, 3), (3, 3), (1, 1), (0, 0)])
        b = e.choose("b", [None, (2, 2), (4, 4), (4, 2)])
        bad = a not in ((2, 2), (4, 4), (1, 1)) or (b is not None and b not in ((2, 2), (4, 4))) or (b is not None and b != a)
        bad = bad or (a == (1, 1) and b is not None)
        c = 1 if b is None else math.sqrt(0.5)
        try:
            ch = gch.KrausChannel([gch.KrausData(c, np.eye(*x)) for x in (a, b) if x is not None])
        except ValueError:
            e.check(bad, f"Kraus operators of shapes {a}, {b} are accepted")
            e.reached()
            return
        e.check(not bad, f"Kraus operators of shapes {a}, {b} are rejected")
        e.check(ch.nqubit == {1: 0, 2: 1, 4: 2}[a[0]], "number of qubits of the channel")
        e.reached()
        return
    if form == "count":
        m = e.choose("m", [0, 1, 3, 4, 5])
        c = rvar("c")
        f = lambda: gch.KrausChannel([gch.KrausData(c, Ops.I) for _ in range(m)])
        if m in (0, 5):
            e.check(raises(f, ValueError), f"a channel of {m} operators on one qubit is rejected")
            e.reached()
            return
        d = c * c * m
        try:
            f()
        except ValueError:
            claim(e, sor(d < 1 - 1e-9, d > 1 + 1e-9), "a normalised list of operators is accepted")
            e.reached()
            return
        claim(e, sand(d >= 1 - 1e-3, d <= 1 + 1e-3), "a list of operators that is not normalised is rejected")
        e.reached()
        return
    if form == "unitary":
        p = rvar("p")
        e.assume(sand(p >= 0, p <= 1) if e.mode != "concrete" else 0 <= p <= 1)
        rt = math.sqrt if e.mode == "concrete" else (lambda x: x.sqrt(True))
        ph = e.choose("phase", [1, 1j, -1])
        ops = [getattr(Ops, e.choose(f"o{i}", ["I", "X", "Y", "Z", "H", "S"])) for i in range(2)]
        cs = [rt(1 - p) * ph, rt(p)]
        mats = [np.asarray(o).astype(object if e.mode != "concrete" else complex) for o in ops]
        ch = gch.KrausChannel([gch.KrausData(c, m) for c, m in zip(cs, mats)])
        for m in mats:
            m[:] = 0  # the channel holds its own copies
        e.check(len(ch) == 2 and ch[1] is list(ch)[1] and list(ch[::-1]) == list(ch)[::-1] and ch.nqubit == 1, "a channel is the sequence of its operators")
        dm, h = mk_dm(e, 1)
        dm.apply_channel(ch, [0])
        want = [x * (1 - p) + y * p for x, y in zip(ref_dm(h, 1, np.asarray(ops[0]), [0]).flat, ref_dm(h, 1, np.asarray(ops[1]), [0]).flat)]
        same(e, dm.rho, arr(want, (2, 2)), "channel: rho -> sum |c|^2 K rho K^dagger")
        e.reached()
        return
    op = carr("k", D, D)
    c = cvar("c")
    g = arr([sum((op[l, i].conjugate() * op[l, j] for l in range(D)), 0) * c * c.conjugate() for i in range(D) for j in range(D)], (D, D))
    for x in g.flat:
        pass
    try:
        gch.KrausChannel([gch.KrausData(c, op)])
    except ValueError:
        far = [sor((g[i, j] - (i == j)).real > 1e-9, (g[i, j] - (i == j)).real < -1e-9, (g[i, j]).imag > 1e-9, (g[i, j]).imag < -1e-9)
               for i in range(D) for j in range(D)]
        claim(e, sor(*far), "a normalised operator is accepted")
        e.reached()
        return
    near = [sand(*(sand(v <= 1e-3, v >= -1e-3) for v in ((g[i, j] - (i == j)).real, g[i, j].imag))) for i in range(D) for j in range(D)]
    claim(e, sand(*near), "an operator that is not normalised is rejected")
    e.reached()


def h_dmbad(e, n):
    """Positions out of range, repeated positions, wrong shapes are rejected and leave the state."""
    setup(e)
    dm, h = mk_dm(e, n)
    what = e.choose("op", ["evolve_single", "expectation_single", "evolve", "evolve2", "entangle", "swap", "cnot", "permute", "ptrace", "apply_channel", "shape"])
    bad = e.choose("bad", [-n - 1, -1, n, n + 1])
    g = qrange(e, "q", n)
    u = carr("u", 2, 2)
    pair = e.choose("pair", [(bad, g), (g, bad), (g, g)]) if what in ("evolve2", "entangle", "swap", "cnot") else None
    exc = (ValueError, AssertionError, IndexError)
    if what == "evolve2":
        f = lambda: dm.evolve(carr("v", 4, 4), pair)
    elif pair:
        f = lambda: getattr(dm, what)(pair)
    elif what == "permute":
        p = e.choose("perm", [p for p in itertools.product(range(-1, n + 1), repeat=n) if sorted(p) != list(range(n))])
        f = lambda: dm.permute(p)
    elif what == "ptrace":
        f = lambda: dm.ptrace(e.choose("parg", [bad, [bad], [bad, 0]]))
    elif what == "apply_channel":
        f = lambda: dm.apply_channel(gch.dephasing_channel(0.5), e.choose("carg", [[bad], [0, 1], []]))
    elif what == "evolve":
        f = lambda: dm.evolve(u, [bad])
    elif what == "shape":
        f = e.choose("sh", [lambda: dm.evolve_single(carr("v", 4, 4), g), lambda: dm.evolve(carr("v", 2, 3), [g]),
                            lambda: dm.evolve(carr("v", 3, 3), [g]), lambda: dm.evolve(u, [0, 1]),
                            lambda: dm.expectation_single(carr("v", 4, 4), g)])
    else:
        f = lambda: getattr(dm, what)(u, bad)
    e.check(raises(f, *exc), f"{what}: invalid arguments are rejected")
    same(e, dm.rho, h, f"{what}: rejected arguments leave the state unchanged")
    e.reached()


def h_dmfid(e, n):
    setup(e)
    dm, h = mk_dm(e, n)
    v = unit(carr("phi", 1 << n))
    sv = Statevector(v)
    err = 0
    if e.choose("rounding", [0, 1]):  # the inner product carries a rounding error
        err = rvar("err", -1e-13, 1e-13)
        I1 = 1j if e.mode == "concrete" else Cx.const(1j)
        inner = dmm.vdot
        dmm.vdot = lambda a, b: inner(a, b) + I1 * err
    r = dm.fidelity(sv)
    N = 1 << n
    want = sum((v[i].conjugate() * h[i, j] * v[j] for i in range(N) for j in range(N)), 0)
    same(e, arr([r]), arr([want]), "fidelity is <phi|rho|phi>")
    same(e, dm.rho, h, "fidelity leaves the state unchanged")
    e.reached()


def jobs_P24(tier):
    t = tier == "thorough"
    ones = [c for c in CHANNELS if CHANNELS[c] == 1]
    twos = [c for c in CHANNELS if CHANNELS[c] == 2]
    js = [
        Job("single", h_dm1, dict(n=2), "2 qubits, any Hermitian matrix, any operator"),
        Job("evolve2", h_dmk, dict(n=2, k=2), "2 qubits, any 2-qubit operator"),
        Job("ops2", h_dm2, dict(n=2), "2 qubits: CZ, CNOT, swap, permute, trace, removal, tensor, copy"),
        Job("ops3", h_dm2, dict(n=3), "3 qubits: the same"),
        Job("proj", h_dmproj, dict(n=2), "2 qubits, any projector"),
        Job("add", h_dmadd, dict(n=1, kmax=2), "1 qubit, adding up to 2"),
        Job("real", h_dmreal, {}, "integer, float and complex entries", 0.3),
        Job("init", h_dminit, {}, "2x2 matrices"),
        Job("chan1", h_channel, dict(n=2, names=ones), "1-qubit channels on 2 qubits"),
        Job("chan2", h_channel, dict(n=2, names=twos), "2-qubit channels on 2 qubits"),
        Job("chanbad", h_chanbad, dict(names=list(CHANNELS)), "parameters in [-3, 3] outside [0, 1]"),
        Job("kraus", h_kraus, dict(k=1), "1-qubit operators"),
        Job("bad", h_dmbad, dict(n=2), "2 qubits, invalid arguments"),
        Job("fid", h_dmfid, dict(n=2), "2 qubits"),
    ]
    if t:
        js += [
            Job("single3", h_dm1, dict(n=3), "3 qubits"),
            Job("evolve32", h_dmk, dict(n=3, k=2), "3 qubits, any 2-qubit operator"),
            Job("ops4", h_dm2, dict(n=4), "4 qubits"),
            Job("proj3", h_dmproj, dict(n=3), "3 qubits"),
            Job("add2", h_dmadd, dict(n=2, kmax=2), "2 qubits, adding up to 2"),
            Job("chan13", h_channel, dict(n=3, names=ones), "1-qubit channels on 3 qubits"),
            Job("chan23", h_channel, dict(n=3, names=twos), "2-qubit channels on 3 qubits"),
            Job("kraus2", h_kraus, dict(k=2), "2-qubit operators"),
            Job("fid3", h_dmfid, dict(n=3), "3 qubits"),
        ]
    return js


def jobs_P23(tier):
    t = tier == "thorough"
    js = [
        Job("single", h_sv1, dict(n=3), "3 qubits, any state, any operator, serial and parallel kernels"),
        Job("multi2", h_svk, dict(n=3, k=2), "3 qubits, any 2-qubit operator"),
        Job("two", h_sv2, dict(n=3), "3 qubits: CZ, swap, permute"),
        Job("two4", h_sv2, dict(n=4), "4 qubits: CZ, swap, permute"),
        Job("bad", h_svbad, dict(n=2, ops=["evolve_single", "expectation_single", "entangle", "swap", "evolve", "expectation_value"]), "2 qubits, positions out of range"),
        Job("bad.permute", h_svbad, dict(n=2, ops=["permute"]), "2 qubits, every sequence of 1 to 3 entries that is not a permutation"),
        Job("proj2", h_svproj, dict(n=2), "2 qubits, any projector"),
        Job("proj1", h_svproj, dict(n=1), "1 qubit, any projector"),
        Job("proj3", h_svproj, dict(n=3, par=("seq", "rev")), "3 qubits, any projector"),
        Job("proj4", h_svproj, dict(n=4, par=("seq",)), "4 qubits, any projector", 1.5),
        Job("add", h_svadd, dict(n=2, kmax=2), "2 qubits, adding up to 2"),
        Job("init", h_svinit, dict(nmax=2), "up to 2 qubits, every size mismatch"),
        Job("out", h_svout, dict(n=2), "2 qubits"),
        Job("seq", h_svseq, dict(n=2, L=3), "2 qubits, 3 operations"),
    ]
    if t:
        js += [
            Job("single4", h_sv1, dict(n=4), "4 qubits"),
            Job("single5", h_sv1, dict(n=5, par=("seq", "rev")), "5 qubits"),
            Job("multi3", h_svk, dict(n=3, k=3), "3-qubit operators"),
            Job("multi24", h_svk, dict(n=4, k=2), "4 qubits, 2-qubit operators"),
            Job("two5", h_sv2, dict(n=5), "5 qubits"),
            Job("proj5", h_svproj, dict(n=5), "5 qubits"),
            Job("add3", h_svadd, dict(n=3, kmax=2), "3 qubits, adding up to 2"),
            Job("init3", h_svinit, dict(nmax=3), "up to 3 qubits"),
            Job("out3", h_svout, dict(n=3), "3 qubits"),
            Job("seq4", h_svseq, dict(n=2, L=4), "2 qubits, 4 operations", 1.5),
        ]
    return js


OUT_N = "more qubits than stated; rounding of floating-point arithmetic (numbers are exact reals here); numba's code generation and data races (kernels run as Python, parallel loops in forward and backward order)"
CHECKS = {
    "P24": dict(jobs=jobs_P24, quick_s=45, thorough_s=600, outside=OUT_N + "; eigenvalues are taken from their closed form (2x2 matrices) instead of LAPACK"),
    "P23": dict(jobs=jobs_P23, quick_s=45, thorough_s=600, outside=OUT_N),
}
