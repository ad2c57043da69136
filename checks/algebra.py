"""Single-qubit algebra: Clifford gates, measurements, Pauli operators."""

from __future__ import annotations

import math

import numpy as np

from graphix.fundamentals import IXYZ_VALUES, ComplexUnit, I
from graphix.pauli import Pauli

from .common import *  # noqa: F403

shim_all()
relax_runnability()

z3 = engine.z3
MX = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]),
      "S": np.diag([1, 1j]), "SDG": np.diag([1, -1j]), "H": np.array([[1, 1], [1, -1]]) / math.sqrt(2)}
QASM = {"id": MX["I"], "x": MX["X"], "y": MX["Y"], "z": MX["Z"], "s": MX["S"], "sdg": MX["SDG"], "h": MX["H"]}
SX = sem.PM  # order I, X, Z, Y


def claim_lin(e, D, names, msg, tol=1e-9):
    """Claim: D @ x = 0 for every real vector x with entries in [-1, 1] (names are the symbolic entries)."""
    if e.mode == "concrete":
        x = np.array([float(e.model.get(n, 0.0)) for n in names])
        e.check(bool(np.allclose(D @ x, 0, atol=tol)), msg)
        return
    xs = []
    for n in names:
        real(n, -1, 1)
        xs.append(e.reals[n])
    dis = []
    for row in np.asarray(D):
        for part in (row.real, np.imag(row)):
            t = [(float(v), x) for v, x in zip(part, xs) if abs(v) > 1e-12]
            if t:
                s = z3.Sum([sem.rv(v) * x for v, x in t])
                dis.append(z3.Or(s > sem.rv(tol), s < -sem.rv(tol)))
    e.stats.claims += 1
    e.check_z(z3.Not(z3.Or(*dis)) if dis else z3.BoolVal(True), msg)


def adjoint_rep(U):
    """4x4 real matrix of rho -> U rho U^dag in the Pauli basis."""
    U = np.asarray(U, dtype=complex)
    return np.array([[np.trace(SX[i] @ U @ SX[j] @ U.conj().T).real / 2 for j in range(4)] for i in range(4)])


BL = ["rho.i", "rho.x", "rho.z", "rho.y"]


def same_action(e, U, V, msg):
    """U rho U^dag = V rho V^dag for every Hermitian rho (four real unknowns)."""
    claim_lin(e, adjoint_rep(U) - adjoint_rep(V), BL, msg)


PSI = ["a.re", "a.im", "b.re", "b.im"]


def same_linear(e, A, B, msg):
    """A psi = B psi for every psi in C^2."""
    D = np.asarray(A, complex) - np.asarray(B, complex)
    W = np.zeros((2, 4), complex)
    W[:, 0], W[:, 1], W[:, 2], W[:, 3] = D[:, 0], 1j * D[:, 0], D[:, 1], 1j * D[:, 1]
    claim_lin(e, W, PSI, msg)


def pick_c(e, name):
    return Clifford(e.choose(name, list(range(24))))


# ---------------------------------------------------------------- P01
def h_cl_mul(e):
    a, b = pick_c(e, "a"), pick_c(e, "b")
    e.reached()
    c = a @ b
    if e.mode == "concrete":
        e.notes.append((a.value, b.value, c.value))
    same_action(e, c.matrix, a.matrix @ b.matrix, "product of Cliffords is not the product of their matrices")
    e.check((adj_eq(a, b)) == (a is b), "two different Clifford gates denote the same operation")


def adj_eq(a, b):
    return bool(np.allclose(adjoint_rep(a.matrix), adjoint_rep(b.matrix), atol=1e-9))


def h_cl_one(e):
    a = pick_c(e, "a")
    e.reached()
    e.check(bool(np.allclose(a.matrix @ a.matrix.conj().T, np.eye(2), atol=1e-9)), "matrix is not unitary")
    same_action(e, a.conj.matrix, a.matrix.conj().T, "conj is not the inverse")
    hs = a.hsz
    e.check(len(hs) >= 1 and all(g in (Clifford.I, Clifford.H, Clifford.S, Clifford.Z) for g in hs), "hsz uses other gates")
    m = np.eye(2)
    for g in hs:
        m = m @ g.matrix
    same_action(e, a.matrix, m, "hsz decomposition differs from the gate")
    m = np.eye(2)
    for op in a.qasm3:
        e.check(op in QASM, "unknown OpenQASM gate")
        m = QASM[op] @ m
    same_action(e, a.matrix, m, "OpenQASM decomposition differs from the gate")
    e.check(eval(repr(a), {"Clifford": Clifford}) is a, "repr does not evaluate to the gate")  # noqa: S307
    for n in ("I", "X", "Y", "Z", "S", "SDG", "H"):
        if getattr(Clifford, n) is a:
            same_action(e, a.matrix, MX[n], f"named gate {n} has another matrix")
    # the Clifford permutes Pauli observables
    T = adjoint_rep(a.matrix)
    e.check(bool(np.allclose(np.abs(T) @ np.ones(4), 1, atol=1e-9) and np.allclose(np.abs(T).max(1), 1, atol=1e-9)),
            "matrix is not a Clifford gate")
    e.check(Clifford.try_from_matrix(a.matrix) is a, "try_from_matrix does not recognise the gate's own matrix")


def h_cl_measure(e):
    a = pick_c(e, "a")
    p = Pauli(e.choose("sym", list(IXYZ_VALUES)), e.choose("unit", list(ComplexUnit)))
    e.reached()
    q = a.measure(p)
    same_linear(e, q.matrix, a.matrix.conj().T @ p.matrix @ a.matrix, "measure(P) is not C^dag P C")
    if p.symbol != I:
        r = a.measure_axis(p.symbol)
        same_linear(e, r.matrix, a.matrix.conj().T @ Pauli(p.symbol).matrix @ a.matrix, "measure_axis is not C^dag A C")


def h_cl_domains(e):
    from graphix.clifford import Domains

    a = pick_c(e, "a")
    U = [7, 0, 3]
    s, t = symset("s", U), symset("t", U)
    s0, t0 = s.copy(), t.copy()
    inverse = e.choose("inv", [0, 1])
    g = a.conj if inverse else a
    d = g.commute_domains(Domains(s, t))
    e.reached()
    oc = Outc(e)
    outs = {n: oc(n) for n in U}

    def run(order):
        if e.mode == "concrete":
            st = sem.Dense([0])
            for k, (x, z) in order:
                if k == "C":
                    st.op1(0, g.matrix)
                else:
                    par = lambda D: sum(outs[n].const() for n in D) % 2
                    if par(z):
                        st.op1(0, MX["Z"])
                    if par(x):
                        st.op1(0, MX["X"])
            return st.result([0])
        st = sem.PTM([0])
        for k, (x, z) in order:
            if k == "C":
                st.perm(0, sem.clifford_perm(g.matrix))
            else:
                st.flip(0, 2, sem.domain_anf(z, outs))
                st.flip(0, 1, sem.domain_anf(x, outs))
        return st.result([0])

    A = run([("C", (None, None)), ("P", (s0, t0))])
    B = run([("P", (d.s_domain, d.t_domain)), ("C", (None, None))])
    sem.check_equal(e, A, B, "X^s Z^t C differs from C X^s' Z^t'")
    e.check(s == s0, "commute_domains changed its argument")
    e.check(t == t0, "commute_domains changed its argument")


class Scaled:
    """k * lambda with lambda an arbitrary non-zero complex number (symbolic: never instantiated)."""

    def __init__(self, k):
        self.k = complex(k)

    def __truediv__(self, o):
        return self.k / o.k if isinstance(o, Scaled) else Scaled(self.k / o)

    def __mul__(self, o):
        return Scaled(self.k * o)

    __rmul__ = __mul__

    def __abs__(self):
        return ScaledAbs(abs(self.k))


class ScaledAbs(float):
    """|k| * |lambda| with |lambda| > 0: only comparisons with zero are meaningful."""

    def __new__(cls, k):
        return float.__new__(cls, 1.0 if k > 1e-12 else 0.0)


def h_cl_matrix(e):
    a = pick_c(e, "a")
    kind = e.choose("kind", ["scaled", "nonclifford", "shape"])
    e.reached()
    if kind == "scaled":
        if e.mode == "concrete":
            lam = complex(*[float(e.model.get(n, d)) for n, d in (("l.re", 0.31), ("l.im", -0.77))])
            mat = a.matrix * lam
            r = Clifford.try_from_matrix(mat)
        else:
            # exact symbolic execution for every non-zero scalar: entries are k*lambda
            mat = np.array([[Scaled(x) for x in row] for row in a.matrix], dtype=object)
            orig = np.allclose

            def allclose(x, y, *ar, **kw):
                c = lambda w: np.array(w, dtype=complex) if getattr(w, "dtype", None) == object else w
                return orig(c(x), c(y), *ar, **kw)

            np.allclose = allclose
            try:
                r = Clifford.try_from_matrix(mat)
            finally:
                np.allclose = orig
        e.check(r is a, "a gate multiplied by a scalar is not recognised")
    elif kind == "nonclifford":
        th = e.choose("th", [0.1, 0.25, 0.3, 1 / 3, 0.75, 1.7])
        ax = e.choose("ax", ["X", "Y", "Z"])
        R = math.cos(math.pi * th / 2) * MX["I"] - 1j * math.sin(math.pi * th / 2) * MX[ax]
        e.check(Clifford.try_from_matrix(a.matrix @ R) is None, "a non-Clifford unitary was recognised")
    else:
        e.check(Clifford.try_from_matrix(np.eye(4)) is None, "a 4x4 matrix was recognised")


def h_cl_graph(e):
    a = pick_c(e, "a")
    og = a.to_opengraph()
    e.check(len(og.input_nodes) == 1 and len(og.output_nodes) == 1, "wrong interface")
    e.check(not any(og.output_cliffords.values()) if hasattr(og, "output_cliffords") and og.output_cliffords else True,
            "graph keeps a local Clifford")
    p = og.to_pattern()
    e.reached()
    oc = Outc(e)
    B = sem.run_pattern(e, p, oc)
    if e.mode == "concrete":
        st = sem.Dense([0])
        st.op1(0, a.matrix)
        A = st.result([0])
        n = sum(1 for c in p if c.kind.name == "M")
        sem.check_equal(e, A, B * 2**n if False else B / max(abs(B.trace()), 1e-12) * abs(A.trace()),
                        "graph-state implementation differs from the gate")
    else:
        st = sem.PTM([0])
        st.perm(0, sem.clifford_perm(a.matrix))
        A = st.result([0])
        sem.check_equal(e, A, B, "graph-state implementation differs from the gate")


def jobs_P01(tier):
    return [
        Job("mul", h_cl_mul, {}, "all 24x24 pairs, every input operator"),
        Job("one", h_cl_one, {}, "all 24 gates, every input operator"),
        Job("measure", h_cl_measure, {}, "24 gates, 16 Paulis"),
        Job("domains", h_cl_domains, {}, "24 gates and their inverses, every pair of domains over 3 nodes, every outcome, every input"),
        Job("matrix", h_cl_matrix, {}, "24 gates times every non-zero scalar; 18 non-Clifford rotations composed with each gate"),
        Job("graph", h_cl_graph, {}, "24 gates, every branch, every input"),
    ]


# ---------------------------------------------------------------- P02
def bvec(e, m):
    """Bloch vector {pauli index: TPoly | float}."""
    if e.mode == "concrete":
        return {k: float(v) for k, v in sem._np_bloch(m).items()}
    return sem.bloch(m)


def conj_bvec(e, v, C):
    """Bloch vector of C^dag (v.sigma) C."""
    T = adjoint_rep(C.matrix.conj().T)
    r = {}
    for p, w in v.items():
        for q in (1, 2, 3):
            if abs(T[q, p]) > 1e-9:
                r[q] = w * float(round(T[q, p]))
    return r


def same_bvec(e, a, b, msg):
    if e.mode == "concrete":
        for p in (1, 2, 3):
            e.check(abs(a.get(p, 0) - b.get(p, 0)) < 1e-7, msg)
        return
    A = {((p,), 0): {ZERO: w} for p, w in a.items()}
    B = {((p,), 0): {ZERO: w} for p, w in b.items()}
    trig_equal(e, A, B, msg)


def trig_equal(e, A, B, msg):
    """z3 decides the trigonometric identity: cos/sin of each atom are reals with c^2+s^2=1."""
    e.stats.claims += 1
    zs = {}
    extra = []
    dis = []

    def zc(atom):
        if atom not in zs:
            c, s = z3.Real(f"cos.{atom}"), z3.Real(f"sin.{atom}")
            zs[atom] = (c, s)
            extra.append(c * c + s * s == 1)
        return zs[atom]

    for key in set(A) | set(B):
        d = TP(A.get(key)) - TP(B.get(key))
        if not d.d:
            continue
        for part in ("real", "imag"):
            tot = []
            for mono, v in d.d.items():
                w = getattr(complex(v), part)
                if abs(w) < 1e-12:
                    continue
                t = sem.rv(w)
                for atom, ec, es in mono:
                    c, s = zc(atom)
                    for _ in range(ec):
                        t = t * c
                    for _ in range(es):
                        t = t * s
                tot.append(t)
            if tot:
                x = z3.Sum(tot)
                dis.append(z3.Or(x > sem.rv(1e-7), x < -sem.rv(1e-7)))
    if not dis:
        e.stats.folded += 1
        return
    e.check_z(z3.Not(z3.Or(*dis)), msg, extra=tuple(extra))


def TP(d):
    if not d:
        return proxy.TPoly({})
    (w,) = d.values()
    return w if isinstance(w, proxy.TPoly) else proxy.TPoly.const(w)


def any_angle(e, name, lo, hi):
    return real(name, lo, hi)


def h_me_clifford(e, lo=-2, hi=4):
    C = pick_c(e, "C")
    pl = Plane[e.choose("plane", PLANES)]
    a = any_angle(e, "a", lo, hi)
    m = BlochMeasurement(a, pl)
    r = m.clifford(C)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((m, C, r))
    e.check(isinstance(r, BlochMeasurement), "type changed")
    same_bvec(e, bvec(e, r), conj_bvec(e, bvec(e, m), C), "clifford() does not conjugate the observable")
    e.check(r.plane is pl.clifford(C), "plane of the result differs from the plane's image")
    if lo >= 0 and hi <= 2:
        e.check(sand(r.angle >= 0, r.angle < 2) if type(r.angle) is Real else 0 <= r.angle < 2, "angle left [0, 2)")


def h_me_pauli(e):
    C = pick_c(e, "C")
    ax = Axis[e.choose("ax", ["X", "Y", "Z"])]
    sg = e.choose("sg", list(Sign))
    m = PauliMeasurement(ax, sg)
    e.reached()
    r = m.clifford(C)
    e.check(isinstance(r, PauliMeasurement), "type changed")
    same_bvec(e, bvec(e, r), conj_bvec(e, bvec(e, m), C), "Pauli clifford() does not conjugate the observable")
    b = m.to_bloch()
    same_bvec(e, bvec(e, b), bvec(e, m), "to_bloch changes the observable")
    e.check(isinstance(b, BlochMeasurement), "to_bloch type")
    e.check(m.to_pauli_or_none() == m and m.to_pauli_or_bloch() == m, "Pauli measurement not recognised as itself")
    e.check(b.to_pauli_or_none() == m, "Bloch form not recognised")
    same_bvec(e, bvec(e, -m), {k: -v for k, v in bvec(e, m).items()}, "negation")
    e.check(+m == m and -(-m) == m, "sign operators")
    same_linear(e, m.to_pauli().matrix, sem.PM[sem.AX[ax.name]] * (1 if sg is Sign.PLUS else -1), "to_pauli")
    e.check(ax.clifford(C) is r.axis, "Axis.clifford differs from the measurement's axis")
    e.check(len(set(PauliMeasurement)) == 6 and m in set(PauliMeasurement), "iteration")
    try:
        m.downcast_bloch()
        e.fail("downcast_bloch accepted a Pauli measurement")
    except TypeError:
        pass


def h_me_recognise(e, lo=-3, hi=5):
    pl = Plane[e.choose("plane", PLANES)]
    a = any_angle(e, "a", lo, hi)
    m = BlochMeasurement(a, pl)
    r = m.to_pauli_or_none()
    e.reached()
    if e.mode == "concrete":
        e.notes.append((m, r))
    if r is None:
        # at no multiple of 1/2, and not within 5e-10 relative of a non-zero one
        for k in range(2 * lo - 1, 2 * hi + 2):
            if k == 0:
                e.check(a != 0, "angle 0 not recognised")
            else:
                dlt = abs(k) * 5e-10
                e.check(snot(sand(2 * a >= k - dlt, 2 * a <= k + dlt)) if type(a) is Real else not abs(2 * a - k) <= dlt,
                        "an angle equal to a multiple of pi/2 is not recognised as Pauli")
        b = m.to_pauli_or_bloch()
        e.check(b is m or b == m, "to_pauli_or_bloch changed a non-Pauli measurement")
        return
    e.check(isinstance(r, PauliMeasurement), "not a Pauli measurement")
    e.check(m.to_pauli_or_bloch() == r, "to_pauli_or_bloch disagrees with to_pauli_or_none")
    # the recognised angle is close to k/2 whose observable is r
    alts = []
    for k in range(2 * lo - 1, 2 * hi + 2):
        v = sem._np_bloch(BlochMeasurement(k / 2, pl))
        w = sem._np_bloch(r)
        if all(abs(v.get(p, 0) - w.get(p, 0)) < 1e-9 for p in (1, 2, 3)):
            dlt = abs(k) * 2e-9
            alts.append(sand(2 * a >= k - dlt, 2 * a <= k + dlt) if type(a) is Real else abs(2 * a - k) <= dlt)
    e.check(sor(*alts) if any(hasattr(x, "_sym") for x in alts) else any(alts),
            "recognised as a Pauli measurement of another observable")


def h_me_isclose(e):
    pl, pl2 = Plane[e.choose("p1", PLANES)], Plane[e.choose("p2", PLANES)]
    a, b = any_angle(e, "a", -2, 4), any_angle(e, "b", -2, 4)
    m, n = BlochMeasurement(a, pl), BlochMeasurement(b, pl2)
    r = m.isclose(n, rel_tol=1e-9, abs_tol=1e-6)
    e.reached()
    if pl is not pl2:
        e.check(not r, "measurements in different planes are close")
        return
    d = a - b
    rr = r if hasattr(r, "_sym") else bool(r)
    if type(d) is Real:
        e.check(simp(rr, sand(d <= 1.1e-6, d >= -1.1e-6)), "far angles reported close")
        e.check(simp(sand(d <= 9e-7, d >= -9e-7), rr), "close angles reported apart")
    else:
        e.check((not rr) or abs(d) <= 1.1e-6, "far angles reported close")
        e.check(abs(d) > 9e-7 or rr, "close angles reported apart")
    e.check(not m.isclose(PauliMeasurement(pl.cos)), "a Bloch measurement is close to a Pauli one")
    e.check(m.to_bloch() is m and m.downcast_bloch() is m and m.to_plane() is pl and m.to_plane_or_axis() is pl, "conversions")


def within(a, b, rel, ab, slack):
    """|a - b| <= slack * max(rel * max(|a|, |b|), ab)."""
    d = a - b
    return sor(*[sand(d <= slack * t, -1 * d <= slack * t) for t in (ab, rel * a, -rel * a, rel * b, -rel * b)])


TOLS = ((1e-9, 0.125), (0.0625, 0.0), (0.03125, 0.0625))


def h_me_tol(e, lo=-1, hi=2):
    """The tolerances are used as math.isclose does, in this order or by name."""
    pl = Plane[e.choose("plane", PLANES)]
    a = any_angle(e, "a", lo, hi)
    rel, ab = e.choose("tol", list(TOLS))
    how = e.choose("how", ["pos", "kw", "bloch", "isclose", "iskw"])
    m = BlochMeasurement(a, pl)
    e.reached()
    if e.mode == "concrete":
        e.notes.append((m, rel, ab, how))
    if how in ("isclose", "iskw"):
        b = any_angle(e, "b", lo, hi)
        n = BlochMeasurement(b, pl)
        r = m.isclose(n, rel, ab) if how == "isclose" else m.isclose(n, abs_tol=ab, rel_tol=rel)
        rr = r if hasattr(r, "_sym") else bool(r)
        e.check(simp(rr, within(a, b, rel, ab, 1.001)), "far angles reported close")
        e.check(simp(within(a, b, rel, ab, 0.999), rr), "close angles reported apart")
        return
    if how == "pos":
        r = m.to_pauli_or_none(rel, ab)
    elif how == "kw":
        r = m.to_pauli_or_none(abs_tol=ab, rel_tol=rel)
    else:
        r = m.to_pauli_or_bloch(rel, ab)
        if not isinstance(r, PauliMeasurement):
            e.check(r is m or r == m, "to_pauli_or_bloch changed a non-Pauli measurement")
            r = None
    ks = range(2 * lo, 2 * hi + 1)
    near = {k: sand(2 * a >= k - 0.501, 2 * a <= k + 0.501) for k in ks}
    if r is None:
        for k in ks:
            e.check(snot(sand(near[k], within(2 * a, k, rel, ab, 0.999))), "an angle within the tolerance is not recognised as Pauli")
        return
    w = sem._np_bloch(r)
    alts = [False]
    for k in ks:
        v = sem._np_bloch(BlochMeasurement(k / 2, pl))
        if all(abs(v.get(p, 0) - w.get(p, 0)) < 1e-9 for p in (1, 2, 3)):
            alts.append(sand(near[k], within(2 * a, k, rel, ab, 1.001)))
    e.check(sor(*alts), "recognised as a Pauli measurement out of the tolerance, or as another one")


def simp(a, b):
    if hasattr(a, "_sym") or hasattr(b, "_sym"):
        return proxy.simplies(a, b)
    return (not a) or b


def h_me_plane(e):
    pl = Plane[e.choose("plane", PLANES)]
    a = any_angle(e, "a", -2, 4)
    e.reached()
    v = pl.polar(a)
    ref = bvec(e, BlochMeasurement(a, pl))
    got = {(1, 3, 2)[p]: x for p, x in enumerate(v) if not (isinstance(x, (int, float)) and x == 0)}
    if e.mode != "concrete":
        got = {p: (x if isinstance(x, proxy.TPoly) else proxy.TPoly.const(x)) for p, x in got.items()}
    same_bvec(e, got, ref, "polar() is not the measured axis")
    e.check({pl.cos, pl.sin} == set(pl.axes) and pl.orth not in pl.axes, "axes of a plane")
    e.check([ax.name for ax in pl.axes] == list(pl.name), "the axes of a plane, in the order of its name")
    x, y = e.choose("axes", [(x, y) for x in Axis for y in Axis])
    if x is y:
        try:
            Plane.from_axes(x, y)
            e.fail("from_axes accepted twice the same axis")
        except ValueError:
            pass
    else:
        e.check(set(Plane.from_axes(x, y).axes) == {x, y}, "from_axes")
    C = pick_c(e, "C")
    e.check(set(pl.clifford(C).axes) == {ax.clifford(C) for ax in pl.axes}, "Plane.clifford")


def h_me_command(e):
    """M.clifford(C) is 'C then M' for symbolic domains, outcomes and input state."""
    C = pick_c(e, "C")
    m = gen_meas(e, "m", PLANES + PAULIS)
    U = [7, 3]
    s, t = symset("s", U), symset("t", U)
    M1 = command.M(0, m, s, t)
    s0, t0 = s.copy(), t.copy()
    M2 = M1.clifford(C)
    e.reached()
    oc = Outc(e)
    res = {n: oc(n) for n in U}

    class P:
        def __init__(self, cmds):
            self.c = cmds
            self.input_nodes = [0]
            self.output_nodes = []

        def __iter__(self):
            return iter(self.c)

    A = sem.run_pattern(e, P([command.C(0, C), command.M(0, m, s0, t0)]), oc, results=res)
    B = sem.run_pattern(e, P([M2]), oc, results=res)
    sem.check_equal(e, A, B, "M.clifford(C) is not C followed by M")
    e.check(M1.measurement is m, "command modified")
    sem.check_equal(e, sem.run_pattern(e, P([M1]), oc, results=res), sem.run_pattern(e, P([command.M(0, m, s0, t0)]), oc, results=res),
                    "command modified")


def jobs_P02(tier):
    return [
        Job("clifford", h_me_clifford, dict(lo=-2, hi=4), "24 gates, 3 planes, every angle in [-2, 4)"),
        Job("clifford01", h_me_clifford, dict(lo=0, hi=2), "24 gates, 3 planes, every angle in [0, 2), range of the result"),
        Job("pauli", h_me_pauli, {}, "24 gates, 6 Pauli measurements"),
        Job("recognise", h_me_recognise, dict(lo=-3, hi=5), "3 planes, every angle in [-3, 5)"),
        Job("isclose", h_me_isclose, {}, "every pair of angles in [-2, 4), all planes"),
        Job("tol", h_me_tol, {}, "every (pair of) angles in [-1, 2), three pairs of tolerances"),
        Job("plane", h_me_plane, {}, "every angle in [-2, 4), all planes, gates"),
        Job("command", h_me_command, {}, "24 gates, every angle/Pauli, every domain pair over 2 nodes, every outcome and input"),
    ]


# ---------------------------------------------------------------- P03
def pick_p(e, n):
    return Pauli(e.choose(f"{n}.sym", list(IXYZ_VALUES)), e.choose(f"{n}.unit", list(ComplexUnit)))


def pmat(p):
    return complex(0, 1) ** p.unit.value * MX[p.symbol.name]


def h_pa_mul(e):
    p, q = pick_p(e, "p"), pick_p(e, "q")
    e.reached()
    r = p @ q
    e.check(isinstance(r, Pauli), "product is not a Pauli")
    same_linear(e, p.matrix, pmat(p), "matrix of a Pauli")
    same_linear(e, r.matrix, pmat(p) @ pmat(q), "product of Paulis differs from the product of the matrices")
    same_linear(e, (-p).matrix, -pmat(p), "negation")
    e.check((p == q) == bool(np.allclose(pmat(p), pmat(q))), "equality")
    e.check(p != q or hash(p) == hash(q), "hash")
    e.check(eval(repr(p), {"Pauli": Pauli}) == p, "repr does not evaluate to the Pauli")  # noqa: S307
    e.check((str(p) == str(q)) == (p == q), "two Paulis print alike")


def h_pa_assoc(e):
    p, q, r = (Pauli(e.choose(f"{n}.sym", list(IXYZ_VALUES)), e.choose(f"{n}.unit", [ComplexUnit.ONE, ComplexUnit.J])) for n in "pqr")
    e.reached()
    e.check((p @ q) @ r == p @ (q @ r), "product is not associative")


UNITS = [1, -1, 1j, -1j, 1.0, -1.0, complex(1, 0), np.complex128(-1j), np.int64(-1), np.float64(1.0), ComplexUnit.ONE, ComplexUnit.J,
         ComplexUnit.MINUS_ONE, ComplexUnit.MINUS_J, Sign.PLUS, Sign.MINUS]
NONUNITS = [0, 2, 1 + 1j, 0.5, -2j]


def h_pa_unit(e):
    p = pick_p(e, "p")
    i = e.choose("u", list(range(len(UNITS) + len(NONUNITS))))
    u = (UNITS + NONUNITS)[i]
    e.reached()
    if i < len(UNITS):
        c = complex(u)
        same_linear(e, (p * u).matrix, pmat(p) * c, "P*u")
        if not type(u).__module__.startswith("numpy"):
            same_linear(e, (u * p).matrix, pmat(p) * c, "u*P")
        cu = ComplexUnit.from_or_none(u)
        e.check(cu is not None and abs(complex(cu) - c) < 1e-12, "from_or_none")
        e.check(abs(complex(p.unit * cu) - complex(p.unit) * c) < 1e-12, "product of units")
        e.check(abs(complex(-cu) + c) < 1e-12, "negation of a unit")
        if type(u) is not Sign and not type(u).__module__.startswith("numpy"):
            e.check(abs(complex(p.unit * u) - complex(p.unit) * c) < 1e-12 and abs(complex(u * p.unit) - complex(p.unit) * c) < 1e-12, "product of a unit and a number")
        e.check(ComplexUnit.from_properties(sign=cu.sign, is_imag=cu.is_imag) is cu, "unit properties")
        e.check(complex(str(cu).replace("1j", "1j")) == complex(cu), "printed unit")
        e.check(cu.is_imag == (abs(c.real) < 0.5) and (cu.sign is Sign.PLUS) == (c.real + c.imag > 0), "unit properties")
    else:
        e.check(ComplexUnit.from_or_none(u) is None, "a non-unit was recognised as a unit")
        try:
            p * u
            e.fail("Pauli multiplied by a non-unit")
        except TypeError:
            pass


def h_pa_eigen(e):
    p = pick_p(e, "p")
    b = e.choose("b", [0, 1])
    e.reached()
    v = p.eigenstate(b)
    psi = np.asarray(v.to_statevector_numpy()).reshape(2)
    m = MX[p.symbol.name]
    lam = 1 if p.symbol == I else (-1) ** b
    e.check(bool(np.allclose(m @ psi, lam * psi, atol=1e-9) and abs(np.linalg.norm(psi) - 1) < 1e-9), "eigenstate")
    rho = v.to_densitymatrix_numpy()
    e.check(bool(np.allclose(rho, np.outer(psi, psi.conj()))), "density matrix of a state")
    if p.symbol != I:
        e.check(p.axis is p.symbol and Pauli.from_axis(p.axis) == Pauli(p.symbol), "axis")
    else:
        try:
            p.axis
            e.fail("identity has an axis")
        except ValueError:
            pass
    try:
        p.eigenstate(2)
        e.fail("eigenstate(2) accepted")
    except ValueError:
        pass
    e.check(len(list(Pauli)) == 16 and len(set(Pauli)) == 16 and len(list(Pauli.iterate(symbol_only=True))) == 4, "iteration")


def h_pa_sign(e):
    s, t = e.choose("s", list(Sign)), e.choose("t", list(Sign))
    x = real("x", -8, 8)
    e.reached()
    vs, vt = (1 if q is Sign.PLUS else -1 for q in (s, t))
    e.check(int(s) == vs and float(s) == vs and complex(s) == vs, "value of a sign")
    e.check(int(s * t) == vs * vt and int(-s) == -vs, "sign arithmetic")
    d = (s * x) - x * vs
    d2 = (x * s) - x * vs
    e.check(d == 0, "sign times a real")
    e.check(d2 == 0, "real times a sign")
    bb = bit("b")
    e.check((Sign.plus_if(bb) is Sign.PLUS) == bool(bb) and (Sign.minus_if(bb) is Sign.MINUS) == bool(bb), "plus_if/minus_if")
    for k in (3, 2.5, 1j):
        e.check(s * k == vs * k and k * s == vs * k, "sign times a number")
    e.check(str(s) == ("+" if vs == 1 else "-"), "printed sign")


def jobs_P03(tier):
    return [
        Job("mul", h_pa_mul, {}, "all 16x16 products on every state"),
        Job("assoc", h_pa_assoc, {}, "all triples up to sign"),
        Job("unit", h_pa_unit, {}, "16 Paulis, 21 unit / non-unit operands of every numeric type"),
        Job("eigen", h_pa_eigen, {}, "16 Paulis, both eigenvalues"),
        Job("sign", h_pa_sign, {}, "both signs, every real factor"),
    ]


CHECKS = {
    "P01": dict(jobs=jobs_P01, quick_s=40, thorough_s=120, outside="matrices further than rounding error from a Clifford gate are only tried on 432 instances"),
    "P02": dict(jobs=jobs_P02, quick_s=40, thorough_s=200, outside="angles outside [-3, 5); float rounding of angle arithmetic"),
    "P03": dict(jobs=jobs_P03, quick_s=30, thorough_s=60, outside=""),
}
