"""Reference semantics of command sequences, independent of graphix' simulators.

``ptm_run`` interprets a command list on Pauli expectation values: every weight is a
trigonometric polynomial in the measurement angles, every sign a GF(2) polynomial in the
outcomes and in the (symbolic) domain membership bits.  ``dense_run`` is an independent
numpy interpreter for concrete patterns, used when a counterexample is replayed.
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import ONE, ZERO, Anf, mk, z3
from .proxy import Bit, Real, SymSet, TPoly, anf_of, trig_poly, frac

SQ = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
# Pauli index p = (x, z): 0=I 1=X(x) 2=Z(z) 3=Y(x,z)
PM = [SQ["I"], SQ["X"], SQ["Z"], SQ["Y"]]
AX = {"X": 1, "Z": 2, "Y": 3}
PLANES = {"XY": (1, 3), "YZ": (2, 3), "XZ": (2, 1)}  # (cos axis, sin axis)


def bloch(meas):
    """Bloch vector of a measurement as {pauli index: TPoly} (own convention)."""
    name = type(meas).__name__
    if hasattr(meas, "axis"):
        s = -1 if meas.sign.value == -1 else 1
        return {AX[meas.axis.name]: TPoly.const(s)}
    if hasattr(meas, "angle"):
        c, s = PLANES[meas.plane.name]
        cc, ss = cos_sin(meas.angle)
        r = {}
        if cc.d:
            r[c] = cc
        if ss.d:
            r[s] = ss
        return r
    raise TypeError(name)


def cos_sin(a):
    """cos(pi a), sin(pi a) as TPoly."""
    if type(a) is Real:
        return trig_poly(a.t, a.c, "c"), trig_poly(a.t, a.c, "s")
    f = float(a)
    q = Fraction(f).limit_denominator(1 << 10)
    if abs(float(q) - f) < 1e-12:
        return trig_poly({}, q, "c"), trig_poly({}, q, "s")
    return TPoly.const(math.cos(math.pi * f)), TPoly.const(math.sin(math.pi * f))


def state_bloch(st):
    """Bloch vector of a preparation (own convention: polar coordinates of the plane)."""
    if hasattr(st, "plane"):
        c, s = PLANES[st.plane.name]
        cc, ss = cos_sin(st.angle)
        r = {}
        if cc.d:
            r[c] = cc
        if ss.d:
            r[s] = ss
        return r
    v = np.asarray(st.to_statevector_numpy(), dtype=complex).reshape(2)
    rho = np.outer(v, v.conj())
    return {p: TPoly.const(np.trace(PM[p] @ rho).real) for p in (1, 2, 3) if abs(np.trace(PM[p] @ rho)) > 1e-14}


_cl = {}


def clifford_perm(mat):
    """p -> (p', sign) with C P C^dag = sign P'."""
    key = mat.tobytes()
    r = _cl.get(key)
    if r is None:
        r = []
        for p in range(4):
            q = mat @ PM[p] @ mat.conj().T
            for p2 in range(4):
                ov = np.trace(PM[p2] @ q).real / 2
                if abs(abs(ov) - 1) < 1e-9:
                    r.append((p2, 0 if ov > 0 else 1))
                    break
            else:
                raise ValueError("not Clifford")
        _cl[key] = r
    return r


# CZ conjugation on pairs: computed from matrices once
_CZ = np.diag([1, 1, 1, -1])
CZ2 = {}
for _a in range(4):
    for _b in range(4):
        _q = _CZ @ np.kron(PM[_a], PM[_b]) @ _CZ
        for _c in range(4):
            for _d in range(4):
                _ov = np.trace(np.kron(PM[_c], PM[_d]) @ _q).real / 4
                if abs(abs(_ov) - 1) < 1e-9:
                    CZ2[_a, _b] = (_c, _d, 0 if _ov > 0 else 1)


class SemError(Exception):
    """The command sequence is not meaningful (uses absent qubits, future outcomes...)."""


class PTM:
    """State: {(paulis tuple per live node, input key, sign Anf): TPoly}."""

    def __init__(self, inputs):
        self.nodes = list(inputs)
        self.idx = {n: i for i, n in enumerate(self.nodes)}
        self.outcomes = {}
        self.nin = len(self.nodes)
        t = {}
        for k in range(4 ** self.nin):
            ps = []
            kk = k
            for _ in range(self.nin):
                ps.append(kk & 3)
                kk >>= 2
            t[(tuple(ps), k, ZERO)] = TPoly.const(1)
        self.t = t
        self.scale = 0  # power of 1/2 from measurements

    def _add(self, d, ps, ink, sg, w):
        if 0 in sg.m:
            sg = sg.neg()
            w = -w
        key = (ps, ink, sg)
        o = d.get(key)
        d[key] = w if o is None else o + w

    def _ix(self, n):
        if n not in self.idx:
            raise SemError(f"node {n!r} not present")
        return self.idx[n]

    def prep(self, n, bv):
        if n in self.idx:
            raise SemError(f"node {n!r} prepared twice")
        self.idx[n] = len(self.nodes)
        self.nodes.append(n)
        d = {}
        for (ps, ink, sg), w in self.t.items():
            d[(ps + (0,), ink, sg)] = w
            for p, v in bv.items():
                d[(ps + (p,), ink, sg)] = w * v
        self.t = d

    def cz(self, u, v):
        i, j = self._ix(u), self._ix(v)
        if i == j:
            raise SemError("self edge")
        d = {}
        for (ps, ink, sg), w in self.t.items():
            a, b, s = CZ2[ps[i], ps[j]]
            l = list(ps)
            l[i], l[j] = a, b
            self._add(d, tuple(l), ink, sg, -w if s else w)
        self.t = d

    def perm(self, n, table):
        i = self._ix(n)
        d = {}
        for (ps, ink, sg), w in self.t.items():
            p, s = table[ps[i]]
            l = list(ps)
            l[i] = p
            self._add(d, tuple(l), ink, sg, -w if s else w)
        self.t = d

    def flip(self, n, which, anf):
        """Apply X^anf (which=1) or Z^anf (which=2)."""
        i = self._ix(n)
        if not anf.m:
            return
        d = {}
        for (ps, ink, sg), w in self.t.items():
            p = ps[i]
            anti = (p & 2) if which == 1 else (p & 1)
            self._add(d, ps, ink, sg ^ anf if anti else sg, w)
        self.t = d

    def measure(self, n, bv, outcome):
        i = self._ix(n)
        d = {}
        for (ps, ink, sg), w in self.t.items():
            p = ps[i]
            l = ps[:i] + ps[i + 1:]
            if p == 0:
                self._add(d, l, ink, sg, w)
            else:
                v = bv.get(p)
                if v is not None and v.d:
                    self._add(d, l, ink, sg ^ outcome, w * v)
        self.t = {k: w for k, w in d.items() if w.d}
        self.nodes.pop(i)
        self.idx = {n: k for k, n in enumerate(self.nodes)}
        self.scale += 1

    # -------------------------------------------------- gates (circuit reference)
    def unitary(self, ns, entries):
        """Apply a PTM given as {(pin tuple): {(pout tuple): TPoly}}."""
        ii = [self._ix(n) for n in ns]
        d = {}
        for (ps, ink, sg), w in self.t.items():
            pin = tuple(ps[i] for i in ii)
            for pout, v in entries[pin].items():
                l = list(ps)
                for i, p in zip(ii, pout):
                    l[i] = p
                self._add(d, tuple(l), ink, sg, w * v)
        self.t = {k: w for k, w in d.items() if w.d}

    def result(self, outputs):
        """{(out paulis, in key): {sign Anf: TPoly}} with outputs in the given order."""
        outputs = list(outputs)
        if sorted(map(str, outputs)) != sorted(map(str, self.nodes)):
            raise SemError(f"outputs {outputs} but live nodes {self.nodes}")
        perm = [self.idx[n] for n in outputs]
        r = {}
        for (ps, ink, sg), w in self.t.items():
            if not w.d:
                continue
            key = (tuple(ps[i] for i in perm), ink)
            dd = r.setdefault(key, {})
            dd[sg] = dd[sg] + w if sg in dd else w
        return r


def domain_anf(domain, outcomes):
    a = ZERO
    if type(domain) is SymSet:
        for x in domain.m:
            mem = domain.mem(x)
            if not mem.m:
                continue
            if x not in outcomes:
                if E.CUR.decide_anf(mem):
                    raise SemError(f"domain refers to unmeasured node {x!r}")
                continue
            a = a ^ (mem & outcomes[x])
        return a
    for x in domain:
        if x not in outcomes:
            raise SemError(f"domain refers to unmeasured node {x!r}")
        a = a ^ outcomes[x]
    return a


def ptm_pattern(pattern, outcome, inputs=None, outputs=None, results=None, st=None):
    """Interpret a pattern: outcome: node -> Anf giving the branch."""
    st = st or PTM(pattern.input_nodes if inputs is None else inputs)
    oc = {k: mk(int(v)) if not isinstance(v, Anf) else v for k, v in (results or {}).items()}
    for cmd in pattern:
        k = cmd.kind.name
        if k == "N":
            st.prep(cmd.node, state_bloch(cmd.state))
        elif k == "E":
            st.cz(*cmd.nodes)
        elif k == "C":
            st.perm(cmd.node, clifford_perm(cmd.clifford.matrix))
        elif k == "X":
            st.flip(cmd.node, 1, domain_anf(cmd.domain, oc))
        elif k == "Z":
            st.flip(cmd.node, 2, domain_anf(cmd.domain, oc))
        elif k == "M":
            s = domain_anf(cmd.s_domain, oc)
            t = domain_anf(cmd.t_domain, oc)
            st.flip(cmd.node, 1, s)
            st.flip(cmd.node, 2, t)
            o = outcome(cmd.node)
            st.measure(cmd.node, bloch(cmd.measurement), o)
            oc[cmd.node] = o
        else:
            raise SemError(f"command {k}")
    st.outcomes = oc
    return st.result(pattern.output_nodes if outputs is None else outputs)


# --------------------------------------------------------------- comparison
TOL = 1e-7


def _coef_exprs(r, keys_signs):
    return r


def maps_differ(e, A, B, scale=1.0):
    """z3 Bool: A != scale * B somewhere (under the outcome/domain bits)."""
    dis = []
    for key in set(A) | set(B):
        a, b = A.get(key, {}), B.get(key, {})
        # per trigonometric monomial, a signed sum of reals
        mons = {}
        for src, f in ((a, 1.0), (b, -scale)):
            for sg, w in src.items():
                sg2 = e.reduce(sg)
                neg = 0 in sg2.m
                if neg:
                    sg2 = sg2.neg()
                for m, v in w.d.items():
                    for part, vv in (("r", v.real), ("i", v.imag)):
                        if abs(vv) > 1e-12:
                            dd = mons.setdefault((m, part), {})
                            dd[sg2] = dd.get(sg2, 0.0) + (-vv if neg else vv) * f
        for m, dd in mons.items():
            terms = [(sg, v) for sg, v in dd.items() if abs(v) > TOL / 10]
            if not terms:
                continue
            if len(terms) == 1:
                return z3.BoolVal(True)
            if len(terms) == 2 and abs(abs(terms[0][1]) - abs(terms[1][1])) < TOL:
                x = terms[0][0] ^ terms[1][0]
                # same weight: cancels iff signs are opposite where needed
                same = terms[0][1] * terms[1][1] > 0
                zx = e.z(x)
                # +w(-1)^s1 + w(-1)^s2 = 0  iff s1^s2 = 1 ; +w,-w: iff s1^s2 = 0
                dis.append(z3.Not(zx) if same else zx)
                continue
            s = z3.Sum([z3.If(e.z(sg), -rv(v), rv(v)) for sg, v in terms])
            dis.append(z3.Or(s > rv(TOL), s < -rv(TOL)))
    return z3.Or(*dis) if dis else z3.BoolVal(False)


def cross_check(e, A, B, scale, msg):
    """Put a claim already closed by the GF(2)/trigonometric normal form to z3 without that normalisation."""
    dis = []
    for key in set(A) | set(B):
        mons = set()
        a, b = A.get(key, {}), B.get(key, {})
        for src in (a, b):
            for w in src.values():
                mons |= set(w.d)
        for m in mons:
            for part in ("real", "imag"):
                sides = []
                for src in (a, b):
                    ts = []
                    for sg, w in src.items():
                        v = getattr(complex(w.d.get(m, 0)), part)
                        if abs(v) > 1e-12:
                            ts.append(z3.If(e.z(sg), rv(-v), rv(v)))
                    sides.append(z3.Sum(ts) if ts else z3.RealVal(0))
                d = sides[0] - rv(scale) * sides[1]
                dis.append(z3.Or(d > rv(TOL), d < -rv(TOL)))
        if len(dis) > 400:
            break
    if dis:
        e.stats.crosschecked += 1
        e.check_z(z3.Not(z3.Or(*dis)), msg)


def scale_map(A, b):
    """Multiply every coefficient of the map A by b = {sign: TPoly}."""
    R = {}
    for key, d in A.items():
        r = {}
        for s1, w1 in d.items():
            for s2, w2 in b.items():
                s = s1 ^ s2
                w = w1 * w2
                if 0 in s.m:
                    s, w = s.neg(), -w
                r[s] = r[s] + w if s in r else w
        R[key] = r
    return R


def trace_coef(A):
    for key, d in A.items():
        if not any(key[0]) and key[1] == 0:
            return d
    return {}


def maps_not_proportional(e, A, B):
    """z3 Bool: A and B are not proportional (by a constant independent of the input)."""
    a0, b0 = trace_coef(A), trace_coef(B)
    return maps_differ(e, scale_map(A, b0), scale_map(B, a0))


def rv(v):
    return z3.RealVal(str(Fraction(v).limit_denominator(10**12)))


# -------------------------------------------------------------------- dense
def _np_bloch(meas):
    if hasattr(meas, "axis"):
        s = -1 if meas.sign.value == -1 else 1
        v = {AX[meas.axis.name]: s}
    else:
        c, s = PLANES[meas.plane.name]
        a = math.pi * float(meas.angle)
        v = {c: math.cos(a), s: math.sin(a)}
    return v


def _vec(bv, outcome):
    """Eigenvector (bra) of n.sigma with eigenvalue (-1)^outcome."""
    op = sum(v * PM[p] for p, v in bv.items())
    w, u = np.linalg.eigh(op)
    return u[:, 1] if outcome == 0 else u[:, 0]


class Dense:
    """Statevector over (live nodes) + reference copies of the inputs."""

    def __init__(self, inputs):
        self.nodes = []
        self.refs = []
        self.psi = np.array(1.0 + 0j)
        for n in inputs:
            self.nodes.append(n)
        k = len(inputs)
        # axes: live nodes..., refs...
        t = np.zeros((2,) * (2 * k), dtype=complex)
        for b in range(2**k):
            bits = tuple((b >> i) & 1 for i in range(k))
            t[bits + bits] = 1
        self.psi = t
        self.nref = k

    def ax(self, n):
        if n not in self.nodes:
            raise SemError(f"node {n!r} not present")
        return self.nodes.index(n)

    def prep(self, n, vec):
        if n in self.nodes:
            raise SemError(f"node {n!r} prepared twice")
        k = len(self.nodes)
        self.psi = np.moveaxis(np.tensordot(np.asarray(vec, complex), self.psi, axes=0), 0, k)
        self.nodes.append(n)

    def op1(self, n, m):
        i = self.ax(n)
        self.psi = np.moveaxis(np.tensordot(m, self.psi, axes=([1], [i])), 0, i)

    def opn(self, ns, m):
        ii = [self.ax(n) for n in ns]
        k = len(ii)
        m = np.asarray(m).reshape((2,) * (2 * k))
        self.psi = np.moveaxis(np.tensordot(m, self.psi, axes=(list(range(k, 2 * k)), ii)), list(range(k)), ii)

    def project(self, n, bra):
        i = self.ax(n)
        self.psi = np.tensordot(np.conj(bra), self.psi, axes=([0], [i]))
        self.nodes.pop(i)

    def result(self, outputs):
        outputs = list(outputs)
        if sorted(map(str, outputs)) != sorted(map(str, self.nodes)):
            raise SemError(f"outputs {outputs} but live nodes {self.nodes}")
        perm = [self.nodes.index(n) for n in outputs] + list(range(len(self.nodes), self.psi.ndim))
        v = np.transpose(self.psi, perm).reshape(-1)
        return np.outer(v, v.conj())


def state_vec(st):
    if hasattr(st, "plane"):
        c, s = PLANES[st.plane.name]
        a = math.pi * float(st.angle)
        return _vec({c: math.cos(a), s: math.sin(a)}, 0)
    return np.asarray(st.to_statevector_numpy(), dtype=complex).reshape(2)


def dense_pattern(pattern, outcome, inputs=None, outputs=None, results=None, st=None):
    st = Dense(pattern.input_nodes if inputs is None else inputs) if st is None else st
    oc = dict(results or {})
    oc = {k: (v.const() if isinstance(v, Anf) else int(v)) for k, v in oc.items()}

    def dom(d):
        p = 0
        for x in d:
            if x not in oc:
                raise SemError(f"domain refers to unmeasured node {x!r}")
            p ^= oc[x]
        return p

    for cmd in pattern:
        k = cmd.kind.name
        if k == "N":
            st.prep(cmd.node, state_vec(cmd.state))
        elif k == "E":
            if cmd.nodes[0] == cmd.nodes[1]:
                raise SemError("self edge")
            st.opn(cmd.nodes, _CZ)
        elif k == "C":
            st.op1(cmd.node, cmd.clifford.matrix)
        elif k == "X":
            st.ax(cmd.node)
            if dom(cmd.domain):
                st.op1(cmd.node, PM[1])
        elif k == "Z":
            st.ax(cmd.node)
            if dom(cmd.domain):
                st.op1(cmd.node, PM[2])
        elif k == "M":
            s, t = dom(cmd.s_domain), dom(cmd.t_domain)
            if s:
                st.op1(cmd.node, PM[1])
            if t:
                st.op1(cmd.node, PM[2])
            o = outcome(cmd.node)
            o = o.const() if isinstance(o, Anf) else int(o)
            st.project(cmd.node, _vec(_np_bloch(cmd.measurement), o))
            oc[cmd.node] = o
        else:
            raise SemError(f"command {k}")
    return st.result(pattern.output_nodes if outputs is None else outputs)


def run_pattern(e, pattern, outcome, **kw):
    """Semantics of a pattern in the engine's mode (PTM symbolic / dense concrete)."""
    if e.mode == "concrete":
        return dense_pattern(pattern, outcome, **kw)
    return ptm_pattern(pattern, outcome, **kw)


def check_equal(e, A, B, msg, scale=1.0):
    """Claim: the two maps are equal (B scaled)."""
    if e.mode == "concrete":
        e.check(bool(A.shape == B.shape and np.allclose(A, scale * B, atol=1e-6)), msg)
        return
    e.stats.claims += 1
    d = z3.simplify(maps_differ(e, A, B, scale))
    if z3.is_false(d):
        e.stats.folded += 1
        if e.stats.folded % 16 == 1:
            cross_check(e, A, B, scale, msg)
        return
    e._mark_z(d)
    e.check_z(z3.Not(d), msg)


# ------------------------------------------------------------- gates and operators
_RT2 = 1 / math.sqrt(2)
GATE = {
    "H": np.array([[_RT2, _RT2], [_RT2, -_RT2]], complex),
    "S": np.diag([1, 1j]),
    "X": PM[1].astype(complex),
    "Y": PM[3].astype(complex),
    "Z": PM[2].astype(complex),
    "I": np.eye(2, dtype=complex),
    "CNOT": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex),
    "CZ": _CZ.astype(complex),
    "SWAP": np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex),
    "CCX": np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]].astype(complex),
}
ROT = {"RX": (1,), "RY": (3,), "RZ": (2,), "RZZ": (2, 2)}
_ent = {}


def _kron(ps):
    m = np.eye(1)
    for p in ps:
        m = np.kron(m, PM[p])
    return m


def _all(k):
    import itertools

    return list(itertools.product(range(4), repeat=k))


def num_entries(mat):
    """PTM of a numeric matrix: {pin: {pout: TPoly}}."""
    mat = np.asarray(mat, complex)
    key = mat.tobytes()
    r = _ent.get(key)
    if r is None:
        k = mat.shape[0].bit_length() - 1
        r = {}
        for pin in _all(k):
            q = mat @ _kron(pin) @ mat.conj().T
            r[pin] = {}
            for pout in _all(k):
                v = np.trace(_kron(pout) @ q) / 2**k
                if abs(v) > 1e-13:
                    r[pin][pout] = TPoly.const(v.real if abs(v.imag) < 1e-13 else v)
        _ent[key] = r
    return r


def rot_entries(paulis, a):
    """PTM of exp(-i pi a/2 P)."""
    P = _kron(paulis)
    k = len(paulis)
    cc, ss = cos_sin(a)
    r = {}
    for pin in _all(k):
        Q = _kron(pin)
        if np.allclose(P @ Q, Q @ P):
            r[pin] = {pin: TPoly.const(1)}
            continue
        R = -1j * P @ Q
        d = {}
        if cc.d:
            d[pin] = cc
        for pout in _all(k):
            v = np.trace(_kron(pout) @ R) / 2**k
            if abs(v) > 1e-13 and ss.d:
                d[pout] = ss * v.real
        r[pin] = d
    return r


def conj(x):
    if isinstance(x, TPoly):
        return TPoly({m: k.conjugate() if isinstance(k, complex) else k for m, k in x.d.items()})
    return complex(x).conjugate()


def tp(x):
    return x if isinstance(x, TPoly) else TPoly.const(complex(x))


def mat_entries(mat):
    """PTM of a matrix with numeric or TPoly entries."""
    mat = np.asarray(mat)
    if not any(isinstance(x, TPoly) for x in mat.flat):
        return num_entries(np.array([[complex(x) for x in row] for row in mat]))
    n = mat.shape[0]
    k = n.bit_length() - 1
    U = [[tp(mat[i][j]) for j in range(n)] for i in range(n)]
    Ud = [[conj(U[j][i]) for j in range(n)] for i in range(n)]
    r = {}
    for pin in _all(k):
        P = _kron(pin)
        # Q = U P U^dag
        UP = [[sum((U[i][l] * complex(P[l, j]) for l in range(n) if P[l, j]), TPoly()) for j in range(n)] for i in range(n)]
        Q = [[sum((UP[i][l] * Ud[l][j] for l in range(n)), TPoly()) for j in range(n)] for i in range(n)]
        r[pin] = {}
        for pout in _all(k):
            R = _kron(pout)
            v = sum((Q[j][i] * (complex(R[i, j]) / n) for i in range(n) for j in range(n) if R[i, j]), TPoly())
            v = TPoly({m: c for m, c in v.d.items() if abs(c) > 1e-12})
            if v.d:
                r[pin][pout] = v
    return r


def instr_op(instr):
    """(qubits, kind, data) of a circuit instruction, read from its public fields."""
    k = instr.kind.name
    if k == "CCX":
        return [*instr.controls, instr.target], k
    if k in ("CNOT", "RZZ"):
        return [instr.control, instr.target], k
    if k in ("SWAP", "CZ"):
        return list(instr.targets), k
    return [instr.target], k


def rot_matrix(paulis, a):
    P = _kron(paulis)
    t = math.pi * float(a) / 2
    return math.cos(t) * np.eye(P.shape[0]) - 1j * math.sin(t) * P


def apply_instr(e, st, instr, qmap=lambda q: q):
    """Apply a unitary circuit instruction to a PTM or Dense state (reference semantics)."""
    qs, k = instr_op(instr)
    qs = [qmap(q) for q in qs]
    if len(set(qs)) != len(qs):
        raise SemError("repeated qubit")
    dense = isinstance(st, Dense)
    if k == "J":  # J(a) = H Rz(a)
        if dense:
            st.op1(qs[0], rot_matrix((2,), instr.angle))
            st.op1(qs[0], GATE["H"])
        else:
            st.unitary(qs, rot_entries((2,), instr.angle))
            st.unitary(qs, num_entries(GATE["H"]))
    elif k in ROT:
        if dense:
            st.opn(qs, rot_matrix(ROT[k], instr.angle))
        else:
            st.unitary(qs, rot_entries(ROT[k], instr.angle))
    elif dense:
        st.opn(qs, GATE[k])
    else:
        st.unitary(qs, num_entries(GATE[k]))


def meas_axis(e, st, q, axis, outcome):
    if isinstance(st, Dense):
        o = outcome.const() if isinstance(outcome, Anf) else int(outcome)
        st.project(q, _vec({AX[axis]: 1.0}, o))
    else:
        st.measure(q, {AX[axis]: TPoly.const(1)}, outcome)


def new_state(e, inputs):
    return Dense(inputs) if e.mode == "concrete" else PTM(inputs)


def run_circuit(e, width, instrs, outcome, inputs=None, outputs=None):
    """Reference semantics of an instruction list: the k-th measurement has outcome ``outcome(k)``.

    Returns the map onto the unmeasured qubits in increasing order."""
    st = new_state(e, list(range(width)) if inputs is None else inputs)
    live = list(range(width))
    k = 0
    for ins in instrs:
        if ins.kind.name == "M":
            if ins.target not in live:
                raise SemError("measured twice")
            meas_axis(e, st, ins.target, ins.axis.name, outcome(k))
            live.remove(ins.target)
            k += 1
        else:
            apply_instr(e, st, ins)
    return st.result(live if outputs is None else outputs)
