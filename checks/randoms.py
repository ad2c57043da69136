"""Random generators: every object they can produce is valid (P35).

The random-number generator is replaced by one whose draws are symbolic reals: one run covers every sequence of
draws.  Discrete draws (shuffles, integers) are choice points.
"""

from __future__ import annotations

import graphix.random_objects as ro

from .backends import *  # noqa: F403
from .backends import gch, setup as bsetup
from graphix.parameter import Placeholder

Unsupported = engine.Unsupported


class Np(cnum.NpSym):
    """numpy in which fresh arrays can hold symbolic numbers."""

    @staticmethod
    def zeros(shape, dtype=None):
        r = np.empty(shape, dtype=object)
        r[...] = Cx.const(0)
        return r

    @classmethod
    def allclose(cls, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return super().allclose(reduced(a, b), b, rtol, atol, equal_nan)

    @staticmethod
    def nonzero(a):
        if a.dtype != object:
            return np.nonzero(a)
        m = np.array([bool(x != 0) for x in a.flat], dtype=bool).reshape(a.shape)
        return np.nonzero(m)

    @staticmethod
    def log2(x):
        return np.log2(x)

    @staticmethod
    def sqrt(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(x.shape):
                r[ix] = cnum.NpSym.sqrt(x[ix])
            return r
        return cnum.NpSym.sqrt(x)


ZERO = []  # polynomials that are zero by the definition of the inverse square root


def reduced(a, b):
    """a, with b's entry where their difference is known to be zero."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object or not ZERO:
        return a
    a, b = (x.copy() for x in np.broadcast_arrays(a, b))
    for ix in np.ndindex(a.shape):
        d = Cx.lift(a[ix]) - Cx.lift(b[ix])
        if any(not any(abs(c) > 1e-12 for c in (d - z).d.values()) for z in ZERO):
            a[ix] = b[ix]
    return a


def shape_of(size):
    return () if size is None else (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)


class Rng:
    """numpy.random.Generator with symbolic draws."""

    def __init__(self, e, positive=False):
        self.e, self.n, self.positive = e, 0, positive
        self.draws = []

    def one(self, lo, hi):
        e = self.e
        name = f"u{self.n}"
        self.n += 1
        v = rvar(name, lo, hi)
        if e.mode != "concrete":
            if hi is not None:
                e.add(v.zre() < hi)
            if self.positive and lo is not None:
                e.add(v.zre() > lo)
        self.draws.append(v)
        return v

    def many(self, size, lo=None, hi=None):
        sh = shape_of(size)
        if size is None:
            return self.one(lo, hi)
        n = int(np.prod(sh)) if sh else 1
        return arr([self.one(lo, hi) for _ in range(n)], sh) if self.e.mode != "concrete" else np.array([float(self.one(lo, hi)) for _ in range(n)]).reshape(sh)

    def random(self, size=None):
        return self.many(size, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.many(size, low, high)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.many(size)

    def standard_normal(self, size=None):
        return self.many(size)

    def shuffle(self, x):
        n = len(x)
        self.k = getattr(self, "k", -1) + 1
        rots = list(itertools.permutations(range(n))) if n <= 3 else [tuple((i + r) % n for i in range(n)) for r in range(n)]
        if self.k >= getattr(self, "free", 99):
            rot = rots[(self.first + 5 * self.k) % len(rots)]
        else:
            rot = self.e.choose(f"shuf{self.k}", rots)
            self.first = rots.index(rot)
        v = [x[i] for i in rot]
        for i, y in enumerate(v):
            x[i] = y

    def permutation(self, x):
        x = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(x)
        return np.array(x)

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            raise Unsupported("weighted choice")
        if size is None:
            return a[self.integers(len(a))]
        n = int(np.prod(shape_of(size)))
        if replace:
            return np.array([a[self.integers(len(a))] for _ in range(n)]).reshape(shape_of(size))
        self.shuffle(a)
        return np.array(a[:n]).reshape(shape_of(size))

    def integers(self, low, high=None, size=None):
        if size is not None:
            raise Unsupported("integers(size=...)")
        lo, hi = (0, low) if high is None else (low, high)
        self.j = getattr(self, "j", -1) + 1
        if self.j in getattr(self, "fixed", {}):
            return lo + self.fixed[self.j] % (hi - lo)
        return self.e.choose(f"int{self.j}", list(range(lo, hi)))

    def __getattr__(self, n):
        if n.startswith("_") or n in ("k", "j", "fixed", "free"):
            raise AttributeError(n)
        raise Unsupported(f"Generator.{n}")


class Unitaries:
    """scipy.stats.unitary_group: any unitary matrix."""

    def __init__(self, e):
        self.e, self.n = e, 0

    def rvs(self, dim=None, size=1, random_state=None):
        e = self.e
        self.n += 1
        t = f"U{self.n}"
        if dim == 2:
            a = unit(arr([cvar(t + "a"), cvar(t + "b")]))
            return arr([a[0], -a[1].conjugate(), a[1], a[0].conjugate()], (2, 2))
        if dim == 4:
            us = [self.rvs(2) for _ in range(2)]
            c = np.zeros((4, 4), dtype=complex)
            for i, j in enumerate((0, 1, 3, 2)):
                c[i, j] = 1
            k = np.kron(us[0], us[1])
            return c.astype(k.dtype).dot(k) if k.dtype == object else c @ k
        # a rotation of the first two coordinates
        m = np.empty((dim, dim), dtype=object if e.mode != "concrete" else complex)
        m[...] = 0 if e.mode == "concrete" else Cx.const(0)
        m[:2, :2] = self.rvs(2)
        for i in range(2, dim):
            m[i, i] = 1j if e.mode == "concrete" else Cx.const(1j)
        return m


class Root:
    """sqrtm(H), known only through S.S = H."""

    def __init__(self, h):
        self.h = h


class Linalg:
    """scipy.linalg with square roots of symbolic positive matrices."""

    def __init__(self, e):
        self.e, self.n = e, 0

    def sqrtm(self, h, *a, **k):
        h = np.asarray(h)
        return Root(h) if h.dtype == object else SL.sqrtm(h, *a, **k)

    def inv(self, s, *a, **k):
        if type(s) is not Root:
            s = np.asarray(s)
            if s.dtype == object:
                raise Unsupported("inverse of a symbolic matrix")
            return SL.inv(s, *a, **k)
        e, h = self.e, s.h
        d = h.shape[0]
        self.n += 1
        t = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(i + 1):
                if i == j:
                    t[i, i] = Cx({((cnum.ctx().var(f"T{self.n}.{i}", False), 1),): 1.0 + 0j})
                else:
                    re, im = (Cx({((cnum.ctx().var(f"T{self.n}.{i}.{j}{x}", False), 1),): 1.0 + 0j}) for x in "ri")
                    t[i, j] = re + Cx.const(1j) * im
                    t[j, i] = t[i, j].conjugate()
        prod = t.dot(h).dot(t)
        for i in range(d):
            for j in range(d):
                z = Cx.lift(prod[i, j]) - Cx.const(1 if i == j else 0)
                ZERO.append(z)
                if j <= i and d == 1:
                    e.add(z.zre() == 0)
        return t

    def __getattr__(self, n):
        raise Unsupported(f"scipy.linalg.{n}")


SL = ro.scipy.linalg
SCIPY, UG, RNP = ro.scipy, ro.unitary_group, np


def setup(e):
    bsetup(e)
    sym = e.mode != "concrete"
    ZERO.clear()
    ro.np = Np() if sym else np
    gch.np = Np() if sym else np
    ro.unitary_group = Unitaries(e)
    ro.UNITS = arr([1, 1j]) if sym else np.array([1, 1j])
    if sym:
        import types

        ro.scipy = types.SimpleNamespace(linalg=Linalg(e))
        ro.complex, ro.float = cnum.sym_complex, cnum.sym_float
    else:
        ro.scipy = SCIPY
        ro.__dict__.pop("complex", None)
        ro.__dict__.pop("float", None)


def dag(m):
    return np.conjugate(np.transpose(np.asarray(m)))


def eye(d):
    return arr([1 if i == j else 0 for i in range(d) for j in range(d)], (d, d))


# ------------------------------------------------------------------ matrices and states
def h_herm(e, dims):
    setup(e)
    d = e.choose("d", dims)
    m = ro.rand_herm(e.choose("np", [int, np.int64])(d), Rng(e))
    e.reached()
    same(e, m, dag(m), "rand_herm: not Hermitian")
    e.check(np.asarray(m).shape == (d, d), "rand_herm: wrong size")


def h_state(e, nmax):
    setup(e)
    n = e.choose("n", list(range(nmax + 1)))
    rng = Rng(e)
    half = e.mode != "concrete"
    v = None
    if half:
        # not all draws are exactly 1/2 (there is no direction to normalise)
        orig = rng.many

        def many(size, lo=None, hi=None):
            r = orig(size, lo, hi)
            e.add(z3.Or(*[x.zre() != z3.RealVal("1/2") for x in np.asarray(r).flat]))
            return r

        rng.many = many
    v = ro.rand_state_vector(n, rng)
    e.reached()
    e.check(np.asarray(v).shape == (2**n,), "rand_state_vector: wrong length")
    same(e, arr([norm2(v)]), arr([1]), "rand_state_vector: not normalised")


def h_dm(e, dims):
    setup(e)
    d = e.choose("d", dims)
    rank = e.choose("rank", [None, *range(1, d + 1)])
    m = np.asarray(ro.rand_dm(d, Rng(e, True), rank) if rank is not None else ro.rand_dm(d, Rng(e, True)))
    e.reached()
    e.check(m.shape == (d, d), "rand_dm: wrong size")
    same(e, m, dag(m), "rand_dm: not Hermitian")
    same(e, arr([sum((m[i, i] for i in range(1, d)), m[0, 0])]), arr([1]), "rand_dm: the trace is not 1")
    if rank is not None and rank < d:
        # every minor of size rank + 1 vanishes
        k = rank + 1
        mins = []
        for rows in itertools.combinations(range(d), k):
            for cols in itertools.combinations(range(d), k):
                acc = 0
                for perm in itertools.permutations(range(k)):
                    sg = (-1) ** sum(perm[a] > perm[b] for a in range(k) for b in range(a + 1, k))
                    t = sg
                    for a in range(k):
                        t = t * m[rows[a], cols[perm[a]]]
                    acc = acc + t
                mins.append(acc)
        same(e, arr(mins), arr([0] * len(mins)), "rand_dm: the rank is larger than requested")
    for i in range(d):
        x = m[i, i]
        claim(e, (x.real >= 0) if type(x) is Cx else x.real >= -1e-9, "rand_dm: a diagonal entry is negative")


# ------------------------------------------------------------------ channels
def h_chan(e, dims, ranks):
    setup(e)
    d = e.choose("d", dims)
    rank = e.choose("rank", [None, 0, *ranks])
    sig = e.choose("sig", [None, "ginibre", 0.5])
    rng = Rng(e)
    try:
        c = ro.rand_channel_kraus(d, rng, rank, sig)
    except ValueError:
        e.reached()
        if e.mode != "concrete":
            fix(e, rng)
        e.check(rank == 0 or rank is not None and rank > d * d, "rand_channel_kraus: rejects a valid rank or builds an invalid channel")
        return
    e.reached()
    e.check(rank != 0 and (rank is None or rank <= d * d), "rand_channel_kraus: accepts a rank out of range")
    e.check(len(c) == (d * d if rank is None else rank), "rand_channel_kraus: wrong number of Kraus operators")
    kraus(e, c, d, rng)


def fix(e, rng):
    for i, v in enumerate(rng.draws):
        e.add(v.zre() == z3.RealVal(f"{(7 * i * i + 3 * i + 2) % 13 + 1}/17"))


def kraus(e, c, d, rng):
    acc = 0
    for k in c:
        op = np.asarray(k.operator)
        op = op.astype(object) if e.mode != "concrete" else op
        e.check(op.shape == (d, d), "a Kraus operator has the wrong size")
        co = k.coef
        acc = acc + (co * co.conjugate() if type(co) is Cx else abs(co) ** 2) * dag(op).dot(op)
    try:
        same(e, reduced(acc, eye(d)), eye(d), "the channel is not trace preserving")
    except engine.Inconclusive:
        # a counterexample among fixed draws
        fix(e, rng)
        same(e, reduced(acc, eye(d)), eye(d), "the channel is not trace preserving")


PM = {"I": [[1, 0], [0, 1]], "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]]}


def pauli_of(op):
    op = np.array([[complex(x) for x in r] for r in np.asarray(op)])
    n = op.shape[0].bit_length() - 1
    for w in itertools.product("IXYZ", repeat=n):
        m = np.eye(1)
        for ch in w:
            m = np.kron(m, PM[ch])
        if m.shape == op.shape and np.allclose(m, op):
            return "".join(w)
    return None


def h_pauli_all(e, dims):
    """Each Pauli operator can be drawn, at every rank."""
    setup(e)
    d = e.choose("d", dims)
    rank = e.choose("rank", list(range(1, d * d + 1)))
    got = set()
    for r in range(d * d):
        rng = Rng(e, True)
        rng.free, rng.first, rng.n = 0, r, 100 * r
        rng.fixed = {j: r for j in range(20)}
        rng.many = lambda size, lo=None, hi=None: np.full(shape_of(size), 0.5)
        got |= {pauli_of(k.operator) for k in ro.rand_pauli_channel_kraus(d, rng, rank)}
    e.reached()
    e.check(len(got) == d * d, "rand_pauli_channel_kraus: some Pauli operators are never drawn")


def h_pauli_chan(e, dims, ranks):
    setup(e)
    d = e.choose("d", dims)
    rank = e.choose("rank", ranks)
    rng = Rng(e, True)
    try:
        c = ro.rand_pauli_channel_kraus(d, rng, rank)
    except ValueError:
        e.reached()
        e.check(d & (d - 1) or rank == 0 or rank is not None and rank > d * d, "rand_pauli_channel_kraus: rejects valid arguments")
        return
    e.reached()
    e.check(not d & (d - 1) and rank != 0, "rand_pauli_channel_kraus: accepts a dimension that is no power of 2 or rank 0")
    want = d * d if rank is None else rank
    e.check(len(c) == want, "rand_pauli_channel_kraus: wrong number of Kraus operators")
    ps = [pauli_of(k.operator) for k in c]
    e.check(None not in ps and len(set(ps)) == len(ps), "rand_pauli_channel_kraus: the operators are not distinct Pauli operators")
    kraus(e, c, d, rng)


# ------------------------------------------------------------------ circuits
def gates(c):
    out = []
    for i in c.instruction:
        qs = tuple(getattr(i, a) for a in ("control", "target") if hasattr(i, a))
        if hasattr(i, "controls"):
            qs = (*i.controls, i.target)
        if hasattr(i, "targets"):
            qs = tuple(i.targets)
        out.append((i.kind.name, qs, getattr(i, "angle", None)))
    return out


def h_gate(e, nmax, depths):
    setup(e)
    n = e.choose("n", list(range(2, nmax + 1)))
    depth = e.choose("depth", depths)
    pairs = e.choose("pairs", [[(0, 1)], [(i, i + 1) for i in range(n - 1)], [(1, 0), (0, n - 1)], []])
    rzz = e.choose("rzz", [False, True])
    form = e.choose("form", ["list", "tuple", "iter", "gen"])
    arg = {"list": lambda: list(pairs), "tuple": lambda: tuple(pairs), "iter": lambda: iter(pairs), "gen": lambda: (p for p in pairs)}[form]()
    rng = Rng(e)
    c = ro.rand_gate(n, depth, arg, rng, use_rzz=rzz)
    e.reached()
    e.check(c.width == n, "rand_gate: wrong width")
    gs = gates(c)
    if e.mode == "concrete":
        e.notes.append((n, depth, pairs, rzz, form, [(k, q) for k, q, _ in gs]))
    ent = [(k, q) for k, q, _ in gs if len(q) == 2]
    e.check(all(k in ("CNOT", "RZZ", "RX", "RZ") for k, _, _ in gs), "rand_gate: another kind of gate")
    e.check([q for _, q in ent] == pairs * depth, "rand_gate: the entangling gates are not the given pairs, once for each layer")
    e.check(all(k == ("RZZ" if rzz else "CNOT") for k, _ in ent), "rand_gate: wrong kind of entangling gate")
    if pairs:
        # split at the entangling layers
        layers, cur_, seen = [], [], 0
        for g in gs:
            if len(g[1]) == 2:
                if seen % len(pairs) == 0:
                    layers.append(cur_)
                    cur_ = []
                else:
                    e.check(not cur_, "rand_gate: rotations inside an entangling layer")
                seen += 1
            else:
                cur_.append(g)
        layers.append(cur_)
        e.check(len(layers) == depth + 1, "rand_gate: wrong number of layers")
        for i, l in enumerate(layers):
            kinds = ["RX"] if i == 0 else ["RZ"] if i == depth else ["RX", "RZ"]
            for q in range(n):
                e.check([k for k, qs, _ in l if qs == (q,)] == kinds, "rand_gate: a rotation layer does not rotate every qubit")
    used = [a for k, _, a in gs if k != "CNOT"]
    e.check(len(used) == len(rng.draws) and all(any(a is v for v in rng.draws) for a in used) and len({id(a) for a in used}) == len(used) or e.mode == "concrete",
            "rand_gate: the angles are not independent draws")


def h_circuit(e, n, depth, fixed):
    setup(e)
    flags = {f: e.choose(f, [False, True]) for f in ("use_j", "use_cz", "use_rzz", "use_ccx")}
    if flags["use_ccx"] and n < 3:
        return
    rng = Rng(e)
    rng.free = 2 if fixed else 99
    rng.fixed = {i: e.choose("ind", list(range(9))) + 2 * i for i in range(1, 99)} if fixed else {}
    c = ro.rand_circuit(n, depth, rng, **flags)
    e.reached()
    gs = gates(c)
    e.check(c.width == n, "rand_circuit: wrong width")
    for k, qs, a in gs:
        e.check(len(set(qs)) == len(qs) and all(0 <= q < n for q in qs), "rand_circuit: a gate acts twice on a qubit or on no qubit")
        e.check({"J": flags["use_j"], "CZ": flags["use_cz"], "RZZ": flags["use_rzz"], "CCX": flags["use_ccx"]}.get(k, True), f"rand_circuit: {k} although not requested")
    for k, f in (("CZ", "use_cz"), ("RZZ", "use_rzz"), ("CCX", "use_ccx")):
        e.check(not flags[f] or any(g[0] == k for g in gs), f"rand_circuit: no {k} although requested")
    single = [g for g in gs if len(g[1]) == 1]
    e.check(all(sum(g[1] == (q,) for g in single) == depth for q in range(n)), "rand_circuit: not one single-qubit gate per qubit and layer")


def h_circuit_par(e):
    """Every rotation by every given parameter can be drawn, whatever kind of iterable the parameters are."""
    setup(e)
    ps = [Placeholder(f"p{i}") for i in range(e.choose("np", [0, 1, 2, 3]))]
    form = e.choose("form", ["list", "tuple", "iter", "gen", "none"])
    if form == "none" and ps:
        return
    use_j = e.choose("j", [False, True])
    mk = {"list": lambda: list(ps), "tuple": lambda: tuple(ps), "iter": lambda: iter(ps), "gen": lambda: (p for p in ps), "none": lambda: None}[form]
    got, sizes = set(), set()

    class R(Rng):
        def shuffle(self, x):
            pass

        def integers(self, low, high=None, size=None):
            sizes.add((low, high))
            return ind % low

    n, ind = 1, 0
    while ind < n:
        c = ro.rand_circuit(2, 1, R(e), use_j=use_j, parameters=mk())
        n = max(low for low, _ in sizes)
        got |= {(k, next((i for i, p in enumerate(ps) if p is a), None)) for k, q, a in gates(c) if len(q) == 1}
        ind += 1
    e.reached()
    e.check(len(sizes) == 1, "rand_circuit: the choice depends on the qubit")
    for i in range(len(ps)):
        for k in ("RX", "RY", "RZ"):
            e.check((k, i) in got, f"rand_circuit: {k} by parameter {i} is never drawn")
    e.check(all(i is None or i < len(ps) for _, i in got), "rand_circuit: another parameter")
    for k in ("RX", "RY", "RZ", "H", "S", "X", "Y", "Z", *(("J",) if use_j else ())):
        e.check((k, None) in got, f"rand_circuit: {k} is never drawn")


def jobs(tier):
    t = tier == "thorough"
    js = [
        Job("herm", h_herm, dict(dims=[1, 2, 3, 4]), "Hermitian matrices of size 1 to 4, every draw"),
        Job("state", h_state, dict(nmax=3 if t else 2), "state vectors of 0 to 2 qubits"),
        Job("dm2", h_dm, dict(dims=[2]), "density matrices of size 2, every rank"),
        Job("dm4", h_dm, dict(dims=[3, 4] if t else [3]), "density matrices of size 3, every rank", 2.0),
        Job("chan1", h_chan, dict(dims=[1], ranks=[1, 2]), "channels of dimension 1"),
        Job("chan2", h_chan, dict(dims=[2], ranks=[1, 2, 3, 4, 5]), "channels of dimension 2, every rank", 2.0),
        Job("pauli2", h_pauli_chan, dict(dims=[2, 3], ranks=[None, 0, 1, 2, 3, 4, 5]), "one-qubit Pauli channels, every rank"),
        Job("pauli4", h_pauli_chan, dict(dims=[4], ranks=[1, 3] if not t else [None, 1, 3, 7]), "two-qubit Pauli channels"),
        Job("pauliall", h_pauli_all, dict(dims=[2, 4]), "Pauli channels: every operator can be drawn"),
        Job("gate", h_gate, dict(nmax=3, depths=[1, 2, 3]), "random gates on 2-3 qubits, depth 1 to 3"),
        Job("circ2", h_circuit, dict(n=2, depth=1, fixed=False), "random circuits: 2 qubits, depth 1, every choice"),
        Job("circ3", h_circuit, dict(n=3, depth=2, fixed=True), "random circuits: 3 qubits, depth 2"),
        Job("params", h_circuit_par, {}, "random circuits with 0 to 3 parameters"),
    ]
    return js


CHECKS = {"P35": dict(jobs=jobs, quick_s=40, thorough_s=300,
                      outside="the distribution of the draws; the Haar sampler and the matrix square root of scipy (any unitary, any inverse root are assumed); "
                              "draws for which there is nothing to normalise (all zero)")}
