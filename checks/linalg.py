"""Linear algebra over GF(2) (P29)."""

from __future__ import annotations

import itertools

import graphix._linalg as gl
import numba
import numpy as np
from graphix._linalg import MatGF2, solve_f2_linear_system

from . import backends as B
from .common import *  # noqa: F403

z3 = engine.z3


class NpBits:
    """numpy with matrices of symbolic bits."""

    uint8 = object

    def __getattr__(self, n):
        return getattr(np, n)


class NbRev:
    """Parallel loops in reverse order."""

    def __getattr__(self, n):
        return getattr(numba, n)

    @staticmethod
    def prange(*a):
        return reversed(range(*a))


def _any(self, axis=None, **kw):
    a = np.asarray(self)
    if a.dtype != object:
        return a.any(axis=axis, **kw)
    return np.array(np.vectorize(bool, otypes=[bool])(a).any(axis=axis) if a.size else np.zeros(a.shape, dtype=bool).any(axis=axis))


def setup(e):
    if e.mode == "concrete":
        gl.np = np
        MatGF2.__dict__.get("any") and delattr(MatGF2, "any")
    else:
        gl.np = NpBits()
        MatGF2.any = _any
    gl.nb = NbRev() if e.choose("prange", [0, 1]) else numba


def vals(e, name, *shape):
    """Symbolic bits."""
    n = 1
    for s in shape:
        n *= s
    v = [bit(f"{name}{i}") for i in range(n)]
    a = np.empty(n, dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a.reshape(shape)


def mat(e, a, order="C"):
    """The matrix under test, with a memory layout."""
    dt = np.uint8 if e.mode == "concrete" else object
    if order == "T":  # a transposed view
        return np.array(a.T, dtype=dt, order="C").T.view(MatGF2)
    if order == "S":  # a strided view
        big = np.zeros((2 * a.shape[0], a.shape[1]), dtype=dt)
        big[::2] = a
        return big[::2].view(MatGF2)
    return MatGF2(a) if order == "C" else np.array(a, dtype=dt).view(MatGF2)


def anf(x):
    return x.a if type(x) is Bit else mk(int(x))


def iszero(e, x, msg):
    """Claim: the bit is zero."""
    if e.mode == "concrete":
        e.check(int(x) == 0, msg)
        return
    a = anf(x)
    e.stats.claims += 1
    if a.const() == 0:
        e.stats.folded += 1
        return
    e.check_z(z3.Not(e.z(a)), msg)


def eq(e, got, want, msg):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        e.check(False, f"{msg} (shape {got.shape} instead of {want.shape})")
        return
    if e.mode == "concrete":
        e.check(bool((got.astype(int) == want.astype(int)).all()), msg)
        return
    dis = []
    for g, w in zip(got.flat, want.flat):
        e.check(type(g) is Bit or g in (0, 1), "entries are bits")
        d = anf(g) ^ anf(w)
        if d.const() != 0:
            dis.append(e.z(d))
    e.stats.claims += 1
    if dis:
        e.check_z(z3.Not(z3.Or(dis)), msg)
    else:
        e.stats.folded += 1


def mul(a, b):
    """Product over GF(2) (reference)."""
    m, l = a.shape
    n = b.shape[1]
    r = np.empty((m, n), dtype=object)
    for i in range(m):
        for j in range(n):
            s = 0
            for k in range(l):
                s = s ^ (a[i, k] & b[k, j])
            r[i, j] = s
    return r


def det(a):
    """Determinant over GF(2): the permanent."""
    n = a.shape[0]
    s = 0
    for p in itertools.permutations(range(n)):
        t = 1
        for i, j in enumerate(p):
            t = a[i, j] & t if type(a[i, j]) is Bit else t & a[i, j]
        s = t ^ s if type(t) is Bit else s ^ t
    return s


def minors(a, r):
    m, n = a.shape
    if r == 0:
        return [1]
    return [det(a[np.ix_(I, J)]) for I in itertools.combinations(range(m), r) for J in itertools.combinations(range(n), r)]


def zor(e, xs):
    return z3.Or([e.z(anf(x)) for x in xs]) if xs else z3.BoolVal(False)


def rank_is(e, a, r, msg):
    """Claim: rank(a) = r, by minors."""
    if e.mode == "concrete":
        e.check((r == 0 or any(int(x) for x in minors(a, r))) and not any(int(x) for x in minors(a, r + 1) if r < min(a.shape)), msg)
        return
    big = minors(a, r + 1) if r < min(a.shape) else []
    e.check_z(z3.And(zor(e, minors(a, r)), z3.Not(zor(e, big))), msg)


def lead(row, n):
    for j in range(n):
        if row[j] == 1:
            return j
    return None


def intact(e, a0, a, msg):
    eq(e, a, a0, msg)


def h_product(e, m, l, n):
    setup(e)
    a, b = vals(e, "a", m, l), vals(e, "b", l, n)
    oa, ob = e.choose("oa", ["C", "T", "S", "view"]), e.choose("ob", ["C", "T", "plain"])
    A = mat(e, a, oa)
    Bm = mat(e, b, "view" if ob == "plain" else ob)
    if ob == "plain":
        Bm = np.asarray(Bm)
    r = A.mat_mul(Bm)
    e.check(type(r) is MatGF2, "the type")
    eq(e, r, mul(a, b), "the product")
    intact(e, a, A, "operands are unchanged")
    intact(e, b, Bm, "operands are unchanged")
    if l != m:
        e.check(B.raises(lambda: Bm.view(MatGF2).mat_mul(Bm) if l != n else A.mat_mul(A), ValueError) if l != n or m != l else True, "dimensions must match")
    e.check(B.raises(lambda: A.mat_mul(Bm[:, 0]), ValueError) and B.raises(lambda: A[0].mat_mul(Bm), ValueError), "only two-dimensional arrays")
    e.reached()


def echelon(e, R, ncols, full, msg):
    """Claim: R is in (reduced) row echelon form on its first ncols columns; returns the pivots."""
    m = R.shape[0]
    piv = []
    prev = -1
    for i in range(m):
        j = lead(R[i], ncols)
        if j is None:
            prev = ncols
            continue
        e.check(prev < ncols and j > prev, f"{msg}: leading ones move to the right, zero rows come last")
        prev = j
        piv.append(j)
        for k in range(m):
            if k > i or (full and k < i):
                iszero(e, R[k, j], f"{msg}: zeros below{' and above' if full else ''} the leading ones")
    return piv


def same_rows(e, a, R, msg):
    """Claim: the same row space — equivalently, the same kernel."""
    n = a.shape[1]
    if e.mode == "concrete":
        for v in itertools.product((0, 1), repeat=n):
            x = np.array(v)
            e.check(((a.astype(int) @ x) % 2).any() == ((R.astype(int) @ x) % 2).any(), msg)
        return
    v = [bit(f"v{j}") for j in range(n)]
    x = np.empty((n, 1), dtype=object)
    x[:, 0] = v
    l, r = mul(a, x), mul(np.asarray(R), x)
    e.check_z(z3.Not(zor(e, list(l.flat))) == z3.Not(zor(e, list(r.flat))), msg)


def h_gauss(e, m, n, extra=0):
    setup(e)
    full = e.choose("full", [False, True])
    order = e.choose("order", ["C", "T", "S"])
    copy = e.choose("copy", [True, False, None])
    nc = e.choose("ncols", [None, n - extra] if extra else [None])
    a = vals(e, "a", m, n)
    A = mat(e, a, order)
    f = A.row_reduction if full else A.gauss_elimination
    kw = {} if copy is None else {"copy": copy}
    R = f(**kw) if nc is None else f(ncols=nc, **kw)
    e.check(type(R) is MatGF2 and R.shape == (m, n), "the type and shape")
    piv = echelon(e, R, nc or n, full, "reduced row echelon form" if full else "row echelon form")
    same_rows(e, a, R, "elimination keeps the row space")
    if copy is not False:
        intact(e, a, A, "the matrix is unchanged")
    elif order == "C":
        intact(e, np.asarray(R), A, "the matrix is modified")
    rank_is(e, a[:, : nc or n], len(piv), "as many nonzero rows as the rank")
    e.reached()


def h_rank(e, m, n):
    setup(e)
    a = vals(e, "a", m, n)
    A = mat(e, a, e.choose("order", ["C", "T", "S"]))
    r = A.rank()
    rank_is(e, a, int(r), "the rank")
    intact(e, a, A, "the matrix is unchanged")
    e.reached()


def h_inverse(e, m, n):
    setup(e)
    a = vals(e, "a", m, n)
    A = mat(e, a, e.choose("order", ["C", "T", "S"]))
    r = A.right_inverse()
    e.reached()
    intact(e, a, A, "the matrix is unchanged")
    if r is None:
        if m <= n:
            if e.mode == "concrete":
                e.check(not any(int(x) for x in minors(a, m)), "no inverse only when the rows are dependent")
            else:
                e.check_z(z3.Not(zor(e, minors(a, m))), "no inverse only when the rows are dependent")
        return
    e.check(m <= n and type(r) is MatGF2 and r.shape == (n, m), "the type and shape")
    eq(e, mul(a, np.asarray(r)), np.eye(m, dtype=int), "a right inverse")


def h_null(e, m, n):
    setup(e)
    a = vals(e, "a", m, n)
    A = mat(e, a, e.choose("order", ["C", "T", "S"]))
    N = A.null_space()
    k = N.shape[0]
    e.check(type(N) is MatGF2 and N.ndim == 2 and N.shape[1] == n, "the type and shape")
    eq(e, mul(a, np.asarray(N).T), np.zeros((m, k), dtype=int), "the vectors are in the null space")
    if k:
        rank_is(e, np.asarray(N), k, "the vectors are independent")
    rank_is(e, a, n - k, "as many vectors as the dimension of the null space")
    intact(e, a, A, "the matrix is unchanged")
    e.reached()


def h_solve(e, m, n):
    """Back substitution on a system in row echelon form."""
    setup(e)
    r = e.choose("rank", list(range(min(m, n) + 1)))
    piv = e.choose("pivots", list(itertools.combinations(range(n), r)))
    free = vals(e, "a", m, n)
    a = np.zeros((m, n), dtype=object)
    for i, p in enumerate(piv):
        a[i, p] = 1
        for j in range(p + 1, n):
            a[i, j] = free[i, j]
    b = vals(e, "b", m)
    for i in range(r, m):
        b[i] = 0
    A = mat(e, a, e.choose("order", ["C", "T", "S"]))
    bb = MatGF2(b)
    x = solve_f2_linear_system(A, bb)
    e.check(type(x) is MatGF2 and x.shape == (n,), "the type and shape")
    eq(e, mul(a, np.asarray(x).reshape(n, 1))[:, 0], b, "the solution satisfies the system")
    intact(e, a, A, "the system is unchanged")
    intact(e, b, bb, "the system is unchanged")
    e.reached()


def h_system(e, m, n):
    """Elimination of the augmented matrix followed by back substitution."""
    setup(e)
    a, b = vals(e, "a", m, n), vals(e, "b", m, 1)
    aug = np.concatenate([a, b], axis=1)
    M = mat(e, aug, e.choose("order", ["C", "T"]))
    R = M.gauss_elimination(ncols=n, copy=e.choose("copy", [True, False]))
    lhs, rhs = MatGF2(R[:, :n]), MatGF2(R[:, n])
    ok = True
    for i in range(m):
        if lead(lhs[i], n) is None and rhs[i] == 1:
            ok = False
            break
    e.reached()
    if not ok:
        # no solution: the right-hand side is not in the column space
        v = vals(e, "v", n, 1)
        if e.mode == "concrete":
            for w in itertools.product((0, 1), repeat=n):
                e.check(bool(((a.astype(int) @ np.array(w)) % 2 != b[:, 0].astype(int)).any()), "an inconsistent system has no solution")
        else:
            l = mul(a, v)
            e.check_z(zor(e, [x ^ y for x, y in zip(l[:, 0], b[:, 0])]), "an inconsistent system has no solution")
        return
    x = solve_f2_linear_system(lhs, rhs)
    eq(e, mul(a, np.asarray(x).reshape(n, 1)), b, "the solution satisfies the system")


def h_empty(e):
    """Matrices without rows or columns, and construction."""
    setup(e)
    dt = np.uint8 if e.mode == "concrete" else object
    m, n = e.choose("shape", [(0, 2), (2, 0), (0, 0), (1, 1)])
    z = lambda *s: np.zeros(s, dtype=dt).view(MatGF2)
    A = z(m, n)
    e.check(A.rank() == 0, "the rank of zero")
    N = A.null_space()
    e.check(N.shape == (n, n), "every vector is in the null space")
    eq(e, N, np.eye(n, dtype=int), "every vector is in the null space") if n < 2 else rank_is(e, np.asarray(N), n, "independent")
    r = A.right_inverse()
    e.check(r is None if m else (r is not None and r.shape == (n, 0)), "the right inverse")
    e.check(A.gauss_elimination().shape == (m, n) and A.row_reduction().shape == (m, n), "elimination")
    P = A.mat_mul(z(n, 3))
    e.check(P.shape == (m, 3) and not any(bool(v) for v in np.asarray(P).flat), "products")
    a = vals(e, "a", 2, 2)
    src = np.array(a, dtype=dt)
    c = MatGF2(src)
    c[0, 0] = 1 ^ c[0, 0]
    eq(e, src, a, "MatGF2 copies its data")
    d = MatGF2([[1, 0, 1], [0, 1, 1]])
    e.check(d.shape == (2, 3) and [int(v) for v in np.asarray(d).flat] == [1, 0, 1, 0, 1, 1], "construction")
    e.reached()


def jobs_P29(tier):
    t = tier == "thorough"
    js = [
        Job("product", h_product, dict(m=2, l=3, n=2), "2x3 by 3x2, all entries"),
        Job("product2", h_product, dict(m=1, l=2, n=3), "1x2 by 2x3, all entries"),
        Job("gauss33", h_gauss, dict(m=3, n=3), "3x3, all entries", 2),
        Job("gauss24", h_gauss, dict(m=2, n=4, extra=1), "2x4, all entries"),
        Job("gauss42", h_gauss, dict(m=4, n=2, extra=1), "4x2, all entries"),
        *[Job(f"rank{m}{n}", h_rank, dict(m=m, n=n), f"{m}x{n}, all entries") for m, n in ((3, 3), (2, 4), (4, 2), (1, 3))],
        *[Job(f"inverse{m}{n}", h_inverse, dict(m=m, n=n), f"{m}x{n}, all entries") for m, n in ((1, 3), (2, 2), (2, 3), (3, 3), (3, 2), (2, 4))],
        *[Job(f"null{m}{n}", h_null, dict(m=m, n=n), f"{m}x{n}, all entries") for m, n in ((1, 3), (2, 2), (2, 3), (3, 3), (3, 2), (2, 4))],
        Job("solve34", h_solve, dict(m=3, n=4), "3x4 systems in echelon form, all entries"),
        Job("solve43", h_solve, dict(m=4, n=3), "4x3 systems in echelon form, all entries"),
        Job("solve55", h_solve, dict(m=4, n=5), "4x5 systems in echelon form, all entries", 2),
        Job("system33", h_system, dict(m=3, n=3), "3x3 systems, all entries and right-hand sides"),
        Job("system24", h_system, dict(m=2, n=4), "2x4 systems, all entries and right-hand sides"),
        Job("system42", h_system, dict(m=4, n=2), "4x2 systems, all entries and right-hand sides"),
        Job("empty", h_empty, {}, "no rows or no columns", 0.5),
    ]
    if t:
        js += [
            Job("gauss34", h_gauss, dict(m=3, n=4, extra=1), "3x4, all entries", 3),
            Job("gauss43", h_gauss, dict(m=4, n=3), "4x3, all entries", 3),
            *[Job(f"{nm}{m}{n}", f, dict(m=m, n=n), f"{m}x{n}, all entries", 3) for nm, f in (("rank", h_rank), ("inverse", h_inverse), ("null", h_null), ("system", h_system)) for m, n in ((3, 4), (4, 4))],
            Job("product3", h_product, dict(m=3, l=3, n=3), "3x3 by 3x3, all entries", 3),
        ]
    return js


CHECKS = {
    "P29": dict(jobs=jobs_P29, quick_s=100, thorough_s=800, outside="larger matrices; the compiled code (the functions run uncompiled; parallel loops in two orders)"),
}
