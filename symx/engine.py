"""Path-exhaustive symbolic execution of the real Python code, decided by z3.

A *harness* is a plain function ``h(e, **cfg)`` that builds symbolic inputs
through the engine ``e``, runs functions of graphix on them and states claims
with :meth:`Engine.check`.  The engine re-executes the harness once per path:
every time the code under test needs the truth value of a symbolic condition,
z3 decides which outcomes are feasible under the current path condition and the
engine forks.  Every claim is a z3 query ``path condition AND NOT claim``.

The same harness runs in three modes:

``lazy``      symbolic proxies flow through the code; forks as late as possible
``eager``     symbolic inputs are forked into plain Python values as soon as
              they are created (used when the code needs something the proxies
              do not support, e.g. a C-level operation on a builtin type)
``concrete``  values come from a z3 model: used to replay a counterexample on
              the real code, with no proxy and no solver involved.
"""

from __future__ import annotations

import os
import random
import signal
import sys
import threading
import time
import traceback
import types

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

CUR: "Engine | None" = None
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Violation(Exception):
    """The claim fails (concrete mode), or z3 found a model (lazy/eager)."""

    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class PathEnd(BaseException):
    """Abandon the current path (infeasible assumption or bound reached)."""


class Unsupported(Exception):
    """A proxy met an operation it cannot represent symbolically."""


class Inconclusive(Exception):
    pass


class Anf:
    """Polynomial over GF(2); a monomial is an int bitmask of variables."""

    __slots__ = ("m",)

    def __init__(self, m=frozenset()):
        self.m = m

    def __xor__(self, o):
        if not o.m:
            return self
        if not self.m:
            return o
        return Anf(self.m ^ o.m)

    def __and__(self, o):
        if not self.m or not o.m:
            return ZERO
        if self is ONE or self.m == ONE.m:
            return o
        if o.m == ONE.m:
            return self
        acc = set()
        for a in self.m:
            for b in o.m:
                acc ^= {a | b}
        return Anf(frozenset(acc))

    def neg(self):
        return Anf(self.m ^ _ONEM)

    def __eq__(self, o):
        return isinstance(o, Anf) and self.m == o.m

    def __hash__(self):
        return hash(self.m)

    def const(self):
        """0, 1 or None."""
        if not self.m:
            return 0
        if self.m == _ONEM:
            return 1
        return None

    def __repr__(self):
        return f"Anf({sorted(self.m)})"


_ONEM = frozenset([0])
ZERO = Anf(frozenset())
ONE = Anf(_ONEM)


def mk(v):
    return ONE if v else ZERO


class Stats:
    KEYS = ("paths", "queries", "solver_s", "trivial", "claims", "claim_queries", "infeasible", "eager_paths",
            "unknown", "reached", "folded", "crosschecked")

    def __init__(self):
        for k in self.KEYS:
            setattr(self, k, 0)

    def as_dict(self):
        return {k: getattr(self, k) for k in self.KEYS}

    def add(self, d):
        for k in self.KEYS:
            setattr(self, k, getattr(self, k) + d.get(k, 0))


_CTX = z3.main_ctx()
_REF = _CTX.ref()
_AST = z3.z3types.Ast if hasattr(z3, "z3types") else z3.Ast


def zand(xs):
    """z3.And without the overhead of argument coercion (xs: list of BoolRef)."""
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(z3.Z3_mk_and(_REF, n, (_AST * n)(*[x.ast for x in xs])), _CTX)


def zor(xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(z3.Z3_mk_or(_REF, n, (_AST * n)(*[x.ast for x in xs])), _CTX)


def znot(x):
    return z3.BoolRef(z3.Z3_mk_not(_REF, x.ast), _CTX)


def zxor(a, b):
    return z3.BoolRef(z3.Z3_mk_xor(_REF, a.ast, b.ast), _CTX)


class _Table:
    """Per-process table of bit variables and of the z3 terms built from them (shared by successive paths)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.index, self.names, self.zbits, self.zcache, self.marks = {}, [], [], {}, {}


_TAB = _Table()


class Engine:
    def __init__(self, mode="lazy", prefix=(), model=None, seed=1, assume=None, stats=None, query_ms=20000, init_pc=()):
        self.mode = mode
        self.prefix = tuple(prefix)
        self.model = dict(model or {})  # name -> value (concrete mode)
        self.decisions = []
        self.new_prefixes = []
        self.stats = stats or Stats()
        self.solver = None
        self.pc = []
        self.vars = {}  # name -> index (bits)
        if len(_TAB.names) > 160 or len(_TAB.zcache) > 200000 or len(_TAB.marks) > 100000:
            _TAB.reset()
        self.tab = _TAB
        self.varnames = _TAB.names
        self.zbits = _TAB.zbits
        self.known = {}  # bit index -> 0/1 from decided single-variable facts
        self.used = set()  # bit indices mentioned in pc (non trivially)
        self.reals = {}
        self.ival = {}
        self.choices = {}  # name -> value chosen (symbolic modes)
        self.assume_model = assume  # for eager: dict name->value fixed
        self.rng = random.Random(seed)
        self.query_ms = query_ms
        self.late = None  # callable: definitions kept out of the path condition until something fails
        self.notes = []
        self.tokens = []
        self.claims_here = 0
        self._zcache = _TAB.zcache
        self._known_dirty = False
        self.all_used = bool(init_pc)
        for c in init_pc:
            self.pc.append(c)

    # ------------------------------------------------------------------ z3
    def _solver(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", self.query_ms)
            for c in self.pc:
                self.solver.add(c)
        return self.solver

    def add(self, c):
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c)

    def query(self, *assumptions, model=True):
        s = self._solver()
        t = time.perf_counter()
        s.push()
        for a in assumptions:
            s.add(a)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t
        m = s.model() if model and r == z3.sat else None
        s.pop()
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    # ---------------------------------------------------------------- bits
    def bitvar(self, name):
        i = self.vars.get(name)
        if i is None:
            i = self.tab.index.get(name)
            if i is None:
                i = self.tab.index[name] = len(self.varnames)
                self.varnames.append(name)
                self.zbits.append(z3.Bool(name))
            self.vars[name] = i
        return i

    def anf(self, name):
        """Fresh (or existing) GF(2) variable as Anf."""
        if self.mode == "concrete":
            return mk(self.model.get(name, 0))
        i = self.bitvar(name)
        a = Anf(frozenset([1 << i]))
        if self.mode == "eager":
            return mk(self.decide_anf(a))
        return a

    def reduce(self, a: Anf) -> Anf:
        if not self.known or not a.m:
            return a
        acc = None
        ones, zeros = self._masks()
        touched = ones | zeros
        for t in a.m:
            if t & touched:
                break
        else:
            return a
        acc = set()
        for t in a.m:
            if t & zeros:
                continue
            acc ^= {t & ~ones}
        return Anf(frozenset(acc))

    def _masks(self):
        if self._known_dirty or not hasattr(self, "_mk"):
            o = z = 0
            for i, v in self.known.items():
                if v:
                    o |= 1 << i
                else:
                    z |= 1 << i
            self._mk = (o, z)
            self._known_dirty = False
        return self._mk

    def z(self, a: Anf):
        """z3 Bool of an Anf."""
        c = a.const()
        if c is not None:
            return z3.BoolVal(bool(c))
        r = self._zcache.get(a.m)
        if r is not None:
            return r
        terms = []
        neg = False
        for t in sorted(a.m):
            if t == 0:
                neg = True
                continue
            fs = []
            while t:
                b = t & -t
                fs.append(self.zbits[b.bit_length() - 1])
                t ^= b
            terms.append(zand(fs))
        e = terms[0]
        for t in terms[1:]:
            e = zxor(e, t)
        if neg:
            e = znot(e)
        self._zcache[a.m] = e
        return e

    def _fresh(self, a: Anf):
        """True if a has a variable occurring alone as a linear term and in no
        path-condition fact: then both truth values are feasible."""
        if self.all_used:
            return False
        allvars = 0
        for t in a.m:
            allvars |= t
        for t in a.m:
            if t and t & (t - 1) == 0:
                i = t.bit_length() - 1
                if i not in self.used and sum(1 for mm in a.m if mm & t) == 1:
                    return True
        return False

    def _note_used(self, a: Anf):
        for t in a.m:
            while t:
                b = t & -t
                self.used.add(b.bit_length() - 1)
                t ^= b

    def decide_anf(self, a: Anf) -> bool:
        """Concretise a GF(2) polynomial, forking when both values are feasible."""
        a = self.reduce(a)
        c = a.const()
        if c is not None:
            return bool(c)
        fresh = self._fresh(a)
        if fresh:
            self.stats.trivial += 1
        r = self._decide(lambda v: self.z(a) if v else znot(self.z(a)), (True, False), fresh)
        if len(a.m) <= 2:
            ts = [t for t in a.m if t]
            if len(ts) == 1 and ts[0] & (ts[0] - 1) == 0:
                i = ts[0].bit_length() - 1
                self.known[i] = int(r) ^ (1 if 0 in a.m else 0)
                self._known_dirty = True
        self._note_used(a)
        return r

    def decide_z(self, cond) -> bool:
        """Concretise a z3 Bool, forking when both values are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._mark_z(cond)
        return self._decide(lambda v: cond if v else znot(cond), (True, False), False)

    def _mark_z(self, cond):
        marks = self.tab.marks
        key = cond.get_id()
        got = marks.get(key)
        if got is None:
            names = set()
            stack = [cond.ast]
            seen = set()
            while stack:
                x = stack.pop()
                i = z3.Z3_get_ast_id(_REF, x)
                if i in seen:
                    continue
                seen.add(i)
                app = z3.Z3_to_app(_REF, x) if z3.Z3_is_app(_REF, x) else None
                if app is None:
                    continue
                n = z3.Z3_get_app_num_args(_REF, app)
                if n == 0:
                    names.add(z3.Z3_get_symbol_string(_REF, z3.Z3_get_decl_name(_REF, z3.Z3_get_app_decl(_REF, app)))
                              if z3.Z3_get_symbol_kind(_REF, z3.Z3_get_decl_name(_REF, z3.Z3_get_app_decl(_REF, app)))
                              == z3.Z3_STRING_SYMBOL else "")
                else:
                    stack.extend(z3.Z3_get_app_arg(_REF, app, j) for j in range(n))
            got = (frozenset(names), cond)  # keeps the term alive: its id is the key
            marks[key] = got
        for n in got[0]:
            i = self.vars.get(n)
            if i is not None:
                self.used.add(i)

    def _decide(self, cond_of, options, free):
        if self.mode == "concrete":
            raise Unsupported("symbolic condition in concrete mode")
        k = len(self.decisions)
        if k < len(self.prefix):
            v = options[self.prefix[k]]
            self.decisions.append(self.prefix[k])
            self.add(cond_of(v))
            return v
        if free:
            feas = list(range(len(options)))
        else:
            feas = []
            for j, v in enumerate(options):
                if j == len(options) - 1 and not feas:
                    feas.append(j)  # path condition is satisfiable, so the last one must be
                    break
                r, _ = self.query(cond_of(v), model=False)
                if r != z3.unsat:
                    feas.append(j)
        if not feas:
            raise PathEnd
        if len(feas) > 1:
            self.rng.shuffle(feas)
            for j in feas[1:]:
                self.new_prefixes.append(tuple(self.decisions) + (j,))
        j = feas[0]
        self.decisions.append(j)
        self.add(cond_of(options[j]))
        return options[j]

    # ------------------------------------------------------------- choices
    def choose(self, name, options):
        """Symbolic selector over a finite list of options, forked lazily."""
        options = list(options)
        assert options
        if len(options) == 1:
            return options[0]
        if self.mode == "concrete":
            return options[self.model.get(name, 0) % len(options)]
        if name in self.choices:
            return options[self.choices[name] % len(options)]
        if self.assume_model is not None and name in self.assume_model:
            j = self.assume_model[name]
            self.choices[name] = j
            return options[j]
        k = len(self.decisions)
        if k < len(self.prefix):
            j = self.prefix[k]
        else:
            feas = list(range(len(options)))
            self.rng.shuffle(feas)
            for jj in feas[1:]:
                self.new_prefixes.append(tuple(self.decisions) + (jj,))
            j = feas[0]
            self.stats.trivial += 1
        self.decisions.append(j)
        self.choices[name] = j
        return options[j]

    def assume(self, cond):
        """Restrict the inputs (cond: bool, Bit, SymBool)."""
        if isinstance(cond, (bool, int)) and not hasattr(cond, "_sym"):
            if not cond:
                self.stats.infeasible += 1
                raise PathEnd
            return
        if self.mode == "concrete":
            if not cond:
                raise PathEnd
            return
        zc = cond.z3()
        zc = z3.simplify(zc)
        if z3.is_true(zc):
            return
        if z3.is_false(zc):
            self.stats.infeasible += 1
            raise PathEnd
        self._mark_z(zc)
        self.add(zc)
        r, _ = self.query()
        if r == z3.unsat:
            self.stats.infeasible += 1
            raise PathEnd

    # -------------------------------------------------------------- claims
    def get_model(self, m):
        out = {}
        for n, i in self.vars.items():
            v = m.eval(self.zbits[i], model_completion=True)
            out[n] = 1 if z3.is_true(v) else 0
        for n, r in self.reals.items():
            v = m.eval(r, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(v.as_fraction())
            else:
                out[n] = float(v.approx(20).as_fraction())
        out.update(self.choices)
        if self.assume_model:
            for k, v in self.assume_model.items():
                out.setdefault(k, v)
        return out

    def nice(self, r, m, *assumptions):
        """Prefer generic values for the real atoms of a counterexample (keeps numeric replay away from
        degenerate angles such as 1e-6)."""
        if r != z3.sat or not self.reals:
            return m
        from fractions import Fraction

        pref = []
        for k, (n, v) in enumerate(sorted(self.reals.items())):
            pref.append([v == z3.RealVal(str(Fraction(c + 2 * k, 97))) for c in (23, 36, 113, 155, -31, 7)])
        s = self._solver()
        s.push()
        for a in assumptions:
            s.add(a)
        s.set("timeout", 2000)
        try:
            t = time.perf_counter()
            for alts in pref:
                for c in alts:
                    s.push()
                    s.add(c)
                    if s.check() == z3.sat:
                        m = s.model()
                        break  # keep the constraint
                    s.pop()
            self.stats.solver_s += time.perf_counter() - t
            # unwinding: pop everything down to our frame
            while s.num_scopes() > 0:
                s.pop()
        finally:
            s.set("timeout", self.query_ms)
        return m

    def reached(self):
        """Vacuity witness: the harness got to its claims on this path."""
        self.stats.reached += 1

    def check(self, cond, msg):
        """Claim: cond holds for every value on this path."""
        self.stats.claims += 1
        if not hasattr(cond, "_sym"):
            if not cond:
                if self.mode == "concrete":
                    raise Violation(msg)
                self.stats.claim_queries += 1
                r, m = self.query()
                if r == z3.sat and self.late is not None:
                    r, m = self.query(*self.late())
                    if r == z3.sat:
                        raise Violation(msg, self.get_model(m))
                if r == z3.unsat:
                    raise PathEnd
                if r == z3.unknown:
                    raise Inconclusive(msg)
                raise Violation(msg, self.get_model(self.nice(r, m)))
            self.stats.folded += 1
            return
        if self.mode == "concrete":
            raise Unsupported("symbolic claim in concrete mode")
        self.check_z(cond.z3(), msg)

    def check_z(self, zc, msg, extra=()):
        """Claim as a z3 Bool."""
        r, m = self.query(z3.Not(zc), *extra)
        self.stats.claim_queries += 1
        if r == z3.sat:
            raise Violation(msg, self.get_model(self.nice(r, m, z3.Not(zc), *extra)))
        if r == z3.unknown:
            raise Inconclusive(msg)

    def fail(self, msg):
        self.check(False, msg)


class Hang(BaseException):
    """A path that does not end."""


HANG_S = 20.0  # CPU seconds, without the solver's


class Watchdog:
    """Raise Hang in the running path once it has used HANG_S of CPU time outside the solver."""

    def __init__(self, stats):
        self.stats = stats

    def used(self):
        return time.process_time() - self.t0 - (self.stats.solver_s - self.s0)

    def fire(self, *_):
        left = HANG_S - self.used()
        if left <= 0.05:
            raise Hang
        signal.setitimer(signal.ITIMER_VIRTUAL, max(left, 0.5))

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.t0, self.s0 = time.process_time(), self.stats.solver_s
            self.old = signal.signal(signal.SIGVTALRM, self.fire)
            signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S)

    def __exit__(self, *_):
        if self.on:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, self.old)
        return False


def harness_fault(ex):
    """The harness gave up, or does not find a private helper of a module: this says nothing about the code."""
    if isinstance(ex, Unsupported):
        return True
    if not isinstance(ex, AttributeError) or not isinstance(getattr(ex, "obj", None), types.ModuleType):
        return False
    t = ex.__traceback__
    while t.tb_next:
        t = t.tb_next
    return t.tb_frame.f_code.co_filename.startswith(VERIF)


def run_path(h, cfg, prefix, seed, stats, mode="lazy", model=None, assume=None, trace=None, init_pc=()):
    """Run one path. Returns (engine, outcome) where outcome is one of
    None, ('violation', msg, model), ('error', exc, model), ('inconclusive', msg)."""
    global CUR
    e = Engine(mode, prefix, model, seed=(seed, prefix).__hash__() & 0x7FFFFFFF, assume=assume, stats=stats,
               init_pc=init_pc)
    old = CUR
    CUR = e
    import numpy as np

    try:
        np.random.seed(0)
        with Watchdog(stats):
            h(e, **cfg)
        out = None
    except PathEnd:
        out = None
    except Violation as v:
        out = ("violation", v.msg, v.model if v.model is not None else dict(e.model))
    except Inconclusive as v:
        out = ("inconclusive", str(v), None)
    except (Exception, Hang) as ex:  # noqa: BLE001
        if mode == "concrete" and harness_fault(ex):
            CUR = old
            stats.paths += 1
            return e, ("inconclusive", f"{type(ex).__name__}: {ex}", None)
        tb = traceback.format_exc(limit=-12)
        if isinstance(ex, Hang):
            ex = f"no result after {HANG_S:g} s of computation"
        m = None
        if mode != "concrete":
            r, mm = e.query()
            late = False
            if r == z3.sat and e.late is not None:
                r2, m2 = e.query(*e.late())
                if r2 != z3.unknown:
                    r, mm, late = r2, m2, True
            if r == z3.sat:
                m = e.get_model(mm if late else e.nice(r, mm))
        else:
            m = dict(e.model)
        out = ("error", f"Hang: {ex}" if isinstance(ex, str) else f"{type(ex).__name__}: {ex}", m, tb)
        if mode != "concrete" and r == z3.unsat:
            out = None  # the path is impossible
    finally:
        CUR = old
    stats.paths += 1
    if trace is not None:
        trace.append(e)
    return e, out
