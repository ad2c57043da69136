"""Command-level rewrites, space/depth optimisation, composition and copies, runnability (P08-P11)."""

from __future__ import annotations

import copy
import dataclasses
import types

import graphix.optimization
import graphix.space_minimization as sm
from graphix.optimization import StandardizedPattern
from graphix.pattern import PatternError, RunnabilityError, RunnabilityErrorReason, shift_outcomes

from .common import *  # noqa: F403

shim_all()
relax_runnability()
z3 = engine.z3


def mnodes(p):
    return [c.node for c in p if c.kind.name == "M"]


def prenodes(p):
    return list(p.input_nodes) + [c.node for c in p if c.kind.name == "N"]


def same_io(e, p, q, what):
    e.check(list(q.input_nodes) == list(p.input_nodes), f"{what}: input nodes changed")
    e.check(list(q.output_nodes) == list(p.output_nodes), f"{what}: output nodes changed")


def dsize_le1(e, d):
    if type(d) is SymSet:
        ms = [d.mem(x) for x in d.m]
        return sand(*[snot(sand(bitb(a), bitb(b))) for a, b in itertools.combinations(ms, 2)])
    return len(d) <= 1


def bitb(a):
    c = a.const()
    return bool(c) if c is not None else SymBool(engine.CUR.z(a))


def cmds_same(p, q):
    """Same commands (kinds, nodes, angles, domains), as a claim."""
    cs = []
    l1, l2 = (list(r.cmds if type(r) is types.SimpleNamespace else r) for r in (p, q))
    if len(l1) != len(l2) or list(p.input_nodes) != list(q.input_nodes) or list(p.output_nodes) != list(q.output_nodes):
        return False
    for a, b in zip(l1, l2):
        if type(a) is not type(b):
            return False
        k = a.kind.name
        if k == "E":
            if tuple(a.nodes) != tuple(b.nodes):
                return False
            continue
        if a.node != b.node:
            return False
        if k == "M":
            if type(a.measurement) is not type(b.measurement):
                return False
            if isinstance(a.measurement, PauliMeasurement):
                if a.measurement != b.measurement:
                    return False
            else:
                if a.measurement.plane != b.measurement.plane:
                    return False
                cs.append(a.measurement.angle == b.measurement.angle)
            cs += [deq(a.s_domain, b.s_domain), deq(a.t_domain, b.t_domain)]
        elif k in ("X", "Z"):
            cs.append(deq(a.domain, b.domain))
        elif k == "C" and a.clifford is not b.clifford:
            return False
    return sand(*cs)


def deq(a, b):
    la, lb = SymSet.lift(a) or SymSet({x: ONE for x in a}), SymSet.lift(b) or SymSet({x: ONE for x in b})
    return sand(*[bitb((la.mem(x) ^ lb.mem(x)).neg()) for x in set(la.m) | set(lb.m)])


# ------------------------------------------------------------------ P08 command-level rewrites
def h_single(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    op = e.choose("op", ["single", "useless"])
    if e.mode == "concrete":
        e.notes.append((op, show(ref)))
    q = (graphix.optimization.single_qubit_domains if op == "single" else graphix.optimization.remove_useless_domains)(p)
    if e.mode == "concrete":
        e.notes.append(show(q))
    e.reached()
    same_io(e, ref, q, op)
    oc = Outc(e)
    A = sem.run_pattern(e, ref, oc)
    sem.check_equal(e, A, sem.run_pattern(e, q, oc), f"{op} changed the channel of some branch")
    e.check(cmds_same(p, ref), f"{op} modified its argument")
    if op == "single":
        for c in q:
            for at in ("s_domain", "t_domain", "domain"):
                d = getattr(c, at, None)
                if d is not None:
                    e.check(dsize_le1(e, d), "a domain with more than one node remains")
    else:
        for c in q:
            if c.kind.name == "M" and isinstance(c.measurement, PauliMeasurement) and c.measurement.sign.value == 1:
                d = {"X": c.s_domain, "Z": c.t_domain}.get(c.measurement.axis.name)
                if d is not None:
                    e.check(deq(d, set()), "a domain without effect remains")


def h_noinput(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    if e.mode == "concrete":
        e.notes.append(show(ref))
    p.remove_input_nodes()
    e.reached()
    e.check(list(p.input_nodes) == [], "remove_input_nodes leaves inputs")
    e.check(list(p.output_nodes) == list(ref.output_nodes), "remove_input_nodes changed the outputs")
    exp = Pattern()
    exp.extend([command.N(n) for n in ref.input_nodes], list(ref))
    exp.reorder_output_nodes(list(ref.output_nodes))
    oc = Outc(e)
    sem.check_equal(e, sem.run_pattern(e, exp, oc), sem.run_pattern(e, p, oc), "remove_input_nodes changed the state")
    e.check(p.n_node == len(prenodes(p)), "n_node is not the number of nodes")


def h_noclifford(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    cp = e.choose("copy", [True, False, "fn"])
    if e.mode == "concrete":
        e.notes.append((cp, show(ref)))
    q = graphix.optimization.remove_local_clifford_commands(p) if cp == "fn" else p.remove_local_clifford_commands(copy=cp)
    if e.mode == "concrete":
        e.notes.append(show(q))
    e.reached()
    e.check(list(q.input_nodes) == list(ref.input_nodes), "inputs changed")
    e.check(len(q.output_nodes) == len(ref.output_nodes), "number of outputs changed")
    e.check(all(c.kind.name != "C" for c in q), "a Clifford command remains")
    e.check(len(set(prenodes(q))) == len(prenodes(q)), "a node is prepared twice")
    e.check(q.n_node == len(prenodes(q)), "n_node is not the number of nodes")
    if cp is False:
        e.check(q is p, "in-place operation returned another object")
    else:
        e.check(cmds_same(p, ref), "remove_local_clifford_commands modified its argument")
    ins = set(ref.input_nodes) | {c.node for c in ref if c.kind.name == "N"}
    mref, mq = [c for c in ref if c.kind.name == "M"], [c for c in q if c.kind.name == "M"]
    e.check(len(mq) >= len(mref), "measurements lost")
    k = len(mq) - len(mref)
    # which measurements of the result are the original ones: same order, same measured observable
    cands = []
    for keep in itertools.combinations(range(len(mq)), len(mref)):
        if all(same_meas(a.measurement, mq[i].measurement) for a, i in zip(mref, keep)):
            cands.append(keep)
    e.check(bool(cands), "an original measurement is lost or altered")
    names = [f"r{i}" for i in range(len(mref))]
    ov = [out_anf(e, n) for n in names]
    gv = [out_anf(e, f"g{i}") for i in range(k)]

    def maps(keep, ov, gv):
        it = iter(gv)
        og = {}
        for i, c in enumerate(mq):
            og[c.node] = ov[keep.index(i)] if i in keep else next(it)
        A = sem.run_pattern(e, ref, lambda n: ov[[c.node for c in mref].index(n)])
        B = sem.run_pattern(e, q, lambda n: og[n])
        return A, B

    if e.mode == "concrete":
        import numpy as np

        bad = True
        for keep in cands:
            ok = True
            for bits in itertools.product((0, 1), repeat=len(ov) + k):
                A, B = maps(keep, [mk(b) for b in bits[:len(ov)]], [mk(b) for b in bits[len(ov):]])
                if A.shape != B.shape or not np.allclose(A, B * 2 ** k, atol=1e-6):
                    ok = False
                    break
            if ok:
                bad = False
                break
        e.check(not bad, "removing Clifford commands changed the channel of some branch")
    else:
        last = None
        for keep in cands:
            d = z3.simplify(sem.maps_differ(e, *maps(keep, ov, gv)))
            if z3.is_false(d):
                e.stats.folded += 1
                return
            e.stats.claim_queries += 1
            r, m = e.query(d)
            if r == z3.unsat:
                return
            last = d
        e.check_z(z3.Not(last), "removing Clifford commands changed the channel of some branch")


def same_meas(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, PauliMeasurement):
        return a == b
    return a.plane == b.plane and (a.angle is b.angle or (type(a.angle) is not Real and abs(a.angle - b.angle) < 1e-9))


ALLM = PLANES + PAULIS


def jobs_P08(tier):
    t = tier == "thorough"
    js = [
        Job("single.n3", h_single, dict(n=3, nin=1, nout=1, kinds=ALLM, edges="choose", mid=[(0, 1), (1, 2)], final_c=(None, 6)),
            "3 nodes, every graph, all measurement kinds, corrections between measurements, all domains"),
        Job("single.n4", h_single, dict(n=4, nin=1, nout=1, kinds=["XY", "+X", "-X", "+Z", "-Z", "+Y"], edges="path", final_c=(None,)),
            "4-node path, 3 measurements, all domains"),
        Job("single.out2", h_single, dict(n=4, nin=2, nout=2, kinds=["XY", "+X", "+Z"], edges="path", final_c=(None, 6), in_perm=True, out_perm=True),
            "4 nodes, 2 in and 2 out in any order"),
        Job("noinput.n3", h_noinput, dict(n=3, nin=2, nout=1, kinds=["XY", "YZ", "-Z"], edges="choose", final_c=(None, 4)),
            "2 inputs, 3 nodes"),
        Job("noinput.out2", h_noinput, dict(n=4, nin=2, nout=2, kinds=["XY", "XZ"], edges="path", in_perm=True, out_perm=True), "2 inputs, 2 outputs, in any order", 0.5),
        Job("noclif.out", h_noclifford, dict(n=2, nin=1, nout=1, kinds=["XY", "+Y"], edges="complete", final_c=tuple(range(24)),
            orders=("CXZ", "XZC")), "every Clifford on the output before or after the corrections"),
        Job("noclif.mid", h_noclifford, dict(n=3, nin=1, nout=2, kinds=["XY", "YZ", "-X"], edges=[(0, 1), (1, 2)], edge_times=True,
            mid=[(0, 1)], mid_c=tuple(range(24)), final_c=(None, 6), orders=("CXZ", "XZC"), out_perm=True),
            "every Clifford on a node that is later entangled and measured"),
        Job("noclif.in", h_noclifford, dict(n=2, nin=2, nout=1, kinds=["XZ"], edges="complete", mid=[], final_c=tuple(range(24)), orders=("C",), in_perm=True),
            "Clifford on an input that is an output"),
        Job("noclif.empty", h_noclifford, dict(n=1, nin=1, nout=1, kinds=["XZ"], edges=[], final_c=tuple(range(24)), orders=("C",)), "single wire"),
    ]
    if t:
        js += [
            Job("single.n5", h_single, dict(n=5, nin=1, nout=2, kinds=["XY", "-X", "+X", "+Z"], edges="path", mid=[(1, 2)]), "5-node path"),
            Job("noclif.n4", h_noclifford, dict(n=4, nin=1, nout=2, kinds=["XY", "XZ"], edges="path", edge_times=True,
                mid=[(0, 1), (0, 2), (1, 2)], mid_c=(None, 6, 9, 16, 22), final_c=(None, 7, 14), orders=("XZC", "CXZ"), sdom=False), "4-node path"),
        ]
    return js


# ------------------------------------------------------------------ P09 space and depth
def live_counts(p):
    n = len(p.input_nodes)
    mx = n
    steps = []
    for c in p:
        k = c.kind.name
        if k == "N":
            n += 1
            steps.append(n)
        elif k == "M":
            n -= 1
            steps.append(n)
        mx = max(mx, n)
    return mx, steps


def runnable(e, p, what):
    """Every command acts on live nodes; domains only mention measured nodes (claim)."""
    live, done = set(p.input_nodes), set()
    cs = []
    for c in p:
        k = c.kind.name
        if k == "N":
            e.check(c.node not in live and c.node not in done, f"{what}: a node is prepared twice")
            live.add(c.node)
            continue
        ns = c.nodes if k == "E" else (c.node,)
        e.check(all(n in live for n in ns), f"{what}: a command acts on a node that is not live")
        for at in ("s_domain", "t_domain", "domain"):
            d = getattr(c, at, None)
            if d is not None:
                ds = d if type(d) is SymSet else SymSet({x: ONE for x in d})
                cs += [bitb(ds.mem(x).neg()) for x in ds.m if x not in done]
        if k == "M":
            live.discard(c.node)
            done.add(c.node)
    e.check(sand(*cs), f"{what}: a domain mentions a node that is not measured yet")
    return live


def min_space_is(e, p, reported):
    """Solver query: no placement of the preparations, with p's measurement order, needs fewer live nodes."""
    order = mnodes(p)
    ins = set(p.input_nodes)
    graph = {}
    for c in p:
        if c.kind.name == "E":
            u, v = c.nodes
            for a, b in ((u, v), (v, u)):
                graph.setdefault(a, {})
                graph[a][b] = graph[a].get(b, 0) ^ 1
    s = z3.Solver()
    nm = len(order)
    pos = {n: i for i, n in enumerate(order)}
    tv = {}
    for n in prenodes(p):
        if n in ins:
            continue
        t = z3.Int(f"t{n}")
        tv[n] = t
        ub = pos.get(n, nm)
        for b, par in graph.get(n, {}).items():
            if par:
                ub = min(ub, pos.get(b, nm))
        s.add(t >= 0, t <= ub)
    for k in range(nm + 1):
        live = z3.IntVal(len(ins) - k) + z3.Sum([z3.If(t <= k, 1, 0) for t in tv.values()] + [z3.IntVal(0)])
        s.add(live < reported)
    s.add(len(ins) < reported)
    r = s.check()
    e.stats.queries += 1
    e.stats.claim_queries += 1
    return r == z3.unsat


def cz_graph(p):
    graph = {n: {} for n in prenodes(p)}
    for c in p:
        if c.kind.name == "E":
            u, v = c.nodes
            for a, b in ((u, v), (v, u)):
                graph[a][b] = graph[a].get(b, 0) ^ 1
    return {n: {m for m, par in d.items() if par} for n, d in graph.items()}


def optimal_order(e, p, reported):
    """Solver query: no measurement order at all needs fewer live nodes than reported."""
    ins, graph, ms = set(p.input_nodes), cz_graph(p), mnodes(p)
    nm = len(ms)
    s = z3.Solver()
    pos = {n: z3.Int(f"p{n}") for n in ms}
    s.add(z3.Distinct(*pos.values()) if nm > 1 else z3.BoolVal(True), *[z3.And(0 <= v, v < nm) for v in pos.values()])
    tv = {n: z3.Int(f"t{n}") for n in graph if n not in ins}
    for n, t in tv.items():
        s.add(t >= 0, t <= nm, *[t <= pos[b] for b in graph[n] | {n} if b in pos])
    s.add(len(ins) < reported)
    for k in range(nm + 1):
        s.add(z3.IntVal(len(ins) - k) + z3.Sum([z3.If(t <= k, 1, 0) for t in tv.values()] + [z3.IntVal(0)]) < reported)
    e.stats.queries += 1
    e.stats.claim_queries += 1
    return s.check() == z3.unsat


def greedy_order(p):
    """Claims: each measured node has minimal degree in the remaining graph among the nodes that could be measured."""
    graph, order, dom = cz_graph(p), mnodes(p), {}
    for c in p:
        if c.kind.name == "M":
            ds = [d if type(d) is SymSet else SymSet({x: ONE for x in d}) for d in (c.s_domain, c.t_domain)]
            dom[c.node] = ds
    cs = []
    for k, n in enumerate(order):
        left = set(order[k:])
        rem = set(graph) - set(order[:k])
        deg = {m: len(graph[m] & rem) for m in left}
        for m in left:
            if deg[m] < deg[n]:
                cs.append(sor(*[bitb(d.mem(x)) for d in dom[m] for x in d.m if x in left]))
    return sand(*cs)


def h_space(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    op = e.choose("op", ["min", "min_copy", "order", "none", "greedy", "flow", "par", "std_opt"])
    if e.mode == "concrete":
        e.notes.append((op, show(ref)))
    mx0, steps0 = live_counts(ref)
    e.check(p.max_space() == mx0, "max_space is not the largest number of live nodes")
    e.check(list(p.space_list()) == steps0, "space_list is not the number of live nodes at each step")
    H = sm.SpaceMinimizationHeuristics
    if op == "min":
        q = p.minimize_space()
    elif op == "min_copy":
        q = p.minimize_space(copy=True)
    elif op == "par":
        p.parallelize_pattern()
        q = p
    elif op == "std_opt":
        sp = StandardizedPattern.from_pattern(p)
        q = sp.to_space_optimal_pattern()
        e.check(sp.max_space() == live_counts(q)[0], "StandardizedPattern.max_space is not the space of its space-optimal pattern")
    else:
        hs = {"order": [H.order_unchanged], "none": [], "greedy": [H.greedy_degree], "flow": [H.causal_flow]}[op]
        q = p.minimize_space(hs)
    if e.mode == "concrete":
        e.notes.append(show(q))
    e.reached()
    same_io(e, ref, q, op)
    live = runnable(e, q, op)
    e.check(sorted(mnodes(q)) == sorted(mnodes(ref)), f"{op}: measurements lost or duplicated")
    e.check(sorted(live) == sorted(q.output_nodes), f"{op}: wrong live nodes at the end")
    oc = Outc(e)
    A = sem.run_pattern(e, ref, oc)
    sem.check_equal(e, A, sem.run_pattern(e, q, oc), f"{op} changed the channel of some branch")
    mx, steps = live_counts(q)
    e.check(q.max_space() == mx, "max_space is not the largest number of live nodes")
    e.check(list(q.space_list()) == steps, "space_list is not the number of live nodes at each step")
    if op in ("min", "min_copy", "order", "none", "std_opt"):
        e.check(mx <= mx0, f"{op}: the maximal space increased")
    if op in ("order", "none", "std_opt"):
        e.check(mnodes(q) == mnodes(ref), f"{op}: the measurement order changed")
    if op in ("min", "min_copy"):
        for h in (H.order_unchanged, H.greedy_degree):
            o = snapshot(ref)
            o.minimize_space([h])
            e.check(mx <= live_counts(o)[0], f"{op}: more space than one of the default heuristics alone")
    if op == "greedy":
        e.check(greedy_order(q), "greedy: a node that could be measured had a smaller degree in the remaining graph")
    if op in ("min", "flow"):
        try:
            StandardizedPattern.from_pattern(snapshot(ref)).extract_causal_flow()
        except Exception:
            pass
        else:
            e.check(optimal_order(e, q, mx), f"{op}: the pattern has a causal flow, but another measurement order needs less space")
    e.check(min_space_is(e, q, mx), f"{op}: a placement of the preparations with less space exists for this measurement order")
    if op in ("min_copy", "std_opt"):
        e.check(cmds_same(p, ref), f"{op} modified its argument")
    elif op != "par":
        e.check(q is p, "in-place operation returned another object")


def h_access(e, **kw):
    """Structural queries on a pattern."""
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    if e.mode == "concrete":
        e.notes.append(show(ref))
    adj = {n: {} for n in prenodes(ref)}
    for c in ref:
        if c.kind.name == "E":
            u, v = c.nodes
            adj[u][v] = adj[u].get(v, 0) ^ 1
            adj[v][u] = adj[v].get(u, 0) ^ 1
    nb = {n: sorted(m for m, b in d.items() if b) for n, d in adj.items()}
    e.reached()
    e.check(set(p.nodes()) == set(adj), "nodes() is wrong")
    e.check(p.n_node == len(adj), "n_node is wrong")
    e.check(p.max_degree() == max([len(v) for v in nb.values()], default=0), "max_degree is wrong")
    e.check(set(p.isolated_nodes()) == {n for n, v in nb.items() if not v}, "isolated_nodes is wrong")
    mc = p.measurement_commands()
    e.check(list(mc) == mnodes(ref) and all(mc[n].node == n for n in mc), "measurement_commands is wrong")
    e.check(cmds_same(p, ref), "a query modified the pattern")
    node = e.choose("node", sorted(adj))
    prep = e.choose("prep", [None] + sorted(adj))
    q = snapshot(p)
    got = sorted(q.connected_nodes(node, None if prep is None else {prep}))
    if all(sum(1 for c in ref if c.kind.name == "E" and set(c.nodes) == {node, m}) < 2 for m in adj):
        e.check(got == [m for m in nb[node] if m != prep], "connected_nodes is wrong")
    q.standardize()
    cc = q.correction_commands()
    e.check(len(cc) == sum(1 for c in q if c.kind.name in ("X", "Z")) and all(c.kind.name in ("X", "Z") for c in cc),
            "correction_commands is wrong")
    last = {}
    for c in q:
        if c.kind.name == "C":
            e.check(c.node not in last, "a standardised pattern has two Cliffords on a node")
            last[c.node] = c.clifford
    e.check(dict(q.clifford_commands()) == last, "clifford_commands is wrong")


def jobs_P09(tier):
    t = tier == "thorough"
    js = [
        Job("space.n4", h_space, dict(n=4, nin=1, nout=1, kinds=["XY"], edges="choose", edge_times=True, late=True, final=True, tdom=False),
            "4 nodes, 1 in, 1 out, every graph and placement"),
        Job("space.n4io", h_space, dict(n=4, nin=2, nout=2, kinds=["XY", "YZ"], edges="choose", mid=[(0, 1), (0, 3)], final_c=(None, 6), out_perm=True, in_perm=True),
            "4 nodes, 2 in, 2 out"),
        Job("space.n5", h_space, dict(n=5, nin=1, nout=1, kinds=["XY"], edges="choose", sdom=False, tdom=False, final_c=(None,)),
            "5 nodes, every graph, corrections on the output"),
        Job("space.flow5", h_space, dict(n=5, nin=1, nout=2, kinds=["XY", "-X"], edges="path", edge_times=True, late=True, tdom=False, out_perm=True), "5-node path"),
        Job("space.noin", h_space, dict(n=4, nin=0, nout=2, kinds=["XY", "+Z"], edges="choose", tdom=False, out_perm=True), "no inputs"),
        Job("space.noout", h_space, dict(n=3, nin=1, nout=0, kinds=["XY", "XZ"], edges="choose"), "no outputs"),
        Job("access.n4", h_access, dict(n=4, nin=1, nout=2, kinds=["XY"], edges="multi", sdom=False, final_c=(None, 6)), "4 nodes, edges applied 0-2 times"),
        Job("space.multi", h_space, dict(n=3, nin=1, nout=1, kinds=["XY"], edges="multi", final_c=(None,)), "edges applied 0-2 times"),
    ]
    if t:
        js.append(Job("space.n6", h_space, dict(n=6, nin=2, nout=2, kinds=["XY"], edges="choose", sdom=False, tdom=False), "6 nodes", 1.0))
    return js


# ------------------------------------------------------------------ P10 compose / reindex / copies
def ren(p, f):
    """Own renaming of a pattern's commands."""
    out = []
    for c in p:
        k = c.kind.name
        r = lambda d: SymSet({f[x]: b for x, b in d.m.items()}) if type(d) is SymSet else {f[x] for x in d}
        if k == "N":
            out.append(command.N(f[c.node], c.state))
        elif k == "E":
            out.append(command.E((f[c.nodes[0]], f[c.nodes[1]])))
        elif k == "M":
            out.append(command.M(f[c.node], c.measurement, r(c.s_domain), r(c.t_domain)))
        elif k == "C":
            out.append(command.C(f[c.node], c.clifford))
        else:
            out.append(type(c)(f[c.node], r(c.domain)))
    return out


def h_compose(e, a, b, over=False):
    p1 = gen_pattern(e, labels=[4, 0, 2][:a["n"]], **a)
    # the second pattern uses overlapping or disjoint labels and its own symbol names
    lab2 = e.choose("lab2", [[0, 4, 1], [11, 10, 12]])[:b["n"]]
    p2 = gen_sub(e, "b.", labels=lab2, **b)
    r1, r2 = snapshot(p1), snapshot(p2)
    n1, n2 = prenodes(r1), prenodes(r2)
    fresh = 20
    mapping = {}
    for k in n2:
        opts = [None, "fresh"] + list(r1.output_nodes) + (mnodes(r1)[:1] if over else [])
        v = e.choose(f"map{k}", opts)
        if v is None:
            continue
        if v == "fresh":
            v, fresh = fresh, fresh + e.choose("freshstep", [1, -9])
        mapping[k] = v
    pm = e.choose("preserve", [False, True])
    if e.mode == "concrete":
        e.notes += [show(r1), show(r2), mapping, pm]
    valid = (len(set(mapping.values())) == len(mapping)
             and all(v not in n1 or v in r1.output_nodes for v in mapping.values())
             and all(v not in r1.output_nodes or k in r2.input_nodes for k, v in mapping.items()))
    e.reached()
    try:
        q, full = p1.compose(p2, mapping, preserve_mapping=pm)
    except PatternError:
        e.check(not valid, "compose rejects a valid mapping")
        return
    e.check(valid, "compose accepts an invalid mapping")
    if e.mode == "concrete":
        e.notes.append((show(q), full))
    e.check(set(full) == set(n2) and len(set(full.values())) == len(full), "the returned mapping is not an injection on the nodes of other")
    e.check(all(full[k] == v for k, v in mapping.items()), "the returned mapping does not extend the given one")
    merged = {full[k] for k in r2.input_nodes if k in mapping and mapping[k] in r1.output_nodes}
    e.check(all(v not in n1 or v in merged for v in full.values()), "a node of other is merged with an unrelated node")
    free = [k for k in sorted(n2) if k not in mapping]
    e.check([full[k] for k in free] == sorted(full[k] for k in free), "unmapped nodes are not relabelled in ascending order")
    ins = list(r1.input_nodes) + [full[k] for k in r2.input_nodes if full[k] not in merged]
    if pm and len(merged) == len(r2.input_nodes) == len(r2.output_nodes):
        io = {full[i]: full[o] for i, o in zip(r2.input_nodes, r2.output_nodes)}
        outs = [io.get(n, n) if n in merged else n for n in r1.output_nodes]
    else:
        outs = [n for n in r1.output_nodes if n not in merged] + [full[k] for k in r2.output_nodes]
    e.check(list(q.input_nodes) == ins, "inputs of the composition are wrong")
    e.check(list(q.output_nodes) == outs, "outputs of the composition are wrong")
    exp = Pattern(input_nodes=ins)
    exp.extend(list(r1), ren(r2, full))
    e.check(sorted(exp.output_nodes) == sorted(outs), "harness")
    exp.reorder_output_nodes(outs)
    oc = Outc(e)
    sem.check_equal(e, sem.run_pattern(e, exp, oc), sem.run_pattern(e, q, oc), "the composition is not the composition of the operations")
    e.check(q.n_node == len(prenodes(q)), "n_node of the composition is wrong")
    e.check(sand(cmds_same(p1, r1), cmds_same(p2, r2)), "compose modified an operand")
    # the operands are not affected by later in-place changes of the composition
    q.shift_signals()
    try:
        q.standardize()
    except NotImplementedError:
        pass
    e.check(sand(cmds_same(p1, r1), cmds_same(p2, r2)), "transforming the composition in place modified an operand")


class _Pref:
    """Engine view that prefixes the symbol names."""

    def __init__(self, e, pre):
        self._e, self._p = e, pre

    def choose(self, name, o):
        return self._e.choose(self._p + name, o)

    def __getattr__(self, k):
        return getattr(self._e, k)


def gen_sub(e, pre, **kw):
    return gen_pattern(_Pref(e, pre), **kw)


def h_reindex(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    nodes = prenodes(ref)
    mode = e.choose("mode", ["default", "map", "func", "partial", "inout"])
    cp = e.choose("copy", [True, False])
    targets = [1, 30, 0, 4, 17][:max(len(nodes), 4)]
    if e.mode == "concrete":
        e.notes.append((mode, cp, show(ref)))
    e.reached()
    if mode == "inout":
        po = e.choose("po", list(itertools.permutations(ref.output_nodes)))
        pi = e.choose("pi", list(itertools.permutations(ref.input_nodes)))
        p.reorder_output_nodes(iter(po))
        p.reorder_input_nodes(iter(pi))
        e.check(list(p.output_nodes) == list(po) and list(p.input_nodes) == list(pi), "reordering failed")
        exp = Pattern(input_nodes=list(pi), cmds=list(ref))
        exp.reorder_output_nodes(list(po))
        oc = Outc(e)
        sem.check_equal(e, sem.run_pattern(e, exp, oc), sem.run_pattern(e, p, oc), "reordering changed the operation")
        bad = e.choose("bad", ["dup", "missing", "extra"])
        l = list(po)
        badl = {"dup": l + l[:1], "missing": l[1:], "extra": l + [99]}[bad]
        try:
            p.reorder_output_nodes(badl)
        except PatternError:
            pass
        else:
            e.check(not l and bad != "extra", "reorder_output_nodes accepts a non-permutation")
        return
    if mode == "default":
        start, avoid, pres = 0, None, None
        f = p.node_mapping()
        q = p.reindex(copy=cp)
        e.check(sorted(f.values()) == list(range(len(nodes))), "the default mapping is not onto 0..n-1")
    elif mode == "partial":
        start = e.choose("start", [0, 3])
        avoid = e.choose("avoid", [None, {0, 1, 3, 5}])
        pres = e.choose("pres", [None, nodes[:1]])
        ini = e.choose("ini", [None, {nodes[-1]: 1}])
        f = p.node_mapping(ini, start=start, avoids=avoid, preserves=pres)
        want = set(nodes) - set(pres or ()) | set(ini or ())
        e.check(set(f) == want, "node_mapping has the wrong keys")
        e.check(all(f[k] == v for k, v in (ini or {}).items()), "node_mapping does not extend the mapping")
        newv = [v for k, v in f.items() if k not in (ini or {})]
        full = {n: f.get(n, n) for n in nodes}
        e.check(len(set(full.values())) == len(full), "node_mapping is not injective")
        e.check(all(v >= start and v not in (avoid or ()) and v not in (pres or ()) for v in newv), "node_mapping ignores its constraints")
        q = p.reindex(f, copy=cp)
        f = full
    else:
        perm = e.choose("perm", list(itertools.permutations(targets, len(nodes))))
        f = dict(zip(nodes, perm))
        q = p.reindex(f if mode == "map" else (lambda n: f[n]), copy=cp)
    exp = Pattern(input_nodes=[f[n] for n in ref.input_nodes], cmds=ren(ref, f))
    exp.reorder_output_nodes([f[n] for n in ref.output_nodes])
    sh = command.S(nodes[0], set(nodes[1:]))
    e.check(sh.reindex(lambda n: f[n]) == command.S(f[nodes[0]], {f[n] for n in nodes[1:]}) and sh == command.S(nodes[0], set(nodes[1:])), "renaming a shift command")
    e.check(command.BaseM(nodes[0]).reindex(lambda n: f[n]) == command.BaseM(f[nodes[0]]), "renaming a blind measurement")
    e.check(command.T().reindex(lambda n: f[n]) == command.T(), "renaming a tick")
    e.check(cmds_same(q, exp), "reindexing does not just rename the nodes")
    if cp:
        e.check(cmds_same(p, ref), "reindex(copy=True) modified the original")
    else:
        e.check(q is p, "in-place operation returned another object")


def default_outputs(ins, cs):
    out = list(ins)
    for c in cs:
        if c.kind.name == "N":
            out.append(c.node)
        elif c.kind.name == "M":
            out.remove(c.node)
    return out


def same_seq(p, ins, cs, outs=None):
    return cmds_same(p, types.SimpleNamespace(cmds=list(cs) or [], input_nodes=list(ins), output_nodes=default_outputs(ins, cs) if outs is None else outs))


def h_edit(e, **kw):
    """Building a pattern piecewise, replacing its commands, and comparing patterns."""
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    cs, ins, outs = list(ref), list(ref.input_nodes), list(ref.output_nodes)
    mode = e.choose("mode", ["extend", "replace", "clear", "eq"])
    if e.mode == "concrete":
        e.notes.append((mode, show(ref)))
    if mode == "extend":
        k = e.choose("k", list(range(len(cs) + 1)))
        form = e.choose("form", ["list", "iter", "flat", "pieces", "mixed", "ctor", "ctor_iter", "add"])
        q = Pattern(input_nodes=iter(ins)) if form.endswith("iter") else Pattern(input_nodes=tuple(ins))
        if form == "ctor":
            q = Pattern(input_nodes=ins, cmds=cs[:k])
            q.extend(cs[k:])
        elif form == "ctor_iter":
            q = Pattern(input_nodes=iter(ins), cmds=iter(cs[:k]), output_nodes=default_outputs(ins, cs[:k])[::-1])
            e.check(list(q.output_nodes) == default_outputs(ins, cs[:k])[::-1], "Pattern(output_nodes=...) ignores the order")
            q.reorder_output_nodes(default_outputs(ins, cs[:k]))
            q.extend(c for c in cs[k:])
        else:
            {
                "list": lambda: q.extend(cs),
                "iter": lambda: q.extend(iter(cs)),
                "flat": lambda: q.extend(*cs),
                "pieces": lambda: q.extend(cs[:k], iter(cs[k:])),
                "mixed": lambda: q.extend(*cs[:k], (c for c in cs[k:])),
                "add": lambda: [q.add(c) for c in cs],
            }[form]()
        e.reached()
        e.check(same_seq(q, ins, cs), f"{form}: the commands are not added in order")
        e.check(q.n_node == len(ins) + sum(c.kind.name == "N" for c in cs) and len(q) == len(cs), "n_node or len is wrong")
        e.check(all(q[i] is c for i, c in enumerate(cs)), "indexing does not give the commands")
        e.check(same_seq(p, ins, cs, outs), "adding commands to a pattern changed another one")
        return
    if mode == "clear":
        p.clear()
        e.reached()
        e.check(len(p) == 0 and p.n_node == len(ins) and list(p.input_nodes) == ins and list(p.output_nodes) == ins, "clear is wrong")
        return
    if mode == "replace":
        ins2 = e.choose("ins2", [None, [], [5], [ins[-1], 5] if ins else [5, 6]])
        cs2 = [c for c in cs if c.kind.name in ("M", "X")]
        base = ins if ins2 is None else ins2
        cs2 = [command.N(n) for n in mnodes(ref) if n not in base] + cs2 if e.choose("some", [0, 1]) else []
        cs2 = [c for c in cs2 if c.kind.name != "X" or c.node in default_outputs(base, [d for d in cs2 if d.kind.name != "X"])]
        try:
            default_outputs(base, cs2)
        except ValueError:
            return
        arg = list(cs2)
        e.check(p.replace(arg) is None if ins2 is None else p.replace(arg, ins2) is None, "replace returns something")
        e.reached()
        e.check(same_seq(p, base, cs2), "replace does not give exactly the new commands, inputs and outputs")
        e.check(p.n_node == len(base) + sum(c.kind.name == "N" for c in cs2), "n_node is wrong after replace")
        p.add(command.N(77))
        e.check(len(arg) == len(cs2) and ins2 in (None, base) and 77 not in base, "the pattern shares the list it was given")
        return
    # equality
    mut = e.choose("mut", ["none", "domain", "swap", "drop", "extra", "outs", "ins", "angle", "kind", "label", "clifford", "state", "type"])
    cs2, ins2, outs2 = [copy.copy(c) for c in cs], list(ins), list(outs)
    want = True
    i = e.choose("i", list(range(len(cs)))) if mut not in ("none", "outs", "ins", "type") else 0
    c = cs2[i]
    k = c.kind.name
    if mut == "domain":
        ats = [a for a in ("s_domain", "t_domain", "domain") if hasattr(c, a)]
        done = [x.node for x in cs[:i] if x.kind.name == "M"]
        if not ats or not done:
            return
        at = e.choose("at", ats)
        cs2[i] = dataclasses.replace(c, **{at: symset("other", done)})
        want = deq(getattr(c, at), getattr(cs2[i], at))
    elif mut == "swap":
        if i + 1 == len(cs):
            return
        cs2[i], cs2[i + 1] = cs2[i + 1], cs2[i]
        want = cmds_same(types.SimpleNamespace(cmds=cs2, input_nodes=[], output_nodes=[]), types.SimpleNamespace(cmds=cs, input_nodes=[], output_nodes=[]))
        outs2 = None
    elif mut == "drop":
        if k in ("N", "M"):
            return
        del cs2[i]
        want = False
    elif mut == "extra":
        cs2.append(command.C(outs[0], Clifford(0)) if outs else command.N(88))
        want = False
        if not outs:
            outs2 = [88]
    elif mut in ("outs", "ins"):
        l = outs2 if mut == "outs" else ins2
        if len(l) < 2:
            return
        l.reverse()
        want = False
    elif mut == "angle":
        if k != "M" or not isinstance(c.measurement, BlochMeasurement):
            return
        m = BlochMeasurement(proxy.angle("a2"), c.measurement.plane)
        cs2[i] = dataclasses.replace(c, measurement=m)
        want = m.angle == c.measurement.angle
    elif mut == "kind":
        if k not in ("X", "Z"):
            return
        cs2[i] = (command.Z if k == "X" else command.X)(c.node, c.domain)
        want = False
    elif mut == "label":
        if k != "E":
            return
        cs2[i] = command.E((c.nodes[1], c.nodes[0]))
        want = None  # the order of the two ends is not part of the meaning
    elif mut == "clifford":
        if k != "C":
            return
        g = Clifford(e.choose("g", [0, 7, 13]))
        cs2[i] = command.C(c.node, g)
        want = g is c.clifford
    elif mut == "state":
        if k != "N":
            return
        cs2[i] = command.N(c.node, BasicStates.PLUS_I)
        want = c.state == BasicStates.PLUS_I
    q = Pattern(input_nodes=ins2, cmds=cs2)
    if outs2 is not None and mut != "swap":
        q.reorder_output_nodes(outs2)
    elif list(q.output_nodes) != outs:
        if sorted(q.output_nodes) != sorted(outs):
            return
        q.reorder_output_nodes(outs)
    if mut == "type":
        e.reached()
        e.check(not (p == cs) and p != None and p != 3, "a pattern equals something that is no pattern")  # noqa: E711
        return
    got = p == q
    e.reached()
    e.check((not got) == (p != q), "== and != agree")
    if want is None:
        return
    e.check(want if got else snot(want) if type(want) is SymBool else not want, f"{mut}: == {'holds' if got else 'fails'}")


def h_map(e, **kw):
    """Mapping a function over the measurements, at every level, changes the measurements only."""
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    fs = {
        "H": lambda m: m.clifford(Clifford(6)),
        "bloch": lambda m: m.to_bloch(),
        "const": lambda m: Measurement.YZ(0.125),
    }
    fn = e.choose("f", list(fs))
    f = fs[fn]
    level = e.choose("level", ["map", "apply", "apply_copy", "std", "xz"])
    if e.mode == "concrete":
        e.notes.append((fn, level, show(ref)))

    def mapped(cs):
        return [dataclasses.replace(c, measurement=f(c.measurement)) if c.kind.name == "M" else c for c in cs]

    if level in ("map", "apply", "apply_copy"):
        q = p.map(f) if level == "map" else p.apply(f, copy=level == "apply_copy")
        e.reached()
        e.check(same_seq(q, ref.input_nodes, mapped(ref), list(ref.output_nodes)), f"{level} does not map exactly the measurements")
        if level == "apply":
            e.check(q is p, "in-place operation returned another object")
        else:
            e.check(cmds_same(p, ref), f"{level} modified its argument")
        e.check(q.n_node == ref.n_node, "n_node is wrong")
    elif level == "std":
        sp = StandardizedPattern.from_pattern(p)
        before = sp.to_pattern()
        q = sp.to_bloch() if fn == "bloch" else sp.map(f)
        e.reached()
        e.check(type(q) is StandardizedPattern, "not a standardised pattern")
        e.check(same_seq(q.to_pattern(), before.input_nodes, mapped(before), list(before.output_nodes)), "mapping a standardised pattern changes more than the measurements")
        e.check(cmds_same(sp.to_pattern(), before), "mapping a standardised pattern modified it")
    else:
        if fn != "bloch":
            return
        xz = StandardizedPattern.from_pattern(p).to_xzcorrections()
        allb = all(isinstance(m, BlochMeasurement) for m in xz.og.measurements.values())
        b = xz.to_bloch()
        rs = [b]
        try:
            rs.append(xz.downcast_bloch())
        except TypeError:
            e.check(not allb, "downcast_bloch rejects corrections with Bloch measurements only")
        else:
            e.check(allb, "downcast_bloch accepts a Pauli measurement")
        e.reached()
        for r in rs:
            e.check(all(isinstance(m, BlochMeasurement) for m in r.og.measurements.values()), "a Pauli measurement is left")
            e.check(r.partial_order_layers == xz.partial_order_layers and set(r.x_corrections) == set(xz.x_corrections)
                    and set(r.z_corrections) == set(xz.z_corrections), "the corrections changed")
            e.check(sand(*[deq(r.x_corrections[k], d) for k, d in xz.x_corrections.items()], *[deq(r.z_corrections[k], d) for k, d in xz.z_corrections.items()]),
                    "the corrections changed")
            same_seq_og = r.og.to_bloch().isclose(xz.og.to_bloch())
            e.check(same_seq_og, "the open graph changed")


INPLACE = {
    "extend": lambda p: p.extend([command.N(77)], command.N(78)),
    "replace": lambda p: p.replace([command.N(78)], [77]),
    "standardize": lambda p: p.standardize(),
    "shift": lambda p: p.shift_signals(),
    "shift_mc": lambda p: p.shift_signals(method="mc"),
    "std_shift": lambda p: (p.standardize(), p.shift_signals()),
    "bloch": lambda p: p.blochify(),
    "infer": lambda p: p.infer_pauli_measurements(),
    "push": lambda p: p.perform_pauli_pushing(),
    "space": lambda p: p.minimize_space(),
    "par": lambda p: p.parallelize_pattern(),
    "reindex": lambda p: p.reindex(),
    "noin": lambda p: p.remove_input_nodes(),
    "rmpauli": lambda p: p.remove_pauli_measurements(),
    "noclif": lambda p: p.remove_local_clifford_commands(),
    "add": lambda p: p.add(command.N(77)),
    "clear": lambda p: p.clear(),
    "reorder": lambda p: p.reorder_output_nodes(list(reversed(p.output_nodes))),
    "apply": lambda p: p.apply(lambda m: m.clifford(Clifford(6))),
}


def h_copy(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    via = e.choose("via", ["copy", "map", "bloch", "infer", "min", "push", "rm", "reindex"])
    op = e.choose("op", list(INPLACE))
    which = e.choose("which", ["orig", "copy"])
    if e.mode == "concrete":
        e.notes.append((via, op, which, show(ref)))
    q = {
        "copy": lambda: p.copy(),
        "map": lambda: p.map(lambda m: m),
        "bloch": lambda: p.to_bloch(),
        "infer": lambda: p.infer_pauli_measurements(copy=True),
        "min": lambda: p.minimize_space(copy=True),
        "push": lambda: p.perform_pauli_pushing(copy=True),
        "rm": lambda: p.remove_pauli_measurements(copy=True),
        "reindex": lambda: p.reindex({}, copy=True),
    }[via]()
    e.check(q is not p, "the copy is the same object")
    e.check(cmds_same(p, ref), f"{via} with copy modified the original")
    if via in ("copy", "map", "reindex"):
        e.check(cmds_same(q, ref), "the copy differs from the original")
    sq = snapshot(q)
    e.reached()
    if which == "orig":
        INPLACE[op](p)
        e.check(cmds_same(q, sq), f"{op} on the original changed the copy made by {via}")
    else:
        INPLACE[op](q)
        e.check(cmds_same(p, ref), f"{op} on the copy made by {via} changed the original")


def jobs_P10(tier):
    t = tier == "thorough"
    w2 = dict(n=2, nin=1, nout=1, kinds=["XY"], edges="complete", final_c=(None, 6))
    w3 = dict(n=3, nin=2, nout=2, kinds=["YZ"], edges=[(0, 1), (1, 2)], out_perm=True)
    s2 = dict(n=3, nin=1, nout=2, kinds=["XZ"], edges="path", out_perm=True)
    js = [
        Job("compose.22", h_compose, dict(a=w2, b=w2, over=True), "two one-wire patterns, every mapping incl. invalid ones"),
        Job("compose.33", h_compose, dict(a=w3, b=w3), "two two-wire patterns with permuted outputs"),
        Job("compose.32", h_compose, dict(a=w3, b=w2, over=True), "two wires then one wire"),
        Job("compose.s", h_compose, dict(a=s2, b=s2), "more outputs than inputs"),
        Job("reindex.n4", h_reindex, dict(n=4, nin=2, nout=2, kinds=["XY", "-Z"], edges=[(0, 1), (1, 2), (0, 3)], final_c=(None, 6)), "4 nodes"),
        Job("edit.n3", h_edit, dict(n=3, nin=2, nout=1, kinds=["XY", "+X"], edges=[(0, 1), (1, 2)], final_c=(None, 6)), "3 nodes: building piecewise, replacing, comparing"),
        Job("edit.io", h_edit, dict(n=3, nin=0, nout=2, kinds=["XZ"], edges=[(0, 1), (0, 2)], out_perm=True), "3 nodes, no input"),
        Job("map.n3", h_map, dict(n=3, nin=1, nout=1, kinds=["XY", "YZ", "-Y"], edges="path", tdom=False, final_c=(None, 6)), "3 nodes: patterns, standardised patterns and corrections", 0.5),
        Job("map.n4", h_map, dict(n=4, nin=2, nout=2, kinds=["XZ", "+Z"], edges=[(0, 2), (1, 3), (2, 3)], sdom=False, tdom=False, out_perm=True), "4 nodes, 2 in, 2 out", 0.5),
        Job("copy.n3", h_copy, dict(n=3, nin=1, nout=1, kinds=["XY", "XZ", "+X"], edges="path", mid=[(0, 1), (0, 2)], final_c=(None, 6)),
            "3 nodes, every way to copy x every in-place transformation"),
        Job("copy.n4", h_copy, dict(n=4, nin=1, nout=2, kinds=["YZ", "-Y"], edges="path", mid=[(0, 2)], mid_c=(None,), final_c=(None, 4)), "4 nodes"),
    ]
    return js


# ------------------------------------------------------------------ P11 runnability
def h_runnable(e, universe, ncmd, prefix):
    """Pre-state reached by a runnable prefix, then ncmd arbitrary commands with symbolic domains."""
    U = universe
    st = {n: e.choose(f"st{n}", ["fresh", "input", "prepared", "measured"] if prefix else ["fresh", "input"]) for n in U}
    pat = Pattern(input_nodes=[n for n in U if st[n] == "input"])
    active = {n for n in U if st[n] == "input"}
    done = set()
    for n in U:
        if st[n] in ("prepared", "measured"):
            pat.add(command.N(n))
            active.add(n)
    for n in U:
        if st[n] == "measured":
            pat.add(command.M(n, Measurement.XY(0.3)))
            active.discard(n)
            done.add(n)
    base = len(pat)
    bad = []  # (index, {(node, reason): SymBool/bool})
    for k in range(ncmd):
        kind = e.choose(f"k{k}", ["N", "E", "M", "X", "Z", "C"])
        n = e.choose(f"n{k}", U)
        b = {}
        R = RunnabilityErrorReason

        def act(x, b=b):
            if x in done:
                b[x, R.AlreadyMeasured] = True
            elif x not in active:
                b[x, R.NotYetActive] = True

        def dom(d, b=b, self_node=None):
            for x in d.m if type(d) is SymSet else d:
                mem = d.mem(x) if type(d) is SymSet else ONE
                if x == self_node:
                    b[x, R.DomainSelfLoop] = sor(b.get((x, R.DomainSelfLoop), False), bitb(mem))
                elif x not in done:
                    b[x, R.NotYetMeasured] = sor(b.get((x, R.NotYetMeasured), False), bitb(mem))

        if kind == "N":
            if n in active:
                b[n, R.AlreadyActive] = True
            if n in done:
                b[n, R.AlreadyMeasured] = True
            c = command.N(n)
            after = ("add", n)
        elif kind == "E":
            m = e.choose(f"m{k}", [x for x in U if x != n])
            act(n)
            act(m)
            c = command.E((n, m))
            after = None
        elif kind == "M":
            s, t = symset(f"s{k}", U), symset(f"t{k}", U)
            act(n)
            dom(s, self_node=n)
            dom(t, self_node=n)
            c = command.M(n, Measurement.XY(0.3), s, t)
            after = ("meas", n)
        elif kind == "C":
            act(n)
            c = command.C(n, Clifford(6))
            after = None
        else:
            d = symset(f"d{k}", U)
            act(n)
            dom(d)
            c = (command.X if kind == "X" else command.Z)(n, d)
            after = None
        pat.add(c)
        bad.append((base + k, b))
        if after and after[0] == "add":
            active.add(n)
        elif after:
            active.discard(n)
            done.add(n)
    if e.mode == "concrete":
        e.notes.append(show(pat))
    cmds = list(pat)
    check = getattr(Pattern, "_symx_check", Pattern.check_runnability)
    try:
        check(pat)
    except RunnabilityError as err:
        e.reached()
        idx = [i for i, c in enumerate(cmds) if c is err.cmd]
        e.check(len(idx) == 1 and idx[0] >= base, "the reported command is not an offending one")
        for i, b in bad:
            if i < idx[0]:
                e.check(snot(sor(*b.values())), "an earlier command offends first")
            elif i == idx[0]:
                e.check(b.get((err.node, err.reason), False), f"reported reason {err.reason} for node {err.node} is not true")
        str(err)
        ref = types.SimpleNamespace(cmds=[], input_nodes=list(pat.input_nodes), output_nodes=list(pat.output_nodes))
        for c in cmds:
            c2 = copy.copy(c)
            for at in ("s_domain", "t_domain", "domain"):
                if hasattr(c, at):
                    setattr(c2, at, getattr(c, at).copy())
            ref.cmds.append(c2)
        relaxed = Pattern.check_runnability
        Pattern.check_runnability = check
        try:
            for what, f in (
                ("standardize", lambda: StandardizedPattern.from_pattern(pat)),
                ("Pattern.standardize", pat.standardize),
                ("shift_signals('direct')", lambda: pat.shift_signals("direct")),
                ("shift_signals('mc')", lambda: pat.shift_signals("mc")),
                ("minimize_space", pat.minimize_space),
                ("simulate", lambda: pat.simulate("statevector")),
            ):
                try:
                    f()
                except RunnabilityError as err2:
                    e.check(err2.node == err.node and err2.reason == err.reason, f"{what} reports another defect than check_runnability")
                else:
                    e.check(False, f"{what} accepts a pattern that cannot be executed")
                e.check(cmds_same(pat, ref), f"{what} rejects the pattern, but changed it")
        finally:
            Pattern.check_runnability = relaxed
    else:
        e.reached()
        for i, b in bad:
            e.check(snot(sor(*b.values())), "check_runnability accepts a pattern that cannot be executed")


def jobs_P11(tier):
    t = tier == "thorough"
    js = [
        Job("run.one", h_runnable, dict(universe=[3, 0, 7, 1], ncmd=1, prefix=True), "any reachable state of 4 nodes, then any command with any domain"),
        Job("run.two", h_runnable, dict(universe=[3, 0, 7], ncmd=2, prefix=True), "any reachable state of 3 nodes, then any two commands"),
        Job("run.start", h_runnable, dict(universe=[2, 0], ncmd=3, prefix=False), "any three commands on 2 nodes from the start"),
    ]
    if t:
        js.append(Job("run.three", h_runnable, dict(universe=[3, 0, 7], ncmd=3, prefix=True), "any three commands"))
    return js


CHECKS = {
    "P08": dict(jobs=jobs_P08, quick_s=45, thorough_s=400, outside="more than 4 (quick) / 5 (thorough) nodes"),
    "P09": dict(jobs=jobs_P09, quick_s=45, thorough_s=400, outside="more than 5 (quick) / 6 (thorough) nodes"),
    "P10": dict(jobs=jobs_P10, quick_s=60, thorough_s=400, outside="patterns of more than 3+3 (composition) / 4 (copies) nodes"),
    "P11": dict(jobs=jobs_P11, quick_s=45, thorough_s=400, outside="self-entangling commands; user-defined command classes"),
}
