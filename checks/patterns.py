"""Pattern rewriting properties: standardisation, signal shifting, Pauli inference..."""

from __future__ import annotations

import graphix.optimization
import graphix.pattern
from graphix.pattern import shift_outcomes

from .common import *  # noqa: F403

shim_all()
relax_runnability()

CL_SOME = (None, 1, 6, 4, 9, 16, 20)
CL_COMM = (None, 1, 2, 3, 4, 9)


# ------------------------------------------------------------------ P04 standardize
def h_standardize(e, commuting=True, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    e.note_pattern = None
    if e.mode == "concrete":
        e.notes.append(show(p))
    via = e.choose("via", ["fn", "method"])
    try:
        if via == "fn":
            q = graphix.optimization.standardize(p)
        else:
            q = p.copy()
            q.standardize()
    except NotImplementedError:
        if commuting:
            e.fail("standardize refused a pattern whose Cliffords commute with its entanglement commands")
        return
    if e.mode == "concrete":
        e.notes.append(show(q))
    oc = Outc(e)
    e.reached()
    e.check(bool(q.is_standard(strict=True)), "result is not standard: " )
    e.check(list(q.input_nodes) == list(ref.input_nodes) and list(q.output_nodes) == list(ref.output_nodes),
            "standardize changed the input or output nodes")
    A = sem.run_pattern(e, ref, oc)
    B = sem.run_pattern(e, q, oc)
    sem.check_equal(e, A, B, "standardize changed the channel of some branch")
    A2 = sem.run_pattern(e, p, oc)
    sem.check_equal(e, A, A2, "standardize modified its argument")


def jobs_P04(tier):
    t = tier == "thorough"
    js = [
        Job("std.path3", h_standardize, dict(n=3, nin=1, nout=1, kinds=PLANES, edges="choose", edge_times=True,
            mid=[(0, 1), (0, 2), (1, 2)], mid_c=(), final_c=CL_SOME, orders=("CXZ", "XCZ", "ZXC"), ),
            "3 nodes, 1 in, 1 out, all edge sets and times, corrections after every measurement, final Clifford"),
        Job("std.cliff3", h_standardize, dict(n=3, nin=1, nout=2, kinds=["XY", "YZ", "-X"], edges="choose", edge_times=True,
            mid=[(0, 1), (0, 2)], mid_c=CL_COMM, final_c=(None, 6), orders=("CXZ", "XCZ")),
            "3 nodes, 1 in, 2 out, mid-circuit Cliffords that commute with CZ up to Pauli"),
        Job("std.measC", h_standardize, dict(n=3, nin=1, nout=1, kinds=PLANES + PAULIS[:3], edges=[(0, 1), (1, 2)],
            mid=[(0, 1)], mid_c=tuple(range(24)), final_c=tuple(range(24)), orders=("CXZ", "XZC")),
            "3-node path, all 24 Cliffords before a measurement and on the output, all planes"),
        Job("std.n4", h_standardize, dict(n=4, nin=2, nout=2, kinds=["XY", "XZ", "-Y"], edges="choose", edge_times=True,
            mid=[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)], mid_c=(), final_c=(None, 6), orders=("XZC",), out_perm=True, in_perm=True),
            "4 nodes, 2 in, 2 out, all edge sets/times"),
    ]
    if t:
        js.append(Job("std.n5", h_standardize, dict(n=5, nin=1, nout=2, kinds=PLANES, edges="choose", edge_times=True,
            mid=[(s, i) for s in range(3) for i in range(s + 1, 5)], mid_c=CL_COMM, final_c=(None, 6, 4, 1),
            orders=("XZC", "CXZ"), out_perm=True), "5 nodes", 1.0))
    return js


# ------------------------------------------------------------------ P05 signal shifting
def h_shift(e, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    q = snapshot(p)
    method = e.choose("method", ["direct", "mc"])
    if e.mode == "concrete":
        e.notes.append(show(ref))
        e.notes.append(method)
    sig = q.shift_signals(method=method)
    if e.mode == "concrete":
        e.notes.append(show(q))
        e.notes.append(sig)
    oc = Outc(e)
    meas = [c.node for c in ref if c.kind.name == "M"]
    e.reached()
    outs = {n: bitval(oc(n)) for n in meas}
    # The returned signals relate the outcomes of both patterns through shift_outcomes: with "direct" they are
    # expressed in the outcomes of the shifted pattern, with "mc" in those of the original pattern.
    other = shift_outcomes(outs, sig)
    oth = lambda n: proxy.anf_of(other[n])
    A = sem.run_pattern(e, ref, oth if method == "direct" else oc)
    B = sem.run_pattern(e, q, oc if method == "direct" else oth)
    sem.check_equal(e, A, B, f"shift_signals({method}) changed the channel")
    # the signalled domains are gone: planar XY measurements keep no t-domain, YZ/XZ no s-domain
    for c in q:
        if c.kind.name == "M":
            plane = c.measurement.to_bloch().plane.name
            d = c.t_domain if plane == "XY" else c.s_domain
            e.check((d.nonempty() == False) if type(d) is SymSet else not d,  # noqa: E712
                    "a shiftable domain remains after signal shifting")


def jobs_P05(tier):
    t = tier == "thorough"
    js = [
        Job("shift.n3", h_shift, dict(n=3, nin=1, nout=1, kinds=PLANES, edges="choose", final_c=(None, 6)),
            "3 nodes, all edge sets, all planes, all domains"),
        Job("shift.n4", h_shift, dict(n=4, nin=1, nout=1, kinds=PLANES, edges="path", final_c=(None,)),
            "4-node path, 3 measured nodes in all planes, all domains"),
        Job("shift.pauli", h_shift, dict(n=4, nin=1, nout=1, kinds=["+X", "-Y", "+Z", "XY"], edges=[(0, 1), (1, 2), (2, 3), (0, 3)]),
            "4-cycle with Pauli measurements"),
        Job("shift.mid", h_shift, dict(n=4, nin=1, nout=2, kinds=["XY", "XZ"], edges="path", edge_times=True,
            mid=[(0, 1), (0, 2), (1, 2), (1, 3)], mid_c=(None, 3), orders=("XZC",), out_perm=True), "corrections between measurements"),
    ]
    if t:
        js.append(Job("shift.n5", h_shift, dict(n=5, nin=1, nout=1, kinds=PLANES, edges="path"), "5-node path"))
    return js


# ------------------------------------------------------------------ P06 inference / blochify / pushing
def h_infer(e, what=("infer", "bloch"), exact=True, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    op = e.choose("op", list(what))
    cp = e.choose("copy", [True, False])
    if e.mode == "concrete":
        e.notes.append(show(ref))
        e.notes.append((op, cp))
    if op == "tol":
        rel, ab = e.choose("tol", [(1e-9, 0.125), (0.0625, 0.0)])
        q = p.infer_pauli_measurements(rel_tol=rel, abs_tol=ab, copy=cp)
        e.reached()
        e.check((q is not p) == cp and len(list(q)) == len(list(ref)), "infer_pauli_measurements with given tolerances")
        for c, d in zip(q, ref):
            if c.kind.name == "M":
                x = d.measurement.to_pauli_or_bloch(rel_tol=rel, abs_tol=ab)
                e.check(type(c.measurement) is type(x) and (c.measurement == x if isinstance(x, PauliMeasurement) else c.measurement.angle is x.angle or c.measurement.angle == x.angle),
                        "infer_pauli_measurements with given tolerances")
        return
    if op == "infer":
        q = p.infer_pauli_measurements(copy=cp)
    else:
        q = p.to_bloch() if cp else p.blochify()
    oc = Outc(e)
    e.reached()
    A = sem.run_pattern(e, ref, oc)
    sem.check_equal(e, A, sem.run_pattern(e, q, oc), f"{op} changed the channel")
    e.check(list(q.output_nodes) == list(ref.output_nodes) and list(q.input_nodes) == list(ref.input_nodes), "nodes changed")
    for c in q:
        if c.kind.name == "M":
            if op == "infer":
                e.check(isinstance(c.measurement, PauliMeasurement) or not is_pauli_angle(e, c.measurement.angle),
                        "a Pauli angle was not inferred")
            else:
                e.check(isinstance(c.measurement, BlochMeasurement), "a Pauli measurement remains after blochify")
    if cp:
        sem.check_equal(e, A, sem.run_pattern(e, p, oc), f"{op}(copy=True) modified the original")
        for c, d in zip(p, ref):
            if c.kind.name == "M":
                e.check(type(c.measurement) is type(d.measurement), f"{op}(copy=True) modified the original")
    else:
        e.check(q is p, "in-place operation returned another object")


def is_pauli_angle(e, a):
    if type(a) is Real:
        return False  # generic atoms stay away from multiples of 1/2
    return abs(2 * a - round(2 * a)) < 1e-9


def h_push(e, inferred=True, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    std = e.choose("std", [True, False])
    cp = e.choose("copy", [True, False])
    meas = [c.node for c in ref if c.kind.name == "M"]
    leave = None
    if meas:
        li = e.choose("leave", [None] + meas)
        leave = None if li is None else {li}
    if e.mode == "concrete":
        e.notes.append(show(ref))
        e.notes.append(dict(std=std, copy=cp, leave=leave))
    q = p.perform_pauli_pushing(leave_nodes=leave, copy=cp, standardize=std)
    if e.mode == "concrete":
        e.notes.append(show(q))
    oc = Outc(e)
    e.reached()
    e.check(list(q.output_nodes) == list(ref.output_nodes) and list(q.input_nodes) == list(ref.input_nodes), "nodes changed")
    order = [c.node for c in q if c.kind.name == "M"]
    e.check(sorted(order) == sorted(meas), "measurements lost or duplicated")
    # outcomes are relabelled by the shifted signals, so compare up to an invertible relabelling: the signal of
    # node n is computed from the difference of total domains; here we use the public cut object
    from graphix.optimization import StandardizedPattern
    from graphix.remove_pauli_measurements import PauliPushingCut

    cut = PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(ref), leave)
    outs = {n: oc(n) for n in meas}
    B = sem.run_pattern(e, q, oc)
    unshifted = shift_outcomes({n: bitval(a) for n, a in outs.items()}, cut.shifted_domains)
    A = sem.run_pattern(e, ref, lambda n: proxy.anf_of(unshifted[n]))
    sem.check_equal(e, A, B, "perform_pauli_pushing changed the channel")
    seen_bloch = False
    for c in q:
        if c.kind.name == "M" and not (leave and c.node in leave):
            if isinstance(c.measurement, PauliMeasurement):
                e.check(not seen_bloch, "a Pauli measurement comes after a non-Pauli one")
                for d in (c.s_domain, c.t_domain):
                    e.check((d.nonempty() == False) if type(d) is SymSet else not d,  # noqa: E712
                            "a pushed Pauli measurement keeps a domain")
            else:
                seen_bloch = True


ALLM = PLANES + PAULIS
FIXED = [f"{p}@{a}" for p in PLANES for a in (0.0, 0.5, 1.0, 1.5)]


def jobs_P06(tier):
    t = tier == "thorough"
    js = [
        Job("infer.tol", h_infer, dict(what=("tol",), n=2, nin=1, nout=0, kinds=["XY@0.53", "YZ@1.06", "XZ@-0.96", "XY@0.1", "XZ", "YZ"], edges="complete", sdom=False, tdom=False), "two tolerances, 2 nodes", 0.5),
        Job("infer.n2", h_infer, dict(n=2, nin=1, nout=0, kinds=FIXED + ["XY@2.5", "YZ@-0.5", "XZ@3.0"] + ALLM, edges="complete"),
            "2 measured nodes, every plane with every multiple of pi/2, generic angles, signed Paulis, all domains"),
        Job("infer.n3", h_infer, dict(n=3, nin=1, nout=1, kinds=["XY@0.0", "YZ@1.5", "XZ@0.5", "XY", "-Y", "+Z"], edges="path",
            final_c=(None, 6), out_perm=True), "3-node path"),
        Job("infer.out2", h_infer, dict(n=4, nin=2, nout=2, kinds=["XY@1.0", "XZ", "-X", "+Z"], edges=[(0, 2), (1, 3), (0, 1)],
            final_c=(None, 4), out_perm=True), "two outputs in either order"),
        Job("push.n3", h_push, dict(n=4, nin=1, nout=1, kinds=ALLM, edges="path", final_c=(None,)),
            "4-node path, 3 measurements of any kind, all domains"),
        Job("push.n4", h_push, dict(n=4, nin=2, nout=2, kinds=["XY", "YZ", "+X", "-Y", "+Z"], edges="choose", final_c=(None, 6), out_perm=True, in_perm=True),
            "4 nodes, 2 inputs, 2 outputs, all graphs"),
        Job("push.n5", h_push, dict(n=5, nin=1, nout=1, kinds=["XY", "XZ", "+X", "-Y", "-Z"], edges="path"),
            "5-node path, 4 measurements"),
    ]
    if t:
        js.append(Job("push.n6", h_push, dict(n=6, nin=1, nout=1, kinds=["XY", "XZ", "+X", "-Y", "-Z"], edges="path"), "6-node path"))
    return js


# ------------------------------------------------------------------ P07 Pauli measurement removal
def h_remove(e, api=("pattern",), det=False, **kw):
    p = gen_pattern(e, **kw)
    ref = snapshot(p)
    std = e.choose("std", [True, False])
    cp = e.choose("copy", [True, False])
    if e.mode == "concrete":
        e.notes.append(show(ref))
    from graphix.optimization import StandardizedPattern
    from graphix.remove_pauli_measurements import PauliPushingCut

    cut = PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(snapshot(p)))
    q = p.remove_pauli_measurements(copy=cp, standardize=std)
    if e.mode == "concrete":
        e.notes.append(show(q))
    e.reached()
    ins = set(ref.input_nodes)
    e.check(list(q.input_nodes) == list(ref.input_nodes), "inputs changed")
    e.check(len(list(q.output_nodes)) == len(list(ref.output_nodes)), "number of outputs changed")
    if cp:
        e.check([type(c) for c in p] == [type(c) for c in ref] and list(p.output_nodes) == list(ref.output_nodes),
                "copy=True modified the original")
    else:
        e.check(q is p, "in-place operation returned another object")
    mref = list(cut.measurements)  # relabelled order (Pauli first)
    mq = [c for c in q if c.kind.name == "M"]
    graph_q = {}
    for c in q:
        if c.kind.name == "E":
            u, v = c.nodes
            graph_q.setdefault(u, set()).add(v)
            graph_q.setdefault(v, set()).add(u)
    outs_q = set(q.output_nodes)
    for c in mq:
        if isinstance(c.measurement, PauliMeasurement) and c.node not in ins:
            nb = graph_q.get(c.node, set())
            e.check(c.measurement.axis.name == "X" and all(w in ins for w in nb) and nb,
                    "a removable Pauli measurement remains")
    must = [c.node for c in mref if c.node in ins]
    k = len(mq)
    nodes = [c.node for c in mref]
    oc = Outc(e, "r")
    qo = {c.node: oc(i) for i, c in enumerate(mq)}
    B = sem.run_pattern(e, q, lambda n: qo[n])
    cands = []
    for keep in itertools.combinations(range(len(nodes)), k):
        kn = [nodes[i] for i in keep]
        if not set(must) <= set(kn):
            continue
        # non-Pauli nodes are dropped only if isolated: prefer keeping them
        drop = [c for c in mref if c.node not in kn]
        cands.append((sum(1 for c in drop if not isinstance(c.measurement, PauliMeasurement)), kn, [c.node for c in drop]))
    cands.sort(key=lambda x: x[0])
    ok = False
    diffs = []
    for _, kn, drop in cands:
        for rbits in itertools.product((0, 1), repeat=len(drop)):
            shifted = {n: bitval(oc(i)) for i, n in enumerate(kn)}
            shifted.update(dict(zip(drop, rbits)))
            un = shift_outcomes(shifted, cut.shifted_domains)
            A = sem.run_pattern(e, ref, lambda n: proxy.anf_of(un[n]))
            if e.mode == "concrete":
                ta, tb = abs(A.trace()), abs(B.trace())
                if ta < 1e-9:
                    # impossible branch: the result's branch must then be impossible too, for another choice to be right
                    if tb < 1e-9 and not any(rbits):
                        ok = True
                    continue
                import numpy as np

                if tb > 1e-9 and np.allclose(A / ta, B / tb, atol=1e-6):
                    ok = True
                    break
            else:
                for s in (1, 2, 4, None) if A else (1,):
                    d = z3s(sem.maps_differ(e, A, B, s) if s else sem.maps_not_proportional(e, A, B))
                    if engine.z3.is_false(d):
                        ok = True
                        break
                    r, m = e.query(d)
                    e.stats.claim_queries += 1
                    if r == engine.z3.unsat:
                        ok = True
                        break
                    diffs.append(d)
                if ok:
                    break
        if ok:
            break
    if e.mode == "concrete":
        e.check(ok, "no branch of the original matches this branch of the result")
    elif not ok:
        # every (removed outcomes, scale) differs somewhere: look for one outcome where all differ at once
        e.check_z(engine.z3.Not(engine.z3.And(*diffs)) if diffs else engine.z3.BoolVal(False),
                  "removal of Pauli measurements: no branch of the original matches")
        e.fail("removal of Pauli measurements: no single choice of removed outcomes matches all branches")


def z3s(d):
    return engine.z3.simplify(d)


def jobs_P07(tier):
    t = tier == "thorough"
    js = [
        Job("rm.single", h_remove, dict(n=3, nin=1, nout=1, kinds=PAULIS + ["XY"], edges="choose", final_c=(None, 6)),
            "3 nodes, all graphs, 1 in, 1 out"),
        Job("rm.noin", h_remove, dict(n=3, nin=0, nout=1, kinds=PAULIS + ["XZ"], edges="choose", final_c=(None, 4)),
            "3 nodes without inputs, all graphs"),
        Job("rm.n4", h_remove, dict(n=4, nin=0, nout=2, kinds=PAULIS, edges="choose", final_c=(None, 6), sdom=False, tdom=False, out_perm=True),
            "4 nodes, 2 Pauli nodes, 2 outputs, all graphs"),
        Job("rm.n4i", h_remove, dict(n=4, nin=1, nout=1, kinds=["XY", "YZ"] + PAULIS, edges="choose", sdom=False),
            "4 nodes, 1 in, 1 out, 3 measurements"),
        Job("rm.n5", h_remove, dict(n=5, nin=1, nout=1, kinds=["XY", "+X", "-X", "+Y", "-Z"], edges="choose", final_c=(None,), sdom=False, tdom=False),
            "5 nodes"),
        Job("rm.pivot", h_remove, dict(n=7, nin=0, nout=5, kinds=["XY", "-X"], final_c=(None,), sdom=False, tdom=False, final=False,
                                       edges=dict(fixed=[(0, 1), (0, 2), (1, 2), (1, 3)],
                                                  maybe=[(0, 4), (1, 4), (0, 5), (1, 5), (0, 6), (1, 6)])),
            "7 nodes: 2 adjacent measured nodes with 5 outputs around, every neighbourhood of three of them"),
        Job("rm.star", h_remove, dict(n=6, nin=0, nout=4, kinds=["+Y", "-X", "YZ"], final_c=(None,), sdom=False, tdom=False, final=False,
                                      edges=dict(fixed=[(0, 2), (0, 3)], maybe=[(0, 1), (0, 4), (0, 5), (1, 2), (1, 4), (3, 4), (4, 5)])),
            "6 nodes: a measured node of degree 2 to 5"),
    ]
    return js


CHECKS = {
    "P04": dict(jobs=jobs_P04, quick_s=45, thorough_s=400, outside="more than 4 (quick) / 5 (thorough) nodes"),
    "P05": dict(jobs=jobs_P05, quick_s=45, thorough_s=400, outside="more than 4 (quick) / 5 (thorough) nodes"),
    "P06": dict(jobs=jobs_P06, quick_s=45, thorough_s=400, outside="more than 5 (quick) / 6 (thorough) nodes"),
    "P07": dict(jobs=jobs_P07, quick_s=60, thorough_s=400, outside="more than 5 nodes (7 around one pivot); |+> preparations only"),
}
