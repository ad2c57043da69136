"""Drawings of open graphs, flows, XZ-corrections and patterns (P34).

The real code runs up to the calls of matplotlib and networkx's drawing functions, which are recorded; the
recorded picture is then read back and compared with the drawn object."""

from __future__ import annotations

import itertools
import math
import warnings
from fractions import Fraction

import graphix.visualization as viz
import networkx as nx
import numpy as np
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.command import CommandKind
from graphix.opengraph import OpenGraph
from graphix.pattern import DrawPatternAnnotations
from symx import cnum
from symx.cnum import Cx, claim, rvar, same

from .common import *  # noqa: F403
from .flows import bitb, flow_conditions

z3 = engine.z3
NODES = [7, 2, 30, 4, 101]
FC = {"white": "plain", "lightgray": "output", "lightblue": "pauli"}
MARK = {"o": False, "s": True}
ARROW = {"black": "flow", "tab:red": "x", "tab:green": "z", "tab:brown": "xz"}
REAL = {k: getattr(nx, k) for k in ("spring_layout", "draw_networkx_edges", "draw_networkx_labels")}
NAT = (viz.plt, viz.mtransforms, viz.np)


# ---------------------------------------------------------------- the recorder
class Shape:
    """A transform: base plus offsets in points, or a fixed box."""

    def __init__(self, off=0.0):
        self.off = off

    def __add__(self, o):
        return Shape(self.off + o.off)

    def transform(self, p):
        return (p[0], p[1] + self.off)

    def inverted(self):
        return Shape(-self.off)


class Box:
    width, height, dpi = 120.0, 60.0, 100.0

    def get_window_extent(self, *a):
        return self


class Rec:
    """Stand-in for pyplot, a figure and an axes at once."""

    def __init__(self):
        self.calls = []
        self.dpi = 100.0
        self.dpi_scale_trans = None
        self.transData = Shape()
        self.canvas = self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        name = {"set_xlim": "xlim", "set_ylim": "ylim"}.get(name, name)
        if name not in KNOWN:
            raise engine.Unsupported(f"drawing call {name}")

        def f(*a, **k):
            self.calls.append((name, a, k))
            return Box()

        return f

    def gcf(self):
        return self

    def gca(self):
        return self

    def figure(self, *a, **k):
        self.calls.append(("figure", a, k))
        return self

    def subplots(self, *a, **k):
        self.calls.append(("figure", a, k))
        return self, self

    def get_size_inches(self):
        return (4.0, 3.0)

    def of(self, *names):
        return [c for c in self.calls if c[0] in names]


KNOWN = {"scatter", "plot", "annotate", "text", "axvline", "xlim", "ylim", "legend", "show", "savefig", "draw", "set_size_inches",
         "subplots_adjust", "title", "axis", "tight_layout", "close", "nxedges", "nxlabels"}


class Trans:
    @staticmethod
    def ScaledTranslation(x, y, scale):
        assert x == 0
        return Shape(y)


class VNp(cnum.NpSym):
    """numpy on symbolic coordinates; curves are sampled at fewer points."""

    @staticmethod
    def asarray(x, dtype=None, **k):
        a = np.array(x)
        return a.astype(float) if a.dtype != object and dtype is object else a

    @staticmethod
    def array(x, dtype=None, **k):
        return VNp.asarray(x, dtype)

    @staticmethod
    def zeros(shape, dtype=None, **k):
        r = np.empty(shape, dtype=object)
        r[...] = 0
        return r

    @staticmethod
    def linspace(a, b, n=50, **k):
        return np.linspace(a, b, 4)


def start(e, sym=False):
    """Install the recorder; returns it."""
    r = Rec()
    viz.plt, viz.mtransforms = r, Trans
    viz.np = VNp() if sym and e.mode != "concrete" else NAT[2]

    def edges(graph, pos, edgelist=None, **k):
        r.calls.append(("nxedges", (graph, dict(pos), list(graph.edges() if edgelist is None else edgelist)), k))

    def labels(graph, pos, labels=None, **k):
        r.calls.append(("nxlabels", (graph, dict(pos), {v: v for v in graph.nodes()} if labels is None else dict(labels)), k))

    def spring(g, pos=None, fixed=None, **k):
        order = sorted(g.nodes())
        if e.choose(f"spring{order}", [0, 1]):
            order = order[1:] + order[:1]
        p = {v: (Fraction(i, 10), 0) for i, v in enumerate(order)}
        return {v: (pos[v] if fixed and v in fixed else x) for v, x in p.items()}

    nx.draw_networkx_edges, nx.draw_networkx_labels, nx.spring_layout = edges, labels, spring
    return r


def stop():
    viz.plt, viz.mtransforms, viz.np = NAT
    for k, f in REAL.items():
        setattr(nx, k, f)


# ---------------------------------------------------------------- reading the picture
def zero(d):
    """Is the difference zero for all values?  (syntactically, after clearing denominators)"""
    if type(d) is Cx:
        v = d.constant()
        return abs(v) < 1e-6 if v is not None else cnum.vanishes(d)
    return abs(d) < 1e-6


def at(p, q):
    return zero(p[0] - q[0]) and zero(p[1] - q[1])


def dist2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


def pts(xs, ys):
    return list(zip(list(xs), list(ys), strict=True))


def color(k):
    return k.get("c", k.get("color"))


class Picture:
    """Nodes, edges, arrows, texts and legend of a recorded drawing."""

    def __init__(self, e, r):
        self.nodes, self.legend, self.edges, self.arrows, self.texts, self.vlines, self.labels = [], [], [], [], [], [], []
        self.order = []
        self.shown, self.saved, self.has_legend = 0, [], 0
        pend = None
        for name, a, k in r.calls:
            if pend and name != "annotate":
                self.arrows.append((*pend, None))
                pend = None
            if name == "scatter":
                if isinstance(a[0], list) and not a[0]:
                    self.legend.append(("node", k["label"], FC.get(k["facecolor"]), MARK.get(k["marker"])))
                else:
                    self.nodes.append(((a[0], a[1]), FC.get(k["facecolor"]), MARK.get(k["marker"]), k.get("edgecolor")))
            elif name == "plot":
                fmt = a[2] if len(a) > 2 else k.get("linestyle", "-")
                if len(a[0]) == 0:
                    self.legend.append(("line", k["label"], "edge" if fmt == "--" else ARROW.get(color(k)), None))
                elif fmt == "--":
                    self.edges.append(pts(a[0], a[1]))
                else:
                    pend = (pts(a[0], a[1]), ARROW.get(color(k)))
            elif name == "annotate":
                ap = k["arrowprops"]
                if pend:
                    self.arrows.append((*pend, (k["xytext"], k["xy"], ARROW.get(ap["color"]), ap["arrowstyle"])))
                    pend = None
                else:
                    self.order.append((k["xytext"], k["xy"]))
            elif name == "nxedges":
                g, pos, lst = a
                for u, v in lst:
                    if k.get("style") == "dashed":
                        self.edges.append([pos[u], pos[v]])
                    else:
                        ok = k.get("arrowstyle") == "->" and k.get("arrows")
                        self.arrows.append(([pos[u], pos[v]], ARROW.get(k.get("edge_color")), "nx" if ok else None))
            elif name == "nxlabels":
                self.labels += [(a[1][v], str(s)) for v, s in a[2].items()]
            elif name == "text":
                self.texts.append(((a[0], a[1]), a[2], k.get("transform")))
            elif name == "axvline":
                self.vlines.append(k["x"] if "x" in k else a[0])
            elif name == "legend":
                self.has_legend += 1
            elif name == "show":
                self.shown += 1
            elif name == "savefig":
                self.saved.append(a[0])
            elif name == "xlim":
                self.xlim = a
            elif name == "ylim":
                self.ylim = a


def le(e, a, b, msg):
    claim(e, a <= b, msg)


def check_picture(e, r, og, *, arrows, layers, opts, source, dist, sym, grid=True):
    """arrows: dict (u, v) -> z3/bool per kind, or a set of (u, v, kind); returns the columns."""
    p = Picture(e, r)
    ck = lambda c, m: e.check(bool(c), m)  # noqa: E731
    dx, dy = dist
    nodes = list(og.graph.nodes())
    ins, outs = set(og.input_nodes), set(og.output_nodes)
    paul = {v for v, m in og.measurements.items() if isinstance(m, PauliMeasurement)}
    show_p = opts.get("pauli_measurements", True)
    # node labels and positions
    nl = opts.get("node_labels", True)
    want = {v: str(v) for v in nodes} if nl is True else {} if nl is False else dict(nl)
    ck(sorted(s for _, s in p.labels) == sorted(want.values()), "the node labels are the ones asked for")
    # positions are read off the internal picture: by construction of the figure each node is one marker
    ck(len(p.nodes) == len(nodes), "one marker per node")
    for i, a in enumerate(p.nodes):
        for b in p.nodes[:i]:
            ck(not at(a[0], b[0]), "distinct places for distinct nodes")
    pos = r.pos
    ck(set(pos) == set(nodes) and all(any(at(q[0], pos[v]) for q in p.nodes) for v in nodes), "nodes at their positions")
    for v, s in want.items():
        ck(any(at(q, pos[v]) and t == s for q, t in p.labels), "labels on their nodes")
    # styles
    for q, fc, mk_, ec in p.nodes:
        v = next(v for v in nodes if at(pos[v], q))
        w = "output" if v in outs else "pauli" if show_p and v in paul else "plain"
        ck(fc == w, "the fill of the node shows its role")
        ck(mk_ is (v in ins), "inputs and only inputs are squares")
    # columns: the grid
    if dx is not None:
        col = {v: pos[v][0] / dx for v in nodes}
        if any(type(c) is Cx for c in col.values()):
            col = {v: next((k for k in range(12) if zero(pos[v][0] - dx * k)), None) for v in nodes}
        ck(all(c is not None and abs(float(c) - round(float(c))) < 1e-6 for c in col.values()), "columns are multiples of the distance")
        col = {v: round(float(c)) for v, c in col.items()}
        for v in nodes:
            y = pos[v][1]
            ck(any(zero(y - dy * k) for k in range(12)), "rows are multiples of the distance")
    # edges
    wide = sym or min(dx, dy) >= 0.5  # curves cannot avoid nodes that touch
    left = list(og.graph.edges())
    for path in p.edges:
        m = [x for x in left if (at(path[0], pos[x[0]]) and at(path[-1], pos[x[1]])) or (at(path[0], pos[x[1]]) and at(path[-1], pos[x[0]]))]
        ck(m, "every drawn edge is an edge of the graph, drawn once")
        left.remove(m[0])
        if wide:
            clear_of(e, path, m[0], pos)
    ck(not left, "every edge is drawn")
    # arrows
    drawn = set()
    for path, kind, head in p.arrows:
        if head == "nx":
            m = [(u, v) for u in nodes for v in nodes if u != v and at(path[0], pos[u]) and at(path[-1], pos[v])]
        else:
            ck(head is not None, "arrows have heads")
            ck(at(head[1], path[-1]) and head[2] == kind and head[3] == "->", "the head ends the arrow")
            ck(at(head[0], path[-2]), "the head points along the arrow")
            m = [(u, v) for u in nodes for v in nodes if u != v and at(path[0], pos[u]) and zero(dist2(path[-1], pos[v]) - 0.04)]
            m += [(u, u) for u in nodes if loop(path, pos[u])]
        ck(len(m) >= 1, "arrows join nodes")
        cand = [x for x in m if (*x, kind) in arrows and (*x, kind) not in drawn]
        ck(cand, "every arrow is a correction of its kind, drawn once")
        drawn.add((*cand[0], kind))
        if wide and cand[0][0] != cand[0][1]:
            clear_of(e, path, cand[0], pos)
        for ed in p.edges if wide else ():
            ck(not (len(path) == len(ed) == 2 and (at(ed[0], path[0]) and at(ed[1], path[1]) or at(ed[0], path[1]) and at(ed[1], path[0]))), "arrows do not hide edges")
    ck(drawn == set(arrows), "every correction is drawn")
    # layers
    gray = [t for t in p.texts if t[2] is not None]
    other = [t for t in p.texts if t[2] is None]
    if layers is None:
        ck(not gray and not p.vlines and not p.order, "no layers without an order")
        for v in outs:
            ck(all(col[u] <= col[v] for u in nodes), "outputs are in the last column")
            comp = nx.node_connected_component(og.graph, v)
            ck(all(col[u] < col[v] for u in comp - outs), "the rest of its component is left of an output")
        for comp in nx.connected_components(og.graph):
            for v in (ins - outs) & comp:
                ck(all(col[u] > col[v] for u in comp - ins), "inputs are left of the rest")
    elif layers:
        n = len(layers)
        for k, l in enumerate(layers):
            for v in l:
                ck(col[v] == n - 1 - k, "the columns are the layers")
            ck(sum(at((q[0], 0), (dx * (n - 1 - k), 0)) and s == str(k) for q, s, _ in gray) == 1, "the layers are numbered")
        ck(len([s for _, s, _ in gray if s != "Layer"]) == n, "one number per layer")
        for k in range(n - 1):
            c = [x for x in p.vlines if bool(x > dx * k) and bool(x < dx * (k + 1))]
            ck(len(c) == 1, "separators between the layers")
        ck(len(p.vlines) == n - 1, "as many separators as layers less one")
        t = [q for q, s, _ in gray if s == "Layer"]
        ck(len(t) == 1 and bool(t[0][0] >= 0) and bool(t[0][0] <= dx * (n - 1)), "the axis is named")
        if n > 1:
            ck(len(p.order) == 1 and p.order[0][0][0] < p.order[0][1][0], "the arrow of time points to the right")
    # texts on nodes
    exp = []
    if opts.get("measurement_labels"):
        exp += [(v, m.to_plane_or_axis().name) for v, m in og.measurements.items()]
    if opts.get("local_clifford"):
        exp += [(v, str(c)) for v, c in og.output_cliffords.items()]
    ck(len(exp) == len(other), "labels of measurements and Cliffords as asked for")
    for q, s, _ in other:
        m = [x for x in exp if x[1] == s and zero_far(q, pos[x[0]])]
        ck(m, "labels next to their nodes")
        exp.remove(m[0])
    # limits
    for v in nodes:
        claim(e, sand(pos[v][0] > p.xlim[0], pos[v][0] < p.xlim[1], pos[v][1] > p.ylim[0], pos[v][1] < p.ylim[1]), "nodes are within the limits")
    # legend
    if opts.get("legend", True) and nodes:
        w = []
        if ins:
            w.append(("node", "Input nodes", "plain", True))
        if outs:
            w.append(("node", "Output nodes", "output", False))
        if show_p and paul:
            w.append(("node", "Pauli-measured nodes", "pauli", False))
        if og.graph.edges():
            w.append(("line", "Graph edge", "edge", None))
        kinds = {k for _, _, k in arrows}
        w += [("line", t, k, None) for k, t in (("flow", "Correction function"), ("x", "X corrections"), ("z", "Z corrections"), ("xz", "X and Z corrections")) if k in kinds]
        ck(sorted(map(str, p.legend)) == sorted(map(str, w)) and p.has_legend == 1, "the legend lists what is drawn")
    else:
        ck(not p.legend and not p.has_legend, "no legend")
    f = opts.get("filename")
    ck((p.shown, p.saved) == ((1, []) if f is None else (0, [f])), "shown or saved")
    fig = r.of("figure")
    fs = opts.get("figsize")
    ck(len(fig) == 1 and (fs is None or fig[0][2].get("figsize") == fs), "one figure of the size asked for")
    if fs is None:
        ck(all(x > 0 for x in fig[0][2]["figsize"]), "the size of the figure is positive")
    return col


def zero_far(q, p):
    """Within 0.35 of the node."""
    d = dist2(q, p)
    v = d.constant() if type(d) is Cx else d
    return v is not None and v.real <= 0.125


def loop(path, p):
    """A small loop at the node: starts and ends around it, never far."""
    for q, lo, hi in ((path[0], 0.01, 0.1), (path[-1], 0.01, 0.1), (path[len(path) // 2], 0.04, 0.3)):
        d = dist2(q, p)
        v = d.constant() if type(d) is Cx else d
        if v is None or not lo < v.real < hi:
            return False
    return True


def clear_of(e, path, uv, pos):
    """A straight line keeps away from the other nodes."""
    if len(path) != 2:
        if all(type(x) is not Cx for q in path for x in q):
            for w, q in pos.items():
                e.check(w in uv or min(float(dist2(x, q)) for x in path) >= 0.01, "curves avoid the other nodes")
        return
    a, b = path
    for w, q in pos.items():
        if w in uv:
            continue
        ex, ey = b[0] - a[0], b[1] - a[1]
        fx, fy = q[0] - a[0], q[1] - a[1]
        cr, dt, ln = ex * fy - ey * fx, ex * fx + ey * fy, ex * ex + ey * ey
        claim(e, sor(cr * cr >= ln * 0.0399, dt < 0, dt > ln), "straight lines do not cross other nodes")


# ---------------------------------------------------------------- objects
def gen_graph(e, labels, mode):
    g = nx.Graph()
    g.add_nodes_from(labels)
    n = len(labels)
    if mode == "fork":
        es = [p for p in itertools.combinations(range(n), 2) if e.choose(f"e{p}", [0, 1])]
    else:
        es = e.choose("graph", mode)
    g.add_edges_from((labels[a], labels[b]) if (a + b) % 2 else (labels[b], labels[a]) for a, b in es)
    return g


def gen_meas_map(e, nodes, kinds):
    out = {}
    for v in nodes:
        k = e.choose(f"k{v}", list(kinds))
        out[v] = getattr(Measurement, k)(0.25) if k in PLANES else {"+X": Measurement.X, "-Y": -Measurement.Y, "+Z": Measurement.Z}[k]
    return out


def gen_opts(e, level, nodes):
    if level == "none":
        return {}
    o = {}
    if level == "legend":
        return {"legend": e.choose("legend", [True, False]), "pauli_measurements": e.choose("pm", [True, False])}
    o["pauli_measurements"] = e.choose("pm", [True, False])
    o["measurement_labels"] = e.choose("ml", [True, False])
    o["local_clifford"] = e.choose("lc", [True, False])
    o["node_labels"] = e.choose("nl", [True, False, {v: f"q{i}" for i, v in enumerate(nodes)}, {nodes[0]: "a"}])
    o["legend"] = e.choose("legend", [True, False])
    o["filename"] = e.choose("file", [None, "/nowhere/x.png"])
    o["figsize"] = e.choose("fs", [None, (5, 4)])
    return o


def gen_dist(e, how, opts):
    if how == "sym":
        dx, dy = ((rvar("dx", 0.5, 3), 1.5), (1, rvar("dy", 1.1, 3)))[e.choose("axis", [0, 1])]
        if e.mode != "concrete":
            opts["figsize"] = (5, 4)
    else:
        dx, dy = e.choose("dist", how)
    if (dx, dy) != (1, 1) if how != "sym" else True:
        opts["node_distance"] = (dx, dy)
    return dx, dy


def io_of(e, labels, io):
    ni, no, both = e.choose("io", io)
    ins = labels[:ni]
    outs = labels[len(labels) - no:] if no else []
    if both:
        outs = [*outs, *ins[:1]]
    return ins[::-1], outs


def record(e, r, call, direct=None):
    """Run the drawing; keep the positions the picture was drawn with."""
    GV = viz.GraphVisualizer
    orig = GV.visualize

    def vis(self):
        r.pos = self.pos
        return orig(self)

    GV.visualize = vis
    try:
        call()
    finally:
        GV.visualize = orig


def h_og(e, n, graph, io, kinds, dist, opts, cliff=(None,)):
    """Open graphs."""
    labels = NODES[:n]
    sym = dist == "sym"
    r = start(e, sym)
    g = gen_graph(e, labels, graph)
    ins, outs = io_of(e, labels, io)
    m = gen_meas_map(e, [v for v in labels if v not in outs], kinds)
    oc = {v: Clifford(c) for v in outs if (c := e.choose(f"c{v}", list(cliff))) is not None}
    og = OpenGraph(g, ins, outs, m, oc)
    o = gen_opts(e, opts, labels)
    d = gen_dist(e, dist, o)
    record(e, r, lambda: og.draw(**o))
    check_picture(e, r, og, arrows=set(), layers=None, opts=o, source=None, dist=d, sym=sym)
    e.reached()


def h_xz(e, n, graph, io, kinds, dist, opts, cliff=(None,), what="xz", free=None):
    """XZ-corrections and Pauli flows with any correction sets compatible with the layers."""
    labels = NODES[:n]
    sym = dist == "sym"
    r = start(e, sym)
    g = gen_graph(e, labels, graph)
    ins, outs = io_of(e, labels, io)
    meas = [v for v in labels if v not in outs]
    m = gen_meas_map(e, meas, kinds)
    oc = {v: Clifford(c) for v in outs if (c := e.choose(f"c{v}", list(cliff))) is not None}
    og = OpenGraph(g, ins, outs, m, oc)
    layers = [frozenset(outs)] if outs else []
    cut = e.choose("layers", [0, 1]) if len(meas) > 1 else 1
    rest = [[v] for v in meas[::-1]] if cut else [meas]
    layers += [frozenset(l) for l in rest if l]
    depth = {v: k for k, l in enumerate(layers) for v in l}
    o = gen_opts(e, opts, labels)
    d = gen_dist(e, dist, o)

    def bits(name, loops):
        out = {}
        for u in meas:
            S = {v: e.anf(f"{name}{u}.{v}") for v in labels if depth[v] < depth[u] or (loops and v == u)}
            if free is not None:
                S = {v: (a if (labels.index(u), labels.index(v)) in free else ZERO) for v, a in S.items()}
            out[u] = SymSet(S)
        return out

    if what == "xz":
        x, z = bits("x", False), bits("z", False)
        obj = XZCorrections(og, x, z, tuple(layers))
    else:
        x = bits("p", True)
        obj = {"pauli": PauliFlow, "gflow": GFlow}[what](og, x, tuple(layers))
    record(e, r, lambda: obj.draw(**o))
    arrows = set()
    for u in meas:
        for v in labels:
            a = bool(bitval(x[u].m.get(v, ZERO)))
            if what != "xz":
                if a:
                    arrows.add((u, v, "flow"))
                continue
            b = bool(bitval(z[u].m.get(v, ZERO)))
            if a or b:
                arrows.add((u, v, "xz" if a and b else "x" if a else "z"))
    check_picture(e, r, og, arrows=arrows, layers=layers, opts=o, source=what, dist=d, sym=sym)
    e.reached()


def h_causal(e, n, graph, io, dist, opts):
    """Causal flows: chains are drawn as rows."""
    labels = NODES[:n]
    sym = dist == "sym"
    r = start(e, sym)
    g = gen_graph(e, labels, graph)
    ins, outs = io_of(e, labels, io)
    og = OpenGraph(g, ins, outs, {v: Measurement.XY(0.25) for v in labels if v not in outs})
    cf = og.to_causalflow_or_none()
    if cf is None:
        return
    o = gen_opts(e, opts, labels)
    d = gen_dist(e, dist, o)
    record(e, r, lambda: cf.draw(**o))
    arrows = {(u, next(iter(s)), "flow") for u, s in cf.correction_function.items()}
    check_picture(e, r, og, arrows=arrows, layers=cf.partial_order_layers, opts=o, source="flow", dist=d, sym=sym)
    for u, v, _ in arrows:
        e.check(at((0, r.pos[u][1]), (0, r.pos[v][1])), "the nodes of a chain are in one row")
    e.reached()


def h_pat(e, ann, n=3, nin=1, nout=1, kinds=("XY",), edges="choose", flow_from=(True, False), final_c=(None,), fixed=False):
    """Patterns: the picture shows their graph and their corrections or flow."""
    stop()
    pat = gen_pattern(e, n, nin, nout, kinds=kinds, edges=edges, final_c=final_c, **(dict(final=False, sdom=False, tdom=False) if fixed else {}))
    r = start(e)
    nodes = LABELS[:n]
    E = set()
    for c in pat:
        if c.kind == CommandKind.E:
            E ^= {frozenset(c.nodes)}
    o = {"measurement_labels": True, "local_clifford": True}
    fp = e.choose("fp", list(flow_from)) if ann == "flow" else True
    a = {"flow": DrawPatternAnnotations.Flow, "xz": DrawPatternAnnotations.XZCorrections, None: None}[ann]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            record(e, r, lambda: pat.draw(annotations=a, flow_from_pattern=fp, **o))
    except Exception as ex:  # noqa: BLE001
        if type(ex).__name__ in ("PatternError", "FlowError", "OpenGraphError"):
            return
        raise
    g = nx.Graph()
    g.add_nodes_from(nodes)
    g.add_edges_from(tuple(k) for k in E)
    og = pat.to_opengraph()
    e.check(nx.utils.graphs_equal(nx.Graph(og.graph.edges()), nx.Graph(g.edges())) and set(og.graph.nodes()) == set(nodes), "the open graph is the one of the commands")
    dx = 1
    p = Picture(e, r)
    # read the arrows back
    arrows = set()
    for path, kind, head in p.arrows:
        m = [(u, v) for u in nodes for v in nodes if u != v and at(path[0], r.pos[u]) and (at(path[-1], r.pos[v]) if head == "nx" else zero(dist2(path[-1], r.pos[v]) - 0.04))]
        m += [(u, u) for u in nodes if head != "nx" and loop(path, r.pos[u])]
        e.check(len(m) == 1, "arrows join nodes")
        arrows.add((*m[0], kind))
    layers = None
    if ann is not None:
        cols = {v: round(float(r.pos[v][0])) for v in nodes}
        top = max(cols.values())
        layers = [frozenset(v for v in nodes if cols[v] == top - k) for k in range(top + 1)]
    check_picture(e, r, og, arrows=arrows, layers=layers, opts=o, source=ann, dist=(1, 1), sym=False)
    if ann == "xz":
        for u, v, _ in arrows:
            e.check(u == v or cols[u] < cols[v], "corrections point to later layers")
    if ann == "flow":
        A = {k: engine.ONE for k in E}
        lab = {c.node: c.measurement.to_plane_or_axis().name for c in pat if c.kind == CommandKind.M}
        P = {u: {v: mk(int((u, v, "flow") in arrows)) for v in nodes} for u in lab}
        bef = lambda i, j: cols[i] < cols[j]  # noqa: E731
        cl = flow_conditions("pauli", A, nodes, set(nodes[:nin]), set(nodes[n - nout:] if nout else []), lab, P, bef)
        for c in cl:
            e.check(c, "the drawn arrows are a Pauli flow for the drawn layers")
    if ann == "xz":
        want = dependencies(pat)
        for u in nodes:
            for v in nodes:
                x, z = want.get((u, v), (ZERO, ZERO))
                e.check(bitb(x) if (u, v, "x") in arrows or (u, v, "xz") in arrows else bitb(x.neg()), "X corrections of the pattern")
                e.check(bitb(z) if (u, v, "z") in arrows or (u, v, "xz") in arrows else bitb(z.neg()), "Z corrections of the pattern")
    e.reached()


def dependencies(pat):
    """(measured, corrected) -> (X dependency, Z dependency) of a pattern whose corrections come last, on outputs."""
    out = {}

    def add(u, v, x, z):
        a = out.get((u, v), (ZERO, ZERO))
        out[u, v] = (a[0] ^ x, a[1] ^ z)

    def items(d):
        return d.m.items() if type(d) is SymSet else [(u, engine.ONE) for u in d]

    for c in pat:
        if c.kind == CommandKind.M:
            for u, a in items(c.s_domain):
                add(u, c.node, a, ZERO)
            for u, a in items(c.t_domain):
                add(u, c.node, ZERO, a)
        elif c.kind == CommandKind.X:
            for u, a in items(c.domain):
                add(u, c.node, a, ZERO)
        elif c.kind == CommandKind.Z:
            for u, a in items(c.domain):
                add(u, c.node, ZERO, a)
    return out


# ---------------------------------------------------------------- geometry on symbolic coordinates
def helper(e, name):
    f = getattr(viz, name, None)
    if f is None:
        raise engine.Unsupported(f"{name} is gone")
    return f


def point(name):
    return rvar(name + ".x", -20, 20), rvar(name + ".y", -20, 20)


def h_geom(e, what, k=3):
    """The geometric helpers, for all coordinates."""
    start(e, True)
    if what == "hit":
        f = helper(e, "_edge_intersects_node")
        a, ux, uy = e.choose("line", [((0, 0), 1, 0), ((1, -2), 1, 0), ((1, -2), 0, -1), ((0, 0), -1, 1)])
        q = point("q")
        L = rvar("L", 0, 20)
        b = a[0] + L * ux, a[1] + L * uy
        buf = e.choose("buf", [None, 0.5])
        r = f(a, b, q) if buf is None else f(a, b, q, buffer=buf)
        buf = buf or 0.2
        ex, ey, fx, fy = b[0] - a[0], b[1] - a[1], q[0] - a[0], q[1] - a[1]
        cr, dt, ln = ex * fy - ey * fx, ex * fx + ey * fy, ex * ex + ey * ey
        near = sand(ln > 0, dt >= 0, dt <= ln, cr * cr < ln * (buf * buf))
        if e.mode == "concrete" and (abs(cr * cr - ln * buf * buf) < 1e-9 or min(abs(dt), abs(dt - ln)) < 1e-9):
            return  # rounding decides
        claim(e, near if bool(r) else snot(near), "an edge meets a node exactly when it passes within the buffer")
    elif what == "ctrl":
        f = helper(e, "_control_point")
        a, b, q = point("a"), point("b"), point("q")
        e.assume(sor(b[0] - a[0] >= 0.01, b[1] - a[1] >= 0.01) if e.mode != "concrete" else max(b[0] - a[0], b[1] - a[1]) >= 0.01)
        d = e.choose("d", [None, 0.2])
        u = f(a, b, q) if d is None else f(a, b, q, distance=d)
        d = d or 0.6
        ex, ey = b[0] - a[0], b[1] - a[1]
        gx, gy = u[0] - q[0], u[1] - q[1]
        cr = ex * (q[1] - a[1]) - ey * (q[0] - a[0])
        same(e, arr1(ex * gx + ey * gy), arr1(0), "the control point is beside the node")
        nosqrt(e, gx * gx + gy * gy, d * d, "the control point is at the distance asked for")
        if e.mode == "concrete" and abs(cr) < 1e-9:
            return
        side = ex * gy - ey * gx
        claim(e, sor(sand(cr > 0, side < 0), sand(cr <= 0, side > 0)), "the edge passes on the other side of the node")
    elif what == "shorten":
        f = helper(e, "_shorten_path")
        ps = [point(f"p{i}") for i in range(k)]
        a, b = ps[-2:]
        d2 = dist2(a, b)
        e.assume(d2 >= 0.0001)
        r = f(list(ps))
        e.check(len(r) == k, "as many points")
        for x, y in zip(r[:-1], ps[:-1], strict=True):
            same(e, arr1(*x), arr1(*y), "the other points stay")
        gx, gy = b[0] - r[-1][0], b[1] - r[-1][1]
        nosqrt(e, gx * gx + gy * gy, 0.04, "the arrow ends 0.2 before the node")
        same(e, arr1(gx * (b[1] - a[1]) - gy * (b[0] - a[0])), arr1(0), "the direction is kept")
        claim(e, gx * (b[0] - a[0]) + gy * (b[1] - a[1]) >= 0, "it is shortened, not prolonged")
    elif what == "curve":
        f = helper(e, "_bezier_curve")
        ps = [point(f"p{i}") for i in range(k)]
        t = rvar("t", 0, 1)
        ts = np.array([0, t, 1], dtype=object if e.mode != "concrete" else float)
        c = f(ps, ts)
        same(e, arr1(*c[0]), arr1(*ps[0]), "the curve begins at the first point")
        same(e, arr1(*c[2]), arr1(*ps[-1]), "the curve ends at the last point")
        q = ps
        while len(q) > 1:
            q = [tuple(x * (1 - t) + y * t for x, y in zip(u, v, strict=True)) for u, v in itertools.pairwise(q)]
        same(e, arr1(*c[1]), arr1(*q[0]), "de Casteljau's construction")
    elif what == "around":
        f = helper(e, "_find_bezier_path")
        w = [rvar("L", 1, 10), rvar("x", -1, 11), rvar("y", -3, 3)]
        pos = {0: (0, 0), 1: (w[0], 0), 2: (w[1], w[2])}
        r = f((0, 1), [pos[0], pos[1]], pos)
        same(e, arr1(*r[0]), arr1(0, 0), "paths start at the source")
        same(e, arr1(*r[-1]), arr1(w[0], 0), "paths end at the target")
        if len(r) == 2:
            close = sand(w[1] >= 0, w[1] <= w[0], w[2] < 0.19, -w[2] < 0.19, w[1] >= 0.5, w[0] - w[1] >= 0.5)
            claim(e, snot(close), "straight lines do not cross other nodes")
        else:
            far = sor(w[2] >= 0.2001, -w[2] >= 0.2001, w[1] < 0, w[1] > w[0])
            claim(e, snot(far), "lines are bent only around nodes")
    elif what == "polar":
        f = helper(e, "_point_from_node")
        p = point("p")
        ang = e.choose("ang", [0, 90, 170, 225, 359])
        d = rvar("d", 0, 5)
        r = f(p, d, ang)
        same(e, arr1(*r), arr1(p[0] + d * math.cos(math.radians(ang)), p[1] + d * math.sin(math.radians(ang))), "polar coordinates around the node")
    e.reached()


def arr1(*v):
    return cnum.arr(v)


def nosqrt(e, got, want, msg):
    """Equality of values that contain a normalised vector."""
    same(e, arr1(got), arr1(want), msg)


G3 = [[], [(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)], [(0, 2)]]
G4 = [[(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 2), (1, 3), (0, 3)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], [(0, 3), (1, 2)]]
IO = [(1, 1, 0), (2, 2, 0), (0, 1, 0), (1, 0, 0), (0, 0, 0), (1, 1, 1), (2, 1, 0), (1, 2, 1)]
D = [(1, 1), (2, 0.5), (0.1, 0.1)]


def jobs_P34(tier):
    js = [
        Job("og3", h_og, dict(n=3, graph="fork", io=IO, kinds=("XY", "+X"), dist=[(1, 1)], opts="none"), "3 nodes, any graph"),
        Job("og1", h_og, dict(n=1, graph=[[]], io=[(1, 1, 0), (0, 1, 0), (0, 0, 0), (1, 0, 0)], kinds=(*PLANES, "+X", "-Y", "+Z"), dist=D, opts="all", cliff=(None, 0, 6)), "1 node, every option"),
        Job("og2", h_og, dict(n=2, graph="fork", io=[(0, 2, 0), (1, 1, 1), (2, 0, 0)], kinds=("XZ", "+Z"), dist=[(1, 1)], opts="all", cliff=(None, 4, 9)), "2 nodes, every option"),
        Job("og4", h_og, dict(n=4, graph=G4, io=IO, kinds=("YZ", "-Y"), dist=D, opts="legend"), "4 nodes"),
        Job("ogsym", h_og, dict(n=3, graph=G3, io=IO, kinds=("XZ",), dist="sym", opts="none"), "3 nodes, any distances"),
        Job("xz3", h_xz, dict(n=3, graph=G3, io=[(1, 1, 0), (0, 0, 0)], kinds=("XY",), dist=[(1, 1)], opts="none"), "3 nodes, any corrections"),
        Job("xz2", h_xz, dict(n=2, graph="fork", io=[(1, 1, 0), (0, 0, 0)], kinds=("XY", "+Z"), dist=D, opts="all", cliff=(None, 6)), "2 nodes, every option"),
        Job("pf3", h_xz, dict(n=3, graph=G3, io=[(1, 1, 0), (0, 0, 0)], kinds=("XY", "+X"), dist=[(1, 1)], opts="legend", what="pauli"), "3 nodes, any correction sets"),
        Job("gf4", h_xz, dict(n=4, graph=G4, io=[(1, 1, 0), (2, 2, 0)], kinds=("XY",), dist=D, opts="none", what="gflow", free=[(0, 3), (0, 2), (1, 2), (1, 3), (0, 0), (1, 1)]), "4 nodes"),
        Job("cf3", h_causal, dict(n=3, graph="fork", io=IO, dist=D, opts="legend"), "3 nodes, any graph"),
        Job("cf4", h_causal, dict(n=4, graph="fork", io=IO, dist=[(1, 1)], opts="none"), "4 nodes, any graph"),
*[Job(f"geom.{w}", h_geom, dict(what=w), "all coordinates", 0.7) for w in ("hit", "ctrl", "shorten", "around", "polar")],
        *[Job(f"geom.curve{k}", h_geom, dict(what="curve", k=k), f"{k} points, all coordinates", 0.5) for k in (2, 3, 4, 7)],
        Job("row5", h_xz, dict(n=5, graph=[[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 2), (1, 3), (2, 4), (0, 4)], [(0, 3), (1, 4), (0, 1)]], io=[(1, 1, 0), (2, 1, 0)], kinds=("XY",), dist=[(1, 1), (0.5, 2)], opts="none", free=[(0, 2), (0, 3), (0, 4), (1, 2), (1, 4)]), "5 nodes, long corrections"),
        Job("pat.flow", h_pat, dict(ann="flow", n=3, kinds=("XY",), flow_from=(True,)), "3 nodes"),
        Job("pat.flowp", h_pat, dict(ann="flow", n=3, kinds=("XY", "-Y"), edges="path", flow_from=(True,)), "3 nodes in a line, Pauli measurements"),
        Job("pat.og2", h_pat, dict(ann="flow", n=3, kinds=("XY", "+X", "XZ"), flow_from=(False,), fixed=True), "3 nodes, flow of the graph"),
        Job("pat.xz", h_pat, dict(ann="xz", n=3, kinds=("XY", "XZ", "-Y")), "3 nodes"),
        Job("pat.og", h_pat, dict(ann=None, n=3, kinds=("XY", "-Y"), final_c=(None, 6)), "3 nodes"),
    ]
    if tier == "thorough":
        js += [
            Job("og5", h_og, dict(n=5, graph="fork", io=IO, kinds=("XY",), dist=[(1, 1)], opts="none"), "5 nodes, any graph"),
            Job("xz4", h_xz, dict(n=4, graph=G4, io=[(1, 1, 0), (2, 2, 0)], kinds=("XY", "+X"), dist=[(1, 1)], opts="none"), "4 nodes, any corrections"),
            Job("pf4", h_xz, dict(n=4, graph="fork", io=[(1, 1, 0)], kinds=("XY",), dist=[(1, 1)], opts="none", what="pauli"), "4 nodes, any graph and correction sets"),
            Job("cf5", h_causal, dict(n=5, graph="fork", io=IO, dist=[(1, 1)], opts="none"), "5 nodes, any graph"),
            Job("pat.flow4", h_pat, dict(ann="flow", n=4, kinds=("XY", "+X"), edges="path", flow_from=(True, False)), "4 nodes in a line"),
        ]
    return js


CHECKS = {
    "P34": dict(jobs=jobs_P34, quick_s=60, thorough_s=600, outside="rendering by matplotlib (colours and marks are compared as given to it), networkx's layouts (arbitrary orders)"),
}
