"""C21: drawings show the complex and the flow they are given, where asked."""

import itertools
import math

import numpy as np

from . import gen
from .common import build, describe, raises
from .ref import close

CHUNK = 2
ASSUMPTIONS = [
    "what is drawn is read from the matplotlib artists of a figure (Agg), not from "
    "pixels; matplotlib and networkx are trusted",
    "coordinates are given for every node, or not at all",
    "colours of constant zero flows are not compared (empty colour range)",
]

TRI = gen.cx(4, [(0, 1), (2, 1), (0, 2)], [(0, 1, 2)])
KITE = gen.cx(5, [(3, 1), (0, 1), (2, 0), (1, 2), (2, 3), (4, 0), (3, 4)],
              [(0, 1, 2), (1, 2, 3)])  # fmt: skip
RING = gen.cx(4, [(1, 2), (0, 1), (3, 0), (2, 3)], [])
ONE = gen.cx(3, [(2, 0)], [])
POOL = {"tri": TRI, "kite": KITE, "ring": RING, "one": ONE}
WHEEL = gen.cx(12, [(0, i) if i % 2 else (i, 0) for i in range(1, 12)]
               + [(i, i % 11 + 1) for i in range(1, 12)],
               [(0, i, i % 11 + 1) for i in range(1, 12)])  # fmt: skip
OPS = ("net", "net-cur", "net-plain", "net-und", "nodes", "nodes-cur", "nodes-num",
       "edges", "edges-cur", "edges-num", "labels", "labels-cur", "hodge", "hodge-c",
       "eigen", "refused")  # fmt: skip


OPTION_FLOWS = {"edges": 5, "nodes": 4, "labels": 2, "network": 2}
ITEM_TIMEOUT = 150


def bound(tier):
    return (
        "all histories of length <= %d over 16 drawing operations x 2 axes (given, "
        "current, or made current) on %s; node and edge options (colour range, "
        "transparency, widths, sizes, fonts) in full products on 2 complexes; figures of 9 axes filled one after another; every flow form (dict, reordered dict, partial dict, array, "
        "integers, list) x directed x labels x layout on %s; every component x every "
        "index subset of <= 2 eigenvectors"
        % (
            (2, "one complex", "4 complexes and all labelled graphs on 3 nodes")
            if tier == "quick"
            else (3, "one complex, 2 on all four", "all labelled graphs on <= 4 nodes")
        )
    )


def items(tier):
    quick = tier == "quick"
    depth = 2 if quick else 3
    ops = [(o, a) for o in OPS for a in ((0, 1) if quick else (0, 1))
           if not (a and o in ("hodge", "hodge-c", "eigen", "refused"))]  # fmt: skip
    for seq in itertools.product(ops, repeat=depth):
        if seq[0][1] == 0 or seq[0][0].endswith("-cur"):
            yield {"what": "history", "c": KITE, "ops": [list(x) for x in seq]}
    if not quick:
        for name in ("tri", "ring", "one"):
            for seq in itertools.product(ops, repeat=2):
                if seq[0][1] == 0 or seq[0][0].endswith("-cur"):
                    yield {"what": "history", "c": POOL[name], "ops": [list(x) for x in seq]}

    def comps():
        yield from POOL.values()
        for n in (2, 3) if quick else (2, 3, 4):
            for g in gen.labelled_graphs(n):
                for pat in ("mix",) if quick else ("mix", "rev"):
                    for ts in gen.subsets(gen.cliques3(n, g)):
                        yield gen.cx(n, gen.reorder(gen.orient(g, pat), "riffle"), ts)

    for c in gen.dedupe(comps()):
        for layout in ("given", "given-np", "free", "line"):
            if c["e"]:
                yield {"what": "forms", "c": c, "layout": layout}
            else:
                yield {"what": "empty", "c": c, "layout": layout}
    for c in POOL.values():
        yield {"what": "forms", "c": c, "layout": "flat"}
    for seq in itertools.product(("nodes-num", "edges-num", "net", "nodes"), repeat=2):
        for order in (1, -1):
            yield {"what": "history", "c": KITE, "axes": 9,
                   "ops": [[seq[k % 2], k] for k in range(9)][::order]}  # fmt: skip
    for name, c in POOL.items():
        for rounding in ("default", "off", "four"):
            yield {"what": "components", "c": c, "rounding": rounding}
    yield {"what": "components", "c": WHEEL, "rounding": "default"}
    for c in (KITE, RING):
        for part in ("edges", "nodes", "labels", "network"):
            for directed in (True, False):
                for k in range(OPTION_FLOWS[part]):
                    yield {"what": "options", "c": c, "part": part, "directed": directed,
                           "flow": k}  # fmt: skip
    yield {"what": "filters", "c": KITE}
    yield {"what": "filters", "c": RING}


# ------------------------------------------------------------------- helpers
def coords(n, layout):
    if layout == "free":
        return None
    if layout == "line":
        return {i: (0.0, float(i)) for i in range(n)}
    if layout == "flat":  # long edges, hardly rising, level, steep and upright
        pts = [(0.0, 0.0), (100.0, 9.0), (200.0, 9.0), (100.0, -40.0), (260.0, 3.0)]
        return {i: pts[i] for i in range(n)}
    pts = [(0.0, 0.0), (2.0, 0.0), (2.0, 3.0), (-1.0, 2.5), (5.0, 1.0)]
    if n > len(pts):
        pts = [(0.0, 0.0)]
        pts += [(3 * math.cos(0.2 + 6.28 * i / n), 3 * math.sin(0.2 + 6.28 * i / n))
                for i in range(1, n)]  # fmt: skip
    out = {i: pts[i] for i in range(n)}
    if layout == "given-np":  # another order of the keys, array points
        out = {i: np.array(out[i]) for i in sorted(out, key=lambda i: -i)}
    return out


def flow_of(E):
    i = np.arange(E)
    return np.round(np.sin(1.0 + 2.3 * i) * 3 + 0.5, 3)


class Canvas:
    """Model of what the axes must show; compared with the artists."""

    def __init__(self, plot):
        self.plot = plot
        self.content = {}
        self.bars = {}

    def of(self, ax):
        return self.content.setdefault(
            ax, {"text": [], "points": [], "lines": [], "tris": []}
        )

    def nodes(self, sc, ax, labels=False):
        pos = self.plot.pos
        c = self.of(ax)
        c["points"].append([tuple(map(float, pos[v])) for v in sc.nodes])
        if labels:
            for v in sc.nodes:
                c["text"].append((str(v), tuple(map(float, pos[v])), 1e-9))

    def edges(self, sc, ax, edges, directed=True):
        pos = self.plot.pos
        c = self.of(ax)
        for a, b in edges:
            seg = (tuple(map(float, pos[a])), tuple(map(float, pos[b])))
            c["lines"].append(seg if directed else tuple(sorted(seg)))
        for t in sc.triangles:
            c["tris"].append(tuple(sorted(tuple(map(float, pos[v])) for v in t)))

    def labels(self, ax, flow, offset=0.15):
        pos = self.plot.pos
        for (a, b), v in flow.items():
            mid = (
                (float(pos[a][0]) + float(pos[b][0])) / 2,
                (float(pos[a][1]) + float(pos[b][1])) / 2,
            )
            self.of(ax)["text"].append((v, mid, 1.5 * offset + 1e-9))


def seen(ax):
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch, Polygon

    out = {"text": [], "points": [], "lines": [], "tris": []}
    for t in ax.texts:
        out["text"].append((t.get_text(), tuple(map(float, t.get_position()))))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                out["lines"].append(
                    tuple(sorted((tuple(map(float, s[0])), tuple(map(float, s[-1])))))
                )
        elif isinstance(c, PathCollection):
            out["points"].append([tuple(map(float, p)) for p in c.get_offsets()])
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = p._posA_posB
            out["lines"].append((tuple(map(float, a)), tuple(map(float, b))))
        elif isinstance(p, Polygon):
            xy = {tuple(map(float, v)) for v in p.get_xy()}
            out["tris"].append(tuple(sorted(xy)))
    return out


def one_to_one(fits):
    """Can every row be given a column of its own? fits[i] = columns that fit."""
    owner = {}

    def give(i, tried):
        for j in fits[i]:
            if j not in tried:
                tried.add(j)
                if j not in owner or give(owner[j], tried):
                    owner[j] = i
                    return True
        return False

    return all(give(i, set()) for i in range(len(fits)))


def reads(text, value, tol):
    try:
        return abs(float(text) - float(value)) <= tol
    except ValueError:
        return False


def same_text(want, got):
    """Is there a one to one match of the wanted and the drawn texts?"""
    return len(want) == len(got) and one_to_one(
        [
            [
                j
                for j, (s, (u, v)) in enumerate(got)
                if math.hypot(u - x, v - y) <= tol
                and (s == w if isinstance(w, str) else reads(s, w, 1e-9))
            ]
            for w, (x, y), tol in want
        ]
    )


def near_seq(a, b):
    return len(a) == len(b) and all(
        np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), atol=1e-9)
        for x, y in zip(sorted(a), sorted(b))
    )


def shows(rec, want, ax, where, plot=None):
    got = seen(ax)
    want = want or {"text": [], "points": [], "lines": [], "tris": []}
    ok = (
        rec.check(
            near_seq([sorted(p) for p in got["points"]], [sorted(p) for p in want["points"]])
            if len({len(p) for p in got["points"] + want["points"]}) < 2
            else False,
            lambda: f"points {got['points']}, expected {want['points']}: {where}",
        )
        and rec.check(
            near_seq(got["lines"], want["lines"]),
            lambda: f"edges {sorted(got['lines'])}, expected {sorted(want['lines'])}: "
            f"{where}",
        )
        and rec.check(
            near_seq(got["tris"], want["tris"]),
            lambda: f"triangles {got['tris']}, expected {want['tris']}: {where}",
        )
        and rec.check(
            same_text(want["text"], got["text"]),
            lambda: f"texts {got['text']}, expected {want['text']}: {where}",
        )
    )
    if ok and want["points"] and plot is not None and plot.pos:
        (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        ok = rec.check(
            all(
                x0 - 1e-9 <= p[0] <= x1 + 1e-9 and y0 - 1e-9 <= p[1] <= y1 + 1e-9
                for p in plot.pos.values()
            ),
            lambda: f"nodes {plot.pos} outside of {ax.get_xlim()} {ax.get_ylim()}: {where}",
        )
    return ok


def colourbars(fig, known):
    return [a for a in fig.axes if a not in known and hasattr(a, "_colorbar")]


def edge_colours(ax):
    """[((from, to), rgb)] of the edges drawn in ax, in drawing order."""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch

    out = []
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = p._posA_posB
            out.append(
                ((tuple(map(float, a)), tuple(map(float, b))), p.get_edgecolor()[:3])
            )
    for c in ax.collections:
        if isinstance(c, LineCollection):
            cols = c.get_edgecolor()
            for i, s in enumerate(c.get_segments()):
                out.append(
                    (
                        tuple(sorted((tuple(map(float, s[0])), tuple(map(float, s[-1]))))),
                        tuple(cols[i % len(cols)][:3]),
                    )
                )
    return out


def check_colours(rec, plot, ax, bar, flow, cmap, directed, where, lim=None):
    """Edges are coloured by their own flow, on the scale of the colour bar."""
    m = bar._colorbar.mappable
    lo, hi = m.get_clim()
    vals = list(flow.values())
    if not rec.check(
        m.get_cmap().name == cmap.name
        and lo <= min(vals) + 1e-9
        and hi >= max(vals) - 1e-9
        or lim,
        f"colour bar {m.get_cmap().name} {lo} {hi} for flows {vals}: {where}",
    ):
        return False
    if lim and not rec.check(
        np.allclose((lo, hi), lim), f"colour bar {lo} {hi}, asked for {lim}: {where}"
    ):
        return False
    if hi - lo < 1e-12:
        return True
    got = edge_colours(ax)
    for (a, b), v in flow.items():
        seg = (tuple(map(float, plot.pos[a])), tuple(map(float, plot.pos[b])))
        if not directed:
            seg = tuple(sorted(seg))
        want = cmap(min(1.0, max(0.0, (v - lo) / (hi - lo))))[:3]
        mine = [c for s, c in got if np.allclose(s, seg)]
        if not rec.check(
            len(mine) == 1 and np.allclose(mine[0], want, atol=1e-2),
            f"edge {(a, b)} with flow {v} has colour {mine}, expected {want}: {where}",
        ):
            return False
    return True


# ----------------------------------------------------------------- histories
def run_history(item, rec):
    import matplotlib.pyplot as plt

    from pytspl import SCPlot

    plt.close("all")
    c = item["c"]
    sc = build(c)
    E = len(c["e"])
    f = flow_of(E)
    fd = dict(zip(gen.edges_of(c), f))
    plot = SCPlot(sc, coords(c["n"], "given"))
    many = item.get("axes", 2)
    fig, axes = plt.subplots(3 if many == 9 else 1, many // 3 if many == 9 else many)
    axes = axes.ravel()
    cv = Canvas(plot)
    coloured = {"net", "net-cur", "net-und", "nodes-num", "edges-cur", "edges-num"}
    where = f"history {item['ops']}: {describe(c)}"
    rec.trace()
    done = []
    plt.sca(axes[1])
    current = 1
    for op, side in item["ops"]:
        ax = axes[side]
        plt.figure(fig.number)
        if op.endswith("-cur"):  # on the current axes, after a change of them or not
            if side:
                plt.sca(axes[0])
                current = 0
            ax = axes[current]
        rec.step()
        before = set(plt.get_fignums())
        new = 0
        if op == "net":
            plot.draw_network(f, ax=ax)
            cv.nodes(sc, ax, True), cv.edges(sc, ax, fd), cv.labels(ax, fd)
        elif op == "net-cur":
            plot.draw_network(fd)
            cv.nodes(sc, ax, True), cv.edges(sc, ax, fd), cv.labels(ax, fd)
        elif op == "net-plain":
            plot.draw_network(ax=ax)
            cv.nodes(sc, ax, True), cv.edges(sc, ax, fd)
        elif op == "net-und":
            plot.draw_network(f, directed=False, with_labels=False, ax=ax)
            cv.nodes(sc, ax), cv.edges(sc, ax, fd, False)
        elif op == "nodes":
            plot.draw_sc_nodes(with_labels=True, ax=ax)
            cv.nodes(sc, ax, True)
        elif op == "nodes-cur":
            plot.draw_sc_nodes()
            cv.nodes(sc, ax)
        elif op == "nodes-num":
            plot.draw_sc_nodes(node_color=list(range(c["n"])), ax=ax)
            cv.nodes(sc, ax)
        elif op == "edges":
            plot.draw_sc_edges(ax=ax)
            cv.edges(sc, ax, fd)
        elif op == "edges-cur":
            plot.draw_sc_edges(edge_flow=fd)
            cv.edges(sc, ax, fd)
        elif op == "edges-num":
            plot.draw_sc_edges(edge_flow=fd, ax=ax)
            cv.edges(sc, ax, fd)
        elif op == "labels":
            res = plot.draw_edge_labels(fd, ax=ax)
            cv.labels(ax, fd)
            rec.check(set(res) == set(fd), f"labels {set(res)}: {where}")
        elif op == "labels-cur":
            plot.draw_edge_labels(fd)
            cv.labels(ax, fd)
        elif op == "hodge":
            plot.draw_hodge_decomposition(f)
            new = 1
        elif op == "hodge-c":
            plot.draw_hodge_decomposition(f, component="gradient")
            new = 1
        elif op == "eigen":
            plot.draw_eigenvectors("gradient", [0])
            new = 1
        elif op == "refused":
            rec.check(
                raises(ValueError, plot.draw_network, f, ax=ax, colour="red")
                and raises(
                    AssertionError, plot.draw_edge_labels, [1, 2], ax=ax
                ),
                f"wrong arguments are not refused: {where}",
            )
        done.append((op, side))
        rec.state(*gen.key(c), *done)
        opened = set(plt.get_fignums()) - before
        ok = rec.check(
            len(opened) == new, f"{op} opens {len(opened)} figures: {where}"
        )
        for n in opened:
            plt.close(n)
        for i, a in enumerate(axes):
            ok = ok and shows(
                rec, cv.content.get(a), a, f"axes {i} after {done}: {describe(c)}", plot
            )
        ok = ok and rec.check(
            len(fig.axes) == len(axes) + sum(o in coloured for o, _ in done)
            and len(colourbars(fig, list(axes))) == len(fig.axes) - len(axes),
            lambda: f"{len(fig.axes) - len(axes)} colour bars after {done}: {where}",
        )
        ok = ok and rec.check(
            list(sc.edges) == gen.edges_of(c) and list(sc.nodes) == list(range(c["n"])),
            f"drawing changed the complex: {where}",
        )
        if not ok:
            break
    rec.outcome(*(len(a.get_children()) for a in axes), len(fig.axes))
    rec.sample(where)
    plt.close("all")


# --------------------------------------------------------------------- forms
def run_forms(item, rec):
    import matplotlib.pyplot as plt

    from pytspl import SCPlot

    c, layout = item["c"], item["layout"]
    E = len(c["e"])
    edges = gen.edges_of(c)
    f = flow_of(E)
    ints = np.array([((7 * i) % 5) - 2 for i in range(E)])
    whole = dict(zip(edges, f))
    forms = {
        "none": (None, None),
        "array": (f, whole),
        "list": ([float(x) for x in f], whole),
        "ints": (ints, dict(zip(edges, ints))),
        "dict": (dict(whole), whole),
        "reordered": ({e: whole[e] for e in edges[::-1]}, whole),
        "partial": ({e: whole[e] for e in edges[::2]}, {e: whole[e] for e in edges[::2]}),
        "constant": (np.full(E, 2.5), dict(zip(edges, [2.5] * E))),
        "negative": (-np.abs(f) - 1, dict(zip(edges, -np.abs(f) - 1))),
    }
    styles = [{}, {"edge_cmap": plt.cm.viridis, "edge_vmin": -5.0, "edge_vmax": 7.0},
              {"node_size": 50, "font_size": 5, "offset": 0.4}]  # fmt: skip
    for name, (given, flow) in forms.items():
        for directed, labels in itertools.product((True, False), repeat=2):
            for style in styles if name in ("array", "reordered") else styles[:1]:
                plt.close("all")
                sc = build(c)
                plot = SCPlot(sc, coords(c["n"], layout))
                where = f"{name} flow, directed={directed} labels={labels} {layout} {style}: {describe(c)}"
                rec.state(*gen.key(c), layout, name, directed, labels, repr(style))
                rec.step()
                rec.trace()
                fig, axes = plt.subplots(1, 2)
                keep = None if given is None else repr(given)
                plot.draw_network(
                    given, directed=directed, with_labels=labels, ax=axes[0], **style
                )
                ok = rec.check(
                    plot.pos is not None
                    and set(plot.pos) == set(range(c["n"]))
                    and (given is None or repr(given) == keep),
                    f"layout {plot.pos}, flow {given}: {where}",
                )
                if not ok:
                    return
                cv = Canvas(plot)
                cv.nodes(sc, axes[0], labels)
                cv.edges(sc, axes[0], flow if flow is not None else edges, directed)
                if labels and flow is not None:
                    cv.labels(axes[0], flow, style.get("offset", 0.15))
                ok = shows(rec, cv.content[axes[0]], axes[0], where, plot) and shows(
                    rec, None, axes[1], "the other axes: " + where
                )
                bars = colourbars(fig, list(axes))
                ok = ok and rec.check(
                    len(bars) == (flow is not None), f"{len(bars)} colour bars: {where}"
                )
                if ok and flow is not None:
                    cm = style.get("edge_cmap", plt.cm.Blues)
                    lim = (-5.0, 7.0) if "edge_vmin" in style else None
                    ok = check_colours(
                        rec, plot, axes[0], bars[0], flow, cm, directed, where, lim
                    )
                if not ok:
                    plt.close("all")
                    return
                rec.outcome(name, directed, labels, len(axes[0].get_children()))
    # node values
    for vals, cm, lim in (
        (list(np.linspace(-1, 2, c["n"])), plt.cm.Reds, None),
        (np.arange(c["n"])[::-1], plt.cm.viridis, (-1.0, 9.0)),
        ([1.5] * c["n"], plt.cm.Blues, (0.0, 3.0)),
    ):
        plt.close("all")
        sc = build(c)
        plot = SCPlot(sc, coords(c["n"], layout))
        fig, ax = plt.subplots()
        rec.step()
        rec.trace()
        rec.state(*gen.key(c), layout, "nodes", repr(vals))
        kw = {} if lim is None else {"vmin": lim[0], "vmax": lim[1]}
        plot.draw_sc_nodes(node_color=vals, cmap=cm, ax=ax, **kw)
        where = f"node values {vals} {cm.name} {lim} {layout}: {describe(c)}"
        bars = colourbars(fig, [ax])
        if not rec.check(len(bars) == 1, f"{len(bars)} colour bars: {where}"):
            break
        fig.canvas.draw()
        lo, hi = bars[0]._colorbar.mappable.get_clim()
        col = ax.collections[0].get_facecolor()
        pts = [tuple(map(float, p)) for p in ax.collections[0].get_offsets()]
        ok = rec.check(
            np.allclose((lo, hi), lim)
            if lim
            else lo <= min(vals) + 1e-9 and hi >= max(vals) - 1e-9,
            f"colour bar from {lo} to {hi}: {where}",
        )
        for v, val in enumerate(vals):
            at = [i for i, p in enumerate(pts) if np.allclose(p, plot.pos[v])]
            want = cm((val - lo) / (hi - lo))[:3] if hi > lo else None
            ok = ok and rec.check(
                len(at) == 1
                and (want is None or np.allclose(col[at[0] % len(col)][:3], want, atol=1e-2)),
                f"node {v} with value {val} has colour {[col[i % len(col)] for i in at]}, "
                f"expected {want}: {where}",
            )
        if not ok:
            break
    plt.close("all")


def run_empty(item, rec):
    """Nodes without edges can still be drawn."""
    import matplotlib.pyplot as plt

    from pytspl import SCPlot

    plt.close("all")
    c = item["c"]
    sc = build(c)
    plot = SCPlot(sc, coords(c["n"], item["layout"]))
    fig, ax = plt.subplots()
    rec.step()
    rec.trace()
    rec.state(*gen.key(c), item["layout"])
    plot.draw_sc_nodes(with_labels=True, ax=ax)
    cv = Canvas(plot)
    cv.nodes(sc, ax, True)
    shows(rec, cv.content[ax], ax, f"{item['layout']}: {describe(c)}", plot)
    plt.close("all")


# ------------------------------------------------------------------- options
def strokes(ax):
    """[(width, opacity)] of the edges drawn in ax."""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch

    out = [
        (p.get_linewidth(), p.get_edgecolor()[3], p.get_mutation_scale())
        for p in ax.patches
        if isinstance(p, FancyArrowPatch)
    ]
    for c in ax.collections:
        if isinstance(c, LineCollection):
            n = len(c.get_segments())
            w, col = c.get_linewidths(), c.get_edgecolor()
            out += [(w[i % len(w)], col[i % len(col)][3], None) for i in range(n)]
    return out


def clim(rec, bar, lo, hi, vals, where):
    """The colour range: as asked, or else one that holds every value."""
    low, high = bar._colorbar.mappable.get_clim()
    rec.check(
        (lo == low if lo is not None else low <= min(vals) + 1e-9)
        and (hi == high if hi is not None else high >= max(vals) - 1e-9),
        f"colour bar {low} {high} for {list(vals)}, asked for {lo} {hi}: {where}",
    )
    return low, high


def run_options(item, rec):
    """Every option reaches the parts of the drawing it is for, and only them."""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    from pytspl import SCPlot

    c, directed = item["c"], item["directed"]
    edges = gen.edges_of(c)
    flows = [
        dict(zip(edges, flow_of(len(edges)))),
        dict(zip(edges, np.linspace(1, 4, len(edges)))),
        dict(zip(edges, -np.linspace(1, 4, len(edges)))),
        dict(zip(edges, np.linspace(0, 3, len(edges)))),
        {e: i - 2 for i, e in enumerate(edges)},
    ]

    def start():
        plt.close("all")
        sc = build(c)
        fig, ax = plt.subplots()
        rec.step()
        rec.trace()
        return sc, SCPlot(sc, coords(c["n"], "given")), fig, ax

    def check_edges(plot, fig, ax, flow, cmap, lo, hi, width, alpha, arrow, where):
        bars = colourbars(fig, [ax])
        if not rec.check(len(bars) == 1, f"{len(bars)} colour bars: {where}"):
            return False
        lo, hi = clim(rec, bars[0], lo, hi, flow.values(), where)
        fig.canvas.draw()
        got = strokes(ax)
        return check_colours(
            rec, plot, ax, bars[0], flow, cmap, directed, where, (lo, hi)
        ) and rec.check(
            len(got) == len(edges)
            and all(
                abs(w - width) < 1e-9
                and abs(a - alpha) < 1e-6
                and (not directed or m == arrow)
                for w, a, m in got
            ),
            f"edges drawn with {got}: {where}",
        )

    def check_nodes(ax, sc, size, alpha, rim, where):
        dots = [x for x in ax.collections if type(x).__name__ == "PathCollection"][0]
        return rec.check(
            set(dots.get_sizes()) == {size}
            and np.allclose(dots.get_edgecolor(), to_rgba(rim, alpha))
            and np.allclose(dots.get_facecolor()[:, 3], alpha),
            f"nodes of size {dots.get_sizes()}, rim {dots.get_edgecolor()}: {where}",
        )

    def check_texts(texts, size, color, weight, alpha, where):
        return rec.check(
            all(
                t.get_fontsize() == size
                and to_rgba(t.get_color()) == to_rgba(color)
                and t.get_weight() == weight
                and t.get_alpha() == alpha
                for t in texts
            ),
            lambda: "texts drawn with "
            f"{[(t.get_fontsize(), t.get_color(), t.get_weight(), t.get_alpha()) for t in texts]}"
            f": {where}",
        )

    if item["part"] == "edges":
        for k, flow in [(item["flow"], flows[item["flow"]])]:
            for lo, hi in itertools.product((None, 0, -1.5, 0.5), (None, 0, 3.0, 9)):
                vals = list(flow.values())
                low = min(vals) - abs(min(vals)) * 0.5 if lo is None else lo
                if low >= (max(vals) if hi is None else hi):
                    continue
                for width, alpha, arrow in ((1.0, 0.8, 10), (4.5, 1, 3), (0.5, 0.0, 25)):
                    sc, plot, fig, ax = start()
                    cm = plt.get_cmap() if width > 4 else plt.cm.Blues
                    kw = {"edge_cmap": None} if width > 4 else {}
                    kw |= {"edge_vmin": lo, "edge_vmax": hi, "edge_width": width,
                          "alpha": alpha, "arrowsize": arrow}  # fmt: skip
                    where = f"edges of {flow} {kw} directed={directed}: {describe(c)}"
                    rec.state(*gen.key(c), directed, k, repr(kw))
                    plot.draw_sc_edges(flow, directed=directed, ax=ax, **kw)
                    if not check_edges(
                        plot, fig, ax, flow, cm, lo, hi, width, alpha, arrow, where
                    ):
                        return
                    rec.outcome(k, lo, hi)
    elif item["part"] == "nodes":
        n = c["n"]
        for vals in [
            (None, range(1, n + 1), np.linspace(-3, 0, n), [0.5, -2, 1, 0, 3][:n])[item["flow"]]
        ]:
            for lo, hi in itertools.product((None, 0, -4.0), (None, 0, 6)):
                if vals is None and (lo, hi) != (None, None):
                    continue
                if vals is not None:
                    low = min(vals) - abs(min(vals)) * 0.5 if lo is None else lo
                    high = max(vals) if hi is None else hi
                    if low >= high:
                        continue
                for size, alpha, rim, margins in (
                    (300, 0.8, "black", None),
                    (20, 0.0, "red", 0),
                    (900, 1, "green", (0.2, 0.4)),
                ):
                    sc, plot, fig, ax = start()
                    cm = plt.get_cmap() if size == 20 else plt.cm.Blues
                    kw = {"cmap": None} if size == 20 else {}
                    kw |= {"node_size": size, "alpha": alpha, "node_edge_colors": rim,
                          "margins": margins, "vmin": lo, "vmax": hi}  # fmt: skip
                    if vals is None:
                        kw.pop("vmin"), kw.pop("vmax")
                    else:
                        kw["node_color"] = list(vals)
                    where = f"nodes {kw}: {describe(c)}"
                    rec.state(*gen.key(c), directed, repr(kw))
                    plot.draw_sc_nodes(ax=ax, with_labels=directed, **kw)
                    cv = Canvas(plot)
                    cv.nodes(sc, ax, directed)
                    fig.canvas.draw()
                    if not (
                        shows(rec, cv.content[ax], ax, where, plot)
                        and check_nodes(ax, sc, size, alpha, rim, where)
                        and check_texts(ax.texts, 12, "k", "normal", alpha, where)
                    ):
                        return
                    if vals is None:
                        continue
                    bars = colourbars(fig, [ax])
                    if not rec.check(len(bars) == 1, f"{len(bars)} colour bars: {where}"):
                        return
                    low, high = clim(rec, bars[0], lo, hi, vals, where)
                    m = bars[0]._colorbar.mappable
                    dots = ax.collections[0]
                    pts = [tuple(map(float, p)) for p in dots.get_offsets()]
                    want = [
                        cm(min(1.0, max(0.0, (v - low) / (high - low))))[:3]
                        for v in vals
                    ]
                    at = [
                        [i for i, p in enumerate(pts) if np.allclose(p, plot.pos[v])]
                        for v in sc.nodes
                    ]
                    if not rec.check(
                        np.allclose(m.get_clim(), (low, high))
                        and all(
                            len(i) == 1
                            and np.allclose(dots.get_facecolor()[i[0]][:3], w, atol=1e-2)
                            for i, w in zip(at, want)
                        ),
                        f"colours {dots.get_facecolor().tolist()} on {m.get_clim()}, "
                        f"expected {want} on {(low, high)}: {where}",
                    ):
                        return
                    rec.outcome(lo, hi)
    elif item["part"] == "labels":
        for flow, size, color, weight, alpha, offset in itertools.product(
            [flows[item["flow"]]], (6, 11), ("k", "red"), ("normal", "bold"), (None, 0, 0.5),
            (0, 0.15, 0.4),
        ):  # fmt: skip
            sc, plot, fig, ax = start()
            kw = {"font_size": size, "font_color": color, "font_weight": weight,
                  "alpha": alpha, "offset": offset}  # fmt: skip
            where = f"labels {kw}: {describe(c)}"
            rec.state(*gen.key(c), directed, repr(kw))
            plot.draw_edge_labels(flow, ax=ax, **kw)
            cv = Canvas(plot)
            cv.labels(ax, flow, offset)
            if not (
                shows(rec, cv.content[ax], ax, where, plot)
                and check_texts(ax.texts, size, color, weight, alpha, where)
            ):
                return
            rec.outcome(size, color)
    else:
        defaults = {"node_size": 300, "node_edge_colors": "black", "font_color": "k",
                    "font_weight": "normal", "edge_width": 1.0, "arrowsize": 10,
                    "edge_cmap": plt.cm.Blues, "edge_vmin": None, "edge_vmax": None}  # fmt: skip
        plain = {"node_size": 400, "edge_width": 5, "arrowsize": 30}
        values = {"node_size": 50, "node_edge_colors": "red", "font_color": "blue",
                  "font_weight": "bold", "edge_width": 2.5, "arrowsize": 4,
                  "edge_cmap": plt.cm.viridis, "edge_vmin": 0, "edge_vmax": 8.0}  # fmt: skip
        for flow in [flows[1:4:2][item["flow"]]]:
            for size in range(4):
                for names in itertools.combinations(values, size):
                    sc, plot, fig, ax = start()
                    kw = {k: values[k] for k in names}
                    use = {**defaults, **(kw or plain)}
                    where = f"network with {kw} directed={directed}: {describe(c)}"
                    rec.state(*gen.key(c), directed, repr(kw))
                    plot.draw_network(
                        np.array(list(flow.values())), directed=directed, ax=ax, **kw
                    )
                    cv = Canvas(plot)
                    cv.nodes(sc, ax, True)
                    cv.edges(sc, ax, flow, directed)
                    cv.labels(ax, flow)
                    if not (
                        shows(rec, cv.content[ax], ax, where, plot)
                        and check_edges(
                            plot, fig, ax, flow, use["edge_cmap"], use["edge_vmin"],
                            use["edge_vmax"], use["edge_width"], 0.8, use["arrowsize"],
                            where,
                        )
                        and check_nodes(
                            ax, sc, use["node_size"], 0.8, use["node_edge_colors"], where
                        )
                        and rec.check(
                            all(
                                to_rgba(t.get_color()) == to_rgba(use["font_color"])
                                and t.get_weight() == use["font_weight"]
                                for t in ax.texts
                            ),
                            f"text options: {where}",
                        )
                    ):  # fmt: skip
                        return
                    rec.outcome(names)
    plt.close("all")
    rec.sample(f"options of {item['part']}: {describe(c)}")


# ---------------------------------------------------------------- components
def titles(fig):
    return [a for a in fig.axes if a.get_title()]


def run_components(item, rec):
    import matplotlib.pyplot as plt

    from pytspl import SCPlot

    c = item["c"]
    E = len(c["e"])
    edges = gen.edges_of(c)
    kw = {
        "default": {},
        "off": {"round_fig": False},
        "four": {"round_sig_fig": 4},
    }[item["rounding"]]
    digits = {"default": 2, "off": None, "four": 4}[item["rounding"]]

    from .common import ref_of

    ref = ref_of(c)
    letters = {"gradient": "G", "curl": "C", "harmonic": "H"}
    for f in (flow_of(E), np.arange(E) - 1.0):
        parts = {k: ref.component(k) @ f for k in letters}
        for what in (None, *letters):
            plt.close("all")
            sc = build(c)
            plot = SCPlot(sc, coords(c["n"], "given"))
            plt.figure()
            rec.step()
            rec.trace()
            rec.state(*gen.key(c), item["rounding"], "hodge", what, f[0])
            plot.draw_hodge_decomposition(f, component=what, **kw)
            where = f"hodge {what} of {f} {kw}: {describe(c)}"
            figs = plt.get_fignums()
            if not rec.check(len(figs) == 2, f"{len(figs) - 1} figures drawn: {where}"):
                return
            axes = titles(plt.figure(figs[-1]))
            names = [what] if what else list(letters)
            if not rec.check(
                len(axes) == len(names)
                and all(
                    letters[n] in a.get_title().replace("mathbf", "")
                    for n, a in zip(names, axes)
                ),
                f"titles {[a.get_title() for a in axes]}: {where}",
            ):
                return
            for name, ax in zip(names, axes):
                if not texts_match(rec, ax, sc, plot, edges, parts[name], digits, where):
                    return
    for name in letters:
        sc = build(c)
        U, lam = sc.get_component_eigenpair(component=name)
        k = len(lam)
        picks = [[]] if k else []
        picks += [list(p) for r in (1, 2) for p in itertools.permutations(range(k), r)]
        picks += [list(range(k))[::-1]] if k > 2 else []
        if k > 6:
            picks = [[], list(range(k))[::-1], list(range(k))[-7:], [3, 0, 5, 1]]
        for pick in picks[:40]:
            plt.close("all")
            plot = SCPlot(sc, coords(c["n"], "given"))
            old = plt.figure()
            old.add_subplot()
            rec.step()
            rec.trace()
            rec.state(*gen.key(c), item["rounding"], "eigen", name, tuple(pick))
            plot.draw_eigenvectors(name, pick, **kw)
            where = f"eigenvectors {pick} of {name} {kw}: {describe(c)}"
            figs = plt.get_fignums()
            if not rec.check(
                len(figs) == 2 and len(old.axes) == 1,
                f"{len(figs) - 1} figures drawn: {where}",
            ):
                return
            axes = titles(plt.figure(figs[-1]))
            idx = pick or list(range(k))
            sig = 4 if digits == 4 else 2
            if not rec.check(
                len(axes) == len(idx)
                and all(
                    letters[name] in a.get_title()
                    and abs(float(a.get_title().split("=")[-1]) - lam[i]) <= 0.5001 * 10**-sig
                    for i, a in zip(idx, axes)
                ),
                f"titles {[a.get_title() for a in axes]}, values {lam}: {where}",
            ):
                return
            spots = {
                tuple(np.round(a.get_subplotspec().get_position(a.figure).bounds, 6))
                for a in axes
            }
            rec.check(len(spots) == len(axes), f"drawn over each other: {where}")
            for i, ax in zip(idx, axes):
                if not texts_match(
                    rec, ax, sc, plot, edges, U[:, i], digits, where
                ):
                    return
    plt.close("all")


def texts_match(rec, ax, sc, plot, edges, values, digits, where):
    """Node labels, and one label per edge that reads its value."""
    got = seen(ax)["text"]
    tol = 1e-7 if digits is None else 10.0**-digits * 0.5001 + 1e-9
    fits = [
        [j for j, (s, p) in enumerate(got) if s == str(v) and np.allclose(p, plot.pos[v])]
        for v in sc.nodes
    ]
    for (a, b), v in zip(edges, values):
        mid = (np.asarray(plot.pos[a], dtype=float) + np.asarray(plot.pos[b])) / 2
        fits.append(
            [
                j
                for j, (s, p) in enumerate(got)
                if math.hypot(p[0] - mid[0], p[1] - mid[1]) <= 0.226
                and reads(s, v, tol)
                and (digits is None or reads(s, round(float(s), digits), 1e-9))
            ]
        )
    return rec.check(
        len(got) == len(fits)
        and one_to_one(fits)
        and len(seen(ax)["lines"]) == len(edges),
        lambda: f"texts {got} for edges {edges} with values {list(values)}: {where}",
    )


# ------------------------------------------------------------------- filters
def run_filters(item, rec):
    import matplotlib.pyplot as plt

    from pytspl.filters import ChebyshevFilterDesign
    from pytspl.filters.edge_flow_denoising import EdgeFlowDenoising

    from .c15_chebyshev import coefficients
    from .common import distinct, ref_of

    c = item["c"]
    sc, ref = build(c), ref_of(c)
    E = len(c["e"])
    f = flow_of(E)

    def by_eigenspace(x, y):
        return {
            round(lam, 4): float(np.sum(np.asarray(y)[np.abs(x - lam) < 1e-5]))
            for lam in distinct(x)
        }

    for P in ("L1", "L1L", "L1U"):
        plt.close("all")
        fil = EdgeFlowDenoising(sc)
        rec.state(*gen.key(c), "denoise", P)
        rec.trace()
        rec.check(
            raises(ValueError, fil.plot_desired_frequency_response, P),
            f"plot before a run is not refused: {P}",
        )
        fil.denoise(f, 0.5 * f, P, np.array([0.1, 0.5, 2.0]))
        rec.step(2)
        plt.figure()
        fil.plot_desired_frequency_response(P)
        figs = plt.get_fignums()
        if not rec.check(len(figs) == 2, f"{len(figs) - 1} figures: response {P}"):
            return
        lines = plt.gcf().axes[0].lines
        w = np.linalg.eigvalsh(ref.lap(P).astype(float))
        x, y = (np.asarray(v, dtype=float) for v in lines[0].get_data())
        h = np.linalg.inv(np.eye(E) + 2.0 * ref.lap(P))
        rec.check(
            close(np.sort(x), w, 1e-7)
            and close(y, np.asarray(fil.history["frequency_responses"][-1]), 1e-9)
            and abs(y.sum() - np.trace(h)) < 1e-6,
            f"response plot {x} {y}: {P} {describe(c)}",
        )
    for P in ("L1", "L1L") if not c["t"] else ("L1", "L1L", "L1U"):
        for comp in ("gradient", "curl", "harmonic"):
            plt.close("all")
            fil = ChebyshevFilterDesign(sc)
            rec.state(*gen.key(c), "chebyshev", P, comp)
            rec.trace()
            rec.check(
                raises(ValueError, fil.plot_frequency_response_approx, f, comp),
                f"plot before a run is not refused: {P} {comp}",
            )
            rec.step(2)
            if not np.linalg.norm(ref.component(comp) @ f) > 1e-6:
                continue
            fil.apply(f=f, p_choice=P, component=comp, L=4, n=30)
            fil.plot_frequency_response_approx(f, comp)
            sets = plt.gcf().axes[0].collections
            w, U = np.linalg.eigh(ref.L1.astype(float))
            x, y = np.asarray(sets[0].get_offsets(), dtype=float).T
            x2, y2 = np.asarray(sets[1].get_offsets(), dtype=float).T
            want = by_eigenspace(w, (U.T @ ref.component(comp) @ f) ** 2)
            got = by_eigenspace(x, y**2)
            rec.check(
                want.keys() == got.keys()
                and all(abs(want[k] - got[k]) < 1e-6 for k in want)
                and close(np.sort(x2), np.sort(w), 1e-7)
                and close(y2, np.asarray(fil.history["frequency_responses"][-1]), 1e-9),
                f"plotted true component {got}, expected {want}: {P} {comp}",
            )
        for cut, steep, n in ((0.01, 100, {}), (1.5, 3, {"n": 20}), (0.5, 10, {"n": 3})):
            plt.close("all")
            rec.step()
            rec.trace()
            ChebyshevFilterDesign(sc).plot_chebyshev_series_approx(
                p_choice=P, cut_off_frequency=cut, steep=steep, **n
            )
            sets = plt.gcf().axes[0].collections
            w = np.linalg.eigvalsh(ref.lap(P).astype(float))
            x, y = np.asarray(sets[0].get_offsets(), dtype=float).T
            x2, y2 = np.asarray(sets[1].get_offsets(), dtype=float).T
            co = coefficients(
                lambda v: 1 / (1 + np.exp(-steep * (v - cut))), n.get("n", E), w[-1]
            )
            rec.check(
                close(np.sort(x), w, 1e-7)
                and close(y, 1 / (1 + np.exp(-steep * (x - cut))), 1e-7)
                and close(x2, x, 1e-12)
                and close(y2, np.polynomial.chebyshev.chebval(2 * x / w[-1] - 1, co), 1e-6),
                f"plotted response {x} {y} for cut {cut} steep {steep}: {P}",
            )
    plt.close("all")


def run_item(item, rec):
    {
        "history": run_history,
        "forms": run_forms,
        "empty": run_empty,
        "options": run_options,
        "components": run_components,
        "filters": run_filters,
    }[item["what"]](item, rec)
