"""C04: structure queries describe exactly the complex that was given."""

import contextlib
import io
import itertools
import re

import numpy as np

from . import gen
from .common import build, describe, raises

CHUNK = 128
ASSUMPTIONS = ["edges and triangles carry no duplicates"]


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x all directions x 2 edge orders x all "
        "fillings; labelled graphs on 5 nodes; structured families; faces of every "
        "simplex on 1..5 vertices in every vertex order, up to 12 vertices in every rotation; every single missing side "
        "of a filled triangle; feature tables with 0..3 columns"
    )


def items(tier):
    def raw():
        for n in (1, 2, 3, 4):
            yield from gen.exhaustive(n, ("sorted", "rotated"))
        yield from gen.triangle_orders(4)
        for g in gen.labelled_graphs(5):
            yield from gen.variants(5, g, ("mix", "cyc"), ("riffle",), ("all", "odd"))
        if tier != "quick":
            for n, g in gen.atlas(6, 7):
                yield from gen.variants(
                    n, g, gen.PATTERNS, ("sorted", "riffle"), ("all", "odd"), (0, 2)
                )
        yield from gen.family_items(patterns=("fwd", "mix"))
        yield from gen.huge_items(max_edges=140)

    for c in gen.dedupe(raw()):
        yield dict(c, kind="complex")
    yield {"kind": "faces"}


def faces_item(rec):
    from pytspl.simplicial_complex import SimplicialComplex

    sc = SimplicialComplex([0, 1, 2], [(0, 1), (1, 2), (0, 2)], [[0, 1, 2]])
    pools = {1: range(4), 2: range(5), 3: (0, 3, 7, 11, 12), 4: (9, 10, 2, 1), 5: range(5)}
    combos = [c for k, pool in pools.items() for c in itertools.permutations(pool, k)]
    # larger ones: every rotation, forwards and backwards
    for k in range(6, 13):
        for i in range(k):
            line = tuple(3 * ((j + i) % k) + k for j in range(k))
            combos += [line, line[::-1]]
    for k, combo in ((len(c), c) for c in combos):
        for form in (tuple, list):
            got = sc.get_faces(form(combo))
            rec.step()
            rec.trace()
            rec.state("faces", combo)
            got = [tuple(f) for f in got]
            want = sorted(
                tuple(sorted(combo[:i] + combo[i + 1 :])) for i in range(k)
            )
            if k == 1:
                want = []
            if not rec.check(
                sorted(got) == want,
                lambda: f"faces of {combo} are {got}, not {want}",
            ):
                return
            rec.outcome(len(got))
    rec.sample("faces of every vertex tuple up to 5 vertices")


def run_item(c, rec):
    if c["kind"] == "faces":
        return faces_item(rec)
    n, e, t = c["n"], gen.edges_of(c), gen.tris_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    nf = {v: {"p": v * 2} for v in range(n)}
    for width in (0, 1, 3):
        names = ["w", "cap", "kind"][:width]
        ef = (
            {x: {m: (m, i) for m in names} for i, x in enumerate(e)} if width else {}
        )
        sc = build(c, node_features=dict(nf), edge_features=dict(ef))
        rec.trace()
        shape = sc.shape
        rec.check(
            tuple(shape) == (n, len(e), len(t)), lambda: f"shape is {shape}: {where}"
        )
        simp = [tuple(s) for s in sc.simplices]
        want = [(v,) for v in range(n)] + e + [tuple(x) for x in t]
        rec.check(
            sorted(map(sorted, simp)) == sorted(map(sorted, want))
            and [s for s in simp if len(s) == 2] == e
            and [s for s in simp if len(s) == 1] == want[:n],
            lambda: f"simplices are {simp}: {where}",
        )
        dim = 2 if t else (1 if e else 0)
        rec.check(sc.max_dim == dim, lambda: f"max_dim is {sc.max_dim}: {where}")
        rec.check(
            list(sc.nodes) == list(range(n)) and [tuple(x) for x in sc.edges] == e,
            lambda: f"nodes or edges were changed: {where}",
        )
        rec.check(
            [sorted(x) for x in sc.triangles] == [sorted(x) for x in t],
            lambda: f"triangles were changed: {where}",
        )
        # inclusion: the faces of every listed simplex are listed
        have = {tuple(sorted(s)) for s in simp}
        for s in simp:
            if len(s) > 1:
                fc = [tuple(f) for f in sc.get_faces(s)]
                rec.step()
                rec.check(
                    len(fc) == len(s) and set(fc) <= have,
                    lambda: f"faces of {s} are not all in the complex: {fc}: {where}",
                )
        rec.step(5)
        # features
        got = sc.get_edge_features()
        rec.check(dict(got) == ef, lambda: f"edge features changed: {got}: {where}")
        rec.check(
            dict(sc.get_node_features()) == nf, lambda: f"node features changed: {where}"
        )
        if e:
            rec.check(
                list(sc.edge_feature_names()) == names,
                lambda: f"edge feature names {sc.edge_feature_names()}: {where}",
            )
        for m in names:
            col = sc.get_edge_features(m)
            rec.step()
            rec.check(
                dict(col) == {x: ef[x][m] for x in e},
                lambda: f"edge feature {m} is {col}: {where}",
            )
        if e and width:
            rec.step()
            rec.check(
                raises(KeyError, sc.get_edge_features, "nope"),
                "an unknown edge feature name was not refused",
            )
        rec.step(3)
    rec.outcome(tuple(shape), dim)
    # the printed summary states the same numbers, in the same order
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        sc.print_summary()
    said = [int(x) for x in re.findall(r"-?\d+", text.getvalue())]
    rec.step()
    rec.check(
        said == [n, len(e), len(t), n, len(e), len(t), dim],
        lambda: f"the summary says {text.getvalue()!r}: {where}",
    )
    # generated coordinates: one finite point per node
    if len(t) < 3 or n > 4:
        pts = sc.generate_coordinates()
        rec.step()
        rec.check(
            list(pts) == list(range(n))
            and all(np.shape(x) == (2,) and np.all(np.isfinite(x)) for x in pts.values())
            and len({tuple(x) for x in pts.values()}) == n,
            lambda: f"generated coordinates {pts}: {where}",
        )
    # a filled triangle needs its three sides
    from pytspl.simplicial_complex import SimplicialComplex

    for tri in t[:3]:
        for drop in itertools.combinations(tri, 2):
            left = [x for x in e if set(x) != set(drop)]
            rec.step()
            rec.trace()
            rec.check(
                raises(
                    ValueError, SimplicialComplex, list(range(n)), left, [list(tri)]
                ),
                lambda: f"triangle {tri} without its side {drop} was accepted: {left}",
            )
    rec.sample(f"{where}: shape {tuple(shape)}, dimension {dim}")
