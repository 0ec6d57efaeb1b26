"""C06: distance filling keeps the 3-cliques whose three sides are all short."""

import itertools
import math

import numpy as np

from . import gen
from .common import describe

CHUNK = 32
ASSUMPTIONS = [
    "every edge has a number (None or not-a-number for unknown) in the distance column; "
    "distances are stored under the direction of the edge"
]
VALUES = (0, 0.5, 1.5, 2.0)
THRESHOLDS = (0, 0.25, 0.5, 1, 1.5, 1.75, 2.0, 3)
# lengths that differ from a threshold by one rounding step, or almost
BELOW, ABOVE = math.nextafter(1.5, 0), math.nextafter(1.5, 2)
NEAR = (BELOW, 1.5, ABOVE, 1.5 - 1e-9)
NEAR_EPS = (BELOW, 1.5, ABOVE, 1.5 - 1e-9, 1.5 + 1e-9)
TINY = (0.0, 5e-324, 1e-12, 1e-9, 1e-5)
BIG = (1e15, 1e15 + 1, 1e300, float("inf"), -1e300)
HUGE = (0.5, 1.5, 1e9, float("inf"))  # thresholds on the larger complexes


def bound(tier):
    return (
        "the triangle with every assignment of {0, 0.5, 1.5, 2, -1, None, not a number} to its sides "
        "x all directions; every graph on 4 nodes with every assignment of "
        "{0.5, 2} (thorough: {0, 0.5, 2}) x 3 direction patterns; graphs on 5 and 6 nodes "
        "and structured families with 3 length patterns; larger complexes (up to 261 edges, "
        "680 triangles); 8 thresholds including "
        "ones equal to a distance, int, float and negative distances; the triangle "
        "with every assignment of lengths one rounding step (or 1e-9) from the "
        "threshold, of tiny and of enormous lengths, and with numpy numbers"
    )


def items(tier):
    tri = [(0, 1), (0, 2), (1, 2)]
    for o in gen.orientations(tri):
        for how in ("sorted", "rotated"):
            es = gen.reorder(o, how)
            for d in itertools.product(VALUES + (None, -1, float("nan")), repeat=3):
                yield dict(gen.cx(3, es, []), d=list(d))
    for pat in ("fwd", "mix", "cyc"):
        es = gen.orient(tri, pat)
        for vs, eps in ((NEAR, NEAR_EPS), (TINY, TINY), (BIG, BIG)):
            for d in itertools.product(vs, repeat=3):
                yield dict(gen.cx(3, es, []), d=list(d), eps=list(eps))
        for d in itertools.product((0.5, 1.5), repeat=3):
            for kind in ("float64", "float32", "int64"):
                v = [2 * x for x in d] if kind == "int64" else list(d)
                yield dict(gen.cx(3, es, []), d=v, kind=kind)
    vals = (0.5, 2) if tier == "quick" else (0, 0.5, 2)
    for g in gen.labelled_graphs(4):
        if not gen.cliques3(4, g):
            continue
        for pat in ("fwd", "mix", "cyc"):
            es = gen.orient(g, pat)
            for d in itertools.product(vals, repeat=len(es)):
                yield dict(gen.cx(4, es, []), d=list(d))

    def more():
        for n, g in gen.atlas(5, 6 if tier == "quick" else 7):
            if gen.cliques3(n, g):
                yield from gen.variants(n, g, ("mix",), ("riffle",), ("none",), (0, 2))
        yield from gen.family_items(patterns=("fwd", "mix"), fills=("none",))

    for c in gen.dedupe(more()):
        k = len(c["e"])
        yield dict(c, d=[[0.5, 1.5, 0][i % 3] for i in range(k)])
        yield dict(c, d=[0.1 * ((i * 7) % 23) for i in range(k)])
        yield dict(c, d=[2 if i == k // 2 else 1 for i in range(k)])


    for c in gen.huge_items(fills=("none",)):
        k = len(c["e"])
        yield dict(c, d=[0.1 * ((i * 7) % 23) for i in range(k)], eps=list(HUGE))
        yield dict(c, d=[2 if i == k // 2 else 1 for i in range(k)], eps=list(HUGE))


def norm(ts):
    return sorted(tuple(sorted(t)) for t in ts)


def run_item(c, rec):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    n, e, d = c["n"], gen.edges_of(c), c["d"]
    rec.state(gen.key(c), tuple(d))
    where = f"{describe(c)} distances={d}"
    if "kind" in c:
        d = [getattr(np, c["kind"])(x) for x in d]
    dist = {frozenset(x): v for x, v in zip(e, d)}
    for col in ("distance", "Len km"):
        ef = {
            x: {"noise": 99 - i, col: v, "z": 0.0} for i, (x, v) in enumerate(zip(e, d))
        }
        builder = SCBuilder(nodes=list(range(n)), edges=list(e), edge_features=ef)
        cliques = gen.cliques3(n, e)
        for eps in c.get("eps", THRESHOLDS):
            want = [
                t
                for t in cliques
                if all(
                    dist[frozenset(s)] is not None and dist[frozenset(s)] < eps
                    for s in itertools.combinations(t, 2)
                )
            ]
            got = builder.triangles_dist_based(dist_col_name=col, epsilon=eps)
            sc = builder.to_simplicial_complex(
                condition="distance", dist_col_name=col, dist_threshold=eps
            )
            rec.step(2)
            rec.outcome(len(want), len(cliques))
            for name, ts in (("triangles", got), ("complex", sc.triangles)):
                if not rec.check(
                    norm(ts) == want,
                    lambda: f"distance {name} below {eps} are {norm(ts)}, not {want}: "
                    f"{where}",
                ):
                    return
            rec.check(
                [tuple(x) for x in sc.edges] == e and list(sc.nodes) == list(range(n)),
                lambda: f"nodes or edges changed: {where}",
            )
            if col == "distance" and eps == 1.5:
                dflt = builder.to_simplicial_complex(condition="distance")
                rec.step()
                rec.check(
                    norm(dflt.triangles) == want,
                    lambda: f"default distance filling gives {dflt.triangles}: {where}",
                )
        rec.trace(len(THRESHOLDS))
        everything = builder.to_simplicial_complex()
        rec.step()
        rec.check(
            norm(everything.triangles) == gen.cliques3(n, e),
            lambda: f"'all' after 'distance' gives {everything.triangles}: {where}",
        )
    rec.sample(f"{where}: thresholds {THRESHOLDS}")
