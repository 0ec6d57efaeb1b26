"""C01: incidence matrices are boundary maps of the complex."""

import numpy as np

from . import gen
from .core import Mismatch  # noqa: F401
from .ref import Ref, dense

CHUNK = 256
ASSUMPTIONS = [
    "nodes are 0..n-1, edges are pairs without duplicates or loops and every "
    "filled triangle has its three edges, as the class requires",
]


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x all directions x 3 edge orders x all "
        "fillings; every insertion order up to "
        + ("3" if tier == "quick" else "4")
        + " edges; every vertex order of the filled triangles; all labelled "
        "graphs on 5 nodes x 5 direction patterns"
        + (" x all fillings of the iso classes" if tier != "quick" else "")
        + "; structured families up to 300 edges; larger complexes up to 816 triangles"
    )


def items(tier):
    def raw():
        for n in (1, 2, 3, 4):
            yield from gen.exhaustive(n)
        yield from gen.all_orders(4, 3 if tier == "quick" else 4)
        yield from gen.triangle_orders(4)
        for g in gen.labelled_graphs(5):
            yield from gen.variants(
                5, g, gen.PATTERNS, ("sorted", "riffle"), ("all", "odd")
            )
        if tier != "quick":
            for n, g in gen.atlas(5, 5):
                cl = gen.cliques3(n, g)
                for o in gen.orientations(g):
                    for ts in gen.subsets(cl) if len(cl) < 6 else [cl]:
                        yield gen.cx(n, o, ts)
            for n, g in gen.atlas(6, 7):
                yield from gen.variants(
                    n, g, gen.PATTERNS, ("sorted", "riffle"), ("all", "odd"), (0, 2)
                )
        yield from gen.family_items(patterns=gen.PATTERNS, big=True)
        yield from gen.huge_items(fills=("all", "odd"))
        yield from gen.huge_items("rev", "reversed")

    return gen.dedupe(raw())


def forms(c):
    """The same complex in the representations callers use."""
    e, t = gen.edges_of(c), gen.tris_of(c)
    yield "tuple/list", e, t
    yield (
        "np.int64/tuple",
        [(np.int64(a), np.int64(b)) for a, b in e],
        [tuple(x) for x in t],
    )


def run_item(c, rec):
    from pytspl.simplicial_complex import SimplicialComplex

    n = c["n"]
    ref = Ref(n, gen.edges_of(c), gen.tris_of(c))
    rec.state(*gen.key(c))
    first = {}
    for j, (a, b, _) in enumerate(ref.tris):
        i = ref.edges.index((a, b)) if (a, b) in ref.edges else ref.edges.index((b, a))
        first[j] = i
    want2 = ref.B2.copy()
    for j, i in first.items():
        want2[:, j] *= want2[i, j]
    for form, e, t in forms(c):
        sc = SimplicialComplex(nodes=list(range(n)), edges=e, triangles=t)
        b1 = dense(sc.incidence_matrix(rank=1))
        b2 = dense(sc.incidence_matrix(rank=2))
        rec.step(2)
        rec.trace()
        where = f"{form} edges={ref.edges} triangles={ref.tris}"
        if not rec.check(
            b1.shape == ref.B1.shape and np.array_equal(b1, ref.B1),
            lambda: f"node-edge incidence is not the tail/head matrix: {where}\n{b1}",
        ):
            return
        if not rec.check(
            b2.shape == ref.B2.shape
            and np.array_equal(np.abs(b2), np.abs(ref.B2)),
            lambda: f"edge-triangle incidence marks other sides: {where}\n{b2}",
        ):
            return
        if not rec.check(
            not np.any(b1 @ b2),
            lambda: f"a triangle boundary is not closed (B1 @ B2 != 0): {where}",
        ):
            return
        if not rec.check(
            np.array_equal(b2, want2),
            lambda: f"+1 is not on the side joining the first two vertices: {where}",
        ):
            return
    r0 = np.asarray(sc.incidence_matrix(rank=0), dtype=float)
    rec.step()
    rec.check(
        r0.shape == (n,) and np.all(r0 == 1), f"rank-0 incidence is not ones({n})"
    )
    for bad in (3, -1, 7):
        rec.step()
        try:
            sc.incidence_matrix(rank=bad)
        except ValueError:
            continue
        rec.fail(f"incidence rank {bad} was not refused")
    again = dense(sc.incidence_matrix(rank=2)), dense(sc.incidence_matrix(rank=1))
    rec.step(2)
    rec.check(
        np.array_equal(again[0], b2) and np.array_equal(again[1], b1),
        f"asking twice gives another matrix: {where}",
    )
    rec.outcome(b2.shape, int(np.abs(b2).sum()), int((b2 < 0).sum()))
    rec.sample(f"n={n} edges={ref.edges} triangles={ref.tris}: B1@B2=0")
