"""C02: Laplacians and adjacency are the ones of the complex."""

import numpy as np

from . import gen
from .common import build, describe, raises, ref_of
from .ref import components, dense, rank_mod_p

CHUNK = 128
ASSUMPTIONS = ["edges are pairs of distinct nodes without duplicates"]


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x all directions x 2 edge orders x all "
        "fillings; all labelled graphs on 5 nodes x 3 direction patterns; "
        "structured families up to 300 edges; complexes with degrees above 127, 816 triangles or more than 127 triangles on an edge; Betti numbers on every state with "
        "at most 12 edges"
        + ("; every graph on 6 and 7 nodes up to isomorphism" if tier != "quick" else "")
    )


def items(tier):
    def raw():
        for n in (1, 2, 3, 4):
            yield from gen.exhaustive(n, ("sorted", "rotated"))
        for g in gen.labelled_graphs(5):
            yield from gen.variants(
                5, g, ("fwd", "mix", "cyc"), ("sorted", "riffle"), ("all", "odd")
            )
        if tier != "quick":
            for n, g in gen.atlas(6, 7):
                yield from gen.variants(
                    n, g, gen.PATTERNS, ("sorted", "riffle"), ("all", "odd"), (0, 2)
                )
        yield from gen.family_items(big=True)
        yield from gen.huge_items(fills=("all", "odd"))

    return gen.dedupe(raw())


def run_item(c, rec):
    n = c["n"]
    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E, T = len(ref.edges), len(ref.tris)
    A = np.zeros((n, n))
    for u, v in ref.edges:
        A[u, v] = A[v, u] = 1
    ops = [
        ("laplacian", lambda: sc.laplacian_matrix(), ref.L0),
        ("upper(0)", lambda: sc.upper_laplacian_matrix(rank=0), ref.L0),
        ("hodge(0)", lambda: sc.hodge_laplacian_matrix(rank=0), ref.L0),
        ("lower(1)", lambda: sc.lower_laplacian_matrix(rank=1), ref.L1L),
        ("lower()", lambda: sc.lower_laplacian_matrix(), ref.L1L),
        ("upper(1)", lambda: sc.upper_laplacian_matrix(rank=1), ref.L1U),
        ("upper()", lambda: sc.upper_laplacian_matrix(), ref.L1U),
        ("hodge(1)", lambda: sc.hodge_laplacian_matrix(rank=1), ref.L1),
        ("hodge()", lambda: sc.hodge_laplacian_matrix(), ref.L1),
        ("lower(2)", lambda: sc.lower_laplacian_matrix(rank=2), ref.L2),
        ("hodge(2)", lambda: sc.hodge_laplacian_matrix(rank=2), ref.L2),
        ("adjacency", lambda: sc.adjacency_matrix(), A),
        ("identity", lambda: sc.identity_matrix(), np.eye(n)),
    ]
    got = {}
    for rnd in (0, 1):
        for name, fn, want in ops:
            m = dense(fn())
            rec.step()
            if name in ("lower(2)", "hodge(2)"):
                # a triangle may be walked in either direction
                want, m = _unsign(want), _unsign(m)
            if not rec.check(
                m.shape == want.shape and np.array_equal(m, want),
                lambda: f"{name} is wrong (call {rnd + 1}): {where}\n{m}",
            ):
                return
            got[name] = m
        ops = ops[::-1]
    rec.trace(2)
    l2 = dense(sc.lower_laplacian_matrix(rank=2))
    b2 = dense(sc.incidence_matrix(rank=2))
    rec.step(2)
    rec.check(
        np.array_equal(l2, b2.T @ b2), f"lower(2) does not match the incidence: {where}"
    )
    if E <= 12:
        r1, r2 = rank_mod_p(ref.B1), rank_mod_p(ref.B2)
        b0 = n - rank_mod_p(got["hodge(0)"])
        b1 = E - rank_mod_p(got["hodge(1)"])
        rec.check(
            b0 == components(n, ref.edges),
            f"kernel of the node Laplacian has dimension {b0}: {where}",
        )
        rec.check(
            b1 == E - r1 - r2, f"kernel of the edge Laplacian has dimension {b1}: {where}"
        )
        rec.check(
            T - rank_mod_p(l2) == T - r2,
            f"kernel of the triangle Laplacian is wrong: {where}",
        )
        rec.outcome(b0, b1, T - r2)
    for name, fn, bads in (
        ("lower", sc.lower_laplacian_matrix, (0, 3, -1)),
        ("upper", sc.upper_laplacian_matrix, (2, 3, -1)),
        ("hodge", sc.hodge_laplacian_matrix, (3, -1)),
    ):
        for bad in bads:
            rec.step()
            rec.check(
                raises(ValueError, fn, rank=bad), f"{name} rank {bad} was not refused"
            )
    rec.sample(f"{where}: L0, L1L, L1U, L1, L2 and adjacency match")


def _unsign(m):
    """Canonical form under flipping the direction of triangles: |entries|."""
    return np.abs(m)
