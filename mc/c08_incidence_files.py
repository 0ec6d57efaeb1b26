"""C08: a complex written as incidence files is read back as the same complex."""

import os
import shutil
import tempfile

import numpy as np

from . import gen
from .common import describe
from .ref import Ref, dense

CHUNK = 32
ASSUMPTIONS = [
    "B1 has one -1 and one +1 per column; B2t has one row per triangle with three "
    "nonzero entries, in the edge order of B1; at least one triangle"
]


def bound(tier):
    return (
        "every labelled graph on <=4 nodes with a clique x all directions x "
        f"{'2 column orders' if tier == 'quick' else 'all column orders of K4-free ones, 4 otherwise'} "
        "x every nonempty filling, 0-2 isolated nodes, integer and decimal text, 6 "
        "kinds of separators and line ends; "
        "graphs on 5" + ("" if tier == "quick" else "-7") + " nodes up to "
        "isomorphism; structured families up to 140 edges and 680 triangles; a complex on "
        "70000 nodes"
    )


def items(tier):
    quick = tier == "quick"

    def raw():
        for n in (3, 4):
            for g in gen.labelled_graphs(n):
                cl = gen.cliques3(n, g)
                if not cl:
                    continue
                for o in gen.orientations(g):
                    hows = ("rotated", "riffle") if quick else (
                        "sorted", "reversed", "rotated", "riffle")
                    for how in hows:
                        for ts in gen.subsets(cl):
                            if ts:
                                yield gen.cx(n, gen.reorder(o, how), ts)
        if not quick:
            yield from (
                c for c in gen.all_orders(4, 5) if c["t"] and len(c["e"]) == 5
            )
        for n, g in gen.atlas(5, 5 if quick else 7):
            if gen.cliques3(n, g):
                yield from gen.variants(
                    n, g, ("mix", "rev"), ("riffle", "reversed"), ("all", "odd"), (0, 2)
                )
        yield from gen.family_items(
            patterns=("fwd", "mix"), orders=("riffle", "reversed"), fills=("all", "odd"),
            max_edges=120,
        )
        yield from gen.huge_items("mix", "riffle", ("all", "odd"), max_edges=140)
        # sides of one triangle far apart in the file
        es = [(2, 1), *((i, i + 1) for i in range(5, 300)), (1, 0), (0, 2)]
        yield gen.cx(301, es, [(0, 1, 2)])
        # node numbers beyond 16 bits
        yield gen.cx(70000, [(69999, 3), (3, 40000), (40000, 69999), (300, 3)],
                     [(3, 40000, 69999)])  # fmt: skip

    for i, c in enumerate(gen.dedupe(raw())):
        if c["t"]:
            yield dict(c, iso=i % 3, text=("int", "float", "mixed")[(i // 3) % 3],
                       ends=(i // 9) % len(ENDS))  # fmt: skip


# separator of cells, end of a line, end of the file
ENDS = ((",", "\n", "\n"), (",", "\r\n", "\r\n"), (",", "\n", ""), (", ", "\n", "\n"),
        (",", "\n", "\n\n"), (" ,", "\r\n", ""))  # fmt: skip


def write(path, M, text, ends=0):
    sep, line, last = ENDS[ends]
    with open(path, "w", newline="") as fh:
        for i, row in enumerate(M):
            if text == "int" or (text == "mixed" and i % 2):
                cells = [str(int(x)) for x in row]
            else:
                cells = [f"{float(x):.1f}" for x in row]
            fh.write(sep.join(cells) + (line if i + 1 < len(M) else last))


class boundary:
    """The two boundary maps alone (the operators on the nodes would not fit)."""

    def __init__(self, n, edges, tris):
        self.B1 = np.zeros((n, len(edges)), dtype=int)
        for j, (a, b) in enumerate(edges):
            self.B1[a, j], self.B1[b, j] = -1, 1
        low = [sorted(e) for e in edges]
        self.B2 = np.zeros((len(edges), len(tris)), dtype=int)
        for j, t in enumerate(tris):
            a, b, c = sorted(t)
            for side, sign in (([a, b], 1), ([b, c], 1), ([a, c], -1)):
                i = low.index(side)
                self.B2[i, j] = sign if list(edges[i]) == side else -sign


def run_item(c, rec):
    from pytspl import read_B1_B2

    n, edges, tris = c["n"] + c["iso"], gen.edges_of(c), gen.tris_of(c)
    rec.state(*gen.key(c), c["iso"])
    where = describe(c) + f" isolated={c['iso']} text={c['text']}"
    huge = n > 5000
    ref = boundary(n, edges, tris) if huge else Ref(n, edges, tris)
    B2t = ref.B2.T.copy()
    # a triangle may be oriented either way in the file
    for j in range(len(tris)):
        if (j + len(edges)) % 2:
            B2t[j] *= -1
    tmp = tempfile.mkdtemp(prefix="mc08.")
    try:
        f1, f2 = os.path.join(tmp, "B1.csv"), os.path.join(tmp, "B2t.csv")
        if len(edges) % 4 == 3:  # the files held another complex before
            write(f1, [[-1, 0, -1], [1, -1, 0], [0, 1, 1]], "int")
            write(f2, [[1, 1, -1]], "int")
            read_B1_B2(f1, f2)
        if len(edges) % 4 == 1:  # or another one of the very same size
            write(f1, ref.B1[::-1], c["text"], c["ends"])
            write(f2, B2t[::-1], c["text"], c["ends"])
            read_B1_B2(f1, f2)
        write(f1, ref.B1, c["text"], c["ends"])
        write(f2, B2t, c["text"], c["ends"])
        builder, got = read_B1_B2(f1, f2)
        sc = builder.to_simplicial_complex(triangles=got)
        rec.step(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    want = sorted(edges)
    order = [edges.index(e) for e in want]
    rec.check(
        sorted(int(x) for x in sc.nodes) == list(range(n)), f"nodes {sc.nodes}: {where}"
    )
    es = [tuple(int(x) for x in e) for e in sc.edges]
    if not rec.check(es == want, f"edges read back as {es}: {where}"):
        return
    ts = [tuple(sorted(int(x) for x in t)) for t in sc.triangles]
    if not rec.check(
        ts == [tuple(sorted(t)) for t in tris], f"triangles read back as {ts}: {where}"
    ):
        return
    B1, B2 = dense(sc.incidence_matrix(1)), dense(sc.incidence_matrix(2))
    rec.step(2)
    rec.check(np.array_equal(B1, ref.B1[:, order]), f"B1 differs after reading: {where}")
    wB2 = ref.B2[order]
    for j in range(len(tris)):
        rec.check(
            np.array_equal(B2[:, j], wB2[:, j]) or np.array_equal(B2[:, j], -wB2[:, j]),
            f"B2 column of {tris[j]} differs after reading: {where}",
        )
    if huge:
        rec.trace()
        return
    rec.check(
        np.array_equal(dense(sc.hodge_laplacian_matrix(1)), ref.L1[np.ix_(order, order)]),
        f"the Hodge Laplacian changed in the round trip: {where}",
    )
    rec.trace()
    rec.outcome(tuple(es), tuple(ts))
    rec.sample(where)
