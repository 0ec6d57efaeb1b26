"""C20: random complexes are determined by their parameters and seed."""

import itertools
import math
import random

import numpy as np

from . import gen
from .common import ref_of
from .ref import close, dense

CHUNK = 2
ASSUMPTIONS = ["networkx and the Python generator are trusted"]
PROBS = (0.0, 0.1, 0.3, 0.5, 0.8, 1.0)
CUTS = (0.0, 0.1, 0.3, 0.5, 0.75, 0.9, 1.0, 1.5)


def bound(tier):
    n, s = (9, 6) if tier == "quick" else (13, 25)
    return (
        f"nodes 1..{n} and {12 if tier == 'quick' else 18} x 6 probabilities x 8 thresholds "
        f"(and ones equal to a drawn distance or one rounding step beside it) x {s} seeds, "
        f"and {'24' if tier == 'quick' else '20, 24, 33 and 50'} nodes x 5 probabilities "
        "x 2 thresholds x 2 seeds, 45 and 101 nodes x 2 probabilities x 2 thresholds and seeds up to 2^32 - 1, each "
        "drawn from two states of the global generators and again after draws with "
        "other parameters"
    )


def items(tier):
    n, s = (9, 6) if tier == "quick" else (13, 25)
    for k in [*range(1, n + 1), 12 if tier == "quick" else 18]:
        for seed in [0, 1, 2, 3, 42, 12345, *range(100, 200)][:s]:
            yield {"n": k, "seed": seed}
    for k in (24,) if tier == "quick" else (20, 24, 33, 50):
        for seed in (7, 4321):
            yield {"n": k, "seed": seed, "large": True}
    for k, seed in ((45, 987654321), (101, 2**32 - 3)):
        yield {"n": k, "seed": seed, "large": True, "p": [0.02, 0.1]}


def draw(n, p, cut, seed):
    from pytspl import generate_random_simplicial_complex

    return generate_random_simplicial_complex(
        num_of_nodes=n, p=p, dist_threshold=cut, seed=seed
    )


def shape(sc, pos):
    return (
        list(sc.nodes),
        [tuple(e) for e in sc.edges],
        [tuple(t) for t in sc.triangles],
        {tuple(e): dict(f) for e, f in sc.edge_features.items()},
        {k: np.asarray(v, dtype=float) for k, v in pos.items()},
    )


def same(a, b):
    return (
        a[:3] == b[:3]
        and a[3].keys() == b[3].keys()
        and all(a[3][k] == b[3][k] for k in a[3])
        and a[4].keys() == b[4].keys()
        and all(close(a[4][k], b[4][k], 1e-9) for k in a[4])
    )


def scramble(k):
    random.seed(k)
    np.random.seed(k)


def run_item(item, rec):
    import networkx as nx

    n, seed = item["n"], item["seed"]
    large = "large" in item
    for p in item.get("p", (0.02, 0.1, 0.2, 0.3, 0.5)) if large else PROBS:
        first = None
        cuts = [0.3, 0.75] if large else list(CUTS)
        if p > 0:
            # thresholds equal to a drawn distance, and one rounding step beside it
            scramble(1)
            known = sorted(
                f["distance"] for f in draw(n, p, 0.5, seed)[0].edge_features.values()
            )
            for x in {*known[-1:], *known[len(known) // 2 :][:1]}:
                cuts += [x, math.nextafter(x, 2), math.nextafter(x, -1)]
        for cut in cuts:
            where = f"nodes {n}, p {p}, threshold {cut}, seed {seed}"
            rec.state(n, seed, p, cut)
            rec.step(2)
            rec.trace()
            scramble(1)
            a = shape(*draw(n, p, cut, seed))
            scramble(2)
            sc, pos = draw(n, p, cut, seed)
            b = shape(sc, pos)
            if not rec.check(
                same(a, b),
                lambda: f"two draws differ: {a[1]} {a[2]} {a[3]} and {b[1]} {b[2]} "
                f"{b[3]}: {where}",
            ):
                return
            nodes, edges, tris, feats, pos = a
            es = {frozenset(e) for e in edges}
            G = nx.erdos_renyi_graph(n, p, seed=seed)
            ok = (
                rec.check(nodes == list(range(n)), f"nodes {nodes}: {where}")
                and rec.check(
                    len(es) == len(edges) and all(len(e) == 2 for e in es),
                    f"repeated edges {edges}: {where}",
                )
                and rec.check(
                    es == {frozenset(e) for e in G.edges()},
                    f"edges {edges}, the random graph has {list(G.edges())}: {where}",
                )
                and rec.check(
                    set(feats) == set(edges)
                    and all(0 <= f["distance"] < 1 for f in feats.values()),
                    f"distances {feats}: {where}",
                )
                and rec.check(
                    set(pos) == set(nodes)
                    and all(v.shape == (2,) and np.isfinite(v).all() for v in pos.values()),
                    f"coordinates {pos}: {where}",
                )
            )
            if not ok:
                return
            dist = {frozenset(e): f["distance"] for e, f in feats.items()}
            want = {
                t
                for t in itertools.combinations(range(n), 3)
                if all(
                    dist.get(frozenset(x), 2) < cut
                    for x in itertools.combinations(t, 2)
                )
            }
            rec.check(
                len(tris) == len(want) and {tuple(sorted(t)) for t in tris} == want,
                f"triangles {tris}, expected {sorted(want)}: {where}",
            )
            ref = ref_of(gen.cx(n, edges, tris))
            B1 = dense(sc.incidence_matrix(rank=1))
            B2 = dense(sc.incidence_matrix(rank=2))
            rec.check(
                close(B1, ref.B1)
                and close(np.abs(B2), np.abs(ref.B2))
                and not np.any(B1 @ B2),
                f"incidence matrices: {where}",
            )
            # only the triangles depend on the threshold
            if first is None:
                first = a
            rec.check(
                same((*a[:2], [], *a[3:]), (*first[:2], [], *first[3:])),
                f"the threshold changes the graph: {where}",
            )
            if len(edges) > 1:
                rec.check(
                    len({f["distance"] for f in feats.values()}) > 1,
                    f"all distances are equal: {where}",
                )
            rec.outcome(tuple(edges), tuple(tris))
        # other draws in between change nothing
        draw(max(2, n - 1), 0.5, 0.5, seed + 1)
        scramble(3)
        rec.step(2)
        rec.check(
            same(shape(*draw(n, p, cuts[-1], seed)), a),
            f"a draw depends on earlier ones: {where}",
        )
    if n >= 6:
        d = [shape(*draw(n, 0.5, 0.5, s)) for s in (seed, seed + 1, seed + 2)]
        rec.check(
            not (same(d[0], d[1]) and same(d[1], d[2])),
            f"the seed has no effect: nodes {n}",
        )
        w = [list(x[3].values())[0]["distance"] for x in d if x[3]]
        rec.check(len(set(w)) > 1, f"the seed does not change the distances: nodes {n}")
    rec.sample(f"nodes {n} seed {seed}")
