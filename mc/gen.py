"""Bounded exhaustive generation of simplicial complexes.

A state is an ordered list of directed edges over nodes 0..n-1 and an ordered
list of filled triangles.  The transitions that reach it from the empty
complex are: add a node, append an edge in one of its two directions, fill a
3-clique.  The generators below visit every reachable state inside a bound
(or, for the larger sizes, every state of a stated sub-family).
"""

import itertools

import networkx as nx


def key(c):
    return (c["n"], tuple(map(tuple, c["e"])), tuple(map(tuple, c["t"])))


def edges_of(c):
    return [tuple(e) for e in c["e"]]


def tris_of(c):
    return [list(t) for t in c["t"]]


def cliques3(n, edges):
    """All 3-cliques by definition: every 3-subset of nodes, 3 lookups (or, for
    more than 50 nodes, every edge with every common neighbour)."""
    if n > 50:
        return cliques_large(n, edges)
    s = {frozenset(e) for e in edges}
    return [
        t
        for t in itertools.combinations(range(n), 3)
        if {frozenset((t[0], t[1])), frozenset((t[1], t[2])), frozenset((t[0], t[2]))}
        <= s
    ]


def cliques_large(n, e):
    """All 3-cliques of a large network: every edge x every common neighbour."""
    nb = {}
    for a, b in e:
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    return sorted({tuple(sorted((a, b, x))) for a, b in e for x in nb[a] & nb[b]})


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)


def labelled_graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for es in subsets(pairs):
        yield list(es)


def labelled_graphs_full(n):
    """The complete graph."""
    return list(itertools.combinations(range(n), 2))


def orientations(edges):
    """Every direction assignment."""
    for bits in itertools.product((0, 1), repeat=len(edges)):
        yield [e[::-1] if b else e for e, b in zip(edges, bits)]


PATTERNS = ("fwd", "rev", "alt", "mix", "cyc")


def orient(edges, pattern):
    out = []
    for i, (a, b) in enumerate(edges):
        if pattern == "fwd":
            r = False
        elif pattern == "rev":
            r = True
        elif pattern == "alt":
            r = i % 2 == 1
        elif pattern == "mix":
            r = (a * 7 + b * 3 + i) % 3 == 0
        else:  # cyc: towards the larger residue, gives directed cycles
            r = (b - a) % 3 == 2
        out.append((b, a) if r else (a, b))
    return out


def reorder(xs, how):
    xs = list(xs)
    if how == "sorted":
        return xs
    if how == "reversed":
        return xs[::-1]
    if how == "rotated":
        k = len(xs) // 2
        return xs[k:] + xs[:k]
    if how == "riffle":
        return xs[1::2] + xs[0::2]
    raise ValueError(how)


VPERMS = list(itertools.permutations(range(3)))


def vperm(tri, p):
    return [tri[i] for i in VPERMS[p % 6]]


def cx(n, edges, tris):
    return {"n": n, "e": [list(e) for e in edges], "t": [list(t) for t in tris]}


def exhaustive(n, orders=("sorted", "reversed", "rotated")):
    """All labelled graphs on n nodes x all directions x orders x fillings."""
    for g in labelled_graphs(n):
        cl = cliques3(n, g)
        for o in orientations(g):
            seen = set()
            for how in orders:
                es = reorder(o, how)
                if tuple(es) in seen:
                    continue
                seen.add(tuple(es))
                for ts in subsets(cl):
                    yield cx(n, es, ts)


def all_orders(n, kmax):
    """All labelled graphs x all directions x all insertion orders, <= kmax edges."""
    for g in labelled_graphs(n):
        if len(g) > kmax:
            continue
        cl = cliques3(n, g)
        for perm in itertools.permutations(g):
            for o in orientations(list(perm)):
                for ts in subsets(cl):
                    yield cx(n, o, ts)


def triangle_orders(n):
    """All labelled graphs, 2 directions, all fillings, every vertex order and
    the two list orders of the triangles."""
    for g in labelled_graphs(n):
        cl = cliques3(n, g)
        if not cl:
            continue
        for pat in PATTERNS:
            es = orient(g, pat)
            for ts in subsets(cl):
                if not ts:
                    continue
                for p in range(6):
                    yield cx(n, es, [vperm(t, p + i) for i, t in enumerate(ts)])
                    yield cx(
                        n, es, [vperm(t, p + i) for i, t in enumerate(ts)][::-1]
                    )


def atlas(nmin, nmax):
    """One representative of every graph on nmin..nmax nodes (Read & Wilson)."""
    for G in nx.graph_atlas_g():
        n = G.number_of_nodes()
        if nmin <= n <= nmax:
            yield n, sorted(tuple(sorted(e)) for e in G.edges())


def fillings(cl, how):
    """Named triangle fillings."""
    if how == "none":
        return []
    if how == "all":
        return list(cl)
    if how == "odd":
        return list(cl)[1::2]
    if how == "first":
        return list(cl)[:1]
    raise ValueError(how)


def variants(n, edges, patterns, orders, fills, relabel=(0,)):
    cl0 = None
    for r in relabel:
        if r:
            # multiply labels by a unit: a relabelling that breaks sortedness
            import math

            m = next(k for k in range(r + 1, r + 2 * n + 3) if math.gcd(k, n) == 1)
            f = {v: (v * m + r) % n for v in range(n)}
            es = sorted(tuple(sorted((f[a], f[b]))) for a, b in edges)
        else:
            es = edges
        cl0 = cliques3(n, es)
        done = set()
        for pat in patterns:
            for how in orders:
                oe = reorder(orient(es, pat), how)
                for fl in fills:
                    ts = fillings(cl0, fl)
                    k = (tuple(oe), tuple(ts))
                    if k in done:
                        continue
                    done.add(k)
                    yield cx(n, oe, ts)


def families(big=False):
    """Named structured graphs: (name, n, sorted edges, explicit triangles|None)."""

    def norm(G):
        G = nx.convert_node_labels_to_integers(G, ordering="sorted")
        return G.number_of_nodes(), sorted(tuple(sorted(e)) for e in G.edges())

    out = []

    def add(name, G, isolated=0, tris=None):
        n, es = norm(G)
        out.append((name, n + isolated, es, tris))

    for k in (3, 4, 5, 8, 12, 17, 33):
        add(f"cycle{k}", nx.cycle_graph(k))
    for k in (2, 6, 18, 40):
        add(f"path{k}", nx.path_graph(k))
    for k in (4, 20):
        add(f"star{k}", nx.star_graph(k))
    for k in (4, 6, 9, 14):
        add(f"wheel{k}", nx.wheel_graph(k))
    for k in (5, 6, 7, 8):
        add(f"complete{k}", nx.complete_graph(k))
    add("octahedron", nx.octahedral_graph())
    add("icosahedron", nx.icosahedral_graph())
    add("k33", nx.complete_bipartite_graph(3, 3))
    add("petersen", nx.petersen_graph())
    add("cube", nx.hypercube_graph(3))
    # strip of triangles
    for m in (4, 10, 25):
        G = nx.Graph()
        for i in range(m):
            G.add_edges_from([(i, i + 1), (i, i + 2), (i + 1, i + 2)])
        add(f"strip{m}", G)
    # many triangles on one edge
    for m in (3, 9):
        G = nx.Graph()
        G.add_edge(0, 1)
        for i in range(m):
            G.add_edges_from([(0, i + 2), (1, i + 2)])
        add(f"book{m}", G)
    # triangulated torus, 3 x 3 grid and 4 x 4 grid
    for a in (3, 4):
        G = nx.Graph()
        ts = []
        for i in range(a):
            for j in range(a):
                v = lambda x, y: (x % a) * a + (y % a)  # noqa: E731
                p, q, r, s = v(i, j), v(i + 1, j), v(i, j + 1), v(i + 1, j + 1)
                G.add_edges_from([(p, q), (p, r), (p, s), (q, s), (r, s)])
                ts += [tuple(sorted((p, q, s))), tuple(sorted((p, r, s)))]
        n, es = norm(G)
        out.append((f"torus{a}", n, es, sorted(set(ts))))
    # projective plane on 6 vertices
    rp2 = [
        (0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 1, 5),
        (1, 2, 4), (2, 4, 5), (2, 3, 5), (1, 3, 5), (1, 3, 4),
    ]  # fmt: skip
    out.append(("rp2", 6, list(itertools.combinations(range(6), 2)), rp2))
    # disjoint unions, isolated nodes
    add("c4+k4", nx.disjoint_union(nx.cycle_graph(4), nx.complete_graph(4)))
    add("k3+k3", nx.disjoint_union(nx.complete_graph(3), nx.complete_graph(3)))
    add("wheel6+3", nx.wheel_graph(6), isolated=3)
    add("triangle+1", nx.complete_graph(3), isolated=1)
    # isolated node in the middle
    out.append(("gap", 6, [(0, 1), (0, 3), (1, 3), (3, 5), (4, 5)], None))
    if big:
        for k in (9, 10):
            add(f"complete{k}", nx.complete_graph(k))
        add("strip60", nx.circulant_graph(60, [1, 2]))
        add("circ30", nx.circulant_graph(30, [1, 2, 5]))
        add("grid", nx.grid_2d_graph(6, 7))
        add("dodeca", nx.dodecahedral_graph())
    return out


def huge_items(pattern="mix", order="riffle", fills=("all",), max_edges=10**9):
    """Larger complexes: degrees beyond 127, hundreds of edges and triangles, an
    edge with more than 127 triangles, long paths (tiny eigenvalues)."""

    def book(m):
        G = nx.Graph()
        G.add_edge(0, 1)
        for i in range(m):
            G.add_edges_from([(0, i + 2), (1, i + 2)])
        return G

    # a long thin torus: small nonzero curl eigenvalues
    ts, a, b = set(), 3, 24
    for i in range(a):
        for j in range(b):
            p, q, r, s = (
                (x % a) * b + y % b for x, y in ((i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1))
            )
            ts |= {tuple(sorted((p, q, s))), tuple(sorted((p, r, s)))}
    ts = sorted(ts)
    es = sorted({e for t in ts for e in itertools.combinations(t, 2)})
    if len(es) <= max_edges:
        for fl in fills:
            yield cx(a * b, reorder(orient(es, pattern), order), fillings(ts, fl))
    for G, isolated in (
        (nx.star_graph(135), 0),
        (book(130), 1),
        (nx.complete_graph(17), 0),
        (nx.path_graph(110), 2),
        (nx.circulant_graph(90, [1, 2, 4]), 0),
    ):
        G = nx.convert_node_labels_to_integers(G, ordering="sorted")
        es = sorted(tuple(sorted(e)) for e in G.edges())
        if len(es) <= max_edges:
            n = G.number_of_nodes() + isolated
            yield from variants(n, es, (pattern,), (order,), fills)


def family_items(
    patterns=("fwd", "alt", "mix", "cyc"),
    orders=("sorted", "riffle"),
    fills=("all", "odd", "none"),
    relabel=(0, 2),
    max_edges=10**9,
    big=False,
):
    for name, n, es, ts in families(big):
        if len(es) > max_edges:
            continue
        if ts is not None:
            for pat in patterns:
                for how in orders:
                    yield cx(n, reorder(orient(es, pat), how), ts)
            continue
        yield from variants(n, es, patterns, orders, fills, relabel)


def dedupe(items):
    seen = set()
    for c in items:
        k = key(c)
        if k not in seen:
            seen.add(k)
            yield c
