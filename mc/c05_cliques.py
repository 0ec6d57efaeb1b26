"""C05: filling 'all' triangles fills exactly the 3-cliques, once each."""

from . import gen
from .common import describe

CHUNK = 128
ASSUMPTIONS = ["edges are pairs of distinct nodes without duplicates"]


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x all directions x 3 edge orders; every "
        "insertion order of <=4 edges; all labelled graphs on 5 nodes x 5 direction "
        "patterns x 2 orders; every graph on 6"
        + (" and 7" if tier != "quick" else "")
        + " nodes up to isomorphism x 2 labellings; structured families, complete graph on 24 nodes, 5000 edges; every "
        "sequence of 2 requests on one builder (filling by distance among them), the first "
        "answer overwritten, and one of 24 requests"
    )


def items(tier):
    def raw():
        for n in (1, 2, 3, 4):
            for g in gen.labelled_graphs(n):
                for o in gen.orientations(g):
                    for how in ("sorted", "reversed", "rotated"):
                        yield gen.cx(n, gen.reorder(o, how), [])
        for c in gen.all_orders(4, 4 if tier != "quick" else 3):
            yield dict(c, t=[])
        for g in gen.labelled_graphs(5):
            yield from gen.variants(
                5, g, gen.PATTERNS, ("sorted", "riffle"), ("none",)
            )
        for n, g in gen.atlas(6, 7):
            if n == 6 or tier != "quick":
                yield from gen.variants(
                    n, g, ("fwd", "mix"), ("sorted", "riffle"), ("none",), (0, 2)
                )
        yield from gen.family_items(fills=("none",), big=True)
        for name, n, es, ts in gen.families(True):
            yield gen.cx(n, gen.orient(es, "alt"), [])
        # dense networks: 2024 triangles among 16 million cliques
        yield gen.cx(24, gen.orient(gen.labelled_graphs_full(24), "mix"), [])
        yield from gen.huge_items(fills=("none",))
        # long networks: 5000 edges, 9 triangles spread over them
        es = [(i, i + 1) for i in range(4990)]
        es += [(i + 2, i) for i in range(0, 4990, 560)]
        yield gen.cx(4991, es, [])

    return gen.dedupe(raw())


def norm(ts):
    return sorted(tuple(sorted(t)) for t in ts)


def run_item(c, rec):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    n, e = c["n"], gen.edges_of(c)
    where = describe(c)
    want = gen.cliques3(n, e)
    rec.state(*gen.key(c))
    rec.outcome(len(want), len(e))
    nf = {0: {"a": 1}}
    ef = {x: {"distance": 1.0 + i} for i, x in enumerate(e)}

    def fresh():
        return SCBuilder(
            nodes=list(range(n)), edges=list(e), node_features=nf, edge_features=ef
        )

    picked = [list(t) for t in want[::2]]
    ops = {
        "triangles": (lambda b: b.triangles(), want),
        "all": (lambda b: b.to_simplicial_complex(condition="all"), want),
        "default": (lambda b: b.to_simplicial_complex(), want),
        "explicit": (lambda b: b.to_simplicial_complex(triangles=picked), picked),
        "explicit-none": (lambda b: b.to_simplicial_complex(triangles=[]), []),
    }
    if len(e) > 2000:
        b = fresh()
        for op in ("triangles", "all"):
            got = ops[op][0](b)
            rec.step()
            rec.check(
                norm(got if op == "triangles" else got.triangles) == norm(want),
                f"{op}: wrong cliques in a network of {len(e)} edges",
            )
        return
    # distances are 1, 2, 3, ... in the order of the edges
    at = {frozenset(x): 1.0 + i for i, x in enumerate(e)}
    near = [
        t for t in want
        if max(at[frozenset(s)] for s in ((t[0], t[1]), (t[0], t[2]), (t[1], t[2]))) < 4.5
    ]  # fmt: skip
    ops["distance"] = (
        lambda b: b.to_simplicial_complex(condition="distance", dist_threshold=4.5), near
    )
    names = list(ops)
    for a in [*ops, "long"]:
        for b in ops:
            builder = fresh()
            seq = (a, b)
            if a == "long":  # 24 requests in a row, starting with b
                k = names.index(b)
                seq = [names[(k + i * (1 + i // 6)) % 6] for i in range(24)]
                if b != names[len(e) % 6] or len(e) > 12:
                    continue
            for op in seq:
                fn, exp = ops[op]
                got = fn(builder)
                rec.step()
                ts = got if op == "triangles" else got.triangles
                if not rec.check(
                    norm(ts) == norm(exp),
                    lambda: f"{op} in {seq} gives "
                    f"{norm(ts)}, the 3-cliques asked for are {norm(exp)}: {where}",
                ):
                    return
                if op != "triangles":
                    ok = (
                        list(got.nodes) == list(range(n))
                        and [tuple(x) for x in got.edges] == e
                        and got.get_edge_features() == ef
                        and got.get_node_features() == nf
                        and got.incidence_matrix(rank=2).shape == (len(e), len(exp))
                    )
                    rec.check(
                        ok, lambda: f"{op}: nodes, edges or features changed: {where}"
                    )
                if op == "triangles":
                    rec.check(
                        all(list(t) == sorted(t) for t in ts),
                        lambda: f"triangle vertices are not in order: {ts}",
                    )
                if op in ("all", "default", "triangles"):
                    # the caller may change what it got: the next answer of the
                    # builder is the one of the network all the same
                    for t in ts:
                        if isinstance(t, list):
                            t[:] = t[::-1]
                    if isinstance(ts, list):
                        ts.clear()
            rec.trace()
            if len(e) > 12 and a != "triangles":
                break
    rec.sample(f"{where}: {len(want)} 3-cliques, all request pairs")
