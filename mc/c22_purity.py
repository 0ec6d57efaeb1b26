"""C22: a complex answers every query the same, whatever was asked before."""

import itertools

import numpy as np

from . import gen
from .common import build
from .core import Mismatch, pristine
from .ref import close

CHUNK = 2
ASSUMPTIONS = [
    "the values themselves are decided by C01-C11; here each answer is compared "
    "with the answer of an equal complex in a process in which nothing else was asked",
    "eigenvectors are compared through functions that do not see their signs",
    "the caller may overwrite the arrays it was given (not the node and edge lists "
    "and feature tables, which are the ones of the complex)",
]

# pairs of complexes that share every shape, so that nothing can tell them apart
# but their content
PAIRS = [
    (
        gen.cx(4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)], [(0, 1, 2)]),
        gen.cx(4, [(0, 1), (2, 0), (1, 2), (3, 1), (2, 3)], [(1, 2, 3)]),
    ),
    (
        gen.cx(5, [(0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (2, 4), (4, 0)],
               [(0, 1, 2), (2, 3, 4)]),
        gen.cx(5, [(1, 0), (1, 2), (0, 2), (3, 2), (3, 4), (2, 4), (4, 0)],
               [(2, 3, 4), (0, 2, 4)]),
    ),
    (
        gen.cx(4, [(0, 1), (1, 2), (2, 3), (3, 0)], []),
        gen.cx(4, [(0, 1), (0, 2), (3, 2), (2, 1)], []),
    ),
    (gen.cx(3, [(0, 1)], []), gen.cx(3, [(2, 1)], [])),
]  # fmt: skip
CORE = ("B1", "B2", "L0", "L1", "L1L", "L1U", "A", "shift 2", "component gradient",
        "pairs curl", "curl", "embeddings")  # fmt: skip


def bound(tier):
    return (
        "all histories of 2 queries out of 61 (11 of them about a second flow) on two complexes that share their "
        "shapes, on %d pairs, and all histories of %s queries out of 12 on %s; after "
        "every query the returned arrays are overwritten; a builder asked in between; the flow "
        "overwritten in place between two queries; 11 orders of all queries on both "
        "complexes, three rounds each; each of 61 queries on 8 complexes with the flow in 10 forms (views, read-only, "
        "list, integers, with nan, infinities, negative zeros)"
        % ((4, 3, "one pair") if tier == "quick" else (4, "3", "all pairs"))
    )


def items(tier):
    for p in range(len(PAIRS)):
        for w in (0, 1):
            for kind in FORMS:
                yield {"pair": p, "who": w, "form": kind}
    for p in range(len(PAIRS)):
        for q in QUERIES:
            yield {"pair": p, "first": [[q, 0]], "over": "all"}
    for p in range(len(PAIRS)):
        for w in (0, 1):
            yield {"pair": p, "who": w, "inplace": True}
        for step in (1, 3, 5, 7, 9, 11, 13, 17, 19, 23, 27):
            yield {"pair": p, "step": step}
    for p in range(1) if tier == "quick" else range(len(PAIRS)):
        for a in CORE:
            for b, w in itertools.product(CORE, (0, 1)):
                yield {"pair": p, "first": [[a, 0], [b, w]], "over": "core"}
    if tier != "quick":
        for p in range(len(PAIRS)):
            for a in QUERIES:
                for b, w in itertools.product(QUERIES, (0, 1)):
                    yield {"pair": p, "first": [[a, 0], [b, w]], "over": "core"}


def pairs(name, **k):
    def ask(sc, f):
        U, lam = sc.get_component_eigenpair(component=name, **k)
        return lam, U @ np.diag(np.asarray(lam) + 1) @ U.T, (U, lam)

    return ask


def embeddings(sc, f):
    r = sc.get_simplicial_embeddings(f)
    return *[np.linalg.norm(x) for x in r], *[len(x) for x in r], r


def hodge(name, rounding):
    return lambda sc, f: sc.get_component_flow(
        flow=f, component=name, round_fig=rounding
    )


def refused(fn):
    def ask(sc, f):
        try:
            fn(sc, f)
        except ValueError:
            return "refused"
        except KeyError:
            return "refused"
        return "accepted"

    return ask


def builder(sc, f):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    b = SCBuilder(
        nodes=sc.nodes, edges=sc.edges,
        node_features=sc.node_features, edge_features=sc.edge_features,
    )  # fmt: skip
    return (
        [list(t) for t in b.triangles()],
        b.to_simplicial_complex().incidence_matrix(rank=2),
        b.to_simplicial_complex(condition="distance", dist_threshold=2.5).shape,
        b.to_simplicial_complex(triangles=[]).hodge_laplacian_matrix(),
    )


QUERIES = {
    "B0": lambda sc, f: sc.incidence_matrix(rank=0),
    "B1": lambda sc, f: sc.incidence_matrix(rank=1),
    "B2": lambda sc, f: sc.incidence_matrix(rank=2),
    "B3": refused(lambda sc, f: sc.incidence_matrix(rank=3)),
    "A": lambda sc, f: sc.adjacency_matrix(),
    "L0": lambda sc, f: sc.laplacian_matrix(),
    "L1 rank 0": lambda sc, f: sc.hodge_laplacian_matrix(rank=0),
    "L1": lambda sc, f: sc.hodge_laplacian_matrix(rank=1),
    "L2": lambda sc, f: sc.hodge_laplacian_matrix(rank=2),
    "L3": refused(lambda sc, f: sc.hodge_laplacian_matrix(rank=3)),
    "L1L": lambda sc, f: sc.lower_laplacian_matrix(rank=1),
    "L2L": lambda sc, f: sc.lower_laplacian_matrix(rank=2),
    "L0U": lambda sc, f: sc.upper_laplacian_matrix(rank=0),
    "L1U": lambda sc, f: sc.upper_laplacian_matrix(rank=1),
    "I": lambda sc, f: sc.identity_matrix(),
    "shape": lambda sc, f: (sc.shape, sc.max_dim),
    "simplices": lambda sc, f: sorted(tuple(s) for s in sc.simplices),
    "faces": lambda sc, f: [
        [tuple(x) for x in sc.get_faces(s)] for s in ((0, 1), (2, 0, 1))
    ],
    "features": lambda sc, f: sorted(sc.get_edge_features().items()),
    "names": lambda sc, f: list(sc.edge_feature_names()),
    "feature": lambda sc, f: sorted(sc.get_edge_features("distance").items()),
    "no feature": refused(lambda sc, f: sc.get_edge_features("nothing")),
    "node features": lambda sc, f: sorted(sc.get_node_features().items()),
    "lower 1": lambda sc, f: sc.apply_lower_shifting(f, steps=1),
    "upper 3": lambda sc, f: sc.apply_upper_shifting(f, steps=3),
    "shift 2": lambda sc, f: sc.apply_k_step_shifting(f),
    "shift 1": lambda sc, f: sc.apply_k_step_shifting(f, steps=1),
    "embeddings": embeddings,
    "pairs harmonic": pairs("harmonic"),
    "pairs gradient": pairs("gradient"),
    "pairs curl": pairs("curl"),
    "pairs curl 2.5": pairs("curl", tolerance=2.5),
    "pairs wrong": refused(lambda sc, f: sc.get_component_eigenpair("cycle")),
    "variance": lambda sc, f: sc.get_total_variance(),
    "divergence": lambda sc, f: sc.get_divergence(f),
    "curl": lambda sc, f: sc.get_curl(f),
    "component gradient": hodge("gradient", False),
    "component curl": hodge("curl", False),
    "component harmonic": hodge("harmonic", False),
    "component rounded": hodge("gradient", True),
    "component wrong": refused(lambda sc, f: sc.get_component_flow(f, "cycle")),
    "component rounded 1": lambda sc, f: sc.get_component_flow(
        f, "gradient", round_sig_fig=1),
    "component curl rounded": hodge("curl", True),
    "lower 2": lambda sc, f: sc.apply_lower_shifting(f, steps=2),
    "upper 1": lambda sc, f: sc.apply_upper_shifting(f, steps=1),
    "pairs gradient 2.5": pairs("gradient", tolerance=2.5),
    "pairs harmonic 2.5": pairs("harmonic", tolerance=2.5),
    "feature w": lambda sc, f: sorted(sc.get_edge_features("w").items()),
    "builder": builder,
    "print": lambda sc, f: sc.print_summary(),
}


def turn(f):
    """Another flow, with the same sum of squares, least and largest size."""
    return -np.asarray(f)[::-1].copy()


# the same queries about another flow
USES_FLOW = ("lower 1", "upper 3", "shift 2", "shift 1", "embeddings", "divergence", "curl",
             "component gradient", "component curl", "component harmonic",
             "component rounded")  # fmt: skip
OTHER = " other"
QUERIES.update(
    {
        q + OTHER: (lambda sc, f, ask=QUERIES[q]: ask(sc, turn(f)))
        for q in USES_FLOW
    }
)


def freeze(x):
    """A comparable copy."""
    if hasattr(x, "toarray"):
        return np.array(x.toarray(), dtype=float)
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float)
    if isinstance(x, (tuple, list)):
        return [freeze(v) for v in x]
    return x


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and close(a, b)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return abs(a - b) < 1e-8 * max(1, abs(b))
    return a == b


def scribble(x):
    """Overwrite the arrays the caller got."""
    if hasattr(x, "toarray"):
        x.data[:] = 77.0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77.0
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def visible(name, x):
    """Drop the raw eigenvectors: their signs are free."""
    if name.startswith(("pairs", "embeddings")) and isinstance(x, tuple):
        return x[:-1]
    return x


def make(c):
    n, e = c["n"], gen.edges_of(c)
    return build(
        c,
        node_features={v: {"p": v} for v in range(n)},
        edge_features={x: {"distance": 1.0 + i, "w": -i} for i, x in enumerate(e)},
    )


def flow(E):
    return np.sin(1.0 + 2.3 * np.arange(E)) * 3 + 0.5


_FRESH = {}


def setup(tier):
    keys = itertools.product(range(len(PAIRS)), (0, 1), QUERIES)
    _FRESH.update(pristine(ask_fresh, keys))


def ask_fresh(key):
    p, w, q = key
    c = PAIRS[p][w]
    return freeze(visible(q, QUERIES[q](make(c), flow(len(c["e"])))))


def fresh(p, w, q):
    got = _FRESH[p, w, q]
    if isinstance(got, Exception):
        raise Mismatch(f"query {q!r} of a fresh complex fails: {got}: {PAIRS[p][w]}")
    return got


def ro(f):
    f.flags.writeable = False
    return f


def strided(f):
    big = np.full(2 * len(f) + 1, 55.0)
    big[1::2] = f
    return big[1::2]


# name -> (the flow as the caller holds it, do answers have to be finite and right?)
FORMS = {
    "read-only": (ro, True),
    "strided": (strided, True),
    "reversed": (lambda f: f[::-1].copy()[::-1], True),
    "column of a matrix": (lambda f: np.stack([f, f + 1, f - 1], axis=1)[:, 0], True),
    "list": (lambda f: [float(x) for x in f], False),
    "nan": (lambda f: np.where(np.arange(len(f)) == len(f) - 1, np.nan, f), False),
    "inf": (lambda f: np.where(np.arange(len(f)) == 0, -np.inf, f), False),
    "negative zero": (lambda f: np.full(len(f), -0.0), False),
    "integers": (lambda f: np.arange(len(f)) - 1, False),
    "tiny": (lambda f: f * 1e-300, False),
}


def bits(f):
    if isinstance(f, list):
        return repr(f)
    return f.dtype.str + f.tobytes().hex() + (f.base.tobytes().hex() if f.base is not None else "")


def run_forms(item, rec):
    p, w = item["pair"], item["who"]
    c = PAIRS[p][w]
    form, right = FORMS[item["form"]]
    for q in QUERIES:
        sc = make(c)
        f = form(flow(len(c["e"])))
        before = bits(f)
        rec.state(p, w, item["form"], q)
        rec.step()
        rec.trace()
        where = f"query {q!r} with a {item['form']} flow: {c}"
        try:
            with np.errstate(all="ignore"):
                raw = QUERIES[q](sc, f)
        except Exception as exc:
            rec.check(not right, lambda: f"fails with {exc!r}: {where}")
            raw = None
        if raw is not None and right:
            rec.check(
                equal(freeze(visible(q, raw)), fresh(p, w, q)),
                lambda: f"answers {raw}, with the plain flow {fresh(p, w, q)}: {where}",
            )
        scribble(raw)
        rec.check(bits(f) == before, lambda: f"the flow was changed to {f}: {where}")
        rec.outcome(item["form"], q)


def run_inplace(item, rec):
    """The caller holds one array and changes its values between two queries."""
    p, w = item["pair"], item["who"]
    c = PAIRS[p][w]
    for first, second in itertools.product(USES_FLOW, repeat=2):
        sc = make(c)
        f = flow(len(c["e"]))
        rec.state(p, w, "in place", first, second)
        rec.step(2)
        rec.trace()
        a = freeze(visible(first, QUERIES[first](sc, f)))
        f[:] = turn(f)
        b = freeze(visible(second, QUERIES[second](sc, f)))
        for q, got, want in ((first, a, first), (second, b, second + OTHER)):
            if not rec.check(
                equal(got, fresh(p, w, want)),
                lambda: f"{q!r} answers {got}, a fresh complex {fresh(p, w, want)}: "
                f"{first!r}, then {second!r} with the flow overwritten in place: {c}",
            ):
                return


def run_item(item, rec):
    if "form" in item:
        return run_forms(item, rec)
    if "inplace" in item:
        return run_inplace(item, rec)
    p = item["pair"]
    cs = PAIRS[p]
    last = QUERIES if item.get("over") == "all" else CORE
    if "step" in item:
        names = [(q, w) for q in QUERIES for w in (0, 1)]
        n = len(names)
        sequences = [[names[(i * item["step"] + i // n) % n] for i in range(3 * n)]]
    else:
        sequences = ([*item["first"], x] for x in itertools.product(last, (0, 1)))
    for seq in sequences:
        q, w = seq[-1]
        scs = [make(c) for c in cs]
        fl = [flow(len(c["e"])) for c in cs]
        rec.state(p, repr(seq))
        rec.trace()
        for i, (name, who) in enumerate(seq):
            rec.step()
            raw = QUERIES[name](scs[who], fl[who])
            got = freeze(visible(name, raw))
            where = f"query {name!r} of complex {who} after {seq[:i]} on {cs}"
            if not rec.check(
                equal(got, fresh(p, who, name)),
                lambda: f"{got}, a fresh complex answers {fresh(p, who, name)}: {where}",
            ):
                return
            scribble(raw)
            if not rec.check(
                all(
                    np.array_equal(f, flow(len(c["e"])))
                    and list(sc.nodes) == list(range(c["n"]))
                    and list(sc.edges) == gen.edges_of(c)
                    and [list(t) for t in sc.triangles] == gen.tris_of(c)
                    for f, c, sc in zip(fl, cs, scs)
                ),
                f"the flow or the complex was changed: {where}",
            ):
                return
        rec.outcome(p, q, w)
    rec.sample(f"{item.get('first')} then every query of either complex")
