"""Small helpers shared by the checks."""

import numpy as np

from . import gen
from .ref import Ref


def build(c, **kw):
    """The real complex of a state, through the public constructor."""
    from pytspl.simplicial_complex import SimplicialComplex

    return SimplicialComplex(
        nodes=list(range(c["n"])),
        edges=gen.edges_of(c),
        triangles=gen.tris_of(c),
        **kw,
    )


def ref_of(c):
    return Ref(c["n"], gen.edges_of(c), gen.tris_of(c))


def describe(c):
    return f"n={c['n']} edges={gen.edges_of(c)} triangles={gen.tris_of(c)}"


def raises(exc, fn, *a, **k):
    """True when the call is refused with exc."""
    try:
        fn(*a, **k)
    except exc:
        return True
    return False


def basis_flows(E, limit=None):
    """Unit flow on every edge: a linear operator is determined by these."""
    for i in range(E if limit is None else min(E, limit)):
        f = np.zeros(E)
        f[i] = 1.0
        yield f


def mixed_flows(E):
    """Flows with signs, zeros, integers, decimals and large values."""
    i = np.arange(E)
    yield ((-1.0) ** i) * (1.3 + i)
    yield np.array([[3, -1, 0, 2, -5][k % 5] for k in i], dtype=int)
    yield np.array([[0.125, -7.77, 1000.5, 0.0, -0.004][k % 5] for k in i])


def scaled_flows(E):
    """The same flow in very small and very large units, and in single precision."""
    f = next(mixed_flows(E))
    yield f * (1e-12 / 7)
    yield f * 1e9
    yield f.astype(np.float32)


def unit_of(f):
    """The unit of a flow: 1 unless it is very small or large."""
    top = float(np.max(np.abs(f), initial=0.0))
    if 0 < top < 1e-5:
        return 1e-12
    return 1e9 if top > 1e8 else 1.0


def all_flows(E, limit=None):
    yield from basis_flows(E, limit)
    yield from mixed_flows(E)


def atlas_complexes(nmin, nmax, patterns, orders, fills, relabel=(0,), min_edges=1):
    for n, g in gen.atlas(nmin, nmax):
        if len(g) >= min_edges:
            yield from gen.variants(n, g, patterns, orders, fills, relabel)


def nrmse(a, b):
    return float(np.linalg.norm(np.asarray(a) - np.asarray(b)) / np.linalg.norm(b))


def isclose(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(b))


def distinct(values, tol=1e-6):
    """Sorted values with near-equal ones merged."""
    out = []
    for v in sorted(values):
        if not out or v - out[-1] > tol:
            out.append(float(v))
    return out
