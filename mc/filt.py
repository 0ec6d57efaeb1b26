"""Shared pieces of the filter checks."""

import numpy as np

from . import gen
from .common import distinct
from .core import Mismatch
from .ref import close

PS = ("L1", "L1L", "L1U")


def complexes(tier, patterns=("fwd", "mix"), small=("mix", "cyc"), max_edges=45,
              atlas_top=None, fills=("all", "odd")):  # fmt: skip
    """The complexes the filter checks explore."""
    quick = tier == "quick"

    def raw():
        for n in (2, 3, 4):
            for g in gen.labelled_graphs(n):
                cl = gen.cliques3(n, g)
                for pat in small if quick else gen.PATTERNS:
                    for ts in gen.subsets(cl):
                        yield gen.cx(n, gen.reorder(gen.orient(g, pat), "riffle"), ts)
        for n, g in gen.atlas(5, atlas_top or (5 if quick else 6)):
            yield from gen.variants(n, g, patterns, ("rotated",), fills)
        yield from gen.family_items(
            patterns=patterns, orders=("sorted",), fills=fills, relabel=(0,),
            max_edges=max_edges,
        )

    for c in gen.dedupe(raw()):
        if c["e"]:
            yield c


def larger():
    """A few complexes with more edges than the rest, and tiny eigenvalues."""
    import networkx as nx

    for G in (
        nx.path_graph(64),
        nx.cycle_graph(41),
        nx.circulant_graph(22, [1, 2]),
        nx.circulant_graph(65, [1, 7]),
        nx.relabel_nodes(nx.ladder_graph(12), {i: (5 * i) % 24 for i in range(24)}),
    ):
        n = G.number_of_nodes() + 1
        es = sorted(tuple(sorted(e)) for e in G.edges())
        yield from gen.variants(n, es, ("mix",), ("riffle",), ("odd",))


def signals(E):
    """Three full signals: no component of them is zero in general."""
    i = np.arange(E)
    yield np.sin(1.0 + 2.3 * i) * 3 + 0.5
    yield ((-1.0) ** i) * (1 + i % 4)
    yield np.array([[3, -1, 0, 2, -5][k % 5] for k in i], dtype=int)


def powers_fit(eigs, alpha, L, P):
    """The polynomial filter of degree < L that fits alpha at eigs in the
    least squares sense (weights as given by the repetition of eigs)."""
    V = np.vander(np.asarray(eigs, dtype=float), L, increasing=True)
    h = np.linalg.lstsq(V, alpha, rcond=None)[0]
    H = np.zeros(P.shape)
    M = np.eye(P.shape[0])
    for x in h:
        H = H + x * M
        M = M @ P
    return H


def nrmse(a, b):
    return float(np.linalg.norm(np.asarray(a) - b) / np.linalg.norm(b))


def response(L, H):
    """Per distinct eigenvalue: the mean diagonal response of H there."""
    w, U = np.linalg.eigh(np.asarray(L, dtype=float))
    out = {}
    for lam in distinct(w):
        S = U[:, np.abs(w - lam) < 1e-5]
        out[lam] = np.trace(S.T @ H @ S)
    return w, out


def response_ok(L, H, got, tol=1e-6):
    """got[i] is the response of H at the i-th smallest eigenvalue of L, up to
    the choice of the basis inside an eigenspace."""
    w, want = response(L, H)
    got = np.asarray(got, dtype=float)
    if got.shape != w.shape:
        return False
    return all(
        abs(np.sum(got[np.abs(w - lam) < 1e-5]) - s) <= tol * max(1.0, abs(s))
        for lam, s in want.items()
    )


def scale_free(rec, run, where, linear=("f_estimated",), error=True):
    """A run in very small or large units reports the same numbers in these units.

    run(s) filters the signals times s and returns the history."""
    base = snapshot(run(1.0))
    for s in (1e-12 / 7, 1e8):
        got = snapshot(run(s))
        rec.step()
        rec.trace()
        for k in base:
            if k in linear:
                got[k] = got[k] / s
            if (error or "error" not in k) and not rec.check(
                equal(got[k], base[k], 1e-6),
                lambda: f"{k} in units of {s} is {got[k]}, not {base[k]}: {where}",
            ):
                return


def snapshot(x, depth=0):
    """A deep, comparable copy of a history."""
    if isinstance(x, dict):
        if depth > 2:
            raise Mismatch("a reported result is nested in itself")
        return {k: snapshot(v, depth + 1) for k, v in x.items()}
    return None if x is None else np.array(x, dtype=float, copy=True)


def equal(a, b, tol=1e-9):
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and set(a) == set(b)
            and all(equal(a[k], b[k], tol) for k in a)
        )
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    # errors relative to a zero signal are inf or nan
    if not np.isfinite(a).all() or not np.isfinite(b).all():
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return close(a, b, tol)
