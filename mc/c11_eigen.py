"""C11: spectra: eigenpairs of each component, embeddings, total variance."""

import numpy as np

from . import gen
from .common import (basis_flows, build, describe, distinct, mixed_flows, raises, ref_of,
                     scaled_flows, unit_of)  # fmt: skip
from .ref import close, rank_mod_p

CHUNK = 48
ASSUMPTIONS = [
    "at least one edge; every nonzero eigenvalue of the explored complexes is "
    "well above the tolerance in use (checked)",
    "eigenvectors are compared through the projector on each eigenspace: their "
    "signs and the basis inside an eigenspace are free",
]
NAMES = ("gradient", "curl", "harmonic")


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x "
        + ("3 direction patterns" if tier == "quick" else "all directions")
        + " x all fillings; every graph on 5" + ("" if tier == "quick" else "-7")
        + " nodes up to isomorphism; structured families and larger complexes up to 260 edges; default tolerance, 1e-6, "
        "one tolerance inside every gap of the spectrum and one above it; embeddings of three "
        "mixed flows and of unit flows"
    )


def items(tier):
    def raw():
        for n in (2, 3, 4):
            if tier == "quick":
                for g in gen.labelled_graphs(n):
                    for pat in ("fwd", "mix", "cyc"):
                        for ts in gen.subsets(gen.cliques3(n, g)):
                            yield gen.cx(n, gen.reorder(gen.orient(g, pat), "riffle"), ts)
            else:
                yield from gen.exhaustive(n, ("sorted", "riffle"))
        for n, g in gen.atlas(5, 5 if tier == "quick" else 7):
            yield from gen.variants(
                n, g, ("alt", "mix"), ("sorted", "riffle"), ("all", "odd")
            )
        yield from gen.family_items(
            patterns=("fwd", "mix"), relabel=(0,), big=tier != "quick"
        )
        yield from gen.huge_items(max_edges=300)

    for c in gen.dedupe(raw()):
        if c["e"]:
            yield c


def eigenspaces(L):
    """[(eigenvalue, projector)] of a symmetric integer matrix."""
    w, U = np.linalg.eigh(L.astype(float))
    out = []
    for lam in distinct(w):
        sel = U[:, np.abs(w - lam) < 1e-5]
        out.append((0.0 if abs(lam) < 1e-9 else lam, sel @ sel.T, sel.shape[1]))
    return out


def check_pairs(rec, what, U, lam, L, want, where):
    """(U, lam) is an orthonormal eigenbasis of exactly the wanted eigenspaces."""
    rec.step()
    U, lam = np.asarray(U, dtype=float), np.asarray(lam, dtype=float)
    k = sum(m for _, _, m in want)
    if not rec.check(
        U.shape == (L.shape[0], k) and lam.shape == (k,),
        lambda: f"{what}: {U.shape[1:]} vectors, {lam.shape} values for dimension {k}: {where}",
    ):
        return False
    return (
        rec.check(close(U.T @ U, np.eye(k)), f"{what}: not orthonormal: {where}")
        and rec.check(close(L @ U, U * lam, 1e-8), f"{what}: not eigenpairs: {where}")
        and all(
            rec.check(
                close(
                    U[:, np.abs(lam - v) < 1e-5] @ U[:, np.abs(lam - v) < 1e-5].T, P, 1e-7
                ),
                lambda: f"{what}: wrong eigenspace of {v}, values {lam}: {where}",
            )
            for v, P, _ in want
        )
        and rec.check(
            bool(np.all(np.diff(lam) >= -1e-8)), f"{what}: values not sorted: {where}"
        )
    )


def run_item(c, rec):
    from pytspl.decomposition import eigendecomposition as eig

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    rg = rank_mod_p(ref.B1) if E <= 60 else None
    rc = rank_mod_p(ref.B2) if E <= 60 else None
    mats = {"gradient": ref.L1L, "curl": ref.L1U, "harmonic": ref.L1}
    spaces = {k: eigenspaces(L) for k, L in mats.items()}

    def keep(name, tol):
        s = spaces[name]
        if name == "harmonic":
            return [x for x in s if x[0] <= tol]
        return [x for x in s if x[0] > tol]

    for name in NAMES:
        L = mats[name]
        vals = [v for v, _, _ in spaces[name]]
        if [v for v in vals if 0 < v < 2e-3]:
            continue
        gaps = [(a + b) / 2 for a, b in zip(vals, vals[1:]) if b - a > 1e-3]
        tols = [None, 1e-6, vals[-1] + 1] + (gaps if len(gaps) < 6 else gaps[:: len(gaps) // 5])
        fn = {
            "gradient": eig.get_gradient_eigenpair,
            "curl": eig.get_curl_eigenpair,
            "harmonic": eig.get_harmonic_eigenpair,
        }[name]
        for tol in tols:
            kw = {} if tol is None else {"tolerance": tol}
            want = keep(name, 1e-3 if tol is None else tol)
            U, lam = sc.get_component_eigenpair(component=name, **kw)
            if not check_pairs(rec, f"{name} pairs tol={tol}", U, lam, L, want, where):
                return
            if tol is not None:
                M = L.astype(float)
                U2, lam2 = fn(M, tol)
                if not check_pairs(
                    rec, f"{name} function tol={tol}", U2, lam2, L, want, where
                ):
                    return
                rec.check(np.array_equal(M, L), f"{name} function changed its input")
            elif rg is not None:
                dim = {"gradient": rg, "curl": rc, "harmonic": E - rg - rc}[name]
                rec.check(
                    len(lam) == dim,
                    f"{name}: {len(lam)} pairs, the exact dimension is {dim}: {where}",
                )
            rec.trace()
    U, lam = sc.get_component_eigenpair()
    check_pairs(rec, "default pairs", U, lam, ref.L1, keep("harmonic", 1e-3), where)

    # full decompositions, zero rounding included
    for what, L in (("L0", ref.L0), ("L1", ref.L1), ("L1L", ref.L1L), ("L1U", ref.L1U)):
        M = L.astype(float)
        U, lam = eig.get_eigendecomposition(M)
        check_pairs(rec, what, U, lam, L, eigenspaces(L), where)
        rec.check(np.array_equal(M, L), f"eigendecomposition changed {what}")
        # values below the tolerance are exact zeros, the others stay
        vals = distinct(np.abs(lam))
        for tol in [(a + b) / 2 for a, b in zip(vals, vals[1:])][:3] + [vals[-1] + 1]:
            V, mu = eig.get_eigendecomposition(M, tolerance=tol)
            zero = np.sort(np.abs(lam)) < tol
            rec.step()
            rec.check(
                np.all(np.sort(mu)[zero] == 0)
                and close(np.sort(mu)[~zero], np.sort(lam)[~zero])
                and close(V.T @ V, np.eye(len(L))),
                lambda: f"values {mu} of {what} with tolerance {tol}: {where}",
            )
        rec.check(
            close(np.sort(eig.get_total_variance(M)), np.sort(np.linalg.eigvalsh(L)), 1e-7),
            f"total variance of {what}: {where}",
        )
        rec.step()
    tv = np.asarray(sc.get_total_variance(), dtype=float)
    rec.step()
    rec.check(
        close(np.sort(tv), np.sort(np.linalg.eigvalsh(ref.L0)), 1e-7),
        f"total variance {tv} is not the spectrum of the graph Laplacian: {where}",
    )

    # embeddings: the energy in every eigenspace
    vecs = {n: keep(n, 1e-3) for n in NAMES}
    base = {n: sc.get_component_eigenpair(n) for n in NAMES}
    lams = {n: np.asarray(base[n][1]) for n in NAMES}
    for f in list(mixed_flows(E)) + list(basis_flows(E, 6)) + list(scaled_flows(E)):
        g = f.copy()
        f = f.astype(float)
        unit = unit_of(f)
        emb = sc.get_simplicial_embeddings(g)
        rec.step()
        if not rec.check(len(emb) == 3, "embeddings are not a triple"):
            return
        for name, x in zip(("harmonic", "curl", "gradient"), emb):
            x = np.asarray(x, dtype=float)
            if not rec.check(
                x.shape == lams[name].shape,
                f"{name} embedding has {x.shape} entries: {where}",
            ):
                return
            for v, P, _ in vecs[name]:
                got = float(np.sum((x / unit)[np.abs(lams[name] - v) < 1e-5] ** 2))
                want = float(f @ P @ f) / unit**2
                rec.check(
                    abs(got - want) <= 1e-6 * max(1.0, float(f @ f) / unit**2),
                    lambda: f"{name} embedding at {v}: energy {got}, not {want}: "
                    f"{where} flow={f}",
                )
            rec.check(
                close(
                    np.asarray(base[name][0]) @ x / unit,
                    sum((P @ f for _, P, _ in vecs[name]), 0 * f) / unit,
                    1e-5 if g.dtype == np.float32 else 1e-7,
                ),
                lambda: f"{name} embedding {x} in the basis of its eigenpairs is not the "
                f"component: {where} flow={f}",
            )
        rec.check(np.array_equal(g, f), f"embedding changed the flow: {where}")
        rec.trace()
    for bad in ("", "Harmonic", "divergence", None):
        rec.step()
        rec.check(
            raises(ValueError, sc.get_component_eigenpair, bad),
            f"component {bad!r} was not refused",
        )
    rec.outcome(tuple(round(v, 6) for v, _, _ in spaces["harmonic"]))
    rec.sample(f"{where}: spectra {[round(v, 3) for v, _, _ in spaces['harmonic']]}")
