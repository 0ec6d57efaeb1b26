"""C13: least-squares filters extract components, exactly once L is large enough."""

import itertools

import numpy as np

from . import filt, gen
from .common import build, describe, distinct, raises, ref_of
from .ref import close

CHUNK = 16
ASSUMPTIONS = [
    "at least one edge; at most 7 distinct eigenvalues and 8 filter taps, so that "
    "the least squares systems are well conditioned in double precision",
    "type one: no nonzero eigenvalue is shared by the gradient and curl spaces (no "
    "polynomial of the Hodge Laplacian separates those)",
    "type two, fewer taps than distinct eigenvalues: nonzero eigenvalues are simple "
    "(otherwise the weights of the fit depend on rounding)",
    "errors are compared where the true component is not zero",
]
NAMES = ("gradient", "curl", "harmonic")
TOL = 1e-5


def bound(tier):
    return (
        "complexes as in C12; type one: 3 components, type two: 2 components, every "
        "filter length up to two beyond the number of distinct eigenvalues; general "
        "filter: every pair of lengths including 0, and equal lengths up to 9 beyond the spectrum; type two with one tolerance in every "
        "gap of the spectrum; 3 signals; units of 1e-12, 1 and 1e8; per-length errors and "
        "frequency responses"
    )


def items(tier):
    yield from filt.complexes(tier, max_edges=24)
    # many distinct eigenvalues, down to 0.006: short filters only
    for k in (12, 20, 40):
        g = [(i, i + 1) for i in range(k - 1)]
        yield gen.cx(k, gen.reorder(gen.orient(g, "mix"), "riffle"), [])
    g = sorted({(i, j) for i in range(14) for j in (i + 1, i + 2)})
    es = gen.orient(g, "mix")
    yield gen.cx(16, es, gen.cliques3(16, es))


def masks(ref, name):
    """The eigenvalues of L1 with multiplicity and the component they are in."""
    w, U = np.linalg.eigh(ref.L1.astype(float))
    pr = ref.component(name)
    return w, np.array([float(u @ pr @ u) for u in U.T])


def run_item(c, rec):
    from pytspl.filters import LSFilterDesign

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    lg = [x for x in distinct(np.linalg.eigvalsh(ref.L1L)) if x > 1e-6]
    lc = [x for x in distinct(np.linalg.eigvalsh(ref.L1U)) if x > 1e-6]
    shared = any(abs(a - b) < 1e-3 for a in lg for b in lc)
    close_pair = any(
        abs(a - b) < 0.02 for s in (lg + lc,) for i, a in enumerate(s) for b in s[:i]
    )
    for n_f, f in enumerate(filt.signals(E)):
        ls = LSFilterDesign(sc)  # one object for all: runs must not interfere
        # type one
        d1 = len(distinct(np.linalg.eigvalsh(ref.L1)))
        if not shared and not close_pair and d1 <= 7:
            for name in NAMES:
                ok = one(rec, ls, ls.subcomponent_extraction_type_one, ref, f, name,
                         ref.L1, *masks(ref, name), d1, f"type one {where}", n_f)  # fmt: skip
                if not ok:
                    return
        # type two
        for name, L, vals in (("gradient", ref.L1L, lg), ("curl", ref.L1U, lc)):
            w = np.linalg.eigvalsh(L)
            fit = distinct(w) if len(distinct(w)) == len(vals) + (w[0] < 1e-6) else None
            simple = all(np.sum(np.abs(w - v) < 1e-5) == 1 for v in vals)
            eigs = np.array(fit)
            eigs[np.abs(eigs) < 1e-9] = 0
            alpha = (eigs > 1e-6).astype(float)
            if len(eigs) > 7 or any(b - a < 0.02 for a, b in zip(eigs, eigs[1:])):
                # too many for a full fit in double precision: short filters
                if simple and not one(
                    rec, ls, ls.subcomponent_extraction_type_two, ref, f, name, L,
                    eigs, alpha, 4, f"type two {where}", n_f, top=3, exact=False,
                ):  # fmt: skip
                    return
                continue
            ok = one(rec, ls, ls.subcomponent_extraction_type_two, ref, f, name, L,
                     eigs, alpha, len(eigs), f"type two {where}", n_f,
                     fits=simple)  # fmt: skip
            if not ok:
                return
            # eigenvalues below the given tolerance count as zero
            if simple and n_f == 0:
                for tol in [1e-9] + [(a + b) / 2 for a, b in zip(eigs, eigs[1:])]:
                    low = np.unique(np.where(eigs < tol, 0, eigs))
                    H = filt.powers_fit(low, (low > 0).astype(float), 3, L)
                    if len(low) < 3:
                        continue
                    rec.step()
                    ls.subcomponent_extraction_type_two(f, name, 3, tol)
                    rec.check(
                        close(ls.history["f_estimated"], H @ f, TOL),
                        f"type two {name} with tolerance {tol} {where} f={f}",
                    )
        # general filter: short, on larger spectra
        if n_f == 0 and len(lg) > 7 and min(lg + lc) > 2e-3 and all(
            np.sum(np.abs(np.linalg.eigvalsh(L) - v) < 1e-5) == 1
            for L, vals in ((ref.L1L, lg), (ref.L1U, lc)) for v in vals
        ):
            for a, b in ((1, 0), (0, 2), (2, 2), (3, 1)):
                rec.step()
                fh, fc, fg = ls.general_filter(f, L1=a, L2=b)
                what = f"general filter L1={a} L2={b} {where} f={f}"
                for part, L, k in ((fg, ref.L1L, a), (fc, ref.L1U, b)):
                    eigs = np.array(distinct(np.linalg.eigvalsh(L)))
                    eigs[np.abs(eigs) < 1e-9] = 0
                    want = filt.powers_fit(eigs, (eigs > 1e-6).astype(float), k, L) @ f
                    rec.check(
                        close(part, want if k else 0 * f, TOL) if k else np.all(part == 0),
                        f"part of length {k}: {what}",
                    )
                rec.check(close(fh + fc + fg, f, 1e-9), f"parts do not add up: {what}")
                rec.trace()
        # general filter
        if len(lg) + 1 > 7 or len(lc) + 1 > 7 or close_pair:
            continue
        ng, nc = len(lg) + 1, len(lc) + 1
        pairs = {*itertools.product({0, 1, ng, ng + 1}, {0, 1, nc, nc + 1})}
        for x in ng + nc, ng + nc + 5, ng + nc + 9:  # longer, and of equal length
            pairs |= {(x, x), (x, x + 1)}
        for a, b in sorted(pairs):
            long = max(a, b) > 8  # too badly conditioned to be exact
            for unit in (1.0, 1e-4) if a == b else (1.0,):
                u = f * unit
                g = u.copy()
                fh, fc, fg = ls.general_filter(g, L1=a, L2=b)
                rec.step()
                what = f"general filter L1={a} L2={b} {where} f={u}"
                rec.check(np.array_equal(g, u), f"input changed: {what}")
                rec.check(close(fh + fc + fg, u, 1e-9 * unit), f"parts do not add up: {what}")
                if a == 0:
                    rec.check(np.all(np.asarray(fg) == 0), f"gradient not 0: {what}")
                if b == 0:
                    rec.check(np.all(np.asarray(fc) == 0), f"curl not 0: {what}")
                if a >= ng and not long:
                    rec.check(
                        close(fg, ref.component("gradient") @ u, TOL * unit), f"gradient: {what}"
                    )
                if b >= nc and not long:
                    rec.check(close(fc, ref.component("curl") @ u, TOL * unit), f"curl: {what}")
                if a >= ng and b >= nc and not long:
                    rec.check(
                        close(fh, ref.component("harmonic") @ u, TOL * unit), f"harmonic: {what}"
                    )
                for key, n, part in (("L1", a, fg), ("L2", b, fc)):
                    h = ls.history[key]
                    rec.check(
                        (h is None) == (n == 0)
                        and (h is None or close(h["f_estimated"], part, 1e-9 * unit)),
                        f"history {key}: {what}",
                    )
                rec.trace()
    for name, how in (("gradient", "two"), ("curl", "two"), ("gradient", "one"),
                      ("curl", "one"), ("harmonic", "one")):  # fmt: skip

        def run(s):
            ls = LSFilterDesign(sc)
            fn = ls.subcomponent_extraction_type_two
            if how == "one":
                fn = ls.subcomponent_extraction_type_one
            fn(f * s, name, 3)
            return ls.history

        filt.scale_free(
            rec, run, f"type {how} {name} L=3 {where} f={f}",
            error=np.linalg.norm(ref.component(name) @ f) > 1e-6,
        )  # fmt: skip
    for bad in ("", "Gradient", "divergence", None):
        rec.check(
            raises(ValueError, ls.subcomponent_extraction_type_one, f, bad, 2)
            and raises(ValueError, ls.subcomponent_extraction_type_two, f, bad, 2),
            f"component {bad!r} was not refused",
        )
        rec.step(2)
    rec.check(
        raises(ValueError, ls.subcomponent_extraction_type_two, f, "harmonic", 2),
        "type two accepted the harmonic component",
    )
    rec.sample(where)


def one(rec, ls, fn, ref, f, name, P, eigs, alpha, d, what, n_f, fits=True, top=None, exact=True):  # fmt: skip
    top = top or min(d + 2, 8)
    truth = ref.component(name) @ f
    size = np.linalg.norm(truth)
    Hs = [filt.powers_fit(eigs, alpha, l + 1, P) for l in range(top)]
    lens = range(1, top + 1) if n_f == 0 or not exact else (max(1, d - 1), d)
    for L in lens:
        if L < d and not fits:
            continue
        g = f.copy()
        fn(g, component=name, L=L)
        rec.step()
        h = ls.history
        txt = f"{what} {name} L={L} f={f}"
        est = np.asarray(h["f_estimated"])
        if not rec.check(close(est, Hs[L - 1] @ f, TOL), f"estimate: {txt}"):
            return False
        if L >= d and not rec.check(
            close(est, truth, TOL), f"not the {name} component: {txt}"
        ):
            return False
        rec.check(
            close(h["filter"], Hs[L - 1], TOL) if L <= d else
            close(np.asarray(h["filter"]) @ f, est, 1e-8),
            f"filter: {txt}",
        )
        rec.check(np.array_equal(g, f), f"input changed: {txt}")
        err = np.asarray(h["extracted_component_error"])
        fr = np.asarray(h["frequency_responses"])
        if not rec.check(
            err.shape == (L,) and fr.shape == (L, len(f)), f"shapes in history: {txt}"
        ):
            return False
        for l in range(L):
            if not fits and l + 1 < d:
                continue
            if size > 1e-6:
                rec.check(
                    abs(err[l] - filt.nrmse(Hs[l] @ f, truth)) < TOL * max(1, 1 / size),
                    f"error of length {l + 1} is {err[l]}: {txt}",
                )
            rec.check(
                filt.response_ok(P, Hs[l], fr[l], 1e-4),
                f"frequency response of length {l + 1}: {txt}",
            )
        rec.trace()
        rec.outcome(name, L, tuple(np.round(est, 4)[:5]))
    return True
