"""C15: Chebyshev filters are the truncated expansion of the wanted response."""

import itertools

import numpy as np

from . import filt, gen
from .common import build, describe, distinct, raises, ref_of
from .ref import close

CHUNK = 8
ASSUMPTIONS = [
    "at least one edge and a nonzero operator",
    "the chebpy package is not installed in this sandbox: a small interpolation at "
    "Chebyshev points of the second kind (mc/stubs/chebpy.py) stands in for it; "
    "where the package is installed, it is used",
    "the ideal filter is checked where gradient and curl share no eigenvalue",
]
TOL = 1e-6


def bound(tier):
    return (
        "complexes as in C12 (one direction pattern) and 5 larger ones (up to 130 edges); 3 operators x 3 components x "
        "filter lengths 1-8, 10, 16, 40 x number of points (default and 2-20, 70, 300, fewer and "
        "more than the length) x 5 cut-off/steepness pairs; 8 runs of one object differing in one argument each; 3 signals; units of 1e-12, 1 and 1e8"
    )


def items(tier):
    yield from filt.complexes(
        tier, patterns=("mix",), small=("mix",) if tier == "quick" else gen.PATTERNS,
        max_edges=30, fills=("all",) if tier == "quick" else ("all", "odd"),
    )  # fmt: skip
    yield from filt.larger()


THIN = 1


def setup(tier):
    global THIN
    THIN = 3 if tier == "quick" else 1


def coefficients(g, n, top):
    """Chebyshev coefficients of the degree n-1 interpolant of g on [0, top]."""
    if n == 1:
        x = np.array([0.0])
    else:
        x = np.cos(np.pi * np.arange(n) / (n - 1))
    y = g((x + 1) * top / 2)
    return np.linalg.solve(np.polynomial.chebyshev.chebvander(x, n - 1), y)


def expansion(coeffs, P, top):
    X = 2 / top * P - np.eye(P.shape[0])
    T = [np.eye(P.shape[0]), X]
    while len(T) < len(coeffs):
        T.append(2 * X @ T[-1] - T[-2])
    return sum(c * t for c, t in zip(coeffs, T))


def run_item(c, rec):
    from pytspl.filters import ChebyshevFilterDesign

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    w1, U1 = np.linalg.eigh(ref.L1.astype(float))
    lg = [x for x in distinct(np.linalg.eigvalsh(ref.L1L)) if x > 1e-6]
    lc = [x for x in distinct(np.linalg.eigvalsh(ref.L1U)) if x > 1e-6]
    shared = any(abs(a - b) < 1e-3 for a in lg for b in lc)
    ch = ChebyshevFilterDesign(sc)
    rec.check(
        raises(ValueError, ch.plot_frequency_response_approx, np.ones(E), "gradient"),
        "plotting before applying is not refused",
    )
    signals = list(filt.signals(E))
    thin = THIN * (5 if E > 30 else 1)
    MANY = () if E > 30 else ((4, 70), (3, 300), (40, None))
    for i_p, p in enumerate(filt.PS):
        P = ref.lap(p).astype(float)
        top = float(np.linalg.eigvalsh(P)[-1])
        if top < 1e-9:
            continue
        alpha, lam = ch.get_alpha(p)
        rec.step()
        rec.check(
            abs(lam - top) < 1e-6 * top and abs(alpha - top / 2) < 1e-6 * top,
            f"alpha {alpha}, lambda_max {lam}, spectrum ends at {top}: P={p} {where}",
        )
        combos = itertools.product(
            ("gradient", "curl", "harmonic"),
            ((1, None), (2, None), (3, 3), (4, 2), (5, 12), (6, 6), (8, 5), (10, None),
             (16, 20), (7, 8), *MANY),
            ((), (0.5, 10), (0.01, 100), (1.0, 3), (0.0, 20)),
        )  # fmt: skip
        for i, (name, (L, n), cs) in enumerate(combos):
            if (i + i_p + E + len(ref.tris)) % thin:
                continue
            f = signals[i % 3]
            cut, steep = cs if cs else (0.01, 100)
            kw = {"L": L}
            if n is not None:
                kw["n"] = n
            if cs:
                kw.update(cut_off_frequency=cut, steep=steep)
            txt = f"P={p} {name} {kw} {where} f={f}"
            g = f.copy()
            ch.apply(g, p_choice=p, component=name, **kw)
            rec.step()
            h = ch.history
            H = np.asarray(h["filter"])
            if not rec.check(H.shape == (L, E, E), f"filters {H.shape}: {txt}"):
                return
            co = coefficients(
                lambda x: 1 / (1 + np.exp(-steep * (x - cut))), n or L, top
            )[:L]
            want = expansion(co, P, top)
            if not rec.check(close(H[-1], want, TOL), f"last filter: {txt}"):
                return
            # the k-th reported filter has k + 1 terms; known finding: all but
            # the last one are off by one and have k + 2 terms
            shifted = False
            for k in range(L - 1):
                if close(H[k], expansion(co[: k + 1], P, top), TOL):
                    continue
                shifted = True
                if not rec.check(
                    close(H[k], expansion(co[: k + 2], P, top), TOL),
                    f"reported filter number {k}: {txt}",
                ):
                    return
            if shifted:
                rec.fail(
                    f"the filters before the last have one term too many: {txt}",
                    key="intermediate-filters-one-term-ahead",
                )
            est = np.asarray(h["f_estimated"])
            if not rec.check(
                est.shape == (L, E) and close(est[-1], want @ f, TOL),
                f"last estimate: {txt}",
            ):
                return
            rec.check(close(est, H @ f, 1e-9), f"estimates are not filter @ f: {txt}")
            truth = ref.component(name) @ f
            size = np.linalg.norm(truth)
            err = np.asarray(h["extracted_component_error"])
            if size > 1e-6:
                rec.check(
                    close(err, [filt.nrmse(x, truth) for x in est], 1e-6 / min(1, size)),
                    f"errors {err}: {txt}",
                )
            fr = np.asarray(h["frequency_responses"])
            ok = fr.shape == (L, E) and all(
                abs(
                    np.sum(fr[k][np.abs(w1 - v) < 1e-5] ** 2)
                    - np.sum((U1[:, np.abs(w1 - v) < 1e-5].T @ est[k]) ** 2)
                )
                < 1e-6 * max(1.0, float(est[k] @ est[k]))
                for k in range(L)
                for v in distinct(w1)
            )
            rec.check(ok, f"frequency responses: {txt}")
            if not shared:
                ideal = ref.component(name)
                rec.check(
                    close(
                        h["filter_error"],
                        [np.linalg.norm(x - ideal, 2) for x in H],
                        1e-6,
                    ),
                    f"filter errors: {txt}",
                )
            rec.check(np.array_equal(g, f), f"input changed: {txt}")
            rec.trace()
            rec.outcome(p, name, tuple(np.round(est[-1], 4)[:5]))
        # runs of the same object that differ in one argument only
        base = (3, 6, 0.5, 3)
        near = ((3, 6, 0.5, 30), (3, 6, 1.5, 3), (3, 9, 0.5, 3), (2, 6, 0.5, 3))
        for L, n, cut, steep in [v for x in near for v in (base, x)][: 8 if E < 31 else 0]:
            ch.apply(
                signals[0], p_choice=p, L=L, n=n, cut_off_frequency=cut, steep=steep
            )
            rec.step()
            co = coefficients(lambda x: 1 / (1 + np.exp(-steep * (x - cut))), n, top)
            rec.check(
                close(ch.history["filter"][-1], expansion(co[:L], P, top), TOL),
                f"repeated runs: P={p} {L, n, cut, steep} {where}",
            )
    # defaults: operator L1L, gradient, ten taps
    f = signals[0]
    top = float(np.linalg.eigvalsh(ref.L1L)[-1])
    ch.apply(f)
    rec.step()
    co = coefficients(lambda x: 1 / (1 + np.exp(-100 * (x - 0.01))), 10, top)
    rec.check(
        close(ch.history["f_estimated"][-1], expansion(co, ref.L1L, top) @ f, TOL),
        f"default run: {where}",
    )
    for name in ("gradient", "curl", "harmonic"):
        if not shared:
            m = ch.get_component_coefficients(name)
            rec.step()
            rec.check(
                close(ch.get_ideal_frequency(m), ref.component(name), 1e-6),
                f"ideal {name} filter is not the projector: {where}",
            )
        def run(s):
            ch = ChebyshevFilterDesign(sc)
            ch.apply(f * s, component=name, L=4, n=6)
            return ch.history

        filt.scale_free(
            rec, run, f"{name} {where} f={f}", ("f_estimated", "frequency_responses"),
            error=np.linalg.norm(ref.component(name) @ f) > 1e-6,
        )  # fmt: skip
    for bad in ("", "Gradient", None):
        rec.check(
            raises(ValueError, ch.get_component_coefficients, bad),
            f"coefficients of component {bad!r} were not refused",
        )
        rec.check(
            raises(ValueError, ch.apply, f, component=bad)
            and raises(ValueError, ch.apply, f, p_choice=bad)
            and raises(ValueError, ch.get_alpha, bad),
            f"component or operator {bad!r} was not refused",
        )
        rec.step(3)
    rec.sample(where)
