"""C14: grid filters fit their response on a uniform grid over the spectrum."""

import itertools

import numpy as np

from . import filt, gen
from .common import build, describe, raises, ref_of
from .ref import close

CHUNK = 8
ASSUMPTIONS = [
    "at least one edge; at most 6 filter taps (well conditioned fits); mu >= 0",
    "errors are compared where the true component is not zero",
]
TOL = 1e-5


def bound(tier):
    return (
        "complexes as in C12 (one direction pattern) and 5 larger ones (up to 130 edges); denoising: 3 operators x 1-6 "
        "taps x 4 mu and the default; extraction: 3 components x 3 operators x 1-6 "
        "taps x sample counts x cut-offs x steepness" + (" (every fourth combination, "
        "rotating with the complex)" if tier == "quick" else "") + "; general filter: every pair of "
        "lengths in {0,1,3,5}; 3 signals; units of 1e-12, 1 and 1e8"
    )


def items(tier):
    yield from filt.complexes(
        tier, patterns=("mix",), small=("mix",) if tier == "quick" else gen.PATTERNS,
        max_edges=30, fills=("all",) if tier == "quick" else ("all", "odd"),
    )  # fmt: skip
    yield from filt.larger()


THIN = 1


def setup(tier):
    global THIN
    THIN = 4 if tier == "quick" else 1


def logistic(cut, steep):
    return lambda x: 1 / (1 + np.exp(-steep * (x - cut)))


def compare(rec, filt_obj, P, Hs, f, truth, txt):
    h = filt_obj.history
    L = len(Hs)
    scale = max(1.0, float(np.max(np.abs(Hs[-1]))))
    rec.step()
    if not rec.check(
        close(h["f_estimated"], Hs[-1] @ f, TOL * scale), lambda: f"estimate "
        f"{h['f_estimated']} not {Hs[-1] @ f}: {txt}"
    ):
        return False
    err, fr = np.asarray(h["extracted_component_error"]), np.asarray(h["frequency_responses"])
    if not rec.check(
        err.shape == (L,) and fr.shape == (L, len(f)) , f"history shapes: {txt}"
    ):
        return False
    rec.check(close(h["filter"], Hs[-1], TOL), f"filter: {txt}")
    size = np.linalg.norm(truth)
    for l in range(L):
        if size > 1e-6:
            rec.check(
                abs(err[l] - filt.nrmse(Hs[l] @ f, truth)) < TOL * scale * max(1, 1 / size) * 10,
                f"error of length {l + 1}: {err[l]}: {txt}",
            )
        rec.check(
            filt.response_ok(P, Hs[l], fr[l], 1e-4), f"response of length {l + 1}: {txt}"
        )
    rec.trace()
    rec.outcome(tuple(np.round(np.asarray(h["f_estimated"]), 4)[:5]))
    return True


def run_item(c, rec):
    from pytspl.filters import GridBasedFilterDesign

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    top = {p: max(0.0, float(np.linalg.eigvalsh(ref.lap(p))[-1])) for p in filt.PS}
    for p in top:
        if top[p] < 1e-9:
            top[p] = 0.0
    gf = GridBasedFilterDesign(sc)
    thin = THIN * (5 if E > 30 else 1)
    for n_f, f in enumerate(filt.signals(E)):
        for i_p, p in enumerate(filt.PS):
            P = ref.lap(p)
            truth = np.cos(np.arange(E)) + 2
            grid = np.linspace(0, top[p], E)
            for i, mu in enumerate((None, 0.2, 1, 7.5, 0)):
                m = 0.5 if mu is None else mu
                fits = [filt.powers_fit(grid, 1 / (1 + m * grid), k + 1, P) for k in range(6)]
                if THIN > 1 and n_f and (i + n_f + E) % 2:
                    continue
                for L in range(1, 7) if n_f == 0 else (1 + (i + n_f) % 6,):
                    g, t = f.copy(), truth.copy()
                    gf.denoise(g, t, p, L, **({} if mu is None else {"mu": mu}))
                    txt = f"denoise P={p} L={L} mu={mu} {where} f={f}"
                    if not compare(rec, gf, P, fits[:L], f, truth, txt):
                        return
                    rec.check(
                        np.array_equal(g, f) and np.array_equal(t, truth),
                        f"input changed: {txt}",
                    )
            combos = itertools.product(
                ("gradient", "curl", "harmonic"),
                ((), (25,), (3,)),
                ((), (0.5, 10), (0.3, 100), (0.0, 10), (1.5, 2)),
            )
            for i, (name, ns, cs) in enumerate(combos):
                if (i + i_p + 2 * n_f + E) % thin:
                    continue
                n = ns[0] if ns else 10
                cut, steep = cs if cs else (0.01, 100)
                grid = np.linspace(0, top[p], n)
                alpha = logistic(cut, steep)(grid)
                truth = ref.component(name) @ f
                kw = {}
                if ns:
                    kw["num_of_samples"] = n
                if cs:
                    kw.update(cut_off_frequency=cut, steep=steep)
                if i % 4 == 3:
                    kw["mu"] = 3.0  # does not matter here
                for L in range(1, 7, 2) if n_f == 0 else (1 + (i + n_f) % 6,):
                    fits = [filt.powers_fit(grid, alpha, k + 1, P) for k in range(L)]
                    g = f.copy()
                    gf.subcomponent_extraction(g, name, p, L, **kw)
                    txt = f"extract {name} P={p} L={L} {kw} {where} f={f}"
                    if not compare(rec, gf, P, fits, f, truth, txt):
                        return
                    rec.check(np.array_equal(g, f), f"input changed: {txt}")
        parts = {}
        for p in ("L1L", "L1U"):
            grid = np.linspace(0, top[p], 10)
            for L in (1, 3, 5):
                H = filt.powers_fit(grid, logistic(0.01, 100)(grid), L, ref.lap(p))
                parts[p, L] = H @ f
            parts[p, 0] = np.zeros(E)
        for a, b in itertools.product((0, 1, 3, 5), repeat=2):
            g = f.copy()
            fh, fc, fg = gf.general_filter(g, a, b)
            rec.step()
            txt = f"general filter L1={a} L2={b} {where} f={f}"
            rec.check(np.array_equal(g, f), f"input changed: {txt}")
            rec.check(close(fh + fc + fg, f, 1e-9), f"parts do not add up: {txt}")
            rec.check(close(fg + 0 * f, parts["L1L", a], TOL), f"gradient: {txt}")
            rec.check(close(fc + 0 * f, parts["L1U", b], TOL), f"curl: {txt}")
            for key, n, part in (("L1", a, fg), ("L2", b, fc)):
                h = gf.history[key]
                rec.check(
                    (h is None) == (n == 0)
                    and (h is None or close(h["f_estimated"], part, 1e-9)),
                    f"history {key}: {txt}",
                )
            rec.trace()
    for p in filt.PS:

        def run(s):
            gf = GridBasedFilterDesign(sc)
            gf.denoise(f * s, truth * s, p, 3)
            return gf.history

        filt.scale_free(rec, run, f"denoise P={p} {where} f={f}")
        for name in ("gradient", "curl", "harmonic"):

            def run(s):
                gf = GridBasedFilterDesign(sc)
                gf.subcomponent_extraction(f * s, name, p, 3)
                return gf.history

            filt.scale_free(
                rec, run, f"extract {name} P={p} {where} f={f}",
                error=np.linalg.norm(ref.component(name) @ f) > 1e-6,
            )  # fmt: skip
    for bad in ("", "l1", None):
        rec.check(
            raises(ValueError, gf.denoise, f, f + 1.0, bad, 2)
            and raises(ValueError, gf.subcomponent_extraction, f, "gradient", bad, 2)
            and raises(ValueError, gf.subcomponent_extraction, f, bad, "L1", 2),
            f"operator or component {bad!r} was not refused",
        )
        rec.step(3)
    rec.sample(where)
