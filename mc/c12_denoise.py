"""C12: low-pass denoising solves (I + mu P) x = f for every mu."""

import numpy as np

from . import filt, gen
from .common import build, describe, raises, ref_of
from .ref import close

CHUNK = 32
ASSUMPTIONS = ["at least one edge; mu >= 0; a true signal that is not zero"]
MUS = ([0.5], [0.0], [0.1, 1, 10], [20, 0.3], [3, 3, 0], [0.01 * k for k in range(6)],
       [1e3, 1e-4, 1e7], [0.07 * (k % 50) + k // 50 for k in range(101)])


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x "
        + ("2" if tier == "quick" else "5") + " direction patterns x all fillings; "
        "every graph on 5" + ("" if tier == "quick" else " and 6") + " nodes up to "
        "isomorphism; structured families up to 45 edges and larger complexes up to 136 edges; all three operators x 8 "
        "mu sequences (of up to 101 values) and the default x 3 signals x 2 true signals, in units of 1e-12, 1 and 1e8"
    )


def items(tier):
    yield from filt.complexes(tier)
    yield from gen.huge_items(max_edges=140)


def run_item(c, rec):
    from pytspl.filters import EdgeFlowDenoising

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    I = np.eye(E)
    for p in filt.PS:
        P = ref.lap(p)
        w, U = np.linalg.eigh(P)
        for f in filt.signals(E):
            for truth in (np.cos(np.arange(E)) + 2, ref.component("gradient") @ f + 0.01):
                for mus in MUS + (None,):
                    if mus and (max(mus) > 100 or len(mus) > 9) and (
                        f[0] < 2 or truth[0] < 2.5
                    ):
                        continue  # extreme weights, many weights: one signal is enough
                    den = EdgeFlowDenoising(sc)
                    g, t = f.copy(), truth.copy()
                    kw = {} if mus is None else {"mu_vals": list(mus)}
                    if mus is not None and len(mus) % 2:
                        kw["mu_vals"] = np.array(mus)
                    den.denoise(f=g, f_true=t, p_choice=p, **kw)
                    rec.step()
                    h = den.history
                    ms = [0.5] if mus is None else mus
                    xs = [np.linalg.solve(I + m * P, f) for m in ms]
                    what = f"P={p} mu={mus} {where} f={f}"
                    tol = 1e-5 if max(ms) > 1e5 else 1e-8
                    if not rec.check(
                        close(h["f_estimated"], xs[-1], tol), f"estimate: {what}"
                    ):
                        return
                    rec.check(
                        close(np.asarray(h["filter"]), U / (1 + ms[-1] * w) @ U.T, tol),
                        f"the filter is not the inverse of I + mu P: {what}",
                    )
                    rec.check(
                        close(
                            h["extracted_component_error"],
                            [filt.nrmse(x, truth) for x in xs],
                            tol,
                        ),
                        f"errors {h['extracted_component_error']}: {what}",
                    )
                    rec.check(
                        close(
                            h["frequency_responses"],
                            [1 / (1 + m * w) for m in ms],
                            10 * tol,
                        ),
                        f"frequency responses: {what}",
                    )
                    rec.check(
                        np.array_equal(g, f) and np.array_equal(t, truth),
                        f"an input signal was changed: {what}",
                    )
                    rec.trace()
        rec.outcome(p, tuple(np.round(w, 6)))
    for p in filt.PS:
        for truth in (np.cos(np.arange(E)) + 2, np.arange(E) - 0.5):

            def run(s):
                den = EdgeFlowDenoising(sc)
                den.denoise(f=f * s, f_true=truth * s, p_choice=p, mu_vals=[0.1, 1, 10])
                return den.history

            filt.scale_free(rec, run, f"P={p} {where} f={f}")
    for bad in ("", "l1", "L2", None, "L1 "):
        den = EdgeFlowDenoising(sc)
        rec.step()
        rec.check(
            raises(ValueError, den.denoise, f, f + 1.0, bad),
            f"operator {bad!r} was not refused",
        )
    rec.sample(where)
