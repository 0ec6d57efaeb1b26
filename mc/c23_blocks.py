"""C23: the building blocks of filters are the quantities they are named after."""

import numpy as np

from . import filt, gen
from .c11_eigen import eigenspaces
from .common import build, describe, distinct, raises, ref_of
from .ref import close

CHUNK = 8
ASSUMPTIONS = [
    "at least one edge; nonzero eigenvalues are well above 0.001",
    "power iterations are compared where the start vector is not nearly orthogonal to "
    "the leading eigenvectors (otherwise rounding decides), and where P is not 0",
]
NAMES = ("harmonic", "curl", "gradient")
STEPS = (1, 2, 3, 10, 50, 200)


def bound(tier):
    return (
        "all labelled graphs on <= 4 nodes, graphs on 5"
        + (" nodes" if tier == "quick" else " and 6 nodes")
        + " up to isomorphism, structured families and larger complexes x the 5 filter "
        "classes x 3 operators x 3 components; power iterations of 1 to 200 steps; "
        "3 signals; logistic functions: 9 cut-offs x 6 steepnesses x 41 values; recorded "
        "results: histories of <= 3 recordings per class with the inputs overwritten in "
        "between"
    )


def items(tier):
    yield {"what": "functions"}
    seen = list(filt.complexes(tier)) + list(filt.larger())
    for c in gen.dedupe(iter(seen)):
        yield {"what": "complex", "c": c}


def classes():
    from pytspl.filters import (
        ChebyshevFilterDesign,
        EdgeFlowDenoising,
        GridBasedFilterDesign,
        LSFilterDesign,
        SimplicialTrendFilter,
    )
    from pytspl.filters.base_filter import BaseFilter

    return (BaseFilter, LSFilterDesign, GridBasedFilterDesign, ChebyshevFilterDesign,
            EdgeFlowDenoising, SimplicialTrendFilter)  # fmt: skip


def run_functions(rec):
    from pytspl.filters.base_filter import BaseFilter

    rec.state("functions")
    x = np.linspace(-1.0, 9.0, 41)
    for cut in (-1.0, 0.0, 0.01, 0.25, 1, 2.5, 4, 7.0, 100.0):
        for steep in (1, 5, 10, 20.5, 100, 0.3):
            kws = [dict(cut_off_frequency=cut, steep=steep)]
            if cut == 0.01:
                kws.append(dict(steep=steep))
            if steep == 100:
                kws.append(dict(cut_off_frequency=cut))
            if (cut, steep) == (0.01, 100):
                kws.append({})
            want = 1 / (1 + np.exp(-steep * (x - cut)))
            for kw in kws:
                rec.step()
                g = BaseFilter.logistic_function(**kw)
                y = np.asarray(g(x), dtype=float)
                rec.check(
                    close(y, want) and close([g(float(v)) for v in x], want)
                    and abs(g(cut) - 0.5) < 1e-12 and np.all(np.diff(y) >= 0),
                    f"logistic function {kw} is {y}, not {want}",
                )  # fmt: skip
        rec.trace()
    for n in range(1, 9):
        for k in (1.0, 1e-12, 1e12):
            a = k * np.array([3.0, -1, 0, 2, -5, 7, 1, 1][:n])
            for b in (a, a + k, 2 * a, -a, a[::-1] * 3):
                rec.step()
                got = BaseFilter.calculate_error_NRMSE(b, a)
                want = np.sqrt(np.sum((b / k - a / k) ** 2) / np.sum((a / k) ** 2))
                rec.check(
                    abs(got - want) <= 1e-9 * max(1, want),
                    f"NRMSE of {b} for {a} is {got}, not {want}",
                )
        rec.trace()
    rec.sample("logistic functions and errors")


def run_complex(c, rec):
    sc, ref = build(c), ref_of(c)
    E = len(ref.edges)
    where = describe(c)
    rec.state(*gen.key(c))
    ops = {"L1": ref.L1, "L1L": ref.L1L, "L1U": ref.L1U}
    mats = {"harmonic": ref.L1, "curl": ref.L1U, "gradient": ref.L1L}
    spaces = {
        k: [s for s in eigenspaces(m) if (s[0] == 0) == (k == "harmonic")]
        for k, m in mats.items()
    }
    fine = min([v for k in NAMES[1:] for v, _, _ in spaces[k]], default=1) > 2e-3
    for i, cls in enumerate(classes()):
        f = cls(sc)
        name = cls.__name__
        for p, L in ops.items():
            rec.step()
            got = f.get_p_matrix(p)
            rec.check(
                np.array_equal(got.toarray(), L), lambda: f"{name} operator {p}: {where}"
            )
            got[0, 0] += 1  # the answer belongs to the caller
        rec.check(
            np.array_equal(f.get_p_matrix().toarray(), ref.L1)
            and np.array_equal(f.get_p_matrix(p_choice="L1L").toarray(), ref.L1L),
            lambda: f"{name} default operator: {where}",
        )
        for bad in ("", "l1", "L2", None, "L1 "):
            rec.step()
            rec.check(
                raises(ValueError, f.get_p_matrix, bad),
                f"{name}: operator {bad!r} was not refused",
            )
        for s in filt.signals(E) if i < 2 else list(filt.signals(E))[:1]:
            keep = s.copy()
            for k in NAMES:
                rec.step()
                got, want = f.get_true_signal(s, k), ref.component(k) @ s
                rec.check(
                    close(got, want, 1e-7),
                    lambda: f"{name} true {k} signal {got}, not {want}: {where} f={s}",
                )
            rec.check(np.array_equal(s, keep), f"{name} changed the signal: {where}")
        for bad in ("", "Curl", "divergence", None):
            rec.step()
            rec.check(
                raises(ValueError, f.get_true_signal, flow_of(E), bad)
                and raises(ValueError, f.get_component_coefficients, bad),
                f"{name}: component {bad!r} was not refused",
            )
        if fine:
            check_masks(rec, f, name, spaces, E, where)
        for p, L in ops.items():
            M = L.astype(float)
            rec.step()
            lam = f.get_lambda_max(M)
            want = np.linalg.eigvalsh(M)[-1]
            rec.check(
                abs(lam - want) <= 1e-7 * max(1, want),
                lambda: f"{name}: largest eigenvalue of {p} is {lam}, not {want}: {where}",
            )
            if i == 0:
                check_power(rec, f, M, f"{p}: {where}")
            rec.check(np.array_equal(M, L), f"{name} changed the operator: {where}")
        rec.trace()
    if len(ref.edges) < 12:
        check_history(rec, sc, E, where)
    rec.outcome(tuple(round(v, 6) for k in NAMES for v, _, _ in spaces[k]))
    rec.sample(where)


def flow_of(E):
    return next(iter(filt.signals(E)))


def check_masks(rec, f, name, spaces, E, where):
    """In the order of all eigenvalues, a mask marks those of its component."""
    masks = {k: np.asarray(f.get_component_coefficients(component=k)) for k in NAMES}
    rec.step(3)
    if not rec.check(
        all(m.shape == (E,) and set(np.unique(m)) <= {0, 1} for m in masks.values())
        and np.array_equal(sum(masks.values()), np.ones(E)),
        lambda: f"{name} masks {masks} are no partition: {where}",
    ):
        return
    vals = distinct([v for k in NAMES for v, _, _ in spaces[k]])
    at = 0
    for v in vals:
        many = {k: sum(m for w, _, m in spaces[k] if abs(w - v) < 1e-5) for k in NAMES}
        n = sum(many.values())
        for k in NAMES:
            rec.check(
                masks[k][at : at + n].sum() == many[k],
                lambda: f"{name} mask of {k} is {masks[k]}: eigenvalue {v} belongs "
                f"{many}: {where}",
            )
        at += n


def check_power(rec, f, M, where):
    w, U = np.linalg.eigh(M)
    n = len(w)
    v0 = np.ones(n) / np.sqrt(n)
    lead = np.linalg.norm(U[:, np.abs(w - w[-1]) < 1e-6].T @ v0)
    if w[-1] < 1e-9 or lead < 1e-2:
        return
    for k in STEPS + (None,):
        rec.step()
        got = f.power_iteration(M) if k is None else f.power_iteration(M, k)
        if k == 3:
            got = f.power_iteration(P=M, iterations=3)
        x = U @ ((w / w[-1]) ** (50 if k is None else k) * (U.T @ v0))
        x = x / np.linalg.norm(x)
        rec.check(
            close(got, x, 1e-6),
            lambda: f"{k} power iterations give {got}, not {x}: {where}",
        )


def check_history(rec, sc, E, where):
    """A recorded result is a copy of its own, and stays as it was recorded."""
    for cls in classes()[:5]:
        f = cls(sc)
        old = []
        for j in range(3):
            args = {
                "filter": np.arange(E * E).reshape(E, E) + j,
                "f_estimated": np.arange(E) * (j + 1),
                "frequency_responses": np.ones(E, dtype=int) * j,
                "extracted_component_error": np.array([j, 1]),
            }
            if j:  # whole numbers, then floats of either precision
                args = {k: v.astype((float, np.float32)[j - 1]) for k, v in args.items()}
            if j % 2 == 0:
                args["filter_error"] = np.array([3, j])
            keep = {k: v.astype(float) for k, v in args.items()}
            keep.setdefault("filter_error", np.array([]))
            rec.step()
            f.set_history(**args)
            for v in args.values():
                v[...] = -77
            old.append((f.history, keep))
            for h, want in old:
                rec.check(
                    set(h) == set(want)
                    and all(
                        np.array_equal(h[k], want[k]) and np.asarray(h[k]).dtype == float
                        for k in want
                    ),
                    lambda: f"{cls.__name__} recorded {h}, given {want}: {where}",
                )
        rec.trace()


def run_item(item, rec):
    if item["what"] == "functions":
        run_functions(rec)
    else:
        run_complex(item["c"], rec)
