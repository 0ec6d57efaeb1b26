"""C17: simplicial trend filters minimise the problem they state."""

import itertools

import numpy as np

from . import filt, gen
from .common import build, describe, raises, ref_of
from .ref import close, dense

CHUNK = 4
ASSUMPTIONS = [
    "at least one edge; a flow whose entries are not all equal (correlation)",
    "noise is made negligible (400 dB) where the exact result is compared; with noise, "
    "the reported errors, correlations and component sizes are compared with the "
    "reported signals",
    "optimality of the l1 problems is judged by the objective value against a second "
    "convex program, relative tolerance 1e-4",
    "runs in which the installed convex solver itself gives up are left out",
    "the observed edges of an interpolation are chosen by the check (every subset); "
    "if the code draws them differently, only their number is checked",
]


def bound(tier):
    return (
        "complexes as in C12 (one direction pattern); shift operators of order 0-7 and "
        "negative orders; l2: both components x 4 mu x 1-3 noise levels x 1-3 "
        "realizations, and up to 18 levels or 23 realizations; l1: both components x orders 0-3 x 3 weights, and runs of 2 noise "
        "levels x 2, 13 x 2 and 2 x 17 realizations without and with regularization; interpolation: "
        "every set of observed edges of the stated size for complexes with <=5 "
        "edges" + ("" if tier == "quick" else " (thorough: 6)") + ", ratios 0.2 to 1; 5 larger complexes (up to 130 edges); units of 1e-12, 1 and 1e8 (l2); runs of 3 ratios x 2 realizations, 10 x 3 and 2 x 12"
    )


def items(tier):
    cs = list(
        filt.complexes(
            tier, patterns=("mix",), small=("mix",), max_edges=20,
            fills=("all",) if tier == "quick" else ("all", "odd"),
        )  # fmt: skip
    )
    for i, c in enumerate(cs):
        if len(c["e"]) > 1:
            yield dict(c, part="l2")
    for i, c in enumerate(cs):
        if len(c["e"]) > 1 and (tier != "quick" or i % 2 == 0):
            yield dict(c, part="l1", i=i)
    for i, c in enumerate(filt.larger()):
        for part in ("l2", "l1", "ratios"):
            yield dict(c, part=part, i=i)
    top = 5 if tier == "quick" else 6
    for i, c in enumerate(cs):
        if 1 < len(c["e"]) <= top and (tier != "quick" or c["t"] or i % 3 == 0):
            yield dict(c, part="mask", i=i)


def operator(ref, component, order):
    B, L = (ref.B1, ref.L1L) if component == "divergence" else (ref.B2.T, ref.L1U)
    if order % 2 == 0:
        return B @ np.linalg.matrix_power(L, order // 2)
    return np.linalg.matrix_power(L, (order + 1) // 2)


def consistent(rec, tf, B, flow, fr, txt):
    """The reported summaries are those of the reported signals."""
    h = tf.history
    k, r = fr.shape[1:]
    err = [np.mean([filt.nrmse(fr[:, i, j], flow) for j in range(r)]) for i in range(k)]
    com = [np.mean([np.linalg.norm(B @ fr[:, i, j]) for j in range(r)]) for i in range(k)]
    rec.check(close(h["errors"], err, 1e-7), f"errors {h['errors']} not {err}: {txt}")
    rec.check(
        close(h["component_flow"], com, 1e-7),
        f"component sizes {h['component_flow']} not {com}: {txt}",
    )
    if all(np.std(fr[:, i, j]) > 1e-6 for i in range(k) for j in range(r)):
        cor = [
            np.mean([np.corrcoef(flow, fr[:, i, j])[0, 1] for j in range(r)])
            for i in range(k)
        ]
        rec.check(close(h["correlations"], cor, 1e-6), f"correlations: {txt}")


def run_item(c, rec):
    from pytspl.filters import SimplicialTrendFilter

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c), c["part"])
    where = describe(c)
    E = len(ref.edges)
    tf = SimplicialTrendFilter(sc)
    {"l2": part_l2, "l1": part_l1, "mask": part_mask, "ratios": part_ratios}[c["part"]](
        c, rec, tf, ref, E, where
    )
    rec.sample(f"{c['part']} {where}")


def mats(ref, component):
    return (ref.B1, ref.L1L) if component == "divergence" else (ref.B2.T, ref.L1U)


def part_l2(c, rec, tf, ref, E, where):
    for component in ("divergence", "curl"):
        for order in range(8):
            S = dense(tf.get_shift_operator(component, order))
            rec.step()
            W = operator(ref, component, order)
            if component == "curl" and order % 2 == 0 and S.shape == W.shape:
                # either orientation of a triangle will do
                W = W * np.where(np.sum(S * W, axis=1) < 0, -1, 1)[:, None]
            rec.check(
                close(S, W, 1e-9), f"shift operator {component} {order}: {where}"
            )
        for order in (-1, -2):
            rec.step()
            rec.check(
                raises(ValueError, tf.get_shift_operator, component, order),
                f"order {order} was not refused",
            )
    for f in filt.signals(E):
        db = np.array([-10, 0.0, 3, 20])
        pn, snr = tf.get_power_noise(f, db)
        rec.step()
        rec.check(
            close(snr, 10 ** (db / 10)) and close(pn, np.linalg.norm(f) / snr / E),
            f"noise power {pn} {snr}: {where}",
        )
        for component in ("divergence", "curl"):
            B, P = mats(ref, component)
            for i, mu in enumerate((None, 0.0, 2, 30.5)):
                m = 0.5 if mu is None else mu
                H = np.linalg.inv(np.eye(E) + m * P)
                kw = {} if mu is None else {"mu": mu}
                txt = f"l2 {component} mu={mu} {where} flow={f}"
                g = f.copy()
                tf.denoising_l2_regularizer(
                    g, component, 1 + i % 2, np.array([400.0, 500.0][: 1 + i % 2]), **kw
                )
                rec.step()
                h = tf.history
                fr = np.asarray(h["frequency_responses"])
                if not rec.check(
                    fr.shape == (E, 1 + i % 2, 1 + i % 2), f"shape {fr.shape}: {txt}"
                ):
                    return
                if not all(
                    rec.check(
                        close(fr[:, a, b], H @ f, 1e-8),
                        f"not the closed form: {fr[:, a, b]} {H @ f} {txt}",
                    )
                    for a in range(fr.shape[1])
                    for b in range(fr.shape[2])
                ):
                    return
                rec.check(close(h["filter"], H, 1e-8), f"filter: {txt}")
                rec.check(np.array_equal(g, f), f"input changed: {txt}")
                rec.trace()
                # with noise
                np.random.seed(i)
                tf.denoising_l2_regularizer(
                    g, component, 2, np.array([-5.0, 10.0, 45.0]), **kw
                )
                rec.step()
                fr = np.asarray(tf.history["frequency_responses"])
                rec.check(fr.shape == (E, 3, 2), f"shape with noise: {txt}")
                noise = np.linalg.solve(H, fr.reshape(E, -1)) - f[:, None]
                rec.check(
                    np.all(np.linalg.norm(noise, axis=0) > 0)
                    and len({tuple(np.round(x, 9)) for x in noise.T}) == 6,
                    f"the realizations do not carry noise of their own: {txt}",
                )
                level(rec, f, noise.reshape(E, 3, 2), [-5.0, 10.0, 45.0], txt)
                consistent(rec, tf, B, f, fr, txt)
                if i < 2 and E < 12:  # many levels, many realizations
                    tf.denoising_l2_regularizer(
                        g, component, 23 - 20 * i, np.linspace(-10, 45, 3 + 15 * i), **kw
                    )
                    rec.step()
                    fr = np.asarray(tf.history["frequency_responses"])
                    rec.check(fr.shape == (E, 3 + 15 * i, 23 - 20 * i), f"shape: {txt}")
                    consistent(rec, tf, B, f, fr, f"{fr.shape} {txt}")
                rec.outcome(component, mu, tuple(np.round(H @ f, 4)[:5]))
    f = next(filt.signals(E))
    for component in ("divergence", "curl"):

        def run(s):
            tf.denoising_l2_regularizer(f * s, component, 1, np.array([400.0]))
            h = dict(tf.history)
            if np.std(h["frequency_responses"] / s) < 1e-6:
                h.pop("correlations")
            return h

        filt.scale_free(
            rec, run, f"l2 {component} {where} flow={f}",
            ("frequency_responses", "component_flow"),
        )  # fmt: skip
    for bad in ("", "gradient", "Curl", None, "harmonic"):
        snr = np.array([10.0])
        rec.check(
            raises(ValueError, tf.denoising_l2_regularizer, f, bad, 1, snr)
            and raises(ValueError, tf.denoising_l1_regularizer, f, bad, 1, snr)
            and raises(ValueError, tf.interpolation_l1_regularizer, f, bad, [0.5], 1),
            f"component {bad!r} was not refused",
        )
        rec.step(3)


def level(rec, f, noise, db, txt):
    """The noise has about the stated size (the draws are seeded, so the answer
    does not change from run to run; the bounds are far from any usual draw)."""
    for i, d in enumerate(db):
        size = np.sqrt(np.mean(noise[:, i] ** 2))
        want = np.linalg.norm(f) / 10 ** (d / 10) / len(f)
        rec.check(
            want / 30 < size < 6 * want,
            f"noise of {d} dB has size {size}, not {want}: {txt}",
        )


def objective(x, y, S, mu):
    return np.linalg.norm(x - y) + mu * np.sum(np.abs(S @ x))


def optimum(y, S, mu, fixed=None):
    """The optimal value of min |x - y| + mu |S x|_1, x = y on the fixed edges."""
    import cvxpy as cp

    x = cp.Variable(len(y))
    t = cp.Variable(S.shape[0]) if S.shape[0] else None
    cost, cons = cp.norm2(x - y), []
    if t is not None:
        cost = cost + mu * cp.sum(t)
        cons += [S @ x <= t, -(S @ x) <= t]
    if fixed is not None and len(fixed):
        cons.append(x[fixed] == y[fixed])
    p = cp.Problem(cp.Minimize(cost), cons)
    try:
        p.solve()
    except cp.error.SolverError:
        return None
    return p.value if p.status == "optimal" else None


def solved(fn, *a, **k):
    """False when the installed solver gives up (a numerical limit of its own)."""
    import cvxpy as cp

    try:
        fn(*a, **k)
        return True
    except cp.error.SolverError:
        return False


def part_l1(c, rec, tf, ref, E, where):
    f = list(filt.signals(E))[c["i"] % 3].astype(float)
    for component in ("divergence", "curl"):
        B, _ = mats(ref, component)
        if B.shape[0] == 0 and component == "curl":
            continue
        for order, mu in itertools.product(range(4), (None, 0.05, 2.0)):
            if (order + (mu == 2.0) + c["i"]) % 2:
                continue
            S = operator(ref, component, order).astype(float)
            m = 0.5 if mu is None else mu
            kw = {} if mu is None else {"regularization": mu}
            if order or c["i"] % 4 == 0:
                kw["order"] = order
            txt = f"l1 {component} {kw} {where} flow={f}"
            g = f.copy()
            rec.step()
            if not solved(
                tf.denoising_l1_regularizer, g, component, 1, np.array([400.0]), **kw
            ):
                continue
            fr = np.asarray(tf.history["frequency_responses"])
            if not rec.check(fr.shape == (E, 1, 1), f"shape {fr.shape}: {txt}"):
                return
            got, best = objective(fr[:, 0, 0], f, S, m), optimum(f, S, m)
            scale = np.linalg.norm(f)
            if best is None:
                continue
            if not rec.check(
                got <= best + 1e-4 * max(scale, 1),
                f"objective {got} is above the optimum {best}: {txt}",
            ):
                return
            consistent(rec, tf, B, f, fr, txt)
            rec.check(np.array_equal(g, f), f"input changed: {txt}")
            rec.trace()
            rec.outcome(component, order, mu, round(best, 4))
        if not noisy(rec, tf, ref, component, B, f, 1 + c["i"] % 3, where):
            return


def noisy(rec, tf, ref, component, B, f, order, where):
    """Several noise levels and realizations: without regularization the result is
    the noisy flow itself, and the same seed gives the same noise again."""
    E, db = len(f), np.array([-5.0, 12.0])
    S = operator(ref, component, order).astype(float)
    out = []
    for mu in (0.0, 0.7):
        np.random.seed(5)
        rec.step()
        if not solved(
            tf.denoising_l1_regularizer, f.copy(), component, 2, db, order, mu
        ):
            return True
        fr = np.asarray(tf.history["frequency_responses"])
        txt = f"l1 {component} order={order} mu={mu} snr={db} {where} flow={f}"
        if not rec.check(fr.shape == (E, 2, 2), f"shape {fr.shape}: {txt}"):
            return False
        consistent(rec, tf, B, f, fr, txt)
        out.append(fr)
    Y, X = out
    level(rec, f, Y - f[:, None, None], db, txt)
    rec.check(
        len({tuple(np.round(x, 5)) for x in Y.reshape(E, -1).T}) == 4,
        f"the realizations do not carry noise of their own: {txt}",
    )
    for a, b in itertools.product(range(2), repeat=2):
        y = Y[:, a, b]
        best = optimum(y, S, 0.7)
        got = objective(X[:, a, b], y, S, 0.7)
        if best is not None and not rec.check(
            got <= best + 1e-3 * max(np.linalg.norm(y), 1),
            f"level {a} realization {b}: objective {got} above the optimum {best}: {txt}",
        ):
            return False
    # many levels, many realizations
    for levels, runs in ((13, 2), (2, 17)):
        db = np.linspace(-5, 30, levels)
        np.random.seed(6)
        rec.step()
        if E > 12 or not solved(
            tf.denoising_l1_regularizer, f.copy(), component, runs, db, order, 0.7
        ):
            continue
        fr = np.asarray(tf.history["frequency_responses"])
        txt = f"l1 {component} order={order} snr={db} x {runs} {where} flow={f}"
        if not rec.check(fr.shape == (E, levels, runs), f"shape {fr.shape}: {txt}"):
            return False
        consistent(rec, tf, B, f, fr, txt)
    rec.trace()
    return True


def part_mask(c, rec, tf, ref, E, where):
    f = list(filt.signals(E))[c["i"] % 2].astype(float)
    for component in ("divergence", "curl"):
        B, _ = mats(ref, component)
        if B.shape[0] == 0 and component == "curl":
            continue
        for i, r in enumerate((0.2, 0.4, 0.55, 0.8, 1.0)):
            M = int(np.floor(E * r))
            if M < 1:
                continue
            order = (i + c["i"]) % 3
            mu = (None, 0.1, 1.5)[(i + E) % 3]
            kw = {} if mu is None else {"regularization": mu}
            if order:
                kw["order"] = order
            m = 0.5 if mu is None else mu
            S = operator(ref, component, order).astype(float)
            sets = list(itertools.combinations(range(E), M))
            if component == "curl" and len(sets) > 4:
                sets = sets[::3]
            txt = f"interpolation {component} ratio={r} {kw} {where} flow={f}"
            # all sets in one run of several realizations; one by one when the
            # solver gives up on one of them
            if observe(rec, tf, B, S, m, f, component, r, kw, sets, txt) is None:
                for s in sets:
                    if observe(rec, tf, B, S, m, f, component, r, kw, [s], txt) is False:
                        return
            rec.state(*gen.key(c), component, r, "sets")
        if not ratios(rec, tf, ref, component, B, f, c["i"] % 3, where):
            return
        if c["i"] % 8 == 3 and E >= 4:
            rs = (0.9, 0.3, 0.7, 0.25, 0.5, 0.6, 1.0, 0.4, 0.8, 0.26)
            rs, R = (rs, 3) if component == "curl" else (rs[:2], 12)
            if not ratios(rec, tf, ref, component, B, f, c["i"] % 3, where, rs, R):
                return


def part_ratios(c, rec, tf, ref, E, where):
    f = list(filt.signals(E))[c["i"] % 2].astype(float)
    for component in ("divergence", "curl"):
        B, _ = mats(ref, component)
        if B.shape[0]:
            if not ratios(rec, tf, ref, component, B, f, c["i"] % 3, where):
                return


def ratios(rec, tf, ref, component, B, f, order, where, rs=(0.8, 0.5, 1.0), R=2):
    """Several ratios and realizations in one run."""
    E, rs, N = len(f), list(rs), len(rs)
    S = operator(ref, component, order).astype(float)
    real, calls = np.random.choice, []

    def draw(*a, **k):
        calls.append(np.atleast_1d(real(*a, **k)))
        return calls[-1].copy()

    np.random.seed(3)
    np.random.choice = draw
    rec.step()
    try:
        if not solved(
            tf.interpolation_l1_regularizer, f.copy(), component, rs, R, order=order,
            regularization=0.3,
        ):  # fmt: skip
            return True
    finally:
        np.random.choice = real
    fr = np.asarray(tf.history["frequency_responses"])
    txt = f"interpolation {component} order={order} ratios={rs} {where} flow={f}"
    if not rec.check(fr.shape == (E, N, R), f"shape {fr.shape}: {txt}"):
        return False
    for i, j in itertools.product(range(N), range(R)):
        M, x = int(np.floor(E * rs[i])), fr[:, i, j]
        kept = np.abs(x - f) < 1e-4
        if not rec.check(np.sum(kept) >= M, f"ratio {rs[i]}: observed edges of {x}: {txt}"):
            return False
        if len(calls) != N * R or any(
            len(s) == E != M for s in calls[R * i : R * i + R]
        ):
            continue  # drawn in another way
        s = sorted(int(e) for e in calls[R * i + j])
        if not rec.check(
            len(s) == M and np.all(kept[s]), f"ratio {rs[i]}: observed {s}, {x}: {txt}"
        ):
            return False
        y = np.zeros(E)
        y[s] = f[s]
        best = optimum(y, S, 0.3, s)
        got = objective(x, y, S, 0.3)
        if best is not None and not rec.check(
            got <= best + 1e-4 * max(1, np.linalg.norm(f)),
            f"ratio {rs[i]}, edges {s}: objective {got} above the optimum {best}: {txt}",
        ):
            return False
    consistent(rec, tf, B, f, fr, txt)
    rec.trace()
    return True


def observe(rec, tf, B, S, m, f, component, r, kw, sets, txt):
    E, M = len(f), len(sets[0])
    real = np.random.choice
    calls = []

    def draw(a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        if replace or n != E or size != M or len(calls) >= len(sets):
            calls.append(None)
            return real(a, size, replace, p)
        s = np.array(sets[len(calls)])[::-1]
        calls.append(sets[len(calls)])
        return s if isinstance(a, (int, np.integer)) else np.asarray(a)[s]

    g = f.copy()
    np.random.choice = draw
    rec.step()
    try:
        if not solved(
            tf.interpolation_l1_regularizer, g, component, [r], len(sets), **kw
        ):
            return None
    finally:
        np.random.choice = real
    fr = np.asarray(tf.history["frequency_responses"])
    if not rec.check(fr.shape == (E, 1, len(sets)), f"shape {fr.shape}: {txt}"):
        return False
    known = len(calls) == len(sets) and None not in calls
    for j in range(len(sets)):
        x = fr[:, 0, j]
        if not known:
            if not rec.check(
                np.sum(np.abs(x - f) < 1e-4) >= M, f"observed edges: {x} {txt}"
            ):
                return False
            continue
        s = list(calls[j])
        y = np.zeros(E)
        y[s] = f[s]
        best = optimum(y, S, m, s)
        got = objective(x, y, S, m)
        if not rec.check(
            np.max(np.abs(x[s] - f[s])) < 1e-4,
            f"observed edges {s} are not kept: {x}: {txt}",
        ):
            return False
        if best is not None and not rec.check(
            got <= best + 1e-4 * max(1, np.linalg.norm(f)),
            f"edges {s}: objective {got} above the optimum {best}: {txt}",
        ):
            return False
        rec.outcome(component, r, tuple(s), round(best or 0, 4))
    consistent(rec, tf, B, f, fr, txt)
    rec.check(np.array_equal(g, f), f"input changed: {txt}")
    rec.trace(len(sets))
    return True
