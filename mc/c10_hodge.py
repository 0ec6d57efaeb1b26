"""C10: the Hodge decomposition splits every flow into its three components."""

import numpy as np

from . import gen
from .common import basis_flows, build, describe, mixed_flows, raises, ref_of, scaled_flows, unit_of
from .ref import close

CHUNK = 64
ASSUMPTIONS = [
    "at least one edge; flows are one-dimensional numeric arrays in edge order"
]
NAMES = ("gradient", "curl", "harmonic")


def bound(tier):
    return (
        "all labelled graphs on <=4 nodes x "
        + ("4 direction patterns" if tier == "quick" else "all directions")
        + " x all fillings x 2 edge orders; every graph on 5"
        + ("" if tier == "quick" else ", 6 and 7")
        + " nodes up to isomorphism; structured families and larger complexes up to 360 edges; a unit flow on every edge "
        "(the decomposition is linear) and three mixed flows, in units of 1e-12, 1 and 1e9; no rounding, default "
        "rounding and 0 to 4, 9 and 12 digits; method and function form"
    )


def items(tier):
    def raw():
        if tier == "quick":
            for n in (2, 3, 4):
                for g in gen.labelled_graphs(n):
                    cl = gen.cliques3(n, g)
                    for pat in ("fwd", "rev", "mix", "cyc"):
                        for how in ("sorted", "riffle"):
                            for ts in gen.subsets(cl):
                                yield gen.cx(
                                    n, gen.reorder(gen.orient(g, pat), how), ts
                                )
        else:
            for n in (2, 3, 4):
                yield from gen.exhaustive(n, ("sorted", "riffle"))
        for n, g in gen.atlas(5, 5 if tier == "quick" else 7):
            yield from gen.variants(
                n, g, ("alt", "mix"), ("sorted", "riffle"), ("all", "odd")
            )
        yield from gen.family_items(
            patterns=("fwd", "mix"), relabel=(0, 2), big=tier != "quick"
        )
        yield from gen.huge_items()

    for c in gen.dedupe(raw()):
        if c["e"]:
            yield c


def run_item(c, rec):
    from pytspl.decomposition import eigendecomposition as eig
    from pytspl.decomposition import hodge_decomposition as hd

    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
    wB2 = ref.B2.astype(float).copy()
    pos = {frozenset(e): i for i, e in enumerate(ref.edges)}
    for j, (a, b, _) in enumerate(ref.tris):
        wB2[:, j] *= np.sign(wB2[pos[frozenset((a, b))], j])
    proj = dict(zip(NAMES, ref.projectors()))
    mixed = list(mixed_flows(E))
    mixed += list(scaled_flows(E))
    flows = mixed + list(basis_flows(E, None if E <= 24 else 24))
    for n_f, f in enumerate(flows):
        full = n_f < len(mixed) or n_f % 5 == 0
        g = f.copy()
        unit = unit_of(f)
        scale = max(unit, float(np.max(np.abs(f))))
        tol = 1e-5 if f.dtype == np.float32 else 1e-8
        total = np.zeros(E)
        for name in NAMES:
            want = proj[name] @ f
            out = np.asarray(
                sc.get_component_flow(g, component=name, round_fig=False), dtype=float
            )
            rec.step()
            if not rec.check(
                close(out / unit, want / unit, tol),
                lambda: f"{name} component is {out}, not {want}: {where} flow={f}",
            ):
                return
            total = total + out
            if not full:
                continue
            fn, mats = {
                "gradient": (hd.get_gradient_flow, (B1,)),
                "curl": (hd.get_curl_flow, (B2,)),
                "harmonic": (hd.get_harmonic_flow, (B1, B2)),
            }[name]
            out = fn(*mats, g, round_fig=False)
            rec.check(close(out / unit, want / unit, tol), f"{name} function: {where} flow={f}")
            variants = [(2, sc.get_component_flow(g, component=name)), (2, fn(*mats, g))]
            for d in range(5) if unit == 1.0 else (9, 12):
                variants.append(
                    (d, sc.get_component_flow(g, component=name, round_sig_fig=d))
                )
                variants.append((d, fn(*mats, g, round_sig_fig=d)))
            for d, out in variants:
                rec.step()
                out = np.asarray(out, dtype=float)
                ok = (
                    out.shape == want.shape
                    and np.max(np.abs(out - want)) <= 0.5 * 10**-d + 10 * tol * scale
                    and np.max(np.abs(out - np.round(out, d))) <= 1e-9 * max(1.0, scale)
                    and (unit > 1 or np.max(np.abs(out - np.round(out, d))) <= 0.01 * 10.0**-d)
                )
                if not rec.check(
                    ok,
                    lambda: f"{name} component to {d} digits is {out}, exact {want}: "
                    f"{where} flow={f}",
                ):
                    return
        rec.check(
            close(total / unit, f / unit, tol), f"components do not add up: {where} flow={f}"
        )
        if full:
            out = np.asarray(sc.get_component_flow(g, round_fig=False), dtype=float)
            rec.check(
                close(out / unit, proj["gradient"] @ f / unit, tol),
                f"the default component is not the gradient: {where} flow={f}",
            )
        for what, out, want in (
            ("divergence", sc.get_divergence(g), ref.B1 @ f),
            ("curl", sc.get_curl(g), wB2.T @ f),
            ("divergence function", eig.get_divergence(B1, g), ref.B1 @ f),
            ("curl function", eig.get_curl(B2, g), wB2.T @ f),
            ("divergence function, dense", eig.get_divergence(B1.toarray(), g), ref.B1 @ f),
            ("curl function, dense", eig.get_curl(B2.toarray(), g), wB2.T @ f),
        ):
            rec.step()
            rec.check(
                close(np.asarray(out) / unit, want / unit, 1e-10 * tol * 1e8),
                lambda: f"{what} is {out}, not {want}: {where} flow={f}",
            )
        rec.check(np.array_equal(g, f), f"the flow was changed: {where} flow={f}")
        rec.outcome(tuple(np.round(proj["gradient"] @ f, 5)[:4]))
        rec.trace()
    for bad in ("", "Gradient", "divergence", "gradient ", None, "curl\n"):
        rec.step()
        rec.check(
            raises(ValueError, sc.get_component_flow, flows[0], component=bad),
            f"component {bad!r} was not refused",
        )
    rec.sample(f"{where}: {len(flows)} flows")
