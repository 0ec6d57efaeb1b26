"""C03: k-step shifting applies the operator exactly k times."""

import numpy as np

from . import gen
from .common import basis_flows, build, describe, mixed_flows, ref_of, scaled_flows, unit_of
from .ref import close

CHUNK = 64
ASSUMPTIONS = ["at least one edge; flows are one-dimensional arrays in edge order"]


def bound(tier):
    s = 6 if tier == "quick" else 9
    return (
        f"every step count 0..{s} (0..{20 if tier == 'quick' else 24} on every graph of "
        "3 and 4 nodes up to isomorphism); all labelled graphs on <=4 nodes x 3 direction "
        "patterns x all fillings; every graph on 5"
        + ("" if tier == "quick" else ", 6 and 7")
        + " nodes up to isomorphism; structured families and larger complexes up to 350 edges; a unit flow on every "
        "edge and three mixed flows (float, int, decimal), in units of 1e-12, 1 and 1e9"
    )


def items(tier):
    def raw():
        for n in (2, 3, 4):
            for g in gen.labelled_graphs(n):
                cl = gen.cliques3(n, g)
                for pat in ("fwd", "mix", "cyc"):
                    for ts in gen.subsets(cl):
                        if g:
                            yield gen.cx(n, gen.orient(g, pat), ts)
        for n, g in gen.atlas(5, 5 if tier == "quick" else 7):
            if g:
                yield from gen.variants(
                    n, g, ("alt", "mix"), ("sorted", "riffle"), ("all", "odd")
                )
        yield from gen.family_items(patterns=("fwd", "mix"), relabel=(0,))

    steps = 6 if tier == "quick" else 9
    for c in gen.dedupe(raw()):
        yield dict(c, steps=steps)
    # many steps on integer flows (exact in floating point whatever the order of
    # the multiplications: 4**24 * 5 < 2**53), larger complexes
    many = 20 if tier == "quick" else 24
    for n, g in gen.atlas(3, 4):
        for c in gen.variants(n, g, ("mix",), ("sorted",), ("all",)):
            if g:
                yield dict(c, steps=many, ints=True)
    for c in gen.huge_items():
        yield dict(c, steps=3)


def run_item(c, rec):
    sc, ref = build(c), ref_of(c)
    rec.state(*gen.key(c))
    where = describe(c)
    E = len(ref.edges)
    ops = (
        ("lower", sc.apply_lower_shifting, ref.L1L, 0, 1),
        ("upper", sc.apply_upper_shifting, ref.L1U, 0, 1),
        ("k-step", sc.apply_k_step_shifting, ref.L1, 1, 2),
    )
    flows = list(mixed_flows(E)) + list(basis_flows(E, 12)) + list(scaled_flows(E))
    if c.get("ints"):
        flows = [f for f in flows if np.array_equal(f, np.round(f))]
    for f in flows:
        unit = unit_of(f)
        tol = 1e-4 if f.dtype == np.float32 else 1e-9
        for name, fn, L, lo, default in ops:
            # the model: exact integers (or floats) multiplied k times
            want = [f.astype(float)]
            for _ in range(c["steps"]):
                want.append(L @ want[-1])
            for k in range(lo, c["steps"] + 1):
                g = f.copy()
                out = np.asarray(fn(g, steps=k), dtype=float)
                rec.step()
                if not rec.check(
                    close(out / unit, want[k] / unit, tol),
                    lambda: f"{name} shift by {k} is not the operator applied {k} "
                    f"times: {where} flow={f}",
                ):
                    return
                if not rec.check(
                    np.array_equal(g, f), lambda: f"{name} shift changed its input"
                ):
                    return
            out = np.asarray(fn(f.copy()), dtype=float)
            rec.step()
            rec.check(
                close(out / unit, want[default] / unit, tol),
                f"default {name} shift is not {default} step(s): {where} flow={f}",
            )
            rec.outcome(name, tuple(np.round(want[-1], 6)[:4]))
        rec.trace(3)
    rec.sample(f"{where}: lower/upper/k-step shifts, 0..{c['steps']} steps")
