"""C18: the edge kernels are the stated functions of the Hodge Laplacian."""

import itertools

import numpy as np

from . import gen
from .common import build, describe, raises, ref_of
from .c11_eigen import eigenspaces
from .ref import close

CHUNK = 4
ASSUMPTIONS = [
    "single precision: kernels are compared to 2e-4 of the largest entry",
    "at least one edge; spectra are well above the tolerance of the eigenpairs",
    "the harmonic part of the Laplacian kernel is regularised by 1e-3, as released",
]
TOL = 2e-4


def _pw(mu, kappa):
    return lambda lam: (2 * mu / kappa**2 + lam) ** (-mu)


# name -> (parameters, weights and spectral functions of the three components)
KERNELS = {
    "diffusion": (
        ("kappa_down", "kappa_up", "h", "h_down", "h_up"),
        lambda p: (
            (p["h"], lambda x: np.exp(-x)),
            (p["h_down"], lambda x: np.exp(-p["kappa_down"] * x)),
            (p["h_up"], lambda x: np.exp(-p["kappa_up"] * x)),
        ),
    ),
    "diffusion_non_hc": (
        ("kappa_down",),
        lambda p: (
            (1, lambda x: np.exp(-x)),
            (1, lambda x: np.exp(-p["kappa_down"] * x)),
            (1, lambda x: np.exp(-p["kappa_down"] * x)),
        ),
    ),
    "matern": (
        ("mu", "kappa", "mu_down", "kappa_down", "mu_up", "kappa_up", "h",
         "h_down", "h_up"),
        lambda p: (
            (p["h"], lambda x: p["mu"] + 0 * x),
            (p["h_down"], _pw(p["mu_down"], p["kappa_down"])),
            (p["h_up"], _pw(p["mu_up"], p["kappa_up"])),
        ),
    ),
    "matern_non_hc": (
        ("mu_down", "kappa_down"),
        lambda p: ((1, _pw(p["mu_down"], p["kappa_down"])),) * 3,
    ),
    "laplacian": (
        ("mu", "kappa_down", "kappa_up"),
        lambda p: (
            (p["mu"], lambda x: 1 / (1e-3 + x)),
            (p["kappa_down"], lambda x: 1 / x),
            (p["kappa_up"], lambda x: 1 / x),
        ),
    ),
}  # fmt: skip
REFUSED = [
    ("laplacian_non_hc", "forex"),
    ("rbf", "forex"),
    ("", "forex"),
    ("Matern", "forex"),
    ("matern", "FOREX"),
    ("matern", "wsn"),
    ("matern", ""),
    ("nothing", "nothing"),
]
DEFAULT = float(np.log(2.0))


def bound(tier):
    return (
        ("12" if tier == "quick" else "73")
        + " complexes (with and without each component) and the eigenpairs of the "
        "trainer x 5 kernels x {defaults, each parameter at 4 values, while training and evaluating, in steps of 0.04% against a new kernel, all set "
        "apart, one component alone with shape parameters from 0.001 to 100}; the product of 2 values of all parameters on "
        + ("one" if tier == "quick" else "four")
        + " complexes x full, reordered, repeated, single, rectangular index sets, "
        "with and without the second index set, diagonal only; 8 refused names"
    )


def pool(tier):
    quick = tier == "quick"
    out = [
        gen.cx(2, [(1, 0)], []),
        gen.cx(3, [(0, 1), (2, 1), (0, 2)], []),
        gen.cx(3, [(0, 1), (2, 1), (0, 2)], [(0, 1, 2)]),
        gen.cx(4, [(0, 1), (1, 2), (2, 3), (3, 0)], []),
        gen.cx(4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)], [(0, 1, 2)]),
        gen.cx(5, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 4), (4, 0)],
               [(0, 1, 2), (1, 2, 3)]),
        gen.cx(6, [(0, 1), (0, 2), (1, 2), (3, 4), (4, 5), (3, 5)],
               [(0, 1, 2)]),
        gen.cx(4, gen.labelled_graphs_full(4), gen.cliques3(4, gen.labelled_graphs_full(4))),
    ]  # fmt: skip
    fam = list(
        gen.family_items(patterns=("mix",), orders=("riffle",), fills=("odd",),
                         relabel=(0,), max_edges=40)
    )  # fmt: skip
    out += fam[5:6] if quick else fam
    out += list(gen.dedupe(gen.variants(
        22, sorted(tuple(sorted((i, (i + k) % 22))) for i in range(22) for k in (1, 2)),
        ("mix",), ("riffle",), ("odd",))))
    out += list(gen.variants(60, [(i, i + 1) for i in range(59)], ("mix",), ("riffle",), ("all",)))
    n = 16 if quick else 24
    g = gen.labelled_graphs_full(n)
    out += list(gen.variants(n, g, ("mix",), ("riffle",), ("odd",)))
    if not quick:
        for n, g in gen.atlas(4, 5):
            if g:
                out += list(gen.variants(n, g, ("mix",), ("rotated",), ("all",)))
    return list(gen.dedupe(out))


def items(tier):
    yield {"refuse": True}
    for i, c in enumerate(pool(tier)):
        for k in KERNELS:
            yield {"c": c, "kernel": k, "grid": False}
    for c in pool("quick")[5:6] if tier == "quick" else pool("quick")[4:8]:
        for k, (names, _) in KERNELS.items():
            combos = list(itertools.product((0.4, 2.1), repeat=len(names)))
            step = 64
            for a in range(0, len(combos), step):
                yield {"c": c, "kernel": k, "grid": combos[a : a + step]}


def refuse(rec):
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    from pytspl.hogde_gp.kernels import Kernels

    pairs = [None] * 6
    for kernel, data in REFUSED:
        rec.state("refuse", kernel, data)
        rec.step()
        rec.check(
            raises(ValueError, KernelSerializer().serialize, eigenpairs=pairs,
                   kernel_type=kernel, data_name=data),
            f"kernel {kernel!r} for data {data!r} is not refused",
        )  # fmt: skip
    names = Kernels.get_names()
    rec.check(
        sorted(names) == sorted([*KERNELS, "laplacian_non_hc"]),
        f"kernel names {names}",
    )
    rec.trace()


def indices(E):
    a = list(range(E))
    yield a
    yield a[::-1]
    yield [E - 1]
    yield a[::2] + a[:1]
    yield [0, 0, E // 2]


def extremes(kind, names, spaces):
    """Parameters of every size; the other components are weighted away, so that
    small values can be told apart, and nothing leaves single precision."""
    weights = ("mu", "kappa_down", "kappa_up") if kind == "laplacian" else (
        "h", "h_down", "h_up")  # fmt: skip
    grid = {"mu": (0.05, 6.0, 30.0), "kappa": (0.001, 0.4, 8.0, 100.0)}
    if kind.endswith("non_hc"):
        shapes = [names]
        fixed = [{}]
    else:
        shapes = [[n for n in names if n not in weights
                   and n.endswith(w.removeprefix("h")) and (w != "h" or n == "mu")]
                  for w in weights]  # fmt: skip
        if kind == "laplacian":
            shapes = [[], [], []]
        fixed = [
            {**dict.fromkeys(names, 1.0), **dict.fromkeys(weights, 1e-20), w: v}
            for w in weights
            for v in (0.02, 1.0, 300.0)
        ]
        shapes = [s for s in shapes for _ in range(3)]
    spec = KERNELS[kind][1]
    lam = [v for sp in spaces for v, _, _ in sp if v > 0]
    for base, free in zip(fixed, shapes):
        for vals in itertools.product(*(grid[n.split("_")[0]] for n in free)):
            p = {**dict.fromkeys(names, 1.0), **base, **dict(zip(free, vals))}
            if any(
                "mu" in n
                and "matern" in kind
                and 2 * p[n] / p[n.replace("mu", "kappa")] ** 2 + min(lam, default=1) < 0.3
                for n in names
            ):
                continue
            big = max(
                [w * f(v) for sp, (w, f) in zip(spaces, spec(p)) for v, _, _ in sp],
                default=0,
            )
            if 1e-16 < big < 1e20:
                yield p


def run_item(item, rec):
    import torch

    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    if "refuse" in item:
        return refuse(rec)

    c, kind = item["c"], item["kernel"]
    sc, ref = build(c), ref_of(c)
    names, spec = KERNELS[kind]
    E = len(ref.edges)
    spaces = (
        [x for x in eigenspaces(ref.L1) if x[0] == 0.0],
        [x for x in eigenspaces(ref.L1L) if x[0] > 0.0],
        [x for x in eigenspaces(ref.L1U) if x[0] > 0.0],
    )
    if min((v for v, _, _ in spaces[1] + spaces[2]), default=1) < 2e-3:
        return
    trainer = HodgeGPTrainer(sc=sc, y=np.zeros(E))
    kernel = KernelSerializer().serialize(
        eigenpairs=trainer.get_eigenpairs(), kernel_type=kind, data_name="forex"
    )

    def want(p):
        K = np.zeros((E, E))
        for sp, (w, f) in zip(spaces, spec(p)):
            for lam, P, _ in sp:
                K = K + w * f(lam) * P
        return K

    def col(ix):
        return torch.tensor(ix, dtype=torch.float32).unsqueeze(-1)

    def out(t):
        if hasattr(t, "to_dense"):
            t = t.to_dense()
        return np.asarray(t.detach().numpy(), dtype=float)

    def read():
        return {k: float(getattr(kernel, k).detach().reshape(-1)[0]) for k in names}

    def look(p, where, deep):
        rec.state(*gen.key(c), kind, tuple(sorted(p.items())))
        where = f"{kind} {p} {where}: {describe(c)}"
        got = read()
        if not rec.check(
            all(abs(got[k] - p[k]) <= 1e-4 * max(1, p[k]) for k in names),
            lambda: f"parameters read back as {got}: {where}",
        ):
            return False
        K = want(p)
        scale = max(1e-12, np.abs(K).max())

        def same(a, b, what):
            rec.step()
            a = np.asarray(a)
            return rec.check(
                a.shape == b.shape
                and bool(np.all(np.isfinite(a)))
                and (a.size == 0 or float(np.abs(a - b).max()) <= TOL * scale),
                lambda: f"{what} is {np.round(a, 5).tolist()}, expected "
                f"{np.round(b, 5).tolist()}: {where}",
            )

        ok = True
        for k, sp, (_, f) in zip(kernel.covar_matrix, spaces, spec(p)):
            k = np.sort(np.asarray(k.detach(), dtype=float).ravel())
            vals = np.sort([float(f(v)) for v, _, m in sp for _ in range(m)])
            rec.step()
            ok = ok and rec.check(
                k.shape == vals.shape
                and np.all(np.isfinite(k))
                and np.all(np.abs(k - vals) <= 1e-3 * np.abs(vals) + 1e-30),
                lambda: f"spectral values {k}, expected {vals}: {where}",
            )
        with torch.no_grad():
            every = list(indices(E)) if deep else [list(range(E))]
            for ix in every:
                x = col(ix)
                sub = K[np.ix_(ix, ix)]
                ok = ok and same(out(kernel(x)), sub, f"kernel(x), x={ix}")
                ok = ok and same(out(kernel(x, x)), sub, f"kernel(x, x), x={ix}")
                if not deep:
                    continue
                ok = (
                    ok
                    and same(out(kernel.forward(x)), sub, f"forward(x), x={ix}")
                    and same(
                        out(kernel(x, diag=True)), np.diag(sub), f"diagonal, x={ix}"
                    )
                    and same(
                        out(kernel.forward(x, x, diag=True)), np.diag(sub),
                        f"forward diagonal, x={ix}",
                    )
                )  # fmt: skip
                for iy in every:
                    if iy is not ix:
                        ok = ok and same(
                            out(kernel(x, col(iy))), K[np.ix_(ix, iy)],
                            f"kernel(x, y), x={ix} y={iy}",
                        )  # fmt: skip
        rec.trace()
        rec.outcome(np.round(K, 6).tobytes())
        return ok

    def assign(p):
        for k in names:
            setattr(kernel, k, p[k])

    base = {k: DEFAULT for k in names}
    if item["grid"]:
        for combo in item["grid"]:
            p = dict(zip(names, combo))
            assign(p)
            if not look(p, "grid", False):
                return
        return

    if not look(base, "defaults", True):
        return
    for k in names:
        for training, v in ((True, 0.25), (False, 1.7), (False, 4.0), (True, 0.8)):
            p = dict(base)
            p[k] = v
            kernel.train(training)
            setattr(kernel, k, v)
            if not look(p, f"one parameter set, training={training}", False):
                return
        setattr(kernel, k, DEFAULT)
    for order in (names, names[::-1]):
        p = {k: 0.3 + 0.45 * i for i, k in enumerate(order)}
        assign(p)
        if not look(p, "all set", True):
            return
        # tensors are accepted as values too
        for k in names:
            setattr(kernel, k, torch.tensor([[p[k]]]))
        if not look(p, "all set as tensors", False):
            return
    # small steps: the kernel gives what a new one with these parameters gives
    for training, k in itertools.product((True, False), names):
        assign(base)
        kernel.train(training)
        for v in (1.0, 1.004, 1.0004, 1.0):
            setattr(kernel, k, v * base[k])
            fresh = KernelSerializer().serialize(
                eigenpairs=trainer.get_eigenpairs(), kernel_type=kind, data_name="forex"
            )
            fresh.train(training)
            for n in names:
                setattr(fresh, n, v * base[n] if n == k else base[n])
            x = col(list(range(E)))
            with torch.no_grad():
                K, F = out(kernel(x)), out(fresh(x))
            rec.step()
            if not rec.check(
                K.shape == F.shape and np.abs(K - F).max() <= 1e-6 * np.abs(F).max(),
                f"after a small step {k}={v * base[k]} differs from a new kernel, "
                f"training={training}: {kind} {describe(c)}",
            ):
                return
    kernel.train()
    for p in extremes(kind, names, spaces):
        assign(p)
        if not look(p, "one component alone", False):
            return
    rec.sample(f"{kind}: {describe(c)}")
