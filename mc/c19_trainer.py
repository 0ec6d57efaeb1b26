"""C19: the edge GP trainer splits, trains and predicts as stated."""

import contextlib
import io
import itertools
import re

import numpy as np

from . import filt, gen
from .c11_eigen import eigenspaces
from .common import build, describe, distinct, raises, ref_of
from .ref import close

CHUNK = 1
ASSUMPTIONS = [
    "single precision: results are compared to 1e-3 of the largest entry",
    "gpytorch, torch and scikit-learn are trusted; exact inference (no sampling)",
    "training sets of at least two edges, test sets of at least two edges where "
    "prediction metrics are computed",
]
TOL = 1e-3


def bound(tier):
    return (
        "splits: every size 2..%d (and 90%s) x 8 ratios x %d seeds x with and without "
        "normalisation x real and integer flows; all histories of length <= %d over "
        "{train 1 step, train 3 steps, predict, read parameters, build kernel, split, split otherwise} "
        "on %s, 6 histories of 28 of them; the 4 kernels x 2 means x 0..3 training steps with a recording "
        "optimiser; 9 assignments of distinct values to all parameters on 6 complexes, with predictions of 4 edge sets and the printed metrics; two models of one trainer; all sequences of 3 of 11 requests for splits, matrices and eigenpairs to one trainer; 1200, 270 (each one compared), 40 and 3 steps at rates from 1e-6 to 2 and training by default; matrices and eigenpairs on all labelled graphs on <= %d nodes and complexes with up to 130 edges"
        % (
            (14, " and 300", 4, 3, "one complex", 3)
            if tier == "quick"
            else (40, ", 300 and 1100", 10, 4, "three complexes", 4)
        )
    )


SMALL = gen.cx(5, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 4), (4, 0)],
               [(0, 1, 2), (1, 2, 3)])  # fmt: skip
OTHERS = [
    gen.cx(6, [(0, 1), (2, 1), (0, 2), (3, 2), (3, 4), (5, 4), (5, 3), (5, 0)],
           [(0, 1, 2)]),
    gen.cx(5, [(4, 3), (3, 2), (2, 1), (1, 0), (4, 0), (4, 2)], [(2, 3, 4)]),
]  # fmt: skip
OPS = ("train1", "train3", "predict", "params", "kernel", "split", "resplit")
LINE = gen.cx(4, [(1, 0), (1, 2), (3, 2)], [])
RING = gen.cx(5, [(0, 1), (2, 1), (2, 3), (4, 3), (0, 4)], [])
FULL = gen.cx(4, gen.labelled_graphs_full(4), gen.cliques3(4, gen.labelled_graphs_full(4)))


def items(tier):
    quick = tier == "quick"
    for E in range(2, 15 if quick else 41):
        yield {"what": "split", "E": E, "seeds": 4 if quick else 10}
    for E in (90, 300) if quick else (90, 300, 1100):
        yield {"what": "split", "E": E, "seeds": 2}
    comps = [SMALL] if quick else [SMALL, *OTHERS]
    depth = 3 if quick else 4
    for c in comps:
        for first in itertools.product(OPS, repeat=depth - 1):
            yield {"what": "history", "c": c, "first": list(first)}
    for step in (1, 2, 3, 4, 5, 6):
        ops = [OPS[(i * step + i // 7) % 7] for i in range(27)]
        yield {"what": "history", "c": OTHERS[step % 2], "first": ops, "last": OPS[:1]}
    for c in [SMALL, OTHERS[0]] if quick else comps:
        for kind in ("matern", "diffusion", "matern_non_hc", "diffusion_non_hc"):
            for mean in ("zero", None):
                yield {"what": "fit", "c": c, "kernel": kind, "mean": mean}
    for c in [SMALL] if quick else comps:
        yield {"what": "asked", "c": c}
    # parameters of every size, on complexes with and without each component
    for c in [SMALL, LINE, RING, FULL, *OTHERS]:
        yield {"what": "set", "c": c}
        if len(c["e"]) >= 5:
            yield {"what": "two", "c": c}
    # until nothing moves any more, in steps of any size, and by default
    for i, kind in enumerate(("matern", "diffusion", "matern_non_hc", "diffusion_non_hc")):
        yield {"what": "long", "c": SMALL, "kernel": kind, "mean": (None, "zero")[i % 2]}
    for n in (2, 3) if quick else (2, 3, 4):
        for g in gen.labelled_graphs(n):
            if g:
                for pat in ("mix", "rev"):
                    for ts in gen.subsets(gen.cliques3(n, g)):
                        yield {"what": "mats", "c": gen.cx(n, gen.orient(g, pat), ts)}
    for c in [SMALL, *OTHERS, *filt.larger()]:
        yield {"what": "mats", "c": c}
    if not quick:
        for n, g in gen.atlas(5, 6):
            if g:
                for c in gen.variants(n, g, ("mix",), ("rotated",), ("odd",)):
                    yield {"what": "mats", "c": c}


def flow(E):
    i = np.arange(E)
    return np.sin(1 + 2.3 * i) * 3 + 0.5


def arr(t):
    if hasattr(t, "to_dense"):
        t = t.to_dense()
    return np.asarray(t.detach().numpy(), dtype=float)


def near(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return a.size == 0 or bool(
        np.all(np.isfinite(a)) and np.abs(a - b).max() <= tol * max(1, np.abs(b).max())
    )


# --------------------------------------------------------------------- splits
def run_split(item, rec):
    from pytspl.hogde_gp import HodgeGPTrainer

    E = item["E"]
    # a path, a cycle closing edge when it fits: E edges in a fixed order
    c = gen.cx(E + 1, [(i, i + 1) if i % 2 else (i + 1, i) for i in range(E)], [])
    sc = build(c)
    flows = {"real": flow(E), "int": np.array([(7 * i) % 11 - 4 for i in range(E)])}
    for name, y in flows.items():
        keep = y.copy()
        splits = {}
        for ratio in (0.1, 0.2, 0.25, 0.5, 0.6, 0.75, 0.8, 0.9):
            k = int(np.floor(ratio * E + 1e-12))
            if k < 1 or k == E:
                continue
            for seed in range(item["seeds"]):
                where = f"{E} edges, ratio {ratio}, seed {seed}, {name} flow"
                rec.state(E, ratio, seed, name)
                rec.trace()
                t = HodgeGPTrainer(sc=sc, y=y)
                rec.step(2)
                res = t.train_test_split(train_ratio=ratio, seed=seed)
                xa, ya, xb, yb, x, yy = (arr(v) for v in res)
                ia, ib = xa.astype(int), xb.astype(int)
                ok = (
                    rec.check(
                        np.array_equal(x, np.arange(E)) and near(yy, y, 1e-6),
                        f"full data x={x}, y={yy}: {where}",
                    )
                    and rec.check(
                        sorted([*ia, *ib]) == list(range(E))
                        and np.array_equal(ia, xa)
                        and np.array_equal(ib, xb),
                        f"train {xa} and test {xb} do not partition the edges: {where}",
                    )
                    and rec.check(
                        len(ia) == k, f"{len(ia)} training edges, expected {k}: {where}"
                    )
                    and rec.check(
                        near(ya, y[ia], 1e-6) and near(yb, y[ib], 1e-6),
                        f"targets {ya} {yb} of edges {ia} {ib} in {y}: {where}",
                    )
                    and rec.check(
                        np.array_equal(y, keep), f"the flow was changed: {where}"
                    )
                    and rec.check(
                        all(
                            near(arr(getattr(t, n)), v, 1e-6)
                            for n, v in zip(
                                ("x_train", "y_train", "x_test", "y_test"),
                                (xa, ya, xb, yb),
                            )
                        ),
                        f"the trainer keeps another split: {where}",
                    )
                )
                if not ok:
                    return
                again = [
                    arr(v) for v in t.train_test_split(train_ratio=ratio, seed=seed)
                ]
                rec.check(
                    all(np.array_equal(a, arr(b)) for a, b in zip(again, res)),
                    f"the same seed gives another split: {where}",
                )
                splits.setdefault(ratio, set()).add(tuple(ia))
                if k >= 2 and np.std(y[ia]) > 1e-9:
                    rec.step()
                    m, s = np.mean(y[ia]), np.std(y[ia], ddof=1)
                    r = [
                        arr(v)
                        for v in t.train_test_split(
                            train_ratio=ratio, seed=seed, data_normalization=True
                        )
                    ]
                    rec.check(
                        np.array_equal(r[0], xa)
                        and np.array_equal(r[2], xb)
                        and near(r[1], (y[ia] - m) / s, 1e-4)
                        and near(r[3], (y[ib] - m) / s, 1e-4)
                        and near(r[5], (y - m) / s, 1e-4)
                        and np.array_equal(r[4], x),
                        f"normalised split {r}: {where}",
                    )
                    rec.check(
                        np.array_equal(y, keep),
                        f"normalising changed the flow: {where}",
                    )
        if E >= 8:
            rec.check(
                len(splits[0.5]) > 1, f"every seed gives the same split: {E} edges"
            )
    # the default call: 80 %, not normalised, reproducible
    if E >= 2:
        t1 = HodgeGPTrainer(sc=sc, y=flows["real"]).train_test_split()
        t2 = HodgeGPTrainer(sc=sc, y=flows["real"]).train_test_split()
        rec.check(
            all(np.array_equal(arr(a), arr(b)) for a, b in zip(t1, t2))
            and len(t1[0]) == max(1, int(0.8 * E + 1e-9)),
            f"default split: {E} edges",
        )
    rec.outcome(E)
    rec.sample(f"splits of {E} edges")


def run_asked(item, rec):
    """Any two requests to one trainer are answered like those of two trainers."""
    from pytspl.hogde_gp import HodgeGPTrainer

    c = item["c"]
    y = flow(len(c["e"]))
    base = {"train_ratio": 0.6, "data_normalization": False, "seed": 3}
    asks = [("train_test_split", base)]
    for k, v in (("train_ratio", 0.5), ("train_ratio", 0.8), ("data_normalization", True),
                 ("seed", 4), ("seed", 11)):  # fmt: skip
        asks.append(("train_test_split", {**base, k: v}))
    asks += [("get_eigenpairs", {"tolerance": v}) for v in (1e-3, 2.5, 3.5)]
    asks += [("get_laplacians", {}), ("get_incidence_matrices", {})]

    def ask(t, i):
        rec.step()
        return [arr(v) for v in getattr(t, asks[i][0])(**asks[i][1])]

    fresh = [ask(HodgeGPTrainer(sc=build(c), y=y), i) for i in range(len(asks))]
    for i, j, k in itertools.product(range(len(asks)), repeat=3):
        t = HodgeGPTrainer(sc=build(c), y=y.copy())
        rec.state("asked", *gen.key(c), i, j, k)
        rec.trace()
        for n in (i, j, k):
            got = ask(t, n)
            if not rec.check(
                len(got) == len(fresh[n])
                and all(near(a, b, 1e-6) for a, b in zip(got, fresh[n])),
                lambda: f"{asks[n]} answers {got}, another trainer {fresh[n]}: after "
                f"{[asks[m] for m in (i, j, k)]}: {describe(c)}",
            ):
                return


# ------------------------------------------------------------ matrices, pairs
def run_mats(item, rec):
    import torch

    from pytspl.hogde_gp import HodgeGPTrainer

    c = item["c"]
    sc, ref = build(c), ref_of(c)
    rec.state("mats", *gen.key(c))
    rec.trace()
    where = describe(c)
    t = HodgeGPTrainer(sc=sc, y=flow(len(ref.edges)))
    rec.step(2)
    ls = t.get_laplacians()
    rec.check(
        len(ls) == 3
        and all(isinstance(m, torch.Tensor) for m in ls)
        and all(near(arr(a), b, 1e-6) for a, b in zip(ls, (ref.L1, ref.L1L, ref.L1U))),
        lambda: f"laplacians {[arr(a).tolist() for a in ls]}: {where}",
    )
    bs = [arr(b) for b in t.get_incidence_matrices()]
    rec.check(
        len(bs) == 2
        and near(bs[0], ref.B1, 1e-6)
        and near(np.abs(bs[1]), np.abs(ref.B2), 1e-6)
        and near(bs[1] @ bs[1].T, ref.L1U, 1e-6)
        and not np.any(ref.B1 @ bs[1]),
        lambda: f"incidence matrices {[b.tolist() for b in bs]}: {where}",
    )
    mats = {"harmonic": ref.L1, "gradient": ref.L1L, "curl": ref.L1U}
    spaces = {k: eigenspaces(m) for k, m in mats.items()}
    vals = distinct([v for s in spaces.values() for v, _, _ in s])
    cuts = [None] + [(a + b) / 2 for a, b in zip(vals, vals[1:]) if b - a > 1e-2][:4]
    for cut in cuts:
        rec.step()
        p = t.get_eigenpairs() if cut is None else t.get_eigenpairs(tolerance=cut)
        tol = 1e-3 if cut is None else cut
        if not rec.check(len(p) == 6, f"{len(p)} eigenpair tensors: {where}"):
            return
        for name, U, lam in zip(("harmonic", "gradient", "curl"), p[:3], p[3:]):
            U, lam = arr(U), arr(lam)
            want = [
                s for s in spaces[name] if (s[0] <= tol) == (name == "harmonic")
            ]
            n = sum(m for _, _, m in want)
            good = U.shape == (len(ref.edges), n) and lam.shape == (n,)
            for v, P, _ in want if good else []:
                S = U[:, np.abs(lam - v) < 1e-3]
                good = good and near(S @ S.T, P, 1e-4)
            rec.check(
                good, f"{name} pairs at tolerance {tol}: values {lam}: {where}"
            )
    rec.outcome(np.round(ref.L1, 3).tobytes())
    rec.check(
        raises(ValueError, t.get_model_parameters)
        and raises(ValueError, t.build_matern_kernel),
        f"an untrained trainer reports parameters: {where}",
    )


# --------------------------------------------------------------- the GP itself
class Session:
    """A trainer with its model, and the closed formulas they should obey."""

    def __init__(self, c, kind, mean, ratio=0.6):
        import gpytorch
        import torch

        from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
        from pytspl.hogde_gp.kernel_serializer import KernelSerializer

        self.torch, self.gpytorch = torch, gpytorch
        self.c, self.kind, self.mean = c, kind, mean
        self.ref = ref_of(c)
        self.E = len(self.ref.edges)
        self.y = flow(self.E)
        self.t = HodgeGPTrainer(sc=build(c), y=self.y)
        self.xa, self.ya, self.xb, self.yb, self.x, _ = self.t.train_test_split(
            train_ratio=ratio, seed=3
        )
        self.lik = gpytorch.likelihoods.GaussianLikelihood()
        self.kernel = KernelSerializer().serialize(
            eigenpairs=self.t.get_eigenpairs(), kernel_type=kind, data_name="forex"
        )
        self.model = ExactGPModel(
            self.xa, self.ya, self.lik, self.kernel, mean_function=mean
        )
        self.where = f"{kind}, mean {mean}: {describe(c)}"
        self.trained = 0

    def theta(self):
        from .c18_kernels import KERNELS

        names = KERNELS[self.kind][0]
        g = lambda v: float(v.detach().reshape(-1)[0])  # noqa: E731
        p = {k: g(getattr(self.kernel, k)) for k in names}
        scale = g(self.model.covar_module.outputscale)
        noise = g(self.lik.noise)
        m = 0.0
        if self.mean != "zero":
            m = g(self.model.mean_module.constant)
        return p, scale, noise, m

    def cov(self):
        from .c18_kernels import KERNELS

        p, scale, _, _ = self.theta()
        ref = self.ref
        spaces = (
            [x for x in eigenspaces(ref.L1) if x[0] == 0.0],
            [x for x in eigenspaces(ref.L1L) if x[0] > 0.0],
            [x for x in eigenspaces(ref.L1U) if x[0] > 0.0],
        )
        K = np.zeros((self.E, self.E))
        for sp, (w, f) in zip(spaces, KERNELS[self.kind][1](p)):
            for lam, P, _ in sp:
                K = K + w * f(lam) * P
        return scale * K

    def posterior(self, ib):
        _, _, noise, m = self.theta()
        K = self.cov()
        ia = arr(self.xa).astype(int)
        A = K[np.ix_(ia, ia)] + noise * np.eye(len(ia))
        B = K[np.ix_(ib, ia)]
        mean = m + B @ np.linalg.solve(A, self.y[ia] - m)
        cov = K[np.ix_(ib, ib)] - B @ np.linalg.solve(A, B.T)
        return mean, cov + noise * np.eye(len(ib))

    def params(self):
        return [p.detach().clone() for p in self.model.parameters()]

    def check_predict(self, rec, tests=()):
        rec.step()
        for ib, yb in tests or ((self.xb, self.yb),):
            xb = ib
            ib = arr(ib).astype(int)
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                d = self.t.predict(self.model, self.lik, xb, yb)
            mean, cov = self.posterior(ib)
            got_m, got_c = arr(d.mean), arr(d.covariance_matrix)
            if not rec.check(
                near(got_m, mean) and near(got_c, cov, 2e-3),
                lambda: f"predicted mean {got_m} covariance {got_c.tolist()}, posterior "
                f"{mean} {cov.tolist()} of edges {ib} after {self.trained} steps: "
                f"{self.where}",
            ):
                return False
            # the metrics it prints, as far as they can be read
            y = arr(yb)
            want = {
                "MAE": np.mean(np.abs(got_m - y)),
                "MSE": np.mean((got_m - y) ** 2),
                "R2": 1 - np.sum((got_m - y) ** 2) / max(1e-12, np.sum((y - y.mean()) ** 2)),
            }
            var = np.diag(cov)
            want["MLSS"] = np.mean(0.5 * np.log(2 * np.pi * var) + (y - mean) ** 2 / (2 * var))
            want["NLPD"] = 0.5 * (
                np.log(2 * np.pi)
                + (np.linalg.slogdet(cov)[1] + (y - mean) @ np.linalg.solve(cov, y - mean))
                / len(y)
            )
            for k, v in want.items():
                m = re.search(rf"\b{k}: (?:tensor\()?(-?[\d.]+(?:e[-+]?\d+)?)", text.getvalue())
                if m and not rec.check(
                    abs(float(m[1]) - v) <= 1e-2 * max(1, abs(v)),
                    f"reported {k} {m[1]}, it is {v}: edges {ib}: {self.where}",
                ):
                    return False
        return True

    def check_train(self, rec, steps, lr=0.1):
        """Train with an optimiser that records what it is given."""
        torch, gp, s = self.torch, self.gpytorch, self
        log = {"steps": 0, "lr": [], "bad": None, "params": None}
        mll = gp.mlls.ExactMarginalLogLikelihood(self.lik, self.model)

        class Recorder(torch.optim.Adam):
            def __init__(self, params, lr=None, **k):
                params = list(params)
                log["params"] = {id(p) for p in params}
                log["lr"].append(lr)
                super().__init__(params, lr=lr, **k)

            def step(self, closure=None):
                log["steps"] += 1
                ps = [p for p in s.model.parameters()]
                seen = [None if p.grad is None else p.grad.clone() for p in ps]
                loss = -mll(s.model(s.xa), s.ya)
                fresh = torch.autograd.grad(loss, ps, allow_unused=True)
                for a, b in zip(seen, fresh):
                    a = np.zeros(1) if a is None else arr(a)
                    b = np.zeros(1) if b is None else arr(b)
                    if not np.allclose(a, b, rtol=1e-3, atol=1e-4):
                        log["bad"] = (log["steps"], a.tolist(), b.tolist())
                if not all(m.training for m in (s.model, s.lik)):
                    log["bad"] = "not in training mode"
                return super().step(closure)

        rec.step()
        before = self.params()
        self.t.train(
            self.model, self.lik, self.xa, self.ya, training_iters=steps,
            learning_rate=lr, optimizer=Recorder,
        )  # fmt: skip
        self.trained += steps
        after = self.params()
        moved = any(not torch.equal(a, b) for a, b in zip(before, after))
        return (
            rec.check(
                log["steps"] == steps and log["lr"] == [lr],
                f"{log['steps']} steps at rates {log['lr']}, asked for {steps} at "
                f"{lr}: {self.where}",
            )
            and rec.check(
                log["params"] == {id(p) for p in self.model.parameters()},
                f"another set of parameters is trained: {self.where}",
            )
            and rec.check(
                log["bad"] is None,
                f"step, gradient used, gradient of the negative log likelihood: "
                f"{log['bad']}: {self.where}",
            )
            and rec.check(
                moved == (steps > 0), f"parameters moved={moved} in {steps} steps"
            )
        )

    def check_params(self, rec):
        rec.step()
        if not self.trained:
            return rec.check(
                raises(ValueError, self.t.get_model_parameters),
                f"an untrained trainer reports parameters: {self.where}",
            )
        got = self.t.get_model_parameters()
        p, scale, noise, _ = self.theta()
        want = {f"raw_{k}": v for k, v in p.items()}
        want |= {"raw_noise": noise, "raw_outputscale": scale}
        return rec.check(
            set(got) == set(want)
            and all(abs(got[k] - want[k]) < 1e-5 * max(1, want[k]) for k in want),
            f"parameters {got}, expected {want}: {self.where}",
        )

    def check_kernel(self, rec):
        rec.step()
        if not self.trained:
            return rec.check(
                raises(ValueError, self.t.build_matern_kernel),
                f"an untrained trainer builds a kernel: {self.where}",
            )
        K, var = self.t.build_matern_kernel()
        want = self.cov()
        flat = np.ptp(np.diag(want)) < 1e-6 * np.abs(want).max()
        return rec.check(
            near(K, want) and (flat or near(var, np.diag(want))),
            lambda: f"kernel {np.round(K, 4).tolist()} variance {var}, expected "
            f"{np.round(want, 4).tolist()} after {self.trained} steps: {self.where}",
        )

    def check_prior(self, rec):
        rec.step()
        _, _, _, m = self.theta()
        self.model.train()
        with self.torch.no_grad():
            d = self.model.forward(self.x)
        return rec.check(
            near(arr(d.mean), np.full(self.E, m))
            and near(arr(d.covariance_matrix), self.cov()),
            f"prior mean {arr(d.mean)} after {self.trained} steps: {self.where}",
        )


def run_fit(item, rec):
    for steps in (0, 1, 2, 3):
        for lr in (0.1, 0.02):
            s = Session(item["c"], item["kernel"], item["mean"])
            rec.state("fit", item["kernel"], item["mean"], steps, lr, *gen.key(item["c"]))
            rec.trace()
            ok = (
                s.check_prior(rec)
                and s.check_predict(rec)
                and s.check_train(rec, steps, lr)
                and s.check_predict(rec)
                and s.check_prior(rec)
                and s.check_train(rec, 2, lr)
                and s.check_predict(rec)
            )
            if not ok:
                return
            rec.outcome(*(np.round(arr(p), 4).tobytes() for p in s.params()))
    rec.sample(f"fit {s.where}")


def run_history(item, rec):
    for last in item.get("last", OPS):
        s = Session(item["c"], "matern", "zero" if last == "split" else None)
        ops = [*item["first"], last]
        s.where += f" history {ops}"
        rec.state("history", *ops, *gen.key(item["c"]))
        rec.trace()
        for op in ops:
            if op.startswith("train"):
                ok = s.check_train(rec, int(op[5:]))
            elif op == "predict":
                ok = s.check_predict(rec)
            elif op == "params":
                ok = s.check_params(rec)
            elif op == "kernel":
                ok = s.check_kernel(rec)
            elif op == "resplit":  # another split: the model keeps its own data
                rec.step()
                s.t.train_test_split(train_ratio=0.5, seed=9, data_normalization=True)
                ok = True
            else:  # the same split again: nothing about the model changes
                rec.step()
                r = s.t.train_test_split(train_ratio=0.6, seed=3)
                ok = rec.check(
                    np.array_equal(arr(r[0]), arr(s.xa)), f"another split: {s.where}"
                )
            if not ok:
                return
        rec.outcome(*(np.round(arr(p), 4).tobytes() for p in s.params()))


def run_set(item, rec):
    """The reported parameters and the kernel built from them, for assigned values;
    predictions for any edges, in any order, seen or not."""
    import torch

    from .c18_kernels import KERNELS

    names = KERNELS["matern"][0]
    for shift in range(len(names)):
        s = Session(item["c"], "matern", (None, "zero")[shift % 2])
        for i, k in enumerate(names):
            setattr(s.kernel, k, 0.4 + 0.35 * ((i + shift) % len(names)))
        s.model.covar_module.outputscale = 0.7 + 0.3 * shift
        s.lik.noise = 0.05 + 0.1 * shift
        rec.state("set", shift, *gen.key(item["c"]))
        rec.trace()
        s.t.model = s.model
        s.trained = 1
        every = list(range(s.E))
        sets = [every, every[::-1], every[: 2 + shift % 2], every[1::2] + every[::2]]
        tests = [
            (torch.tensor(ix, dtype=torch.float32), torch.tensor(s.y[ix], dtype=torch.float32))
            for ix in sets
        ]
        if not (s.check_params(rec) and s.check_kernel(rec) and s.check_prior(rec)
                and s.check_predict(rec, tests)):  # fmt: skip
            return
        rec.outcome(np.round(s.cov(), 5).tobytes())


def run_two(item, rec):
    """A trainer reports the model that it trained last."""
    a, b = Session(item["c"], "matern", None), Session(item["c"], "matern", "zero", 0.5)
    b.t = a.t
    rec.state("two", *gen.key(item["c"]))
    rec.trace()
    if not (a.check_train(rec, 2) and a.check_params(rec) and b.check_train(rec, 1, 0.3)):
        return
    for s in (b, a):
        if not (s.check_predict(rec) and b.check_params(rec) and b.check_kernel(rec)):
            return
    a.check_train(rec, 1)
    a.check_params(rec)
    a.check_kernel(rec)
    b.check_predict(rec)


def run_long(item, rec):
    import torch

    def session():
        return Session(item["c"], item["kernel"], item["mean"])

    for steps, lr in ((1200, 0.3), (40, 1e-6), (3, 2.0)):
        s, twin = session(), session()
        log = []

        class Counter(torch.optim.Adam):
            def step(self, closure=None):
                log.append([g["lr"] for g in self.param_groups])
                return super().step(closure)

        rec.state("long", item["kernel"], steps, lr)
        rec.trace()
        rec.step(2)
        s.t.train(s.model, s.lik, s.xa, s.ya, training_iters=steps,
                  learning_rate=lr, optimizer=Counter)  # fmt: skip
        rec.check(
            log == [[lr]] * steps,
            f"{len(log)} steps, asked for {steps} at {lr}: {s.where}",
        )
        twin.t.train(twin.model, twin.lik, twin.xa, twin.ya, training_iters=steps,
                     learning_rate=lr)  # fmt: skip
        rec.check(
            all(near(arr(a), arr(b)) for a, b in zip(s.params(), twin.params())),
            f"Adam is not the default optimiser ({steps} steps at {lr}): {s.where}",
        )
        s.trained = twin.trained = steps
        if steps < 100:  # a fit that went on for long may be hard to invert
            s.check_predict(rec)
    # every one of many steps, in steps so small that the slope stays
    s = session()
    rec.trace()
    if not s.check_train(rec, 270, 1e-4):
        return
    if item["kernel"] == "matern":
        s, twin = session(), session()
        rec.step(2)
        s.t.train(s.model, s.lik, s.xa, s.ya)
        twin.t.train(twin.model, twin.lik, twin.xa, twin.ya, training_iters=1000,
                     learning_rate=0.1, optimizer=torch.optim.Adam)  # fmt: skip
        rec.check(
            all(near(arr(a), arr(b)) for a, b in zip(s.params(), twin.params())),
            f"training by default is not 1000 steps of Adam at 0.1: {s.where}",
        )


def run_item(item, rec):
    {"long": run_long, "set": run_set, "two": run_two, "asked": run_asked, "split": run_split, "mats": run_mats, "fit": run_fit, "history": run_history}[
        item["what"]
    ](item, rec)
