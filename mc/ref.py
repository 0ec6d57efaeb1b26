"""Boring reference model of a simplicial complex, straight from definitions."""

import numpy as np


class Ref:
    """Matrices of the complex (n, edges, triangles), computed entry by entry.

    The direction of every triangle is free (either of its two cyclic orders):
    compare B2 columns up to sign, or compare B2 @ B2.T, which does not see it.
    """

    def __init__(self, n, edges, tris):
        self.n, self.edges = n, [tuple(map(int, e)) for e in edges]
        self.tris = [tuple(map(int, t)) for t in tris]
        pos = {e: i for i, e in enumerate(self.edges)}
        E, T = len(self.edges), len(self.tris)
        self.B1 = np.zeros((n, E), dtype=int)
        for j, (u, v) in enumerate(self.edges):
            self.B1[u, j] -= 1
            self.B1[v, j] += 1
        self.B2 = np.zeros((E, T), dtype=int)
        for j, (a, b, c) in enumerate(self.tris):
            # walk a -> b -> c -> a
            for u, v in ((a, b), (b, c), (c, a)):
                if (u, v) in pos:
                    self.B2[pos[u, v], j] += 1
                else:
                    self.B2[pos[v, u], j] -= 1
        self.L0 = self.B1 @ self.B1.T
        self.L1L = self.B1.T @ self.B1
        self.L1U = self.B2 @ self.B2.T
        self.L1 = self.L1L + self.L1U
        self.L2 = self.B2.T @ self.B2

    def lap(self, name):
        return {"L1": self.L1, "L1L": self.L1L, "L1U": self.L1U}[name]

    _proj = None

    def projectors(self):
        """Orthogonal projectors on the gradient, curl and harmonic spaces."""
        if self._proj is None:
            E = len(self.edges)
            pg = _range_projector(self.B1.T)
            pc = _range_projector(self.B2)
            self._proj = (pg, pc, np.eye(E) - pg - pc)
        return self._proj

    def component(self, name):
        return dict(zip(("gradient", "curl", "harmonic"), self.projectors()))[name]


def _range_projector(A):
    A = A.astype(float)
    if A.shape[1] == 0 or A.shape[0] == 0:
        return np.zeros((A.shape[0], A.shape[0]))
    u, s, _ = np.linalg.svd(A, full_matrices=False)
    u = u[:, s > 1e-9 * max(1.0, s.max(initial=0))]
    return u @ u.T


def rank_mod_p(A, p=2147483629):
    """Exact rank of a small integer matrix (modulo a large prime)."""
    rows = [[int(x) % p for x in r] for r in A]
    rank = 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        piv = next((i for i in range(rank, len(rows)) if rows[i][c]), None)
        if piv is None:
            continue
        rows[rank], rows[piv] = rows[piv], rows[rank]
        inv = pow(rows[rank][c], -1, p)
        pr = [x * inv % p for x in rows[rank]]
        rows[rank] = pr
        for i in range(len(rows)):
            if i != rank and rows[i][c]:
                f = rows[i][c]
                rows[i] = [(x - f * y) % p for x, y in zip(rows[i], pr)]
        rank += 1
    return rank


def components(n, edges):
    """Number of connected components (union-find)."""
    p = list(range(n))

    def find(x):
        while p[x] != x:
            x = p[x]
        return x

    for a, b in edges:
        p[find(a)] = find(b)
    return len({find(x) for x in range(n)})


def dense(m):
    """A dense ndarray of whatever matrix type the code returns."""
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m, dtype=float)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol * scale)
