"""Stand-in for the chebpy package, which is not installed here.

chebfun(f, domain, n) is the polynomial of degree n-1 that interpolates f in
the n Chebyshev points of the second kind of the domain.  Only the two things
pytspl uses are provided: ``.funs[0].coeffs`` and calling the function.
"""

import numpy as np


class _Fun:
    def __init__(self, coeffs):
        self.coeffs = coeffs


class _Chebfun:
    def __init__(self, coeffs, domain):
        self.funs = [_Fun(coeffs)]
        self.domain = domain

    def __call__(self, x):
        lo, hi = self.domain
        t = (2 * np.asarray(x, dtype=float) - (lo + hi)) / (hi - lo)
        return np.polynomial.chebyshev.chebval(t, self.funs[0].coeffs)


def chebfun(f=None, domain=None, n=None):
    lo, hi = float(domain[0]), float(domain[1])
    n = int(n)
    if n == 1:
        pts = np.zeros(1)
    else:
        pts = -np.cos(np.pi * np.arange(n) / (n - 1))
    vals = f(0.5 * (lo + hi) + 0.5 * (hi - lo) * pts)
    vals = np.asarray(vals, dtype=float)
    V = np.polynomial.chebyshev.chebvander(pts, n - 1)
    return _Chebfun(np.linalg.solve(V, vals), (lo, hi))
