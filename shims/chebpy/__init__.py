"""Stand-in for the absent series library: Chebyshev interpolation of a
function at n points of the second kind on a domain."""
import numpy as np
from numpy.polynomial import chebyshev as C


class _Fun:
    def __init__(self, coeffs, domain):
        self.coeffs, self.domain = coeffs, domain

    def __call__(self, x):
        a, b = self.domain
        x = np.asarray(x, float)
        return C.chebval((2 * x - a - b) / (b - a), self.coeffs)


class _Chebfun:
    def __init__(self, fun):
        self.funs = np.array([fun], dtype=object)

    def __call__(self, x):
        return self.funs[0](x)


def chebfun(f=None, domain=None, n=None):
    a, b = map(float, domain)
    if not b > a:
        raise ValueError("empty domain")
    x = np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1)
    y = f((b - a) / 2 * x + (a + b) / 2)
    return _Chebfun(_Fun(np.linalg.solve(C.chebvander(x, n - 1), y), (a, b)))
