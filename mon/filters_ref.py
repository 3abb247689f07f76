"""Independent reference computations for the filters."""
import numpy as np


def polyfit_values(grid, target, L, lam):
    """Values at `lam` of the least-squares polynomial of degree < L through
    (grid, target), and how far rounding in the monomial basis (which the
    library uses) can move them; None when the fit is not unique."""
    grid, target, lam = (np.asarray(x, float) for x in (grid, target, lam))
    if len(np.unique(np.round(grid, 9))) < L:
        return None
    V = np.vander(grid, L, increasing=True)
    sv = np.linalg.svd(V, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    if cond > 1e12:
        return None
    # solve in a Chebyshev basis over the range, for accuracy
    c, s = (grid.max() + grid.min()) / 2, max((grid.max() - grid.min()) / 2,
                                              1e-12)
    T = np.polynomial.chebyshev.chebvander((grid - c) / s, L - 1)
    W = np.polynomial.chebyshev.chebvander((lam - c) / s, L - 1)
    a = np.linalg.lstsq(T, target, rcond=None)[0]
    val = W @ a
    h = np.linalg.lstsq(V, target, rcond=None)[0]
    top = max(np.abs(lam).max() if len(lam) else 0, np.abs(grid).max(), 1.0)
    amp = float(np.sum(np.abs(h) * top ** np.arange(L)))
    # a backward stable solver moves the fitted values by a few roundings of
    # |V||h| and, through the condition, of the residual; calibrated: the
    # library stays below a tenth of this (and the users allow ten times it)
    move = 1e-15 * (sv[0] * np.linalg.norm(h) + amp
                    + cond * np.linalg.norm(T @ a - target))
    tol = 1e-9 + (1 + np.linalg.norm(W @ np.linalg.pinv(T), 2)) * move
    return val, tol


def power_lambda(P, eps=0.0, iterations=50, seed=0):
    """Rayleigh quotient after a power iteration from the all-ones vector,
    optionally perturbed."""
    P = np.asarray(P, float)
    n = P.shape[0]
    v = np.ones(n)
    if not np.any(P):
        return 0.0
    if not np.any(P @ v):
        v = P[:, int(np.argmax(np.diag(P)))].copy()
    if eps:
        v = v + eps * np.random.default_rng(seed).standard_normal(n)
    for _ in range(iterations):
        v = P @ v
        k = np.linalg.norm(v)
        if k == 0:
            return np.nan
        v = v / k
    return float(v @ P @ v)


def stable_lambda(P):
    """The estimate, if rounding cannot move it; else None.

    Directions absent from the start vector in exact arithmetic are fed by
    rounding errors that depend on the order of the operations."""
    P = np.asarray(P, float)
    n = P.shape[0]
    if not np.any(P):
        return 0.0
    v = np.ones(n)
    if not np.any(P @ v):
        v = P[:, int(np.argmax(np.diag(P)))]
    lam, V = np.linalg.eigh(P)
    # split the start vector by eigenvalue
    ids = np.concatenate([[0], np.cumsum(np.diff(lam) > 1e-8)])
    c, w = [], []
    for k in np.unique(ids):
        c.append(np.linalg.norm(V[:, ids == k].T @ v) / np.linalg.norm(v))
        w.append(lam[ids == k].mean())
    c, w = np.array(c), np.array(w)
    ok = (c > 1e-9) & (w > 1e-9)
    if not np.any(ok):
        return None
    top = w[ok].max()
    if np.any(~ok & (w > top) & (1e-15 * (w / top) ** 50 > 1e-14)):
        return None
    q = (w[ok] / top) ** 50 * c[ok]
    return float(np.sum(q ** 2 * w[ok]) / np.sum(q ** 2))


def gaps_clear(w, tol):
    """Every two neighbouring eigenvalues are clearly equal or clearly
    different under the given tolerance."""
    w = np.sort(np.asarray(w))
    d = np.diff(w)
    z = np.abs(w)
    return not (np.any((d > 1e-9) & (d < 4 * tol))
                or np.any((z > 1e-9) & (z < 4 * tol)))


def design_grid(w, tol):
    """The eigenvalues a design with this tolerance is fitted on: below the
    tolerance counts as zero, equal ones count once. None when an eigenvalue
    or a gap is too near the tolerance to say."""
    z = np.sort(np.asarray(w, float))
    a = np.abs(z)
    if np.any((a > max(1e-9, .8 * tol)) & (a < 4 * tol)):
        return None
    z[a <= max(1e-9, .8 * tol)] = 0
    d = np.diff(z)
    if np.any((d > 1e-9) & (d < 4 * tol)):
        return None
    return distinct(z, tol)


def distinct(w, tol):
    w = np.sort(np.asarray(w))
    return w[np.concatenate([[True], np.diff(w) > tol])] if len(w) else w


def shared(H, gap=1e-6):
    """An eigenvalue occurs in both the gradient and the curl spectrum (or
    nearly does)."""
    g, c = H.spectrum("gradient"), H.spectrum("curl")
    if not len(g) or not len(c):
        return False
    return bool(np.min(np.abs(g[:, None] - c[None, :])) < gap)


def nrmse(a, b):
    return np.linalg.norm(a - b) / np.linalg.norm(b)


def grid_fit(lam, top, n, g, l):
    """Values of the best fit and how far rounding (in the basis, or in the
    last digits of the estimated range) can move them."""
    grid = np.linspace(0, top, n)
    r = polyfit_values(grid, g(grid), l, lam)
    if r is None:
        return None
    grid = np.linspace(0, top * (1 + 1e-8), n)
    q = polyfit_values(grid, g(grid), l, lam)
    if q is None:
        return None
    return r[0], r[1] + 10 * float(np.abs(r[0] - q[0]).max())
