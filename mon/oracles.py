"""Independent reference computations (no code shared with the library)."""
import itertools

import numpy as np

PRIME = 2147483629


def und(e):
    a, b = int(e[0]), int(e[1])
    return (a, b) if a < b else (b, a)


def b1(n, edges):
    M = np.zeros((n, len(edges)), dtype=np.int64)
    for j, (u, v) in enumerate(edges):
        M[u, j] -= 1
        M[v, j] += 1
    return M


def b2(edges, tris):
    """Boundary of each triangle oriented a->b->c for a<b<c."""
    idx = {und(e): (i, 1 if e[0] < e[1] else -1) for i, e in enumerate(edges)}
    M = np.zeros((len(edges), len(tris)), dtype=np.int64)
    for j, t in enumerate(tris):
        a, b, c = sorted(int(x) for x in t)
        for (u, v), s in (((a, b), 1), ((b, c), 1), ((a, c), -1)):
            i, o = idx[(u, v)]
            M[i, j] = s * o
    return M


def align_b2(got, ref):
    """Signs s with got[:, j] == s[j]*ref[:, j], or None."""
    if got.shape != ref.shape:
        return None
    s = np.ones(ref.shape[1])
    for j in range(ref.shape[1]):
        if np.array_equal(got[:, j], ref[:, j]):
            s[j] = 1
        elif np.array_equal(got[:, j], -ref[:, j]):
            s[j] = -1
        else:
            return None
    return s


def components(n, edges):
    p = list(range(n))

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    for a, b in edges:
        p[find(int(a))] = find(int(b))
    return len({find(x) for x in range(n)})


def rank_int(M):
    """Exact rank of a small integer matrix (modulo a large prime)."""
    M = np.array(M, dtype=object) % PRIME
    r = 0
    rows, cols = M.shape
    for c in range(cols):
        piv = next((i for i in range(r, rows) if M[i, c] % PRIME), None)
        if piv is None:
            continue
        if piv != r:
            M[[r, piv]] = M[[piv, r]]
        M[r] = M[r] * pow(int(M[r, c]), PRIME - 2, PRIME) % PRIME
        for i in range(rows):
            if i != r and M[i, c]:
                M[i] = (M[i] - M[i, c] * M[r]) % PRIME
        r += 1
        if r == rows:
            break
    return r


def dims(n, edges, tris):
    """(harmonic, gradient, curl) dimensions, exactly."""
    g = n - components(n, edges)
    B2 = b2(edges, tris)
    if len(tris) > 90 or len(tris) * len(edges) > 30000:  # exact elimination is too slow: singular values
        c = int(np.linalg.matrix_rank(B2.astype(float)))
    else:
        c = rank_int(B2.T) if len(tris) and len(edges) else 0
    return len(edges) - g - c, g, c


def range_basis(M):
    """Orthonormal basis of the column space of an integer matrix."""
    M = np.asarray(M, float)
    if M.size == 0:
        return np.zeros((M.shape[0], 0))
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    return U[:, s > 1e-9 * max(1.0, s[0])]


class Hodge:
    """Orthogonal projections and spectra of one complex."""

    def __init__(self, n, edges, tris):
        self.n, self.edges, self.tris = n, edges, tris
        self.m = len(edges)
        self.B1, self.B2 = b1(n, edges), b2(edges, tris)
        self.Ug = range_basis(self.B1.T)
        self.Uc = range_basis(self.B2)
        self.L0 = self.B1 @ self.B1.T
        self.L1l = self.B1.T @ self.B1
        self.L1u = self.B2 @ self.B2.T
        self.L1 = self.L1l + self.L1u
        self.L2 = self.B2.T @ self.B2

    @property
    def dims(self):
        return (self.m - self.Ug.shape[1] - self.Uc.shape[1],
                self.Ug.shape[1], self.Uc.shape[1])

    def P(self, which):
        I = np.eye(self.m)
        G = self.Ug @ self.Ug.T
        C = self.Uc @ self.Uc.T
        return {"gradient": G, "curl": C, "harmonic": I - G - C}[which]

    def split(self, f):
        f = np.asarray(f, float)
        g = self.Ug @ (self.Ug.T @ f)
        c = self.Uc @ (self.Uc.T @ f)
        return {"gradient": g, "curl": c, "harmonic": f - g - c}

    def lap(self, p):
        return {"L1": self.L1, "L1L": self.L1l, "L1U": self.L1u}[p].astype(
            float)

    def spectrum(self, which):
        """Eigenvalues of one part, ascending (zero excluded for gradient
        and curl by exact rank)."""
        h, g, c = self.dims
        if which == "harmonic":
            return np.zeros(h)
        M = self.L1l if which == "gradient" else self.L1u
        k = g if which == "gradient" else c
        w = np.sort(np.linalg.eigvalsh(M.astype(float))) if self.m else \
            np.zeros(0)
        return w[len(w) - k:]


def min_nonzero_eig(h):
    w = np.concatenate([h.spectrum("gradient"), h.spectrum("curl")])
    return w.min() if len(w) else np.inf


def cliques(n, edges):
    s = {und(e) for e in edges}
    adj = [set() for _ in range(n)]
    for a, b in s:
        adj[a].add(b)
        adj[b].add(a)
    return sorted((a, b, c) for a, b in s for c in adj[a] & adj[b] if c > b)


def spec_fun(M, fun):
    """Symmetric matrix function through an independent eigensolver."""
    w, U = np.linalg.eigh(np.asarray(M, float))
    return (U * fun(w)) @ U.T


def same_triangles(a, b):
    return sorted(tuple(sorted(map(int, t))) for t in a) == sorted(
        tuple(sorted(map(int, t))) for t in b)
