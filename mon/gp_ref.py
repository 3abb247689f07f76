"""Reference covariances of the edge kernels, from projections onto the
Hodge subspaces (no eigenvectors shared with the library)."""
import numpy as np

PARAMS = {
    "diffusion": ["kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "diffusion_non_hc": ["kappa_down", "kappa_up", "h", "h_down", "h_up"],
    "matern": ["kappa", "kappa_down", "kappa_up", "mu", "mu_down", "mu_up",
               "h", "h_down", "h_up"],
    "matern_non_hc": ["kappa", "kappa_down", "kappa_up", "mu", "mu_down",
                      "mu_up", "h", "h_down", "h_up"],
    "laplacian": ["kappa_down", "kappa_up", "mu"],
}
TYPES = list(PARAMS)


def part(H, which, fun):
    """sum over the eigenvalues of one subspace of fun(lambda) times the
    projection."""
    if which == "harmonic":
        return fun(np.zeros(1))[0] * H.P("harmonic")
    U = H.Ug if which == "gradient" else H.Uc
    if U.shape[1] == 0:
        return np.zeros((H.m, H.m))
    L = (H.L1l if which == "gradient" else H.L1u).astype(float)
    w, V = np.linalg.eigh(U.T @ L @ U)
    W = U @ V
    return (W * fun(w)) @ W.T


def covariance(kind, H, p):
    """p: dict of hyperparameters."""
    def three(a, b, c):
        return (part(H, "harmonic", a), part(H, "gradient", b),
                part(H, "curl", c))

    if kind == "diffusion":
        a, b, c = three(lambda x: np.exp(-x),
                        lambda x: np.exp(-p["kappa_down"] * x),
                        lambda x: np.exp(-p["kappa_up"] * x))
        return p["h"] * a + p["h_down"] * b + p["h_up"] * c
    if kind == "diffusion_non_hc":
        a, b, c = three(lambda x: np.exp(-x),
                        lambda x: np.exp(-p["kappa_down"] * x),
                        lambda x: np.exp(-p["kappa_down"] * x))
        return a + b + c

    def mat(mu, kappa):
        return lambda x: (2 * mu / kappa ** 2 + x) ** -mu

    if kind == "matern":
        a, b, c = three(lambda x: np.full(len(x), p["mu"]),
                        mat(p["mu_down"], p["kappa_down"]),
                        mat(p["mu_up"], p["kappa_up"]))
        return p["h"] * a + p["h_down"] * b + p["h_up"] * c
    if kind == "matern_non_hc":
        g = mat(p["mu_down"], p["kappa_down"])
        a, b, c = three(g, g, g)
        return a + b + c
    if kind == "laplacian":
        a, b, c = three(lambda x: 1 / (1e-3 + x), lambda x: 1 / x,
                        lambda x: 1 / x)
        return p["mu"] * a + p["kappa_down"] * b + p["kappa_up"] * c
    raise KeyError(kind)


def read(kernel, kind):
    return {k: float(getattr(kernel, k).detach().reshape(-1)[0])
            for k in PARAMS[kind]}


def random_params(rng, kind):
    return {k: float(np.exp(rng.uniform(np.log(.1), np.log(4.))))
            for k in PARAMS[kind]}


def spectra(kind, w, p):
    """Values of the spectral functions, without amplitudes, at the three
    lists of eigenvalues (harmonic, gradient, curl)."""
    def mat(x, mu, kappa):
        return (2 * mu / kappa ** 2 + x) ** -mu

    a, b, c = (np.asarray(x, float).ravel() for x in w)
    if kind == "diffusion":
        return (np.exp(-a), np.exp(-p["kappa_down"] * b),
                np.exp(-p["kappa_up"] * c))
    if kind == "diffusion_non_hc":
        return (np.exp(-a), np.exp(-p["kappa_down"] * b),
                np.exp(-p["kappa_down"] * c))
    if kind == "matern":
        return (np.full(len(a), p["mu"]),
                mat(b, p["mu_down"], p["kappa_down"]),
                mat(c, p["mu_up"], p["kappa_up"]))
    if kind == "matern_non_hc":
        return tuple(mat(x, p["mu_down"], p["kappa_down"])
                     for x in (a, b, c))
    if kind == "laplacian":
        return 1 / (1e-3 + a), 1 / b, 1 / c
    raise KeyError(kind)
