"""C19: edge kernels are spectral functions of the Hodge Laplacian."""
import numpy as np

from mon import build, gen, gp_ref, oracles as O

RULE = ("random complexes x kernel types x positive hyperparameters x index "
        "lists (square, rectangular, repeated, reordered, single); every "
        "evaluation compared with a covariance built from projections, in "
        "single and double precision, with the library's and with randomly "
        "rotated eigenbases; non-trivial: at least two non-zero subspaces "
        "and at least two different indices")
QUICK, THOROUGH = 5000, 80000
REQUIRED = {"decided:covariance": 3000, "decided:block": 3000,
            "decided:diagonal": 1500, "decided:read-back": 8000,
            "rotated-basis": 500, "double": 400, "diffusion": 200,
            "diffusion_non_hc": 200, "matern": 200, "matern_non_hc": 200,
            "laplacian": 200, "one-index": 100, "many-edges": 30, "decided:spectral": 9000, "evaluation-mode": 3000}


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    import pytspl.hogde_gp  # noqa
    import pytspl.hogde_gp.kernel_serializer  # noqa


def rotate(rng, V, w):
    """Another orthonormal eigenbasis with the same eigenvalues, in another
    order."""
    V, w = np.array(V, float), np.array(w, float)
    if V.shape[1] == 0:
        return V, w
    out = V.copy()
    o = np.argsort(w)
    ids = np.concatenate([[0], np.cumsum(np.diff(w[o]) > 1e-7)])
    for k in np.unique(ids):
        c = o[ids == k]
        Q = np.linalg.qr(rng.standard_normal((len(c), len(c))))[0]
        out[:, c] = V[:, c] @ Q
    p = rng.permutation(len(w))
    return out[:, p], w[p]


def case(m, rng, idx):
    import torch
    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    # now and then hundreds of edges
    big = idx % 41 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")

    while True:
        sp = gen.spec(rng, min_edges=270 if idx % 2 and big else 1,
                      max_edges=1300 if giant else (400 if idx % 2 else 260) if big else 50,
                      size="g" if giant else "hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 2e-2:
            break
    if H.m > 256:
        m.seen("many-edges")
    sc = build.make_sc(m, rng, sp)
    kinds = gp_ref.TYPES
    kind = kinds[idx % len(kinds)]
    m.seen(kind)
    m.note(complex=sp.describe(), kernel=kind)
    tr = HodgeGPTrainer(sc=sc, y=np.zeros(H.m))
    dtype, tol = torch.float32, 2e-4
    if rng.random() < .7:
        ep = m.call("eigenpairs", tr.get_eigenpairs)
    else:
        # the same in double precision
        m.seen("double")
        dtype, tol = torch.float64, 1e-8
        prs = [m.call("eigenpair", sc.get_component_eigenpair, c)
               for c in ("harmonic", "gradient", "curl")]
        ep = [torch.tensor(np.array(a[0]), dtype=dtype) for a in prs] + [
            torch.tensor(np.array(a[1]), dtype=dtype) for a in prs]
    if rng.random() < .4:
        m.seen("rotated-basis")
        new = [rotate(rng, ep[i].numpy(), ep[i + 3].numpy())
               for i in range(3)]
        ep = [torch.tensor(a, dtype=dtype) for a, _ in new] + [
            torch.tensor(b, dtype=dtype) for _, b in new]
    before = [e.clone() for e in ep]
    k = m.call("serialize", KernelSerializer().serialize, eigenpairs=ep,
               kernel_type=kind, data_name="forex")
    other = m.call("serialize", KernelSerializer().serialize, eigenpairs=ep,
                   kernel_type=kinds[int(rng.integers(0, 5))],
                   data_name="forex")
    if dtype == torch.float64:
        k = k.double()
    names = gp_ref.PARAMS[kind]
    for rnd in range(3):
        # fitted models are evaluated, changed, and evaluated again
        if rng.random() < .5:
            k.eval()
            m.seen("evaluation-mode")
        else:
            k.train()
        if rnd == 0 and rng.random() < .2:
            p = gp_ref.read(k, kind)  # the defaults: softplus(0)
            for q, v in p.items():
                m.close(v, np.log(2), "default", q, rtol=1e-6)
        else:
            p = gp_ref.random_params(rng, kind)
            order = [names[i] for i in rng.permutation(len(names))]
            for q in order:
                v = p[q]
                form = int(rng.integers(0, 3))
                setattr(k, q, v if form == 0 else torch.tensor(v, dtype=dtype)
                        if form == 1 else torch.full((1, 1), v, dtype=dtype))
            got = gp_ref.read(k, kind)
            for q in names:
                m.close(got[q], p[q], "read-back", f"{kind}.{q}", rtol=1e-5)
            p = got  # as stored, in single precision
        m.note(hyperparameters=p)
        m.key(sp.key(), kind, tuple(sorted(p.items())))
        K = gp_ref.covariance(kind, H, p)
        # the reference itself is good to rounding of its largest weight
        s = np.abs(K).max() + (4e-11 if kind == "laplacian" else 2e-13) / tol
        full = torch.arange(H.m, dtype=dtype)
        with torch.no_grad():
            got = m.call("kernel", lambda: k(full).to_dense()).numpy()
            m.close(got, K, "covariance", kind, atol=tol * s)
            m.close(got, got.T, "symmetric", kind, atol=tol * s)
            w = np.linalg.eigvalsh((got + got.T) / 2)
            m.check(w[0] >= -tol * s * H.m, "psd", kind, got=w[0])
            m.close(np.diag(got), m.call("diagonal", lambda: k(
                full).diagonal()).numpy(), "diagonal", kind, atol=tol * s)
            # the spectral functions themselves
            ws = [e.numpy() for e in ep[3:]]
            got = m.call("covar_matrix", lambda: k.covar_matrix)
            for x, y, c in zip(got, gp_ref.spectra(kind, ws, p),
                               ("harmonic", "gradient", "curl")):
                x = np.asarray(x, float).ravel()
                if len(y):
                    m.close(x, y, "spectral", f"{kind} {c}",
                            atol=tol * np.abs(y).max(), rtol=100 * tol)
                else:
                    m.equal(len(x), 0, "spectral-empty", f"{kind} {c}")
            for _ in range(2):
                a = rng.integers(0, H.m, int(rng.integers(1, H.m + 4)))
                b = rng.integers(0, H.m, int(rng.integers(1, H.m + 4)))
                if rng.random() < .2:
                    a = a[:1]
                if len(a) == 1 or len(b) == 1:
                    m.seen("one-index")
                t = torch.long if rng.random() < .3 else dtype
                ta, tb = (torch.tensor(a, dtype=t), torch.tensor(b, dtype=t))
                if rng.random() < .3:
                    ta, tb = ta[:, None], tb[:, None]
                blk = m.call("kernel", lambda: k(ta, tb).to_dense()).numpy()
                m.close(blk, K[np.ix_(a, b)], "block", kind, atol=tol * s,
                        rows=a, cols=b)
                d = m.call("diagonal", lambda: k(ta, diag=True))
                if hasattr(d, "to_dense"):
                    d = d.to_dense()
                m.close(d, np.diag(K)[a], "diagonal", kind, atol=tol * s,
                        rows=a)
                n = min(len(a), len(b))
                d = m.call("diagonal", lambda: k(ta[:n], tb[:n], diag=True))
                if hasattr(d, "to_dense"):
                    d = d.to_dense()
                m.close(d, K[a[:n], b[:n]], "diagonal-pairs", kind,
                        atol=tol * s)
        m.nontrivial(H.m >= 2 and sum(d > 0 for d in H.dims) >= 2)
    m.check(all(torch.equal(x, y) for x, y in zip(before, ep)),
            "eigenpairs-unchanged")
    # a second kernel object keeps its own hyperparameters
    for name, v in other.named_parameters():
        m.close(v, np.zeros(tuple(v.shape)), "other-kernel", name)
