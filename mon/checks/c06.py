"""C06: component eigenpairs are complete, orthonormal and span their
subspaces."""
import numpy as np

from mon import build, gen, gp_ref, oracles as O

RULE = ("random complexes whose smallest non-zero eigenvalue exceeds the "
        "stated zero tolerance with a margin; eigenpairs decided against the "
        "exact matrices and exact subspace dimensions, also for tolerances "
        "between two eigenvalues and for complexes with a small eigenvalue "
        "next to a large one; non-trivial: all three subspaces are "
        "non-empty")
QUICK, THOROUGH = 4000, 60000
REQUIRED = {"call:get_component_eigenpair": 2000, "three-subspaces": 120,
            "repeated-eigenvalues": 150, "decided:span": 1500,
            "wide-spectrum": 40, "decided:tolerance-count": 3000}
ASSUMPTIONS = ["complexes whose smallest non-zero eigenvalue is below 4e-3 "
               "(within a factor 4 of the library's zero tolerance) are not "
               "generated"]
PARTS = ["gradient", "curl", "harmonic"]


def spec(rng, **kw):
    while True:
        sp = gen.spec(rng, min_edges=1, **kw)
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            return sp, H


def pairs(m, sc, tol):
    kw = {} if tol is None else dict(tolerance=tol)
    return {p: m.call("get_component_eigenpair", sc.get_component_eigenpair,
                      p, **kw) for p in PARTS}


def decide(m, sp, H, pr, tag=""):
    L1 = H.L1.astype(float)
    h, g, c = H.dims
    want = dict(harmonic=h, gradient=g, curl=c)
    for p in PARTS:
        U, w = pr[p]
        m.equal((U.shape, w.shape), ((H.m, want[p]), (want[p],)), "count",
                f"{p}{tag}")
        m.check(np.isrealobj(U) and np.all(np.isfinite(U)), "real", p)
        m.close(U.T @ U, np.eye(want[p]), "orthonormal", p, atol=1e-8)
        m.close(L1 @ U, U * w, "eigenvectors", p, atol=1e-7)
        m.close(w, H.spectrum(p), "eigenvalues", p, atol=1e-7)
        m.check(np.all(np.diff(w) >= -1e-9), "ascending", p, got=w)
        m.close(U @ U.T, H.P(p), "span", p, atol=1e-7)
    A = np.hstack([pr[p][0] for p in PARTS])
    m.close(A @ A.T, np.eye(H.m), "complete", atol=1e-7)


def tolerance(m, rng, sc, H, ed):
    """A tolerance between two eigenvalues: those below it count as zero."""
    spec = {p: H.spectrum(p) for p in ("gradient", "curl")}
    w = np.unique(np.concatenate(list(spec.values()) + [[1e-3, 30.]]))
    gaps = np.flatnonzero(np.diff(w) > 1e-3)
    if not len(gaps):
        return
    i = int(gaps[int(rng.integers(0, len(gaps)))])
    tol = float(rng.uniform(w[i] + 3e-4, w[i + 1] - 3e-4))
    free = rng.random() < .3
    for p in PARTS:
        keep = (lambda x: (x <= tol).astype(float)) if p == "harmonic" else \
            (lambda x: (x > tol).astype(float))
        if p == "harmonic":
            vals = np.concatenate([np.zeros(H.dims[0]), spec["gradient"],
                                   spec["curl"]])
            P = H.P("harmonic") + gp_ref.part(H, "gradient", keep) + \
                gp_ref.part(H, "curl", keep)
            vals = np.sort(vals[vals <= tol])
        else:
            vals = np.sort(spec[p][spec[p] > tol])
            P = gp_ref.part(H, p, keep)
        if free:
            fn, M = dict(harmonic=(ed.get_harmonic_eigenpair, H.L1),
                         gradient=(ed.get_gradient_eigenpair, H.L1l),
                         curl=(ed.get_curl_eigenpair, H.L1u))[p]
            U, e = m.call("eigenpair-function", fn, M.astype(float), tol)
        else:
            U, e = m.call("get_component_eigenpair",
                          sc.get_component_eigenpair, p, tol)
        m.equal((U.shape, e.shape), ((H.m, len(vals)), (len(vals),)),
                "tolerance-count", f"{p} tolerance {tol}")
        m.close(e, vals, "tolerance-eigenvalues", f"{p} {tol}", atol=1e-7)
        m.close(U @ U.T, P, "tolerance-span", f"{p} {tol}", atol=1e-6)


def case(m, rng, idx):
    from pytspl.decomposition import eigendecomposition as ed

    comet = idx % 23 == 5
    sp, H = spec(rng, family="comet" if comet else None,
                 size="g" if idx % 701 == 300 else
                 "l" if idx % 29 == 0 and not comet else "hm" if idx % 31 == 7 and not comet else None)
    if O.min_nonzero_eig(H) < .05 and H.m and \
            max(max(H.spectrum(p), default=0)
                for p in ("gradient", "curl")) > 15:
        m.seen("wide-spectrum")
    f, k = gen.flow(rng, H.m)
    m.note(complex=sp.describe(), flow=f)
    m.key(sp.key())
    sc = build.make_sc(m, rng, sp)
    if all(H.dims):
        m.seen("three-subspaces")
        m.nontrivial()
    tol = [None, 1e-3, 1e-4, 1e-8][int(rng.integers(0, 4))]
    pr = pairs(m, sc, tol)
    decide(m, sp, H, pr)
    w = np.concatenate([pr["gradient"][1], pr["curl"][1]])
    if len(w) > 1 and np.any(np.diff(np.sort(w)) < 1e-9):
        m.seen("repeated-eigenvalues")
    # default component is harmonic
    U, e = m.call("get_component_eigenpair", sc.get_component_eigenpair)
    m.close(U @ U.T, H.P("harmonic"), "default-component", atol=1e-7)
    # embeddings, in the documented order harmonic, curl, gradient
    s = float(np.abs(f).max())
    emb = m.call("get_simplicial_embeddings", sc.get_simplicial_embeddings, f)
    want = H.split(f)
    pr1 = pairs(m, sc, 1e-3)
    m.equal(len(emb), 3, "embeddings")
    tot = 0
    for p, x in zip(["harmonic", "curl", "gradient"], emb):
        U, e = pr1[p]
        m.close(x, U.T @ f, "embedding", p, atol=1e-7 * s + 1e-14)
        m.close(U @ x, want[p], "embedding-reproduces", p,
                atol=1e-7 * s + 1e-13)
        tot += float(np.dot(x, x))
    m.check(abs(tot - float(np.dot(f.astype(float), f))) <=
            1e-8 * s * s * H.m, "energy", got=tot)
    # total variance: the spectrum of the graph Laplacian
    tv = m.call("get_total_variance", sc.get_total_variance)
    m.close(np.asarray(tv), np.sort(np.linalg.eigvalsh(H.L0.astype(float))),
            "total-variance", atol=1e-7)
    # the decomposition functions on the matrices
    U, e = m.call("get_eigendecomposition", ed.get_eigendecomposition,
                  H.L1.astype(float))
    m.close((U * e) @ U.T, H.L1, "eigendecomposition", atol=1e-7)
    m.close(U.T @ U, np.eye(H.m), "eigendecomposition", atol=1e-8)
    m.check(np.all(np.diff(e) >= -1e-9), "ascending", got=e)
    fns = dict(harmonic=(ed.get_harmonic_eigenpair, H.L1),
               gradient=(ed.get_gradient_eigenpair, H.L1l),
               curl=(ed.get_curl_eigenpair, H.L1u))
    free = {p: m.call("eigenpair-function", fn, M.astype(float),
                      tolerance=1e-3) for p, (fn, M) in fns.items()}
    decide(m, sp, H, free, " (function)")
    tolerance(m, rng, sc, H, ed)
    # a second complex of the same shape, then the first one again, after
    # overwriting everything that was returned
    for U, e in list(pr.values()) + list(pr1.values()):
        U[...] = 3.0
        e[...] = 3.0
    o = gen.twin(rng, sp)
    OH = O.Hodge(o.n, o.edges, o.tris)
    if O.min_nonzero_eig(OH) > 4e-3:
        osc = build.make_sc(m, rng, o)
        decide(m, o, OH, pairs(m, osc, None), " (twin)")
    decide(m, sp, H, pairs(m, sc, None), " (again)")
