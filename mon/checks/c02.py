"""C02: Laplacians and adjacency are exactly those of the complex."""
import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes of 14 topology families (spheres, tori, Klein "
        "bottles, projective planes, graphs, unions) in random encodings; "
        "every rank of every matrix compared entry by entry with the "
        "reference, kernels by exact rank; non-trivial: at least one triangle "
        "and at least one independent unfilled cycle or two components")
QUICK, THOROUGH = 4000, 60000
REQUIRED = {"call:hodge_laplacian_matrix": 2000, "decided:L1-kernel": 500,
            "with-triangles": 300, "second-asking": 300, "vast": 1}


def ask(m, sc, sp):
    r = {}
    c = m.call
    r["L0"] = c("laplacian_matrix", sc.laplacian_matrix)
    r["L0u"] = c("upper_laplacian_matrix", sc.upper_laplacian_matrix, 0)
    r["L0h"] = c("hodge_laplacian_matrix", sc.hodge_laplacian_matrix, rank=0)
    r["L1l"] = c("lower_laplacian_matrix", sc.lower_laplacian_matrix)
    r["L1l1"] = c("lower_laplacian_matrix", sc.lower_laplacian_matrix, rank=1)
    r["L1u"] = c("upper_laplacian_matrix", sc.upper_laplacian_matrix)
    r["L1u1"] = c("upper_laplacian_matrix", sc.upper_laplacian_matrix, 1)
    r["L1"] = c("hodge_laplacian_matrix", sc.hodge_laplacian_matrix)
    r["L11"] = c("hodge_laplacian_matrix", sc.hodge_laplacian_matrix, 1)
    r["L2l"] = c("lower_laplacian_matrix", sc.lower_laplacian_matrix, rank=2)
    r["L2"] = c("hodge_laplacian_matrix", sc.hodge_laplacian_matrix, rank=2)
    r["A"] = c("adjacency_matrix", sc.adjacency_matrix)
    r["I"] = c("identity_matrix", sc.identity_matrix)
    return r


def vast(m, rng):
    """Once: degrees and sizes beyond 16-bit integers."""
    from pytspl.simplicial_complex import SimplicialComplex
    from scipy import sparse

    sp = gen.vast(rng)
    m.note(complex="star of %d nodes, %d edges" % (sp.n, len(sp.edges)))
    sc = m.call("SimplicialComplex", SimplicialComplex, nodes=sp.nodes,
                edges=list(sp.edges), triangles=list(sp.tris))
    E = np.array(sp.edges)
    one = np.ones(len(E))
    A = sparse.csr_matrix((one, (E[:, 0], E[:, 1])), shape=(sp.n, sp.n))
    A = A + A.T
    D = sparse.diags(np.asarray(A.sum(0)).ravel())
    B2 = sparse.csr_matrix(m.call("incidence_matrix", sc.incidence_matrix, 2))
    for k, got, want in (
            ("L0", m.call("laplacian_matrix", sc.laplacian_matrix), D - A),
            ("L1u", m.call("upper_laplacian_matrix",
                           sc.upper_laplacian_matrix), B2 @ B2.T),
            ("L2", m.call("lower_laplacian_matrix",
                          sc.lower_laplacian_matrix, 2), B2.T @ B2),
            ("A", m.call("adjacency_matrix", sc.adjacency_matrix), A)):
        m.equal(got.shape, want.shape, k, "vast star")
        d = abs(sparse.csr_matrix(got, dtype=float) - want)
        m.check(d.nnz == 0 or d.max() == 0, k, "vast star")
    m.seen("vast")


def case(m, rng, idx):
    if idx == 3:
        return vast(m, rng)
    sp = gen.spec(rng, size="g" if idx % 701 == 300 else
                  "l" if idx % 17 == 0 else "h" if idx % 41 == 7 else None)
    m.note(complex=sp.describe())
    m.key(sp.key())
    sc = build.make_sc(m, rng, sp)
    B1 = O.b1(sp.n, sp.edges)
    B2 = build.ref_b2(m, sc, sp, O)
    A = np.zeros((sp.n, sp.n), int)
    for u, v in sp.edges:
        A[u, v] = A[v, u] = 1
    L0, L1l, L1u, L2 = B1 @ B1.T, B1.T @ B1, B2 @ B2.T, B2.T @ B2
    m.check(np.array_equal(L0, np.diag(A.sum(0)) - A), "oracle",
            "reference graph Laplacian is D - A")
    want = dict(L0=L0, L0u=L0, L0h=L0, L1l=L1l, L1l1=L1l, L1u=L1u, L1u1=L1u,
                L1=L1l + L1u, L11=L1l + L1u, L2l=L2, L2=L2, A=A,
                I=np.eye(sp.n))
    r = ask(m, sc, sp)
    for k, v in r.items():
        m.close(v, want[k], k, f"matrix {k}", atol=0)
    # kernels: exact dimensions of what was returned
    h, g, c = O.dims(sp.n, sp.edges, sp.tris)
    comps = O.components(sp.n, sp.edges)
    if len(sp.tris):
        m.seen("with-triangles")
    m.nontrivial(sp.tris and (h > 0 or comps > 1))
    if sp.n <= 40 and len(sp.edges) <= 60:
        R0 = np.rint(r["L0h"].toarray()).astype(int)
        m.equal(sp.n - O.rank_int(R0), comps, "L0-kernel",
                "kernel of the graph Laplacian is not the components")
        if sp.edges:
            R1 = np.rint(r["L1"].toarray()).astype(int)
            m.equal(len(sp.edges) - O.rank_int(R1), h, "L1-kernel",
                    "kernel of the Hodge Laplacian is not the cycles")
            prod = (r["L1l"] @ r["L1u"])
            m.close(prod, np.zeros((len(sp.edges),) * 2), "lower-upper-product",
                    atol=0)
    # Euler characteristic ties the three ranks together
    if sp.edges and sp.n <= 40 and len(sp.tris) <= 60:
        b2 = len(sp.tris) - c
        if sp.tris:
            R2 = np.rint(r["L2"].toarray()).astype(int)
            m.equal(len(sp.tris) - O.rank_int(R2), b2, "L2-kernel")
        m.equal(sp.n - len(sp.edges) + len(sp.tris), comps - h + b2,
                "euler-characteristic")
    if idx % 2 == 0:
        # the matrices handed out are the caller's own
        m.seen("second-asking")
        for v in r.values():
            if hasattr(v, "data") and hasattr(v, "nnz"):
                v.data[:] = 7.5
            else:
                v[...] = 7.5
        other = gen.twin(rng, sp)
        o = build.make_sc(m, rng, other)
        m.call("hodge_laplacian_matrix", o.hodge_laplacian_matrix)
        for k, v in ask(m, sc, sp).items():
            m.close(v, want[k], k, f"matrix {k}, second asking", atol=0)
