"""C01: the boundary operators form an exact chain complex."""
import itertools

import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes of 14 topology families in random encodings (labels, "
        "edge order and direction, triangle order and vertex order), built "
        "directly and through the builder, plus an enumeration of all "
        "orientations of small complexes; non-trivial: at least one triangle "
        "and both edge directions present")
QUICK, THOROUGH = 8000, 60000
REQUIRED = {"call:incidence_matrix": 1000, "decided:boundary-of-boundary": 500,
            "mixed-orientation-with-triangles": 100, "vast": 1,
            "nodes-listed-in-any-order": 100}


def inspect(m, sc, n, edges, tris, fmt):
    B0 = m.call("incidence_matrix", sc.incidence_matrix, rank=0)
    B1 = m.call("incidence_matrix", sc.incidence_matrix, rank=1)
    B2 = m.call("incidence_matrix", sc.incidence_matrix, 2)
    B1, B2 = B1.toarray(), B2.toarray()
    m.check(np.array_equal(np.asarray(B0).ravel(), np.ones(n)), "rank-0",
            "rank 0 incidence is not all ones", got=B0)
    ref1, ref2 = O.b1(n, edges), O.b2(edges, tris)
    m.check(B1.shape == ref1.shape, "B1-shape", got=B1.shape, want=ref1.shape)
    m.check(np.array_equal(B1, ref1), "B1-entries",
            "node-edge incidence differs", got=B1, want=ref1, edges=edges)
    m.check(B2.shape == ref2.shape, "B2-shape", got=B2.shape, want=ref2.shape)
    m.check(np.array_equal(np.abs(B2), np.abs(ref2)), "B2-support",
            "edge-triangle incidence is not on the boundary edges",
            got=B2, want=ref2, edges=edges, tris=tris)
    m.check(not np.any(B1 @ B2), "boundary-of-boundary",
            "B1 @ B2 is not zero", edges=edges, tris=tris, B2=B2)
    m.check(O.align_b2(B2, ref2) is not None, "B2-orientation",
            "a triangle column is not a boundary up to sign",
            got=B2, want=ref2)
    fmt.append((B1, B2))


def vast(m, rng):
    """Once: more nodes and edges than 16-bit integers can number."""
    from pytspl.simplicial_complex import SimplicialComplex
    from scipy import sparse

    sp = gen.vast(rng)
    m.note(complex="star of %d nodes, %d edges" % (sp.n, len(sp.edges)))
    sc = m.call("SimplicialComplex", SimplicialComplex, nodes=sp.nodes,
                edges=list(sp.edges), triangles=list(sp.tris))
    E = np.array(sp.edges)
    k = np.arange(len(E))
    one = np.ones(len(E))
    want = sparse.csr_matrix((np.r_[-one, one], (E.T.ravel(), np.r_[k, k])),
                             shape=(sp.n, len(E)))
    B1 = m.call("incidence_matrix", sc.incidence_matrix, 1)
    B2 = m.call("incidence_matrix", sc.incidence_matrix, 2)
    m.equal(B1.shape, want.shape, "B1-shape", "vast")
    m.check((B1 != want).nnz == 0, "B1-entries", "vast star")
    B2 = sparse.csc_matrix(B2)
    m.equal(B2.shape, (len(E), len(sp.tris)), "B2-shape", "vast")
    at = {tuple(sorted(e)): i for i, e in enumerate(sp.edges)}
    for j, t in enumerate(sp.tris):
        col = B2[:, j]
        m.equal(sorted(map(int, col.nonzero()[0])), sorted(
            at[p] for p in itertools.combinations(sorted(t), 2)),
            "B2-support", f"vast star, triangle {t}")
        m.check(np.all(np.abs(col.data[col.data != 0]) == 1), "B2-support")
    m.check(not np.any((B1 @ B2).toarray()), "boundary-of-boundary", "vast")
    m.seen("vast")


def case(m, rng, idx):
    from pytspl.simplicial_complex import SimplicialComplex
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    if idx < 120:
        # every orientation of a triangle pair / tetrahedron skeleton
        tri_perms = list(itertools.permutations((0, 1, 2)))
        if idx < 48:
            flips = [(idx >> k) & 1 for k in range(3)]
            es = [(0, 1), (1, 2), (0, 2)]
            perm = tri_perms[idx // 8]
            n, ts = 3, [perm]
        else:
            es = [(0, 1), (1, 2), (0, 2), (1, 3), (2, 3)]
            flips = [((idx - 48) >> k) & 1 for k in range(5)]
            n, ts = 4, [(2, 0, 1), (3, 1, 2)]
        es = [e[::-1] if f else e for e, f in zip(es, flips)]
        sp = gen.Spec(n, es, ts, "enumerated")
    else:
        sp = gen.spec(rng, size="h" if idx % 41 == 7 else None)
    if idx == 130:
        return vast(m, rng)
    m.note(complex=sp.describe())
    m.key(sp.key())
    mixed = len({e[0] < e[1] for e in sp.edges}) > 1
    m.nontrivial(sp.tris and mixed)
    if sp.tris and mixed:
        m.seen("mixed-orientation-with-triangles")
    got = []
    sc = m.call("SimplicialComplex", SimplicialComplex,
                nodes=build.listed(m, rng, sp), edges=list(sp.edges),
                triangles=list(sp.tris))
    inspect(m, sc, sp.n, sp.edges, sp.tris, got)
    # through the builder, with the same explicit triangles and with all
    b = m.call("SCBuilder", SCBuilder, nodes=build.listed(m, rng, sp),
               edges=list(sp.edges))
    sc2 = m.call("to_simplicial_complex", b.to_simplicial_complex,
                 triangles=list(sp.tris))
    inspect(m, sc2, sp.n, sp.edges, sp.tris, got)
    sc3 = m.call("to_simplicial_complex", b.to_simplicial_complex)
    inspect(m, sc3, sp.n, sp.edges, list(sc3.triangles), got)
    m.check(O.same_triangles(sc3.triangles, O.cliques(sp.n, sp.edges)),
            "builder-triangles", "default triangles are not the 3-cliques",
            got=sc3.triangles, edges=sp.edges)
    # the constructions themselves, asked of another complex
    A = m.call("edges_to_B1", sc3.edges_to_B1, list(sp.edges), sp.n)
    m.check(np.array_equal(A, got[0][0]), "B1-construction", got=A)
    A = m.call("triangles_to_B2", sc3.triangles_to_B2, list(sp.tris),
               list(sp.edges))
    m.check(np.array_equal(A, got[0][1]), "B2-construction", got=A)
    # asking again, after the others were built, answers the same
    inspect(m, sc, sp.n, sp.edges, sp.tris, got)
    m.check(all(np.array_equal(x, y) for x, y in zip(got[0], got[-1])),
            "repeatable", "second answer differs")
