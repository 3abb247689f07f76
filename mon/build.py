"""Making library objects from generated complexes, in the several ways a
caller can."""
import copy


def listed(m, rng, sp):
    """The nodes, one time in ten in any order: a node's row is its number,
    not its place in the list."""
    if not hasattr(sp, "listed"):
        sp.listed = list(sp.nodes)
        if rng.random() < .1:
            sp.listed = [sp.listed[i] for i in rng.permutation(sp.n)]
    if sp.listed != sorted(sp.listed):
        m.seen("nodes-listed-in-any-order")
    return list(sp.listed)


def make_sc(m, rng, sp, node_features=None, edge_features=None, via=None):
    from pytspl.simplicial_complex import SimplicialComplex
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    if hasattr(m, "top"):
        m.top("nodes", sp.n)
        m.top("edges", len(sp.edges))
        m.top("triangles", len(sp.tris))
    via = via or str(rng.choice(["direct", "builder"]))
    nodes = listed(m, rng, sp)
    kw = {}
    if node_features is not None:
        kw["node_features"] = node_features
    if edge_features is not None:
        kw["edge_features"] = edge_features
    if via == "direct":
        return m.call("SimplicialComplex", SimplicialComplex,
                      nodes=nodes, edges=list(sp.edges),
                      triangles=list(sp.tris), **kw)
    b = m.call("SCBuilder", SCBuilder, nodes=nodes,
               edges=list(sp.edges), **kw)
    return m.call("to_simplicial_complex", b.to_simplicial_complex,
                  triangles=copy.copy(sp.tris))


def snapshot(sc):
    """Everything a caller can see of a complex."""
    import numpy as np

    return (list(map(int, sc.nodes)),
            [tuple(map(int, e)) for e in sc.edges],
            [tuple(map(int, t)) for t in sc.triangles],
            copy.deepcopy(sc.node_features), copy.deepcopy(sc.edge_features),
            np.asarray(sc.incidence_matrix(1).toarray()).tobytes(),
            np.asarray(sc.incidence_matrix(2).toarray()).tobytes())


def ref_b2(m, sc, sp, O):
    """The reference boundary matrix in the orientation the library chose."""
    got = m.call("incidence_matrix", sc.incidence_matrix, 2).toarray()
    ref = O.b2(sp.edges, sp.tris)
    s = O.align_b2(got, ref)
    m.check(s is not None, "B2-orientation",
            "edge-triangle incidence is not a boundary", got=got, want=ref,
            edges=sp.edges, tris=sp.tris)
    return ref * s.astype(int)[None, :] if ref.size else ref
