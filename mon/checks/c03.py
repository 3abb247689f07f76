"""C03: a builder fills exactly the requested triangles and keeps the rest."""
import contextlib
import copy
import io
import itertools
import re

import numpy as np

from mon import gen, oracles as O

RULE = ("random graphs with random edge features (zero, negative, equal to the "
        "threshold, infinite distances; features keyed in either direction) "
        "built with the default, the distance and the explicit condition; "
        "non-trivial: the distance condition accepts some and rejects some of "
        "the 3-cliques")
QUICK, THOROUGH = 4000, 60000
REQUIRED = {"call:to_simplicial_complex": 2000, "partial-distance": 250,
            "reversed-feature-keys": 250, "unknown-distance": 200, "decided:faces": 1000}


def describe_check(m, rng, sc, nodes, edges, tris, nf, ef, names):
    m.equal(tuple(sc.shape), (len(nodes), len(edges), len(tris)), "shape")
    top = 2 if tris else 1 if edges else 0
    m.equal(m.call("max_dim", lambda: sc.max_dim), top, "max_dim")
    got = m.call("simplices", lambda: sc.simplices)
    want = [(v,) for v in nodes] + [tuple(e) for e in edges]
    m.equal([tuple(s) for s in got[:len(want)]], want, "simplices-nodes-edges")
    m.equal(sorted(tuple(sorted(s)) for s in got[len(want):]),
            sorted(tuple(sorted(t)) for t in tris), "simplices-triangles")
    m.equal(list(sc.nodes), list(nodes), "nodes-kept")
    m.equal([tuple(e) for e in sc.edges], [tuple(e) for e in edges],
            "edges-kept")
    m.equal(sc.get_node_features(), nf, "node-features")
    m.equal(sc.get_edge_features(), ef, "edge-features")
    m.equal(list(m.call("edge_feature_names", sc.edge_feature_names)),
            names if ef else [], "edge-feature-names")
    for k in names if ef else []:
        m.equal(m.call("get_edge_features", sc.get_edge_features, k),
                {e: v[k] for e, v in ef.items()}, "edge-feature-values",
                f"feature {k}")
    if ef:
        m.expect_raises("unknown-feature", KeyError, sc.get_edge_features,
                        "no-such-feature")
    for s in [tuple(t) for t in tris[:4]] + [tuple(e) for e in edges[:4]] + \
            [(int(rng.integers(0, 9)), 20, 11, 15)]:
        s = tuple(s[int(i)] for i in rng.permutation(len(s)))
        arg = s if rng.random() < .5 else list(s)
        got = m.call("get_faces", sc.get_faces, arg)
        want = sorted(tuple(sorted(f))
                      for f in itertools.combinations(s, len(s) - 1))
        m.equal(sorted(tuple(f) for f in got), want, "faces", f"of {s}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.call("print_summary", sc.print_summary)
    nums = [int(x) for x in re.findall(r"\d+", out.getvalue())]
    for x in (len(nodes), len(edges), len(tris), top):
        m.check(x in nums, "summary", f"{x} not in summary", text=out.getvalue())


def case(m, rng, idx):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    fam = str(rng.choice(["complete", "er", "wheel", "surface", "strip",
                          "grid", "paper", "any"]))
    sp = gen.spec(rng, family=None if fam == "any" else fam,
                  size="h" if idx % 41 == 7 else None)
    edges, nodes = list(sp.edges), list(sp.nodes)
    cl = O.cliques(sp.n, edges)
    col = str(rng.choice(["distance", "dist", "w 1"]))
    default_col = col == "distance"
    th = float(rng.choice([1.5, 0.5, 0.0, 0.3, 2.0, -0.2]))
    # one distribution of distances per case, with values on the threshold
    pal = str(rng.choice(["uniform", "grid", "int"]))
    ef, rev = {}, False
    unknown = rng.random() < .2
    names = [str(x) for x in rng.permutation([col, "capacity", "x"])]
    if rng.random() < .3:
        names = [col]
    for e in edges:
        if pal == "uniform":
            d = float(rng.uniform(th - .6, th + .25))
        elif pal == "grid":
            d = th + float(rng.choice([-1e-12, -.5, 0.0, 1e-12, .5],
                                      p=[.2, .5, .12, .08, .1]))
            if rng.random() < .1:
                d = float(rng.choice([0.0, np.inf, -np.inf]))
        else:
            d = int(rng.integers(0, 3))
        if unknown and rng.random() < .1:
            # an unknown distance is below no threshold
            d = [None, float("nan")][int(rng.integers(0, 2))]
            m.seen("unknown-distance")
        k = e
        if rng.random() < .25:
            k, rev = e[::-1], True
        ef[k] = {n: (d if n == col else float(rng.uniform(-3, 3)))
                 for n in names}
    if rng.random() < .5:
        ks = list(ef)
        ef = {ks[int(i)]: ef[ks[int(i)]] for i in rng.permutation(len(ks))}
    nf = {v: {"pop": float(rng.normal())} for v in nodes} \
        if rng.random() < .5 else {}
    m.note(complex=sp.describe(), threshold=th, distances=ef)
    m.key(sp.key(), th, sorted((k, v[col]) for k, v in ef.items()))
    if rev:
        m.seen("reversed-feature-keys")
    keep = copy.deepcopy((nodes, edges, nf, ef))

    b = m.call("SCBuilder", SCBuilder, nodes=nodes, edges=edges,
               node_features=nf, edge_features=ef)
    und = {tuple(sorted(k)): v[col] for k, v in ef.items()}
    near = [t for t in cl if all(
        und[tuple(sorted(p))] is not None and und[tuple(sorted(p))] < th
        for p in itertools.combinations(t, 2))]
    if near and len(near) < len(cl):
        m.seen("partial-distance")
        m.nontrivial()

    runs = ["all", "distance", "explicit", "list"]
    for r in [runs[int(i)] for i in rng.permutation(4)]:
        if r == "all":
            kw = {} if rng.random() < .5 else dict(condition="all")
            if rng.random() < .3:
                kw["dist_threshold"] = th
            sc = m.call("to_simplicial_complex", b.to_simplicial_complex, **kw)
            want, ordered = cl, False
        elif r == "distance":
            kw = {}
            if not default_col or rng.random() < .5:
                kw["dist_col_name"] = col
            if th != 1.5 or rng.random() < .5:
                kw["dist_threshold"] = th
            sc = m.call("to_simplicial_complex", b.to_simplicial_complex,
                        condition="distance", **kw)
            want, ordered = near, False
        elif r == "explicit":
            k = int(rng.integers(0, len(cl) + 1))
            want = [tuple(cl[int(i)][int(j)] for j in rng.permutation(3))
                    for i in rng.permutation(len(cl))[:k]]
            arg = list(want) if rng.random() < .5 else [
                list(t) for t in want]
            sc = m.call("to_simplicial_complex", b.to_simplicial_complex,
                        condition=str(rng.choice(["all", "distance"])),
                        dist_col_name=col, dist_threshold=th,
                        triangles=arg)
            ordered = True
        else:
            got = m.call("triangles", b.triangles)
            m.check(O.same_triangles(got, cl) and len(got) == len(cl),
                    "triangles", "not the 3-cliques", got=got, want=cl)
            got = m.call("triangles_dist_based", b.triangles_dist_based, col,
                         th)
            m.check(O.same_triangles(got, near), "triangles_dist_based",
                    "not the near 3-cliques", got=got, want=near)
            continue
        got = sc.triangles
        if ordered:
            m.equal([tuple(t) for t in got], want, "explicit-triangles")
        else:
            m.check(O.same_triangles(got, want) and len(got) == len(want),
                    f"{r}-triangles", "wrong set of filled triangles",
                    got=got, want=want, edges=edges, features=ef, th=th)
        describe_check(m, rng, sc, nodes, edges, want, nf, ef, names)
        m.check(keep == (nodes, edges, nf, ef), "inputs-kept",
                "the builder changed what it was given")
    if sp.edges and idx % 5 == 0:
        pos = m.call("generate_coordinates", sc.generate_coordinates)
        m.equal(sorted(pos), nodes, "generated-coordinates")
        for v in pos.values():
            m.check(len(v) == 2 and np.all(np.isfinite(v)),
                    "generated-coordinates", got=v)
    # without features, and with nothing but nodes
    b2 = m.call("SCBuilder", SCBuilder, nodes, edges)
    sc = m.call("to_simplicial_complex", b2.to_simplicial_complex)
    m.check(O.same_triangles(sc.triangles, cl), "all-triangles",
            got=sc.triangles, want=cl)
    m.equal(sc.get_edge_features(), {}, "edge-features")
    m.equal(sc.edge_feature_names(), [], "edge-feature-names")
