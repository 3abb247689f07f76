"""C09: incidence matrix files round-trip into the complex they describe."""
import os
import shutil
import tempfile

import numpy as np

from mon import gen, oracles as O

RULE = ("pairs of B1 and transposed B2 files written from random complexes "
        "(any edge order and direction, isolated nodes, either orientation "
        "of each triangle, integer or float formatting), read back and "
        "compared matrix by matrix; non-trivial: unsorted edges, mixed "
        "directions and a triangle")
QUICK, THOROUGH = 8000, 50000
REQUIRED = {"call:read_B1_B2": 1000, "isolated-nodes": 150, "unsorted": 500}
TMP = None


def prepare(tier):
    global TMP
    TMP = tempfile.mkdtemp(prefix="verif-c09-", dir="/tmp")


def cleanup():
    if TMP and TMP.startswith("/tmp/verif-c09-"):
        shutil.rmtree(TMP, ignore_errors=True)


def write(path, M, fmt):
    with open(path, "w") as fh:
        for r in M:
            fh.write(",".join(fmt(x) for x in r) + "\n")


def case(m, rng, idx):
    from pytspl.io import network_reader as nr

    while True:
        sp = gen.spec(rng, min_edges=3, size="h" if idx % 41 == 7 else None)
        if sp.tris:
            break
    E = [tuple(map(int, e)) for e in sp.edges]
    T = [tuple(sorted(map(int, t))) for t in sp.tris]
    B1 = O.b1(sp.n, E)
    B2 = O.b2(E, T) * rng.choice([-1, 1], len(T))[None, :]
    m.note(complex=sp.describe())
    m.key(sp.key(), B2.tobytes())
    uns = E != sorted(E)
    if uns:
        m.seen("unsorted")
    m.nontrivial(uns and len({a < b for a, b in E}) > 1)
    if np.any(~B1.any(axis=1)):
        m.seen("isolated-nodes")
    fm = [lambda x: str(int(x)), lambda x: "%.1f" % x,
          lambda x: "%.18e" % x][int(rng.integers(0, 3))]
    p1 = os.path.join(TMP, f"a{idx}-{os.getpid()}")
    p2 = os.path.join(TMP, f"b{idx}-{os.getpid()}")
    write(p1, B1, fm)
    write(p2, B2.T, fm)
    b, tris = m.call("read_B1_B2", nr.read_B1_B2, p1, p2)
    m.equal([int(x) for x in b.nodes], list(range(sp.n)), "nodes")
    m.equal([tuple(map(int, e)) for e in b.edges], E, "edges")
    m.equal([tuple(sorted(map(int, t))) for t in tris], T, "triangles")
    sc = m.call("to_simplicial_complex", b.to_simplicial_complex,
                triangles=tris)
    m.close(sc.incidence_matrix(1), B1, "B1-round-trip", atol=0)
    g2 = m.call("incidence_matrix", sc.incidence_matrix, 2).toarray()
    m.check(O.align_b2(g2, B2) is not None, "B2-round-trip", got=g2, want=B2)
    got = m.call("read_B2", nr.read_B2, p2, np.asarray(E))
    m.equal([tuple(sorted(map(int, t))) for t in got], T, "read_B2")
    # write what was read, read it again
    write(p1, sc.incidence_matrix(1).toarray(), fm)
    write(p2, g2.T, fm)
    b2, t2 = m.call("read_B1_B2", nr.read_B1_B2, p1, p2)
    sc2 = m.call("to_simplicial_complex", b2.to_simplicial_complex,
                 triangles=t2)
    m.close(sc2.incidence_matrix(1), B1, "B1-fixpoint", atol=0)
    m.check(O.align_b2(sc2.incidence_matrix(2).toarray(), B2) is not None,
            "B2-fixpoint")
    os.unlink(p1)
    os.unlink(p2)
