"""C12: random complexes are valid and reproducible from their seed."""
import itertools
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from mon import oracles as O

RULE = ("generate_random_simplicial_complex over node counts, edge "
        "probabilities, thresholds and seeds, called again in the same "
        "process after other draws from every process-wide generator, after "
        "re-seeding them, and in fresh child processes with other hash "
        "seeds; non-trivial: the threshold accepts some and rejects some "
        "3-cliques")
QUICK, THOROUGH = 2500, 20000
REQUIRED = {"call:generate": 1500, "fresh-process": 4, "partial": 150,
            "decided:repeat": 600}
CHILD = {}
ARGS = [(12, .5, .6, 3), (25, .3, .4, 11), (7, 1.0, .5, 0), (30, .15, 1.0, 77),
        (9, .8, .7, 12345), (5, .6, .0, 4)]


def data(sc, co):
    return ([int(v) for v in sc.nodes], [tuple(map(int, e)) for e in sc.edges],
            [tuple(map(int, t)) for t in sc.triangles],
            {tuple(map(int, k)): {a: float(b) for a, b in v.items()}
             for k, v in sc.get_edge_features().items()},
            {int(k): tuple(map(float, v)) for k, v in co.items()})


def prepare(tier):
    """The same requests in fresh interpreters, under other hash seeds."""
    repo = os.environ.get("PYTSPL_REPO", "/repo")
    code = (
        "import sys,random,pickle,os\n"
        f"sys.path[:0]=[{repo!r},{os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))!r}]\n"
        "import numpy as np\n"
        "out=os.dup(1); os.dup2(2,1)\n"
        "from pytspl import generate_random_simplicial_complex as g\n"
        "from mon.checks import c12\n"
        "k=int(sys.argv[1]); random.seed(k); np.random.seed(k)\n"
        "[random.random() for _ in range(k)]\n"
        "r={a: c12.data(*g(*a)) for a in c12.ARGS}\n"
        "os.write(out, pickle.dumps(r))\n")
    ps = []
    for k in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(17 * k + 5))
        ps.append(subprocess.Popen([sys.executable, "-W", "ignore", "-c", code,
                                    str(k + 3)], env=env,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE))
    for k, p in enumerate(ps):
        out, err = p.communicate(timeout=300)
        try:
            CHILD[k] = pickle.loads(out)
        except Exception:
            CHILD[k] = err.decode()[-800:]


def gen(m, *a, kw=False):
    from pytspl import generate_random_simplicial_complex as g

    n, p, t, s = a
    if kw:
        return m.call("generate", g, num_of_nodes=n, p=p, dist_threshold=t,
                      seed=s)
    return m.call("generate", g, n, p, t, s)


def state():
    return (random.getstate(), pickle.dumps(np.random.get_state()))


def case(m, rng, idx):
    if idx < len(ARGS):
        a = ARGS[idx]
    else:
        a = (int(rng.integers(1, 30)),
             float(rng.choice([0, .1, .3, .5, .8, 1.0])),
             float(rng.choice([0.0, .2, .5, .7, .9, 1.0, 1.5])),
             int(rng.integers(0, 10 ** int(rng.integers(1, 9)))))
        # (the library enumerates the cliques of every size)
        a = (min(a[0], {1.0: 11, .8: 16}.get(a[1], 30)),) + a[1:]
        if idx % 40 == 20:
            a = (int(rng.integers(60, 260)),
                 float(rng.choice([0, .01, .03, .06]))) + a[2:]
            m.seen("large")
    m.note(arguments=a)
    m.key(a)
    random.seed(idx)
    np.random.seed(idx)
    st = state()
    sc, co = gen(m, *a, kw=bool(rng.random() < .5))
    m.check(state() == st, "generators-undisturbed",
            "a process-wide random generator was advanced or re-seeded")
    n, p, t, s = a
    d = data(sc, co)
    nodes, edges, tris, ef, pos = d
    m.equal(nodes, list(range(n)), "nodes")
    und = [tuple(sorted(e)) for e in edges]
    m.check(len(set(und)) == len(und) and all(
        0 <= u < v < n for u, v in und), "edges", got=edges)
    if p == 0:
        m.equal(edges, [], "edges-p0")
    if p == 1:
        m.equal(len(edges), n * (n - 1) // 2, "edges-p1")
    m.equal(sorted(ef), sorted(edges), "distance-edges")
    for e, v in ef.items():
        m.check(list(v) == ["distance"] and 0 <= v["distance"] < 1,
                "distance", f"edge {e}", got=v)
    dist = {tuple(sorted(e)): v["distance"] for e, v in ef.items()}
    if len(dist) > 3:
        m.check(len(set(dist.values())) == len(dist), "distances-vary",
                got=dist)
    cl = O.cliques(n, edges)
    want = [x for x in cl if all(dist[q] < t for q in
                                 itertools.combinations(x, 2))]
    m.check(O.same_triangles(tris, want), "triangles", got=tris, want=want,
            threshold=t)
    if want and len(want) < len(cl):
        m.seen("partial")
        m.nontrivial()
    m.equal(sorted(pos), nodes, "coordinates")
    m.check(all(len(v) == 2 and np.all(np.isfinite(v))
                for v in pos.values()), "coordinates")
    B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
    m.check(np.array_equal(B1.toarray(), O.b1(n, edges)), "B1")
    m.check(not np.any((B1 @ B2).toarray()) if tris else True, "boundary-law")
    # other draws and other requests in between do not matter
    for k in range(2):
        mode = int(rng.integers(0, 3))
        if mode == 0:
            [random.random() for _ in range(5)]
            np.random.rand(7)
        elif mode == 1:
            random.seed(1)
            np.random.seed(2)
        else:
            gen(m, max(1, n - 1), p, t, s + 1)
        # the returned objects are the caller's own
        sc.edges.append((0, 0))
        sc.nodes.append(99)
        co.clear()
        sc, co = gen(m, *a)
        m.equal(data(sc, co), d, "repeat", "same arguments, other result")
    # the threshold only decides which triangles are filled
    t2 = float(rng.choice([0.0, .35, .65, 1.0]))
    sc2, co2 = gen(m, n, p, t2, s)
    d2 = data(sc2, co2)
    m.equal((d2[0], d2[1], d2[3], d2[4]), (d[0], d[1], d[3], d[4]),
            "threshold-only-triangles")
    lo, hi = sorted([(t, tris), (t2, d2[2])])
    m.check({tuple(sorted(x)) for x in lo[1]} <=
            {tuple(sorted(x)) for x in hi[1]}, "threshold-monotone")
    if n >= 12 and .25 < p < .9:
        d3 = data(*gen(m, n, p, t, s + 1))
        m.check(d3[1] != d[1] or d3[3] != d[3], "seed-matters",
                "two seeds give the same complex")
    if idx < len(ARGS):
        for k, r in CHILD.items():
            m.check(not isinstance(r, str), "child", f"{r}")
            m.seen("fresh-process")
            m.equal(r[a], d, "repeat-process",
                    "another process gives another complex")
