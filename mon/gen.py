"""Workload generation: complexes of many topologies in many encodings, and
flows on them."""
import itertools

import numpy as np


class Spec:
    """A simplicial complex as the caller writes it down."""

    def __init__(self, n, edges, tris, kind):
        self.n, self.edges, self.tris, self.kind = n, edges, tris, kind

    @property
    def nodes(self):
        return list(range(self.n))

    def key(self):
        return (self.n, tuple(map(tuple, self.edges)),
                tuple(map(tuple, self.tris)))

    def describe(self):
        return (f"{self.kind}: n={self.n} edges={self.edges} "
                f"tris={[tuple(t) for t in self.tris]}")


def und(e):
    return (e[0], e[1]) if e[0] < e[1] else (e[1], e[0])


# -- topologies: (n, set of undirected edges, triangles or None) -----------
def _er(rng, size):
    n = int(rng.integers(1, {"s": 9, "m": 18, "l": 40}[size]))
    p = float(rng.choice([0.0, 0.1, 0.2, 0.3, 0.5, 0.8, 1.0],
                         p=[.03, .15, .22, .25, .2, .1, .05]))
    if size == "l":
        p = min(p, 0.3)
    return n, {e for e in itertools.combinations(range(n), 2)
               if rng.random() < p}, None


def _tree(rng, size):
    n = int(rng.integers(2, {"s": 9, "m": 25, "l": 70}[size]))
    return n, {und((int(rng.integers(0, i)), i)) for i in range(1, n)}, None


def _path(rng, size):
    n = int(rng.integers(2, {"s": 8, "m": 25, "l": 80}[size]))
    return n, {(i, i + 1) for i in range(n - 1)}, None


def _cycle(rng, size):
    n = int(rng.integers(3, {"s": 9, "m": 25, "l": 80}[size]))
    return n, {und((i, (i + 1) % n)) for i in range(n)}, None


def _star(rng, size):
    n = int(rng.integers(2, {"s": 9, "m": 20, "l": 60}[size]))
    return n, {(0, i) for i in range(1, n)}, None


def _wheel(rng, size):
    n = int(rng.integers(4, {"s": 8, "m": 16, "l": 40}[size]))
    e = {(0, i) for i in range(1, n)}
    e |= {und((i, i % (n - 1) + 1)) for i in range(1, n)}
    return n, e, None


def _complete(rng, size):
    n = int(rng.integers(3, {"s": 6, "m": 8, "l": 12}[size]))
    return n, set(itertools.combinations(range(n), 2)), None


def _bip(rng, size):
    a = int(rng.integers(1, {"s": 4, "m": 6, "l": 10}[size]))
    b = int(rng.integers(1, {"s": 4, "m": 6, "l": 10}[size]))
    return a + b, {(i, a + j) for i in range(a) for j in range(b)}, None


def _strip(rng, size):
    """A band of triangles, possibly glued to an annulus or Moebius band."""
    k = int(rng.integers(4, {"s": 7, "m": 14, "l": 40}[size]))
    t = [tuple(sorted((i, i + 1, i + 2))) for i in range(k - 2)]
    mode = int(rng.integers(0, 3))
    if mode:
        k = max(k, 7)
        t = [tuple(sorted((i % k, (i + 1) % k, (i + 2) % k)))
             for i in range(k)]
    e = {und(x) for a in t for x in itertools.combinations(a, 2)}
    return k, e, t


def _torus(rng, size):
    a = int(rng.integers(3, {"s": 4, "m": 5, "l": 6}[size]))
    b = int(rng.integers(3, {"s": 4, "m": 5, "l": 6}[size]))
    twist = bool(rng.integers(0, 2))  # Klein bottle

    def v(i, j):
        if i >= a and twist:
            j = -j
        return (i % a) * b + j % b

    t = set()
    for i in range(a):
        for j in range(b):
            t.add(tuple(sorted((v(i, j), v(i + 1, j), v(i + 1, j + 1)))))
            t.add(tuple(sorted((v(i, j), v(i, j + 1), v(i + 1, j + 1)))))
    t = sorted(x for x in t if len(set(x)) == 3)
    e = {und(x) for y in t for x in itertools.combinations(y, 2)}
    return a * b, e, t


def _surface(rng, size):
    """Octahedron, icosahedron-like sphere or the 6-vertex projective
    plane."""
    mode = int(rng.integers(0, 3))
    if mode == 0:
        t = [(a, b, c) for a in (0, 1) for b in (2, 3) for c in (4, 5)]
        n = 6
    elif mode == 1:
        t = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 1, 5),
             (1, 2, 4), (2, 3, 5), (1, 3, 4), (2, 4, 5), (1, 3, 5)]
        n = 6
    else:
        t = list(itertools.combinations(range(4), 3))
        n = 4
    e = {und(x) for y in t for x in itertools.combinations(y, 2)}
    return n, e, sorted(tuple(sorted(x)) for x in t)


def _grid(rng, size):
    a = int(rng.integers(2, {"s": 4, "m": 5, "l": 8}[size]))
    b = int(rng.integers(2, {"s": 4, "m": 5, "l": 8}[size]))
    e, d = set(), float(rng.choice([0.0, 0.5, 1.0]))
    for i in range(a):
        for j in range(b):
            if i + 1 < a:
                e.add((i * b + j, (i + 1) * b + j))
            if j + 1 < b:
                e.add((i * b + j, i * b + j + 1))
            if i + 1 < a and j + 1 < b and rng.random() < d:
                e.add((i * b + j, (i + 1) * b + j + 1))
    return a * b, e, None


def _paper(rng, size):
    return 7, {(0, 1), (0, 2), (0, 3), (1, 2), (2, 3), (2, 5), (3, 4),
               (4, 5), (4, 6), (5, 6)}, None


def _barbell(rng, size):
    """Two dense parts joined by one edge or a short path: one eigenvalue far
    below the others."""
    a, b = (int(x) for x in rng.integers(3, 5 if size == "s" else 7, 2))
    mid = int(rng.integers(0, 3))
    e = {(i, j) for i in range(a) for j in range(i)}
    off = a + mid
    e |= {(off + i, off + j) for i in range(b) for j in range(i)}
    chain = list(range(a - 1, off + 1))
    e |= set(zip(chain[1:], chain))
    return a + mid + b, {und(x) for x in e}, None


def _comet(rng, size):
    """A long tail on a node of high degree or on an edge in many triangles:
    a small eigenvalue next to a large one (only on request)."""
    hub = int(rng.integers(6, 40))
    e, t = set(), []
    if rng.random() < .5:
        e |= {(0, i) for i in range(1, hub)}
    else:
        e |= {(0, 1)} | {(i, j) for i in (0, 1) for j in range(2, hub)}
    n = hub
    tail = int(rng.integers(3, 21))
    if rng.random() < .5:  # a path
        last = int(rng.integers(0, hub))
        for _ in range(tail):
            e.add(und((last, n)))
            last, n = n, n + 1
    else:  # a strip of triangles
        a, b = 0, 1
        for _ in range(tail):
            e |= {und((a, n)), und((b, n))}
            a, b, n = b, n, n + 1
    if rng.random() < .5:
        t = None
    else:
        t = [c for c in cliques(n, e) if rng.random() < .9]
    return n, e, t


def _single(rng, size):
    mode = int(rng.integers(0, 3))
    if mode == 0:
        return 2, {(0, 1)}, None
    if mode == 1:
        return 3, {(0, 1), (0, 2), (1, 2)}, None
    return int(rng.integers(1, 4)), set(), None


# -- sizes at which implementations change their behaviour ------------------
_CONSTS = None


def sizes(lo=9, hi=400):
    """Sizes at which code tends to change: powers of two, round numbers and
    the integer constants of the library itself (as a fuzzer's dictionary:
    they only steer the workload)."""
    global _CONSTS
    if _CONSTS is None:
        import ast
        import os
        import sys
        out = {16, 20, 25, 32, 50, 64, 100, 128, 150, 200, 250, 255, 256, 300,
               400, 500, 512, 1000, 1024}
        root = os.environ.get("PYTSPL_REPO", "/repo") + "/pytspl"
        for d, _, files in os.walk(root):
            for f in files:
                if not f.endswith(".py"):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (SyntaxError, ValueError, OSError):
                    continue
                out |= {n.value for n in ast.walk(tree)
                        if isinstance(n, ast.Constant)
                        and type(n.value) is int and 9 <= n.value <= 3000}
        _CONSTS = sorted(out)
    return [c for c in _CONSTS if lo <= c <= hi]


def _sized(rng, top):
    """A cone over a random graph, which has exact numbers of nodes, edges,
    triangles and unfilled cycles around one of the special sizes, and all
    non-zero eigenvalues at least 1."""
    c = int(rng.choice(sizes(9, max(top, 16)))) + int(rng.integers(-1, 2))
    what = str(rng.choice(["nodes", "edges", "triangles", "cycles"]))
    if what == "nodes":
        n = max(c, 4)
        k = int(rng.integers(0, max(1, min(n, top - n + 1) + 1)))
        q = rng.random()
    elif what == "edges":
        k = int(rng.integers(0, c // 2 + 1))
        n = c - k + 1
        q = rng.random()
    else:  # k leaf-leaf links, c of them filled (or left open)
        k = c + int(rng.integers(0, 4))
        n = max(5, int(k * rng.uniform(.4, 1.)) + 2)
        q = c / k if what == "triangles" else 1 - c / k
    leaves = n - 1
    k = min(k, leaves * (leaves - 1) // 2)
    e = set()
    while len(e) < k:
        a, b = (int(x) for x in rng.integers(1, n, 2))
        if a != b:
            e.add(und((a, b)))
    if what in ("triangles", "cycles"):
        t = int(round(q * k))
    else:
        t = int(rng.integers(0, k + 1))
    lst = sorted(e)
    t = [(0,) + lst[int(i)] for i in rng.permutation(k)[:t]]
    e |= {(0, i) for i in range(1, n)}
    if rng.random() < .3:  # closed leaf triangles may be filled, too
        t += [x for x in cliques(n, lst) if rng.random() < .5]
    return n, e, t, f"huge-cone-{what}-{c}"


# -- rare but legal extremes: high degrees, many edges, large node ids ------
def _huge(rng, mid=False, top=400):
    """A complex of hundreds of simplices. mid: eigenvalues bounded away from
    zero and at most some 200 edges (for the numerical checks)."""
    if rng.random() < .5:
        return _sized(rng, top)
    k = str(rng.choice(["star", "book", "wheel", "stars"] if mid else
                       ["star", "book", "wheel", "stars", "sparse", "sparse",
                        "path", "complete", "er"]))
    t = None
    if k == "star":  # a node of very high degree
        n = int(rng.integers(130, 200 if mid else 300))
        e = {(0, i) for i in range(1, n)}
    elif k == "book":  # an edge in very many triangles
        p = int(rng.integers(60, 90)) if mid else int(rng.integers(130, 170))
        n = p + 2
        e = {(0, 1)} | {(i, j) for i in (0, 1) for j in range(2, n)}
    elif k == "wheel":
        n = int(rng.integers(60, 90)) if mid else int(rng.integers(130, 160))
        e = {(0, i) for i in range(1, n)}
        e |= {und((i, i % (n - 1) + 1)) for i in range(1, n)}
    elif k == "stars":  # two hubs that share leaves
        n = int(rng.integers(70, 90)) if mid else int(rng.integers(90, 180))
        e = {(0, i) for i in range(2, n)} | {
            (1, i) for i in range(2, n) if rng.random() < .5}
    elif k == "sparse":  # few links between nodes with large ids
        n = int(rng.integers(300, 1600))
        e = set()
        for _ in range(int(rng.integers(2, 12))):
            a, b, c = (int(x) for x in rng.choice(n, 3, replace=False))
            e |= {und((a, b)), und((b, c))}
            if rng.random() < .6:
                e.add(und((a, c)))
        for _ in range(int(rng.integers(0, 20))):
            a, b = (int(x) for x in rng.choice(n, 2, replace=False))
            e.add(und((a, b)))
        # pairs a careless key (a * K + b, or the digits in a row) confuses
        for a, b in sorted(e):
            K = int(rng.choice([10, 100, 1000, 1024, len(e)]))
            if rng.random() < .3 and a >= 1 and b + K < n:
                e.add(und((a - 1, b + K)))
        if rng.random() < .6:
            d = str(rng.integers(111, 1000))
            x, y = (int(d[0]), int(d[1:])), (int(d[:2]), int(d[2:]))
            e |= {und(z) for z in (x, y) if z[0] != z[1]}
    elif k == "path":
        n = int(rng.integers(130, 300))
        e = {(i, i + 1) for i in range(n - 1)}
    elif k == "complete":
        n = int(rng.integers(12, 15))
        e = set(itertools.combinations(range(n), 2))
    else:
        n = int(rng.integers(50, 80))
        q = rng.uniform(.05, .15)
        e = {x for x in itertools.combinations(range(n), 2)
             if rng.random() < q}
    return n, e, t, "huge-" + k


def _giant(rng, lo=500, hi=1300):
    """Many hundreds of edges, with non-zero eigenvalues away from zero: a
    cone over a random graph, or a random graph of high enough degree."""
    top = int(rng.integers(lo, hi))
    c = [x for x in sizes(lo, hi) if x <= top] or [top]
    if rng.random() < .5:
        top = int(c[-1]) + int(rng.integers(-1, 2))
    if rng.random() < .5:
        n = int(top * rng.uniform(.3, .95))
        e = set()
        while len(e) < top - n + 1:
            a, b = (int(x) for x in rng.integers(1, n, 2))
            if a != b:
                e.add(und((a, b)))
        t = [(0,) + x for x in sorted(e) if rng.random() < .5]
        return n, e | {(0, i) for i in range(1, n)}, t, "giant-cone"
    d = int(rng.integers(5, 10))  # a union of random cycles
    n = max(12, top // d)
    e = set()
    while len(e) < top:
        w = [int(x) for x in rng.permutation(n)]
        for x in zip(w, w[1:] + w[:1]):
            if len(e) < top:
                e.add(und(x))
    return n, e, None, "giant-cycles"


FAMILIES = {
    "er": (_er, 8), "tree": (_tree, 2), "path": (_path, 1),
    "cycle": (_cycle, 2), "star": (_star, 1), "wheel": (_wheel, 1),
    "complete": (_complete, 2), "bipartite": (_bip, 1), "strip": (_strip, 2),
    "torus": (_torus, 1), "surface": (_surface, 2), "grid": (_grid, 2),
    "paper": (_paper, 1), "single": (_single, 1), "barbell": (_barbell, 1),
    "comet": (_comet, 0),
}


def cliques(n, edges):
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    out = []
    for a, b in sorted(und(e) for e in edges):
        for c in sorted(adj[a] & adj[b]):
            if c > b:
                out.append((a, b, c))
    return sorted(out)


def topology(rng, size="m", family=None):
    names = list(FAMILIES)
    w = np.array([FAMILIES[k][1] for k in names], float)
    k = family or str(rng.choice(names, p=w / w.sum()))
    n, e, t = FAMILIES[k][0](rng, size)
    kind = k
    # disjoint union / isolated nodes
    u = rng.random()
    if family is None and u < 0.18 and size != "l":
        k2 = str(rng.choice(names, p=w / w.sum()))
        n2, e2, t2 = FAMILIES[k2][0](rng, "s")
        if t is not None or t2 is not None:
            t = (t if t is not None else cliques(n, e)) + [
                tuple(x + n for x in y)
                for y in (t2 if t2 is not None else cliques(n2, e2))]
        e = set(e) | {(a + n, b + n) for a, b in e2}
        n += n2
        kind += "+" + k2
    if family is None and rng.random() < 0.15:
        n += int(rng.integers(1, 4))
        kind += "+isolated"
    return n, set(map(und, e)), t, kind


def encode(rng, n, edges, tris, kind, canonical=None, np_ints=False):
    """Write a topology down with random labels, orders and directions."""
    if canonical is None:
        canonical = rng.random() < 0.15
    edges = sorted(edges)
    if canonical:
        e, t = list(edges), [tuple(sorted(x)) for x in sorted(tris)]
    else:
        perm = [int(x) for x in rng.permutation(n)]
        if kind.startswith("huge-sparse"):  # its labels are chosen
            perm = list(range(n))
        e = [und((perm[a], perm[b])) for a, b in edges]
        t = [tuple(sorted(perm[x] for x in y)) for y in tris]
        mode = int(rng.integers(0, 6))
        if mode == 0:  # sorted, ascending
            e.sort()
            t.sort()
        elif mode == 1:  # all reversed, sorted
            e = sorted(x[::-1] for x in e)
        elif mode == 2:  # mixed directions, sorted
            e = sorted(x if rng.random() < .5 else x[::-1] for x in e)
            t.sort()
        else:  # mixed directions, shuffled
            e = [x if rng.random() < .5 else x[::-1] for x in e]
            e = [e[i] for i in rng.permutation(len(e))]
            t = [t[i] for i in rng.permutation(len(t))]
        if mode != 0 and rng.random() < .8:
            t = [tuple(y[int(i)] for i in rng.permutation(3)) for y in t]
    if np_ints:
        e = [(np.int64(a), np.int64(b)) for a, b in e]
    if rng.random() < .3:
        t = [list(y) for y in t]
    return Spec(n, e, t, kind)


def spec(rng, size=None, family=None, tri_mode=None, min_edges=0,
         max_edges=None, canonical=None, np_ints=None, max_tris=None):
    if size is None:
        size = str(rng.choice(["s", "m", "l"], p=[.4, .5, .1]))
    for _ in range(200):
        if size == "g":
            n, e, t, kind = _giant(rng, hi=min(max_edges or 1300, 1300))
        elif size in ("h", "hm"):
            n, e, t, kind = _huge(rng, mid=size == "hm",
                                  top=min(max_edges or 400, 400))
        else:
            n, e, t, kind = topology(rng, size, family)
        if len(e) < min_edges or (
                max_edges and len(e) > max_edges + 2 * (size == "g")):
            continue
        allt = cliques(n, e)
        mode = tri_mode or str(rng.choice(
            ["all", "own", "subset", "none"], p=[.4, .25, .25, .1]))
        if kind.startswith(("huge-cone", "giant")) and tri_mode is None \
                and rng.random() < .85:
            mode = "own"
        if mode == "all":
            tt = allt
        elif mode == "own":
            tt = t if t is not None else allt
        elif mode == "subset":
            q = rng.random()
            tt = [x for x in allt if rng.random() < q]
        else:
            tt = []
        if max_tris is not None and len(tt) > max_tris:
            continue
        if np_ints is None:
            npi = rng.random() < .1
        else:
            npi = np_ints
        return encode(rng, n, e, tt, f"{kind}/{mode}", canonical, npi)
    raise RuntimeError("no complex satisfies the size limits")


def twin(rng, sp):
    """Another complex of exactly the same shape (to expose caches keyed too
    coarsely)."""
    m, k = len(sp.edges), len(sp.tris)
    if rng.random() < .5:
        e = [tuple(x) for x in sp.edges]
        c = cliques(sp.n, {und(tuple(map(int, x))) for x in e})
        if len(c) > k > 0 and rng.random() < .7:  # other triangles
            t = {tuple(sorted(map(int, y))) for y in sp.tris}
            for _ in range(20):
                u = [c[int(i)] for i in rng.permutation(len(c))[:k]]
                if set(u) != t:
                    return Spec(sp.n, e, u, "twin")
        if rng.random() < .5:  # other directions
            e = [x if rng.random() < .5 else x[::-1] for x in e]
        else:  # another order
            e = [e[int(i)] for i in rng.permutation(m)]
        return Spec(sp.n, e, [tuple(y) for y in sp.tris], "twin")
    pairs = list(itertools.combinations(range(sp.n), 2))
    for _ in range(60):
        pick = rng.permutation(len(pairs))[:m]
        e = {pairs[int(i)] for i in pick}
        c = cliques(sp.n, e)
        if len(c) >= k:
            t = [c[int(i)] for i in rng.permutation(len(c))[:k]]
            return encode(rng, sp.n, e, t, "twin", canonical=False)
    # same graph, other encoding
    return encode(rng, sp.n, {und(tuple(map(int, x))) for x in sp.edges},
                  [tuple(sorted(map(int, y))) for y in sp.tris], "twin",
                  canonical=False)


def flow(rng, m, kinds=None):
    """A flow on m edges and a label of its kind."""
    k = str(rng.choice(kinds or ["normal", "int", "big", "tiny", "sparse",
                                 "const", "zero", "unit", "mixed", "view"],
                       p=None if kinds else
                       [.32, .12, .1, .08, .1, .06, .03, .07, .06, .06]))
    f = rng.standard_normal(m)
    if k == "int":
        f = rng.integers(-9, 10, m)
        if rng.random() < .3:
            f = f.astype(np.int32)
    elif k == "bigint":  # leaves the range of its type when it is shifted
        if rng.random() < .5:
            f = rng.integers(-10 ** 7, 10 ** 7, m).astype(np.int32)
        else:
            f = rng.integers(-10 ** 14, 10 ** 14, m)
    elif k == "short":
        f = rng.integers(-90, 90, m).astype(np.int8)
    elif k == "big":
        f = f * 10.0 ** rng.integers(3, 8)
    elif k == "tiny":
        f = f * 10.0 ** -rng.integers(3, 8)
    elif k == "sparse":
        f = f * (rng.random(m) < .3)
    elif k == "const":
        f = np.full(m, float(rng.normal()))
    elif k == "zero":
        f = np.zeros(m)
    elif k == "unit":
        f = np.zeros(m)
        if m:
            f[int(rng.integers(0, m))] = 1.0
    elif k == "mixed":
        f = f * 10.0 ** rng.uniform(-3, 3, m)
    elif k == "view":
        f = as_view(rng, f)
    elif k == "f32":
        f = f.astype(np.float32)
    return f, k


def as_view(rng, f, kinds=6):
    """The same numbers as a part of a larger array: one row or column of a
    matrix of flows, the head of a longer array, every other entry, a reversed
    array, a reshaped one."""
    m, k = len(f), int(rng.integers(0, kinds))
    if k == 0:
        big = np.tile(f, (3, 1))
        return big[1]
    if k == 1:
        big = np.asfortranarray(np.tile(f[:, None], (1, 3)))
        return big[:, 1]
    if k == 2:
        big = np.ascontiguousarray(np.tile(f[:, None], (1, 3)))
        return big[:, 1]
    if k == 3:
        return np.concatenate([f, f])[:m]
    if k == 4:
        return np.repeat(f, 2)[::2]
    return np.array(f[::-1])[::-1]


def any_flow(rng, m):
    """A flow of any kind, array types other than doubles included."""
    if rng.random() < .15:
        return flow(rng, m, ["bigint", "short", "f32"])
    return flow(rng, m)


def nonzero_flow(rng, m, kinds=None):
    for _ in range(50):
        f, k = flow(rng, m, kinds)
        if np.any(f):
            return f, k
    return rng.standard_normal(m), "normal"


def random_features(rng, edges):
    names = [str(x) for x in rng.permutation(
        ["distance", "Distance", "capacity", "w", "len gth"])[
            :int(rng.integers(0, 4))]]
    return names, {tuple(e): {k: float(np.round(rng.normal(), 3))
                              for k in names} for e in edges} if names else {}


def unit(rng, f, share=.3):
    """The flow in another unit: everything must scale with it."""
    if rng.random() < share:
        f = f * float(10.0 ** rng.integers(-9, 8))
    return f


def num(rng, x):
    """The same number, as any type a caller may hold it in."""
    k = int(rng.integers(0, 6))
    if float(x).is_integer() and abs(x) < 2 ** 53:
        return [float, int, np.float64, np.int64, int, np.int32][k](x)
    return x if isinstance(x, int) else [float, np.float64][k % 2](x)


def whole(rng, x):
    """The same integer, as any integer type."""
    return [int, int, np.int64, np.int32][int(rng.integers(0, 4))](x)


def nums(rng, xs):
    """The same numbers as a list, a tuple or an array, of integers where
    they are integers."""
    if all(float(x).is_integer() for x in xs) and rng.random() < .7:
        xs = [int(x) for x in xs]
    return [list, np.array, tuple, np.array][int(rng.integers(0, 4))](xs)


def vast(rng, m=33000):
    """A star beyond the range of 16-bit integers, with a few filled and
    unfilled triangles; numbers of nodes, edges and neighbours all exceed
    2 ** 15."""
    n = m + 1
    lst = set()
    while len(lst) < 40:
        a, b = sorted(int(x) for x in rng.integers(1, n, 2))
        if a != b:
            lst.add((a, b))
    e = [(0, i) if rng.random() < .5 else (i, 0) for i in range(1, n)]
    e = e[:m // 2] + sorted(lst) + e[m // 2:]
    t = [(0,) + x for x in sorted(lst)[::2]]
    return Spec(n, e, t, "vast star")
