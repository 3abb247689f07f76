"""C11: shipped datasets load as the network, coordinates and flow in their
files."""
import csv
import os
import pickle

import numpy as np

from mon import oracles as O

RULE = ("every listed dataset whose files are present, loaded once or twice "
        "(with the first result overwritten in between) and compared with an "
        "independent reading of its files; a case is non-trivial when the "
        "dataset has edges")
NAMES = ["chicago-regional", "barcelona", "winnipeg", "goldcoast", "chicago-sketch",
               "anaheim", "siouxfalls", "forex", "paper", "wsn",
               "test_dataset", "siouxfalls", "paper", "forex"]
QUICK = THOROUGH = len(NAMES)
REQUIRED = {"loaded": 10, "decided:flow-value": 2000,
            "decided:B1-matches-file": 3}
CAP = {"quick": 300, "thorough": 780}
ASSUMPTIONS = ["lastfm-1k-artist is listed but its B2t-artist.csv is absent "
               "from the repository, so it cannot be loaded"]


def data():
    repo = os.environ.get("PYTSPL_REPO", "/repo")
    return os.path.join(repo, "pytspl", "data")


def rows(path, sep, skip=0):
    with open(path, newline="") as fh:
        lines = fh.read().splitlines()[skip:]
    return [[x.strip() for x in ln.split(sep)] for ln in lines if ln.strip()]


def matrix(path):
    with open(path, newline="") as fh:
        return np.array([[float(x) for x in r] for r in csv.reader(fh) if r])


def from_incidence(B1, B2t):
    edges = []
    for j in range(B1.shape[1]):
        edges.append((int(np.argmin(B1[:, j])), int(np.argmax(B1[:, j]))))
    tris = []
    for r in B2t:
        t = set()
        for k in np.nonzero(r)[0]:
            t |= set(edges[int(k)])
        tris.append(tuple(sorted(t)))
    return edges, tris


def expected(name):
    """nodes, edges, triangles, features, coordinates, flow (None: generated
    or empty)."""
    d = data()
    if name == "paper":
        r = rows(f"{d}/paper_data/edges.csv", " ")
        h, body = r[0], r[1:]
        e = {(int(x[h.index("Source")]), int(x[h.index("Target")])):
             {"Distance": float(x[h.index("Distance")])} for x in body}
        c = rows(f"{d}/paper_data/coordinates.csv", " ")
        co = {int(x[c[0].index("Id")]): (float(x[c[0].index("X")]),
                                         float(x[c[0].index("Y")]))
              for x in c[1:]}
        fl = [float(x[0]) for x in rows(f"{d}/paper_data/flow.csv", ",")]
        ed = sorted(e)
        return dict(n=max(map(max, ed)) + 1, edges=ed, tris=None, feats=e,
                    coords=co, flow=dict(zip(ed, fl)))
    if name in ("forex", "chicago-sketch"):
        if name == "forex":
            q = f"{d}/foreign_exchange"
            p1, p2, pf = "B1.csv", "B2t.csv", "flow_FX_1538755200.csv"
        else:
            q = f"{d}/transportation_networks/chicago-sketch"
            p1, p2, pf = ("B1_chicago_sketch.csv", "B2t_chicago_sketch.csv",
                          "flow_chicago_sketch.csv")
        B1, B2t = matrix(f"{q}/{p1}"), matrix(f"{q}/{p2}")
        ed, tr = from_incidence(B1, B2t)
        fl = matrix(f"{q}/{pf}").ravel() if name != "forex" else \
            matrix(f"{q}/{pf}")[:, 0]
        co = None
        if name != "forex":
            c = rows(f"{q}/coordinates_chicago_sketch.csv", ",")
            h = c[0]
            co = {int(x[h.index("Id")]): (float(x[h.index("X")]),
                                          float(x[h.index("Y")]))
                  for x in c[1:]}
        return dict(n=B1.shape[0], edges=ed, tris=tr, feats={}, coords=co,
                    flow=dict(zip(ed, map(float, fl))), B1=B1, B2=B2t.T)
    if name == "wsn":
        with open(f"{d}/wsn/water_network.pkl", "rb") as fh:
            B1, q, _, head, hr = pickle.load(fh)
        B1 = np.asarray(B1)
        ed, _ = from_incidence(B1, [])
        q, hr = np.asarray(q, float).ravel(), np.asarray(hr, float).ravel()
        y = np.concatenate([np.asarray(head, float).ravel(),
                            -hr * np.sign(q) * np.abs(q) ** 1.852])
        return dict(n=B1.shape[0], edges=ed, tris=None, feats={}, coords=None,
                    flow=y, B1=B1)
    q = f"{d}/transportation_networks/{name}/{name}"
    r = rows(f"{q}_net.tntp", "\t", 8)
    h = r[0]
    iu, iv = h.index("init_node"), h.index("term_node")
    cols = [k for k in h if k not in ("~", ";", "init_node", "term_node")]
    off = 1
    first = {}
    for x in r[1:]:
        if len(x) < len(h) - 1:
            # leading blank stripped with the line's own whitespace
            continue
        u, v = int(x[iu]) - off, int(x[iv]) - off
        if (u, v) not in first and (v, u) not in first:
            first[(u, v)] = {k: x[h.index(k)] for k in cols}
    ed = sorted(first)
    co = None
    if os.path.exists(f"{q}_node.tntp"):
        c = rows(f"{q}_node.tntp", "\t")
        hh = c[0]
        co = {int(x[hh.index("node")]) - off:
              (float(x[hh.index("X")]), float(x[hh.index("Y")]))
              for x in c[1:]}
    fl = {}
    if os.path.exists(f"{q}_flow.tntp"):
        c = rows(f"{q}_flow.tntp", "\t")
        hh = c[0]
        vol = {}
        for x in c[1:]:
            x = x[1:] if not x[0] else x  # rows may start with a tab
            k = (int(x[hh.index("From")]) - off, int(x[hh.index("To")]) - off)
            vol.setdefault(k, float(x[hh.index("Volume")]))
        fl = {e: vol[e] - vol.get(e[::-1], 0.0) for e in ed}
    return dict(n=max(map(max, ed)) + 1, edges=ed, tris=None, feats=first,
                coords=co, flow=fl)


def same(a, b):
    try:
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-12 * abs(b)
    except (TypeError, ValueError):
        return str(a) == str(b)


def decide(m, name, w, sc, coords, flow, big=False):
    m.seen("loaded")
    m.equal([int(v) for v in sc.nodes], list(range(w["n"])), "nodes", name)
    got = [tuple(map(int, e)) for e in sc.edges]
    m.check(got == w["edges"], "edges", f"{name}: edges are not those of the "
            "file", got=got[:20], want=w["edges"][:20])
    tris = w["tris"] if w["tris"] is not None else O.cliques(w["n"],
                                                            w["edges"])
    m.check(O.same_triangles(sc.triangles, tris), "triangles", name)
    B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
    m.equal((B1.shape, B2.shape), ((w["n"], len(got)), (len(got), len(tris))),
            "shapes")
    m.check(abs(B1 @ B2).max() == 0, "boundary-law", name)
    if not big:
        m.check(np.array_equal(B1.toarray(), O.b1(w["n"], w["edges"])), "B1")
        if "B1" in w:
            m.check(np.array_equal(B1.toarray(), w["B1"]), "B1-matches-file")
        if "B2" in w:
            m.check(O.align_b2(B2.toarray(), w["B2"]) is not None,
                    "B2-matches-file")
    ef = sc.get_edge_features()
    m.equal(len(ef), len(w["feats"]), "feature-edges")
    for e, v in w["feats"].items():
        m.equal(sorted(ef[e]), sorted(v), "feature-names")
        for k in v:
            m.check(same(ef[e][k], v[k]), "feature-value", f"{k} of {e}",
                    got=ef[e][k], want=v[k])
    m.equal(sorted(int(k) for k in coords), list(range(w["n"])),
            "coordinate-nodes")
    for k, v in coords.items():
        if w["coords"] is None:
            m.check(len(v) == 2 and np.all(np.isfinite(v)), "coordinates")
        else:
            m.check(len(v) == 2 and all(map(same, v, w["coords"][int(k)])),
                    "coordinates", f"node {k}", got=v,
                    want=w["coords"][int(k)])
    if isinstance(w["flow"], dict):
        m.equal(len(flow), len(w["flow"]), "flow-size")
        for e, x in w["flow"].items():
            m.check(abs(float(flow[e]) - x) <= 1e-9 * (1 + abs(x)),
                    "flow-value", f"edge {e}", got=flow[e], want=x)
    else:
        m.close(flow, w["flow"], "flow-vector", rtol=1e-12, atol=1e-12)


def case(m, rng, idx):
    from pytspl import list_datasets, load_dataset

    name = NAMES[idx]
    m.note(dataset=name)
    m.key(name, idx)
    ls = m.call("list_datasets", list_datasets)
    m.check(name in ls, "listed", got=ls)
    present = sorted(
        x for x in os.listdir(f"{data()}/transportation_networks")
        if os.path.isdir(f"{data()}/transportation_networks/{x}"))
    m.equal(sorted(ls), sorted(present + ["paper", "forex",
                                          "lastfm-1k-artist", "wsn"]),
            "list")
    w = expected(name)
    m.nontrivial(w["edges"])
    sc, co, fl = m.call("load_dataset", load_dataset, name)
    decide(m, name, w, sc, co, fl, big=len(w["edges"]) > 8000)
    if len(w["edges"]) < 1500:
        # the loaded objects belong to the caller
        sc.edges.reverse()
        sc.nodes.append(-1)
        co.clear()
        if isinstance(fl, dict):
            fl.clear()
        else:
            fl[:] = 0
        sc, co, fl = m.call("load_dataset", load_dataset, name)
        decide(m, name, w, sc, co, fl)
