"""C10: transportation datasets load with net flows and coordinates."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mon import common, gen, oracles as O

RULE = ("generated transportation folders in the TNTP layout (unsorted and "
        "one-way links, reversed duplicates, zero volumes, shuffled flow "
        "rows, with and without node and flow files), loaded by a scratch "
        "copy of the library's current sources in a child process and "
        "compared edge by edge with the generated tables; non-trivial: "
        "links in both directions with different volumes and one-way links")
QUICK, THOROUGH = 900, 5000
REQUIRED = {"loaded": 200, "with-flow": 120, "without-coordinates": 30,
            "without-flow": 30, "one-way": 100,
            "changed-files": 60}
TMP, DATA, RES, LATER = None, {}, {}, {}


def dataset(rng):
    sp = gen.spec(rng, min_edges=1, size=str(rng.choice(["s", "m"])),
                  np_ints=False)
    both = float(rng.choice([0.0, 0.5, 1.0]))
    rows, vol = [], {}
    for u, v in sp.edges:
        rows.append((u, v))
        if rng.random() < both:
            rows.append((v, u))
    mode = int(rng.integers(0, 3))
    if mode == 0:
        rows.sort()
    elif mode == 1:
        rows = [rows[int(i)] for i in rng.permutation(len(rows))]
    for r in rows:
        vol[r] = float(rng.choice([0.0, np.round(rng.uniform(0, 9e3), 4),
                                   float(rng.integers(0, 50)),
                                   np.round(rng.uniform(0, 1) * 10.0 **
                                            rng.integers(-4, 10), 5)]))
    names = ["capacity", "length", "free_flow_time", "link_type"]
    feats = [{"capacity": float(np.round(rng.uniform(1, 9e3), 3)),
              "length": int(rng.integers(1, 99)),
              "free_flow_time": float(np.round(rng.uniform(0, 9), 6)),
              "link_type": int(rng.integers(1, 4))} for _ in rows]
    n = max(max(r) for r in rows) + 1
    coords = {i: (float(np.round(rng.normal() * 90, 8)),
                  float(np.round(rng.normal() * 90, 8))) for i in range(n)}
    return dict(rows=rows, vol=vol, feats=feats, names=names, n=n,
                coords=coords if rng.random() < .7 else None,
                flow=rng.random() < .75, order=[int(i) for i in
                                                rng.permutation(len(rows))],
                corder=[int(i) for i in rng.permutation(n)],
                tail=bool(rng.random() < .5))


def write(folder, name, d):
    os.makedirs(folder)
    with open(f"{folder}/{name}_net.tntp", "w") as fh:
        fh.write(f"<NUMBER OF ZONES> {d['n']}\t\t\t\n<NUMBER OF NODES> "
                 f"{d['n']}\t\t\t\n<FIRST THRU NODE> 1\t\t\n<NUMBER OF LINKS> "
                 f"{len(d['rows'])}\t\n<ORIGINAL HEADER>~ \tInit node \tTerm "
                 "node \t;\n<END OF METADATA>\t\t\t\n\n\n")
        fh.write("\t".join(["~", "init_node", "term_node"] + d["names"]
                           + [";"]) + "\n")
        for (u, v), f in zip(d["rows"], d["feats"]):
            fh.write("\t".join(["", str(u + 1), str(v + 1)] +
                               [str(f[k]) for k in d["names"]] + [";"]) + "\n")
    if d["coords"] is not None:
        with open(f"{folder}/{name}_node.tntp", "w") as fh:
            end = "\t;" if d["tail"] else ""
            fh.write(f"node\tX\tY{end}\n")
            for i in d["corder"]:
                x, y = d["coords"][i]
                fh.write(f"{i + 1}\t{x!r}\t{y!r}{end}\n")
    if d["flow"]:
        with open(f"{folder}/{name}_flow.tntp", "w") as fh:
            fh.write("From \tTo \tVolume \tCost \n")
            for k in d["order"]:
                u, v = d["rows"][k]
                fh.write(f"{u + 1} \t{v + 1} \t{d['vol'][(u, v)]!r} \t1.5 \n")


def prepare(tier):
    global TMP
    repo = os.environ.get("PYTSPL_REPO", "/repo")
    TMP = tempfile.mkdtemp(prefix="verif-c10-", dir="/tmp")
    src, dst = os.path.join(repo, "pytspl"), os.path.join(TMP, "pytspl")
    shutil.copytree(src, dst, ignore=lambda d, names: (
        ["data"] if os.path.realpath(d) == os.path.realpath(src) else [])
        + [n for n in names if n == "__pycache__"])
    os.makedirs(os.path.join(dst, "data"))
    for n in os.listdir(os.path.join(src, "data")):
        if n != "transportation_networks":
            os.symlink(os.path.join(src, "data", n),
                       os.path.join(dst, "data", n))
    tn = os.path.join(dst, "data", "transportation_networks")
    os.makedirs(tn)
    with open(os.path.join(tn, "README.md"), "w") as fh:
        fh.write("generated\n")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = QUICK if tier == "quick" else THOROUGH
    for idx in range(total):
        rng = common.case_rng("C10", seed, idx)
        name = ["net", "City_", "a-b"][idx % 3] + str(idx)
        DATA[idx] = (name, dataset(rng))
        write(os.path.join(tn, name), name, DATA[idx][1])
        if idx % 7 == 3:  # what the folder holds when it is loaded again
            LATER[idx] = dataset(rng)
            write(os.path.join(TMP, "later", name), name, LATER[idx])
    env = dict(os.environ, PYTHONPATH=TMP)
    driver = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "c10_driver.py")
    procs = []
    for w in range(8):
        names = [DATA[i][0] for i in range(w, total, 8)]
        out = os.path.join(TMP, f"out{w}")
        procs.append((out, subprocess.Popen(
            [sys.executable, "-W", "ignore", driver, TMP, out] + names,
            env=env, cwd=TMP, stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE)))
    for out, p in procs:
        err = p.communicate(timeout=700)[1]
        if os.path.exists(out):
            with open(out, "rb") as fh:
                RES.update(pickle.load(fh))
        else:
            RES["__error__"] = err.decode()[-1500:]


def cleanup():
    if TMP and TMP.startswith("/tmp/verif-c10-"):
        shutil.rmtree(TMP, ignore_errors=True)


def same(a, b):
    """Equal up to the last digit a decimal parser may get wrong."""
    return abs(float(a) - float(b)) <= 1e-12 * abs(float(b))


def case(m, rng, idx):
    name, d = DATA[idx]
    if idx in LATER:
        m.seen("changed-files")
        decide(m, idx, name, LATER[idx], RES.get(name + "#later"))
    decide(m, idx, name, d, RES.get(name))


def decide(m, idx, name, d, r):
    m.note(folder=name, links=d["rows"], volumes=d["vol"],
           coordinates=d["coords"], flow_file=d["flow"])
    m.key(tuple(d["rows"]), d["flow"], d["coords"] is None)
    m.check("__error__" not in RES, "load", RES.get("__error__", ""))
    if idx == 0:
        m.equal([n for n in RES["__list__"]],
                sorted([x[0] for x in DATA.values()] +
                       ["paper", "forex", "lastfm-1k-artist", "wsn"]),
                "listed")
        for k, v in RES.items():
            if k.startswith("bad:"):
                m.equal(v, "ValueError", "unknown-name", k)
    m.check(not isinstance(r, str), "load-raised", f"{r}")
    m.seen("loaded")
    m.seen("call:load_dataset")
    first = {}
    for i, (u, v) in enumerate(d["rows"]):
        if (u, v) not in first and (v, u) not in first:
            first[(u, v)] = i
    edges = sorted(first)
    m.equal(r["nodes"], list(range(d["n"])), "nodes")
    m.equal(r["edges"], edges, "edges", rows=d["rows"])
    m.check(O.same_triangles(r["tris"], O.cliques(d["n"], edges)),
            "triangles")
    m.check(np.array_equal(r["B1"], O.b1(d["n"], edges)), "B1")
    m.check(not np.any(r["B1"] @ r["B2"]), "boundary-law")
    m.equal(sorted(r["features"]), edges, "feature-edges")
    for e in edges:
        want = d["feats"][first[e]]
        got = r["features"][e]
        m.equal(sorted(got), sorted(want), "feature-names")
        for k in want:
            m.check(same(got[k], want[k]), "feature-value",
                    f"{k} of {e}", got=got[k], want=want[k])
    if d["coords"] is None:
        m.seen("without-coordinates")
        m.equal(sorted(r["coords"]), list(range(d["n"])), "generated-nodes")
        m.check(all(len(v) == 2 and np.all(np.isfinite(v))
                    for v in r["coords"].values()), "generated-coordinates")
    else:
        m.equal(sorted(r["coords"]), sorted(d["coords"]), "coordinate-nodes")
        for k, v in d["coords"].items():
            m.check(len(r["coords"][k]) == 2
                    and all(map(same, r["coords"][k], v)), "coordinates",
                    f"node {k}", got=r["coords"][k], want=v)
    one = [e for e in edges if e[::-1] not in d["vol"]]
    if one:
        m.seen("one-way")
    if not d["flow"]:
        m.seen("without-flow")
        m.equal(r["flow"], [], "empty-flow")
        return
    m.seen("with-flow")
    m.nontrivial(one and len(one) < len(edges))
    m.equal(sorted(e for e, _ in r["flow"]), edges, "flow-edges")
    for e, x in r["flow"]:
        want = d["vol"][e] - d["vol"].get(e[::-1], 0.0)
        m.check(abs(x - want) <= 1e-9 * (1 + abs(want)), "net-flow",
                f"edge {e}", got=x, want=want, rows=d["rows"], vol=d["vol"])
