"""C08: reading a network file keeps every link with its own features."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from mon import gen

RULE = ("generated CSV, TNTP, coordinate and flow files (shuffled rows, "
        "duplicate and reversed duplicate rows with other feature values, "
        "zero- or one-based ids, several delimiters, unrelated and reordered "
        "columns, int, float and text features), written by the harness and "
        "compared with its own table; non-trivial: a duplicate pair with a "
        "different value and an unsorted order")
QUICK, THOROUGH = 6000, 50000
REQUIRED = {"call:read_csv": 800, "call:read_tntp": 400, "duplicates": 500,
            "call:read_coordinates": 400, "call:read_flow": 400,
            "odd-text": 150, "other-delimiter": 100, "end-features": 100, "equal-flow-rows": 300,
            "alike-ids": 30}
TMP = None
# no cell of a list is a number, an empty cell or a truth value
ODD = [["A#1", "#2", "x #3", "#"], ["1,500", "12,000", "1,234,567"],
       ["2024-01-05", "2023-12-31", "05/01/2024"], ["$3", "50%", "1/2"],
       [" lead", "tail ", "  both "], ["007a", "1e5x", "-", "."],
       ["caf\u00e9", "\u00e5 b", "\u6771"], ["%c", "//c", "\\n", "'q'"],
       ["1.234,5", "0,25", "3,14"], ["No", "Yes", "y"]]


def prepare(tier):
    global TMP
    TMP = tempfile.mkdtemp(prefix="verif-c08-", dir="/tmp")


def cleanup():
    if TMP and TMP.startswith("/tmp/verif-c08-"):
        shutil.rmtree(TMP, ignore_errors=True)


def table(rng):
    """Rows (u, v, features...) of a network, zero-based."""
    sp = gen.spec(rng, min_edges=1, size=str(rng.choice(
        ["s", "m", "h"], p=[.48, .48, .04])),
                  np_ints=False)
    rows = [tuple(e) for e in sp.edges]
    dup = 0
    for e in list(rows):
        if rng.random() < .25:
            rows.append(e if rng.random() < .4 else e[::-1])
            dup += 1
            if rng.random() < .2:
                rows.append(e[::-1])
    mode = int(rng.integers(0, 4))
    if mode == 0:
        rows.sort()
    elif mode == 1:
        rows.sort(reverse=True)
    else:
        rows = [rows[int(i)] for i in rng.permutation(len(rows))]
    return rows, dup


def column(rng, kind, n):
    if kind == "int":
        return [int(x) for x in rng.integers(-50, 1000, n)]
    if kind == "float":
        return [float(x) for x in np.round(rng.normal(size=n) * 100, 3)]
    if kind == "sci":
        return [float("%.3e" % x) for x in rng.normal(size=n) * 1e-4]
    if kind == "missing":  # some cells are empty
        return [float(x) if rng.random() < .6 else float("nan")
                for x in np.round(rng.normal(size=n) * 9, 2)]
    if kind == "quoted":  # text that needs quotes in some files
        return [str(rng.choice(["a, b", "x;y", "p|q", "two words", "plain"]))
                for _ in range(n)]
    if kind == "odd":  # text that only looks like something else
        pool = ODD[int(rng.integers(0, len(ODD)))]
        return [str(rng.choice(pool)) for _ in range(n)]
    if kind == "flag":
        return [bool(x) for x in rng.integers(0, 2, n)]
    return ["n%d" % i for i in rng.integers(0, 30, n)]


def expected(rows, feats, sel):
    """First row mentioning each pair, ascending."""
    first = {}
    for i, (u, v) in enumerate(rows):
        if (u, v) in first or (v, u) in first:
            continue
        first[(u, v)] = i
    edges = sorted(first)
    return edges, {e: {k: feats[k][first[e]] for k in sel} for e in edges}


def same_value(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if b != b:
        return not isinstance(a, str) and a != a
    return not isinstance(a, str) and \
        abs(float(a) - float(b)) <= 1e-12 * abs(float(b))


def decide(m, b, rows, edges, feats, sel):
    n = max(max(r) for r in rows) + 1
    m.equal([int(x) for x in b.nodes], list(range(n)), "nodes")
    m.equal([tuple(int(x) for x in e) for e in b.edges], edges, "edges",
            rows=rows)
    ef = b.edge_features
    if not sel:
        m.equal(len(ef), 0, "no-features")
    else:
        m.equal(sorted(tuple(int(x) for x in e) for e in ef), edges,
                "feature-edges")
        for e in edges:
            got = ef[e]
            m.equal(sorted(got), sorted(sel), "feature-names", f"of {e}")
            for k in sel:
                m.check(same_value(got[k], feats[e][k]), "feature-value",
                        f"{k} of edge {e}", got=got[k], want=feats[e][k],
                        rows=rows)
    m.check(len(b.node_features) == 0, "node-features")
    sc = m.call("to_simplicial_complex", b.to_simplicial_complex)
    m.equal(sc.get_edge_features(), ef, "features-carried")
    m.equal([tuple(e) for e in sc.edges], [tuple(e) for e in b.edges],
            "edges-carried")


def case(m, rng, idx):
    from pytspl.io import network_reader as nr

    path = os.path.join(TMP, f"f{idx}-{os.getpid()}")
    rows, dup = table(rng)
    if idx % 500 == 11:  # ids beyond 16-bit integers
        k = [32767, 32768, 40000, 65535, 65536, 70001]
        rows += [(k[i], k[j]) for i, j in [(0, 1), (3, 2), (1, 4), (5, 0)]]
        rows += [(j, i) for i in k for j in (0, 1, 2) if rng.random() < .8]
        m.seen("large-ids")
    elif idx % 60 == 17:  # pairs of different nodes that look alike
        pool = [(1, 12), (11, 2), (1, 105), (2, 5), (0, 205), (1, 1005),
                (0, 2005), (1, 256 + 3), (2, 3), (0, 512 + 3), (10, 1),
                (1, 101), (1, 2), (7, 0), (0, 70)]
        rows += [pool[int(i)] for i in rng.permutation(len(pool))]
        m.seen("alike-ids")
    n = len(rows)
    base = int(rng.integers(0, 2))  # one-based ids?
    if dup:
        m.seen("duplicates")
        m.nontrivial(rows != sorted(rows))
    m.note(rows=rows, one_based=bool(base))
    m.key(tuple(rows), base)
    names = [str(x) for x in rng.permutation(
        ["Distance", "capacity", "free flow", "b", "name", "toll", " lead", "2020",
             "no#"])[
            :int(rng.integers(0, 5))]]
    kinds = {k: str(rng.choice(
        ["int", "float", "sci", "text", "missing", "quoted", "flag", "odd"],
        p=[.25, .29, .1, .1, .08, .06, .06, .06])) for k in names}
    feats = {k: column(rng, kinds[k], n) for k in names}
    m.seen("odd-text", "odd" in kinds.values())
    m.note(features=feats)

    # ---- CSV
    src, dst = [("Source", "Target"), ("a", "b id"), ("From", "To")][
        int(rng.integers(0, 3))]
    cols = {src: [r[0] + base for r in rows], dst: [r[1] + base for r in rows]}
    cols.update(feats)
    order = list(cols)
    if rng.random() < .6:
        order = [order[int(i)] for i in rng.permutation(len(order))]
    delim = str(rng.choice([",", ";", "\t", "|", " "]))
    df = pd.DataFrame({k: cols[k] for k in order})
    df.to_csv(path, sep=delim, index=False, lineterminator=str(
        rng.choice(["\n", "\n", "\r\n"])))
    if rng.random() < .1:  # a blank line at the end
        with open(path, "a") as fh:
            fh.write("\n")
    sel = [k for k in names if rng.random() < .6]
    if rng.random() < .1:  # the ends of a link as its features, as written
        sel += [src, dst][int(rng.integers(0, 2)):]
        m.seen("end-features")
    sel = [sel[int(i)] for i in rng.permutation(len(sel))]
    kw = dict(filename=path, delimiter=delim, src_col=src, dest_col=dst)
    if base or rng.random() < .5:
        kw["start_index_zero"] = not base
    if sel or rng.random() < .5:
        kw["feature_cols"] = list(sel)
    b = m.call("read_csv", nr.read_csv, **kw)
    edges, want = expected(rows, cols, sel)
    decide(m, b, rows, edges, want, sel)

    # ---- TNTP
    for k in names:  # the layout has neither quotes nor empty cells
        if kinds[k] in ("quoted", "missing"):
            feats[k] = cols[k] = column(rng, "float", n)
    m.note(tntp_features=feats)
    if rng.random() < .7:
        skip = int(rng.integers(0, 9))
        lines = [f"<META {i}> {i * 3}\tx\ty" for i in range(skip)]
        order = [src, dst] + names
        if rng.random() < .4:
            order = [order[int(i)] for i in rng.permutation(len(order))]
        # names are trimmed in this layout
        names = [k.strip() for k in names]
        kinds = {k.strip(): v for k, v in kinds.items()}
        feats = {k.strip(): v for k, v in feats.items()}
        cols = {k.strip(): v for k, v in cols.items()}
        order = [k.strip() for k in order]
        sep = "\t"
        if rng.random() < .25 and not {"odd", "quoted"} & set(
                kinds.values()):
            sep = str(rng.choice([",", "|"]))
            m.seen("other-delimiter")
        pad = (lambda s: f" {s} ") if rng.random() < .5 else (lambda s: s)
        lines.append(sep.join(["~"] + [pad(k) for k in order] + [";"]))
        for i in range(n):
            lines.append(sep.join(
                [""] + [str(cols[k][i]) for k in order] + [";"]))
        with open(path, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        kw = dict(filename=path, src_col=src, dest_col=dst, skip_rows=skip)
        if sep != "\t" or rng.random() < .5:
            kw["delimiter"] = sep
        if base or rng.random() < .5:
            kw["start_index_zero"] = not base
        b = m.call("read_tntp", nr.read_tntp, **kw)
        edges, want = expected(rows, feats, names)
        decide(m, b, rows, edges, want, names)

    # ---- coordinates
    nn = max(max(r) for r in rows) + 1
    ids = [int(x) for x in rng.permutation(nn)]
    if rng.random() < .3:
        # not every node has coordinates: the first one often has none
        ids = [i for i in ids if i > 0 and rng.random() < .9] or [1]
        m.seen("partial-coordinates")
    xy = {i: (float(np.round(rng.normal(), 4)), float(np.round(rng.normal(), 4)))
          for i in ids}
    d = str(rng.choice([",", " ", "\t", ";"]))
    hdr = ["Id", "X", "Y"] if rng.random() < .5 else ["node", "lat", "y c"]
    col = {hdr[0]: [i + base for i in ids], hdr[1]: [xy[i][0] for i in ids],
           hdr[2]: [xy[i][1] for i in ids], "z": [9.5] * len(ids)}
    o = list(col)
    o = [o[int(i)] for i in rng.permutation(len(o))]
    cdf = pd.DataFrame({k: col[k] for k in o})
    if d != " " and rng.random() < .4:
        cdf.columns = [" " + c + "  " for c in cdf.columns]
    cdf.to_csv(path, sep=d, index=False)
    kw = {} if not base and rng.random() < .5 else dict(
        start_index_zero=not base)
    got = m.call("read_coordinates", nr.read_coordinates, path,
                 node_id_col=hdr[0], x_col=hdr[1], y_col=hdr[2], delimiter=d,
                 **kw)
    m.equal(sorted(int(k) for k in got), sorted(xy), "coordinate-nodes")
    m.check(all(len(got[k]) == 2 and all(map(same_value, got[k], xy[int(k)]))
                for k in got),
            "coordinates", got=got, want=xy)
    m.check(nr.read_coordinates(path + ".absent", "Id", "X", "Y", ",") is None,
            "coordinates-absent")
    # ---- flow
    fl = [float(np.round(x, 5)) for x in rng.normal(size=n)]
    if rng.random() < .3:
        fl = [float(x) for x in rng.integers(-1, 2, n)]  # few values
    head = rng.random() < .5
    d = str(rng.choice(["\t", ",", ";"]))
    fdf = pd.DataFrame({"From": cols[src], "To": cols[dst], "Volume": fl})
    if rng.random() < .3:  # rows that occur again
        fdf = fdf.iloc[[int(i) for i in rng.integers(
            0, n, n + 2)]].reset_index(drop=True)
    m.seen("equal-flow-rows", bool(fdf.duplicated().any()))
    fdf.to_csv(path, sep=d, index=False, header=head)
    kw = {}
    if d != "\t" or rng.random() < .5:
        kw["sep"] = d
    if not head:
        kw["header"] = None
    got = m.call("read_flow", nr.read_flow, path, **kw)
    m.close(np.asarray(got, float), np.asarray(fdf, float), "flow-rows",
            atol=0, rtol=1e-12)
    m.equal([str(c) for c in got.columns],
            list(fdf.columns) if head else ["0", "1", "2"], "flow-columns")
    e = m.call("read_flow", nr.read_flow, path + ".absent")
    m.check(hasattr(e, "empty") and e.empty, "flow-absent", got=e)
    os.unlink(path)
