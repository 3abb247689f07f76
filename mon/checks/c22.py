"""C22: plots show exactly the complex and the flow they are given."""
import collections

import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes x coordinates (given, none, collinear) x flows "
        "(array, list, dict in any order, none) x options, drawn on one of "
        "several axes; the artists in the axes are read back and matched "
        "one-to-one with nodes, edges, triangles and values; non-trivial: at "
        "least 3 edges with distinct values and stored in unsorted order")
QUICK, THOROUGH = 1400, 16000
REQUIRED = {"call:draw_network": 700, "decided:edge-colour": 5000,
            "decided:edge-label": 3000, "decided:arrow": 3000,
            "undirected": 200, "dict-shuffled": 100, "hodge-panels": 150,
            "eigen-panels": 100, "no-coordinates": 150, "isolated": 100,
            "node-values": 20, "given-limits": 60, "zero-limit": 15,
            "one-limit": 15,
            "drawn-again": 200, "more-coordinates": 100}
ASSUMPTIONS = ["labels are matched with edges where the midpoints are far "
               "enough apart; an empty flow is not drawn",
               "read back through matplotlib's artists on the Agg backend"]


def prepare(tier):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import pytspl.plot  # noqa


def near(a, b, tol):
    return np.hypot(a[0] - b[0], a[1] - b[1]) <= tol


def artists(ax):
    import matplotlib as mpl

    sc = [c for c in ax.collections
          if isinstance(c, mpl.collections.PathCollection)]
    lines = [c for c in ax.collections
             if isinstance(c, mpl.collections.LineCollection)]
    arrows = [p for p in ax.patches
              if isinstance(p, mpl.patches.FancyArrowPatch)]
    polys = [p for p in ax.patches if isinstance(p, mpl.patches.Polygon)]
    return sc, lines, arrows, polys, list(ax.texts)


def cbars(fig, before):
    return [a for a in fig.axes if a not in before]


def match_points(m, got, want, mech, what, tol):
    got, want = [tuple(map(float, p)) for p in got], [
        tuple(map(float, p)) for p in want]
    m.equal(len(got), len(want), mech + "-number", what)
    g, w = np.array(sorted(got)), np.array(sorted(want))
    if len(g):
        # greedy matching is exact because wanted points are shared only when
        # equal
        left = list(range(len(got)))
        for q in want:
            d = [np.hypot(got[i][0] - q[0], got[i][1] - q[1]) for i in left]
            k = int(np.argmin(d))
            m.check(d[k] <= tol, mech, f"{what}: nothing at {q}", got=got)
            left.pop(k)


def decide(m, ax, sp, pos, span, flow, labels, directed, cmap, limits, cax,
           what, nodes=True, edges=True, edge_labels=None):
    """flow: dict edge -> value or None."""
    import matplotlib as mpl

    tol = 1e-9 * (1 + span)
    sc, lines, arrows, polys, texts = artists(ax)
    if nodes:
        pts = [p for c in sc for p in np.asarray(c.get_offsets())]
        match_points(m, pts, [pos[v] for v in sp.nodes], "node", what, tol)
        x, y = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        for v in sp.nodes:
            m.check(x[0] - tol <= pos[v][0] <= x[1] + tol
                    and y[0] - tol <= pos[v][1] <= y[1] + tol, "visible",
                    f"{what}: node {v} lies outside the axes", limits=(x, y))
    E = [tuple(map(int, e)) for e in sp.edges]
    if edges:
        # triangles
        m.equal(len(polys), len(sp.tris), "triangle-number", what)
        left = [np.asarray(p.get_xy())[:3] for p in polys]
        for t in sp.tris:
            k = next((i for i, q in enumerate(left) if all(
                any(near(pos[int(v)], z, tol) for z in q) for v in t)), None)
            m.check(k is not None, "triangle", f"{what}: no polygon on {t}")
            left.pop(k)
        # edges
        segs = []
        if directed:
            m.check(sum(len(c.get_segments()) for c in lines) == 0,
                    "directed", what)
            for a in arrows:
                p, q = a._posA_posB
                segs.append((p, q, a.get_edgecolor()[:3]))
        else:
            m.seen("undirected")
            m.check(not arrows, "undirected-arrows", what)
            for c in lines:
                c.update_scalarmappable()
                col = np.asarray(c.get_colors())
                for i, s in enumerate(c.get_segments()):
                    segs.append((s[0], s[-1], col[i % len(col)][:3]))
        m.equal(len(segs), len(E), "edge-number", what)
        for e in E:
            a, b = pos[e[0]], pos[e[1]]
            hit = [i for i, s in enumerate(segs)
                   if near(s[0], a, tol) and near(s[1], b, tol) or (
                       not directed and near(s[1], a, tol)
                       and near(s[0], b, tol))]
            m.check(hit, "arrow" if directed else "line",
                    f"{what}: edge {e} is not drawn from its first to its "
                    "second node", drawn=[(s[0], s[1]) for s in segs])
            if flow is not None and len(hit) == 1:
                # several edges can share their end points' coordinates
                colour = segs[hit[0]][2]
                v = float(flow[e])
                lo, hi = limits if limits else sorted(cax.get_ylim())
                flat = limits is None and len(set(map(
                    float, flow.values()))) == 1
                if hi > lo + 1e-12 and not flat:
                    z = mpl.colors.Normalize(lo, hi)(v)
                    m.close(colour, cmap(float(z))[:3], "edge-colour",
                            f"{what}: edge {e} value {v} limits {lo, hi}",
                            atol=0.012)
    # labels
    at_node = []
    rest = []
    for t in texts:
        (at_node if any(near(t.get_position(), pos[v], tol)
                        for v in sp.nodes) and nodes
         else rest).append(t)
    if labels and nodes:
        for v in sp.nodes:
            hit = [t for t in at_node if near(t.get_position(), pos[v], tol)
                   and t.get_text() == str(v)]
            m.check(hit, "node-label", f"{what}: node {v}")
        m.equal(len(at_node), len(sp.nodes), "node-label-number", what)
    elif nodes:
        m.equal(len(at_node), 0, "node-labels-off", what)
    want = edge_labels if edge_labels is not None else (
        flow if labels and flow is not None else None)
    if want is None:
        m.equal(len(rest), 0, "edge-labels-off", what)
        return
    m.equal(len(rest), len(want), "edge-label-number", what)
    vals = sorted(float(t.get_text()) for t in rest)
    m.close(vals, sorted(float(v) for v in want.values()), "label-values",
            what, rtol=1e-12)
    mid = {e: ((pos[e[0]][0] + pos[e[1]][0]) / 2,
               (pos[e[0]][1] + pos[e[1]][1]) / 2) for e in E}
    M = np.array([mid[e] for e in E])
    for t in rest:
        p = t.get_position()
        d = np.hypot(M[:, 0] - p[0], M[:, 1] - p[1])
        o = np.argsort(d)
        if len(o) > 1 and d[o[1]] < d[o[0]] + .5:
            m.seen("label-ambiguous")
            continue
        e = E[o[0]]
        m.check(d[o[0]] < .5, "label-place", f"{what}: label {t.get_text()}"
                f" at {p} is at no edge")
        m.check(abs(float(t.get_text()) - float(want[e]))
                <= 1e-12 * (1 + abs(float(want[e]))), "edge-label",
                f"{what}: edge {e}", got=t.get_text(), want=want[e])


def blank(ax):
    return not (ax.collections or ax.patches or ax.texts or ax.lines
                or ax.images)


def coordinates(rng, sp):
    k = rng.random()
    if k < .25:
        return None, 1.1
    while True:
        if k < .35:
            p = {v: (float(3 * i), 0.0) for i, v in enumerate(
                rng.permutation(sp.n))}
            p = {int(v): c for v, c in p.items()}
        else:
            p = {v: tuple(float(x) for x in rng.uniform(-100, 100, 2))
                 for v in sp.nodes}
        if len(set(p.values())) == sp.n:
            break
    if rng.random() < .25:
        # one table of coordinates may serve several networks
        more = set(range(sp.n + 4)) - set(sp.nodes)
        p.update({v: tuple(float(x) for x in rng.uniform(-100, 100, 2))
                  for v in more})
    if rng.random() < .5:
        p = {int(v): p[int(v)] for v in rng.permutation(list(p))}
    if rng.random() < .25:  # whole numbers, in whatever type
        q = {v: tuple(int(round(x)) for x in c) for v, c in p.items()}
        if len(set(q.values())) == len(p):
            p = q
    apart = [(a, b) for a in sp.nodes for b in sp.nodes if a < b
             and (a, b) not in sp.edges and (b, a) not in sp.edges]
    both = [(a, b) for a, b in apart if sum(
        {a, b} & set(map(int, t)) != set() for t in sp.tris) > 1]
    if apart and rng.random() < .12:  # two nodes at one place
        a, b = (both or apart)[int(rng.integers(0, len(both or apart)))]
        p[int(b)] = p[int(a)]
    k = rng.random()
    if k < .2:
        p = {v: np.array(c) for v, c in p.items()}
    elif k < .4:
        p = {v: list(c) for v, c in p.items()}
    return p, 100.0


def case(m, rng, idx):
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    from pytspl.plot import SCPlot

    plt.close("all")
    try:
        _case(m, rng, idx, mpl, plt, SCPlot)
    finally:
        plt.close("all")


def _case(m, rng, idx, mpl, plt, SCPlot):
    mode = idx % 8
    while True:
        big = idx % 41 == 7
        sp = gen.spec(rng, max_edges=110 if big else 30,
                      min_edges=1 if mode in (5, 6) else 0,
                      size="hm" if big else
                      str(rng.choice(["s", "m"], p=[.7, .3])),
                      np_ints=False)
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    sc = build.make_sc(m, rng, sp)
    if {v for e in sp.edges for v in e} != set(sp.nodes):
        m.seen("isolated")
    pos, span = coordinates(rng, sp)
    if pos is None:
        m.seen("no-coordinates")
    elif set(pos) - set(sp.nodes):
        m.seen("more-coordinates")
    pos0 = None if pos is None else {k: tuple(v) for k, v in pos.items()}
    plot = m.call("SCPlot", SCPlot, simplicial_complex=sc, coordinates=pos)
    E = [tuple(map(int, e)) for e in sp.edges]
    vals = rng.standard_normal(H.m) if rng.random() < .8 else rng.integers(
        -5, 6, H.m)
    if rng.random() < .3:
        vals = np.round(vals, 2)
    if rng.random() < .12:
        vals = vals * 10.0 ** rng.integers(3, 9)
    m.note(complex=sp.describe(), coordinates=pos0, values=vals, mode=mode)
    m.key(sp.key(), mode, vals.tobytes(), repr(pos0))
    m.nontrivial(H.m >= 3 and len(set(map(float, vals))) > 2
                 and E != sorted(E))

    def where():
        return {k: tuple(map(float, v)) for k, v in plot.pos.items()}

    def layout_ok():
        if pos0 is not None:
            m.check({k: tuple(v) for k, v in plot.pos.items()} == pos0,
                    "coordinates-unchanged")
        m.check(set(plot.pos) >= set(sp.nodes), "layout", got=plot.pos)

    if mode == 5:
        return hodge(m, rng, sp, sc, H, plot, vals, where, span, plt)
    if mode == 6:
        return eigen(m, rng, sp, sc, H, plot, where, span, plt)

    fig, axes = plt.subplots(1, 2, figsize=(6, 3))
    ax, other = (axes[0], axes[1]) if rng.random() < .5 else (
        axes[1], axes[0])
    given = rng.random() < .7
    plt.sca(other if given else ax)
    before = list(fig.axes)
    kw = dict(ax=ax) if given else {}
    cmap, limits, one = plt.cm.Blues, None, {}

    def colour_options(lo="edge_vmin", hi="edge_vmax", cm="edge_cmap"):
        nonlocal cmap, limits
        o = {}
        if rng.random() < .3:
            cmap = o[cm] = plt.get_cmap(str(rng.choice(
                ["viridis", "Reds", "coolwarm"])))
        k = rng.random()
        if k < .3:
            a, b = sorted(rng.uniform(-3, 3, 2))
            limits = (float(a), float(b) + .1)
            if k < .12:  # whole numbers, with nought for a limit
                w = int(rng.integers(1, 5))
                limits = (0, w) if k < .06 else (-w, 0)
                m.seen("zero-limit")
            o[lo], o[hi] = limits
            m.seen("given-limits")
        elif k < .4 and lo == "edge_vmin":
            # one limit only; the other one is chosen by the plot
            x, y = float(np.min(vals)), float(np.max(vals))
            if rng.random() < .5:
                one["lo"] = o[lo] = 0 if y > 0 and rng.random() < .5 \
                    else x - 1.5
            else:
                one["hi"] = o[hi] = 0 if x < 0 and rng.random() < .5 \
                    else y + 1.5
            m.seen("one-limit")
        return o

    def one_limit(cax):
        for side, v in one.items():
            got = sorted(cax[0].get_ylim())["lo hi".split().index(side)]
            m.close(got, v, "shown-limit", f"{side} limit", atol=1e-9)

    directed = bool(rng.random() < .7)
    if mode in (0, 1, 2, 3, 7):
        # whole network
        labels = bool(rng.random() < .7)
        flow = None
        if H.m and rng.random() < .8:
            d = dict(zip(E, [x for x in vals]))
            form = int(rng.integers(0, 4))
            if form == 0:
                arg = vals
            elif form == 1:
                arg = [x for x in vals]
            elif form == 2:
                arg = dict(d)
            else:
                m.seen("dict-shuffled")
                arg = {E[i]: vals[i] for i in rng.permutation(H.m)}
            flow = d
            kw["edge_flow"] = arg
            a0 = repr(arg)
        if not directed or rng.random() < .3:
            kw["directed"] = directed
        if not labels or rng.random() < .3:
            kw["with_labels"] = labels
        if rng.random() < .5:
            kw["node_size"] = 100
            if flow is not None:
                kw.update(colour_options())
        m.note(options=kw)
        m.call("draw_network", plot.draw_network, **kw)
        layout_ok()
        if flow is not None:
            m.check(repr(arg) == a0, "flow-unchanged")
        cax = cbars(fig, before)
        m.equal(len(cax), int(flow is not None), "colourbars")
        decide(m, ax, sp, where(), span, flow, labels, directed, cmap,
               limits, cax[0] if cax else None, f"draw_network {sorted(kw)}")
        if limits and cax:
            m.close(sorted(cax[0].get_ylim()), limits, "shown-limits",
                    atol=1e-9)
        one_limit(cax)
        if H.m and rng.random() < .5:
            again(m, rng, sp, sc, H, plot, where, span, plt, SCPlot)
    elif mode == 4:
        # parts one by one
        part = int(rng.integers(0, 3))
        if part == 0:
            labels = bool(rng.random() < .5)
            num = rng.random() < .6
            if num:
                m.seen("node-values")
                nv = [float(x) for x in rng.standard_normal(sp.n)]
                kw["node_color"] = nv
                kw.update(colour_options("vmin", "vmax", "cmap"))
            m.call("draw_sc_nodes", plot.draw_sc_nodes, with_labels=labels,
                   **kw)
            layout_ok()
            decide(m, ax, sp, where(), span, None, labels, True, None, None,
                   None, "draw_sc_nodes", edges=False)
            if num:
                cax = cbars(fig, before)
                m.equal(len(cax), 1, "colourbars")
                lo, hi = limits or sorted(cax[0].get_ylim())
                c = artists(ax)[0][0]
                c.update_scalarmappable()
                P, F = np.asarray(c.get_offsets()), c.get_facecolors()
                for i, v in enumerate(sc.nodes):
                    hit = [j for j in range(len(P)) if near(
                        P[j], where()[v], 1e-9 * (1 + span))]
                    if len(hit) == 1 and hi > lo + 1e-12 and (
                            limits or len(set(nv)) > 1):
                        z = mpl.colors.Normalize(lo, hi)(nv[i])
                        m.close(F[hit[0]][:3], cmap(float(z))[:3],
                                "node-colour", f"node {v}", atol=0.012)
        elif part == 1:
            flow = None
            if H.m:
                d = dict(zip(E, vals))
                if rng.random() < .6:
                    kw["edge_flow"] = {E[i]: vals[i]
                                       for i in rng.permutation(H.m)}
                else:
                    kw["edge_color"] = [float(x) for x in vals]
                flow = d
                kw.update(colour_options())
            m.call("draw_sc_edges", plot.draw_sc_edges, directed=directed,
                   **kw)
            layout_ok()
            cax = cbars(fig, before)
            decide(m, ax, sp, where(), span, flow, False, directed, cmap,
                   limits, cax[0] if cax else None, "draw_sc_edges",
                   nodes=False)
            one_limit(cax)
        else:
            lab = {E[i]: vals[i] for i in rng.permutation(H.m)}
            r = m.call("draw_edge_labels", plot.draw_edge_labels, lab, **kw)
            layout_ok()
            m.equal(set(r), set(lab), "label-items")
            for e in lab:
                m.equal(float(r[e].get_text()), float(lab[e]), "label-item",
                        str(e))
                m.check(r[e].axes is ax, "label-axes")
            decide(m, ax, sp, where(), span, None, False, True, None, None,
                   None, "draw_edge_labels", nodes=False, edges=False,
                   edge_labels=lab)
    m.check(blank(other), "other-axes", "something was drawn in axes that "
            "were not given")
    d = m.call("create_edge_flow", plot.create_edge_flow, vals)
    m.check(dict(d) == dict(zip(E, vals)), "create_edge_flow", got=d)


def again(m, rng, sp, sc, H, plot, where, span, plt, SCPlot):
    """A later flow, of another size, is drawn as a new plot object at the
    same coordinates draws it."""
    m.seen("drawn-again")
    E = [tuple(map(int, e)) for e in sp.edges]
    vals = rng.standard_normal(H.m) * 10.0 ** rng.integers(-2, 3) \
        + float(rng.choice([0, 5, -50]))
    kw = {} if rng.random() < .5 else dict(directed=False)
    form = vals if rng.random() < .5 else dict(zip(E, vals))
    m.note(later=vals, later_options=kw)
    shown = []
    for p in (plot, m.call("SCPlot", SCPlot, sc, coordinates=dict(where()))):
        fig, ax = plt.subplots()
        before = list(fig.axes)
        m.call("draw_network", p.draw_network, edge_flow=form, ax=ax, **kw)
        cax = cbars(fig, before)
        m.equal(len(cax), 1, "colourbars", "drawn again")
        decide(m, ax, sp, where(), span, dict(zip(E, vals)), True, not kw,
               plt.cm.Blues, None, cax[0], f"drawn again {sorted(kw)}")
        shown.append(sorted(cax[0].get_ylim()))
    m.close(shown[0], shown[1], "later-limits", "colour limits of a later "
            "flow against those of a new plot", rtol=1e-9)


def panels(fig):
    """Main axes (those with a title) and their colour bars, in order."""
    main = [a for a in fig.axes if a.get_title()]
    return main, [a for a in fig.axes if not a.get_title()]


def hodge(m, rng, sp, sc, H, plot, vals, where, span, plt):
    m.seen("hodge-panels")
    E = [tuple(map(int, e)) for e in sp.edges]
    parts = H.split(vals.astype(float))
    kw, dig = {}, 2
    if rng.random() < .4:
        kw["round_fig"] = False
        dig = None
    elif rng.random() < .5:
        dig = kw["round_sig_fig"] = int(rng.choice([1, 3, 4]))
    comp = str(rng.choice(["gradient", "curl", "harmonic"])) \
        if rng.random() < .5 else None
    if comp:
        kw["component"] = comp
    v0 = vals.copy()
    m.note(options=kw)
    m.call("draw_hodge", plot.draw_hodge_decomposition, flow=vals, **kw)
    m.check(np.array_equal(vals, v0), "flow-unchanged")
    fig = plt.gcf()
    main, bars = panels(fig)
    order = [comp] if comp else ["gradient", "curl", "harmonic"]
    m.equal(len(main), len(order), "panels")
    m.equal(len(bars), len(order), "panel-bars")
    for a in main:
        t = a.get_title()
        name = next((c for c in ("gradient", "curl", "harmonic")
                     if "{" + c[0].upper() + "}" in t), None)
        m.check(name in order, "panel-title", got=t)
        order.remove(name)
        texts = [t for t in a.texts]
        cax = bars[main.index(a)]
        shown = shown_values(m, a, sp, where(), span, E)
        got = np.array([shown.get(e, np.nan) for e in E])
        ok = ~np.isnan(got)
        tol = 1e-7 * (1 + np.abs(vals).max()) + (
            .5000001 * 10.0 ** -dig if dig is not None else 0)
        m.close(got[ok], parts[name][ok], "panel-values", f"{name} {kw}",
                atol=tol)
        d = {e: g for e, g in zip(E, got)} if ok.all() else None
        decide(m, a, sp, where(), span, d, True, True, plt.cm.Blues, None,
               cax, f"panel {name}", edge_labels=d or collections.OrderedDict(
                   (e, x) for e, x in zip(E, fallback(texts, sp, where()))))


def fallback(texts, sp, pos):
    return [float(t.get_text()) for t in texts if not any(
        near(t.get_position(), pos[v], 1e-7) for v in sp.nodes)]


def shown_values(m, ax, sp, pos, span, E):
    """Values of the edge labels, for the edges that can be told apart."""
    tol = 1e-9 * (1 + span)
    M = np.array([((pos[a][0] + pos[b][0]) / 2, (pos[a][1] + pos[b][1]) / 2)
                  for a, b in E])
    out = {}
    n = 0
    for t in ax.texts:
        p = t.get_position()
        if any(near(p, pos[v], tol) for v in sp.nodes):
            continue
        n += 1
        d = np.hypot(M[:, 0] - p[0], M[:, 1] - p[1])
        o = np.argsort(d)
        if len(o) > 1 and d[o[1]] < d[o[0]] + .5:
            continue
        out[E[o[0]]] = float(t.get_text())
    m.equal(n, len(E), "panel-labels")
    return out


def eigen(m, rng, sp, sc, H, plot, where, span, plt):
    E = [tuple(map(int, e)) for e in sp.edges]
    comps = [c for c, d in zip(("harmonic", "gradient", "curl"), H.dims)
             if 0 < d <= 14]
    if not comps:
        return
    comp = str(rng.choice(comps))
    lam = H.spectrum(comp)
    m.seen("eigen-panels")
    kw = {}
    sel = list(range(len(lam)))
    if rng.random() < .6 or len(lam) > 5:
        sel = [int(i) for i in rng.permutation(len(lam))[
            :int(rng.integers(1, 5))]]
        kw["eigenvector_indices"] = sel if rng.random() < .5 else \
            np.array(sel)
    rnd = rng.random() < .3
    if not rnd:
        kw["round_fig"] = False
    if rng.random() < .3:
        kw["with_labels"] = True
    m.note(options=kw, component=comp)
    m.call("draw_eigenvectors", plot.draw_eigenvectors, component=comp, **kw)
    main, bars = panels(plt.gcf())
    m.equal((len(main), len(bars)), (len(sel), len(sel)), "panels")
    V = []
    for k, a in enumerate(main):
        t = a.get_title()
        m.check("{" + comp[0].upper() + "}" in t, "panel-title", got=t)
        num = float(t.split("=")[-1])
        m.close(num, lam[sel[k]], "panel-eigenvalue",
                f"panel {k} eigenvector {sel[k]}", atol=.00501)
        shown = shown_values(m, a, sp, where(), span, E)
        if len(shown) < len(E):
            continue
        v = np.array([shown[e] for e in E])
        tol = .006 * np.sqrt(H.m) * (
            1 + lam.max() + np.linalg.norm(H.L1, 2)) if rnd else 1e-6
        m.close(H.L1 @ v, lam[sel[k]] * v, "panel-eigenvector",
                f"{comp} {sel[k]}", atol=tol)
        m.close(H.P(comp) @ v, v, "panel-component", f"{comp} {sel[k]}",
                atol=tol)
        m.close(np.linalg.norm(v), 1, "panel-norm", atol=tol)
        V.append(v)
        d = dict(zip(E, v))
        decide(m, a, sp, where(), span, d, True, True, plt.cm.Blues, None,
               bars[k], f"eigenvector {sel[k]}", edge_labels=d)
    if len(V) > 1 and not rnd and len(set(sel)) == len(V):
        G = np.array(V) @ np.array(V).T
        m.close(G, np.eye(len(V)), "panels-orthogonal", atol=1e-6)
