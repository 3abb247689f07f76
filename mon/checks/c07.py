"""C07: results do not depend on naming, order or orientation."""
import contextlib
import io

import numpy as np

from mon import build, filters_ref as F, gen, oracles as O

RULE = ("pairs of complexes related by a random node renaming, edge "
        "reordering, edge reversal (with the sign of the flow), triangle "
        "reordering and vertex permutation; every result of the second must "
        "be the transformed result of the first; non-trivial: the "
        "transformation reverses an edge and moves another and there is a "
        "triangle")
QUICK, THOROUGH = 4000, 25000
REQUIRED = {"call:denoise": 500, "call:type_two": 200, "with-reversal": 200,
            "pure-permutation": 100, "call:grid": 60}
PARTS = ["gradient", "curl", "harmonic"]


def transform(rng, sp, flips=True, rename=True, reorder=True):
    n, m = sp.n, len(sp.edges)
    pi = rng.permutation(n) if rename else np.arange(n)
    sg = rng.permutation(m) if reorder else np.arange(m)
    s = np.ones(m)
    edges = []
    for k in range(m):
        u, v = sp.edges[int(sg[k])]
        u, v = int(pi[u]), int(pi[v])
        if flips and rng.random() < .5:
            u, v, s[k] = v, u, -1.0
        edges.append((u, v))
    tp = rng.permutation(len(sp.tris)) if reorder else np.arange(len(sp.tris))
    tris = []
    for k in tp:
        t = [int(pi[x]) for x in sp.tris[int(k)]]
        tris.append(tuple(t[int(i)] for i in rng.permutation(3))
                    if flips or rename else tuple(t))
    return gen.Spec(n, edges, tris, sp.kind + "'"), pi, sg, s, tp


def gaps_ok(w, tol):
    d = np.diff(np.sort(w))
    return not np.any((d > 1e-9) & (d < 4 * tol))


def case(m, rng, idx):
    from pytspl.filters import (EdgeFlowDenoising, GridBasedFilterDesign,
                                LSFilterDesign, SimplicialTrendFilter)

    while True:
        big = idx % 41 == 7
        sp = gen.spec(rng, min_edges=2, max_edges=130 if big else 60,
                      size="hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    flips = rng.random() < .75
    sp2, pi, sg, s, tp = transform(rng, sp, flips, rng.random() < .8,
                                   rng.random() < .8)
    f = rng.standard_normal(H.m) * 10. ** rng.integers(-2, 4)
    g = s * f[sg]
    m.note(complex=sp.describe(), transformed=sp2.describe(), flow=f)
    m.key(sp.key(), sp2.key())
    if np.any(s < 0):
        m.seen("with-reversal")
        m.nontrivial(sp.tris and np.any(sg != np.arange(H.m)))
    else:
        m.seen("pure-permutation")
    a = build.make_sc(m, rng, sp)
    b = build.make_sc(m, rng, sp2)
    sc_ = float(np.abs(f).max())
    tol = 1e-7 * sc_ + 1e-12
    B2a = a.incidence_matrix(2).toarray()
    B2b = b.incidence_matrix(2).toarray()

    def mov(x):
        return s * np.asarray(x)[sg]

    def conj(M):
        M = np.asarray(M)
        return s[:, None] * M[np.ix_(sg, sg)] * s[None, :]

    for k, fn in (("L1", "hodge_laplacian_matrix"),
                  ("L1L", "lower_laplacian_matrix"),
                  ("L1U", "upper_laplacian_matrix")):
        m.close(m.call(fn, getattr(b, fn)), conj(m.call(
            fn, getattr(a, fn)).toarray()), "laplacian", k, atol=0)
    A = a.adjacency_matrix().toarray()
    m.check(np.array_equal(b.adjacency_matrix().toarray()[np.ix_(pi, pi)], A),
            "adjacency")
    m.close(b.get_divergence(g)[pi], a.get_divergence(f), "divergence",
            atol=tol)
    if sp.tris:
        # each triangle keeps its boundary up to orientation
        ts = O.align_b2(B2b, conj_b2(B2a, s, sg, tp))
        m.check(ts is not None, "triangle-boundary")
        m.close(b.get_curl(g), ts * a.get_curl(f)[tp], "curl", atol=tol)
    for k in (1, 3):
        for fn in ("apply_lower_shifting", "apply_upper_shifting",
                   "apply_k_step_shifting"):
            x = m.call(fn, getattr(a, fn), f, steps=k)
            m.close(m.call(fn, getattr(b, fn), g, steps=k), mov(x), fn,
                    atol=1e-9 * (np.abs(x).max() + sc_))
    for p in PARTS:
        x = m.call("get_component_flow", a.get_component_flow, f, component=p,
                   round_fig=False)
        m.close(m.call("get_component_flow", b.get_component_flow, g,
                       component=p, round_fig=False), mov(x), "component", p,
                atol=tol)
        U, w = m.call("get_component_eigenpair", a.get_component_eigenpair, p)
        V, z = m.call("get_component_eigenpair", b.get_component_eigenpair, p)
        m.close(z, w, "spectrum", p, atol=1e-7)
        m.close(V @ V.T, conj(U @ U.T), "eigenspace", p, atol=1e-7)
    # embeddings up to the choice of basis: the energy at each eigenvalue
    ea = m.call("get_simplicial_embeddings", a.get_simplicial_embeddings, f)
    eb = m.call("get_simplicial_embeddings", b.get_simplicial_embeddings, g)
    for p, x, y in zip(["harmonic", "curl", "gradient"], ea, eb):
        w = a.get_component_eigenpair(p)[1]
        ids = np.concatenate([[0], np.cumsum(np.diff(w) > 1e-6)]) \
            if len(w) else np.zeros(0)
        for c in np.unique(ids):
            m.check(abs(np.sum(x[ids == c] ** 2) - np.sum(y[ids == c] ** 2))
                    <= 1e-6 * sc_ ** 2 * H.m, "embedding-energy", p)
    m.close(b.get_total_variance(), a.get_total_variance(), "total-variance",
            atol=1e-7)

    # filters
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    part = str(rng.choice(PARTS))
    t = f + rng.standard_normal(H.m) * sc_
    mus = [float(x) for x in rng.choice([0.1, 0.5, 2.0, 20.0], 2)]
    fa, fb = EdgeFlowDenoising(a), EdgeFlowDenoising(b)
    m.call("denoise", fa.denoise, f, t, p, mus)
    m.call("denoise", fb.denoise, g, mov(t), p, mus)
    same(m, fa, fb, mov, conj, sc_, 1e-7, "denoise")
    if np.linalg.norm(H.split(f)[part]) > 1e-6 * sc_:
        L = int(rng.integers(1, 5))
        fa, fb = LSFilterDesign(a), LSFilterDesign(b)
        m.call("type_one", fa.subcomponent_extraction_type_one, f, part, L)
        m.call("type_one", fb.subcomponent_extraction_type_one, g, part, L)
        same(m, fa, fb, mov, conj, sc_, 1e-6, "ls-type-one")
        if part != "harmonic" and gaps_ok(np.linalg.eigvalsh(
                (H.L1l if part == "gradient" else H.L1u).astype(float)),
                1e-6):
            m.call("type_two", fa.subcomponent_extraction_type_two, f, part, L)
            m.call("type_two", fb.subcomponent_extraction_type_two, g, part, L)
            same(m, fa, fb, mov, conj, sc_, 1e-6, "ls-type-two")
        if not np.any(s < 0):
            # the power iteration of grid filters starts from the all-ones
            # flow, which orientation changes do not preserve
            fa, fb = GridBasedFilterDesign(a), GridBasedFilterDesign(b)
            q = "L1" if part == "harmonic" or not sp.tris else p
            kw = dict(component=part, p_choice=q, L=L,
                      cut_off_frequency=.5, steep=4)
            m.call("grid", fa.subcomponent_extraction, f, **kw)
            m.call("grid", fb.subcomponent_extraction, g, **kw)
            if lam_safe(H, q, L):
                same(m, fa, fb, mov, conj, sc_, 1e-5, "grid")
    ta, tb = SimplicialTrendFilter(a), SimplicialTrendFilter(b)
    c = str(rng.choice(["divergence", "curl"]))
    for o in (0, 1, 2, 3):
        x = m.call("get_shift_operator", ta.get_shift_operator, c, o)
        y = m.call("get_shift_operator", tb.get_shift_operator, c, o)
        nx, ny = np.abs(x @ f).sum(), np.abs(y @ g).sum()
        m.check(abs(nx - ny) <= 1e-9 * (nx + ny) + 1e-12, "shift-operator",
                f"{c} order {o}", got=ny, want=nx)
    for tf, x in ((ta, f), (tb, g)):
        m.call("l2", tf.denoising_l2_regularizer, flow=x, component=c,
               num_realizations=1, snr_db=np.array([20.]), mu=.7)
    m.close(tb.history["filter"], conj(ta.history["filter"]), "l2-filter",
            atol=1e-8)


def lam_safe(H, p, L):
    """Rounding (in the estimated largest eigenvalue, or in the fit) cannot
    move the filter."""
    P = H.lap(p)
    top = F.stable_lambda(P)
    if top is None:
        return False
    for n in range(1, L + 1):
        r = F.grid_fit(np.linalg.eigvalsh(P), top, 10,
                       lambda x: 1 / (1 + np.exp(-4 * (x - .5))), n)
        if r is None or r[1] > 1e-7:
            return False
    return True


def conj_b2(B2, s, sg, tp):
    return s[:, None] * B2[np.ix_(sg, tp)]


def same(m, fa, fb, mov, conj, sc_, rel, what):
    ha, hb = fa.history, fb.history
    m.close(hb["f_estimated"], mov(ha["f_estimated"]), what + "-estimate",
            atol=rel * sc_ * 10)
    m.close(hb["filter"], conj(ha["filter"]), what + "-filter", atol=rel * 10)
    e = np.asarray(ha["extracted_component_error"])
    m.close(hb["extracted_component_error"], e, what + "-errors",
            atol=rel * (1 + np.abs(e).max()) * 100)
