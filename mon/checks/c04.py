"""C04: the Hodge decomposition splits any flow orthogonally."""
import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes x flows of ten kinds (integer, huge, tiny, sparse, "
        "constant, single edge, mixed magnitudes, strided views), compared "
        "with projections built from exact incidence matrices by an "
        "independent solver; non-trivial: all three components of the flow "
        "are non-zero")
QUICK, THOROUGH = 4000, 60000
REQUIRED = {"call:get_component_flow": 4000, "decided:projection": 2500,
            "all-three-parts": 200, "decided:rounding": 1500}
PARTS = ["gradient", "curl", "harmonic"]


def comp(m, sc, f, p, **kw):
    return m.call("get_component_flow", sc.get_component_flow, f,
                  component=p, **kw)


def decide(m, rng, sc, sp, H, f, tag=""):
    from pytspl.decomposition import hodge_decomposition as hd

    from pytspl import filters as Fl

    f0 = np.array(f, copy=True)
    s = float(np.max(np.abs(f))) if len(f) else 0.0
    tol = 1e-8 * s + 1e-13
    want = H.split(f)
    got = {}
    for p in [PARTS[int(i)] for i in rng.permutation(3)]:
        got[p] = comp(m, sc, f, p, round_fig=False)
        m.close(got[p], want[p], "projection", f"{p} part{tag}", atol=tol)
    m.close(sum(got.values()), f, "sum", "parts do not add up", atol=tol)
    for a, b in (("gradient", "curl"), ("gradient", "harmonic"),
                 ("curl", "harmonic")):
        m.check(abs(got[a] @ got[b]) <= 1e-8 * s * s * len(f) + 1e-20,
                "orthogonal", f"{a} and {b}", got=got[a] @ got[b])
    div = {p: m.call("get_divergence", sc.get_divergence, got[p])
           for p in PARTS}
    crl = {p: m.call("get_curl", sc.get_curl, got[p]) for p in PARTS}
    z = 1e-7 * s + 1e-12
    m.check(np.all(np.abs(crl["gradient"]) <= z), "gradient-curl-free")
    m.check(np.all(np.abs(div["curl"]) <= z), "curl-divergence-free")
    m.check(np.all(np.abs(div["harmonic"]) <= z)
            and np.all(np.abs(crl["harmonic"]) <= z), "harmonic-free")
    if all(np.linalg.norm(want[p]) > 1e-3 * s for p in PARTS) and s:
        m.seen("all-three-parts")
        m.nontrivial()
    # rounding only rounds
    for p in PARTS:
        mode = int(rng.integers(0, 4))
        d = int(rng.choice([0, 1, 2, 3, 4, 6, 9, -1, -2]))
        if mode == 0:
            r, d = comp(m, sc, f, p), 2
        elif mode == 1:
            r = comp(m, sc, f, p, round_sig_fig=d)
        elif mode == 2:
            r = comp(m, sc, f, p, round_fig=True, round_sig_fig=d)
        else:
            r = comp(m, sc, f, p, round_fig=False, round_sig_fig=d)
            m.close(r, want[p], "no-rounding", f"{p} unrounded", atol=tol)
            continue
        m.close(r, want[p], "rounding", f"{p} to {d} decimals",
                atol=.5 * 10. ** -d + tol)
        m.close(np.round(r, d), r, "rounding", "not rounded", atol=1e-12 * s)
    # the free functions of the decomposition module
    if rng.random() < .3:
        B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
        m.close(m.call("get_gradient_flow", hd.get_gradient_flow, B1, f,
                       round_fig=False), want["gradient"], "projection",
                atol=tol)
        m.close(m.call("get_curl_flow", hd.get_curl_flow, B2, f,
                       round_fig=False), want["curl"], "projection", atol=tol)
        m.close(m.call("get_harmonic_flow", hd.get_harmonic_flow, B1=B1,
                       B2=B2, flow=f, round_fig=False), want["harmonic"],
                "projection", atol=tol)
        flt = [Fl.LSFilterDesign, Fl.GridBasedFilterDesign,
               Fl.EdgeFlowDenoising, Fl.ChebyshevFilterDesign][
                   int(rng.integers(0, 4))](sc)
        for p in PARTS:
            m.close(m.call("get_true_signal", flt.get_true_signal, f, p),
                    want[p], "projection", f"true {p} signal", atol=tol)
        d = int(rng.choice([0, 1, 3, 5, -1, -3]))
        for kw, k in (({}, 2), (dict(round_sig_fig=d), d)):
            for p, fn, a in (("gradient", hd.get_gradient_flow, (B1,)),
                             ("curl", hd.get_curl_flow, (B2,)),
                             ("harmonic", hd.get_harmonic_flow, (B1, B2))):
                r = m.call(f"get_{p}_flow", fn, *a, f, **kw)
                m.close(r, want[p], "rounding", f"{p} to {k} decimals",
                        atol=.5 * 10. ** -k + tol)
                m.close(np.round(r, k), r, "rounding", "not rounded",
                        atol=1e-12 * s)
    m.check(np.array_equal(f, f0), "flow-unchanged", "the flow was modified")
    return got, tol


def case(m, rng, idx):
    sp = gen.spec(rng, min_edges=1, size="g" if idx % 701 == 300 else
                  "l" if idx % 23 == 0 else "h" if idx % 31 == 7 else None)
    f, k = gen.any_flow(rng, len(sp.edges))
    m.note(complex=sp.describe(), flow=f, flow_kind=k)
    m.key(sp.key(), np.asarray(f).tobytes())
    sc = build.make_sc(m, rng, sp)
    H = O.Hodge(sp.n, sp.edges, sp.tris)
    got, tol = decide(m, rng, sc, sp, H, f)
    # decomposing a part again
    for p in PARTS:
        for q in PARTS:
            r = comp(m, sc, got[p], q, round_fig=False)
            m.close(r, got[p] if p == q else 0 * got[p], "idempotent",
                    f"{q} of {p}", atol=3 * tol)
    # linear
    g = rng.standard_normal(len(f))
    a, b = rng.normal(2), rng.normal()
    for p in PARTS:
        x = comp(m, sc, a * np.asarray(f, float) + b * g, p, round_fig=False)
        y = a * got[p] + b * comp(m, sc, g, p, round_fig=False)
        m.close(x, y, "linear", p,
                atol=1e-8 * (abs(a) * np.abs(f).max() + abs(b) * 4) + 1e-12)
    # other flows on the same complex; and other complexes in between
    for f2 in (gen.flow(rng, len(sp.edges))[0], np.asarray(f)):
        o = gen.twin(rng, sp)
        osc = build.make_sc(m, rng, o)
        decide(m, rng, osc, o, O.Hodge(o.n, o.edges, o.tris), f2, " (twin)")
        decide(m, rng, sc, sp, H, f2, " (again)")
    # default component is the gradient, default rounding two decimals
    m.close(m.call("get_component_flow", sc.get_component_flow, f),
            H.split(f)["gradient"], "default-component", atol=.00501 + tol)
