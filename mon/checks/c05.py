"""C05: divergence, curl and shifting are the boundary operators."""
import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes x flows; divergence and curl recomputed edge by "
        "edge, shifting recomputed with exact integer matrices for 1 to 6 "
        "steps; non-trivial: a triangle, mixed directions and steps >= 3")
QUICK, THOROUGH = 6000, 60000
REQUIRED = {"call:apply_lower_shifting": 3000, "call:get_curl": 1000,
            "steps>=3": 800, "decided:circulation": 500}


def case(m, rng, idx):
    from pytspl.decomposition import eigendecomposition as ed

    sp = gen.spec(rng, min_edges=1, size="g" if idx % 701 == 300 else
                  "h" if idx % 41 == 7 else None)
    sc = build.make_sc(m, rng, sp)
    B1 = O.b1(sp.n, sp.edges)
    B2 = build.ref_b2(m, sc, sp, O)
    f, kind = gen.any_flow(rng, len(sp.edges))
    m.note(complex=sp.describe(), flow=f)
    m.key(sp.key(), np.asarray(f).tobytes())
    f0 = np.array(f, copy=True)
    s = float(np.max(np.abs(f.astype(float))))
    for rep in range(2):
        # the reference works with doubles whatever the type of the flow
        F = np.asarray(f).astype(float)
        div = np.zeros(sp.n)
        for (u, v), x in zip(sp.edges, F):
            div[v] += x
            div[u] -= x
        tol = 1e-12 * s * (1 + len(f))
        got = m.call("get_divergence", sc.get_divergence, f)
        m.close(got, div, "divergence", atol=tol)
        got = m.call("get_divergence", ed.get_divergence,
                     sc.incidence_matrix(1), f)
        m.close(got, div, "divergence", atol=tol)
        if F.dtype.kind == "f" and len(sp.edges) and rng.random() < .2:
            # a value that is not defined leaves nothing defined around it
            g = np.array(F, dtype=float)
            bad = int(rng.integers(0, len(g)))
            g[bad] = rng.choice([np.nan, np.inf, -np.inf])
            m.seen("undefined-value")
            d = m.call("get_divergence", sc.get_divergence, g)
            at = [int(v) for v in sp.edges[bad]]
            m.check(not np.any(np.isfinite(np.asarray(d)[at])), "undefined",
                    f"divergence next to an edge with {g[bad]}", got=d)
            c = np.asarray(m.call("get_curl", sc.get_curl, g))
            m.check(not np.any(np.isfinite(c[B2[bad] != 0])), "undefined",
                    f"curl around an edge with {g[bad]}", got=c)
        # curl: circulation around each triangle, in its own orientation
        cur = m.call("get_curl", sc.get_curl, f)
        m.close(cur, B2.T @ F, "curl", atol=tol)
        val = {}
        for (u, v), x in zip(sp.edges, F):
            val[(int(u), int(v))], val[(int(v), int(u))] = x, -x
        for t, x in zip(sp.tris, cur):
            a, b, c = (int(y) for y in t)
            r = val[(a, b)] + val[(b, c)] + val[(c, a)]
            m.check(abs(abs(r) - abs(x)) <= tol, "circulation",
                    f"around {t}", got=x, want=r)
        m.close(m.call("get_curl", ed.get_curl, sc.incidence_matrix(2), f),
                B2.T @ F, "curl", atol=tol)
        L = {"l": B1.T @ B1, "u": B2 @ B2.T}
        for steps in [1] + [int(x) for x in rng.integers(2, 7, 2)] + [int(x) for x in
                                            rng.integers(7, 41 if rng.random() < .1
                                                         else 14, 1)]:
            w = {k: F for k in L}
            for _ in range(steps):
                w = {k: L[k] @ w[k] for k in L}
            sc_ = max(np.abs(x).max() for x in w.values()) + s
            # rounding errors grow with the norm of the operator, also
            # where the flow itself does not
            norm = float(max(np.abs(x).sum(axis=1).max()
                             for x in L.values()))
            t = 1e-10 * sc_ + 1e-15 * steps * norm ** steps * s
            if steps >= 3:
                m.seen("steps>=3")
                m.nontrivial(sp.tris and
                             len({e[0] < e[1] for e in sp.edges}) > 1)
            lo = m.call("apply_lower_shifting", sc.apply_lower_shifting, f,
                        steps=steps)
            up = m.call("apply_upper_shifting", sc.apply_upper_shifting, f,
                        steps)
            kk = m.call("apply_k_step_shifting", sc.apply_k_step_shifting, f,
                        steps=steps)
            m.close(lo, w["l"], "lower-shifting", f"{steps} steps", atol=t)
            m.close(up, w["u"], "upper-shifting", f"{steps} steps", atol=t)
            m.close(kk, w["l"] + w["u"], "k-step", f"{steps} steps",
                    atol=2 * t)
            # composing shifts is shifting by the sum
            two = m.call("apply_lower_shifting", sc.apply_lower_shifting,
                         sc.apply_lower_shifting(f, steps=1),
                         steps=steps)
            m.close(two, L["l"] @ w["l"], "composition", atol=20 * t * max(norm, 1))
        m.close(m.call("apply_lower_shifting", sc.apply_lower_shifting, f),
                L["l"] @ F, "default-steps", atol=1e-10 * s)
        m.close(m.call("apply_upper_shifting", sc.apply_upper_shifting, f),
                L["u"] @ F, "default-steps", atol=1e-10 * s)
        x = L["l"] @ (L["l"] @ F) + L["u"] @ (L["u"] @ F)
        m.close(m.call("apply_k_step_shifting", sc.apply_k_step_shifting, f),
                x, "default-steps", atol=1e-9 * (s + np.abs(x).max()))
        m.check(np.array_equal(f, f0), "flow-unchanged")
        f, kind = gen.any_flow(rng, len(sp.edges))
        f0, s = np.array(f, copy=True), float(np.max(np.abs(f.astype(float))))
