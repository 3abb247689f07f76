"""C17: Chebyshev filters evaluate their series on the operator."""
import os
import sys

import numpy as np
from numpy.polynomial import chebyshev as C

from mon import build, common, filters_ref as F, gen, oracles as O

RULE = ("random complexes x operators x coefficient vectors x alphas x "
        "orders for the recurrence, the exact interval estimate for alpha, "
        "the exact projector for the ideal filter, and whole applications "
        "with a stand-in for the absent series library; non-trivial: order "
        ">= 3 on a non-zero operator")
QUICK, THOROUGH = 3000, 40000
REQUIRED = {"call:approx": 2500, "call:apply": 1200, "call:alpha": 1500,
            "decided:series": 2500, "decided:ideal-projector": 800,
            "more-order-than-coefficients": 300,
            "more-coefficients-than-order": 300, "one-coefficient": 100,
            "other-operator-before": 500}
ASSUMPTIONS = ["chebpy is not installed: applications use a stand-in that "
               "interpolates at Chebyshev points of the second kind",
               "only the filter of the full requested size is judged "
               "against the series (smaller sizes are reported one step "
               "off upstream)"]


def prepare(tier):
    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    import pytspl.filters  # noqa


def series(P, coeffs, alpha):
    """The series by its eigenvalues and by the trigonometric definition."""
    lam, V = np.linalg.eigh(P)
    x = (lam - alpha) / alpha
    val = C.chebval(x, coeffs)
    return (V * val) @ V.T


def check_power(m, rng, flt, P, p):
    """Rayleigh quotients of power iterations grow to the largest
    eigenvalue."""
    if not np.any(P):
        return
    mx = float(np.linalg.eigvalsh(P)[-1])
    last = 0.0
    ks = sorted({int(k) for k in rng.integers(1, 200, 3)})
    for k in ks:
        v = m.call("power", flt.power_iteration, P=P.astype(float),
                   iterations=k)
        v = np.asarray(v, float)
        m.check(v.shape == (len(P),) and np.all(np.isfinite(v)) and
                np.any(v), "power-vector", f"{p} after {k}", got=v)
        q = v @ P @ v / (v @ v)
        m.check(0 < q <= mx * (1 + 1e-9), "power-range", f"{p} after {k}",
                got=q, largest=mx)
        m.check(q >= last - 1e-9 * mx, "power-grows",
                f"{p}: worse after {k} steps than after fewer", got=q,
                before=last)
        last = q


def check_alpha(m, flt, P, p):
    alpha, lm = m.call("alpha", flt.get_alpha, p)
    mx = float(np.linalg.eigvalsh(P)[-1])
    m.close(alpha, lm / 2, "alpha-half", p, atol=1e-12 * (1 + mx))
    if not np.any(P):
        m.close(lm, 0.0, "alpha-zero", p)
        return alpha, lm
    m.check(0 < lm <= mx * (1 + 1e-9), "alpha-range", p, got=lm, largest=mx)
    t = F.stable_lambda(P)
    if t is not None:
        m.close(lm, t, "alpha-estimate", p, atol=1e-6 * mx)
        if abs(t - mx) < 1e-9 * mx:
            m.close(lm, mx, "alpha-converged", p, atol=1e-7 * mx)
    return alpha, lm


def case(m, rng, idx):
    from pytspl.filters import ChebyshevFilterDesign
    # now and then hundreds of edges
    big = idx % 41 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")

    while True:
        fam = "tree" if idx % 11 == 0 else None
        sp = gen.spec(rng, min_edges=1, max_edges=(1300 if idx == 300 else 750) if giant else 260 if big else 60,
                      family=fam,
                      size="g" if giant else "hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    sc = build.make_sc(m, rng, sp)
    flt = ChebyshevFilterDesign(sc)
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    P = H.lap(p)
    f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed", "view"])
    f = gen.unit(rng, f)
    s = float(np.linalg.norm(f))
    m.note(complex=sp.describe(), operator=p)
    if rng.random() < .4:  # the same filter was asked about others before
        for q in rng.permutation(["L1", "L1L", "L1U"])[
                :int(rng.integers(1, 4))]:
            check_alpha(m, flt, H.lap(str(q)), str(q))
        m.seen("other-operator-before")
    alpha, lm = check_alpha(m, flt, P, p)
    check_power(m, rng, flt, P, p)
    mx = float(np.linalg.eigvalsh(P)[-1])

    # the recurrence
    for _ in range(2):
        order, nc = int(rng.integers(1, 14)), int(rng.integers(1, 14))
        if rng.random() < .1:
            order = int(rng.integers(15, 30))
        c = np.round(rng.standard_normal(nc), 3)
        if rng.random() < .3:
            c = c / (1 + np.arange(nc))
        a = float(alpha) if alpha > 0 and rng.random() < .5 else \
            float(rng.choice([.5, 1., 3.])) * max(mx, 1.0)
        if rng.random() < .25:
            c = rng.integers(-3, 4, nc)
            m.seen("integer-coefficients")
        form = c if rng.random() < .7 else list(c)
        a = gen.num(rng, a)
        m.note(order=order, coefficients=c, alpha=a)
        m.key(sp.key(), p, order, tuple(c), a)
        m.nontrivial(order >= 3 and np.any(P))
        x = np.abs((mx - a) / a) + np.abs(a / a)
        if order > nc:
            m.seen("more-order-than-coefficients")
        elif nc > order:
            m.seen("more-coefficients-than-order")
        if nc == 1:
            m.seen("one-coefficient")
        c0 = c.copy()
        got = m.call("approx", flt.get_chebyshev_frequency_approx, p, form,
                     a, order)
        m.check(np.array_equal(c, c0), "coefficients-unchanged")
        m.equal(np.shape(got), (order, H.m, H.m), "shape")
        want = series(P, c[:order], a)
        top = 1 + np.abs(C.chebval(max(1.0, abs(mx / a - 1)),
                                   np.abs(c[:order])))
        m.close(got[-1], want, "series", f"{p} order={order}",
                atol=1e-9 * top * (1 + order))
        # all smaller filters are truncations of the same series
        for k in range(order - 1):
            w = [series(P, c[:j], a) for j in (k + 1, k + 2)]
            m.check(min(np.abs(got[k] - y).max() for y in w)
                    <= 1e-9 * top * (1 + order), "truncation",
                    f"{p} size {k + 1} of {order}", got=got[k], want=w)

    # the ideal filter
    part = str(rng.choice(["gradient", "curl", "harmonic"]))
    mask = m.call("mask", flt.get_component_coefficients, part)
    ideal = m.call("ideal", flt.get_ideal_frequency, mask)
    lam = np.linalg.eigvalsh(H.L1.astype(float))
    m.close(ideal, np.asarray(ideal).T, "ideal-symmetric", atol=1e-9)
    m.close(np.asarray(ideal) @ ideal, ideal, "ideal-idempotent", atol=1e-9)
    m.close(np.trace(ideal), dict(zip(("harmonic", "gradient", "curl"),
                                      H.dims))[part], "ideal-rank",
            atol=1e-8)
    gap = F.shared(H, 1e-5)
    if not gap:
        m.close(ideal, H.P(part), "ideal-projector", part, atol=1e-7)
    # any other coefficients, too
    q = rng.standard_normal(H.m)
    if np.min(np.diff(lam), initial=np.inf) > 1e-6:
        w, V = np.linalg.eigh(H.L1.astype(float))
        m.close(m.call("ideal", flt.get_ideal_frequency, q), (V * q) @ V.T,
                "ideal-any", atol=1e-7)

    # a whole application
    parts = [x for x in ("gradient", "curl", "harmonic")
             if np.linalg.norm(H.split(f)[x]) > 1e-3 * s]
    if not np.any(P):
        return
    part = str(rng.choice(parts))
    L, n = int(rng.integers(1, 13)), None
    kw = {}
    if rng.random() < .5:
        n = int(rng.integers(1, 20 if rng.random() < .8 else 90))
        kw["n"] = n
    cut, steep = .01, 100
    if rng.random() < .5:
        cut = kw["cut_off_frequency"] = gen.num(
            rng, rng.choice([.01, .5, 1.5, 1.]))
    if rng.random() < .5:
        steep = kw["steep"] = gen.num(rng, rng.choice([3, 20, 100]))
    m.note(request=(p, part, L, kw), flow=f)
    m.key(sp.key(), p, part, L, tuple(kw.items()), f.tobytes())
    m.call("apply", flt.apply, f=f, p_choice=p, component=part,
           L=gen.whole(rng, L), **kw)
    h = flt.history
    Hf = np.asarray(h["filter"])
    m.equal(Hf.shape, (L, H.m, H.m), "apply-shape")
    n = n or L
    # independent interpolant: at n Chebyshev points on [0, lm], summed as a
    # Lagrange interpolant through a fit in the Chebyshev basis
    with np.errstate(over="ignore"):
        xs = np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1)
        ys = 1 / (1 + np.exp(-steep * ((xs + 1) * lm / 2 - cut)))
    c = np.linalg.lstsq(C.chebvander(xs, n - 1), ys, rcond=None)[0]
    want = series(P, c[:L], lm / 2)
    top = 1 + np.abs(C.chebval(max(1., 2 * mx / lm - 1), np.abs(c)))
    m.close(Hf[-1], want, "apply-filter", f"{p} L={L} {kw}",
            atol=1e-7 * top * (1 + L))
    true = H.split(f)[part]
    w, V = np.linalg.eigh(H.L1.astype(float))
    target = ideal_of(m, flt, H, part, gap)
    for k in range(L):
        x = Hf[k] @ f
        m.close(h["f_estimated"][k], x, "apply-estimate", atol=1e-9 * s * top)
        m.close(h["extracted_component_error"][k], F.nrmse(x, true),
                "apply-error", rtol=1e-7,
                atol=1e-8 * s * top / np.linalg.norm(true))
        m.close(h["filter_error"][k], np.linalg.norm(Hf[k] - target, 2),
                "apply-filter-error", rtol=1e-6, atol=1e-7 * top)
        e = np.asarray(h["frequency_responses"][k])
        m.close(np.linalg.norm(e), np.linalg.norm(x), "apply-embedding-energy",
                rtol=1e-7, atol=1e-9 * s)
        # embeddings per eigenspace, basis free
        ids = np.concatenate([[0], np.cumsum(np.diff(w) > 1e-6)])
        u = V.T @ x
        for j in np.unique(ids):
            m.close(np.linalg.norm(e[ids == j]), np.linalg.norm(u[ids == j]),
                    "apply-embedding", atol=1e-6 * s * top)
    # no smaller than the previous steps, and steps are truncations
    for k in range(L - 1):
        ws = [series(P, c[:j], lm / 2) for j in (k + 1, k + 2)]
        m.check(min(np.abs(Hf[k] - y).max() for y in ws)
                <= 1e-7 * top * (1 + L), "apply-truncation",
                f"{p} size {k + 1} of {L}")


def ideal_of(m, flt, H, part, gap):
    if not gap:
        return H.P(part)
    return flt.get_ideal_frequency(flt.get_component_coefficients(part))
