"""C16: grid-based filters fit the requested response over the range."""
import numpy as np
from scipy.optimize import minimize_scalar

from mon import build, filters_ref as F, gen, oracles as O

RULE = ("random complexes x operators x sizes x responses; the recorded "
        "filter is compared with an independent fit over evenly spaced "
        "points from 0 to the estimated largest eigenvalue; when rounding "
        "can move that estimate, the estimate is recovered from the recorded "
        "filter itself and checked to lie in (0, lambda_max]; non-trivial: "
        "size >= 3 and non-zero operator")
QUICK, THOROUGH = 3000, 25000
REQUIRED = {"call:denoise": 800, "call:extract": 800, "decided:fit": 1000,
            "ones-in-kernel": 40, "converged": 200,
            "decided:long-commutes": 150}


def response(kind, a):
    if kind == "low":
        return lambda x: 1 / (1 + a * x)
    return lambda x: 1 / (1 + np.exp(-a[1] * (x - a[0])))


def decide(m, flt, H, p, n, g, L, f, true, what):
    P = H.lap(p)
    h = flt.history
    lam, V = np.linalg.eigh(P)
    lam[np.abs(lam) < 1e-9] = 0
    er = np.asarray(h["extracted_component_error"])
    fr = np.asarray(h["frequency_responses"])
    m.equal((er.shape, fr.shape), ((L,), (L, H.m)), "history-shapes")
    Hf = np.asarray(h["filter"])
    s = np.linalg.norm(f)
    m.close(Hf, Hf.T, "symmetric", atol=1e-7 * (1 + np.abs(Hf).max()))
    m.close(h["f_estimated"], Hf @ f, "estimate",
            atol=1e-9 * s * (1 + np.abs(Hf).max()))
    m.close(er[-1], F.nrmse(Hf @ f, true), "last-error", rtol=1e-7,
            atol=1e-9 * s / np.linalg.norm(true))
    if not np.any(P):
        return
    top = F.stable_lambda(P)
    mx = lam[-1]
    if top is None:
        m.seen("unstable-estimate")
        top = recover(m, fr, P, lam, mx, n, g, L)
        if top is None:
            return
    else:
        m.check(top > 0 and top <= mx * (1 + 1e-9), "oracle", got=top)
        if abs(top - mx) <= 1e-9 * mx:
            m.seen("converged")
    bad = compare(m, fr, P, lam, top, n, g, L)
    if bad:
        t2 = recover(None, fr, P, lam, mx, n, g, L)
        m.check(t2 is not None and abs(top - mx) > 1e-6 * mx, "fit",
                f"{what} {p}: {bad}; no admissible estimate of the largest "
                f"eigenvalue ({top:.6g} expected) explains the filter",
                recovered=t2, recorded=fr[-1])
        top = t2
    # errors of every size, on the fitted responses
    for l in range(1, L + 1):
        r = F.grid_fit(lam, top, n, g, l)
        if r is None or r[1] > 1e-4:
            continue
        Hl = (V * r[0]) @ V.T
        slack = 1e-5 if bad else 2e-6
        m.close(er[l - 1], F.nrmse(Hl @ f, true), "error", f"size {l}",
                rtol=1e-6, atol=(50 * r[1] + slack) * s /
                np.linalg.norm(true))
        if l == L:
            m.close(Hf, Hl, "filter", atol=50 * r[1] + (1e-6 + slack) *
                    (1 + np.abs(r[0]).max()))


def compare(m, fr, P, lam, top, n, g, L):
    for l in range(1, L + 1):
        r = F.grid_fit(lam, top, n, g, l)
        if r is None or r[1] > 1e-4:
            continue
        if m is not None:
            m.seen("decided:fit")
        d = np.abs(fr[l - 1] - r[0]).max()
        # the estimate itself is known to 1e-7
        if not np.isfinite(d) or d > 10 * r[1] + 2e-6 * (
                1 + np.abs(r[0]).max()):
            return f"size {l} response differs by {d:.2e}"
    return None


def recover(m, fr, P, lam, mx, n, g, L):
    """An estimate in (0, lambda_max] that explains every recorded
    response, or None (a violation when m is given)."""
    def cost(t):
        if not 0 < t <= mx * (1 + 1e-9):
            return 1e9
        tot = 0.0
        for l in range(1, L + 1):
            r = F.grid_fit(lam, t, n, g, l)
            if r is not None and r[1] < 1e-4:
                tot = max(tot, np.abs(fr[l - 1] - r[0]).max()
                          / (1 + np.abs(r[0]).max()))
        return tot

    ts = [F.power_lambda(P, e, seed=k) for e in (0, 1e-16, 1e-14)
          for k in range(3)]
    ts = np.concatenate([mx * np.linspace(.02, 1, 99), lam[lam > 0], ts])
    ts = np.unique(ts[np.isfinite(ts)])
    cs = [cost(t) for t in ts]
    for k in np.argsort(cs)[:4]:
        lo, hi = ts[max(k - 1, 0)], ts[min(k + 1, len(ts) - 1)]
        r = minimize_scalar(cost, bounds=(lo, hi), method="bounded",
                            options=dict(xatol=1e-11))
        for t, c in ((r.x, r.fun), (ts[k], cs[k])):
            if c < 1e-5:
                return float(t)
    if m is not None:
        m.check(False, "fit", "no estimate of the largest eigenvalue in "
                f"(0, {mx:.6g}] explains the recorded responses",
                recorded=fr[-1])
    return None


def long(m, rng, sp, H, flt, f):
    """Sizes whose coefficients no longer can be told still give a polynomial
    of the Laplacian, and record what it does."""
    m.seen("long")
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    P = H.lap(p).astype(float)
    L = int(rng.integers(12, 36))
    m.note(long=(p, L))
    m.key(sp.key(), "long", p, L)
    if rng.random() < .5:
        L = min(L, H.m)
        m.call("denoise", flt.denoise, f=f, f_true=f, p_choice=p, L=L)
    else:
        part = str(rng.choice([q for q in ("gradient", "curl", "harmonic")
                               if np.linalg.norm(H.split(f)[q]) > 1e-3
                               * np.linalg.norm(f)]))
        m.call("extract", flt.subcomponent_extraction, f=f, component=part,
               p_choice=p, L=L, num_of_samples=int(rng.integers(L, 3 * L)))
    h = flt.history
    Hf = np.asarray(h["filter"], float)
    fr = np.asarray(h["frequency_responses"])
    m.equal((fr.shape, Hf.shape), ((L, H.m), (H.m, H.m)), "history-shapes")
    s = np.abs(Hf).max() + 1
    m.close(Hf @ P, P @ Hf, "long-commutes", f"{p} size {L}",
            atol=2e-3 * s * max(np.abs(P).max(), 1))
    m.close(np.sort(fr[-1]), np.linalg.eigvalsh((Hf + Hf.T) / 2),
            "long-response", f"{p} size {L}", atol=2e-3 * s * H.m)
    m.close(h["f_estimated"], Hf @ f, "long-estimate", f"{p} size {L}",
            atol=1e-9 * s * H.m * np.linalg.norm(f))


def case(m, rng, idx):
    from pytspl.filters import GridBasedFilterDesign
    # now and then hundreds of edges
    big = idx % 31 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")

    fam = None
    if idx % 9 == 0:
        fam = str(rng.choice(["cycle", "path", "surface", "complete"]))
    sp = gen.spec(rng, min_edges=2, max_edges=1300 if giant else 260 if big else 60,
                  family=fam,
                  size="g" if giant else "hm" if big else str(rng.choice(["s", "m"])),
                  canonical=True if idx % 4 == 0 else None)
    if idx % 9 == 0 and idx % 2:
        fam, sp = "cycle", gen.spec(rng, min_edges=3, family="cycle",
                                    size="m")
        k = sp.n  # oriented cycle: the all-ones flow is divergence free
        sp = gen.Spec(k, [(i, (i + 1) % k) for i in range(k)], [], "ring")
    H = O.Hodge(sp.n, sp.edges, sp.tris)
    sc = build.make_sc(m, rng, sp)
    flt = GridBasedFilterDesign(sc)
    f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed", "view"])
    f = gen.unit(rng, f)
    s = np.linalg.norm(f)
    m.note(complex=sp.describe(), flow=f)
    for k in range(2):
        p = str(rng.choice(["L1", "L1L", "L1U"]))
        P = H.lap(p)
        if np.any(P) and not np.any(P @ np.ones(H.m)):
            m.seen("ones-in-kernel")
        L = int(rng.integers(1, 8))
        m.nontrivial(L >= 3 and np.any(P))
        if rng.random() < .5:
            mu = gen.num(rng, rng.choice([.5, .05, 1., 4., 0.]))
            t = f + rng.standard_normal(H.m) * np.abs(f).max()
            L = min(L, H.m)
            kw = {} if mu == .5 and rng.random() < .6 else dict(mu=mu)
            m.key(sp.key(), p, L, mu, f.tobytes())
            m.note(request=("denoise", p, L, mu))
            m.call("denoise", flt.denoise, f=f, f_true=t, p_choice=p,
                   L=gen.whole(rng, L), **kw)
            decide(m, flt, H, p, H.m, response("low", mu), L, f, t, "denoise")
        else:
            parts = [q for q in ("gradient", "curl", "harmonic")
                     if np.linalg.norm(H.split(f)[q]) > 1e-3 * s]
            part = str(rng.choice(parts))
            kw, n, a = {}, 10, [.01, 100]
            if rng.random() < .5:
                n = int(rng.integers(L, 40))
                kw["num_of_samples"] = n
            if rng.random() < .5:
                a[0] = gen.num(rng, rng.choice([.01, .5, 1.2, 1]))
                kw["cut_off_frequency"] = a[0]
            if rng.random() < .5:
                a[1] = gen.num(rng, rng.choice([100, 20, 3]))
                kw["steep"] = a[1]
            if rng.random() < .3:
                kw["mu"] = gen.num(rng, rng.choice([.1, 2.]))
            m.key(sp.key(), p, L, part, tuple(kw.items()), f.tobytes())
            m.note(request=("extract", p, L, part, kw))
            m.call("extract", flt.subcomponent_extraction, f=f,
                   component=part, p_choice=p, L=gen.whole(rng, L), **kw)
            decide(m, flt, H, p, n, response("high", a), L, f,
                   H.split(f)[part], "extract")
    if idx % 6 == 2 and H.m <= 60:
        long(m, rng, sp, H, flt, f)
    # the response function itself
    x = np.concatenate([[0., .01], rng.uniform(0, 3, 4)])
    for kw, (c0, st) in (({}, (.01, 100)),
                         (dict(cut_off_frequency=.7), (.7, 100)),
                         (dict(steep=7), (.01, 7)),
                         (dict(cut_off_frequency=1.3, steep=4), (1.3, 4))):
        m.close(m.call("logistic", flt.logistic_function, **kw)(x),
                1 / (1 + np.exp(-st * (x - c0))), "logistic", str(kw),
                atol=1e-12)
    # the general filter takes the default response for both parts
    if rng.random() < .3:
        L1, L2 = int(rng.integers(0, 5)), int(rng.integers(0, 5))
        if not sp.tris:
            L2 = 0
        h, c, g = m.call("general", flt.general_filter, f, L1, L2)
        m.close(h + c + g, f, "general-sum", atol=1e-9 * s)
        for x, L, part, p, key in ((g, L1, "gradient", "L1L", "L1"),
                                   (c, L2, "curl", "L1U", "L2")):
            if L == 0:
                m.check(not np.any(x), "general-empty", part, got=x)
            elif np.linalg.norm(H.split(f)[part]) > 1e-3 * s:
                sub = GridBasedFilterDesign(sc)
                sub.history = flt.history[key]
                m.close(x, sub.history["f_estimated"], "general-recorded",
                        atol=1e-12 * s)
                decide(m, sub, H, p, 10, response("high", [.01, 100]), L, f,
                       H.split(f)[part], "general")
