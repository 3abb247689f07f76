"""C14: edge-flow denoising is the exact regularised low-pass filter."""
import numpy as np

from mon import build, filters_ref as F, gen, oracles as O

RULE = ("random complexes x noisy flows x operators x lists of weights "
        "(including 0 and 1e6), decided by the normal equations, the "
        "objective at perturbed points and the exact spectra; non-trivial: "
        "the operator is non-zero, annihilates something non-zero and two "
        "different weights are used")
QUICK, THOROUGH = 3000, 40000
REQUIRED = {"call:denoise": 3000, "zero-weight": 500, "several-weights": 800,
            "integer-weights": 200}


def run(m, rng, flt, H, p, f, t, mus, default=False):
    f0, t0, mu0 = f.copy(), t.copy(), list(mus)
    if default:
        m.call("denoise", flt.denoise, f, t, p)
    else:
        arg = gen.nums(rng, mus)
        if np.asarray(arg).dtype.kind == "i":
            m.seen("integer-weights")
        m.call("denoise", flt.denoise, f=f, f_true=t, p_choice=p, mu_vals=arg)
        m.equal(list(arg), mu0, "weights-unchanged")
    m.check(np.array_equal(f, f0) and np.array_equal(t, t0),
            "flow-unchanged")
    P = H.lap(p)
    lam = np.sort(np.linalg.eigvalsh(P))
    lam[np.abs(lam) < 1e-9] = 0
    s = np.abs(f).max()
    h = flt.history
    x = np.asarray(h["f_estimated"])
    mu = mus[-1]
    # the inverse is rounded in proportion to the weight (calibrated: the
    # library stays below 1.3e-16 of it)
    rnd = 1e-15 * (1 + lam[-1])
    tol = 1e-9 * (1 + s) + rnd * mu * s
    m.close(x + mu * (P @ x), f, "normal-equations",
            f"{p} mu={mu}", atol=s * (1e-8 * (1 + mu * 1e-3) + (mu > 1e6) * rnd
                                          * mu * mu * lam[-1]) + 1e-12)
    m.close(x, np.linalg.solve(np.eye(H.m) + mu * P, f.astype(float)),
            "minimiser", f"{p} mu={mu}", atol=tol)
    # no nearby point and no trivial point is better
    def obj(y):
        return np.sum((y - f) ** 2) + mu * y @ (P @ y)

    best = obj(x)
    for y in (f.astype(float), np.zeros(H.m), x + 1e-3 * s *
              rng.standard_normal(H.m)):
        m.check(best <= obj(y) + 1e-9 * (1 + best) + H.m * mu * lam[-1]
                * (rnd * mu * s) ** 2, "objective",
                got=best, other=obj(y))
    m.close(h["filter"], np.linalg.inv(np.eye(H.m) + mu * P), "filter",
            atol=1e-9 + rnd * mu)
    fr = np.asarray(h["frequency_responses"])
    m.equal(fr.shape, (len(mus), H.m), "responses-shape")
    er = np.asarray(h["extracted_component_error"])
    m.equal(er.shape, (len(mus),), "errors-shape")
    for i, w in enumerate(mus):
        m.close(fr[i], 1 / (1 + w * lam), "response", f"{p} mu={w}",
                atol=1e-9 + rnd * w)
        y = np.linalg.solve(np.eye(H.m) + w * P, f.astype(float))
        want = F.nrmse(y, t)
        m.close(er[i], want, "error", f"{p} mu={w}", rtol=1e-7,
                atol=1e-9 + rnd * w * s * len(f) / np.linalg.norm(t))
    for part in ("gradient", "curl", "harmonic"):
        if not np.any(np.abs(P @ H.P(part)) > 1e-9):
            m.close(H.split(x)[part], H.split(f)[part], "kernel-unchanged",
                    f"{p} on {part}", atol=1e-8 * (1 + s) + rnd * mu * s)
    m.check(np.linalg.norm(x) <= np.linalg.norm(f) * (1 + 1e-9 + rnd * mu * len(f)), "energy")
    if mu == 0:
        m.seen("zero-weight")
        m.close(x, f, "zero-weight", atol=1e-12 * s)


def case(m, rng, idx):
    from pytspl.filters import EdgeFlowDenoising

    sp = gen.spec(rng, min_edges=1, size="g" if idx % 501 == 300 else
                  "hm" if idx % 31 == 7 else
                  str(rng.choice(["s", "m"])))
    H = O.Hodge(sp.n, sp.edges, sp.tris)
    sc = build.make_sc(m, rng, sp)
    flt = EdgeFlowDenoising(sc)
    m.note(complex=sp.describe())
    first = None
    for k in range(int(rng.integers(1, 4))):
        f, _ = gen.nonzero_flow(rng, H.m)
        t = f.astype(float) + rng.standard_normal(H.m) * np.abs(f).max()
        mus = [float(x) for x in rng.choice(
            [0.0, 1e-3, .1, .5, 1., 3., 40., 1e3, 1e6, 1e8],
            int(rng.integers(1, 6)))]
        if rng.random() < .25:
            mus = [float(x) for x in rng.choice(
                [0, 1, 2, 3, 40, 1000], int(rng.integers(1, 6)))]
        p = str(rng.choice(["L1", "L1L", "L1U"]))
        m.note(flow=f, weights=mus, operator=p)
        m.key(sp.key(), f.tobytes(), tuple(mus), p)
        if len(set(mus)) > 1:
            m.seen("several-weights")
        m.nontrivial(len(set(mus)) > 1 and np.any(H.lap(p))
                     and np.linalg.matrix_rank(H.lap(p)) < H.m)
        d = rng.random() < .15
        run(m, rng, flt, H, p, f, t, [.5] if d else mus, d)
        if first is None:
            first = (p, f, t, [.5] if d else mus)
    run(m, rng, flt, H, *first)
