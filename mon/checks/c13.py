"""C13: the history describes the last run and nothing else."""
import copy
import os
import sys

import numpy as np

from mon import build, common, filters_ref as F, gen, oracles as O

RULE = ("random sequences of 3-8 runs (all five filter classes, all run "
        "methods, general filters, rejected runs and plots in between) on "
        "several filter objects over two complexes; after every run the "
        "history is checked against itself, against the arguments, against a "
        "fresh filter on a freshly built equal complex, and all earlier "
        "results are checked to be untouched; non-trivial: at least two runs "
        "on the same object with different arguments")
QUICK, THOROUGH = 2500, 15000
REQUIRED = {"decided:fresh": 3000, "second-run-same-object": 1500,
            "rejected-between": 300, "general": 200, "chebyshev": 200,
            "trend": 200, "other-unit": 800, "decided:last-error": 2000,
            "decided:untouched": 2000, "decided:arguments-reused": 1500}
KEYS = {"filter", "f_estimated", "frequency_responses",
        "extracted_component_error", "filter_error"}


def prepare(tier):
    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    import matplotlib.pyplot  # noqa
    import pytspl.filters  # noqa


def digest(h):
    """Deep, comparable copy of a history."""
    if isinstance(h, dict):
        return {k: digest(v) for k, v in h.items()}
    if h is None or np.isscalar(h):
        return h
    return np.array(h, dtype=float, copy=True)


def same(a, b, tol=0.0):
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict)
                and set(a) == set(b) and all(same(a[k], b[k], tol)
                                             for k in a))
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not tol:
        return np.array_equal(a, b, equal_nan=True)
    return np.allclose(a, b, rtol=tol, atol=tol * (1 + (
        np.nanmax(np.abs(b)) if b.size else 0)), equal_nan=True)


class Run:
    """One request: how to make it, and what the history must say."""

    def __init__(self, cls, method, kw, check):
        self.cls, self.method, self.kw, self.check = cls, method, kw, check


def single(m, H, h, f, true, L, P, what, s):
    m.equal(set(h), KEYS, "keys")
    x, Hf = np.asarray(h["f_estimated"]), np.asarray(h["filter"])
    fr, er = (np.asarray(h["frequency_responses"]),
              np.asarray(h["extracted_component_error"]))
    m.equal((x.shape, Hf.shape, fr.shape, er.shape),
            ((H.m,), (H.m, H.m), (L, H.m), (L,)), "shapes", what)
    big = 1 + np.abs(Hf).max()
    m.close(x, Hf @ f, "estimate", what, atol=1e-9 * s * big)
    m.close(er[-1], F.nrmse(Hf @ f, true), "last-error", what, rtol=1e-7,
            atol=1e-9 * s * big / np.linalg.norm(true))
    lam, V = np.linalg.eigh(P)
    m.close(fr[-1], np.einsum("ij,ij->j", V, Hf @ V), "last-response", what,
            atol=1e-7 * big)
    m.check(np.asarray(h["filter_error"]).size == 0, "filter-error", what,
            got=h["filter_error"])


def make_run(rng, H, f, parts, s, trend):
    """A random request valid on the complex of H."""
    kinds = ["ls1", "ls2", "lsg", "gridd", "gride", "gridg", "den", "cheb"]
    if trend:
        kinds += ["trend"]
    kind = str(rng.choice(kinds))
    part = str(rng.choice(parts))
    L = int(rng.integers(1, 6))
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    sp = H.split(f)
    if kind == "ls1":
        return Run("LS", "subcomponent_extraction_type_one",
                   dict(f=f, component=part, L=L),
                   lambda m, h, r: single(m, H, h, f, sp[part], L, H.lap("L1"),
                                          f"type one {part} L={L}", s))
    if kind == "ls2":
        two = [q for q in parts if q != "harmonic"]
        if not two:
            return None
        part = str(rng.choice(two))
        q = "L1L" if part == "gradient" else "L1U"
        return Run("LS", "subcomponent_extraction_type_two",
                   dict(f=f, component=part, L=L),
                   lambda m, h, r: single(m, H, h, f, sp[part], L, H.lap(q),
                                          f"type two {part} L={L}", s))
    if kind in ("lsg", "gridg"):
        a = int(rng.integers(0, 5)) if "gradient" in parts else 0
        b = int(rng.integers(0, 5)) if "curl" in parts else 0

        def check(m, h, r):
            m.seen("general")
            m.equal(set(h), {"L1", "L2"}, "general-keys")
            hh, c, g = r
            m.close(hh + c + g, f, "general-sum", atol=1e-9 * (s + np.max(
                np.abs(g)) + np.max(np.abs(c))))
            for n, x, q, part, P in (("L1", g, a, "gradient", "L1L"),
                                     ("L2", c, b, "curl", "L1U")):
                if q == 0:
                    m.check(h[n] is None, "general-none", n, got=h[n])
                    m.check(not np.any(x), "general-empty", n, got=x)
                else:
                    m.close(x, h[n]["f_estimated"], "general-recorded", n,
                            atol=1e-12 * s)
                    single(m, H, h[n], f, sp[part], q, H.lap(P),
                           f"{kind} {n}={q}", s)

        return Run("LS" if kind == "lsg" else "Grid", "general_filter",
                   dict(f=f, L1=a, L2=b), check)
    if kind == "gridd":
        t = f + rng.standard_normal(H.m) * np.abs(f).max()
        return Run("Grid", "denoise", dict(
            f=f, f_true=t, p_choice=p, L=L, mu=float(rng.choice([.5, 2.]))),
            lambda m, h, r: single(m, H, h, f, t, L, H.lap(p),
                                   f"grid denoise {p} L={L}", s))
    if kind == "gride":
        return Run("Grid", "subcomponent_extraction", dict(
            f=f, component=part, p_choice=p, L=L,
            num_of_samples=int(rng.integers(L, 15)),
            cut_off_frequency=float(rng.choice([.01, .5]))),
            lambda m, h, r: single(m, H, h, f, sp[part], L, H.lap(p),
                                   f"grid extract {part} {p} L={L}", s))
    if kind == "den":
        t = f + rng.standard_normal(H.m) * np.abs(f).max()
        mus = [float(x) for x in rng.choice([0., .2, .5, 1., 7.],
                                            int(rng.integers(1, 5)))]
        if rng.random() < .3:
            mus = [int(x) for x in rng.choice([0, 1, 2, 7], len(mus))]
            if rng.random() < .5:
                mus = np.array(mus)
        return Run("Den", "denoise", dict(
            f=f, f_true=t, p_choice=p, mu_vals=mus),
            lambda m, h, r: single(m, H, h, f, t, len(mus), H.lap(p),
                                   f"denoise {p} {mus}", s))
    if kind == "cheb":
        q = p
        if not np.any(H.lap(q)) or H.m < 2:
            return None
        n = int(rng.integers(2, 9))

        def check(m, h, r):
            m.seen("chebyshev")
            m.equal(set(h), KEYS, "keys")
            Hf, x = np.asarray(h["filter"]), np.asarray(h["f_estimated"])
            er = np.asarray(h["extracted_component_error"])
            m.equal((Hf.shape, x.shape, er.shape,
                     np.asarray(h["filter_error"]).shape),
                    ((L, H.m, H.m), (L, H.m), (L,), (L,)), "cheb-shapes")
            for k in range(L):
                m.close(x[k], Hf[k] @ f, "estimate", f"chebyshev {k}",
                        atol=1e-9 * s)
                m.close(er[k], F.nrmse(Hf[k] @ f, sp[part]),
                        "last-error" if k == L - 1 else "error",
                        f"chebyshev {k}", rtol=1e-7,
                        atol=1e-8 * s / np.linalg.norm(sp[part]))

        return Run("Cheb", "apply", dict(
            f=f, p_choice=q, component=part, L=L, n=n), check)
    order = int(rng.integers(0, 3))
    db = np.array([10.0, 300.0])[:int(rng.integers(1, 3))]
    nr = int(rng.integers(1, 3))
    comp = str(rng.choice(["divergence", "curl"]))
    l2 = rng.random() < .8

    def check(m, h, r):
        m.seen("trend")
        m.equal(set(h), {"filter", "frequency_responses", "component_flow",
                         "errors", "correlations"}, "keys")
        x = np.asarray(h["frequency_responses"])
        m.equal(x.shape, (H.m, len(db), nr), "trend-shapes")
        m.equal(h["filter"] is None, not l2, "trend-filter")
        op = H.B1 if comp == "divergence" else H.B2.T
        e = np.linalg.norm(x - f[:, None, None], axis=0) / s
        m.close(h["errors"], e.mean(axis=1), "last-error", "trend",
                rtol=1e-7, atol=1e-9)
        d = np.linalg.norm(np.tensordot(op, x, 1), axis=0).mean(axis=1)
        m.close(h["component_flow"], d, "trend-component", atol=1e-7 * (1 + s))

    kw = dict(flow=f, component=comp, num_realizations=nr, snr_db=db)
    if l2:
        return Run("Trend", "denoising_l2_regularizer", kw, check)
    return Run("Trend", "denoising_l1_regularizer", dict(kw, order=order),
               check)


def rejected(m, rng, flt, cls, f):
    """An invalid request; returns True when one was made."""
    if cls == "LS":
        k = str(rng.choice(["subcomponent_extraction_type_one",
                            "subcomponent_extraction_type_two"]))
        kw = dict(f=f, component="Gradient", L=2)
    elif cls == "Grid":
        k = "subcomponent_extraction"
        kw = dict(f=f, component="curl", p_choice="L2", L=2)
    elif cls == "Den":
        k, kw = "denoise", dict(f=f, f_true=f, p_choice="l1")
    elif cls == "Cheb":
        k, kw = "apply", dict(f=f, p_choice="L0", component="curl")
    else:
        k = "denoising_l2_regularizer"
        kw = dict(flow=f, component="div", num_realizations=1,
                  snr_db=np.array([1.]))
    m.expect_raises(k, ValueError, getattr(flt, k), **kw)
    m.seen("rejected-between")


def case(m, rng, idx):
    from pytspl import filters as Fl
    import matplotlib.pyplot as plt
    from pytspl.filters.simplicial_trend_filter import SimplicialTrendFilter

    classes = dict(LS=Fl.LSFilterDesign, Grid=Fl.GridBasedFilterDesign,
                   Den=Fl.EdgeFlowDenoising, Cheb=Fl.ChebyshevFilterDesign,
                   Trend=SimplicialTrendFilter)
    specs = []
    while len(specs) < 2:
        big = idx % 41 == 7
        sp = gen.spec(rng, min_edges=3, max_edges=110 if big else 40,
                      size="hm" if big else
                      str(rng.choice(["s", "m"], p=[.7, .3])))
        if specs and rng.random() < .5:
            sp = gen.twin(rng, specs[0])
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            specs.append(sp)
    Hs = [O.Hodge(s.n, s.edges, s.tris) for s in specs]
    scs = [build.make_sc(m, rng, s) for s in specs]
    flts, last = {}, {}
    kept = []
    m.note(complexes=[s.describe() for s in specs])
    m.key(*[s.key() for s in specs], idx)
    focus = None
    script = []
    for step in range(int(rng.integers(3, 9))):
        i = int(rng.integers(0, 2)) if rng.random() < .6 or focus is None \
            else focus
        focus = i
        H = Hs[i]
        f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed", "view"])
        unit = 1.0
        if rng.random() < .3:  # the unit of the flow is the caller's choice
            unit = float(10.0 ** rng.integers(-9, 8))
            f = f * unit
            m.seen("other-unit")
        s = float(np.linalg.norm(f))
        parts = [p for p in ("gradient", "curl", "harmonic")
                 if np.linalg.norm(H.split(f)[p]) > 1e-3 * s]
        run = make_run(rng, H, f, parts, s, unit == 1.0)
        if run is None:
            continue
        # one of up to two filter objects of this class on this complex
        slot = (run.cls, i, int(rng.random() < .25))
        if slot not in flts:
            flts[slot] = classes[run.cls](scs[i])
        flt = flts[slot]
        if slot in last:
            m.seen("second-run-same-object")
            m.nontrivial()
        script.append((slot, run.method))
        m.note(script=script)
        f0 = f.copy()
        reuse = rng.random() < .5
        kw = {k: copy.deepcopy(v) if isinstance(v, list)
              or reuse and isinstance(v, np.ndarray) else v
              for k, v in run.kw.items()}
        seed = int(rng.integers(0, 2 ** 31))
        np.random.seed(seed)
        r = m.call(run.method, getattr(flt, run.method), **kw)
        m.check(np.array_equal(f, f0) and all(
            np.array_equal(v, run.kw[k]) for k, v in kw.items()
            if isinstance(v, np.ndarray)), "flow-unchanged", run.method)
        run.check(m, flt.history, r)
        # a fresh filter on a fresh, equal complex says the same
        fresh = classes[run.cls](build.make_sc(m, rng, specs[i]))
        np.random.seed(seed)
        r2 = m.call(run.method, getattr(fresh, run.method), **run.kw)
        tol = 1e-9 if run.cls != "Trend" else 1e-6
        m.check(same(digest(flt.history), digest(fresh.history), tol),
                "fresh", f"{slot} {run.method}: history differs from a "
                "fresh run with the same arguments",
                got=flt.history, want=fresh.history)
        if r is not None:
            m.check(all(same(np.asarray(a, float), np.asarray(b, float),
                             1e-9) for a, b in zip(r, r2)), "fresh-result")
        # histories of the other objects and earlier results stay
        for a, b in kept:
            m.check(same(digest(a), b), "untouched",
                    f"result of an earlier run changed during {run.method}",
                    got=a, want=b)
        for sl, d in last.items():
            if sl != slot:
                m.check(same(digest(flts[sl].history), d), "other-object",
                        f"history of {sl} changed during {slot} {run.method}")
        last[slot] = digest(flt.history)
        for v in (list(flt.history.values()) + list(r or [])):
            if isinstance(v, np.ndarray):
                kept.append((v, digest(v)))
            elif isinstance(v, dict):
                for w in v.values():
                    if isinstance(w, np.ndarray):
                        kept.append((w, digest(w)))
        # the caller's arrays are the caller's: reusing them is harmless
        if reuse:
            for v in kw.values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = -7
            m.seen("arguments-reused")
            m.check(same(digest(flt.history), last[slot])
                    and all(same(digest(a), b) for a, b in kept),
                    "arguments-reused", f"{slot} {run.method}: the record "
                    "changed with the caller's array", got=flt.history)
        q = rng.random()
        if q < .25:
            rejected(m, rng, flt, run.cls, f)
            # a rejected request may clear the record but not invent one
            h = flt.history
            m.check(same(digest(h), last[slot])
                    or all(v is None for v in h.values()),
                    "rejected-record", f"{slot} after a rejected request",
                    got=h)
            last[slot] = digest(h)
        elif q < .35 and run.cls == "Den":
            m.call("plot", flt.plot_desired_frequency_response, "L1")
            plt.close("all")
            m.check(same(digest(flt.history), last[slot]), "plot-untouched")
        elif q < .5 and run.cls == "Cheb":
            m.call("plot", flt.plot_frequency_response_approx, f,
                   run.kw["component"])
            plt.close("all")
            m.check(same(digest(flt.history), last[slot]), "plot-untouched")
        elif q < .6:
            # reading queries of the same complex in between
            m.call("coefficients", flt.get_component_coefficients, "curl")
            m.call("p_matrix", flt.get_p_matrix, "L1U")
            m.check(same(digest(flt.history), last[slot]), "query-untouched")
