"""C26: filter plots show the recorded responses over the spectrum."""
import os
import sys

import numpy as np
from numpy.polynomial import chebyshev as C

from mon import build, common, filters_ref as F, gen, oracles as O

RULE = ("random complexes x operators x runs of denoising and Chebyshev "
        "filters, several runs and plots in a row on one object with other "
        "figures open; lines, markers and legends of the new figure are read "
        "back and compared with the record, the exact spectra and the stated "
        "functions; non-trivial: at least three different eigenvalues and "
        "several weights or filter sizes")
QUICK, THOROUGH = 1200, 12000
REQUIRED = {"call:plot-denoise": 400, "call:plot-series": 400,
            "call:plot-response": 400, "decided:curve": 400,
            "decided:series-function": 400, "decided:series-approx": 400,
            "decided:response-true": 400, "second-plot": 200}
ASSUMPTIONS = ["chebpy is not installed: a stand-in interpolates at "
               "Chebyshev points of the second kind",
               "read back through matplotlib's artists on the Agg backend"]


def prepare(tier):
    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    import matplotlib.pyplot  # noqa
    import pytspl.filters  # noqa


def new_axes(m, what, fn, *a, **kw):
    """Plot; the one figure it opens and its axes."""
    import matplotlib.pyplot as plt

    before = list(plt.get_fignums())
    old = {k: len(x.get_children()) for k in before
           for x in plt.figure(k).axes}
    if before:
        plt.figure(before[0])
    m.call(what, fn, *a, **kw)
    added = [k for k in plt.get_fignums() if k not in before]
    m.equal(len(added), 1, "one-new-figure", what)
    axes = plt.figure(added[0]).axes
    m.equal(len(axes), 1, "one-axes", what)
    for k in before:
        for x in plt.figure(k).axes:
            m.equal(len(x.get_children()), old[k], "other-figures", what)
    return axes[0]


def points(coll):
    return np.asarray(np.ma.getdata(coll.get_offsets()), float)


def named(m, ax, what, words):
    """The two series of a scatter plot by their names in the legend."""
    leg = ax.get_legend()
    m.check(leg is not None, "legend", what)
    got = {}
    hs = getattr(leg, "legend_handles", None)
    for t, h in zip(leg.get_texts(), hs):
        col = np.asarray(h.get_facecolor(), float).reshape(-1)[:3]
        match = [c for c in ax.collections
                 if np.allclose(c.get_facecolor()[0][:3], col)]
        m.equal(len(match), 1, "legend-colour", what)
        got[t.get_text().lower()] = match[0]
    out = []
    for w in words:
        k = [n for n in got if w in n]
        m.equal(len(k), 1, "legend-name", what, legend=list(got))
        out.append(got[k[0]])
    m.check(out[0] is not out[1], "legend-distinct", what)
    return [points(c) for c in out]


def case(m, rng, idx):
    import matplotlib.pyplot as plt
    from pytspl import filters as Fl

    plt.close("all")
    while True:
        big = idx % 41 == 7
        sp = gen.spec(rng, min_edges=2, max_edges=150 if big else 45,
                      size="hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    sc = build.make_sc(m, rng, sp)
    f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed", "view"])
    f = gen.unit(rng, f)
    s = float(np.linalg.norm(f))
    m.note(complex=sp.describe(), flow=f)
    if rng.random() < .5:  # a figure of the caller's own
        plt.figure()
        plt.plot([0, 1], [1, 0])
    den = Fl.EdgeFlowDenoising(sc)
    cheb = Fl.ChebyshevFilterDesign(sc)
    n = 0
    for step in range(int(rng.integers(2, 5))):
        kind = str(rng.choice(["den", "series", "response"]))
        p = str(rng.choice(["L1", "L1L", "L1U"]))
        P = H.lap(p)
        lam = np.linalg.eigvalsh(P)
        if kind == "den":
            mus = [float(x) for x in rng.choice(
                [0., .2, .5, 1., 7., 30.], int(rng.integers(
                    1, 5 if rng.random() < .8 else 40)))]
            t = f + rng.standard_normal(H.m) * np.abs(f).max()
            m.key(sp.key(), kind, p, tuple(mus), f.tobytes())
            m.note(request=(kind, p, mus))
            m.call("denoise", den.denoise, f=f, f_true=t, p_choice=p,
                   mu_vals=mus)
            for again in range(1 + (rng.random() < .3)):
                rec = common.dense(den.history["frequency_responses"]).copy()
                ax = new_axes(m, "plot-denoise",
                              den.plot_desired_frequency_response, p)
                m.equal(len(ax.lines), 1, "one-curve")
                x, y = (np.asarray(v, float)
                        for v in ax.lines[0].get_data())
                m.close(x, lam, "curve-frequencies", p,
                        atol=1e-7 * (1 + lam[-1]))
                m.close(y, rec[-1], "curve", p, atol=1e-12)
                m.close(y, 1 / (1 + mus[-1] * lam), "curve-response",
                        f"{p} {mus}", atol=1e-6)
                m.check(np.array_equal(
                    rec, common.dense(den.history["frequency_responses"])),
                    "record-untouched", kind)
                n += 1
            m.nontrivial(len(mus) > 1 and len(F.distinct(lam, 1e-6)) > 2)
            continue
        if not np.any(P):
            continue
        if kind == "series":
            kw = {}
            k, cut, steep = H.m, .01, 100
            if rng.random() < .6:
                k = kw["n"] = int(rng.integers(1, 16))
            if rng.random() < .6:
                cut = kw["cut_off_frequency"] = float(
                    rng.choice([.01, .5, 1.5]))
            if rng.random() < .6:
                steep = kw["steep"] = float(rng.choice([3, 20, 100]))
            m.note(request=(kind, p, kw))
            m.key(sp.key(), kind, p, tuple(kw.items()))
            lm = float(m.call("alpha", cheb.get_alpha, p)[1])
            ax = new_axes(m, "plot-series", cheb.plot_chebyshev_series_approx,
                          p, **kw)
            m.equal(len(ax.collections), 2, "two-series")
            a, b = named(m, ax, kind, ("function", "cheb"))
            xs = np.cos(np.pi * np.arange(k) / (k - 1)) if k > 1 \
                else np.zeros(1)
            with np.errstate(over="ignore"):
                g = lambda z: 1 / (1 + np.exp(-steep * (z - cut)))  # noqa
                c = np.linalg.lstsq(C.chebvander(xs, k - 1),
                                    g((xs + 1) * lm / 2), rcond=None)[0]
                want = g(lam)
            for q, nm in ((a, "function"), (b, "approx")):
                m.close(np.sort(q[:, 0]), lam, "series-frequencies", nm,
                        atol=1e-7 * (1 + lam[-1]))
            o = np.argsort(a[:, 0])
            m.close(a[o, 1], want, "series-function", f"{p} {kw}",
                    atol=1e-6 * (1 + steep))
            z = 2 * lam / lm - 1
            top = 1 + np.abs(C.chebval(np.maximum(1., np.abs(z)), np.abs(c)))
            slope = np.abs(C.chebval(np.maximum(1., np.abs(z)),
                                     np.abs(C.chebder(c)) if k > 1
                                     else [0.]))
            o = np.argsort(b[:, 0])
            m.check(np.all(np.abs(b[o, 1] - C.chebval(z, c)) <=
                           1e-7 * (top + slope)), "series-approx",
                    f"{p} {kw}", got=b[o, 1], want=C.chebval(z, c))
            n += 1
            m.nontrivial(len(F.distinct(lam, 1e-6)) > 2 and k > 2)
            continue
        parts = [q for q in ("gradient", "curl", "harmonic")
                 if np.linalg.norm(H.split(f)[q]) > 1e-3 * s]
        part = str(rng.choice(parts))
        L = int(rng.integers(1, 7))
        m.key(sp.key(), kind, p, part, L, f.tobytes())
        m.note(request=(kind, p, part, L))
        m.call("apply", cheb.apply, f=f, p_choice=p, component=part, L=L,
               **({} if rng.random() < .5 else {"n": L + 2}))
        h = {k: common.dense(v).copy() for k, v in cheb.history.items()}
        kw = {} if rng.random() < .6 else dict(fontdict={"fontsize": 9})
        ax = new_axes(m, "plot-response",
                      cheb.plot_frequency_response_approx, f, part, **kw)
        m.equal(len(ax.collections), 2, "two-series")
        a, b = named(m, ax, kind, ("true", "cheb"))
        w, V = np.linalg.eigh(H.L1.astype(float))
        for q, nm in ((a, "true"), (b, "approx")):
            m.close(np.sort(q[:, 0]), w, "response-frequencies", nm,
                    atol=1e-7 * (1 + w[-1]))
        m.close(b[:, 1], h["frequency_responses"][-1], "response-recorded",
                part, atol=1e-12 * s)
        # per eigenspace, whatever basis is used in it
        ids = np.concatenate([[0], np.cumsum(np.diff(w) > 1e-6)])
        true, est = H.split(f)[part], h["f_estimated"][-1]
        u, v = V.T @ true, V.T @ est
        amp = max(s, float(np.linalg.norm(est)))
        for k in np.unique(ids):
            i = ids == k
            for x, y, z, nm in ((a, a, u @ (i * u), "true"),
                                (b, b, v @ (i * v), "approx"),
                                (a, b, u @ (i * v), "both")):
                m.close(x[i, 1] @ y[i, 1], z, "response-" + nm, part,
                        atol=1e-6 * amp ** 2)
        m.check(all(np.array_equal(h[k], common.dense(v))
                    for k, v in cheb.history.items()), "record-untouched",
                kind)
        n += 1
        m.nontrivial(L > 1 and len(F.distinct(w, 1e-6)) > 2)
    if n > 1:
        m.seen("second-plot")
    plt.close("all")
