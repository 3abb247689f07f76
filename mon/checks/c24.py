"""C24: invalid requests are rejected with ValueError and change nothing."""
import os

import numpy as np

from mon import build, gp_ref as G
from mon.checks import c23

RULE = ("histories of 20-40 requests on 2-3 complexes of the same shape and "
        "on long-lived filter, plot and GP objects, in which valid requests "
        "alternate with invalid ones (values one edit away from a valid one, "
        "other types, values valid elsewhere) at every entry point; each "
        "invalid one must raise ValueError and leave complexes, arguments, "
        "records, axes and generators alone, each valid one must answer like "
        "a fresh object that never saw an invalid request; non-trivial: at "
        "least 8 invalid requests")
QUICK, THOROUGH = 900, 12000
ENTRY = ["incidence_matrix", "lower_laplacian_matrix",
         "upper_laplacian_matrix", "hodge_laplacian_matrix",
         "get_component_eigenpair", "get_component_flow", "get_p_matrix",
         "get_component_coefficients", "get_true_signal", "LS.type_one",
         "LS.type_two", "Grid.denoise", "Grid.extract", "Den.denoise",
         "Den.plot", "Den.plot-before", "Cheb.apply", "Cheb.get_alpha",
         "Cheb.approx", "Cheb.plot_series", "Cheb.plot-before", "Cheb.plot",
         "Trend.l2", "Trend.l1", "Trend.interpolation",
         "Trend.shift_operator", "draw_network",
         "draw_hodge", "draw_eigenvectors", "kernel", "kernel-data",
         "load_dataset", "gp.parameters", "gp.matern"]
REQUIRED = {"reject:" + e: 60 for e in ENTRY}
REQUIRED.update({"decided:like-fresh": 8000, "decided:complex": 9000,
                 "decided:arguments": 9000, "decided:record": 3000,
                 "plot-before-other-run": 30})
ASSUMPTIONS = ["names are strings or other hashable scalars; a filter may "
               "clear its own record when it rejects a run",
               "an invalid component for a decomposition plot may leave an "
               "empty figure"]

COMPONENTS = ["gradient", "curl", "harmonic"]
P = ["L1", "L1L", "L1U"]
OPTIONS = ["node_sizes", "edge_colour", "width", "arrow_size", "color",
           "labels", "font", "edge_vmean", "Node_size", "edge_width ",
           "linewidth", "margin", "cmaps", "style", "node_list",
           "edge_cmaps", "connectionstyle"]


def near(rng, valid, extra=()):
    """A value that is none of the valid ones but looks like one."""
    for _ in range(100):
        k = int(rng.integers(0, 11))
        v = str(rng.choice(valid))
        i = int(rng.integers(0, len(v)))
        if k == 0:
            x = v.upper()
        elif k == 1:
            x = v.capitalize()
        elif k == 2:
            x = v[:i] + v[i + 1:]
        elif k == 3:
            x = v + str(rng.choice([" ", "s", "_", "\n", "0", "L"]))
        elif k == 4:
            x = " " + v
        elif k == 5:
            x = v[:i + 1]
        elif k == 6:
            x = ""
        elif k == 7:
            x = None
        elif k == 8:
            x = int(rng.integers(-2, 4))
        elif k == 9:
            x = v[::-1]
        else:
            x = extra[int(rng.integers(0, len(extra)))] if extra else "none"
        if x not in valid:
            return x
    return "invalid"


def bad_rank(rng, valid):
    while True:
        x = [-1, 0, 1, 2, 3, 4, 10, -2, 1.5, .5, "1", "0", None, np.int64(7),
             np.int64(-1)][int(rng.integers(0, 15))]
        if x not in valid:
            return x


def invalid(rng, W, sc, obj):
    """(label, callable, args, kwargs, what it may touch)"""
    from pytspl import load_dataset
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    lab = ENTRY[int(rng.integers(0, len(ENTRY)))]
    f = W.flows[int(rng.integers(0, len(W.flows)))]
    c = near(rng, COMPONENTS, ["divergence", "laplacian", "Harmonic flow",
                               "upper", "lower", "solenoidal"])
    p = near(rng, P, ["L0", "L2", "L1D", "l1", "lower", "LU", "L1l", "L1u"])
    t = near(rng, ["divergence", "curl"], ["gradient", "harmonic", "div",
                                           "rot"])
    C = str(rng.choice(COMPONENTS))
    ok_p = str(rng.choice(P))
    L = int(rng.integers(1, 4))
    neg = -int(rng.integers(1, 6))
    if lab in ("incidence_matrix", "hodge_laplacian_matrix"):
        return lab, getattr(sc, lab), (bad_rank(rng, (0, 1, 2)),), {}
    if lab == "lower_laplacian_matrix":
        return lab, sc.lower_laplacian_matrix, (bad_rank(rng, (1, 2)),), {}
    if lab == "upper_laplacian_matrix":
        return lab, sc.upper_laplacian_matrix, (bad_rank(rng, (0, 1)),), {}
    if lab == "get_component_eigenpair":
        return lab, sc.get_component_eigenpair, (c,), {}
    if lab == "get_component_flow":
        return lab, sc.get_component_flow, (f, c), dict(
            round_fig=bool(rng.integers(0, 2)))
    any_filter = obj(str(rng.choice(["LS", "Grid", "Den", "Cheb"])))
    if lab == "get_p_matrix":
        return lab, any_filter.get_p_matrix, (p,), {}
    if lab == "get_component_coefficients":
        return lab, any_filter.get_component_coefficients, (c,), {}
    if lab == "get_true_signal":
        return lab, any_filter.get_true_signal, (f, c), {}
    if lab == "LS.type_one":
        return lab, obj("LS").subcomponent_extraction_type_one, (), dict(
            f=f, component=c, L=L)
    if lab == "LS.type_two":
        x = "harmonic" if rng.random() < .4 else c
        return lab, obj("LS").subcomponent_extraction_type_two, (), dict(
            f=f, component=x, L=L)
    if lab == "Grid.denoise":
        return lab, obj("Grid").denoise, (), dict(
            f=f, f_true=f, p_choice=p, L=L, mu=.5)
    if lab == "Grid.extract":
        kw = dict(f=f, component=C, p_choice=ok_p, L=L, num_of_samples=9)
        if rng.random() < .5:
            kw["component"] = c
        else:
            kw["p_choice"] = p
        return lab, obj("Grid").subcomponent_extraction, (), kw
    if lab == "Den.denoise":
        return lab, obj("Den").denoise, (), dict(f=f, f_true=f, p_choice=p,
                                                 mu_vals=[.5])
    if lab == "Den.plot":
        return lab, obj("Den").plot_desired_frequency_response, (p,), {}
    if lab == "Den.plot-before":
        return lab, c23._filter("Den", sc).plot_desired_frequency_response, \
            (ok_p,), {}
    if lab == "Cheb.apply":
        kw = dict(f=f, p_choice="L1", component=C, L=L, n=4)
        if rng.random() < .5:
            kw["component"] = c
        else:
            kw["p_choice"] = p
        return lab, obj("Cheb").apply, (), kw
    if lab == "Cheb.get_alpha":
        return lab, obj("Cheb").get_alpha, (), dict(p_choice=p)
    if lab == "Cheb.approx":
        return lab, obj("Cheb").get_chebyshev_frequency_approx, (), dict(
            p_choice=p, coeffs=np.array([1., .5]), alpha=2.0, order=L)
    if lab == "Cheb.plot_series":
        return lab, obj("Cheb").plot_chebyshev_series_approx, (p,), {}
    if lab == "Cheb.plot-before":
        return lab, c23._filter("Cheb", sc).plot_frequency_response_approx, \
            (), dict(flow=f, component=C)
    if lab == "Cheb.plot":
        return lab, obj("Cheb").plot_frequency_response_approx, (), dict(
            flow=f, component=c)
    if lab == "Trend.l2":
        return lab, obj("Trend").denoising_l2_regularizer, (), dict(
            flow=f, component=t, num_realizations=1, snr_db=W.db)
    if lab == "Trend.l1":
        kw = dict(flow=f, component="curl", num_realizations=1, snr_db=W.db)
        kw.update(component=t) if rng.random() < .5 else kw.update(order=neg)
        return lab, obj("Trend").denoising_l1_regularizer, (), kw
    if lab == "Trend.interpolation":
        kw = dict(flow=f, component="divergence", ratio=np.array([.5]),
                  num_realizations=1)
        kw.update(component=t) if rng.random() < .5 else kw.update(order=neg)
        return lab, obj("Trend").interpolation_l1_regularizer, (), kw
    if lab == "Trend.shift_operator":
        return lab, obj("Trend").get_shift_operator, (), dict(
            component=str(rng.choice(["divergence", "curl"])), order=neg)
    if lab == "draw_network":
        import matplotlib.pyplot as plt

        kw = {str(rng.choice(OPTIONS)): 1}
        if rng.random() < .6:
            kw["node_size"] = 100
        if rng.random() < .3:
            kw["edge_width"] = 2
        if rng.random() < .5:
            kw["edge_flow"] = f
        if rng.random() < .5:
            W.fig, ax = plt.subplots()
            kw["ax"] = ax
        kw = {k: kw[k] for k in [list(kw)[i] for i in
                                 rng.permutation(len(kw))]}
        return lab, obj("Plot").draw_network, (), kw
    if lab == "draw_hodge":
        x = c if c is not None else "rot"
        return lab, obj("Plot").draw_hodge_decomposition, (), dict(
            flow=f, component=x)
    if lab == "draw_eigenvectors":
        return lab, obj("Plot").draw_eigenvectors, (), dict(component=c)
    if lab in ("kernel", "kernel-data"):
        ty, data = str(rng.choice(G.TYPES)), "forex"
        if lab == "kernel":
            ty = near(rng, G.TYPES, ["laplacian_non_hc", "matern-non-hc",
                                     "rbf", "forex"])
        else:
            data = near(rng, ["forex"], ["water", "ocean", "paper", "fx"])
        return lab, KernelSerializer().serialize, (), dict(
            eigenpairs=W.eigenpairs, kernel_type=ty, data_name=data)
    if lab == "load_dataset":
        return lab, load_dataset, (near(rng, W.datasets, [
            "../data/paper", "Paper_data", ".", "..", "transportation",
            "TransportationNetworks", "SiouxFalls_net.tntp", "/", "data"]),), \
            {}
    tr = obj("GP")
    return lab, (tr.get_model_parameters if lab == "gp.parameters"
                 else tr.build_matern_kernel), (), {}


def prepare(tier):
    c23.prepare(tier)
    from pytspl import list_datasets

    global DATASETS
    DATASETS = list_datasets()


def blank():
    import matplotlib.pyplot as plt

    return all(not (ax.collections or ax.patches or ax.texts or ax.lines
                    or ax.images)
               for n in plt.get_fignums() for ax in plt.figure(n).axes)


def case(m, rng, idx):
    import matplotlib.pyplot as plt
    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.plot import SCPlot

    os.environ["MPLBACKEND"] = "Agg"
    plt.close("all")
    W, specs, scs = c23.make_world(m, rng, idx % 41 == 7)
    W.datasets = DATASETS
    W.eigenpairs = HodgeGPTrainer(sc=scs[0], y=W.flows[0]).get_eigenpairs()
    args0 = c23.args_digest(W)
    snap0 = [c23.digest(build.snapshot(s)) for s in scs]
    objects = {}
    W.reuse, W.alias = True, True

    def obj(kind, i=None):
        i = cur if i is None else i
        if kind in ("LS", "Grid", "Den", "Cheb", "Trend"):
            k = (kind, id(scs[i]))
            if k not in W.slots:
                W.slots[k] = c23._filter(kind, scs[i])
            return W.slots[k]
        k = (kind, i)
        if k not in objects:
            if kind == "Plot":
                objects[k] = SCPlot(simplicial_complex=scs[i],
                                    coordinates=W.coords)
            else:
                objects[k] = HodgeGPTrainer(sc=scs[i], y=W.flows[0])
        return objects[k]

    fresh = {}
    bad = 0
    log = []
    for step in range(int(rng.integers(20, 41))):
        cur = int(rng.integers(0, len(scs)))
        sc = scs[cur]
        if rng.random() < .6:
            lab, fn, a, kw = invalid(rng, W, sc, obj)
            bad += 1
            log.append(("INVALID", cur, lab, str(a)[-60:], sorted(
                (k, str(v)[:30]) for k, v in kw.items()
                if not isinstance(v, np.ndarray))))
            m.note(history=log)
            h0 = {k: c23.digest(v.history) for k, v in W.slots.items()}
            g0, w0 = c23.generators(), c23.warning_state()
            if lab.endswith("plot-before") and any(
                    v.history["frequency_responses"] is not None
                    for k, v in W.slots.items()
                    if k[0] == lab.split(".")[0]):
                m.seen("plot-before-other-run")
            m.expect_raises(lab, ValueError, fn, *a, **kw)
            m.check(c23.generators() == g0, "generators", f"{log[-1]}")
            m.check(c23.warning_state() == w0, "warning-state",
                    f"{log[-1]}")
            for k, v in W.slots.items():
                if k not in h0:
                    continue
                h = c23.digest(v.history)
                own = getattr(fn, "__self__", None) is v
                m.check(c23.same(h, h0[k]) or own and all(
                    x is None for x in v.history.values()), "record",
                    f"{log[-1]} changed the record of {k[0]}", got=h,
                    want=h0[k])
            if lab != "draw_hodge":
                m.check(blank(), "drawn", f"{log[-1]} drew something")
            if lab == "draw_network" and "ax" not in kw:
                m.check(not plt.get_fignums(), "figure",
                        f"{log[-1]} opened a figure")
            plt.close("all")
        else:
            op = c23.pick(rng, W)
            log.append((cur, repr(op)))
            m.note(history=log)
            d = c23.digest(m.call(op.label, op.fn, sc, W))
            # a complex and objects that never saw an invalid request
            if cur not in fresh:
                fresh[cur] = W.build(cur)
                W.dicts[id(fresh[cur])] = dict(W.dicts[id(sc)])
                args0 = c23.args_digest(W)
            slots, W.slots = W.slots, {}
            e = c23.digest(m.call(op.label, op.fn, fresh[cur], W))
            W.slots = slots
            m.check(c23.same(d, e, op.tol), "like-fresh",
                    f"{log[-1]}: another answer than without the invalid "
                    "requests", got=d, want=e, history=log)
        m.check(c23.same(c23.args_digest(W), args0), "arguments",
                f"{log[-1]} changed an argument")
        for j, s in enumerate(scs):
            m.check(c23.same(c23.digest(build.snapshot(s)), snap0[j]),
                    "complex", f"{log[-1]} changed complex {j}",
                    got=build.snapshot(s), want=snap0[j])
    m.key([s.key() for s in specs], log)
    m.nontrivial(bad >= 8)
    plt.close("all")
