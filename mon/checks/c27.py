"""C27: options left out take their documented defaults, and arguments mean
the same by position and by name."""
import copy
import os
import shutil
import sys
import tempfile

import numpy as np

from mon import build, common, gen, oracles as O
from mon.checks.c23 import digest, same

RULE = ("every public function of the library, on random complexes, flows "
        "and files: one call with every argument by name and every default "
        "written out (or another value chosen), compared with calls that "
        "leave out options that are at their documented default and give a "
        "random leading part of the arguments by position; plots are compared "
        "pixel by pixel; non-trivial: an option was left out or an argument "
        "given by position")
QUICK, THOROUGH = 1200, 16000
ASSUMPTIONS = ["defaults and order are those of the docstrings and "
               "signatures at the pinned commit",
               "optimisation problems are compared to 1e-3, pictures exactly"]
TABLE_MIN = {"core": 4000, "filter": 1500, "plot": 500, "gp": 500,
             "io": 400, "trend": 300, "build": 500, "decomposition": 1200}
REQUIRED = dict({f"group:{k}": v for k, v in TABLE_MIN.items()},
                **{"left-out": 8000, "by-position": 8000, "long": 100,
                   "training": 4})
NO = object()


def prepare(tier):
    import matplotlib

    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import pytspl.plot  # noqa
    import pytspl.hogde_gp  # noqa
    from pytspl.filters import simplicial_trend_filter  # noqa


class F:
    """One public function: how to make a fresh callable, its parameters in
    documented order [(name, default or NO, values to choose from)], and what
    the caller sees of the result."""

    def __init__(self, group, name, make, params, see=lambda o, r: r,
                 tol=1e-9, seed=False):
        self.group, self.name, self.make = group, name, make
        self.params, self.see, self.tol, self.seed = params, see, tol, seed


def history(o, r):
    return (copy.deepcopy(o.history), r)


def picture(o, r):
    import matplotlib.pyplot as plt

    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        fig.set_dpi(40)
        fig.canvas.draw()
        out.append(np.asarray(fig.canvas.buffer_rgba()).copy())
    plt.close("all")
    return out


def core(rng, W):
    from pytspl.simplicial_complex import SimplicialComplex as SC

    sc, f = W.sc, W.flow
    comp = ["gradient", "curl", "harmonic"]
    s = W.simplex
    return [
        F("core", "get_edge_features", lambda: sc.get_edge_features,
          [("name", None, [W.feat])]),
        F("core", "get_faces", lambda: sc.get_faces, [("simplex", NO, [s])],
          see=lambda o, r: sorted(map(tuple, r))),
        F("core", "incidence_matrix", lambda: sc.incidence_matrix,
          [("rank", NO, [0, 1, 2])]),
        F("core", "lower_laplacian_matrix", lambda: sc.lower_laplacian_matrix,
          [("rank", 1, [2])]),
        F("core", "upper_laplacian_matrix", lambda: sc.upper_laplacian_matrix,
          [("rank", 1, [0])]),
        F("core", "hodge_laplacian_matrix", lambda: sc.hodge_laplacian_matrix,
          [("rank", 1, [0, 2])]),
        F("core", "apply_lower_shifting", lambda: sc.apply_lower_shifting,
          [("flow", NO, [f]), ("steps", 1, [2, 3])]),
        F("core", "apply_upper_shifting", lambda: sc.apply_upper_shifting,
          [("flow", NO, [f]), ("steps", 1, [2, 3])]),
        F("core", "apply_k_step_shifting", lambda: sc.apply_k_step_shifting,
          [("flow", NO, [f]), ("steps", 2, [1, 3])]),
        F("core", "get_simplicial_embeddings",
          lambda: sc.get_simplicial_embeddings, [("flow", NO, [f])]),
        F("core", "get_divergence", lambda: sc.get_divergence,
          [("flow", NO, [f])]),
        F("core", "get_curl", lambda: sc.get_curl, [("flow", NO, [f])]),
        F("core", "get_component_eigenpair",
          lambda: sc.get_component_eigenpair,
          [("component", "harmonic", comp[:2]),
           ("tolerance", 1e-3, [1e-6, .3])]),
        F("core", "get_component_flow", lambda: sc.get_component_flow,
          [("flow", NO, [f]), ("component", "gradient", comp[1:]),
           ("round_fig", True, [False]), ("round_sig_fig", 2, [0, 1, 4])]),
        F("build", "SimplicialComplex", lambda: SC,
          [("nodes", NO, [W.nodes]), ("edges", NO, [W.edges]),
           ("triangles", [], [W.tris]), ("node_features", {}, [W.nf]),
           ("edge_features", {}, [W.ef])], see=whole),
    ]


def whole(o, r):
    return (list(r.nodes), list(r.edges), list(r.triangles),
            copy.deepcopy(r.node_features), copy.deepcopy(r.edge_features),
            [r.incidence_matrix(k).toarray() for k in (1, 2)])


def builders(rng, W):
    from pytspl import generate_random_simplicial_complex as G
    from pytspl.simplicial_complex.scbuilder import SCBuilder as B

    def b(ef=W.ef):
        return B(copy.deepcopy(W.nodes), copy.deepcopy(W.edges),
                 copy.deepcopy(W.nf), copy.deepcopy(ef))

    return [
        F("build", "SCBuilder", lambda: B,
          [("nodes", NO, [W.nodes]), ("edges", NO, [W.edges]),
           ("node_features", {}, [W.nf]), ("edge_features", {}, [W.ef])],
          see=lambda o, r: whole(o, r.to_simplicial_complex())),
        F("build", "triangles_dist_based", lambda: b().triangles_dist_based,
          [("dist_col_name", NO, ["distance", "w"]),
           ("epsilon", NO, [1.5, .8])]),
        F("build", "to_simplicial_complex", lambda: b().to_simplicial_complex,
          [("condition", "all", ["distance"]),
           ("dist_col_name", "distance", ["w"]),
           ("dist_threshold", 1.5, [.8, 2.2]), ("triangles", None, [W.tris])],
          see=whole),
        F("build", "generate_random_simplicial_complex", lambda: G,
          [("num_of_nodes", NO, [6, 7]), ("p", NO, [.5, .8]),
           ("dist_threshold", NO, [.4, .8]), ("seed", NO, [1, 5])],
          see=lambda o, r: (whole(o, r[0]), dict(r[1]))),
    ]


def decomposition(rng, W):
    from pytspl.decomposition import eigendecomposition as E
    from pytspl.decomposition import hodge_decomposition as D

    sc, f = W.sc, W.flow
    b1, b2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
    rd = [("round_fig", True, [False]), ("round_sig_fig", 2, [0, 1, 4])]
    eps = float(np.finfo(float).eps)
    tol = ("tolerance", eps, [1e-6, .5])
    return [
        F("decomposition", "get_gradient_flow", lambda: D.get_gradient_flow,
          [("B1", NO, [b1]), ("flow", NO, [f])] + rd),
        F("decomposition", "get_curl_flow", lambda: D.get_curl_flow,
          [("B2", NO, [b2]), ("flow", NO, [f])] + rd),
        F("decomposition", "get_harmonic_flow", lambda: D.get_harmonic_flow,
          [("B1", NO, [b1]), ("B2", NO, [b2]), ("flow", NO, [f])] + rd),
        F("decomposition", "get_divergence", lambda: E.get_divergence,
          [("B1", NO, [b1]), ("flow", NO, [f])]),
        F("decomposition", "get_curl", lambda: E.get_curl,
          [("B2", NO, [b2]), ("flow", NO, [f])]),
        F("decomposition", "get_gradient_eigenpair",
          lambda: E.get_gradient_eigenpair,
          [("lower_lap_mat", NO, [sc.lower_laplacian_matrix().toarray()]),
           tol]),
        F("decomposition", "get_curl_eigenpair",
          lambda: E.get_curl_eigenpair,
          [("upper_lap_mat", NO, [sc.upper_laplacian_matrix().toarray()]),
           tol]),
        F("decomposition", "get_harmonic_eigenpair",
          lambda: E.get_harmonic_eigenpair,
          [("hodge_lap_mat", NO, [sc.hodge_laplacian_matrix().toarray()]),
           tol]),
        F("decomposition", "get_eigendecomposition",
          lambda: E.get_eigendecomposition,
          [("lap_mat", NO, [sc.hodge_laplacian_matrix().toarray()]), tol]),
    ]


def filters(rng, W):
    from pytspl import filters as Fl
    from pytspl.filters.base_filter import BaseFilter

    sc, f, t = W.sc, W.flow, W.other
    comp = W.comps
    P = ["L1", "L1L", "L1U"]
    cut = [("cut_off_frequency", .01, [.5, 1.2]), ("steep", 100, [3, 20])]
    mat = sc.hodge_laplacian_matrix().toarray()
    m = W.m

    def on(cls, method):
        return lambda: getattr(cls(sc), method)

    A, L, C, G = (Fl.EdgeFlowDenoising, Fl.LSFilterDesign,
                  Fl.ChebyshevFilterDesign, Fl.GridBasedFilterDesign)
    x = np.linspace(0, 3, 7)
    out = [
        F("filter", "get_true_signal", on(A, "get_true_signal"),
          [("f", NO, [f]), ("component", NO, comp)]),
        F("filter", "get_p_matrix", on(A, "get_p_matrix"),
          [("p_choice", "L1", P[1:])]),
        F("filter", "get_component_coefficients",
          on(A, "get_component_coefficients"), [("component", NO, comp)]),
        F("filter", "calculate_error_NRMSE", on(A, "calculate_error_NRMSE"),
          [("f_estimated", NO, [f]), ("f_true", NO, [t])]),
        F("filter", "logistic_function", on(A, "logistic_function"), cut,
          see=lambda o, r: r(x)),
        F("filter", "power_iteration", lambda: BaseFilter.power_iteration,
          [("P", NO, [mat]), ("iterations", 50, [3, 7])]),
        F("filter", "set_history", on(A, "set_history"),
          [("filter", NO, [mat]), ("f_estimated", NO, [f]),
           ("frequency_responses", NO, [t]),
           ("extracted_component_error", NO, [t[:1]]),
           ("filter_error", np.array([]), [t[:2]])], see=history),
        F("filter", "EdgeFlowDenoising.denoise", on(A, "denoise"),
          [("f", NO, [f]), ("f_true", NO, [t]), ("p_choice", NO, P),
           ("mu_vals", [.5], [[.1, 2.], [3]])], see=history),
        F("filter", "Grid.denoise", on(G, "denoise"),
          [("f", NO, [f]), ("f_true", NO, [t]), ("p_choice", NO, P),
           ("L", NO, [min(3, m), min(4, m)]), ("mu", .5, [.1, 2.])],
          see=history),
        F("filter", "Grid.subcomponent_extraction",
          on(G, "subcomponent_extraction"),
          [("f", NO, [f]), ("component", NO, comp), ("p_choice", NO, P),
           ("L", NO, [3, 4, 5]), ("num_of_samples", 10, [6, 14]),
           ("mu", .5, [.1, 2.])] + cut, see=history, tol=1e-6),
        F("filter", "Grid.general_filter", on(G, "general_filter"),
          [("f", NO, [f]), ("L1", NO, [0, 2]), ("L2", NO, W.L2)],
          see=history, tol=1e-6),
        F("filter", "LS.type_one", on(L, "subcomponent_extraction_type_one"),
          [("f", NO, [f]), ("component", NO, comp), ("L", NO, [2, 3])],
          see=history, tol=1e-6),
        F("filter", "LS.type_two", on(L, "subcomponent_extraction_type_two"),
          [("f", NO, [f]), ("component", NO, W.two), ("L", NO, [2, 3]),
           ("tolerance", 1e-6, [1e-3, .6])], see=history, tol=1e-6),
        F("filter", "LS.general_filter", on(L, "general_filter"),
          [("f", NO, [f]), ("L1", NO, [2, 3]), ("L2", NO, W.L2),
           ("tolerance", 1e-3, [1e-7, .6])], see=history, tol=1e-6),
    ]
    if not W.long:
        co = W.rng_coeffs
        out += [
            F("filter", "Chebyshev.apply", on(C, "apply"),
              [("f", NO, [f]), ("p_choice", "L1L", W.P),
               ("component", "gradient", comp), ("L", 10, [2, 3, 5]),
               ("n", None, [5, 8])] + cut, see=history, tol=1e-6),
            F("filter", "Chebyshev.get_alpha", on(C, "get_alpha"),
              [("p_choice", NO, P)]),
            F("filter", "Chebyshev.get_ideal_frequency",
              on(C, "get_ideal_frequency"),
              [("component_coeffs", NO, [np.r_[1., np.zeros(m - 1)]])]),
            F("filter", "Chebyshev.get_chebyshev_frequency_approx",
              on(C, "get_chebyshev_frequency_approx"),
              [("p_choice", NO, P), ("coeffs", NO, [co]),
               ("alpha", NO, [1.5, 2.5]), ("order", NO, [2, 3])],
              tol=1e-6),
            F("plot", "plot_chebyshev_series_approx",
              on(C, "plot_chebyshev_series_approx"),
              [("p_choice", NO, W.P), ("n", None, [5, 8])] + cut,
              see=picture),
        ]
    return out


def trend(rng, W):
    from pytspl.filters.simplicial_trend_filter import \
        SimplicialTrendFilter as T

    sc, f = W.sc, W.flow
    what = ["divergence", "curl"] if W.tris else ["divergence"]

    def on(method):
        return lambda: getattr(T(sc), method)

    snr = [np.array([10.]), np.array([5., 20.])]
    return [
        F("trend", "get_power_noise", on("get_power_noise"),
          [("flow", NO, [f]), ("snr_db", NO, [10., 3.])], seed=True),
        F("trend", "get_shift_operator", on("get_shift_operator"),
          [("component", NO, what), ("order", NO, [0, 1, 2])]),
        F("trend", "trend.l2", on("denoising_l2_regularizer"),
          [("flow", NO, [f]), ("component", NO, what),
           ("num_realizations", NO, [1, 2]), ("snr_db", NO, snr),
           ("mu", .5, [.05, 3.])], see=history, seed=True),
        F("trend", "trend.l1", on("denoising_l1_regularizer"),
          [("flow", NO, [f]), ("component", NO, what),
           ("num_realizations", NO, [1]), ("snr_db", NO, snr[:1]),
           ("order", 0, [1]), ("regularization", .5, [.1, 2.])],
          see=history, seed=True, tol=1e-3),
        F("trend", "trend.interpolation",
          on("interpolation_l1_regularizer"),
          [("flow", NO, [f]), ("component", NO, what),
           ("ratio", NO, [[.6], [.9]]), ("num_realizations", NO, [1]),
           ("order", 0, [1]), ("regularization", .5, [.1, 2.])],
          see=history, seed=True, tol=1e-3),
    ]


def gp(rng, W):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    sc, f = W.sc, W.flow
    t = HodgeGPTrainer(sc, f)

    def tensors(o, r):
        return [x for x in r]

    ep = t.get_eigenpairs()
    n = W.m
    out = [
        F("gp", "HodgeGPTrainer", lambda: HodgeGPTrainer,
          [("sc", NO, [sc]), ("y", NO, [f]), ("output_device", "cpu", ["cpu"])],
          see=lambda o, r: list(r.train_test_split())),
        F("gp", "get_eigenpairs", lambda: t.get_eigenpairs,
          [("tolerance", 1e-3, [1e-6, .3])], see=tensors),
        F("gp", "train_test_split", lambda: t.train_test_split,
          [("train_ratio", .8, [.5, .7]),
           ("data_normalization", False, [True]), ("seed", 4, [0, 11])],
          see=tensors),
        F("gp", "serialize", lambda: KernelSerializer().serialize,
          [("eigenpairs", NO, [ep]), ("kernel_type", NO,
                                      ["diffusion", "matern", "laplacian"]),
           ("data_name", NO, ["forex"])],
          see=lambda o, r: (type(r).__name__, r(
              torch.arange(n, dtype=torch.float32)).to_dense().detach())),
        F("gp", "normalize_data", lambda: t.normalize_data,
          [("y_train", NO, [torch.tensor(f[:n // 2 + 1], dtype=torch.float32)
                            ]),
           ("y_test", NO, [torch.tensor(f[:2] * 3, dtype=torch.float32)]),
           ("y", NO, [torch.tensor(f * 2, dtype=torch.float32)])],
          see=tensors),
    ]
    if n < 6 or W.long:
        return out
    xt, yt, xs, ys, _, _ = t.train_test_split(train_ratio=.6)
    kern = KernelSerializer().serialize(ep, "diffusion", "forex")
    lik = gpytorch.likelihoods.GaussianLikelihood()

    class Mean(gpytorch.means.Mean):
        def forward(self, x):
            return .1 * x.reshape(-1)

    def post(o, r):
        p = t.predict(r, r.likelihood, xs, ys)
        return (p.mean.detach().clone(), p.variance.detach().clone())

    model = ExactGPModel(xt, yt, lik, kern, None)
    out += [
        F("gp", "ExactGPModel", lambda: ExactGPModel,
          [("train_x", NO, [xt]), ("train_y", NO, [yt]),
           ("likelihood", NO, [lik]), ("kernel", NO, [kern]),
           ("mean_function", None, [Mean()])], see=post, tol=1e-5),
        F("gp", "predict", lambda: t.predict,
          [("model", NO, [model]), ("likelihood", NO, [lik]),
           ("x_test", NO, [xs]), ("y_test", NO, [ys])],
          see=lambda o, r: (r.mean.detach().clone(),
                            r.variance.detach().clone()), tol=1e-5),
    ]
    if W.train:
        W.trainings += 1
        fresh = copy.deepcopy(model)

        def start():
            o = HodgeGPTrainer(sc, f)
            return o.train

        def learned(o, r):
            st = {k: v.detach().clone() for k, v in
                  o.model.state_dict().items()}
            return st

        class Reset:
            """Each run trains a copy of the same fresh model."""

            def __call__(self):
                fn = start()

                def run(model, likelihood, *a, **kw):
                    c = copy.deepcopy(model)
                    return fn(c, c.likelihood, *a, **kw)

                def call(*a, **kw):
                    a = list(a)
                    mm = a.pop(0) if a else kw.pop("model")
                    if a:
                        a.pop(0)
                    else:
                        kw.pop("likelihood")
                    return run(mm, None, *a, **kw)

                call.__self__ = fn.__self__
                return call

        out = [F("gp", "train", Reset(),
                 [("model", NO, [fresh]), ("likelihood", NO, [lik]),
                  ("x_train", NO, [xt]), ("y_train", NO, [yt]),
                  ("training_iters", 1000, [5, 9]),
                  ("learning_rate", .1, [.01, .3]),
                  ("optimizer", torch.optim.Adam, [torch.optim.SGD])],
                 see=learned, tol=1e-4)]
    return out


def io(rng, W):
    from pytspl import io as I
    from pytspl.io.network_reader import read_B2, read_tntp, read_flow

    d = W.dir
    E = [tuple(map(int, e)) for e in W.edges]

    def write(name, text):
        p = os.path.join(d, name)
        with open(p, "w") as fh:
            fh.write(text)
        return p

    rows = [(a + 1, b + 1, round(float(rng.random()), 3),
             int(rng.integers(1, 9))) for a, b in E]
    csv = write("n.csv", "s,t,d,k\n" + "".join(
        "%d,%d,%s,%d\n" % r for r in rows))
    tntp = write("n.tntp", "meta\nmore\n~\ts\tt\td\tk\t;\n" + "".join(
        "\t%d\t%d\t%s\t%d\t;\n" % r for r in rows))
    commas = write("c.tntp", "meta\n~,s,t,d,k,;\n" + "".join(
        ",%d,%d,%s,%d,;\n" % r for r in rows))
    xy = write("p.csv", "id,x,y\n" + "".join(
        "%d,%s,%s\n" % (v + 1, v * 1.5, -v) for v in range(W.n)))
    b1 = W.sc.incidence_matrix(1).toarray().astype(int)
    b2 = W.sc.incidence_matrix(2).toarray().astype(int)
    f1, f2 = os.path.join(d, "B1.csv"), os.path.join(d, "B2t.csv")
    np.savetxt(f1, b1, fmt="%d", delimiter=",")
    np.savetxt(f2, b2.T, fmt="%d", delimiter=",")
    fl = write("f.tntp", "From\tTo\tVolume\n" + "".join(
        "%d\t%d\t%s\n" % r[:3] for r in rows))
    fc = write("f.csv", "From,To,Volume\n" + "".join(
        "%d,%d,%s\n" % r[:3] for r in rows))

    def built(o, r):
        return whole(o, r.to_simplicial_complex())

    z = ("start_index_zero", True, [True])
    if min(min(e) for e in E) == 0:
        z = ("start_index_zero", True, [False])
    return [
        F("io", "read_csv", lambda: I.network_reader.read_csv,
          [("filename", NO, [csv]), ("delimiter", NO, [","]),
           ("src_col", NO, ["s"]), ("dest_col", NO, ["t"]),
           ("feature_cols", None, [["d"], ["d", "k"]]), z], see=built),
        F("io", "read_tntp", lambda: read_tntp,
          [("filename", NO, [tntp]), ("src_col", NO, ["s"]),
           ("dest_col", NO, ["t"]), ("skip_rows", NO, [2]),
           ("delimiter", "\t", ["\t"]), z], see=built),
        F("io", "read_tntp(,)", lambda: read_tntp,
          [("filename", NO, [commas]), ("src_col", NO, ["s"]),
           ("dest_col", NO, ["t"]), ("skip_rows", NO, [1]),
           ("delimiter", NO, [","]), z], see=built),
        F("io", "read_coordinates", lambda: I.network_reader.read_coordinates,
          [("filename", NO, [xy]), ("node_id_col", NO, ["id"]),
           ("x_col", NO, ["x"]), ("y_col", NO, ["y"]),
           ("delimiter", NO, [","]),
           ("start_index_zero", True, [False])]),
        F("io", "read_flow", lambda: read_flow,
          [("filename", NO, [fl]), ("sep", "\t", ["\t"]),
           ("header", "infer", [0])]),
        F("io", "read_flow(,)", lambda: read_flow,
          [("filename", NO, [fc]), ("sep", NO, [","]),
           ("header", "infer", [0])]),
    ] + ([
        F("io", "read_B1_B2", lambda: I.network_reader.read_B1_B2,
          [("B1_filename", NO, [f1]), ("B2_filename", NO, [f2])],
          see=lambda o, r: whole(o, r[0].to_simplicial_complex(
              triangles=r[1]))),
        F("io", "read_B2", lambda: read_B2,
          [("B2_filename", NO, [f2]), ("edges", NO, [np.array(E)])]),
    ] if b2.shape[1] else [])


def plots(rng, W):
    import matplotlib.pyplot as plt
    from pytspl.plot import SCPlot

    sc, f = W.sc, W.flow
    fl = dict(zip(map(tuple, sc.edges), np.round(f, 2)))
    blues, reds = plt.cm.Blues, plt.cm.viridis

    def on(method):
        return lambda: getattr(SCPlot(sc, W.coords), method)

    vals = list(rng.random(W.n))
    font = [("font_size", 12, [8]), ("font_color", "k", ["red"]),
            ("font_weight", "normal", ["bold"])]
    node = [("node_size", 300, [80]), ("node_color", "#ff7f0e",
                                      ["blue", vals]),
            ("node_edge_colors", "black", ["red"])] + font + [
        ("cmap", blues, [reds]), ("vmin", None, [-.5]), ("vmax", None, [1.5]),
        ("alpha", .8, [.4]), ("margins", None, [.3]),
        ("with_labels", False, [True]), ("ax", None, [None])]
    edge = [("edge_flow", None, [fl]), ("edge_color", "lightblue", ["red"]),
            ("edge_width", 1., [3.]), ("arrowsize", 10, [20]),
            ("edge_cmap", blues, [reds]), ("edge_vmin", None, [-1.]),
            ("edge_vmax", None, [1.]), ("directed", True, [False]),
            ("alpha", .8, [.4]), ("ax", None, [None])]
    label = [("edge_labels", NO, [fl]), ("font_size", 10, [7]),
             ("font_color", "k", ["red"]), ("font_weight", "normal",
                                            ["bold"]),
             ("offset", .15, [.4]), ("alpha", None, [.5]),
             ("ax", None, [None])]
    panel = [("round_fig", True, [False]), ("round_sig_fig", 2, [0, 1])]
    tail = [("figsize", (15, 5), [(6, 4)]),
            ("font_dict", {"fontsize": 20}, [{"fontsize": 9}])]
    few = [c for c in ("gradient", "curl", "harmonic")
           if 0 < W.dims[c] <= 3]
    out = [
        F("plot", "SCPlot", lambda: SCPlot,
          [("simplicial_complex", NO, [sc]), ("coordinates", NO,
                                              [W.coords])],
          see=lambda o, r: picture(o, r.draw_network())),
        F("plot", "create_edge_flow", on("create_edge_flow"),
          [("flow", NO, [f])]),
        F("plot", "draw_sc_nodes", on("draw_sc_nodes"), node, see=picture),
        F("plot", "draw_sc_edges", on("draw_sc_edges"), edge, see=picture),
        F("plot", "draw_edge_labels", on("draw_edge_labels"), label,
          see=picture),
        F("plot", "draw_network", on("draw_network"),
          [("edge_flow", None, [fl, f]), ("directed", True, [False]),
           ("with_labels", True, [False]), ("ax", None, [None])],
          see=picture),
        F("plot", "draw_hodge_decomposition", on("draw_hodge_decomposition"),
          [("flow", NO, [f]), ("component", None, W.comps)] + panel + tail,
          see=picture),
    ]
    if few:
        out.append(F("plot", "draw_eigenvectors", on("draw_eigenvectors"),
                     [("component", NO, few), ("eigenvector_indices", [],
                                               [[0]])] + panel +
                     [("with_labels", True, [False])] + tail, see=picture))
    return out


GROUPS = {"core": core, "build": builders, "decomposition": decomposition,
          "filter": filters, "trend": trend, "gp": gp, "io": io,
          "plot": plots}


class World:
    pass


def world(m, rng, idx):
    W = World()
    W.long = idx % 9 == 4
    if W.long:
        # eigenvalues on both sides of every default tolerance
        n = int(rng.integers(110, 150))
        sp = gen.Spec(n, [(i, i + 1) for i in range(n - 1)], [], "long path")
        m.seen("long")
    else:
        sp = gen.spec(rng, min_edges=4, max_edges=22,
                      size=str(rng.choice(["s", "m"])))
    W.sc = build.make_sc(m, rng, sp)
    W.sp, W.n, W.m = sp, sp.n, len(sp.edges)
    H = O.Hodge(sp.n, sp.edges, sp.tris)
    W.dims = dict(zip(("harmonic", "gradient", "curl"), H.dims))
    W.nodes = list(sp.nodes)
    W.edges = [tuple(map(int, e)) for e in sp.edges]
    W.tris = [tuple(map(int, t)) for t in sp.tris]
    W.nf = {v: {"p": float(rng.random())} for v in W.nodes}
    W.ef = {e: {"distance": float(rng.random() * 2.4),
                "w": float(rng.random())} for e in W.edges}
    W.simplex = (W.tris + W.edges)[0]
    W.flow = rng.standard_normal(W.m)
    W.other = rng.standard_normal(W.m)
    W.comps = [p for p in ("gradient", "curl", "harmonic") if W.dims[p]]
    W.two = [p for p in W.comps if p != "harmonic"]
    W.P = ["L1", "L1L"] + (["L1U"] if W.tris else [])
    W.L2 = [0, 2] if W.tris else [0]
    W.rng_coeffs = rng.standard_normal(5)
    W.coords = {v: (float(a), float(b)) for v, (a, b) in
                enumerate(rng.uniform(-5, 5, (sp.n, 2)))}
    W.sc.edge_features  # noqa
    W.feat = "distance"
    W.train = idx % 97 == 50
    W.trainings = 0
    return W


class Unsolved(Exception):
    """The external solver gave up."""


def run(m, fn, args, kw):
    if fn.seed:
        np.random.seed(7)
    o = fn.make()
    f, gave_up = o, []
    if fn.group == "trend":
        import cvxpy

        def f(*a, **k):
            try:
                return o(*a, **k)
            except cvxpy.error.SolverError:
                gave_up.append(1)

    r = m.call(fn.name, f, *args, **kw)
    if gave_up:
        raise Unsolved
    return digest(fn.see(getattr(o, "__self__", None), r))


def case(m, rng, idx):
    W = world(m, rng, idx)
    W.dir = tempfile.mkdtemp(prefix="c27_")
    try:
        # features on the complex for the named feature query
        from pytspl.simplicial_complex import SimplicialComplex
        W.sc = SimplicialComplex(W.nodes, W.edges, W.tris, {}, W.ef)
        m.note(complex=W.sp.describe())
        names = list(GROUPS)
        p = np.array([5, 2.5, 2.5, 3, .6, 1.5, .8, .8])
        todo = ["gp"] if W.train else [
            names[int(i)] for i in rng.choice(len(names), 6, p=p / p.sum())]
        for g in todo:
            if W.long and g in ("trend", "io", "plot", "build"):
                continue
            fns = GROUPS[g](rng, W)
            for k in rng.permutation(len(fns))[:3]:
                try:
                    decide(m, rng, W, fns[int(k)])
                except Unsolved:
                    m.seen("solver-failure")
        if W.trainings:
            m.seen("training", W.trainings)
    finally:
        shutil.rmtree(W.dir, ignore_errors=True)


def decide(m, rng, W, fn):
    import matplotlib.pyplot as plt

    if not any(len(x) for x in (W.comps,)):
        return
    m.seen(f"group:{fn.group}")
    base = bool(rng.random() < .5)
    vals = {}
    for name, default, other in fn.params:
        if default is not NO and (base or rng.random() < .5) or not other:
            vals[name] = (default, True)
        else:
            v = other[int(rng.integers(0, len(other)))]
            vals[name] = (v, False)
    if fn.name == "train":
        # a thousand steps once in a while only
        if not vals["training_iters"][1]:
            pass
        elif rng.random() < .5:
            vals["training_iters"] = (5, False)
    if fn.name == "Grid.subcomponent_extraction" and \
            vals["num_of_samples"][0] < vals["L"][0]:
        return
    m.note(function=fn.name, values={k: v[0] for k, v in vals.items()
                                     if len(str(v[0])) < 30})
    plt.close("all")
    want = run(m, fn, (), {k: copy.copy(v[0]) for k, v in vals.items()})
    m.key(W.sp.key(), fn.name, repr({k: str(v[0])[:40]
                                     for k, v in vals.items()}))
    for mode in ("short", "random"):
        n = len(fn.params)
        lead = 0
        if mode == "short":
            lead = sum(d is NO for _, d, _ in fn.params)
        else:
            lead = int(rng.integers(0, n + 1))
        args = [copy.copy(vals[p[0]][0]) for p in fn.params[:lead]]
        kw, left = {}, 0
        for name, default, _ in fn.params[lead:]:
            v, dflt = vals[name]
            if dflt and default is not NO and (mode == "short"
                                               or rng.random() < .7):
                left += 1
                continue
            kw[name] = copy.copy(v)
        if left:
            m.seen("left-out", left)
        if lead:
            m.seen("by-position", lead)
        m.nontrivial(left or lead)
        got = run(m, fn, args, kw)
        m.check(same(got, want, fn.tol), "default" if left else "position",
                f"{fn.name}: {lead} arguments by position, {sorted(kw)} by "
                f"name differ from all by name "
                f"({ {k: str(v[0])[:30] for k, v in vals.items()} })",
                got=got, want=want)
