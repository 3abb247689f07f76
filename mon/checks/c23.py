"""C23: queries have no side effects and repeat exactly."""
import collections
import copy
import os
import random
import sys
import threading
import warnings

import numpy as np

from mon import build, common, gen, gp_ref as G, oracles as O

RULE = ("histories of 15-40 operations drawn from all public queries, "
        "decompositions, filters, kernels, GP preparation, plots and loaders "
        "over 2-3 complexes of the same shape sharing their arguments; after "
        "every operation the arguments, every complex, the random generators "
        "and the warning state are compared with what they were, the result "
        "with every earlier result of the same request, and the returned "
        "arrays are overwritten; at the end every request is made once more "
        "on freshly built complexes; one case in five runs the requests from "
        "6 threads with a switch interval of 1 us; non-trivial: at least 3 "
        "requests were repeated")
QUICK, THOROUGH = 900, 12000
REQUIRED = {"decided:repeat": 6000, "decided:fresh": 8000,
            "decided:arguments": 15000, "decided:complex": 15000,
            "decided:generators": 12000, "scribbled": 6500,
            "threads": 100, "decided:thread-result": 5000,
            "decided:warning-state": 12000, "plots": 200, "readonly": 100,
            "views": 200,
            "rejected": 300, "decided:other-history": 1000,
            "call:Trend.denois.l1": 60, "call:Trend.interp.l1": 60}
ASSUMPTIONS = ["threads share complexes and arguments, not filter objects or "
               "figures", "trend filters draw their noise from the seeded "
               "process-wide generator and are exempt from the generator "
               "check"]


def prepare(tier):
    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import cvxpy  # noqa
    import torch

    torch.set_num_threads(1)
    import pytspl.filters  # noqa
    import pytspl.hogde_gp  # noqa
    import pytspl.plot  # noqa


GAVE_UP = "the solver gave up"


# -- digests -----------------------------------------------------------------
def digest(x):
    """Deep comparable copy of anything an operation takes or returns."""
    if x is None or isinstance(x, (bool, str, bytes, int, float, np.generic)):
        return x if not isinstance(x, np.generic) else x.item()
    if hasattr(x, "toarray"):
        return ("sparse", np.array(x.toarray(), copy=True))
    if hasattr(x, "detach"):
        return ("tensor", x.detach().cpu().numpy().copy())
    if isinstance(x, np.ndarray):
        return ("array", x.copy())
    if isinstance(x, dict):
        return ("dict", [(digest(k), digest(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [digest(v) for v in x])
    if isinstance(x, set):
        return ("set", sorted(x))
    if hasattr(x, "to_numpy"):
        return ("frame", [str(c) for c in getattr(x, "columns", [])],
                np.array(x.to_numpy(), copy=True))
    raise TypeError(f"cannot digest {type(x)}")


def scale_of(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in "fiu" or not x.size:
            return 0.0
        fin = np.abs(x[np.isfinite(x)])
        return float(fin.max()) if fin.size else 0.0
    if isinstance(x, (list, tuple)):
        return max((scale_of(v) for v in x), default=0.0)
    return 0.0


def same(a, b, tol=0.0, scale=None):
    """Equal bit for bit; with a tolerance, up to rounding at the size of the
    whole result (a part that is zero in exact arithmetic is only rounding)."""
    if isinstance(a, str) and a == GAVE_UP or \
            isinstance(b, str) and b == GAVE_UP:
        return True
    if tol and scale is None:
        scale = scale_of(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return a.tolist() == b.tolist()
        if np.array_equal(a, b, equal_nan=a.dtype.kind == "f"
                          and b.dtype.kind == "f"):
            return True
        if not tol or not a.size or a.dtype.kind not in "fiub":
            return False
        return np.allclose(a, b, rtol=0, atol=tol * scale + 1e-12,
                           equal_nan=True)
    if isinstance(a, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all(same(p, q, tol, scale) for p, q in zip(a, b)))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or (
            tol and abs(a - b) <= tol * max(abs(a), abs(b)))
    return type(a) is type(b) and a == b


def scribble(x, depth=0):
    """Overwrite every array that was returned."""
    n = 0
    if hasattr(x, "toarray") and hasattr(x, "data"):
        x = x.data
    if hasattr(x, "detach"):
        if x.numel() and not x.requires_grad:
            x.fill_(77)
            return 1
        return 0
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = 77
            return 1
        return 0
    if isinstance(x, (list, tuple)) and depth < 3:
        n = sum(scribble(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 3:
        n = sum(scribble(v, depth + 1) for v in x.values())
    return n


def generators():
    import torch

    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate(),
            torch.get_rng_state().numpy().tobytes())


def warning_state():
    return (list(warnings.filters), warnings.showwarning,
            warnings._showwarnmsg_impl)


def settings():
    """Other settings of the process that are the caller's own."""
    import matplotlib as mpl
    import torch

    return (np.geterr(), repr(np.get_printoptions()), os.getcwd(),
            str(torch.get_default_dtype()), torch.is_grad_enabled(),
            torch.get_num_threads(), sys.getrecursionlimit(),
            repr(sorted(dict(mpl.rcParams).items(), key=lambda t: t[0])),
            dict(os.environ))


# -- operations ----------------------------------------------------------------
class Op:
    def __init__(self, label, key, fn, det=True, thread=True, plot=False,
                 own=True, tol=1e-9):
        self.label, self.key, self.fn = label, key, fn
        self.det, self.thread, self.plot = det, thread, plot
        self.own, self.tol = own, tol

    def __repr__(self):
        return f"{self.label}{self.key}"


class World:
    """The arguments shared by all requests of one case."""


def queries(rng, W):
    """One random request for the complex alone."""
    f = int(rng.integers(0, len(W.flows)))
    c = str(rng.choice(["gradient", "curl", "harmonic"]))
    r = int(rng.integers(0, 3))
    k = int(rng.integers(1, 5))
    nm = str(rng.choice(W.names)) if W.names else None
    t = W.simplices[int(rng.integers(0, len(W.simplices)))]
    rd, sg = bool(rng.integers(0, 2)), int(rng.integers(0, 6))
    from pytspl.decomposition import eigendecomposition as E
    from pytspl.decomposition import hodge_decomposition as D

    def direct(sc, W):
        b1, b2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
        d = digest((b1, b2))
        out = (D.get_gradient_flow(B1=b1, flow=W.flows[f], round_fig=rd,
                                   round_sig_fig=sg),
               D.get_curl_flow(B2=b2, flow=W.flows[f], round_fig=rd,
                               round_sig_fig=sg),
               D.get_harmonic_flow(B1=b1, B2=b2, flow=W.flows[f],
                                   round_fig=rd, round_sig_fig=sg))
        assert same(digest((b1, b2)), d), "incidence matrices changed"
        return out

    L = [
        Op("shape", (), lambda sc, W: sc.shape),
        Op("max_dim", (), lambda sc, W: sc.max_dim),
        Op("simplices", (), lambda sc, W: list(sc.simplices), own=False),
        Op("edge_feature_names", (), lambda sc, W: sc.edge_feature_names()),
        Op("get_edge_features", (nm,),
           lambda sc, W: sc.get_edge_features(nm)
           if nm else sc.get_edge_features(), own=False),
        Op("get_node_features", (), lambda sc, W: sc.get_node_features(),
           own=False),
        Op("get_faces", (t,), lambda sc, W: sc.get_faces(t)),
        Op("identity_matrix", (), lambda sc, W: sc.identity_matrix()),
        Op("incidence_matrix", (r,), lambda sc, W: sc.incidence_matrix(r)),
        Op("adjacency_matrix", (), lambda sc, W: sc.adjacency_matrix()),
        Op("laplacian_matrix", (), lambda sc, W: sc.laplacian_matrix()),
        Op("lower", (k % 2,),
           lambda sc, W: sc.lower_laplacian_matrix(1 + k % 2)),
        Op("upper", (k % 2,), lambda sc, W: sc.upper_laplacian_matrix(k % 2)),
        Op("hodge", (r,), lambda sc, W: sc.hodge_laplacian_matrix(r)),
        Op("lower_shift", (f, k),
           lambda sc, W: sc.apply_lower_shifting(W.flows[f], steps=k)),
        Op("upper_shift", (f, k),
           lambda sc, W: sc.apply_upper_shifting(W.flows[f], steps=k)),
        Op("k_shift", (f, k),
           lambda sc, W: sc.apply_k_step_shifting(W.flows[f], steps=k)),
        Op("embeddings", (f,),
           lambda sc, W: sc.get_simplicial_embeddings(W.flows[f])),
        Op("eigenpair", (c,), lambda sc, W: sc.get_component_eigenpair(c)),
        Op("eigenpair", (c, 1e-4),
           lambda sc, W: sc.get_component_eigenpair(c, 1e-4)),
        Op("total_variance", (), lambda sc, W: sc.get_total_variance()),
        Op("divergence", (f,), lambda sc, W: sc.get_divergence(W.flows[f])),
        Op("curl", (f,), lambda sc, W: sc.get_curl(W.flows[f])),
        Op("component_flow", (f, c, rd, sg),
           lambda sc, W: sc.get_component_flow(
               W.flows[f], c, round_fig=rd, round_sig_fig=sg)),
        Op("component_flow", (f, c),
           lambda sc, W: sc.get_component_flow(W.flows[f], c,
                                               round_fig=False)),
        Op("edges_to_B1", (),
           lambda sc, W: sc.edges_to_B1(sc.edges, len(sc.nodes))),
        Op("triangles_to_B2", (),
           lambda sc, W: sc.triangles_to_B2(sc.triangles, sc.edges)),
        Op("print_summary", (), lambda sc, W: sc.print_summary()),
        Op("decomposition", (f, rd, sg), direct),
        Op("eigendecomposition", (),
           lambda sc, W: E.get_eigendecomposition(
               sc.hodge_laplacian_matrix(1).toarray())),
        Op("coefficients", (c,),
           lambda sc, W: _filter("LS", sc).get_component_coefficients(c)),
        Op("p_matrix", (r,), lambda sc, W: _filter("Grid", sc).get_p_matrix(
            ["L1", "L1L", "L1U"][r])),
        Op("true_signal", (f, c),
           lambda sc, W: _filter("Den", sc).get_true_signal(W.flows[f], c)),
    ]
    return L[int(rng.integers(0, len(L)))]


def _filter(cls, sc):
    from pytspl import filters as Fl
    from pytspl.filters.simplicial_trend_filter import SimplicialTrendFilter

    return dict(LS=Fl.LSFilterDesign, Grid=Fl.GridBasedFilterDesign,
                Den=Fl.EdgeFlowDenoising, Cheb=Fl.ChebyshevFilterDesign,
                Trend=SimplicialTrendFilter)[cls](sc)


def run_filter(cls, method, **kw):
    def fn(sc, W):
        flt = None
        slots = getattr(W, "slots", None)
        if slots is not None and W.reuse:
            flt = slots.get((cls, id(sc)))
        if flt is None:
            flt = _filter(cls, sc)
            if slots is not None:
                slots[(cls, id(sc))] = flt
        kk = {k: (v(W) if callable(v) else v) for k, v in kw.items()}
        r = getattr(flt, method)(**kk)
        if slots is not None:
            W.kept = [k for k in W.kept if k[0] is not flt][-4:] + [
                (flt, digest(flt.history))]
        return {"history": flt.history if W.alias else copy.deepcopy(
            flt.history), "returned": r}

    return fn


def filters(rng, W):
    f = int(rng.integers(0, len(W.flows)))
    g = int(rng.integers(0, len(W.flows)))
    c = str(rng.choice(["gradient", "curl", "harmonic"]))
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    L = int(rng.integers(1, 5))
    n = int(rng.integers(2, 7))

    def fl(i):
        return lambda W: W.flows[i]

    def op(cls, method, key, **kw):
        return Op(f"{cls}.{method}", key, run_filter(cls, method, **kw),
                  tol=1e-7)

    def trend(order):
        base = run_filter("Trend", "denoising_l2_regularizer", flow=fl(f),
                          component="divergence" if n % 2 else "curl",
                          num_realizations=1, snr_db=lambda W: W.db)

        def fn(sc, W):
            np.random.seed(17 + L)
            return base(sc, W)

        return Op("Trend.l2", (f, n % 2, L), fn, det=False, thread=False,
                  tol=1e-7)

    def solved(method):
        """The l1 regularizers call a solver: judged loosely, and only the
        estimate and the figures that do not divide by it."""
        kw = dict(snr_db=lambda W: W.db) if method[0] == "d" else dict(
            ratio=lambda W: W.ratios)
        order = L % 2
        base = run_filter("Trend", method, flow=fl(f), num_realizations=1,
                          component="divergence" if n % 2 else "curl",
                          order=order, **kw)

        def fn(sc, W):
            from cvxpy.error import SolverError

            np.random.seed(17 + L)
            try:
                h = base(sc, W)["history"]
            except SolverError:  # nothing to judge
                return GAVE_UP
            return [h[k] for k in ("frequency_responses", "errors",
                                   "component_flow")]

        return Op("Trend." + method[:6] + ".l1", (f, n % 2, L), fn,
                  det=False, thread=False, tol=1e-3)

    Q = [
        lambda: op("LS", "subcomponent_extraction_type_one", (f, c, L),
                   f=fl(f), component=c, L=L),
        lambda: op("LS", "subcomponent_extraction_type_two", (f, c, L),
                   f=fl(f), component="curl" if c == "curl" else "gradient",
                   L=L),
        lambda: op("LS", "general_filter", (f, L, n % 3), f=fl(f), L1=L,
                   L2=n % 3),
        lambda: op("Grid", "denoise", (f, g, p, L), f=fl(f), f_true=fl(g),
                   p_choice=p, L=L, mu=.5),
        lambda: op("Grid", "subcomponent_extraction", (f, c, p, L), f=fl(f),
                   component=c, p_choice=p, L=L, num_of_samples=L + 3),
        lambda: op("Grid", "general_filter", (f, L, n % 3), f=fl(f), L1=L,
                   L2=n % 3),
        lambda: op("Den", "denoise", (f, g, p), f=fl(f), f_true=fl(g),
                   p_choice=p, mu_vals=lambda W: W.mus),
        lambda: op("Cheb", "apply", (f, c, L, n), f=fl(f), p_choice="L1",
                   component=c, L=L, n=n),
        lambda: trend(0),
        lambda: solved("denoising_l1_regularizer"
                       if c == "curl" else "interpolation_l1_regularizer"),
    ]
    return Q[int(rng.integers(0, len(Q)))]()


def models(rng, W):
    from pytspl.hogde_gp import HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    import torch

    f = int(rng.integers(0, len(W.flows)))
    seed = int(rng.integers(0, 3))
    kind = str(rng.choice(G.TYPES))
    norm = bool(rng.integers(0, 2))

    def tr(sc, W):
        return HodgeGPTrainer(sc=sc, y=W.targets[f])

    def kernel(sc, W):
        ep = tr(sc, W).get_eigenpairs()
        d = digest(ep)
        k = KernelSerializer().serialize(ep, kind, "forex")
        x = torch.arange(len(sc.edges), dtype=torch.float32)
        with torch.no_grad():
            a = k(x[:2], x).to_dense()
            b = k(x, x, diag=True)
            a2 = k(x[:2], x).to_dense()
        assert same(digest(ep), d), "eigenpairs changed"
        assert np.array_equal(a.numpy(), a2.numpy()), "kernel not repeatable"
        return a, b

    def predict(sc, W):
        import gpytorch
        from pytspl.hogde_gp import ExactGPModel

        t = tr(sc, W)
        xt, yt, xs, ys, _, _ = t.train_test_split(train_ratio=.6, seed=seed)
        k = KernelSerializer().serialize(t.get_eigenpairs(), kind, "forex")
        lik = gpytorch.likelihoods.GaussianLikelihood()
        model = ExactGPModel(xt, yt, lik, k, mean_function=None)
        arg = (xt, yt, xs, ys)
        d = digest(arg)
        p = t.predict(model, lik, xs, ys)
        assert same(digest(arg), d), "data changed"
        return p.mean.clone(), p.variance.clone()

    Q = [
        Op("gp.incidence", (), lambda sc, W: tr(sc, W)
           .get_incidence_matrices()),
        Op("gp.laplacians", (), lambda sc, W: tr(sc, W).get_laplacians()),
        Op("gp.eigenpairs", (), lambda sc, W: tr(sc, W).get_eigenpairs()),
        Op("gp.split", (f, seed, norm), lambda sc, W: tr(sc, W)
           .train_test_split(train_ratio=.6, seed=seed,
                             data_normalization=norm)),
        Op("gp.kernel", (kind,), kernel, tol=1e-5),
    ]
    if len(W.flows[f]) >= 6 and np.std(W.flows[f]) > 1e-3:
        Q.append(Op("gp.predict", (f, seed, kind), predict, thread=False,
                    tol=1e-4))
    return Q[int(rng.integers(0, len(Q)))]


def seen_artists():
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    out = []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            for c in ax.collections:
                if isinstance(c, mpl.collections.PathCollection):
                    out.append(np.array(c.get_offsets(), float))
                elif isinstance(c, mpl.collections.LineCollection):
                    out.append(np.array([s for s in c.get_segments()]))
            for p in ax.patches:
                if isinstance(p, mpl.patches.FancyArrowPatch):
                    out.append(np.array(p._posA_posB, float))
                    out.append(np.array(p.get_edgecolor(), float))
            out.append([(t.get_text(), tuple(map(float, t.get_position())))
                        for t in ax.texts] + [ax.get_title()])
    return out


def plots(rng, W):
    import matplotlib.pyplot as plt
    from pytspl.plot import SCPlot

    f = int(rng.integers(0, len(W.flows)))
    c = str(rng.choice(["gradient", "curl", "harmonic"]))
    q = int(rng.integers(0, 5))
    col = bool(rng.integers(0, 2))

    def fn(sc, W):
        plt.close("all")
        p = SCPlot(simplicial_complex=sc, coordinates=W.coords)
        if q == 0:
            p.draw_network(edge_flow=W.flows[f])
        elif q == 1:
            p.draw_network(edge_flow=W.dicts[id(sc)] if id(sc) in W.dicts
                           else dict(zip(map(tuple, sc.edges), W.flows[0])),
                           directed=col, node_size=50)
        elif q == 2:
            p.draw_hodge_decomposition(flow=W.flows[f], component=c)
        elif q == 3:
            return p.create_edge_flow(W.flows[f])
        else:
            _, e = sc.get_component_eigenpair(c)
            if len(e) == 0 or len(e) > 12:
                return None
            p.draw_eigenvectors(component=c, eigenvector_indices=[0],
                                round_fig=col)
        out = seen_artists()
        plt.close("all")
        return out

    return Op("plot", (q, f, c, col), fn, thread=False, plot=True, tol=1e-7)


def builders(rng, W):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    eps = float(rng.choice([.3, .7]))
    q = int(rng.integers(0, 3))

    def fn(sc, W):
        b = SCBuilder(nodes=sc.nodes, edges=sc.edges,
                      edge_features=sc.edge_features)
        if q == 0:
            return b.triangles()
        if q == 1 and "distance" in W.names:
            return b.triangles_dist_based("distance", eps)
        return build.snapshot(b.to_simplicial_complex())[2]

    return Op("builder", (q, eps), fn)


def loaders(rng, W):
    from pytspl import load_dataset

    def fn(sc, W):
        s, coords, flow = load_dataset("paper")
        out = (list(s.nodes), list(s.edges), list(s.triangles),
               copy.deepcopy(s.edge_features), copy.deepcopy(coords),
               copy.deepcopy(flow))
        # the caller owns what was loaded
        s.edge_features.clear()
        s.edges.reverse()
        s.nodes.append(99)
        for k in coords:
            coords[k] = (9.0, 9.0)
        if isinstance(flow, dict):
            flow.clear()
        elif isinstance(flow, np.ndarray):
            flow[...] = 0
        return out

    # pandas itself is not thread-safe in the warning state
    return Op("load paper", (), fn, own=False, thread=False)


def pick(rng, W, threads=False):
    while True:
        u = rng.random()
        if u < .52:
            o = queries(rng, W)
        elif u < .75:
            o = filters(rng, W)
        elif u < .87:
            o = models(rng, W)
        elif u < .90:
            o = builders(rng, W)
        elif u < .985:
            o = plots(rng, W) if rng.random() < .25 else queries(rng, W)
        else:
            o = loaders(rng, W)
        if not threads or o.thread:
            return o


# -- one case ----------------------------------------------------------------
def make_world(m, rng, big=False):
    while True:
        sp = gen.spec(rng, min_edges=3, max_edges=110 if big else 30,
                      size="hm" if big else
                      str(rng.choice(["s", "m"], p=[.7, .3])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    specs = [sp]
    for _ in range(40):
        if len(specs) == 3:
            break
        s2 = gen.twin(rng, sp)
        H2 = O.Hodge(s2.n, s2.edges, s2.tris)
        if O.min_nonzero_eig(H2) > 4e-3:
            specs.append(s2)
    W = World()
    W.names = [["distance", "w"], ["distance"], []][int(rng.integers(0, 3))]
    feats = [{tuple(e): {k: round(float(rng.random()), 3) for k in W.names}
              for e in s.edges} if W.names else None for s in specs]
    nf = {v: {"p": float(rng.random())} for v in sp.nodes} \
        if rng.random() < .4 else None
    W.build = lambda i: build.make_sc(
        m, rng, specs[i], node_features=copy.deepcopy(nf),
        edge_features=copy.deepcopy(feats[i]))
    scs = [W.build(i) for i in range(len(specs))]
    # components that are exactly zero make the errors 0/0: both components
    # and flows are generic
    W.flows = [rng.standard_normal(H.m),
               rng.standard_normal(H.m) * 10.0 ** rng.integers(-2, 3),
               rng.integers(1, 9, H.m)]
    if rng.random() < .5:
        m.seen("views")
        W.flows = [gen.as_view(rng, f, 5) for f in W.flows]
    if rng.random() < .3:
        m.seen("readonly")
        for f in W.flows:
            f.flags.writeable = False
    # models are given their targets as they store them, now and then
    W.targets = W.flows
    if rng.random() < .5:
        m.seen("single-precision")
        W.targets = [np.array(f, dtype=np.float32) for f in W.flows]
    W.db = np.array([3.0, 20.0])
    W.mus = [.1, .5, 2.0]
    W.ratios = np.array([.4, .7])
    W.coords = {v: (float(a), float(b)) for v, (a, b) in enumerate(
        rng.uniform(-5, 5, (sp.n, 2)))}
    W.simplices = [tuple(map(int, s)) for s in
                   list(sp.edges) + list(sp.tris)]
    W.dicts = {}
    for sc in scs:
        W.dicts[id(sc)] = {tuple(e): float(W.flows[0][i])
                           for i, e in enumerate(sc.edges)}
    W.alias = False
    W.reuse = False
    W.kept = []
    W.slots = {}
    m.note(complexes=[s.describe() for s in specs])
    return W, specs, scs


def args_digest(W):
    return digest([W.flows, W.db, W.mus, W.ratios, W.coords, W.names, W.simplices,
                   W.targets, list(W.dicts.values())])


def case(m, rng, idx):
    os.environ["MPLBACKEND"] = "Agg"
    W, specs, scs = make_world(m, rng, idx % 41 == 7)
    if idx % 5 == 4:
        return concurrent(m, rng, W, specs, scs)
    args0 = args_digest(W)
    snap0 = [digest(build.snapshot(s)) for s in scs]
    results, ops = {}, {}
    log = []
    repeats = 0
    for step in range(int(rng.integers(15, 41))):
        if ops and rng.random() < .4:
            ky = list(ops)[int(rng.integers(0, len(ops)))]
            i, op = ops[ky]
            if rng.random() < .3:
                i = int(rng.integers(0, len(scs)))
        else:
            op = pick(rng, W)
            i = int(rng.integers(0, len(scs)))
        ky = (i, repr(op))
        sc = scs[i]
        log.append(ky)
        m.note(history=log)
        if op.plot:
            m.seen("plots")
        W.alias = bool(rng.random() < .5)
        W.reuse = bool(rng.random() < .5)
        g0, w0, s0 = generators(), warning_state(), settings()
        r = m.call(op.label, op.fn, sc, W)
        if op.det:
            m.check(generators() == g0, "generators",
                    f"{ky} moved a process-wide random generator")
        m.check(warning_state() == w0, "warning-state",
                f"{ky} changed the warning filters")
        s1 = settings()
        m.check(s1 == s0, "settings", f"{ky} changed a setting of the "
                "process", got=[(a, b) for a, b in zip(s0, s1) if a != b])
        d = digest(r)
        m.check(same(args_digest(W), args0), "arguments",
                f"{ky} changed its arguments", got=args_digest(W),
                want=args0)
        for j, s in enumerate(scs):
            m.check(same(digest(build.snapshot(s)), snap0[j]), "complex",
                    f"{ky} changed complex {j}", got=build.snapshot(s),
                    want=snap0[j])
        if ky in results:
            repeats += 1
            m.check(same(d, results[ky], op.tol), "repeat",
                    f"{ky}: another answer than the first time", got=d,
                    want=results[ky], history=log)
        else:
            results[ky] = d
            ops[ky] = (i, op)
        # the record of a filter that took no part stays
        for flt, h in W.kept:
            m.check(same(digest(flt.history), h), "other-history",
                    f"{ky} changed the record of a filter")
        if op.own and rng.random() < .6:
            W.kept = []
            n = scribble(r)
            m.seen("scribbled", n > 0)
            m.check(same(args_digest(W), args0), "arguments",
                    f"overwriting the result of {ky} changed an argument")
            for j, s in enumerate(scs):
                m.check(same(digest(build.snapshot(s)), snap0[j]), "complex",
                        f"overwriting the result of {ky} changed complex "
                        f"{j}", got=build.snapshot(s), want=snap0[j])
        if rng.random() < .08:
            m.seen("rejected")
            m.expect_raises("component", ValueError, sc.get_component_flow,
                            W.flows[0], "Curl")
    m.nontrivial(repeats >= 3)
    m.key([s.key() for s in specs], log)
    # the same requests on complexes without a history
    W.slots, W.kept = {}, []
    W.alias = W.reuse = False
    fresh = [W.build(i) for i in range(len(specs))]
    for j, s in enumerate(fresh):
        W.dicts[id(s)] = dict(W.dicts[id(scs[j])])
    for ky, (i, op) in ops.items():
        d = digest(m.call(op.label, op.fn, fresh[i], W))
        m.check(same(results[ky], d, op.tol), "fresh",
                f"{ky}: a fresh complex gives another answer",
                got=results[ky], want=d, history=log)


def concurrent(m, rng, W, specs, scs):
    m.seen("threads")
    args0 = args_digest(W)
    snap0 = [digest(build.snapshot(s)) for s in scs]
    W.slots = None
    g0, w0 = generators(), warning_state()
    todo = {}
    while len(todo) < 24:
        op = pick(rng, W, threads=True)
        i = int(rng.integers(0, len(scs)))
        todo[(i, repr(op))] = (i, op)
    base = {ky: digest(m.call(op.label, op.fn, scs[i], W))
            for ky, (i, op) in todo.items()}
    keys = list(todo)
    plan = [[keys[int(k)] for k in rng.integers(0, len(keys), 16)]
            for _ in range(6)]
    m.note(plan=plan)
    out = [[] for _ in plan]
    order = []
    gate = threading.Barrier(len(plan))

    def work(t):
        gate.wait()
        for ky in plan[t]:
            i, op = todo[ky]
            try:
                order.append(t)
                r = digest(op.fn(scs[i], W))
                out[t].append((ky, r, None))
            except Exception as e:  # judged in the main thread
                out[t].append((ky, None, f"{type(e).__name__}: {e}"))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ths = [threading.Thread(target=work, args=(t,)) for t in
           range(len(plan))]
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    switches = sum(a != b for a, b in zip(order, order[1:]))
    m.seen("thread-switches", switches)
    m.key([s.key() for s in specs], plan, order)
    m.nontrivial(switches > 20)
    for t, rows in enumerate(out):
        m.equal(len(rows), len(plan[t]), "thread-done")
        for ky, d, err in rows:
            m.check(err is None, "thread-raised", f"{ky}: {err}")
            m.check(same(d, base[ky], todo[ky][1].tol), "thread-result",
                    f"{ky}: another answer in a thread", got=d,
                    want=base[ky])
    m.check(same(args_digest(W), args0), "arguments",
            "threads changed the arguments")
    for j, s in enumerate(scs):
        m.check(same(digest(build.snapshot(s)), snap0[j]), "complex",
                f"threads changed complex {j}")
    m.check(generators() == g0, "generators",
            "threads moved a process-wide random generator")
    m.check(warning_state() == w0, "warning-state",
            "threads changed the warning state", got=warning_state())
