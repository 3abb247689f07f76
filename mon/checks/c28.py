"""C28: what is printed is what was computed."""
import ast
import contextlib
import io
import os
import re
import sys

import numpy as np

from mon import build, common, filters_ref as F, gen, gp_ref, oracles as O
from mon.checks import c21

RULE = ("runs of every part that reports progress, with the printed lines "
        "read back: sizes in summaries, the error of every filter size, "
        "weight, noise level and ratio next to the recorded errors, the loss "
        "of every training step next to the marginal likelihood at that "
        "step's parameters, and the metrics of a prediction next to those of "
        "the returned posterior; non-trivial: several different values were "
        "printed")
QUICK, THOROUGH = 2000, 16000
REQUIRED = {"decided:line-error": 8000, "decided:metric": 2500,
            "decided:loss": 1500, "decided:summary": 3000,
            "decided:noisy-error": 300, "decided:noise-level": 400,
            "decided:ratio": 60, "decided:parameters": 100,
            "decided:line-filter-error": 800}
CAP = {"quick": 400, "thorough": 780}
ASSUMPTIONS = ["chebpy is not installed: a stand-in interpolates at "
               "Chebyshev points of the second kind",
               "printed values are rounded to as many decimals as the line "
               "shows upstream (4; losses 3); metrics that single precision "
               "cannot tell are not judged"]
NUM = r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?)"


def prepare(tier):
    import torch

    sys.path.insert(0, os.path.join(common.ROOT, "shims"))
    torch.set_num_threads(1)
    import pytspl.filters  # noqa
    import pytspl.hogde_gp  # noqa
    from pytspl.filters import simplicial_trend_filter  # noqa


def heard(m, name, fn, *a, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = m.call(name, fn, *a, **kw)
    return r, buf.getvalue()


def fields(text):
    """One dictionary of numbers by label for every line that has some."""
    out = []
    for line in text.splitlines():
        d = {}
        for k, v in re.findall(r"([A-Za-z][A-Za-z0-9_. ]*?)\s*:\s*(%s)" % NUM,
                               line):
            d[k.strip().lower()] = float(v)
        if d:
            out.append(d)
    return out


def line_check(m, rows, key, field, labels, values, mech, what, digits=4):
    """Exactly one line for every label in order, with the value rounded."""
    got = [r for r in rows if key in r]
    m.equal([r[key] for r in got], [float(x) for x in labels],
            "line-labels", what)
    for r, v in zip(got, values):
        m.check(field in r, "line-missing", f"{what}: no {field!r}", got=r)
        if not np.isfinite(v):
            continue
        m.close(r[field], float(v), mech, f"{what} {key} {r[key]}",
                atol=.502 * 10. ** -digits, rtol=1e-9)


def summaries(m, rng, sp, sc, H):
    from pytspl import load_dataset
    from pytspl.hogde_gp import HodgeGPTrainer

    _, out = heard(m, "print_summary", sc.print_summary)

    def sizes(out, n, e, t):
        d = {}
        for r in fields(out):
            d.update(r)
        for k, v in (("num. of nodes", n), ("num. of edges", e),
                     ("num. of triangles", t)):
            m.equal(d.get(k), float(v), "summary", k)
        return d

    sizes(out, sp.n, H.m, len(sp.tris))
    m.check(f"Shape: {sc.shape}" in out, "summary", "shape", got=out)
    m.check(f"Max Dimension: {sc.max_dim}" in out, "summary", "dimension",
            got=out)
    t = HodgeGPTrainer(sc, np.zeros(H.m))
    _, out = heard(m, "get_laplacians", t.get_laplacians)
    got = [tuple(map(int, x)) for x in re.findall(r"\((\d+), (\d+)\)", out)]
    m.equal(got, [(H.m, H.m)] * 3, "summary", "laplacians")
    _, out = heard(m, "get_incidence_matrices", t.get_incidence_matrices)
    got = [tuple(map(int, x)) for x in re.findall(r"\((\d+), (\d+)\)", out)]
    m.equal(got, [(sp.n, H.m), (H.m, len(sp.tris))], "summary", "incidence")
    r, out = heard(m, "split", t.train_test_split,
                   train_ratio=float(rng.uniform(.3, .8)))
    got = {k: int(v) for k, v in re.findall(
        r"([xy]_t\w+):\D*(\d+)", out)}
    m.equal(got, dict(x_train=len(r[0]), y_train=len(r[1]), x_test=len(r[2]),
                      y_test=len(r[3])), "summary", "split")
    if rng.random() < .05:
        (s, xy, fl), out = heard(m, "load_dataset", load_dataset, "paper")
        d = sizes(out, len(s.nodes), len(s.edges), len(s.triangles))
        m.equal((d.get("coordinates"), d.get("flow")),
                (float(len(xy)), float(len(fl))), "summary", "dataset")


def filters(m, rng, sp, sc, H, f):
    from pytspl import filters as Fl

    parts = [p for p in ("gradient", "curl", "harmonic")
             if np.linalg.norm(H.split(f)[p]) > 1e-3 * np.linalg.norm(f)]
    part = str(rng.choice(parts))
    p = str(rng.choice(["L1", "L1L", "L1U"]))
    L = int(rng.integers(1, 8))
    if rng.random() < .15 and H.m < 40:
        L = int(rng.integers(8, 26))
        m.seen("long")
    q = int(rng.integers(0, 7))
    t = f + rng.standard_normal(H.m) * np.abs(f).max()
    if q == 0:
        A = Fl.EdgeFlowDenoising(sc)
        mus = [float(x) for x in rng.choice([.05, .1, .5, 1., 2.5, 40.],
                                            int(rng.integers(
                                                1, 30 if L > 7 else 5)))]
        _, out = heard(m, "denoise", A.denoise, f, t, p, mus)
        line_check(m, fields(out), "mu", "error", mus,
                   A.history["extracted_component_error"], "line-error",
                   "denoise")
        return
    if q == 1:
        A = Fl.ChebyshevFilterDesign(sc)
        if not np.any(H.lap(p)):
            return
        n = None if rng.random() < .5 else int(rng.integers(2, 12))
        _, out = heard(m, "cheb", A.apply, f, p_choice=p, component=part,
                       L=L, n=n)
        h, rows = A.history, fields(out)
        rows = [r for r in rows if "filter error" in r]
        line_check(m, rows, "filter size", "error", range(L),
                   h["extracted_component_error"], "line-error", "Chebyshev")
        line_check(m, rows, "filter size", "filter error", range(L),
                   h["filter_error"], "line-filter-error", "Chebyshev")
        V = np.linalg.eigh(H.lap(p).astype(float))[1]
        ideal = np.asarray(A.get_component_coefficients(part), float)
        e = [np.linalg.norm(np.diag(V.T @ x @ V) - ideal)
             / np.linalg.norm(ideal) for x in np.asarray(h["filter"])]
        line_check(m, rows, "filter size", "error response", range(L), e,
                   "line-response-error", "Chebyshev")
        return
    A = Fl.GridBasedFilterDesign(sc) if q in (2, 3, 6) else \
        Fl.LSFilterDesign(sc)
    if q in (5, 6):
        L1, L2 = int(rng.integers(0, 5)), int(rng.integers(0, 5))
        if "curl" not in parts:
            L2 = 0
        if "gradient" not in parts:
            L1 = 0
        _, out = heard(m, "general", A.general_filter, f, L1, L2)
        rec = [np.asarray(A.history[k]["extracted_component_error"])
               for k, n in (("L1", L1), ("L2", L2)) if n]
        if rec:
            line_check(m, fields(out), "filter size", "error",
                       [l for r in rec for l in range(len(r))],
                       np.concatenate(rec), "line-error", "general filter")
        return
    if q == 2:
        _, out = heard(m, "grid", A.denoise, f, t, p, min(L, H.m))
        L = min(L, H.m)
    elif q == 3:
        _, out = heard(m, "grid", A.subcomponent_extraction, f, part, p, L)
    elif part == "harmonic" or rng.random() < .5:
        _, out = heard(m, "LS", A.subcomponent_extraction_type_one, f, part,
                       L)
    else:
        _, out = heard(m, "LS", A.subcomponent_extraction_type_two, f, part,
                       L)
    line_check(m, fields(out), "filter size", "error", range(L),
               A.history["extracted_component_error"], "line-error",
               type(A).__name__)


def solved(fn):
    """The run, or None when the external solver gives up."""
    import cvxpy

    def run(*a, **kw):
        try:
            fn(*a, **kw)
            return True
        except cvxpy.error.SolverError:
            return None

    return run


def trend(m, rng, sp, sc, H, f):
    from pytspl.filters.simplicial_trend_filter import \
        SimplicialTrendFilter as T

    T = T(sc)
    comp = str(rng.choice(["divergence", "curl"])) if sp.tris else \
        "divergence"
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    n = int(rng.integers(1, 4))
    db = np.array([float(x) for x in rng.choice(
        [-3., 0., 5., 10., 17.5, 20., 30.], int(rng.integers(1, 4)))])
    q = rng.random()
    h = None
    if q < .6:
        mu = float(rng.choice([.1, .5, 3.]))
        _, out = heard(m, "l2", T.denoising_l2_regularizer, f, comp, n, db,
                       mu)
        h, rows = T.history, fields(out)
        rows = [r for r in rows if "snr" in r]
        line_check(m, rows, "snr", "l2 error", db, h["errors"],
                   "line-error", f"l2 {comp}")
        m.seen("decided:noise-level", len(db))
        x = np.asarray(h["frequency_responses"])
        L = (H.L1l if comp == "divergence" else H.L1u).astype(float)
        noisy = np.tensordot(np.eye(H.m) + mu * L, x, 1)
        e = np.linalg.norm(noisy - f[:, None, None], axis=0) \
            / np.linalg.norm(f)
        line_check(m, rows, "snr", "error noisy", db, e.mean(axis=1),
                   "noisy-error", f"l2 {comp} {n} realisations")
    elif H.m > 14:
        return
    elif q < .8:
        ok, out = heard(m, "l1", solved(T.denoising_l1_regularizer), f, comp,
                        n, db[:2], int(rng.integers(0, 2)))
        if not ok:
            m.seen("solver-failure")
            return
        h, rows = T.history, fields(out)
        rows = [r for r in rows if "snr" in r]
        line_check(m, rows, "snr", "l1 error", db[:2], h["errors"],
                   "line-error", f"l1 {comp}")
        m.seen("decided:noise-level", len(db[:2]))
    else:
        rs = [float(x) for x in rng.choice([.5, .7, .9], 2, replace=False)]
        if H.m < 4:
            return
        ok, out = heard(m, "interpolation",
                        solved(T.interpolation_l1_regularizer), f, comp, rs,
                        n, int(rng.integers(0, 2)))
        if not ok:
            m.seen("solver-failure")
            return
        h, rows = T.history, fields(out)
        rows = [r for r in rows if "ratio" in r]
        line_check(m, rows, "ratio", "error", rs, h["errors"], "ratio",
                   f"interpolation {comp}")
    c = np.asarray(h["correlations"])
    for r, v in zip(rows, c):
        if np.isfinite(v):
            m.close(r.get("corr", np.nan), v, "line-correlation", comp,
                    atol=.502e-4)


def models(m, rng, sp, sc, H, y):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    kind = str(rng.choice(gp_ref.TYPES)) if rng.random() < .6 else "matern"
    tr = HodgeGPTrainer(sc=sc, y=y)
    xt, yt, xs, ys = tr.train_test_split(
        train_ratio=float(rng.uniform(.4, .75)),
        seed=int(rng.integers(0, 99)))[:4]
    if len(xs) < 2 or len(xt) < 3:
        return
    zero = bool(rng.random() < .5)
    lik = gpytorch.likelihoods.GaussianLikelihood()
    kern = KernelSerializer().serialize(tr.get_eigenpairs(), kind, "forex")
    model = ExactGPModel(xt, yt, lik, kern,
                         mean_function="zero" if zero else None)
    if rng.random() < .7:
        for k in gp_ref.PARAMS[kind]:
            setattr(kern, k, float(np.exp(rng.uniform(-1.5, .7))))
        lik.noise = float(rng.choice([.05, .3, 1.]))
        model.covar_module.outputscale = float(rng.choice([.3, 1., 2.5]))
    if rng.random() < .7:
        steps = int(rng.integers(1, 12 if rng.random() < .97 else 140))
        spied, log = c21.spy(torch.optim.Adam, model, lik, kind)
        _, out = heard(m, "train", tr.train, model, lik, xt, yt,
                       training_iters=steps, optimizer=spied)
        got = re.findall(r"Iteration (\d+)/(\d+) - Loss: (%s)" % NUM, out)
        m.equal([(int(a), int(b)) for a, b, _ in got],
                [(i + 1, steps) for i in range(steps)], "loss-steps")
        xti = xt.numpy().astype(int)
        y64 = torch.tensor(yt.numpy().astype(float))
        for i, (_, _, v) in enumerate(got[:len(log)]):
            raw = {k: torch.tensor(x, dtype=torch.float64)
                   for k, x in log[i][0].items()}
            loss, cond = c21.ref_loss(H, kind, raw, xti, y64, zero)
            loss = float(loss)
            if not cond < 1e4:
                m.seen("ill-conditioned-step")
                continue
            m.close(float(v), loss, "loss", f"{kind} step {i + 1}/{steps}",
                    atol=.502e-3 + 1e-4 * abs(loss) + 1e-6 * cond * (
                        1 + float(np.abs(y64).max()) ** 2))
        if kind == "matern" and rng.random() < .6:
            _, out = heard(m, "build_matern_kernel", tr.build_matern_kernel)
            d = [x for x in out.splitlines() if x.startswith("{")]
            m.equal(len(d), 1, "parameters-line")
            m.equal(ast.literal_eval(d[0]), tr.get_model_parameters(),
                    "parameters")
            k = kern
            m.close(ast.literal_eval(d[0])["raw_kappa_down"],
                    float(k.kappa_down.detach()), "parameters", rtol=1e-5)
    for _ in range(2):
        q = xs
        t = ys
        if rng.random() < .4:
            t = torch.tensor(rng.standard_normal(len(xs)) * 2,
                             dtype=torch.float32)
        p, out = heard(m, "predict", tr.predict, model, lik, q, t)
        d = {}
        for r in fields(out):
            d.update(r)
        mean = p.mean.detach().double().numpy()
        cov = p.covariance_matrix.detach().double().numpy()
        var = np.diag(cov)
        tt = t.double().numpy()
        e = tt - mean
        s = np.abs(e).max() + 1e-9
        den = ((tt - tt.mean()) ** 2).sum()
        m.close(d.get("test mae", np.nan), np.abs(e).mean(), "metric", "MAE",
                rtol=1e-4, atol=1e-5 * (1 + np.abs(tt).max()))
        m.close(d.get("test mse", np.nan), (e ** 2).mean(), "metric", "MSE",
                rtol=1e-4, atol=1e-5 * s * (1 + np.abs(tt).max()))
        if den > 1e-3:
            m.close(d.get("test r2", np.nan), 1 - (e ** 2).sum() / den,
                    "metric", "R2", rtol=1e-4,
                    atol=1e-4 * (1 + (e ** 2).sum() / den))
        if var.min() < 1e-2:
            continue
        m.close(d.get("test mlss", np.nan),
                (.5 * np.log(2 * np.pi * var) + e ** 2 / (2 * var)).mean(),
                "metric", "mean log loss", rtol=2e-3,
                atol=2e-3 * (1 + (s * s / var.min())))
        w = np.linalg.eigvalsh(cov)
        if w[0] < 1e-2 or w[-1] / w[0] > 1e3:
            continue
        nl = .5 * (e @ np.linalg.solve(cov, e) + np.log(w).sum()
                   + len(e) * np.log(2 * np.pi)) / len(e)
        m.close(d.get("test nlpd", np.nan), nl, "metric", "NLPD", rtol=2e-3,
                atol=2e-3 * (1 + s * s / w[0]))


def case(m, rng, idx):
    sp = gen.spec(rng, min_edges=4, max_edges=40,
                  size=str(rng.choice(["s", "m"])))
    H = O.Hodge(sp.n, sp.edges, sp.tris)
    if O.min_nonzero_eig(H) < 4e-3:
        return
    sc = build.make_sc(m, rng, sp)
    f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed"])
    f = np.asarray(f, float)
    m.note(complex=sp.describe(), flow=f)
    m.key(sp.key(), f.tobytes(), idx)
    m.nontrivial(H.m >= 4)
    summaries(m, rng, sp, sc, H)
    for _ in range(2):
        filters(m, rng, sp, sc, H, f)
    if idx % 3 == 0:
        trend(m, rng, sp, sc, H, f)
    if H.m >= 6 and O.min_nonzero_eig(H) > 2e-2:
        models(m, rng, sp, sc, H, rng.standard_normal(H.m))
