"""C21: GP prediction is exact conditioning with the learned kernel."""
import numpy as np

from mon import build, gen, gp_ref, oracles as O

RULE = ("random complexes x kernels x targets x splits x mean settings x "
        "hyperparameters or training runs (Adam and SGD, 1-15 steps, several "
        "runs on one model, predictions in between); predictions compared "
        "with dense Gaussian conditioning in double precision, training with "
        "a reference optimisation of the marginal likelihood from the same "
        "start; runs that amplify single-precision rounding are not judged; "
        "non-trivial: at least 4 training edges and 2 test edges")
QUICK, THOROUGH = 3000, 20000
REQUIRED = {"decided:posterior-mean": 1500, "decided:posterior-covariance":
            1500, "decided:trained": 600, "decided:step-gradient": 2000,
            "long-training": 40, "decided:reported": 150,
            "decided:learned-kernel": 100, "trained-twice": 150, "predict-then-change": 100,
            "zero-mean": 300, "constant-mean": 300, "predict-then-train": 100}
CAP = {"quick": 300, "thorough": 780}


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    import pytspl.hogde_gp  # noqa
    import pytspl.hogde_gp.kernel_serializer  # noqa


class Ref:
    """Prior of the model from its current hyperparameters."""

    def __init__(self, H, kind):
        self.H, self.kind = H, kind

    def read(self, model, lik):
        p = gp_ref.read(model.covar_module.base_kernel, self.kind)
        s = float(model.covar_module.outputscale)
        noise = float(lik.noise.reshape(-1)[0])
        c = 0.0
        if hasattr(model.mean_module, "constant"):
            c = float(model.mean_module.constant.detach().reshape(-1)[0])
        return p, s, noise, c

    def posterior(self, state, xt, yt, xs):
        p, s, noise, c = state
        K = s * gp_ref.covariance(self.kind, self.H, p)
        A = K[np.ix_(xt, xt)] + noise * np.eye(len(xt))
        B = K[np.ix_(xs, xt)]
        mean = c + B @ np.linalg.solve(A, yt - c)
        cov = K[np.ix_(xs, xs)] - B @ np.linalg.solve(A, B.T)
        return mean, cov + noise * np.eye(len(xs)), np.linalg.cond(A)


def torch_cov(H, kind, p):
    """The same covariance, differentiable (double precision)."""
    import torch

    def pieces(which):
        if which == "harmonic":
            U = np.linalg.svd(H.P("harmonic"))[0][:, :H.dims[0]]
            return torch.tensor(U), torch.zeros(U.shape[1],
                                                dtype=torch.float64)
        U = H.Ug if which == "gradient" else H.Uc
        if U.shape[1] == 0:
            return torch.zeros(H.m, 0, dtype=torch.float64), torch.zeros(
                0, dtype=torch.float64)
        L = (H.L1l if which == "gradient" else H.L1u).astype(float)
        w, V = np.linalg.eigh(U.T @ L @ U)
        return torch.tensor(U @ V), torch.tensor(w)

    def mat(mu, ka):
        return lambda x: (2 * mu / ka ** 2 + x) ** (-mu)

    f = {"diffusion": lambda: ((lambda x: torch.exp(-x), p["h"]),
                               (lambda x: torch.exp(-p["kappa_down"] * x),
                                p["h_down"]),
                               (lambda x: torch.exp(-p["kappa_up"] * x),
                                p["h_up"])),
         "diffusion_non_hc": lambda: (
             (lambda x: torch.exp(-x), 1),
             (lambda x: torch.exp(-p["kappa_down"] * x), 1),
             (lambda x: torch.exp(-p["kappa_down"] * x), 1)),
         "matern": lambda: (
             (lambda x: p["mu"].expand(len(x)), p["h"]),
             (mat(p["mu_down"], p["kappa_down"]), p["h_down"]),
             (mat(p["mu_up"], p["kappa_up"]), p["h_up"])),
         "matern_non_hc": lambda: (
             (mat(p["mu_down"], p["kappa_down"]), 1),) * 3,
         "laplacian": lambda: ((lambda x: 1 / (1e-3 + x), p["mu"]),
                               (lambda x: 1 / x, p["kappa_down"]),
                               (lambda x: 1 / x, p["kappa_up"]))}[kind]()
    K = 0
    for which, (fun, wgt) in zip(("harmonic", "gradient", "curl"), f):
        U, w = pieces(which)
        if U.shape[1]:
            K = K + wgt * ((U * fun(w)) @ U.T)
    return K


def ref_loss(H, kind, v, xt, y, zero_mean):
    """Negative marginal log likelihood per observation."""
    import torch

    sp = torch.nn.functional.softplus
    p = {k: sp(v[k]) for k in gp_ref.PARAMS[kind]}
    K = sp(v["outputscale"]) * torch_cov(H, kind, p)
    A = K[xt][:, xt] + (sp(v["noise"]) + 1e-4) * torch.eye(
        len(xt), dtype=torch.float64)
    r = y - (0 if zero_mean else v["constant"])
    C = torch.linalg.cholesky(A)
    a = torch.cholesky_solve(r[:, None], C)[:, 0]
    nll = .5 * (r @ a) + C.diagonal().log().sum() + \
        .5 * len(xt) * np.log(2 * np.pi)
    return nll / len(xt), float(torch.linalg.cond(A.detach()))


def spy(opt, model, lik, kind):
    """The optimizer, recording parameters and gradients at every step."""
    log = []

    class Spy(opt):
        def step(self, closure=None):
            log.append((raws(model, lik, kind), raws(model, lik, kind, True),
                        [g["lr"] for g in self.param_groups]))
            return super().step(closure)

    Spy.__name__ = opt.__name__
    return Spy, log


def check_steps(m, H, kind, log, xt, yt, steps, lr, zero, what, rng):
    """The recorded run, step by step: as many steps as asked for, each along
    the gradient of the marginal likelihood at that point."""
    import torch

    m.equal(len(log), steps, "steps", what)
    if steps > 20:
        m.seen("long-training")
    at = range(steps) if steps <= 6 else sorted(
        {0, steps - 1, *(int(i) for i in rng.integers(0, steps, 4))})
    for i in at:
        val, grad, lrs = log[i]
        m.check(all(abs(x - lr) < 1e-12 for x in lrs), "learning-rate", what,
                got=lrs)
        v = {k: torch.tensor(x, dtype=torch.float64, requires_grad=True)
             for k, x in val.items()}
        loss, cond = ref_loss(H, kind, v, xt, torch.tensor(
            yt, dtype=torch.float64), zero)
        loss.backward()
        g = {k: 0.0 if x.grad is None else float(x.grad)
             for k, x in v.items()}
        big = max(map(abs, g.values()))
        if cond > 1e4 or not np.isfinite(cond):
            m.seen("ill-conditioned-step")
            continue
        for k in g:
            m.close(grad[k], g[k], "step-gradient",
                    f"{kind} {k} at step {i} of {what}",
                    atol=GT[0] * big + GT[1] * cond * (
                        1 + np.abs(yt).max() ** 2) + GT[2])


GT = (5e-4, 5e-7, 5e-5)


def ref_train(H, kind, raw, xt, yt, steps, lr, opt, zero_mean):
    """raw: dict name -> raw value; the optimisation in double precision.
    Returns the final raw values."""
    import torch

    v = {k: torch.tensor(float(x), dtype=torch.float64, requires_grad=True)
         for k, x in raw.items()}
    o = opt(list(v.values()), lr=lr)
    y = torch.tensor(yt, dtype=torch.float64)
    for _ in range(steps):
        o.zero_grad()
        ref_loss(H, kind, v, xt, y, zero_mean)[0].backward()
        o.step()
    return {k: float(x.detach()) for k, x in v.items()}


def raws(model, lik, kind, grad=False):
    k = model.covar_module.base_kernel

    def of(x):
        x = x.grad if grad else x.detach()
        return 0.0 if x is None else float(x.reshape(-1)[0])

    r = {q: of(getattr(k, "raw_" + q)) for q in gp_ref.PARAMS[kind]}
    r["outputscale"] = of(model.covar_module.raw_outputscale)
    r["noise"] = of(lik.noise_covar.raw_noise)
    if hasattr(model.mean_module, "constant"):
        r["constant"] = of(model.mean_module.constant)
    return r


def predict(m, tr, ref, model, lik, xt, yt, xs, ys, what):
    import torch

    state = ref.read(model, lik)
    txs = torch.tensor(xs, dtype=torch.float32)
    tys = torch.tensor(ys, dtype=torch.float32)
    pred = m.call("predict", tr.predict, model, lik, txs, tys)
    st2 = ref.read(model, lik)
    m.equal(state, st2, "predict-changes-model")
    mean, cov, cond = ref.posterior(state, xt, np.asarray(
        yt, np.float32).astype(float), xs)
    if cond > 3e4:
        m.seen("ill-conditioned")
        return
    sc = 1 + np.abs(yt).max() + np.abs(mean).max()
    cs = np.abs(cov).max()
    tol = 3e-6 * cond + 2e-4
    m.close(pred.mean.detach(), mean, "posterior-mean", what, atol=tol * sc)
    m.close(pred.covariance_matrix.detach(), cov, "posterior-covariance",
            what, atol=tol * max(cs, state[1]))
    m.close(pred.variance.detach(), np.diag(cov), "posterior-variance", what,
            atol=tol * max(cs, state[1]))


def case(m, rng, idx):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    while True:
        big = idx % 41 == 7
        sp = gen.spec(rng, min_edges=6, max_edges=150 if big else 45,
                      size="hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 2e-2:
            break
    sc = build.make_sc(m, rng, sp)
    kind = gp_ref.TYPES[idx % 5] if idx % 2 else "matern"
    y = rng.standard_normal(H.m)
    if rng.random() < .4:
        y = H.split(y)["gradient"] + .1 * rng.standard_normal(H.m) + 1.5
    tr = HodgeGPTrainer(sc=sc, y=y)
    norm = bool(rng.random() < .3)
    ratio = float(rng.uniform(.35, .75))
    out = m.call("split", tr.train_test_split, train_ratio=ratio,
                 data_normalization=norm, seed=int(rng.integers(0, 99)))
    xt, yt, xs, ys = out[:4]
    if len(xs) < 2 or len(xt) < 3:
        return
    xti, xsi = xt.numpy().astype(int), xs.numpy().astype(int)
    ytn, ysn = yt.numpy().astype(float), ys.numpy().astype(float)
    zero = bool(rng.random() < .5)
    m.seen("zero-mean" if zero else "constant-mean")
    lik = gpytorch.likelihoods.GaussianLikelihood()
    kern = m.call("serialize", KernelSerializer().serialize,
                  eigenpairs=m.call("eigenpairs", tr.get_eigenpairs),
                  kernel_type=kind, data_name="forex")
    model = m.call("model", ExactGPModel, xt, yt, lik, kern,
                   mean_function="zero" if zero else None)
    ref = Ref(H, kind)
    m.note(complex=sp.describe(), kernel=kind, targets=y, train=xti,
           test=xsi, zero_mean=zero, normalised=norm)
    m.key(sp.key(), kind, y.tobytes(), tuple(xti), zero, norm)
    m.nontrivial(len(xti) >= 4)
    if rng.random() < .5:
        p = {k: float(np.exp(rng.uniform(np.log(.2), np.log(2.))))
             for k in gp_ref.PARAMS[kind]}
        for k, v in p.items():
            setattr(kern, k, v)
        lik.noise = float(rng.choice([.05, .3, 1.]))
        model.covar_module.outputscale = float(rng.choice([.3, 1., 2.5]))
        if not zero:
            model.mean_module.constant.data.fill_(float(rng.normal()))
        m.note(hyperparameters=p)
    script = []
    predicted = False
    trained = 0
    plan = [str(rng.choice(["predict", "train", "params", "change"]))
            for _ in range(int(rng.integers(1, 4)))] + ["predict"]
    if trained == 0 and idx % 3 == 0:
        plan = ["train", "params"] + plan
    if idx % 6 == 0:
        plan = ["predict"] + plan
    for what in plan:
        script.append(what)
        m.note(script=script)
        if what == "predict":
            q = xsi if rng.random() < .7 else rng.integers(
                0, H.m, int(rng.integers(2, 8)))
            if np.array_equal(q, xti):
                continue
            ysq = ysn if q is xsi else rng.standard_normal(len(q))
            predict(m, tr, ref, model, lik, xti, ytn, q, ysq, f"{script}")
            predicted = True
        elif what == "train":
            if predicted:
                m.seen("predict-then-train")
            if rng.random() < .7:
                model.train()
                lik.train()
            steps = int(rng.integers(1, 16))
            lr = float(rng.choice([.1, .05, .01, 1e-6]))
            if rng.random() < .04 and H.m < 30:
                steps = int(rng.integers(100, 500))
            opt = torch.optim.Adam if rng.random() < .6 else torch.optim.SGD
            raw = raws(model, lik, kind)
            kw = {}
            if opt is not torch.optim.Adam or rng.random() < .5:
                kw["optimizer"] = opt
            if lr != .1 or rng.random() < .5:
                kw["learning_rate"] = lr
            log = None
            if rng.random() < .5 or steps > 20:
                kw["optimizer"], log = spy(opt, model, lik, kind)
            m.call("train", tr.train, model, lik, xt, yt,
                   training_iters=steps, **kw)
            if log is not None:
                check_steps(m, H, kind, log, xti, ytn, steps, lr, zero,
                            f"{steps} of {opt.__name__} lr={lr} {script}",
                            rng)
            trained += 1
            if trained == 2:
                m.seen("trained-twice")
            got = raws(model, lik, kind)
            if steps > 20:
                predicted = False
                continue
            want = ref_train(H, kind, raw, xti, ytn, steps, lr, opt, zero)
            pert = [ref_train(H, kind, {
                k: v + e for k, v in raw.items()}, xti, ytn, steps, lr, opt,
                zero) for e in (2e-6, -3e-6)]
            for k in want:
                d = max(abs(w[k] - want[k]) for w in pert)
                # how sharply the run reacts to rounding
                if d > 1e-3:
                    m.seen("unstable-parameter")
                    continue
                m.close(got[k], want[k], "trained", f"{kind} {k} after "
                        f"{steps} steps of {opt.__name__} lr={lr} {script}",
                        atol=2e-3 + 20 * d + 2e-2 * abs(want[k] - raw[k]))
            predicted = False
            m.check(tr.model is model, "model-kept")
        elif what == "change":
            for k in gp_ref.PARAMS[kind]:
                if rng.random() < .5:
                    setattr(kern, k, float(np.exp(rng.uniform(
                        np.log(.2), np.log(2.)))))
            lik.noise = float(rng.choice([.05, .3, 1.]))
            if predicted:
                m.seen("predict-then-change")
        elif trained and kind == "matern":
            par = m.call("parameters", tr.get_model_parameters)
            k = model.covar_module.base_kernel
            want = {"raw_" + q: float(getattr(k, q).detach())
                    for q in gp_ref.PARAMS[kind]}
            want["raw_noise"] = float(lik.noise)
            want["raw_outputscale"] = float(model.covar_module.outputscale)
            m.equal(set(par), set(want), "parameter-names")
            for q in want:
                m.close(par[q], want[q], "reported", q, rtol=1e-6)
            K, var = m.call("learned", tr.build_matern_kernel)
            p, s, _, _ = ref.read(model, lik)
            W = s * gp_ref.covariance(kind, H, p)
            m.close(K, W, "learned-kernel", atol=1e-5 * np.abs(W).max())
            d = np.diag(W)
            if d.max() - d.min() > 1e-3 * d.max():
                m.close(var, d, "learned-variance", atol=1e-5 * d.max())
            elif d.max() - d.min() < 1e-9 * d.max():
                m.check(np.ndim(var) == 0 and var == 0 or np.allclose(var, d),
                        "learned-variance", got=var)
