"""C29: copies and saved objects behave like the originals."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mon import build, c29_driver, common, gp_ref as G
from mon.checks import c23
from mon.checks.c23 import digest, same, scribble

RULE = ("complexes, builders, plots, filters with a record, kernels and "
        "(trained) models with a history of use, copied deeply, pickled with "
        "every protocol, restored in another process, or rebuilt from a "
        "state dictionary; afterwards the original and the copy are asked "
        "the same questions in either order, results are overwritten, one of "
        "the two is changed, and the answers, records, parameters and "
        "further training of the other are compared; non-trivial: the "
        "original had answered at least three requests before")
QUICK, THOROUGH = 1200, 14000
REQUIRED = {"deepcopy": 250, "decided:same-answer": 6000,
            "decided:other-unchanged": 4000, "decided:copied-record": 200,
            "decided:copied-model": 150, "decided:state-dict": 100,
            "decided:trained-alike": 100, "copied-plot": 30,
            "generated-layout": 8,
            "copied-builder": 30, "decided:changed-copy": 300}
CAP = {"quick": 400, "thorough": 780}
ASSUMPTIONS = ["objects that Python cannot pickle are compared by deep copy "
               "only (counted as not-picklable; there are none upstream)"]
TMP = None


def prepare(tier):
    global TMP
    c23.prepare(tier)
    import pytspl.hogde_gp.kernel_serializer  # noqa
    TMP = tempfile.mkdtemp(prefix="verif-c29-", dir="/tmp")


def cleanup():
    if TMP and TMP.startswith("/tmp/verif-c29-"):
        shutil.rmtree(TMP, ignore_errors=True)


def duplicate(m, rng, x, what):
    """A copy, by one of the ways Python offers."""
    how = int(rng.integers(0, 6))
    if how >= 2:
        proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
        try:
            blob = pickle.dumps(x, protocol=proto)
        except Exception as e:
            m.seen("not-picklable")
            m.note(not_picklable=f"{what}: {type(e).__name__}: {e}")
            how = 0
        else:
            m.seen("pickled")
            m.note(copied=f"{what} pickled, protocol {proto}")
            y = m.call("unpickle", pickle.loads, blob)
            if how == 5:  # once more
                y = m.call("unpickle", pickle.loads, pickle.dumps(y))
    if how < 2:
        m.seen("deepcopy")
        m.note(copied=f"{what} copied deeply")
        y = m.call("deepcopy", copy.deepcopy, x)
        if how == 1:
            y = m.call("deepcopy", copy.deepcopy, y)
    m.check(type(y) is type(x), "copied-type", what, got=type(y))
    return y


def ask(m, W, op, sc, what):
    return digest(m.call(op.label, op.fn, sc, W))


def use_flows(W, sc, like):
    """Arguments that are kept per complex."""
    W.dicts[id(sc)] = dict(W.dicts[id(like)])


def complexes(m, rng, W, scs):
    sc, other = scs[0], scs[-1]
    ops = [c23.pick(rng, W) for _ in range(int(rng.integers(3, 8)))]
    before = {}
    for op in ops[:int(rng.integers(0, len(ops) + 1))]:
        before[repr(op)] = ask(m, W, op, sc, "before")
    m.nontrivial(len(before) >= 3)
    snap = digest(build.snapshot(sc))
    W.slots, W.kept = {}, []
    cp = duplicate(m, rng, sc, "complex")
    use_flows(W, cp, sc)
    both = [sc, cp]
    if rng.random() < .3:  # a copy made next to an unrelated complex
        pair = duplicate(m, rng, [sc, other, sc], "list of complexes")
        m.check(pair[0] is pair[2], "copied-identity")
        m.check(same(digest(build.snapshot(pair[1])),
                     digest(build.snapshot(other))), "same-answer",
                "the other complex of a copied list")
        both.append(pair[0])
        use_flows(W, pair[0], sc)
    for x in both:
        m.check(same(digest(build.snapshot(x)), snap), "same-answer",
                "what the copy contains", got=build.snapshot(x), want=snap)
    log = []
    for op in ops + [c23.pick(rng, W) for _ in range(4)]:
        ans = []
        log.append(repr(op))
        m.note(history=log)
        W.reuse = W.alias = False
        for i in rng.permutation(len(both)):
            r = m.call(op.label, op.fn, both[int(i)], W)
            ans.append(digest(r))
            if op.own and rng.random() < .5:
                scribble(r)
        if repr(op) in before:
            ans.append(before[repr(op)])
        for a in ans[1:]:
            m.check(same(ans[0], a, op.tol), "same-answer",
                    f"{op!r}: the copy and the original differ", got=ans[0],
                    want=a, history=log)
        for x in both:
            m.check(same(digest(build.snapshot(x)), snap), "other-unchanged",
                    f"after {op!r}", got=build.snapshot(x), want=snap)
    # one of them is changed by its owner
    j = int(rng.integers(0, len(both)))
    x = both[j]
    if isinstance(x.edge_features, dict):
        for e in list(x.edge_features):
            if isinstance(x.edge_features[e], dict):
                x.edge_features[e]["mine"] = -1.0
        x.edge_features[("mine",)] = {}
    if isinstance(x.node_features, dict):
        x.node_features["mine"] = {"p": 5}
    x.nodes.append(10 ** 6)
    x.edges.reverse()
    x.triangles.clear()
    op = ops[0]
    for i, y in enumerate(both):
        if i != j:
            m.check(same(digest(build.snapshot(y)), snap), "changed-copy",
                    "changing the lists of one changed the other",
                    got=build.snapshot(y), want=snap)
            if repr(op) in before:
                m.check(same(ask(m, W, op, y, "after"), before[repr(op)],
                             op.tol), "changed-copy", f"{op!r}")


def record(flt):
    return digest(flt.history)


def request(rng, W, cls):
    while True:
        op = c23.filters(rng, W)
        if op.label.startswith(cls + "."):
            return op


def run(m, W, op, cls, flt, sc):
    """Ask this very filter; digest of what it says and records."""
    W.slots, W.kept = {(cls, id(sc)): flt}, []
    W.reuse, W.alias = True, False
    d = digest(m.call(op.label, op.fn, sc, W))
    W.slots, W.kept = {}, []
    return d


def filters(m, rng, W, scs):
    sc = scs[0]
    cls = str(rng.choice(["LS", "Grid", "Den", "Cheb", "Trend"]))
    flt = m.call("filter", c23._filter, cls, sc)
    n = int(rng.integers(0, 4))
    for _ in range(n):
        op = request(rng, W, cls)
        run(m, W, op, cls, flt, sc)
        m.note(run=repr(op))
    m.nontrivial(n >= 1)
    h0 = record(flt)
    if rng.random() < .5:
        cp = duplicate(m, rng, flt, cls + " filter")
        csc = None
    else:
        csc, cp = duplicate(m, rng, (sc, flt), f"complex with {cls} filter")
        m.check(same(digest(build.snapshot(csc)), digest(
            build.snapshot(sc))), "same-answer", "complex copied along")
    m.check(same(record(cp), h0), "copied-record", cls, got=cp.history,
            want=flt.history)
    plain = c23._filter(cls, W.build(0))
    objs = [flt, cp]
    rec = [h0, h0]
    log = []
    for _ in range(int(rng.integers(1, 4))):
        op = request(rng, W, cls)
        log.append(repr(op))
        m.note(history=log)
        ref = run(m, W, op, cls, plain, sc)
        order = [int(i) for i in rng.permutation(2)]
        if rng.random() < .4:
            order = order[:1]
        for i in order:
            r = run(m, W, op, cls, objs[i], sc)
            m.check(same(r, ref, op.tol), "same-answer",
                    f"{['original', 'copy'][i]} {op!r}: not what a fresh "
                    "filter says", got=r, want=ref, history=log)
            rec[i] = record(objs[i])
            m.check(same(record(objs[1 - i]), rec[1 - i]), "other-unchanged",
                    f"{op!r} changed the record of the other filter",
                    got=objs[1 - i].history, want=rec[1 - i])
        for p in ("L1", "L1L", "L1U"):
            a, b = (o.get_p_matrix(p).toarray() for o in objs)
            m.check(np.array_equal(a, b), "same-answer", f"operator {p}")
    # the record of one is overwritten by its owner
    i = int(rng.integers(0, 2))
    scribble(objs[i].history)
    objs[i].history["mine"] = 1
    m.check(same(record(objs[1 - i]), rec[1 - i]), "changed-copy",
            "overwriting one record changed the other",
            got=objs[1 - i].history, want=rec[1 - i])


def plots(m, rng, W, scs):
    import matplotlib.pyplot as plt
    from pytspl.plot import SCPlot

    m.seen("copied-plot")
    sc = scs[0]
    own = rng.random() < .6
    p = m.call("SCPlot", SCPlot, simplicial_complex=sc,
               coordinates=W.coords if own else None)
    m.nontrivial()

    def draw(p, q, f, c):
        plt.close("all")
        if q == 0:
            m.call("draw", p.draw_network, edge_flow=W.flows[f])
        elif q == 1:
            m.call("draw", p.draw_network, directed=bool(f), node_size=50)
        elif q == 2:
            m.call("draw", p.draw_hodge_decomposition, flow=W.flows[f],
                   component=c)
        else:
            return digest(m.call("flow", p.create_edge_flow, W.flows[f]))
        out = digest(c23.seen_artists())
        plt.close("all")
        return out

    def what():
        return (int(rng.integers(0, 4)), int(rng.integers(0, 2)),
                str(rng.choice(["gradient", "curl", "harmonic"])))

    if not own:
        # the generated layout is part of what is copied
        m.seen("generated-layout")
        draw(p, int(rng.integers(0, 3)), *what()[1:])
    elif rng.random() < .6:
        draw(p, *what())
    cp = duplicate(m, rng, p, "plot")
    for _ in range(2):
        w = what()
        a, b = draw(p, *w), draw(cp, *w)
        m.check(same(a, b, 1e-7), "same-answer", f"drawing {w}", got=b,
                want=a)
    a = draw(p, *w)
    pos = getattr(cp, "pos", None)
    if isinstance(pos, dict):
        for v in list(pos):
            pos[v] = (99.0, 99.0)
        m.check(same(draw(p, *w), a, 1e-7), "changed-copy",
                "moving the nodes of the copy moved the original's")


def builders(m, rng, W, scs):
    from pytspl.simplicial_complex.scbuilder import SCBuilder

    m.seen("copied-builder")
    sc = scs[0]
    b = m.call("SCBuilder", SCBuilder, nodes=list(sc.nodes),
               edges=list(sc.edges),
               edge_features=copy.deepcopy(sc.edge_features))
    m.nontrivial()
    eps = float(rng.uniform(.2, 1.))

    def answers(b):
        out = [m.call("triangles", b.triangles)]
        if "distance" in W.names:
            out.append(m.call("dist", b.triangles_dist_based, "distance",
                              eps))
        out.append(build.snapshot(m.call("to_sc", b.to_simplicial_complex)))
        return digest(out)

    a0 = answers(b) if rng.random() < .5 else None
    cp = duplicate(m, rng, b, "builder")
    order = [b, cp]
    if rng.random() < .5:
        order.reverse()
    r = [answers(x) for x in order]
    m.check(same(r[0], r[1]) and (a0 is None or same(a0, r[0])),
            "same-answer", "builder", got=r[1], want=r[0])
    x, y = order
    if isinstance(x.edge_features, dict):
        for e in x.edge_features.values():
            if isinstance(e, dict):
                for k in e:
                    e[k] = 1e9
    x.edges.clear()
    x.nodes.append(777)
    m.check(same(answers(y), r[0]), "changed-copy",
            "changing one builder changed the other")


def models(m, rng, W, scs):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    sc = scs[0]
    n = len(sc.edges)
    f = W.flows[0]
    if n < 6 or np.std(f) < 1e-3:
        return
    kind = str(rng.choice(G.TYPES))
    tr = m.call("trainer", HodgeGPTrainer, sc=sc, y=np.array(f))
    xt, yt, xs, ys = m.call("split", tr.train_test_split,
                            train_ratio=.6, seed=int(rng.integers(0, 9)),
                            data_normalization=True)[:4]
    if len(xs) < 2:
        return
    m.nontrivial()
    ep = m.call("eigenpairs", tr.get_eigenpairs)
    zero = bool(rng.random() < .5)
    m.note(kernel=kind, zero_mean=zero)

    def make():
        lik = gpytorch.likelihoods.GaussianLikelihood()
        k = m.call("serialize", KernelSerializer().serialize, ep, kind,
                   "forex")
        return m.call("model", ExactGPModel, xt, yt, lik, k,
                      mean_function="zero" if zero else None), lik

    def params(model, lik):
        return digest({k: v for d in (model.state_dict(), lik.state_dict())
                       for k, v in d.items()})

    def predict(t, model, lik):
        p = m.call("predict", t.predict, model, lik, xs, ys)
        return digest((p.mean.detach().clone(),
                       p.variance.detach().clone()))

    def fit(t, model, lik, k):
        m.call("train", t.train, model, lik, xt, yt, training_iters=k,
               learning_rate=.05)

    model, lik = make()
    for q, v in G.random_params(rng, kind).items():
        if rng.random() < .6:
            setattr(model.covar_module.base_kernel, q, min(max(v, .2), 2.))
    lik.noise = float(rng.choice([.1, .3, 1.]))
    model.covar_module.outputscale = float(rng.choice([.5, 1., 2.]))
    trained = rng.random() < .6
    if trained:
        fit(tr, model, lik, int(rng.integers(1, 6)))
    if rng.random() < .5:
        predict(tr, model, lik)
    p0 = params(model, lik)
    how = int(rng.integers(0, 4))
    t2 = tr
    if how == 0:
        m.seen("state-dict")
        m2, l2 = make()
        m.call("load_state_dict", m2.load_state_dict,
               copy.deepcopy(model.state_dict()))
        m.check(same(params(m2, m2.likelihood), p0), "state-dict",
                "restored parameters", got=params(m2, l2), want=p0)
        for q in G.PARAMS[kind]:
            m.close(getattr(m2.covar_module.base_kernel, q).detach(),
                    getattr(model.covar_module.base_kernel, q).detach(),
                    "state-dict", q)
    elif how == 1:
        k2 = duplicate(m, rng, model.covar_module.base_kernel,
                       kind + " kernel")
        x = torch.arange(n, dtype=torch.float32)
        with torch.no_grad():
            a, b = (k(x).to_dense().numpy() for k in (
                model.covar_module.base_kernel, k2))
        m.close(b, a, "copied-model", "covariance of a copied kernel",
                atol=1e-5 * np.abs(a).max())
        for q in G.PARAMS[kind]:
            setattr(k2, q, 3.25)
        m.check(same(params(model, lik), p0), "other-unchanged",
                "setting the copied kernel's parameters")
        with torch.no_grad():
            # the eigenpairs the copy holds belong to the copy
            for name, t in vars(k2).items():
                if isinstance(t, torch.Tensor) and name[0] != "_":
                    t.fill_(77)
                elif isinstance(t, np.ndarray) and t.flags.writeable:
                    t[...] = 77
            b = model.covar_module.base_kernel(x).to_dense().numpy()
        m.close(b, a, "other-unchanged", "covariance of the original",
                atol=1e-5 * np.abs(a).max())
        return
    elif how == 2:
        m2, l2 = duplicate(m, rng, (model, lik), kind + " model")
    else:
        t2, m2, l2 = duplicate(m, rng, (tr, model, lik), kind + " trainer")
        if trained:
            m.check(t2.model is m2, "copied-identity")
            if kind == "matern":
                a, b = (m.call("parameters", t.get_model_parameters)
                        for t in (tr, t2))
                m.equal(a, b, "copied-model", "reported parameters")
        m.check(same(digest(t2.get_laplacians()), digest(
            tr.get_laplacians())), "same-answer", "laplacians")
    m.check(same(params(m2, l2), p0), "copied-model", "parameters",
            got=params(m2, l2), want=p0)
    order = int(rng.integers(0, 2))
    r = [predict(*x) for x in ((tr, model, lik), (t2, m2, l2))[
        ::1 if order else -1]]
    m.check(same(r[0], r[1], 1e-4), "copied-model", "predictions", got=r[1],
            want=r[0])
    # the copy learns on, the original does not
    k = int(rng.integers(1, 5))
    fit(t2, m2, l2, k)
    p2 = params(m2, l2)
    m.check(not same(p2, p0), "copied-model", "the copy does not learn")
    m.check(same(params(model, lik), p0), "other-unchanged",
            "training the copy changed the original")
    m.check(same(predict(tr, model, lik), r[0], 1e-4), "other-unchanged",
            "predictions of the original after training the copy")
    fit(tr, model, lik, k)
    a = np.concatenate([np.ravel(v[1]) for _, v in params(model, lik)[1]])
    b = np.concatenate([np.ravel(v[1]) for _, v in p2[1]])
    fin = np.isfinite(b)  # bounds of constraints are infinite
    m.check(np.array_equal(np.isfinite(a), fin), "trained-alike")
    m.close(a[fin], b[fin], "trained-alike", f"after {k} more steps", atol=2e-3)
    m.check(same(params(m2, l2), p2), "other-unchanged",
            "training the original changed the copy")


def elsewhere(m, rng, W, scs, idx):
    """Restored in a fresh interpreter."""
    import torch

    sc = scs[0]
    f = np.array(W.flows[0])
    box = {"sc": sc, "f": f, "filters": []}
    for cls in rng.permutation(["LS", "Grid", "Den", "Cheb"])[:2]:
        cls = str(cls)
        flt = c23._filter(cls, sc)
        op = request(rng, W, cls)
        run(m, W, op, cls, flt, sc)
        box["filters"].append(flt)
    if len(f) >= 6 and np.std(f) > 1e-3:
        import gpytorch
        from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
        from pytspl.hogde_gp.kernel_serializer import KernelSerializer

        tr = HodgeGPTrainer(sc=sc, y=f)
        xt, yt, xs, ys = tr.train_test_split(train_ratio=.6)[:4]
        lik = gpytorch.likelihoods.GaussianLikelihood()
        k = KernelSerializer().serialize(
            tr.get_eigenpairs(), str(rng.choice(G.TYPES)), "forex")
        model = ExactGPModel(xt, yt, lik, k)
        m.call("train", tr.train, model, lik, xt, yt, training_iters=2)
        box["model"] = (model, lik, xs.numpy())
    try:
        blob = pickle.dumps(box)
    except Exception as e:
        m.seen("not-picklable")
        m.note(not_picklable=repr(e))
        return
    m.seen("other-process")
    m.nontrivial()
    path = os.path.join(TMP, f"{idx}-{os.getpid()}")
    with open(path, "wb") as fh:
        fh.write(blob)
    repo = os.environ.get("PYTSPL_REPO", "/repo")
    env = dict(os.environ, PYTSPL_REPO=repo, OMP_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.pathsep.join(
                   [os.path.join(common.ROOT, "shims"), common.ROOT]))
    p = subprocess.run([sys.executable, "-W", "ignore",
                        os.path.join(common.ROOT, "mon", "c29_driver.py"),
                        path, path + ".out"], env=env, cwd=TMP,
                       capture_output=True, timeout=300)
    m.check(os.path.exists(path + ".out"), "other-process",
            "the pickled objects could not be opened or used: "
            + p.stderr.decode()[-600:])
    with open(path + ".out", "rb") as fh:
        got = pickle.load(fh)
    os.unlink(path)
    os.unlink(path + ".out")
    want = c29_driver.answers(box)
    m.equal(sorted(got), sorted(want), "other-process")
    for key in want:
        m.check(same(digest(got[key]), digest(want[key]), 1e-4
                     if key in ("mean", "variance") else 1e-9),
                "other-process", f"{key}: a fresh process says otherwise",
                got=got[key], want=want[key])


def case(m, rng, idx):
    os.environ["MPLBACKEND"] = "Agg"
    W, specs, scs = c23.make_world(m, rng, idx % 41 == 7)
    args0 = c23.args_digest(W)
    m.key(*[s.key() for s in specs], idx)
    if idx % 120 == 17:
        elsewhere(m, rng, W, scs, idx)
    else:
        u = rng.random()
        (complexes if u < .38 else filters if u < .7 else models if u < .88
         else plots if u < .94 else builders)(m, rng, W, scs)
    d = c23.args_digest(W)
    d[1].pop()
    args0[1].pop()
    m.check(same(d, args0), "arguments-unchanged")
