"""C20: GP data preparation never mixes up or leaks edges and targets."""
import numpy as np

from mon import build, gen, oracles as O

RULE = ("random complexes x targets x ratios x seeds x normalisation, "
        "several splits in a row on one trainer and on a second one; every "
        "returned and stored tensor is compared with the targets by edge "
        "index; non-trivial: at least 5 edges with distinct targets")
QUICK, THOROUGH = 3000, 40000
REQUIRED = {"call:split": 9000, "normalised": 2500, "call:laplacians": 1500,
            "call:eigenpairs": 1500, "seeds-differ": 500,
            "decided:repeat": 2500}


def prepare(tier):
    import torch

    torch.set_num_threads(1)
    import pytspl.hogde_gp  # noqa


def decide(m, tr, y, H, ratio, norm, out, what):
    xt, yt, xs, ys, x, yy = [np.asarray(v.numpy(), float) for v in out]
    n = len(y)
    m.close(x, np.arange(n), "full-index", what)
    ixt, ixs = xt.astype(int), xs.astype(int)
    m.check(np.array_equal(np.sort(np.concatenate([ixt, ixs])),
                           np.arange(n)), "partition", what,
            train=ixt, test=ixs)
    # a product just below a whole number may be taken either way
    m.check(len(xt) in (int(ratio * n), int(np.floor(ratio * n + 1e-9))),
            "proportion", what, got=len(xt), want=ratio * n)
    m.equal((xt.shape, xs.shape), (yt.shape, ys.shape), "lengths", what)
    y32 = np.asarray(y, np.float32).astype(float)
    if not norm:
        m.close(yt, y32[ixt], "train-target", what, atol=0)
        m.close(ys, y32[ixs], "test-target", what, atol=0)
        m.close(yy, y32, "full-target", what, atol=0)
    else:
        m.seen("normalised")
        mu, sd = y32[ixt].mean(), y32[ixt].std(ddof=1)
        tol = 2e-5 * (1 + (np.abs(y32).max() + abs(mu)) / sd)
        m.close(yt, (y32[ixt] - mu) / sd, "train-normalised", what, atol=tol)
        m.close(ys, (y32[ixs] - mu) / sd, "test-normalised", what, atol=tol)
        m.close(yy, (y32 - mu) / sd, "full-normalised", what, atol=tol)
    for name, v in zip(("x_train", "y_train", "x_test", "y_test"), out):
        m.check(np.array_equal(getattr(tr, name).numpy(), v.numpy()),
                "stored", f"{what} {name}")
    m.check(all(str(v.dtype) == "torch.float32" for v in out), "dtype", what)


def operators(m, rng, tr, H):
    B2 = None
    b1, b2 = m.call("incidence", tr.get_incidence_matrices)
    m.close(b1, H.B1, "B1", atol=0)
    g = b2.numpy()
    s = O.align_b2(g, H.B2)
    m.check(s is not None, "B2", "not the complex's boundary", got=g,
            want=H.B2)
    for got, want, nm in zip(m.call("laplacians", tr.get_laplacians),
                             (H.L1, H.L1l, H.L1u), ("L1", "L1_down",
                                                    "L1_up")):
        m.close(got, want, "laplacian", nm, atol=0)
    ep = [e.numpy().astype(float) for e in m.call("eigenpairs",
                                                  tr.get_eigenpairs)]
    m.equal(len(ep), 6, "eigenpairs-number")
    for i, part in enumerate(("harmonic", "gradient", "curl")):
        V, w = ep[i], ep[i + 3]
        m.close(np.sort(w), H.spectrum(part), "eigenvalues", part, atol=1e-3)
        m.close(V @ V.T, H.P(part), "eigenvectors", part, atol=1e-3)
        m.close(H.L1 @ V, V * w, "eigenpairs", part, atol=2e-3)


def case(m, rng, idx):
    from pytspl.hogde_gp import HodgeGPTrainer
    # now and then hundreds of edges
    big = idx % 41 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")

    while True:
        sp = gen.spec(rng, min_edges=270 if idx % 2 and big else 3,
                      max_edges=1300 if giant else (400 if idx % 2 else 260) if big else 60,
                      size="g" if giant else "hm" if big else None)
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    trs, ysx = [], []
    m.note(complex=sp.describe())
    for _ in range(2):
        sc = build.make_sc(m, rng, sp)
        k = int(rng.integers(0, 4))
        y = rng.standard_normal(H.m) if k else rng.permutation(H.m)
        if k == 2:
            y = y * 50 + 7
            if rng.random() < .3:  # however small or large they are
                y = y * 10.0 ** rng.integers(-9, 9)
        if k == 3:
            y = (np.arange(H.m) * 1.5 - 3).astype(np.float32)
        ysx.append(y)
        trs.append(HodgeGPTrainer(sc=sc, y=y))
    copies = [y.copy() for y in ysx]
    m.nontrivial(H.m >= 5)
    if rng.random() < .7:
        operators(m, rng, trs[0], H)
    st = np.random.get_state()[1].copy()
    seen = {}
    for step in range(int(rng.integers(3, 7))):
        i = int(rng.integers(0, 2))
        lo, hi = 1.01 / H.m, 1 - .51 / H.m
        norm = bool(rng.random() < .4)
        if norm:
            lo = 2.01 / H.m
        k = int(rng.integers(0, 4))
        ratio = float(np.clip(
            [int(rng.integers(1, 10)) / 10, int(rng.integers(1, 20)) / 20,
             int(rng.integers(1, H.m)) / H.m, rng.random()][k], lo, hi))
        if int(ratio * H.m) >= H.m or int(ratio * H.m) < (2 if norm else 1):
            continue
        kw = dict(train_ratio=ratio)
        if norm:
            kw["data_normalization"] = True
        seed = int(rng.choice([4, 0, 1, 7, int(rng.integers(0, 2 ** 31))]))
        if seed != 4 or rng.random() < .3:
            kw["seed"] = seed
        if rng.random() < .3:
            np.random.seed(int(rng.integers(0, 99)))
            st = np.random.get_state()[1].copy()
        m.note(request=kw, targets=ysx[i])
        m.key(sp.key(), ratio, seed, norm, ysx[i].tobytes())
        out = m.call("split", trs[i].train_test_split, **kw)
        decide(m, trs[i], copies[i], H, ratio, norm, out, f"step {step} {kw}")
        m.check(np.array_equal(st, np.random.get_state()[1]),
                "generator-untouched")
        vals = [v.numpy().copy() for v in out]
        ky = (i, ratio, seed, norm)
        if rng.random() < .5 or ky in seen:
            again = seen.get(ky)
            if again is None:
                again = [v.numpy().copy() for v in m.call(
                    "split", trs[i].train_test_split, **kw)]
            m.check(all(np.array_equal(a, b) for a, b in zip(vals, again)),
                    "repeat", f"{kw} gives two different splits")
        seen[ky] = vals
        if rng.random() < .2:
            # the same edges are chosen whatever the targets
            o2 = m.call("split", trs[1 - i].train_test_split, **kw)
            m.check(np.array_equal(o2[0].numpy(), vals[0]), "same-edges",
                    f"{kw}")
            decide(m, trs[1 - i], copies[1 - i], H, ratio, norm, o2, "other")
    if H.m >= 12:
        cs = {tuple(m.call("split", trs[0].train_test_split, train_ratio=.5,
                           seed=s)[0].numpy()) for s in range(4)}
        m.seen("seeds-differ")
        m.check(len(cs) > 1, "seed-ignored", "four seeds give one split")
    for y, c in zip(ysx, copies):
        m.check(np.array_equal(y, c) and y.dtype == c.dtype,
                "targets-unchanged", got=y, want=c)
    # normalisation itself
    import torch
    a, b, c = (torch.tensor(rng.standard_normal(int(rng.integers(2, 9))) * 3
                            + 1, dtype=torch.float32) for _ in range(3))
    a0, b0, c0 = a.clone(), b.clone(), c.clone()
    out = m.call("normalize", trs[0].normalize_data, a, b, c)
    mu, sd = a.double().mean(), a.double().std()
    for got, v in zip(out, (a, b, c)):
        m.close(got, (v.double() - mu) / sd, "normalize", rtol=1e-3,
                atol=1e-4 * (1 + float((abs(mu) + v.abs().max()) / sd)))
    m.check(all(torch.equal(x, y) for x, y in zip((a, b, c), (a0, b0, c0))),
            "normalize-input-unchanged")
