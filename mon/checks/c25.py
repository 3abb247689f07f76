"""C25: component masks split the edge spectrum into its three parts."""
import numpy as np

from mon import build, gen, oracles as O
from mon.checks import c23

RULE = ("random complexes (with repeated eigenvalues, with eigenvalues shared "
        "by gradient and curl, without triangles, without cycles) x filter "
        "classes x order of the requests, on one complex and on a twin of "
        "the same shape; counts per eigenvalue are decided by exact ranks "
        "and an independent eigensolver; non-trivial: at least two non-empty "
        "parts whose eigenvalues interleave")
QUICK, THOROUGH = 4000, 60000
REQUIRED = {"call:mask": 20000, "decided:multiplicity": 12000,
            "repeated": 1000, "shared": 150, "no-triangles": 300,
            "no-harmonic": 400, "subclass": 2000}


def decide(m, H, masks, what):
    total = np.zeros(H.m)
    d = dict(zip(("harmonic", "gradient", "curl"), H.dims))
    spec = {p: H.spectrum(p) for p in d}
    lam = np.sort(np.concatenate(list(spec.values())))
    # positions of equal eigenvalues
    cut = [0] + [i for i in range(1, len(lam))
                 if lam[i] - lam[i - 1] > 1e-6] + [len(lam)]
    if any(b - a > 1 for a, b in zip(cut, cut[1:]) if lam[a] > 1e-6):
        m.seen("repeated")
    for p, M in masks.items():
        M = np.asarray(M)
        m.equal(M.shape, (H.m,), "length", f"{what} {p}")
        m.check(np.all((M == 0) | (M == 1)), "zero-one", f"{what} {p}",
                got=M)
        m.equal(int(M.sum()), d[p], "count", f"{what} {p}", mask=M, lam=lam)
        total += M
        for a, b in zip(cut, cut[1:]):
            k = int(np.sum((spec[p] > lam[a] - 4e-7)
                           & (spec[p] < lam[b - 1] + 4e-7))) if b - a else 0
            m.equal(int(M[a:b].sum()), k, "multiplicity",
                    f"{what} {p} at eigenvalue {lam[a]:.6g}", mask=M,
                    spectrum=lam, part=spec[p])
    m.check(np.array_equal(total, np.ones(H.m)), "sum", what, got=masks)
    g, c = spec["gradient"], spec["curl"]
    if len(g) and len(c) and np.min(np.abs(g[:, None] - c[None, :])) < 1e-6:
        m.seen("shared")
    if len(c) == 0:
        m.seen("no-triangles")
    if d["harmonic"] == 0:
        m.seen("no-harmonic")
    return len(g) and len(c) and g.min() < c.max() and c.min() < g.max()


def one(m, rng, H, sc, what, flt=None):
    if flt is None:
        k = str(rng.choice(["LS", "Grid", "Den", "Cheb", "Trend"]))
        m.seen("subclass")
        flt = c23._filter(k, sc)
    order = [str(p) for p in rng.permutation(
        ["harmonic", "gradient", "curl"])]
    masks = {}
    for p in order:
        if rng.random() < .2:
            # a mask the caller has written to is not what is returned next
            M = m.call("mask", flt.get_component_coefficients, p)
            M[...] = 5
        kw = dict(component=p) if rng.random() < .5 else None
        masks[p] = m.call("mask", flt.get_component_coefficients, **kw) \
            if kw else m.call("mask", flt.get_component_coefficients, p)
    return flt, masks, decide(m, H, masks, what)


def prepare(tier):
    c23.prepare(tier)


def case(m, rng, idx):
    # now and then hundreds of edges
    big = idx % 41 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")
    while True:
        sp = gen.spec(rng, min_edges=1, max_edges=1300 if giant else 260 if big else 90,
                      size="g" if giant else "hm" if big else None)
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    m.note(complex=sp.describe())
    m.key(sp.key())
    sc = build.make_sc(m, rng, sp)
    flt, masks, mixed = one(m, rng, H, sc, "first")
    m.nontrivial(bool(mixed))
    if rng.random() < .4 and H.m >= 2:
        f, _ = gen.nonzero_flow(rng, H.m, ["normal"])
        L = int(rng.integers(1, 3))
        from pytspl.filters import GridBasedFilterDesign, LSFilterDesign

        if isinstance(flt, LSFilterDesign):
            m.call("run", flt.general_filter, f=f, L1=L, L2=0)
        elif isinstance(flt, GridBasedFilterDesign):
            m.call("run", flt.denoise, f=f, f_true=f, p_choice="L1", L=L,
                   mu=.5)
    if rng.random() < .5:
        o = gen.twin(rng, sp)
        OH = O.Hodge(o.n, o.edges, o.tris)
        if O.min_nonzero_eig(OH) > 4e-3:
            one(m, rng, OH, build.make_sc(m, rng, o), "twin")
    _, again, _ = one(m, rng, H, sc, "again",
                      flt if rng.random() < .5 else None)
    for p in masks:
        m.check(np.array_equal(masks[p], again[p]), "repeat", p,
                got=again[p], want=masks[p])
