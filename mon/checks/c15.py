"""C15: least-squares filters are best polynomial fits."""
import numpy as np

from mon import build, filters_ref as F, gen, oracles as O

RULE = ("random complexes x components x filter sizes; every filter size's "
        "recorded response, error and the final filter compared with an "
        "independent least-squares fit in a Chebyshev basis over the exact "
        "spectrum; fits whose monomial system is ill-conditioned (1e12) are "
        "skipped, and sizes up to 40 are held to commuting with their "
        "Laplacian and to fitting no worse than the zero filter; non-trivial: filter size of at least 2 and at least 3 "
        "distinct eigenvalues")
QUICK, THOROUGH = 2500, 30000
REQUIRED = {"call:type_one": 800, "call:type_two": 800, "exact": 250,
            "decided:fit": 1500, "no-zero-eigenvalue": 40,
            "repeated-eigenvalues": 100, "counted-as-zero": 100,
            "decided:general": 300, "decided:long-fit": 150,
            "decided:long-commutes": 200}
ASSUMPTIONS = ["spectra with eigenvalue gaps between 1e-9 and 4x the merging "
               "tolerance, or conditioning above 1e12, are not judged"]


def decide(m, flt, H, P, grid, target, L, f, part, what, whole=True):
    lam, V = np.linalg.eigh(P)
    lam[np.abs(lam) < 1e-9] = 0
    h = flt.history
    true = H.split(f)[part]
    er = np.asarray(h["extracted_component_error"])
    fr = np.asarray(h["frequency_responses"])
    m.equal((er.shape, fr.shape), ((L,), (L, H.m)), "history-shapes")
    s = np.linalg.norm(f)
    for l in range(1, L + 1):
        r = F.polyfit_values(grid, target, l, lam)
        if r is None or r[1] > 1e-4:
            m.seen("ill-conditioned")
            continue
        val, tol = r
        m.close(fr[l - 1], val, "fit", f"{what} {part} size {l}",
                atol=10 * tol, spectrum=grid)
        Hl = (V * val) @ V.T
        want = F.nrmse(Hl @ f, true)
        m.close(er[l - 1], want, "error", f"{what} {part} size {l}",
                atol=20 * tol * s / np.linalg.norm(true), rtol=1e-7)
        if l == L:
            m.close(h["filter"], Hl, "filter", f"{what} {part} size {l}",
                    atol=20 * tol)
            m.close(h["f_estimated"], Hl @ f, "estimate",
                    f"{what} {part}", atol=20 * tol * s)
            n = len(F.distinct(grid, 1e-9))
            if l >= n and whole and not (what == "type_one"
                                         and F.shared(H)):
                m.seen("exact")
                m.close(h["f_estimated"], true, "exact-component",
                        f"{what} {part}", atol=20 * tol * s)
                m.close(h["filter"], H.P(part), "projector",
                        f"{what} {part}", atol=20 * tol)


def case(m, rng, idx):
    from pytspl.filters import LSFilterDesign
    # now and then hundreds of edges
    big = idx % 41 == 7
    giant = idx % 601 == 300
    if giant:
        m.seen("giant")

    fam = None
    if idx % 7 == 0:
        # trees and odd cycles: the lower Laplacian is invertible
        fam = str(rng.choice(["tree", "star", "path"]))
    elif idx % 11 == 3:
        fam = "barbell"
    elif idx % 5 == 0:
        fam = str(rng.choice(["complete", "surface", "torus", "wheel"]))
    while True:
        sp = gen.spec(rng, min_edges=1, max_edges=(1300 if idx == 300 else 750) if giant else 260 if big else 60,
                      family=fam,
                      size="g" if giant else "hm" if big else str(rng.choice(["s", "m"])))
        H = O.Hodge(sp.n, sp.edges, sp.tris)
        if O.min_nonzero_eig(H) > 4e-3:
            break
    sc = build.make_sc(m, rng, sp)
    f, _ = gen.nonzero_flow(rng, H.m, ["normal", "int", "mixed", "view"])
    f = gen.unit(rng, f)
    m.note(complex=sp.describe(), flow=f)
    flt = LSFilterDesign(sc)
    s = np.linalg.norm(f)
    parts = [p for p in ("gradient", "curl", "harmonic")
             if np.linalg.norm(H.split(f)[p]) > 1e-3 * s]
    for k in range(2):
        part = str(rng.choice(parts))
        L = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 11]))
        two = part != "harmonic" and rng.random() < .6
        m.key(sp.key(), f.tobytes(), part, L, two)
        if two:
            M = (H.L1l if part == "gradient" else H.L1u).astype(float)
            lam = np.linalg.eigvalsh(M)
            lam[np.abs(lam) < 1e-9] = 0
            tol = choose_tol(rng, lam, [1e-6, 1e-6, 1e-4, 1e-8])
            grid = F.design_grid(lam, tol)
            if grid is None:
                continue
            small = np.any((lam > 0) & (lam < tol))
            if small:
                m.seen("counted-as-zero")
            if grid[0] > 0:
                m.seen("no-zero-eigenvalue")
            if len(grid) < len(lam) - np.sum(lam == 0) + 1:
                m.seen("repeated-eigenvalues")
            n = len(grid)
            if rng.random() < .4 and n <= 9:
                L = n + int(rng.integers(0, 2)) * (rng.random() < .3)
            kw = {} if tol == 1e-6 and rng.random() < .5 else \
                dict(tolerance=tol)
            m.call("type_two", flt.subcomponent_extraction_type_two, f=f,
                   component=part, L=gen.whole(rng, L), **kw)
            decide2(m, flt, H, M, grid, (grid > 0).astype(float), L, f, part,
                    "type_two", not small)
        else:
            M = H.L1.astype(float)
            lam = np.concatenate([H.spectrum(p) for p in
                                  ("harmonic", "gradient", "curl")])
            tgt = np.concatenate([np.full(d, float(p == part)) for p, d in
                                  zip(("harmonic", "gradient", "curl"),
                                      H.dims)])
            n = len(F.distinct(lam, 1e-9))
            if rng.random() < .4 and n <= 9:
                L = n
            m.call("type_one", flt.subcomponent_extraction_type_one, f=f,
                   component=part, L=gen.whole(rng, L))
            decide2(m, flt, H, M, lam, tgt, L, f, part, "type_one")
        m.nontrivial(L >= 2 and n >= 3)
    if idx % 6 == 1 and H.m <= 60:
        long(m, rng, sp, H, flt, f)
    # the general filter on spectra clear of its tolerance
    if rng.random() < .5:
        ll, lu = (np.linalg.eigvalsh(x.astype(float))
                  for x in (H.L1l, H.L1u))
        ll[np.abs(ll) < 1e-9] = 0
        lu[np.abs(lu) < 1e-9] = 0
        tol = choose_tol(rng, ll if rng.random() < .5 else lu,
                         [1e-3, 1e-3, 1e-6, 1e-8])
        gl, gu = F.design_grid(ll, tol), F.design_grid(lu, tol)
        if gl is not None and gu is not None:
            if any(np.any((x > 0) & (x < tol)) for x in (ll, lu)):
                m.seen("counted-as-zero")
            L1, L2 = int(rng.integers(0, 6)), int(rng.integers(0, 6))
            kw = {} if tol == 1e-3 and rng.random() < .6 else \
                dict(tolerance=tol)
            m.note(general=(L1, L2, kw))
            h, c, g = m.call("general_filter", flt.general_filter, f, L1, L2,
                             **kw)
            for est, grid, M, L, part in ((g, gl, H.L1l, L1, "gradient"),
                                          (c, gu, H.L1u, L2, "curl")):
                if L == 0:
                    m.check(not np.any(est), "general-empty", part, got=est)
                    continue
                w, V = np.linalg.eigh(M.astype(float))
                w[np.abs(w) < 1e-9] = 0
                r = F.polyfit_values(grid, (grid > 0).astype(float), L, w)
                if r and r[1] < 1e-4:
                    m.seen("decided:general")
                    m.close(est, V @ (r[0] * (V.T @ f)), "general-estimate",
                            part, atol=20 * r[1] * s)
            m.close(h + c + g, f, "general-sum", atol=1e-9 * s)


def long(m, rng, sp, H, flt, f):
    """Sizes whose coefficients no longer can be told: no fit is further from
    its target than the zero filter, and every filter is a polynomial of its
    Laplacian."""
    m.seen("long")
    part = str(rng.choice([p for p, d in zip(
        ("harmonic", "gradient", "curl"), H.dims) if d]))
    L = int(rng.integers(12, 41))
    m.note(long=(part, L))
    m.key(sp.key(), "long", part, L)
    two = part != "harmonic" and rng.random() < .5
    if two:
        m.call("type_two", flt.subcomponent_extraction_type_two, f=f,
               component=part, L=L)
        M = (H.L1l if part == "gradient" else H.L1u).astype(float)
        lam = np.linalg.eigvalsh(M)
        lam[np.abs(lam) < 1e-9] = 0
        grid = F.design_grid(lam, 1e-6)
        pick = mask = None
        if grid is not None and not np.any((lam > 0) & (lam < 1e-6)):
            pick = np.argmin(np.abs(grid[:, None] - lam[None]), axis=1)
            mask = (grid > 0).astype(float)
    else:
        m.call("type_one", flt.subcomponent_extraction_type_one, f=f,
               component=part, L=L)
        M = H.L1.astype(float)
        lam = np.concatenate([H.spectrum(p) for p in
                              ("harmonic", "gradient", "curl")])
        mask = np.concatenate([np.full(d, float(p == part)) for p, d in
                               zip(("harmonic", "gradient", "curl"), H.dims)])
        mask = mask[np.argsort(lam, kind="stable")]
        pick = None if F.shared(H) else np.arange(H.m)
    h = flt.history
    fr = np.asarray(h["frequency_responses"])
    Hf = np.asarray(h["filter"], float)
    m.equal((fr.shape, Hf.shape), ((L, H.m), (H.m, H.m)), "history-shapes")
    s = np.abs(Hf).max() + 1
    m.close(Hf @ M, M @ Hf, "long-commutes", f"{part} size {L}",
            atol=.02 * s * max(np.abs(M).max(), 1))
    m.close(h["f_estimated"], Hf @ f, "long-estimate", f"{part} size {L}",
            atol=1e-9 * s * H.m * np.linalg.norm(f))
    if pick is not None:
        d = np.linalg.norm(fr[:, pick] - mask, axis=1)
        n = np.linalg.norm(mask)
        k = int(np.argmax(d))
        # where the solver starts to cut off singular values, rounding is
        # amplified to a few times 1/max(rows, columns) of the target
        m.check(d[k] <= (1.05 + 60 / max(H.m, L)) * n, "long-fit", f"{part}: size {k + 1} is "
                "further from the target than the zero filter", got=d, want=n)


def choose_tol(rng, lam, usual):
    """A merging tolerance; now and then one above the smallest nonzero
    eigenvalues, where the spectrum leaves room for it."""
    if rng.random() < .5:
        pos = F.distinct(lam[lam > 0], 1e-9)
        ok = [t for t in np.r_[1.3, 1.6, 2.5] * pos[0]
              if F.design_grid(lam, t) is not None] if len(pos) > 1 else []
        for a in (pos[1:4] / 4.2 if len(pos) > 1 else []):
            if F.design_grid(lam, a) is not None:
                ok.append(a)
        if ok:
            return float(ok[int(rng.integers(0, len(ok)))])
    return float(rng.choice(usual))


def decide2(m, flt, H, M, grid, target, L, f, part, what, whole=True):
    if np.any(M):
        decide(m, flt, H, M, grid, target, L, f, part, what, whole)
    else:
        m.close(flt.history["f_estimated"], H.split(f)[part], "zero-operator",
                atol=1e-9 * np.linalg.norm(f)) if what == "type_two" else None
