"""C03: representatives computed by classic persistent homology."""
import numpy as np

from vlib import fgens, gens, ref

PROPERTY = "C03"
RULE = (
    "filtered complexes as in C02; at every radius where something changes "
    "the monitor restricts the returned representatives to the subcomplex "
    "and checks, with its own linear algebra, that they are cycles, a basis "
    "of homology modulo boundaries, that Im is a basis of the boundaries, "
    "that D * PreIm = Im and that every chain only uses simplices that are "
    "present at its birth; non-trivial: some homology in dimension >= 1; "
    "distinct: by dimensions, bars, prime")
PLAN = {"quick": [("rips", 1000), ("metric", 800), ("filtered", 2500)],
        "thorough": [("rips", 9000), ("metric", 6000), ("filtered", 30000)]}
NEED = {"radii_checked": 3000, "representatives": 3000, "preimages": 3000}


def make(kind, rng, i):
    return fgens.filtered_case(kind, rng, small=True)


def supported(coord, rows_r, birth):
    """Chain (column) only uses simplices with radius <= birth."""
    nz = np.nonzero(np.asarray(coord))[0]
    return all(rows_r[i] <= birth for i in nz)


def observe(case, mon):
    C, R, D, spx, max_r, p = fgens.build(case, mon, False)
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    Hom, Im, PreIm = mon.call(persistent_homology, D, R, max_r, p)
    L = len(D)
    mon.must(len(Hom) == len(Im) == len(PreIm) == L,
             "lists of length {} {} {} for {} differentials", len(Hom),
             len(Im), len(PreIm), L)
    radii = [[r for _, r in lev] for lev in spx]
    n = [len(lev) for lev in spx]
    bd = [None] + [ref.to_int(np.asarray(D[d])).reshape(n[d - 1], n[d])
                   for d in range(1, L)]
    coords = {}
    for name, group in (("Hom", Hom), ("Im", Im)):
        for d in range(L):
            b = group[d]
            if b.dim == 0:
                coords[name, d] = np.zeros((n[d], 0), dtype=np.int64)
                continue
            X = np.asarray(b.coordinates)
            mon.must(X.shape == (n[d], b.dim) and len(b.barcode) == b.dim,
                     "{}[{}] has coordinates of shape {} for {} simplices and "
                     "{} bars", name, d, X.shape, n[d], b.dim)
            mon.must(ref.is_residues(X, p), "{}[{}] has coordinates which are "
                     "not residues mod {}: {}", name, d, p, X)
            mon.must(ref.is_sorted_standard(b.barcode, 0.),
                     "{}[{}] is not sorted: {}", name, d, b.barcode)
            coords[name, d] = ref.to_int(X)
            for k, bar in enumerate(ref.bars_list(b.barcode)):
                mon.must(supported(X[:, k], radii[d], bar[0]),
                         "{}[{}]: chain {} is born at {} but uses simplices "
                         "with radii {}", name, d, k, bar[0],
                         [radii[d][i] for i in np.nonzero(X[:, k])[0]])
            mon.count("representatives", b.dim)
    # preimages
    for d in range(1, L):
        if Im[d - 1].dim == 0:
            continue
        P = np.asarray(PreIm[d])
        mon.must(P.shape == (n[d], Im[d - 1].dim),
                 "PreIm[{}] has shape {}, expected {}", d, P.shape,
                 (n[d], Im[d - 1].dim))
        mon.must(ref.is_residues(P, p), "PreIm[{}] not residues", d)
        mon.must(np.array_equal(ref.matmul(bd[d], P, p),
                                coords["Im", d - 1] % p),
                 "D[{0}] * PreIm[{0}] differs from Im[{1}]", d, d - 1)
        for k, bar in enumerate(ref.bars_list(Im[d - 1].barcode)):
            mon.must(supported(P[:, k], radii[d], bar[0]),
                     "PreIm[{}]: column {} uses simplices which appear after "
                     "the birth {} of the boundary", d, k, bar[0])
        mon.count("preimages", P.shape[1])
    # bases at every radius
    vals = sorted({r for lev in radii for r in lev})
    last = [b[1] for h in Hom for b in ref.bars_list(h.barcode)
            if b[1] < max_r]
    if len(vals) > 14:
        step = len(vals) / 14.
        vals = sorted({vals[int(step * k)] for k in range(14)} | {vals[-1]}
                      | set(last[:4]))
    for t in vals:
        if t >= max_r:
            continue
        mon.count("radii_checked")
        alive = [[i for i, r in enumerate(lev) if r <= t] for lev in radii]
        for d in range(L):
            a = alive[d]
            hb, ib = ref.bars_list(Hom[d].barcode), ref.bars_list(
                Im[d].barcode)
            H = coords["Hom", d][a][:, ref.active(hb, t)]
            I = coords["Im", d][a][:, ref.active(ib, t)]
            if d > 0:
                dd = bd[d][np.ix_(alive[d - 1], a)] % p
                mon.must(not np.any(ref.matmul(dd, H, p)) if H.size else True,
                         "Hom[{}] has a chain which is no cycle at {}", d, t)
                zdim = len(a) - ref.rank(dd, p)
            else:
                zdim = len(a)
            if d + 1 < L:
                bb = bd[d + 1][np.ix_(a, alive[d + 1])] % p
            else:
                bb = np.zeros((len(a), 0), dtype=np.int64)
            rb = ref.rank(bb, p)
            mon.must(I.shape[1] == rb == ref.rank(I, p)
                     == ref.rank(np.hstack([I, bb]), p),
                     "Im[{}] is not a basis of the boundaries at {}", d, t)
            mon.must(H.shape[1] == zdim - rb,
                     "Hom[{}] has {} classes alive at {}, homology has "
                     "dimension {}", d, H.shape[1], t, zdim - rb)
            mon.must(ref.rank(np.hstack([H, bb]), p) == zdim,
                     "Hom[{}] is not a basis of homology at {}", d, t)
            # classes which have died are boundaries
            G = coords["Hom", d][a][:, [k for k, x in enumerate(hb)
                                        if x[1] <= t]]
            if G.shape[1]:
                mon.must(ref.rank(np.hstack([G, bb]), p) == rb, "some class "
                         "of Hom[{}] that died before {} is no boundary "
                         "there", d, t)
                mon.count("dead_classes", G.shape[1])
    if any(Hom[d].dim for d in range(1, L)):
        mon.seen(n, [h.dim for h in Hom], p)
