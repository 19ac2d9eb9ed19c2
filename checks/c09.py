"""C09: generators of image and kernel of a persistence morphism."""
import numpy as np

from vlib import gens, pgens, ref
from checks import ikcommon, c08

PROPERTY = "C09"
RULE = (
    "morphisms as in C08; at every radius the coordinates of the bars which "
    "are alive must be a basis of image and kernel of the matrix restricted "
    "to the generators alive there, and F maps the preimage of every bar to "
    "its coordinates at its birth; non-trivial: nonzero image and kernel; "
    "distinct: by shapes, number of bars and prime")
PLAN = {"quick": [("small", 18000), ("medium", 4000), ("large", 400), ("huge", 60)],
        "thorough": [("small", 100000), ("medium", 24000), ("large", 2500), ("huge", 300)]}
NEED = {"radii_checked": 10000, "preimages": 3000}
CORPUS = c08.CORPUS


def make(kind, rng, i):
    return c08.make(kind, rng, i)


def observe(case, mon):
    a, b, A, B, F, Im, Ker, PreIm = ikcommon.call(case, mon)
    p = case["p"]
    Fi = np.rint(F.astype(float)).astype(np.int64)
    shapes = (("image", Im, b, len(B)), ("kernel", Ker, a, len(A)))
    co = []
    for name, G, basis, n in shapes:
        bars = ref.bars_list(G.barcode)
        if not bars:
            co.append((bars, np.zeros((n, 0), dtype=np.int64)))
            continue
        X = np.asarray(G.coordinates)
        mon.must(X.shape == (n, len(bars)), "coordinates of the {} have "
                 "shape {}, expected {}", name, X.shape, (n, len(bars)))
        mon.must(G.prev_basis is basis, "the {} is not given in the basis "
                 "which was passed", name)
        mon.must(ref.is_residues(np.asarray(X) % p, p),
                 "coordinates of the {} are not integers: {}", name, X)
        co.append((bars, ref.to_int(X)))
    (ib, I), (kb, K) = co
    P = np.asarray(PreIm)
    if ib:
        mon.must(P.shape == (len(A), len(ib)), "preimages have shape {}, "
                 "expected {}", P.shape, (len(A), len(ib)))
        mon.must(ref.is_residues(P % p, p), "preimages are not integers")
        P = ref.to_int(P)
    for j, bar in enumerate(ib):
        al, rows = ref.active(A, bar[0]), ref.active(B, bar[0])
        lhs = Fi[np.ix_(rows, al)] @ P[al, j] % p
        mon.must(np.array_equal(lhs, I[rows, j] % p), "bar {}: F maps the "
                 "preimage {} to {}, but the coordinates are {}", bar,
                 P[:, j], lhs, I[rows, j])
        born = [i for i in np.nonzero(P[:, j] % p)[0] if A[i][0] > bar[0]]
        mon.must(not born, "preimage of {} uses generators {} which are not "
                 "born yet", bar, born)
        mon.count("preimages")
    for t in pgens.endpoints(A, B)[:-1]:
        mon.count("radii_checked")
        al, rows = ref.active(A, t), ref.active(B, t)
        f = pgens.sub(Fi, rows, al)
        rk = ref.rank(f, p)
        J = pgens.sub(I, rows, ref.active(ib, t))
        mon.must(J.shape[1] == rk == ref.rank(J, p)
                 == ref.rank(np.hstack([J, f]), p),
                 "bars alive at {} are not a basis of the image: {} "
                 "generators, rank {}, rank of the map {}", t, J.shape[1],
                 ref.rank(J, p), rk)
        N = pgens.sub(K, al, ref.active(kb, t))
        mon.must(N.shape[1] == len(al) - rk == ref.rank(N, p),
                 "bars alive at {} are not a basis of the kernel: {} "
                 "generators of rank {}, dimension {}", t, N.shape[1],
                 ref.rank(N, p), len(al) - rk)
        if N.size and f.size:
            mon.must(not np.any(f @ N % p), "generators of the kernel alive "
                     "at {} do not map to zero", t)
        # generators which have died are zero
        for name, bars, X, rws in (("image", ib, I, rows),
                                   ("kernel", kb, K, al)):
            dead = [k for k, x in enumerate(bars) if x[1] <= t]
            mon.must(not np.any(X[rws][:, dead] % p), "some generator of "
                     "the {} which has died is not zero at {}", name, t)
            mon.count("dead_generators", len(dead))
    if ib and kb:
        mon.seen(len(A), len(B), len(ib), len(kb), p)
