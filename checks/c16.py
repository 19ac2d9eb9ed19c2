"""C16: total complex representatives of the classes on the last page."""
import numpy as np

from vlib import gens, ref
from checks import mvcorpus, sscommon as sc

PROPERTY = "C16"
RULE = (
    "create_MV_ss on point clouds in R^1..R^3, many with classes far from "
    "the first column; the representatives (Hom_reps on the last page) on "
    "diagonals below max_dim are checked to be total cycles which live from "
    "the birth of their class, and their components over single cells, "
    "added up on the whole complex, to be a basis of the homology of the "
    "Rips complex at sampled radii; non-trivial: some class off the first "
    "column is alive at a sampled radius; distinct: by the dimensions of "
    "the last page")
ASSUMPTIONS = ["radii are sampled away from all distances"]
PLAN = {"quick": [("mv", 110), ("mv3", 16), ("strip", 40), ("susp2", 60),
                  ("susp3", 8), ("lune", 12), ("design1", 16),
                  ("design2", 40), ("design3", 10), ("third", 2),
                  ("embed", 12)],
        "thorough": [("mv", 9000), ("mv3", 1600), ("strip", 2500),
                     ("susp2", 3000), ("susp3", 500), ("lune", 800),
                     ("design1", 1000), ("design2", 2000),
                     ("design3", 800), ("third", 100),
                     ("embed", 800)]}
NEED = {"zig_zags": 80, "bases": 300, "off_column": 60}
CORPUS = mvcorpus.tagged("d", "inf", "extfix")
make = sc.make


def observe(case, mon):
    ss = sc.run(case, mon)
    X, max_r, max_dim, _, _, p = gens.args_of(case)
    D = gens.distances(X)
    last = ss.no_pages - 1
    if last < 1:
        return
    tol = 1e-9 * max_r
    G = sc.Global(ss, case, D)
    nerve, local = G.nerve, G.local

    def vert(vec, n, d):
        return {k: ref.matmul(ss.zero_diff[n][k][d], v[:, None], p)[:, 0]
                for k, v in vec.items()}

    rad, bd = G.rad, G.bd
    diag = [[] for _ in range(max_dim)]
    for n in range(ss.no_columns):
        for deg in range(max_dim - n):
            hom = ss.Hom[last][n][deg]
            if hom.dim == 0:
                continue
            reps = ss.Hom_reps[last][n][deg]
            bars = ref.bars_list(hom.barcode)
            mon.must(len(reps) >= n + 1, "class at ({}, {}) has {} parts, "
                     "needs {}", n, deg, len(reps), n + 1)
            for i, (b, d_) in enumerate(bars):
                prev = None
                for k in range(n + 1):
                    c, q = n - k, deg + k
                    for idx in range(len(nerve[c])):
                        r = [int(v) for v in reps[k].ref[idx]]
                        mon.must(len(set(r)) == len(r) and all(
                            0 <= v < hom.dim for v in r) and len(r) == len(
                            reps[k].coord[idx]), "references {} for {} "
                            "classes", r, hom.dim)
                    vec = sc.dense(reps[k], len(nerve[c]), None, i, p)
                    for idx, v in vec.items():
                        mon.must(len(v) == len(local(c, idx, q)),
                                 "chain of length {} on {} simplices",
                                 len(v), len(local(c, idx, q)))
                        for j in np.nonzero(v)[0]:
                            s = local(c, idx, q)[j][0]
                            diam = max([D[a, e] for a in s for e in s])
                            mon.must(diam <= b + tol, "representative of "
                                     "the bar {} at ({}, {}) uses {} of "
                                     "diameter {}", bars[i], n, deg, s, diam)
                    dv = vert(vec, c, q) if q > 0 else {}
                    if k > 0:
                        # d_v(this) + cech(previous) == 0
                        for idx, v in cech_of(ss, nerve, local, prev, c + 1,
                                              q - 1, p, mon).items():
                            dv[idx] = (dv.get(idx, 0) + v) % p
                        mon.count("zig_zags")
                    mon.must(not any(np.any(v) for v in dv.values()),
                             "representative of the class {} at ({}, {}) is "
                             "not a cycle of the total complex, part {}",
                             bars[i], n, deg, k)
                    prev = vec
                z = G.push(prev, n + deg)
                if n + deg > 0:
                    mon.must(not ((bd[n + deg] @ z) % p).any(),
                             "class {} at ({}, {}) does not give a cycle of "
                             "the Rips complex", bars[i], n, deg)
                diag[n + deg].append((b, d_, z, n))
    rng = np.random.default_rng(len(X))
    off = False
    for t in sc.radii(case, D, rng, 8):
        for m in range(max_dim):
            zs = [c for c in diag[m] if c[0] <= t < c[1]]
            act = np.nonzero(rad[m] <= t)[0]
            up = np.nonzero(rad[m + 1] <= t)[0]
            B = bd[m + 1][np.ix_(act, up)]
            rb = ref.rank(B, p)
            if m > 0:
                low = np.nonzero(rad[m - 1] <= t)[0]
                rz = len(act) - ref.rank(bd[m][np.ix_(low, act)], p)
            else:
                rz = len(act)
            mon.must(rz - rb == len(zs), "{} classes alive at {} on "
                     "diagonal {}, Betti number {}", len(zs), t, m, rz - rb)
            if zs:
                Z = np.array([c[2] for c in zs]).T
                out = np.ones(len(Z), dtype=bool)
                out[act] = False
                mon.must(not Z[out].any(), "representatives alive at {} use "
                         "later simplices", t)
                both = np.hstack([B, Z[act]])
                mon.must(ref.rank(both, p) == rb + len(zs),
                         "representatives alive at {} on diagonal {} are "
                         "not independent in homology", t, m)
                k = sum(1 for c in zs if c[3] > 0)
                mon.count("off_column", k)
                off = off or k > 0
            mon.count("bases")
    if off:
        mon.seen(ss.page_dim_matrix[-1].tolist())


def cech_of(ss, nerve, local, vec, n, d, p, mon):
    """Cech differential of a chain {region: vector} by the code's method."""
    from permaviss.spectral_sequence.local_chains_class import local_chains
    ch = local_chains(len(nerve[n]))
    for k, v in vec.items():
        ch.add_entry(k, np.array([0]), v[None, :].astype(float))
    im = mon.call(ss.cech_diff, n - 1, d, ch)
    out = {}
    for k in range(len(nerve[n - 1])):
        for row in im.coord[k]:
            out[k] = ref.to_int(row) % p
    return out
