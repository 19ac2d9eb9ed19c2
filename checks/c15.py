"""C15: the double complex behind the spectral sequence (pages 0 and 1)."""
import numpy as np

from vlib import gens, ref
from vlib.core import Violation
from checks import sscommon as sc

PROPERTY = "C15"
RULE = (
    "create_MV_ss on point clouds in R^1..R^3 with covers divided along one, "
    "two and three directions; for every nerve simplex the subcomplex, its "
    "differentials and its barcodes are compared with the Rips complex of "
    "the points of the region; random chains are sent through the Cech "
    "differential (twice) and around the squares of the double complex; "
    "non-trivial: some Cech image is not zero; distinct: by the matrix of "
    "dimensions of the first page")
ASSUMPTIONS = ["endpoints are compared up to 1e-10 * max_r"]
PLAN = {"quick": [("mv", 170), ("mv3", 24), ("strip", 40), ("susp2", 24),
                  ("susp3", 4), ("lune", 2), ("design1", 6),
                  ("design2", 12), ("design3", 3), ("crowd", 8), ("embed", 20)],
        "thorough": [("mv", 9000), ("mv3", 1600), ("strip", 2500),
                     ("susp2", 2000), ("susp3", 500), ("lune", 100),
                     ("design1", 300), ("design2", 600),
                     ("design3", 150), ("crowd", 200), ("embed", 1000)]}
NEED = {"regions": 2000, "cech_twice": 200, "squares": 200,
        "simplices_sent": 300}
make = sc.make


def observe(case, mon):
    ss = sc.run(case, mon)
    X, max_r, max_dim, _, _, p = gens.args_of(case)
    D = gens.distances(X)
    INs = sc.regions(ss)
    nerve = sc.nerve_simplices(ss)
    tol = 1e-10 * max_r
    memo = {}
    spx = {}
    ncol = ss.no_columns
    for n in range(ncol):
        mon.must(len(ss.subcomplexes[n]) == len(nerve[n]) or (
            len(nerve[n]) == 0), "column {} has {} subcomplexes for {} "
            "nerve simplices", n, len(ss.subcomplexes[n]), len(nerve[n]))
        total = [0] * max_dim
        for k in range(len(nerve[n])):
            IN = INs[n][k]
            key = tuple(sorted(IN))
            if key not in memo:
                L = [list(key)[i] for i in range(len(key))]
                lev = ref.rips(D[np.ix_(L, L)], max_r, max_dim) if L else (
                    [[] for _ in range(max_dim + 1)])
                lev = [[(tuple(L[v] for v in s), r) for s, r in l]
                       for l in lev]
                memo[key] = (lev, ref.complex_ph(lev, float(max_r), p))
            lev, bars = memo[key]
            mats = []
            for d in range(max_dim + 1):
                got = sc.local_simplices(ss, n, k, d, IN)
                spx[n, k, d] = got
                names = [s for s, _ in got]
                mon.must(len(names) == len(lev[d]) and set(names) == set(
                    s for s, _ in lev[d]), "region {} {} has the {}-"
                    "simplices {}, but the Rips complex of its points {}",
                    n, k, d, sorted(names), sorted(s for s, _ in lev[d]))
                if d > 0 and names:
                    M = ref.to_int(ss.zero_diff[n][k][d]) % p
                    mon.must(M.shape == (len(spx[n, k, d - 1]), len(names)),
                             "differential of shape {}", M.shape)
                    idx = {s: i for i, (s, _) in enumerate(
                        spx[n, k, d - 1])}
                    for j, s in enumerate(names):
                        want = {idx[s[:a] + s[a + 1:]]
                                for a in range(d + 1)}
                        col = M[:, j]
                        mon.must(set(np.nonzero(col)[0]) == want and all(
                            c in (1, p - 1) for c in col[list(want)]),
                            "boundary of {} in region {} {}", s, n, k)
                    if mats and mats[-1] is not None:
                        mon.must(not ref.matmul(mats[-1], M, p).any(),
                                 "differentials of region {} {} do not "
                                 "compose to zero", n, k)
                    mats.append(M)
                else:
                    mats.append(None)
            for d in range(max_dim):
                h = ss.Hom[0][n][k][d]
                got = ref.bars_list(h.barcode) if h.dim else []
                total[d] += len(got)
                mon.must(ref.same_bars(bars[d], got, tol),
                         "region {} {} has barcodes {} in dimension {}, but "
                         "its Rips filtration {}", n, k, got, d, bars[d])
                if d > 0 and h.dim:
                    mon.must(not ref.matmul(mats[d], h.coordinates, p).any(),
                             "representatives of region {} {} are not "
                             "cycles", n, k)
            mon.count("regions")
        for d in range(max_dim):
            mon.must(ss.page_dim_matrix[1][d][n] == total[d],
                     "first page has dimension {} at ({}, {}) but the "
                     "regions add up to {}", ss.page_dim_matrix[1][d][n], n,
                     d, total[d])
    moved = cech(ss, case, nerve, spx, mon)
    if moved:
        mon.seen(ss.page_dim_matrix[1].tolist())


def cech(ss, case, nerve, spx, mon):
    from permaviss.spectral_sequence.local_chains_class import local_chains
    p, max_dim = case["p"], case["max_dim"]
    rng = np.random.default_rng(len(case["points"]))
    moved = False

    def size(n, k, d):
        return len(spx[n, k, d])

    def vert(chains, n, d):
        out = local_chains(len(nerve[n]))
        for k in range(len(nerve[n])):
            if len(chains.ref[k]) > 0:
                if size(n, k, d - 1) == 0:
                    continue
                out.add_entry(k, chains.ref[k], np.matmul(
                    ss.zero_diff[n][k][d], np.asarray(chains.coord[k]).T
                ).T % p)
        return out

    def table(chains, n, d, exprs):
        """{(expression, region, simplex): coefficient}"""
        out = {}
        for k in range(len(nerve[n])):
            for r, row in zip(chains.ref[k], chains.coord[k]):
                row = ref.to_int(row) % p
                mon.must(len(row) == size(n, k, d), "chain on region {} {} "
                         "has {} entries for {} simplices", n, k, len(row),
                         size(n, k, d))
                for j in np.nonzero(row)[0]:
                    out[int(r), k, int(j)] = int(row[j])
        return out

    def random_chains(n, d, exprs):
        out = local_chains(len(nerve[n]))
        some = False
        for k in range(len(nerve[n])):
            if size(n, k, d) == 0 or rng.random() < .3:
                continue
            refs = np.array(sorted(rng.choice(
                exprs, rng.integers(1, exprs + 1), replace=False)))
            out.add_entry(k, refs, rng.integers(
                0, p, (len(refs), size(n, k, d))).astype(float))
            some = True
        return out if some else None

    for n in range(1, len(nerve)):
        if len(nerve[n]) == 0:
            continue
        for d in range(max_dim):
            ch = random_chains(n, d, 3)
            if ch is None:
                continue
            one = mon.call(ss.cech_diff, n - 1, d, ch)
            if table(one, n - 1, d, 3):
                moved = True
            if n > 1:
                two = mon.call(ss.cech_diff, n - 2, d, one)
                mon.must(not table(two, n - 2, d, 3), "the Cech "
                         "differential from ({}, {}) does not compose to "
                         "zero", n, d)
                mon.count("cech_twice")
            if d > 0:
                a = table(vert(one, n - 1, d), n - 1, d - 1, 3)
                b = table(mon.call(ss.cech_diff, n - 1, d - 1, vert(
                    ch, n, d)), n - 1, d - 1, 3)
                neg = {k: -v % p for k, v in b.items()}
                mon.must(a == neg, "vertical and Cech differentials do not "
                         "anticommute at ({}, {})", n, d)
                mon.count("squares")
            # one simplex goes to itself on each face of the nerve simplex
            ks = [k for k in range(len(nerve[n])) if size(n, k, d)]
            for k in rng.choice(ks, min(2, len(ks)), replace=False):
                k = int(k)
                j = int(rng.integers(size(n, k, d)))
                c = local_chains(len(nerve[n]))
                row = np.zeros((1, size(n, k, d)))
                row[0, j] = 1
                c.add_entry(k, np.array([0]), row)
                im = table(mon.call(ss.cech_diff, n - 1, d, c), n - 1, d, 1)
                s = nerve[n][k]
                got = sorted((nerve[n - 1][kk], spx[n - 1, kk, d][jj][0])
                             for _, kk, jj in im)
                want = sorted((s[:a] + s[a + 1:], spx[n, k, d][j][0])
                              for a in range(len(s)))
                mon.must(got == want and all(
                    v in (1, p - 1) for v in im.values()),
                    "Cech image of {} over {} is {}", spx[n, k, d][j][0], s,
                    im)
                mon.count("simplices_sent")
    return moved
