"""C17: pages of the spectral sequence == pages of the double complex."""
import numpy as np

from vlib import gens, ref
from checks import mvcorpus, sscommon as sc

PROPERTY = "C17"
RULE = (
    "create_MV_ss on point clouds in R^1..R^3, many with higher "
    "differentials; at sampled radii the total complex of the cover is built "
    "from the points of the regions and reduced by column, which gives the "
    "dimension of every entry of every page; they are compared with the bars "
    "of Hom alive at that radius (all entries on the first two pages, "
    "entries with n + deg <= max_dim beyond); non-trivial: some entry off "
    "the first column is not zero; distinct: by the dimensions of the pages "
    "from the second on")
ASSUMPTIONS = ["radii are sampled away from all distances",
               "entries above the diagonal max_dim are affected by the "
               "truncation and not compared from the third page on"]
PLAN = {"quick": [("mv", 120), ("mv3", 16), ("strip", 40), ("susp2", 70),
                  ("susp3", 8), ("lune", 12), ("design1", 10),
                  ("design2", 30), ("design3", 10), ("third", 2),
                  ("embed", 12)],
        "thorough": [("mv", 9000), ("mv3", 1200), ("strip", 2500),
                     ("susp2", 3000), ("susp3", 500), ("lune", 800),
                     ("design1", 1000), ("design2", 2000),
                     ("design3", 800), ("third", 100),
                     ("embed", 800)]}
NEED = {"entries": 5000, "second_differentials": 10, "off_column": 100}
CORPUS = mvcorpus.tagged("d", "inf", "extfix")
make = sc.make


def pages_at(nerve, INs, D, t, max_dim, p, limit):
    """{(page, n, deg): dimension} of the filtered total complex."""
    cells = []
    for n, lev in enumerate(nerve):
        for s, I in zip(lev, INs[n]):
            L = sorted(I)
            if not L:
                continue
            sub = ref.rips(D[np.ix_(L, L)], t, max_dim)
            for d, l in enumerate(sub):
                cells += [(n, d, s, tuple(L[v] for v in x)) for x, _ in l]
            if len(cells) > limit:
                return None
    cells.sort(key=lambda c: (c[0], c[1]))
    idx = {(c[2], c[3]): i for i, c in enumerate(cells)}
    low, cols, pair = {}, {}, {}
    for j, (n, d, s, x) in enumerate(cells):
        col = {}
        if d > 0:
            for a in range(d + 1):
                col[idx[s, x[:a] + x[a + 1:]]] = (-1) ** a % p
        if n > 0:
            for a in range(n + 1):
                col[idx[s[:a] + s[a + 1:], x]] = (-1) ** (a + d) % p
        while col:
            l = max(col)
            if l not in low:
                break
            o = cols[low[l]]
            q = -col[l] * pow(o[l], -1, p) % p
            for a, b in o.items():
                v = (col.get(a, 0) + q * b) % p
                if v:
                    col[a] = v
                else:
                    col.pop(a, None)
        if col:
            l = max(col)
            low[l] = j
            cols[j] = col
            pair[l], pair[j] = j, l
    out = {}
    for i, (n, d, s, x) in enumerate(cells):
        gap = abs(cells[pair[i]][0] - n) if i in pair else 10 ** 6
        for page in range(1, min(gap, 30) + 1):
            out[page, n, d] = out.get((page, n, d), 0) + 1
    return out


def observe(case, mon):
    ss = sc.run(case, mon)
    X, max_r, max_dim, _, _, p = gens.args_of(case)
    D = gens.distances(X)
    INs = sc.regions(ss)
    nerve = sc.nerve_simplices(ss)
    pages = ss.no_pages
    P = ss.page_dim_matrix
    for k in range(1, pages):
        for n in range(ss.no_columns):
            for deg in range(max_dim):
                h = ss.Hom[k][n][deg]
                mon.must(P[k + 1][deg][n] == h.dim, "page {} has dimension "
                         "{} at ({}, {}), but {} bars", k + 1,
                         P[k + 1][deg][n], n, deg, h.dim)
                bars = ref.bars_list(h.barcode) if h.dim else []
                mon.must(len(bars) == h.dim and all(a < b for a, b in bars),
                         "bars {} at ({}, {}) on page {}", bars, n, deg, k)
                mon.must(all(b <= max_r for _, b in bars), "bars {} after "
                         "the maximum radius", bars)
    rng = np.random.default_rng(len(X))
    off = False
    for t in sc.radii(case, D, rng, 5):
        want = pages_at(nerve, INs, D, t, max_dim, p, 20000)
        if want is None:
            mon.count("too_large")
            continue
        for k in range(pages):
            for n in range(ss.no_columns):
                for deg in range(max_dim):
                    if k > 1 and n + deg > max_dim:
                        continue
                    w = want.get((k + 1, n, deg), 0)
                    if k == 0:
                        got = sum(sc.alive(ss.Hom[0][n][i][deg], t)
                                  for i in range(len(ss.Hom[0][n])))
                    else:
                        got = sc.alive(ss.Hom[k][n][deg], t)
                    mon.must(got == w, "{} bars alive at {} in entry ({}, "
                             "{}) of page {}, the double complex has {}",
                             got, t, n, deg, k + 1, w)
                    mon.count("entries")
                    if n > 0 and k > 0 and w:
                        mon.count("off_column")
                        off = True
                    if k > 1 and w != want.get((k, n, deg), 0):
                        mon.count("second_differentials" if k == 2
                                  else "later_differentials")
    if off:
        mon.seen(P[2:].tolist() if pages > 1 else [])
