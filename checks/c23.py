"""C23: extension coefficients tell what dying classes continue as."""
import numpy as np

from vlib import gens, ref
from checks import mvcorpus, sscommon as sc

PROPERTY = "C23"
RULE = (
    "create_MV_ss on clouds with classes off the first column which die on "
    "the last page before max_r; at the radius of its death the "
    "representative of such a class, minus the combination of "
    "representatives given by the extension matrices, has to be a boundary "
    "of the global Rips complex at that radius; coefficients may only point "
    "to classes alive then; non-trivial: a coefficient which is not zero; "
    "distinct: by position, number of coefficients and prime")
ASSUMPTIONS = ["representatives are taken from Hom_reps (see C16)"]
PLAN = {"quick": [("loops", 260), ("strip", 110), ("susp2", 30),
                  ("susp3", 4), ("lune", 18), ("design1", 30),
                  ("design2", 50), ("design3", 10)],
        "thorough": [("loops", 12000), ("strip", 6000), ("susp2", 2500),
                     ("susp3", 500), ("lune", 1500),
                     ("design1", 2000), ("design2", 3000),
                     ("design3", 800)]}
NEED = {"deaths_checked": 40, "coefficients": 25}
CORPUS = mvcorpus.tagged("ext", "hand")


def make(kind, rng, i):
    if kind == "loops":
        return gens.mv_case(rng, budget=1.5, dims=(2, 2, 2, 3), families=[
            "loops", "polygon", "uniform", "lattice"], max_dims=(2, 2, 3),
            divs=[2, 2, 3], nmax=30)
    return sc.make(kind, rng, i)


def observe(case, mon):
    ss = sc.run(case, mon)
    X, max_r, max_dim, _, _, p = gens.args_of(case)
    last = ss.no_pages - 1
    if last < 1:
        return
    todo = []
    for n in range(1, ss.no_columns):
        for deg in range(max_dim - n):
            if ss.Hom[last][n][deg].dim == 0:
                continue
            mon.must(len(ss.extensions[n][deg]) >= n + 1, "{} extension "
                     "matrices at ({}, {})", len(ss.extensions[n][deg]), n,
                     deg)
            todo.append((n, deg))
    if not todo:
        return
    D = gens.distances(X)
    G = sc.Global(ss, case, D)

    def rep(n, deg, i):
        ch = ss.Hom_reps[last][n][deg][n]
        return G.push(sc.dense(ch, len(G.nerve[0]), None, i, p), n + deg)

    for n, deg in todo:
        m = n + deg
        bars = ref.bars_list(ss.Hom[last][n][deg].barcode)
        for i, (b, d) in enumerate(bars):
            z, used = np.zeros(len(G.glob[m]), dtype=np.int64), []
            for k in range(n + 1):
                E = np.asarray(ss.extensions[n][deg][k])
                low = ss.Hom[last][n - k][deg + k]
                if low.dim == 0:
                    continue
                mon.must(E.shape == (low.dim, len(bars)), "extension matrix "
                         "of shape {} from {} to {} classes", E.shape,
                         len(bars), low.dim)
                col = ref.to_int(E[:, i]) % p
                for j in np.nonzero(col)[0]:
                    lb = ref.bars_list(low.barcode)[j]
                    mon.must(lb[0] <= d < lb[1], "class at ({}, {}) dies at "
                             "{}, and continues as a class with bar {}", n,
                             deg, d, lb)
                    z = (z + int(col[j]) * rep(n - k, deg + k, int(j))) % p
                    used.append((k, int(j)))
            if d >= max_r:
                mon.must(not used, "class at ({}, {}) never dies, and has "
                         "extension coefficients", n, deg)
                continue
            w = (rep(n, deg, i) - z) % p
            up = np.nonzero(G.rad[m + 1] <= d * (1 + 1e-9))[0]
            act = np.nonzero(G.rad[m] <= d * (1 + 1e-9))[0]
            B = G.bd[m + 1][np.ix_(act, up)]
            out = np.ones(len(w), dtype=bool)
            out[act] = False
            mon.must(not w[out].any(), "class {} at ({}, {}) uses simplices "
                     "which come after its death", (b, d), n, deg)
            mon.must(not w.any() or ref.solvable(B, w[act], p),
                     "class {} at ({}, {}) is not the given combination {} "
                     "at its death", (b, d), n, deg, used)
            mon.count("deaths_checked")
            mon.count("coefficients", len(used))
            if used:
                mon.seen(n, deg, sorted(used), p, len(X))
