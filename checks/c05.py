"""C05: complex_differentials are the alternating boundary matrices."""
import numpy as np

from vlib import fgens, gens, ref

PROPERTY = "C05"
RULE = (
    "random simplicial complexes with simplices in arbitrary order, arrays "
    "of integers or floats, empty top dimensions, flag complexes, full "
    "simplices up to dimension 6 and nerves; matrices are compared with the "
    "alternating boundary (up to one sign per dimension) and composed; "
    "non-trivial: some 2-simplex; distinct: by number of simplices and prime")
PLAN = {"quick": [("random", 2500), ("full", 150), ("labels", 500)],
        "thorough": [("random", 80000), ("full", 3000), ("labels", 15000)]}
NEED = {"columns": 30000, "compositions": 2000}


def make(kind, rng, i):
    p = gens.prime(rng)
    if kind == "full":
        n = int(rng.integers(3, 8))
        S, _ = set(), 0
        import itertools
        for k in range(1, n + 1):
            S.update(itertools.combinations(range(n), k))
    elif kind == "labels":
        # simplices on few vertices out of many, large labels
        n = int(rng.choice([12, 40, 130, 270, 600]))
        S, m = fgens.random_complex(rng, 9, 4)
        lab = np.sort(rng.choice(n, m, replace=False))
        S = {tuple(int(lab[v]) for v in s) for s in S} | {
            (v,) for v in range(n)}
    else:
        S, n = fgens.random_complex(rng, 10, 5)
    top = max(len(s) for s in S) - 1
    levels = []
    for d in range(1, max(top, 1) + 1):
        lev = sorted(s for s in S if len(s) == d + 1)
        levels.append([list(lev[k]) for k in rng.permutation(len(lev))])
    for _ in range(int(rng.random() < .2)):
        levels.append([])
    return {"n": n, "levels": levels, "p": p,
            "dtype": str(rng.choice(["int", "float", "list"]))}


def observe(case, mon):
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    p, n = case["p"], case["n"]
    C = [n]
    for lev in case["levels"]:
        if case["dtype"] == "list":
            C.append([np.array(s) for s in lev])
        else:
            C.append(np.array(lev, dtype=case["dtype"]))
    D = mon.call(complex_differentials, C, p)
    mon.must(len(D) == len(C), "{} differentials for {} dimensions", len(D),
             len(C))
    mon.must(D[0] == n, "D[0] is {} instead of the number of vertices", D[0])
    levels = [[(v,) for v in range(n)]] + [
        [tuple(s) for s in lev] for lev in case["levels"]]
    for d in range(1, len(C)):
        want = ref.boundary(levels[d], levels[d - 1], p)
        M = np.asarray(D[d])
        mon.must(M.shape == want.shape, "D[{}] has shape {}, not {}", d,
                 M.shape, want.shape)
        mon.must(ref.is_residues(M, p), "D[{}] has entries which are not "
                 "residues mod {}", d, p)
        M = ref.to_int(M).reshape(want.shape)
        mon.must(np.array_equal(M, want) or np.array_equal(M, -want % p),
                 "D[{}] is not the alternating boundary of {}: {}", d,
                 levels[d], M.tolist())
        mon.count("columns", M.shape[1])
        if d > 1 and M.size:
            mon.must(not np.any(ref.matmul(D[d - 1], M, p)),
                     "D[{}] D[{}] is not zero", d - 1, d)
            mon.count("compositions")
    if len(levels) > 2 and levels[2]:
        mon.seen([len(l) for l in levels], p)
