"""C06: column reduction of a matrix mod p."""
import numpy as np

from vlib import gens, pgens, ref

PROPERTY = "C06"
RULE = (
    "random matrices (dense, sparse, low rank, with negative and unreduced "
    "entries, integer and float dtype, boundary matrices of complexes, zero "
    "and repeated columns, wide and tall) and primes up to 10007; the "
    "returned pair is multiplied out with independent arithmetic; "
    "non-trivial: rank >= 1 and some dependent column; distinct: by shape, "
    "prime and rank")
PLAN = {"quick": [("small", 30000), ("medium", 3000), ("boundary", 1500),
                  ("binary", 10000), ("large", 40)],
        "thorough": [("small", 200000), ("medium", 20000),
                     ("boundary", 8000), ("binary", 40000), ("large", 1000)]}
NEED = {"columns_reduced": 20000, "dependent_columns": 3000}


def make(kind, rng, i):
    if kind == "small":
        return pgens.matrix_case(rng)
    if kind == "large":
        return pgens.matrix_case(rng, 90, 90)
    if kind == "medium":
        c = pgens.matrix_case(rng, 30, 30)
        return c
    if kind == "binary":
        p = gens.prime(rng, .1)
        m, n = int(rng.integers(1, 12)), int(rng.integers(1, 14))
        M = rng.integers(0, 2, (m, n)) * rng.choice([1, p - 1], (m, n))
        if rng.random() < .5:
            # repeated and zero columns
            M = M[:, rng.integers(0, n, n)]
            M[:, rng.random(n) < .2] = 0
        return {"M": M.tolist(), "p": p, "kind": kind,
                "dtype": str(rng.choice(["int64", "float64"]))}
    n = int(rng.integers(3, 9))
    import itertools
    S = [s for s in itertools.combinations(range(n), 3)
         if rng.random() < .7]
    F = list(itertools.combinations(range(n), 2))
    if not S:
        S = [(0, 1, 2)]
    p = gens.prime(rng)
    M = ref.boundary(S, F, p)
    return {"M": M[rng.permutation(len(F))].tolist(), "p": p, "kind": kind,
            "dtype": "float64"}


def observe(case, mon):
    from permaviss.gauss_mod_p.gauss_mod_p import gauss_col, index_pivot
    p = case["p"]
    A = np.array(case["M"], dtype=case["dtype"])
    keep = A.copy()
    R, T = mon.call(gauss_col, A, p)
    m, n = A.shape
    mon.must(np.array_equal(A, keep) and A.dtype == keep.dtype,
             "the given matrix was changed")
    mon.must(np.shape(R) == (m, n) and np.shape(T) == (n, n),
             "shapes {} {} for a matrix {}", np.shape(R), np.shape(T),
             (m, n))
    mon.must(ref.is_residues(R, p), "R has entries out of 0..{}: {}", p - 1,
             np.asarray(R).tolist())
    mon.must(ref.is_residues(T, p), "T has entries out of 0..{}: {}", p - 1,
             np.asarray(T).tolist())
    Ti, Ri = ref.to_int(T), ref.to_int(R)
    mon.must(np.array_equal(ref.matmul(keep, Ti, p), Ri),
             "A T != R (mod {}) for A = {}", p, case["M"])
    mon.must(not np.any(np.tril(Ti, -1)) and np.all(np.diag(Ti) == 1),
             "T is not unit upper triangular: {}", Ti.tolist())
    piv = [int(np.nonzero(c)[0][-1]) for c in Ri.T if np.any(c)]
    mon.must(len(set(piv)) == len(piv), "pivots {} are repeated in {}", piv,
             Ri.tolist())
    rk = ref.rank(ref.to_int(keep) % p, p)
    mon.must(len(piv) == rk, "{} nonzero columns, the rank is {}", len(piv),
             rk)
    for c in Ri.T:
        want = int(np.nonzero(c)[0][-1]) if np.any(c) else -1
        mon.must(mon.call(index_pivot, c) == want, "index_pivot({}) is not "
                 "{}", c, want)
    mon.count("columns_reduced", n)
    mon.count("dependent_columns", n - rk)
    if 0 < rk < n:
        mon.seen(m, n, p, rk)
