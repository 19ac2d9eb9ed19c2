"""C07: arithmetic and linear equations mod p."""
import contextlib
import io

import numpy as np

from vlib import gens, pgens, ref
from vlib.core import Violation

PROPERTY = "C07"
RULE = (
    "inverses of all residues of many primes, of negative and unreduced "
    "numbers, of multiples of p and modulo composite numbers; sums and "
    "products of random matrices; linear systems with and without solutions "
    "(one and several right hand sides); answers are multiplied back with "
    "independent arithmetic, errors must appear exactly if the reference "
    "finds no solution; non-trivial: every inverse and every system with a "
    "nonzero right hand side; distinct: by prime, shape, solvability")
PLAN = {"quick": [("inverse", 1200), ("add", 2000), ("solve", 24000),
                  ("matrix", 14000), ("product", 5000), ("big", 150)],
        "thorough": [("inverse", 8000), ("add", 10000), ("solve", 150000),
                     ("matrix", 90000), ("product", 30000),
                     ("big", 3000)]}
NEED = {"inverses": 5000, "no_inverse": 200, "composite": 50, "solved": 2000,
        "no_solution": 500}
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61,
          67, 71, 73, 79, 83, 89, 97, 101, 127, 251, 257, 509, 1009, 2003,
          4099, 10007, 65537, 999983]


def make(kind, rng, i):
    if kind == "inverse":
        p = int(PRIMES[i % len(PRIMES)])
        a = rng.integers(-5 * p, 5 * p, 40).tolist()
        if p < 60:
            a += list(range(p))
        return {"kind": kind, "p": p, "a": a + [0, p, -p, 1, p - 1, -1],
                "type": ["int", "float", "int64", "float64"][i % 4],
                "comp": [[int(rng.integers(2, 12)) * int(x), int(q)]
                         for q, x in [(4, 2), (6, 2), (6, 3), (9, 3),
                                      (15, 5), (49, 7), (21, 3)]]}
    if kind == "add":
        c = int(rng.integers(1, 300))
        sh = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
        return {"kind": kind, "c": c,
                "A": rng.integers(-1000, 1000, sh).tolist(),
                "B": rng.integers(-1000, 1000, sh).tolist(),
                "dtype": str(rng.choice(["int64", "float64"]))}
    if kind == "big":
        kind = ["solve", "matrix", "product"][i % 3]
        case = pgens.matrix_case(rng, 60, 60) if i % 3 < 2 else (
            pgens.matrix_case(rng, 6, 700))
    else:
        case = pgens.matrix_case(rng)
    p, M = case["p"], np.array(case["M"])
    m, n = M.shape
    k = 1 if kind == "solve" else int(rng.integers(1, 5))
    if kind == "product":
        case["B"] = rng.integers(-p, p, (n, k)).tolist()
    elif rng.random() < .6:
        X = rng.integers(0, p, (n, k)) * (rng.random((n, k)) < .7)
        B = M % p @ X
        u = rng.random()
        if u < .6:
            B = B % p
        elif u < .8:
            B = B % p - p * rng.integers(0, 3, B.shape)
        if rng.random() < .15:
            B[int(rng.integers(0, m)), int(rng.integers(0, k))] += 1
        case["B"] = B.tolist()
    else:
        case["B"] = (rng.integers(-p, 2 * p, (m, k)) * (
            rng.random((m, k)) < .6)).tolist()
    case["kind"] = kind
    return case


def raises(fn, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return None, fn(*args)
        except Exception as exc:
            return exc, None


def observe(case, mon):
    from permaviss.gauss_mod_p import arithmetic_mod_p as ar
    from permaviss.gauss_mod_p import functions as fu
    kind = case["kind"]
    if kind == "inverse":
        p = case["p"]
        cast = {"int": int, "float": float, "int64": np.int64,
                "float64": np.float64}[case["type"]]
        for a in case["a"]:
            exc, m = raises(ar.inv_mod_p, cast(a), p)
            if a % p == 0:
                mon.must(isinstance(exc, ValueError), "inv_mod_p({}, {}) "
                         "does not raise a ValueError: {}", a, p, exc or m)
                mon.count("no_inverse")
                continue
            mon.must(exc is None, "inv_mod_p({}, {}) raised {!r}", a, p, exc)
            mon.must(m == int(m) and 0 < m < p and int(m) * a % p == 1,
                     "inv_mod_p({}, {}) is {}", a, p, m)
            mon.count("inverses")
            mon.seen(p, a % p)
        for a, q in case["comp"]:
            exc, m = raises(ar.inv_mod_p, a, q)
            mon.must(isinstance(exc, ValueError), "inv_mod_p({}, {}) has no "
                     "answer but gives {}", a, q, exc or m)
            mon.count("composite")
        return
    if kind == "add":
        c = case["c"]
        A = np.array(case["A"], dtype=case["dtype"])
        B = np.array(case["B"], dtype=case["dtype"])
        S = mon.call(ar.add_arrays_mod_c, A, B, c)
        want = (np.array(case["A"]) + np.array(case["B"])) % c
        mon.must(np.array_equal(np.asarray(S, dtype=float), want),
                 "sum mod {} of {} and {} is {}", c, A, B, S)
        s = mon.call(ar.add_mod_c, case["A"][0][0], case["B"][0][0], c)
        mon.must(s == want[0][0], "add_mod_c({}, {}, {}) is {}",
                 case["A"][0][0], case["B"][0][0], c, s)
        mon.seen(c, A.shape)
        return
    p = case["p"]
    A = np.array(case["M"], dtype=case["dtype"])
    B = np.array(case["B"], dtype=case["dtype"])
    Ai, Bi = np.array(case["M"]) % p, np.array(case["B"]) % p
    keepA, keepB = A.copy(), B.copy()
    if kind == "product":
        S = mon.call(fu.multiply_mod_p, A, B, p)
        mon.must(np.shape(S) == (A.shape[0], B.shape[1])
                 and np.array_equal(np.asarray(S, dtype=float),
                                    Ai @ Bi % p),
                 "product mod {} of {} and {} is {}", p, A, B, S)
        mon.seen(p, A.shape, B.shape)
        return
    ok = all(ref.solvable(Ai, b, p) for b in Bi.T)
    if kind == "solve":
        exc, x = raises(fu.solve_mod_p, A, B[:, 0], p)
        shape = (A.shape[1],)
    else:
        # right hand sides are the rows of the second argument
        exc, x = raises(fu.solve_matrix_mod_p, A, B.T.copy(), p)
        shape = (A.shape[1], B.shape[1])
    mon.must(np.array_equal(A, keepA) and np.array_equal(B, keepB),
             "the arguments were changed")
    if not ok:
        mon.must(isinstance(exc, ValueError), "no solution exists mod {} for "
                 "A = {}, B = {}, but no ValueError: {}", p, A.tolist(),
                 B.tolist(), exc or x)
        mon.count("no_solution")
        mon.seen(p, A.shape, B.shape, False)
        return
    mon.must(exc is None, "A = {}, B = {} has a solution mod {}, but: {!r}",
             A.tolist(), B.tolist(), p, exc)
    x = np.asarray(x)
    mon.must(x.shape == shape, "solution of shape {}, not {}", x.shape,
             shape)
    mon.must(ref.is_residues(x, p), "the solution {} has entries which are "
             "not residues mod {}", x.tolist(), p)
    X = ref.to_int(x.reshape(A.shape[1], -1))
    mon.must(np.array_equal(Ai @ X % p, Bi), "A x != b (mod {}) for A = {}, "
             "b = {}, x = {}", p, A.tolist(), B.tolist(), x.tolist())
    mon.count("solved")
    if Bi.any():
        mon.seen(p, A.shape, B.shape, True)
