"""C22: lifts by restricted column reductions."""
import numpy as np

from vlib import gens, pgens, ref

PROPERTY = "C22"
RULE = (
    "gauss_col_rad on matrices whose first columns are reduced (unique "
    "pivots, or repeated columns with another radius) followed by targets "
    "which are, or are not, combinations of columns with radius not larger "
    "than theirs; gauss_barcodes on matrices with row and column bars and "
    "targets which are, or are not, combinations of the columns alive at "
    "their birth on the rows alive there; answers are multiplied back and "
    "solvability is decided by independent ranks; non-trivial: a target "
    "which needs some column; distinct: by shapes, prime, solvability")
PLAN = {"quick": [("rad", 12000), ("barcodes", 12000),
                  ("rad_big", 200), ("barcodes_big", 200)],
        "thorough": [("rad", 300000), ("barcodes", 300000),
                     ("rad_big", 5000), ("barcodes_big", 5000)]}
NEED = {"lifts": 5000, "impossible_lifts": 500, "columns_used": 5000}


def make(kind, rng, i):
    p = gens.prime(rng, .25)
    top = 60 if kind.endswith("_big") else 9
    kind = kind.split("_")[0]
    if kind == "rad":
        m = int(rng.integers(1, top))
        k = int(rng.integers(1, m + 1))
        piv = rng.choice(m, k, replace=False)
        cols, R = [], []
        vals = pgens.values(rng, 6) or [0., 1.]
        for x in piv:
            c = np.zeros(m, dtype=np.int64)
            c[x] = pgens.random_matrix_entry(rng, p)
            c[:x] = rng.integers(0, p, x) * (rng.random(x) < .5)
            cols.append(c)
            R.append(float(rng.choice(vals)))
        # columns repeated with a different radius, as Im and Hom do
        for x in range(k):
            if rng.random() < .3:
                cols.append(cols[x])
                R.append(float(rng.choice(vals)))
        start = len(cols)
        ok = True
        for _ in range(int(rng.integers(1, 5))):
            r = float(rng.choice(vals))
            c = np.zeros(m, dtype=np.int64)
            for x in range(start):
                if R[x] <= r and rng.random() < .6:
                    c = (c + cols[x] * int(rng.integers(0, p))) % p
            if rng.random() < .05:
                c = rng.integers(0, p, m)
            if rng.random() < .2:
                c = c - p
            cols.append(c)
            R.append(r)
        return {"kind": kind, "A": np.array(cols).T.tolist(), "R": R,
                "start": start, "p": p,
                "dtype": str(rng.choice(["int64", "float64"]))}
    vals = pgens.values(rng, int(rng.integers(3, 8)))
    while len(vals) < 2:
        vals = pgens.values(rng, 5)
    rows = pgens.std_sorted(pgens.bars(rng, int(rng.integers(1, top)), vals))
    start = int(rng.integers(1, top))
    cb = pgens.bars(rng, start, vals)
    if rng.random() < .5:
        cb = pgens.std_sorted(cb)
    A = rng.integers(0, p, (len(rows), start)) * (
        rng.random((len(rows), start)) < .6)
    T, tb = [], []
    for _ in range(int(rng.integers(1, 5))):
        b = pgens.bars(rng, 1, vals)[0]
        c = np.zeros(len(rows), dtype=np.int64)
        for x in range(start):
            if cb[x][0] <= b[0] < cb[x][1] and rng.random() < .6:
                c = (c + A[:, x] * int(rng.integers(0, p))) % p
        off = [i for i, r in enumerate(rows) if not r[0] <= b[0] < r[1]]
        if off and rng.random() < .4:
            c[off] = rng.integers(0, p, len(off))
        if rng.random() < .05:
            c = rng.integers(0, p, len(rows))
        T.append(c)
        tb.append(b)
    return {"kind": kind, "A": np.hstack([A, np.array(T).T]).tolist(),
            "rows": rows, "cols": cb + tb, "start": start, "p": p}


def attempt(fn, *args):
    try:
        return None, fn(*args)
    except Exception as exc:
        return exc, None


def observe(case, mon):
    from permaviss.gauss_mod_p.gauss_mod_p import (
        gauss_col_rad, gauss_barcodes)
    p, s = case["p"], case["start"]
    Ai = np.array(case["A"], dtype=np.int64) % p
    N = Ai.shape[1]
    used = 0
    if case["kind"] == "rad":
        R = np.array(case["R"])
        A = np.array(case["A"], dtype=case["dtype"])
        keep = A.copy()
        allowed = [[k for k in range(s) if R[k] <= R[j]]
                   for j in range(s, N)]
        ok = all(ref.solvable(Ai[:, al], Ai[:, s + x], p) if al else
                 not Ai[:, s + x].any() for x, al in enumerate(allowed))
        exc, out = attempt(gauss_col_rad, A, R, s, p)
        mon.must(np.array_equal(A, keep), "the given matrix was changed")
        if not ok:
            mon.must(exc is not None, "some column of {} with radii {} is "
                     "no combination of the first {}, but no error is "
                     "raised", case["A"], case["R"], s)
            mon.count("impossible_lifts")
            mon.seen(Ai.shape, s, p, False)
            return
        mon.must(exc is None, "columns of {} with radii {} are combinations "
                 "of the first {} mod {}, but: {!r}", case["A"], case["R"],
                 s, p, exc)
        Red, T = np.asarray(out[0]), np.asarray(out[1])
        mon.must(Red.shape == Ai.shape and T.shape == (N, N), "shapes {} {}",
                 Red.shape, T.shape)
        mon.must(not np.any(Red[:, s:]), "columns were not reduced to zero")
        mon.must(ref.is_residues(T, p), "T has entries which are not "
                 "residues")
        Ti = ref.to_int(T)
        mon.must(np.array_equal(Ai @ Ti % p, ref.to_int(Red) % p),
                 "A T differs from the reduced matrix")
        mon.must(np.array_equal(Ti[s:, s:], np.eye(N - s))
                 and np.array_equal(Ti[:, :s], np.eye(N)[:, :s]),
                 "T combines more than the first columns")
        for x, al in enumerate(allowed):
            nz = [int(k) for k in np.nonzero(Ti[:s, s + x])[0]]
            mon.must(set(nz) <= set(al), "column with radius {} was reduced "
                     "with columns of radii {}", R[s + x], R[nz])
            mon.count("lifts")
            used += len(nz)
    else:
        rows, cols = case["rows"], case["cols"]
        A = Ai.astype(float)
        keep = A.copy()
        sets, ok = [], True
        for j in range(s, N):
            b = cols[j][0]
            ra = ref.active(rows, b)
            ca = ref.active(cols[:s], b)
            sets.append((ra, ca))
            if ra:
                sub = Ai[np.ix_(ra, ca)] if ca else np.zeros(
                    (len(ra), 0), dtype=np.int64)
                t = Ai[ra, j]
                ok = ok and (ref.solvable(sub, t, p) if ca
                             else not t.any())
        exc, C = attempt(gauss_barcodes, A, np.array(rows), np.array(cols),
                         s, p)
        mon.must(np.array_equal(A, keep), "the given matrix was changed")
        if not ok:
            mon.must(exc is not None, "some column of {} is no combination "
                     "of the columns alive at its birth, but no error is "
                     "raised", case)
            mon.count("impossible_lifts")
            mon.seen(Ai.shape, s, p, False)
            return
        mon.must(exc is None, "lift exists for {}, but: {!r}", case, exc)
        C = np.asarray(C)
        mon.must(C.shape == (s, N - s), "coefficients of shape {}", C.shape)
        mon.must(ref.is_residues(C, p), "coefficients are not residues")
        C = ref.to_int(C)
        for x, (ra, ca) in enumerate(sets):
            nz = [int(k) for k in np.nonzero(C[:, x])[0]]
            mon.must(set(nz) <= set(ca), "columns {} are used, but only {} "
                     "are alive", nz, ca)
            lhs = Ai[ra][:, :s] @ C[:, x] % p
            mon.must(np.array_equal(lhs, Ai[ra, s + x]), "the coefficients "
                     "{} do not give the column", C[:, x])
            mon.count("lifts")
            used += len(nz)
    mon.count("columns_used", used)
    if used:
        mon.seen(Ai.shape, s, p, True)
