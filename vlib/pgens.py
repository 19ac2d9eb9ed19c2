"""Workload generators for persistence modules and matrices over Z/p."""
import numpy as np

from vlib import gens, ref


def values(rng, n):
    """n increasing endpoints: integers, floats, clustered, huge or tiny."""
    u = rng.random()
    if u < .35:
        return [float(v) for v in range(n)]
    if u < .5:
        return sorted(float(v) for v in rng.choice(
            np.arange(-20, 40), n, replace=False))
    if u < .8:
        return sorted(set(float(v) for v in rng.random(n))) or [0.]
    if u < .9:
        # values which differ by much less than they measure
        base = float(rng.choice([0., 1., 100.]))
        step = float(rng.choice([1e-9, 1e-12, 2. ** -45]))
        return sorted(base + step * float(v) for v in
                      rng.choice(100, n, replace=False))
    return sorted(float(v) * float(rng.choice([1e-6, 1e6]))
                  for v in rng.choice(50, n, replace=False))


def bars(rng, n, vals, full=0.3):
    out = []
    for _ in range(n):
        i, j = sorted(rng.choice(len(vals), 2, replace=False))
        if rng.random() < full:
            j = len(vals) - 1
        if i == j:
            i = j - 1
        out.append([vals[i], vals[j]])
    return out


def std_sorted(b):
    return sorted(b, key=lambda x: (x[0], -x[1]))


def random_matrix_entry(rng, p):
    return int(rng.integers(1, p)) if p > 2 else 1


def morphism(rng, A, B, p, density=.7):
    F = [[0] * len(A) for _ in B]
    for i, b in enumerate(B):
        for j, a in enumerate(A):
            if b[0] <= a[0] < b[1] <= a[1] and rng.random() < density:
                F[i][j] = random_matrix_entry(rng, p)
    return F


def dependent_columns(rng, A, B, F, p):
    """Replace columns by combinations of columns which are alive at birth."""
    F = np.array(F, dtype=np.int64).reshape(len(B), len(A))
    for j, a in enumerate(A):
        if rng.random() < .4:
            # sum of columns k born before and dying no later than a
            ks = [k for k, c in enumerate(A)
                  if k != j and c[0] <= a[0] < c[1] <= a[1]]
            if not ks:
                continue
            ks = list(rng.choice(ks, min(len(ks), 2), replace=False))
            col = sum(F[:, k] * random_matrix_entry(rng, p) for k in ks) % p
            # classes of B which have died at a[0] are zero
            for i, b in enumerate(B):
                if not (b[0] <= a[0] < b[1]):
                    col[i] = 0
            if rng.random() < .3:
                rows = [i for i, b in enumerate(B)
                        if b[0] <= a[0] < b[1] <= a[1]]
                if rows:
                    i = int(rng.choice(rows))
                    col[i] = (col[i] + 1) % p
            F[:, j] = col
    return F.tolist()


def morphism_case(rng, nmax=7, vmax=9, large=.2):
    """Domain, codomain and matrix of a well defined persistence morphism."""
    while True:
        p = gens.prime(rng, large)
        vals = values(rng, int(rng.integers(2, vmax + 1)))
        if len(vals) < 2:
            continue
        A = bars(rng, int(rng.integers(1, nmax + 1)), vals)
        B = bars(rng, int(rng.integers(1, nmax + 1)), vals, .15)
        sort_a, sort_b = bool(rng.random() < .4), bool(rng.random() < .4)
        if sort_a:
            A = std_sorted(A)
        if sort_b:
            B = std_sorted(B)
        F = morphism(rng, A, B, p, float(rng.choice([.3, .6, .9])))
        if rng.random() < .5:
            F = dependent_columns(rng, A, B, F, p)
        if rng.random() < .9 and not np.any(np.array(F) % p):
            continue
        if rng.random() < .15:
            # representatives other than 0, ..., p - 1
            F = (np.array(F) + p * rng.integers(-2, 2, np.shape(F))).tolist()
        return {"A": A, "B": B, "F": F, "p": p, "sort_a": sort_a,
                "sort_b": sort_b,
                "dtype": str(rng.choice(["int64", "float64"]))}


def sub(M, rows, cols):
    M = np.asarray(M)
    return M[np.ix_(rows, cols)] if len(rows) and len(cols) else np.zeros(
        (len(rows), len(cols)), dtype=np.int64)


def endpoints(*barcodes):
    return sorted({float(v) for b in barcodes for x in b for v in x})


def image_bars(A, B, F, p):
    """Barcode of the image from its rank invariant."""
    def rk(s, t):
        rows = [i for i in ref.active(B, s) if B[i][1] > t]
        return ref.rank(sub(F, rows, ref.active(A, s)), p)
    return ref.bars_from_rank(endpoints(A, B), rk)


def kernel_bars(A, B, F, p):
    def rk(s, t):
        a = ref.active(A, s)
        N = ref.nullspace(sub(F, ref.active(B, s), a), p, len(a))
        keep = [k for k, i in enumerate(a) if A[i][1] > t]
        return ref.rank(N[keep], p)
    return ref.bars_from_rank(endpoints(A, B), rk)


def chain_case(rng, nmax=6, vmax=9, lmax=5, large=.15):
    """A chain complex of persistence modules: bases and differentials."""
    p = gens.prime(rng, large)
    vals = values(rng, int(rng.integers(3, vmax + 1)))
    while len(vals) < 2:
        vals = values(rng, 4)
    L = int(rng.integers(1, lmax))

    def size():
        if rng.random() < .15:
            return 0
        return int(rng.integers(1, nmax + 1))
    bases = [bars(rng, size(), vals, .2)]
    D = [0]
    for d in range(1, L):
        B, new, cols = bases[-1], [], []
        for _ in range(size()):
            b, e = bars(rng, 1, vals, .6)[0]
            rows = [i for i, x in enumerate(B) if x[0] <= b < x[1] <= e]
            col = np.zeros(len(B), dtype=np.int64)
            if rows and rng.random() < .85:
                if d == 1:
                    col[rows] = rng.integers(0, p, len(rows))
                else:
                    P = bases[-2]
                    N = ref.nullspace(
                        sub(D[-1], ref.active(P, b), rows), p, len(rows))
                    if N.shape[1]:
                        x = rng.integers(0, p, N.shape[1])
                        if rng.random() < .5:
                            x = x * (rng.random(len(x)) < .5)
                        col[rows] = N @ x % p
            new.append([b, e])
            cols.append(col)
        bases.append(new)
        D.append(np.array(cols, dtype=np.int64).reshape(
            len(new), len(B)).T)
    case = {"p": p, "bases": bases,
            "D": [0] + [np.asarray(M).tolist() for M in D[1:]],
            "shapes": [0] + [list(M.shape) for M in D[1:]],
            "sorted": bool(rng.random() < .3)}
    if case["sorted"]:
        order = [sorted(range(len(b)), key=lambda i: (b[i][0], -b[i][1]))
                 for b in bases]
        case["bases"] = [[b[i] for i in o] for b, o in zip(bases, order)]
        case["D"] = [0] + [D[d][order[d - 1]][:, order[d]].tolist()
                           for d in range(1, L)]
    return case


def chain_matrices(case):
    return [0] + [np.array(M, dtype=float).reshape(s) for M, s in zip(
        case["D"][1:], case["shapes"][1:])]


class Chain(object):
    """Reference model of a chain complex of persistence modules."""

    def __init__(self, bases, D, p):
        self.bases, self.p, self.L = bases, p, len(bases)
        self.D = [0] + [np.rint(np.asarray(M)).astype(np.int64)
                        for M in D[1:]]
        self.vals = endpoints(*bases)

    def kernel(self, d, s):
        a = ref.active(self.bases[d], s)
        if d == 0:
            return a, np.eye(len(a), dtype=np.int64)
        rows = ref.active(self.bases[d - 1], s)
        if not rows:
            return a, np.eye(len(a), dtype=np.int64)
        return a, ref.nullspace(sub(self.D[d], rows, a), self.p, len(a))

    def image(self, d, t):
        """Image of D[d + 1] at t, in the generators active at t."""
        a = ref.active(self.bases[d], t)
        if d == self.L - 1:
            return np.zeros((len(a), 0), dtype=np.int64)
        return sub(self.D[d + 1], a, ref.active(self.bases[d + 1], t))

    def homology_rank(self, d, s, t):
        a, K = self.kernel(d, s)
        at = ref.active(self.bases[d], t)
        M = np.zeros((len(at), K.shape[1]), dtype=np.int64)
        pos = {x: k for k, x in enumerate(a)}
        for i, x in enumerate(at):
            if x in pos:
                M[i] = K[pos[x]]
        I = self.image(d, t)
        return (ref.rank(np.hstack([M, I]), self.p) - ref.rank(I, self.p))

    def homology_bars(self, d):
        return ref.bars_from_rank(
            self.vals, lambda s, t: self.homology_rank(d, s, t))


def broken_case(rng, nmax=8, vmax=9, large=.2):
    """A broken basis, a free domain basis and a matrix of images.

    Generators of the codomain which die continue as combinations of the
    others (the column of the broken differentials).
    """
    while True:
        p = gens.prime(rng, large)
        vals = values(rng, int(rng.integers(3, vmax + 1)))
        if len(vals) < 3:
            continue
        n = int(rng.integers(1, nmax + 1))
        B = bars(rng, n, vals, .3)
        E = np.zeros((n, n), dtype=np.int64)
        for j in range(n):
            for i in range(n):
                # alive at the death of j
                if i != j and B[i][0] <= B[j][1] < B[i][1] and (
                        rng.random() < .6):
                    E[i, j] = random_matrix_entry(rng, p)
        if rng.random() < .9 and not E.any():
            continue
        ident = bool(rng.random() < .4)
        if ident:
            A = [[b[0], vals[-1]] for b in B]
            F = np.eye(n, dtype=np.int64)
        else:
            m = int(rng.integers(1, nmax + 1))
            A = [[x[0], vals[-1]] for x in bars(rng, m, vals)]
            F = np.zeros((n, m), dtype=np.int64)
            for j, a in enumerate(A):
                for i in ref.active(B, a[0]):
                    if rng.random() < .6:
                        F[i, j] = random_matrix_entry(rng, p)
        return {"A": A, "B": B, "E": E.tolist(), "F": F.tolist(), "p": p,
                "sort_a": bool(rng.random() < .5),
                "sort_b": bool(rng.random() < .5)}


def flow(B, E, vals, s, t, V, p):
    """Carry vectors V (columns, on the generators of B) from s to t."""
    V = V.copy() % p
    for r in vals:
        if s < r <= t:
            dying = [i for i, b in enumerate(B) if b[1] == r]
            if dying:
                add = E[:, dying] @ V[dying]
                V[dying] = 0
                V = (V + add) % p
    return V


def broken_image_bars(A, B, E, F, p):
    vals = endpoints(A, B)
    E, F = np.asarray(E, dtype=np.int64), np.asarray(F, dtype=np.int64)

    def rk(s, t):
        cols = []
        for j, a in enumerate(A):
            if a[0] <= s < a[1]:
                v = flow(B, E, vals, a[0], t, F[:, [j]], p)
                # the domain bar may end before t
                cols.append(v)
        if not cols or t >= max(b[1] for b in A + B):
            return 0
        return ref.rank(np.hstack(cols), p)
    return ref.bars_from_rank(vals, rk)


def matrix_case(rng, rmax=9, cmax=9, large=.3):
    p = gens.prime(rng, large)
    m, n = int(rng.integers(1, rmax + 1)), int(rng.integers(1, cmax + 1))
    kind = str(rng.choice(["dense", "sparse", "lowrank", "signed", "big"]))
    M = rng.integers(0, p, (m, n))
    if kind == "sparse":
        M = M * (rng.random((m, n)) < .3)
    elif kind == "lowrank":
        k = int(rng.integers(1, min(m, n) + 1))
        M = rng.integers(0, p, (m, k)) @ rng.integers(0, p, (k, n)) % p
    elif kind == "signed":
        M = rng.integers(-p, p + 1, (m, n)) * (rng.random((m, n)) < .6)
    elif kind == "big":
        M = rng.integers(-50 * p, 50 * p, (m, n)) * (rng.random((m, n)) < .6)
    return {"M": M.tolist(), "p": p, "kind": kind,
            "dtype": str(rng.choice(["int64", "float64"]))}
