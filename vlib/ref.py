"""Reference algebra over Z/p and reference models, written independently.

Nothing here uses the code under test.
"""
import numpy as np


###############################################################################
# linear algebra mod p (rows are lists of Python integers or int64 arrays)

def to_int(M):
    """Integer matrix from whatever array, and whether it was integral."""
    M = np.asarray(M)
    if M.size == 0:
        return np.zeros(M.shape if M.ndim == 2 else (0, 0), dtype=np.int64)
    return np.rint(M.astype(float)).astype(np.int64)


def is_residues(M, p):
    """All entries are integers in 0, ..., p - 1."""
    M = np.asarray(M)
    if M.size == 0:
        return True
    M = M.astype(float)
    return bool(np.all(np.isfinite(M)) and np.all(M == np.rint(M))
                and np.all(M >= 0) and np.all(M < p))


def matmul(A, B, p):
    A, B = to_int(A) % p, to_int(B) % p
    return (A @ B) % p


def echelon(M, p):
    """Row echelon form, list of pivot columns."""
    M = np.array(M, dtype=np.int64) % p
    if M.ndim != 2 or M.size == 0:
        return M, []
    piv, r = [], 0
    for c in range(M.shape[1]):
        nz = np.nonzero(M[r:, c])[0]
        if len(nz) == 0:
            continue
        k = r + nz[0]
        if k != r:
            M[[r, k]] = M[[k, r]]
        M[r] = M[r] * pow(int(M[r, c]), -1, p) % p
        rows = np.nonzero(M[:, c])[0]
        rows = rows[rows != r]
        if len(rows):
            M[rows] = (M[rows] - np.outer(M[rows, c], M[r]) % p) % p
        piv.append(c)
        r += 1
        if r == M.shape[0]:
            break
    return M, piv


def rank(M, p):
    M = np.asarray(M)
    if M.size == 0:
        return 0
    M = to_int(M)
    if M.shape[0] > M.shape[1]:
        M = M.T
    return len(echelon(M, p)[1])


def nullspace(M, p, n):
    """Columns span the kernel of M, which has n columns."""
    if np.asarray(M).size == 0:
        return np.eye(n, dtype=np.int64)
    R, piv = echelon(to_int(M), p)
    free = [c for c in range(n) if c not in piv]
    out = np.zeros((n, len(free)), dtype=np.int64)
    for k, c in enumerate(free):
        out[c, k] = 1
        for i, pc in enumerate(piv):
            out[pc, k] = -R[i, c] % p
    return out


def solvable(A, b, p):
    A, b = to_int(A), to_int(np.asarray(b).reshape(-1, 1))
    return rank(np.hstack([A, b]), p) == rank(A, p)


###############################################################################
# barcodes

def bars_list(barcode):
    a = np.asarray(barcode, dtype=float)
    if a.size == 0:
        return []
    return [(float(x), float(y)) for x, y in a.reshape(-1, 2)]


def snapper(values, tol):
    """Map values which are within tol of each other to the same value."""
    vals = sorted(set(float(v) for v in values))
    rep, base, last = {}, None, None
    for v in vals:
        if last is None or v - last > tol:
            base = v
        rep[v] = base
        last = v
    return rep


def same_bars(ref, got, tol):
    """Equal as multisets, up to moving endpoints by rounding errors.

    Bars which are empty after identifying almost equal endpoints are
    dropped.
    """
    if any(not np.isfinite(v) for b in got for v in b):
        return False
    rep = snapper([v for b in list(ref) + list(got) for v in b], tol)

    def norm(bars):
        return sorted((rep[a], rep[b]) for a, b in bars if rep[a] < rep[b])
    return norm(ref) == norm(got)


def is_sorted_standard(barcode, tol):
    """Births increase; among equal births deaths decrease (up to tol)."""
    b = bars_list(barcode)
    for x, y in zip(b, b[1:]):
        if y[0] < x[0] - tol:
            return False
        if abs(y[0] - x[0]) == 0 and y[1] > x[1] + tol:
            return False
    return True


def active(bars, r):
    return [i for i, b in enumerate(bars) if b[0] <= r < b[1]]


def bars_from_rank(vals, rk):
    """Barcode of a persistence module from its rank invariant.

    vals: all radii where something changes; the module is zero from the
    last one on. rk(s, t) is the rank of the map from s to t >= s.
    """
    m, out, memo = len(vals), [], {}

    def r(i, j):
        if i < 0:
            return 0
        if (i, j) not in memo:
            memo[i, j] = rk(vals[i], vals[j])
        return memo[i, j]
    for i in range(m):
        for j in range(i + 1, m):
            k = (r(i, j - 1) - r(i - 1, j - 1)) - (r(i, j) - r(i - 1, j))
            assert k >= 0
            out += [(vals[i], vals[j])] * k
    return sorted(out)


###############################################################################
# simplicial complexes and persistent homology

def rips(D, max_r, max_dim):
    """All simplices as sorted tuples with their diameter, per dimension."""
    n = len(D)
    adj = [[j for j in range(i + 1, n) if D[i][j] < max_r] for i in range(n)]
    nb = [set(a) for a in adj]
    out = [[((i,), 0.0) for i in range(n)]]
    cand = {(i,): adj[i] for i in range(n)}
    for d in range(1, max_dim + 1):
        new, ncand = [], {}
        for s, r in out[-1]:
            c = cand[s]
            for v in c:
                t = s + (v,)
                new.append((t, max([r] + [float(D[u][v]) for u in s])))
                ncand[t] = [w for w in c if w > v and w in nb[v]]
        cand = ncand
        out.append(new)
    return out


def reduce_filtration(simplices, p):
    """simplices: list of (radius, vertices), faces before cofaces.

    Returns pairs (birth index, death index) and unpaired indices.
    """
    idx = {s: i for i, (_, s) in enumerate(simplices)}
    low, cols, pairs, paired = {}, {}, [], set()
    for j, (_, s) in enumerate(simplices):
        if len(s) == 1 or j in ():
            continue
        col = {}
        for k in range(len(s)):
            col[idx[s[:k] + s[k + 1:]]] = (1 if k % 2 == 0 else p - 1) % p
        while col:
            l = max(col)
            if l not in low:
                break
            o = cols[low[l]]
            q = -col[l] * pow(o[l], -1, p) % p
            for a, b in o.items():
                v = (col.get(a, 0) + q * b) % p
                if v:
                    col[a] = v
                else:
                    col.pop(a, None)
        if col:
            l = max(col)
            low[l] = j
            cols[j] = col
            pairs.append((l, j))
            paired |= {l, j}
    return pairs, [j for j in range(len(simplices)) if j not in paired]


def complex_ph(spx, max_r, p):
    """spx[d]: list of (vertices, radius). Barcodes in each dimension."""
    order = sorted((r, len(s), s) for lev in spx for s, r in lev)
    simp = [(r, s) for r, _, s in order]
    pairs, free = reduce_filtration(simp, p)
    bars = [[] for _ in spx]
    for i, j in pairs:
        if simp[i][0] < simp[j][0]:
            bars[len(simp[i][1]) - 1].append((simp[i][0], simp[j][0]))
    for i in free:
        bars[len(simp[i][1]) - 1].append((simp[i][0], max_r))
    return [sorted((float(a), float(b)) for a, b in lev) for lev in bars]


def rips_ph(D, max_r, max_dim, p):
    """Barcodes of the Rips filtration, dimensions 0, ..., max_dim."""
    return complex_ph(rips(D, max_r, max_dim), float(max_r), p)


def boundary(simplices, faces, p):
    """Alternating boundary matrix as int64, simplices/faces lists of tuples."""
    idx = {s: i for i, s in enumerate(faces)}
    M = np.zeros((len(faces), len(simplices)), dtype=np.int64)
    for j, s in enumerate(simplices):
        for k in range(len(s)):
            M[idx[s[:k] + s[k + 1:]], j] = (1 if k % 2 == 0 else p - 1) % p
    return M
