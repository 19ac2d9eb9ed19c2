"""Shared by the checks which look inside the result of create_MV_ss."""
import numpy as np

from vlib import designs, gens, ref
from vlib.pools import schedule


def run(case, mon):
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    pool_for(case)
    return mon.call(create_MV_ss, *gens.args_of(case))


def pool_for(case):
    """Covers with 255 regions: one copy per map, copies take most time."""
    schedule.reset(order="forward",
                   chunk=10 ** 6 if case["family"] == "design" else None)


def make(kind, rng, i):
    """Workloads: covers with one, two and three directions of division."""
    if kind == "mv":
        return gens.mv_case(rng, budget=2., nmax=30)
    if kind == "mv3":
        return gens.mv_case(rng, dims=(3,), budget=3., max_dims=(2, 3),
                            divs=[2, 2, 3], nmax=24)
    if kind == "strip":
        return gens.mv_case(rng, dims=(2, 2, 3), families=["strip"],
                            divs=[2, 3, 4, 5], max_dims=(2, 3), budget=2.,
                            cells=(12, 12))
    if kind == "susp2":
        return gens.suspension_case(rng, 2, budget=2.)
    if kind == "lune":
        return gens.lune_case(rng, budget=12.)
    if kind == "susp3":
        return gens.suspension_case(rng, 3, budget=8.)
    if kind.startswith("design"):
        return designs.design_case(rng, int(kind[6:]))
    if kind == "crowd":
        return gens.crowd_case(rng)
    if kind == "embed":
        return gens.embed_case(rng, budget=1.)
    if kind == "third":
        return designs.third_case(rng, i)
    raise ValueError(kind)


def regions(ss):
    """[n][k] -> list of the points of the k-th nerve n-simplex."""
    return [[[int(v) for v in I] for I in lev] for lev in ss.points_IN]


def nerve_simplices(ss):
    out = [[(k,) for k in range(int(ss.nerve[0]))]]
    for lev in ss.nerve[1:]:
        out.append([tuple(int(v) for v in s) for s in lev])
    return out


def perm_sign(seq):
    sign, seq = 1, list(seq)
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                sign = -sign
    return sign


def local_simplices(ss, n, k, d, IN):
    """Simplices of a region by global vertices: (sorted tuple, sign)."""
    sub = ss.subcomplexes[n][k]
    if d >= len(sub):
        return []
    if d == 0:
        return [((IN[i],), 1) for i in range(int(sub[0]))]
    out = []
    for row in sub[d]:
        g = [IN[int(v)] for v in row]
        out.append((tuple(sorted(g)), perm_sign(g)))
    return out


def radii(case, D, rng, many):
    """Radii away from every distance, more of the large ones."""
    max_r = case["max_r"]
    vals = sorted(set(float(v) for v in D[np.triu_indices(len(D), 1)]
                      if v < max_r))
    vals = [0.] + vals + [max_r]
    mids = [(a + b) / 2 for a, b in zip(vals, vals[1:])
            if b - a > 1e-6 * max_r]
    if len(mids) <= many:
        return mids
    w = np.linspace(1., 4., len(mids))
    pick = rng.choice(len(mids), many, replace=False, p=w / w.sum())
    return [mids[i] for i in sorted(pick)]


def dense(chains, n, size, i, p):
    """Coordinates of the i-th expression on each region: {k: vector}."""
    out = {}
    for k in range(n):
        r = [int(v) for v in chains.ref[k]]
        if i in r:
            v = ref.to_int(chains.coord[k][r.index(i)]) % p
            if v.any():
                out[k] = v
    return out


def alive(basis, t):
    if basis.dim == 0:
        return 0
    b = np.asarray(basis.barcode, dtype=float)
    return int(((b[:, 0] <= t) & (t < b[:, 1])).sum())


class Global(object):
    """The Rips complex of the whole cloud, and chains pushed to it."""

    def __init__(self, ss, case, D):
        self.ss, self.D, self.p = ss, D, case["p"]
        self.INs = regions(ss)
        self.nerve = nerve_simplices(ss)
        max_dim = case["max_dim"]
        self.spx = {}
        self.glob = ref.rips(D, case["max_r"], max_dim)
        self.index = [{s: i for i, (s, _) in enumerate(l)}
                      for l in self.glob]
        self.rad = [np.array([r for _, r in l]) for l in self.glob]
        self.bd = [None] + [ref.boundary(
            [s for s, _ in self.glob[d]], [s for s, _ in self.glob[d - 1]],
            self.p) for d in range(1, max_dim + 1)]

    def local(self, n, k, d):
        if (n, k, d) not in self.spx:
            self.spx[n, k, d] = local_simplices(
                self.ss, n, k, d, self.INs[n][k])
        return self.spx[n, k, d]

    def push(self, vec, m):
        """Sum of the chains {cell: vector} of dimension m."""
        z = np.zeros(len(self.glob[m]), dtype=np.int64)
        for idx, v in vec.items():
            for j in np.nonzero(v)[0]:
                s, sign = self.local(0, idx, m)[j]
                z[self.index[m][s]] += sign * v[j]
        return z % self.p
