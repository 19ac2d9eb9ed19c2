"""Workload generators: point clouds, covers, primes."""
import itertools

import numpy as np
import scipy.spatial.distance as dist

from vlib import ref

PRIMES_SMALL = [2, 3, 5, 7, 11, 13]
PRIMES_LARGE = [17, 31, 47, 97, 101, 251, 257, 509, 1009, 2003, 4099, 10007,
                65537, 999983]


def prime(rng, large=0.2):
    if rng.random() < large:
        return int(rng.choice(PRIMES_LARGE))
    return int(rng.choice(PRIMES_SMALL))


def distances(X):
    X = np.asarray(X)
    if len(X) < 2:
        return np.zeros((len(X), len(X)))
    return dist.squareform(dist.pdist(X))


def rotation(rng, dim):
    Q, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
    return Q


def loops(rng, dim, noise=True):
    """Union of circles of several sizes, maybe with their centres."""
    pts = []
    for _ in range(rng.integers(1, 4)):
        n = int(rng.integers(4, 12))
        c = rng.random(dim) * rng.choice([0.3, 1, 2])
        r = rng.choice([.4, .5, .6])
        t = np.arange(n) * 2 * np.pi / n + rng.random() * 6
        P = np.zeros((n, dim))
        P[:, 0] = r * np.cos(t)
        if dim > 1:
            P[:, 1] = r * np.sin(t)
        if dim > 2:
            P = P @ rotation(rng, dim)
        if noise:
            P = P + rng.random((n, dim)) * rng.choice([0, .1, .2])
        pts.append(c + P)
        if rng.random() < .3:
            pts.append(c[None])
    return np.vstack(pts)


def cross_polytope(rng, dim):
    X = np.vstack([np.eye(dim), -np.eye(dim)]) * .7
    X = X + rng.random(X.shape) * rng.choice([0, .05])
    extra = int(rng.integers(0, 10))
    return np.vstack([X, rng.random((extra, dim)) * 2 - 1])


def torus(rng, n):
    a, b = rng.random(n) * 2 * np.pi, rng.random(n) * 2 * np.pi
    return np.c_[(1 + .45 * np.cos(a)) * np.cos(b),
                 (1 + .45 * np.cos(a)) * np.sin(b), .45 * np.sin(a)]


def sphere(rng, n):
    X = rng.normal(size=(n, 3))
    return .7 * X / np.linalg.norm(X, axis=1)[:, None]


def strip(rng, dim, nmax):
    """Long cloud: divided along one axis only, loops in several places."""
    n = int(rng.integers(4, max(5, nmax // 4)))
    X = [rng.random((n, dim)) * .9]
    X[0][:, 0] *= 4
    for _ in range(int(rng.integers(1, 5))):
        m = int(rng.integers(4, 8))
        t = np.arange(m) * 2 * np.pi / m + rng.random() * 6
        P = np.zeros((m, dim))
        P[:, 0] = .38 * np.cos(t) + .5 + 3 * rng.random()
        if dim > 1:
            P[:, 1] = .38 * np.sin(t) + .45
        X.append(P + rng.random(P.shape) * rng.choice([0., .05, .1]))
    X = np.vstack(X)[:nmax]
    X[0, 0], X[1, 0] = 0., 4.
    return X


def suspension(rng, dim, max_r, over):
    """Two points at the centre, joined through points beyond its sides.

    Rips complexes are close to joins of two points with cross-polytopes, so
    that classes live far from the first column, and high differentials and
    extensions are not trivial.
    """
    h = over / 2
    a = max_r / (2 * dim ** .5) * (.9 + .2 * rng.random())
    P = rng.choice([-a, a], dim)
    noise = float(rng.choice([.02, .1, .2, .3]))
    X = [P[None], -P[None]]
    if rng.random() < .2:
        X.append(P[None] * rng.choice([-a, a], dim))
    X = [x + rng.normal(size=x.shape) * noise * a for x in X]
    for k in range(dim):
        for sign in (-1, 1):
            if rng.random() < .04:
                continue
            for _ in range(1 if rng.random() < .8 else 2):
                P = rng.normal(size=dim) * noise * h
                P[k] = sign * h * (1.01 + noise * rng.random())
                X.append(P[None])
    for _ in range(int(rng.integers(0, 3))):
        X.append((rng.random((1, dim)) * 4 - 2) * h)
    X = np.vstack(X)
    # symmetric extent, so that the middle of the cover is at the origin
    L = np.abs(X).max() + .01
    far = np.vstack([L * np.ones(dim), -L * np.ones(dim)])
    return np.vstack([X, far * (1 + rng.random() * .3)])


FAMILIES = ["uniform", "lattice", "loops", "loops", "cross", "clusters",
            "polygon", "duplicates", "flat", "line", "sphere", "torus",
            "corners", "strip"]


def cloud(rng, dim, family, nmax=40):
    n = int(rng.integers(2, nmax + 1))
    if family == "uniform":
        return rng.random((n, dim)) * rng.choice([1., 2.])
    if family == "lattice":
        side = int(rng.integers(2, 8))
        X = rng.integers(0, side, (n, dim)) / 2.
        if rng.random() < .7:
            X = np.unique(X, axis=0)
        rng.shuffle(X)
        return X
    if family == "loops":
        return loops(rng, dim)
    if family == "cross":
        return cross_polytope(rng, dim)
    if family == "clusters":
        k = int(rng.integers(1, 5))
        C = rng.random((k, dim)) * 2
        return C[rng.integers(0, k, n)] + rng.normal(size=(n, dim)) * .12
    if family == "polygon":
        return loops(rng, dim, noise=False)
    if family == "duplicates":
        X = rng.random((max(2, n // 2), dim)) * 1.5
        return np.vstack([X, X[rng.integers(0, len(X), n // 3)]])
    if family == "flat":
        X = rng.random((n, dim)) * 1.5
        X[:, int(rng.integers(0, dim))] = rng.choice([0., .25])
        return X
    if family == "line":
        X = np.zeros((n, dim))
        X[:, int(rng.integers(0, dim))] = np.sort(rng.random(n)) * 3
        return X[rng.permutation(n)]
    if family == "sphere":
        return sphere(rng, min(n, 30))[:, :dim]
    if family == "torus":
        return torus(rng, min(n + 10, 40))[:, :dim]
    if family == "strip":
        return strip(rng, dim, nmax)
    if family == "corners":
        # groups of points at the ends of the range, empty cells in between
        X = np.vstack([rng.random((max(1, n // 3), dim)) * .4,
                       rng.random((max(1, n // 3), dim)) * .4 + 2.2])
        return X
    raise ValueError(family)


def side_div(X, max_div):
    """Side of hypercubes and divisions; (None, ..) if all points coincide."""
    ext = np.ptp(X, axis=0)
    side = ext.max() / max_div
    if side == 0:
        return 0., [1] * X.shape[1]
    return side, [max(1, int(np.ceil(e / side - 1e-9))) for e in ext]


def cell_counts(X, I, D, max_r, max_dim, cap=4000):
    """Number of Rips simplices on the points I, per dimension (capped)."""
    n = len(I)
    nb = [set() for _ in range(n)]
    for a in range(n):
        for b in range(a + 1, n):
            if D[I[a], I[b]] < max_r:
                nb[a].add(b)
    counts = [n]
    level = [(nb[a],) for a in range(n)]
    for d in range(1, max_dim + 1):
        new, cnt = [], 0
        for (c,) in level:
            cnt += len(c)
            if d < max_dim:
                new.extend((c & nb[v],) for v in c)
            if cnt > cap:
                return None
        counts.append(cnt)
        level = new
    return counts


def nerve_regions(X, max_div, overlap):
    """Points in every simplex of the nerve: {cells: frozenset of points}."""
    mn = X.min(0)
    side, div = side_div(X, max_div)
    if side == 0:
        side = 1.
    cells = {}
    for pos in itertools.product(*[range(d) for d in div]):
        lo = mn + side * np.array(pos) - overlap / 2
        hi = lo + side + overlap
        cells[pos] = frozenset(np.where(
            ((X >= lo) & (X <= hi)).all(1))[0].tolist())
    regions = {}
    blocks = itertools.product(*[range(max(1, d - 1)) for d in div])
    for corner in blocks:
        block = [c for c in itertools.product(*[
            range(a, min(a + 2, d)) for a, d in zip(corner, div)])]
        for k in range(1, len(block) + 1):
            for sub in itertools.combinations(block, k):
                if sub not in regions:
                    regions[sub] = frozenset.intersection(
                        *[cells[c] for c in sub])
    return regions


def cost(X, max_r, max_dim, max_div, overlap, cap=1e9):
    """Rough time in seconds that the spectral sequence takes."""
    D = distances(X)
    regions = nerve_regions(X, max_div, overlap)
    edges = sum(1 for s in regions if len(s) == 2)
    # building the nerve, bookkeeping per nerve simplex
    tot = len(regions) * (edges * 8e-6 + 4e-4)
    memo = {}
    for sub, I in regions.items():
        if I not in memo:
            n = cell_counts(X, sorted(I), D, max_r, max_dim)
            if n is None:
                return float("inf")
            c = 0.
            for d in range(1, max_dim + 1):
                if d > 1:
                    c += n[d] * n[d - 1] * 14e-6
                c += n[d] ** 2 * 12e-6
            memo[I] = c
        # restriction maps to the faces, computed for each lift
        tot += memo[I] * (1 + .5 * (len(sub) if len(sub) > 1 else 0))
        if tot > cap:
            return float("inf")
    return tot


def safe_radius(D, max_r, exact):
    """No distance is so close to max_r that rounding decides if it is in."""
    d = D[np.triu_indices(len(D), 1)]
    near = np.abs(d - max_r) < 1e-7 * max(max_r, 1e-300)
    if exact:
        near = near & (d != max_r)
    return not near.any()


def mv_case(rng, budget=3., nmax=40, dims=(1, 2, 2, 2, 2, 3, 3),
            families=None, cells=(9, 12), large=0.15, divs=None,
            max_dims=(1, 2, 2, 2, 3, 3, 3, 4)):
    """A random call of create_MV_ss on which it has to be right."""
    while True:
        dim = int(rng.choice(dims))
        family = str(rng.choice(families or FAMILIES))
        if family in ("sphere", "torus") and dim == 1:
            continue
        X = cloud(rng, dim, family, nmax)
        max_r = float(rng.choice([0.3, 0.45, .6, 0.8, 1.01, 1.3]))
        exact = False
        if family == "lattice" and rng.random() < .5:
            # max_r is exactly one of the distances
            max_r = float(rng.choice([.5, 1., 1.5]))
            exact = True
        else:
            max_r += float(rng.random() * 0.01)
        max_dim = int(rng.choice(max_dims))
        max_div = int(rng.choice(divs or [1, 2, 2, 3, 3, 4, 5]))
        over = max_r * float(rng.choice([1., 1.0001, 1.01, 1.01, 1.3, 1.7]))
        p = prime(rng, large)
        dtype = "float"
        scale = 1.
        u = rng.random()
        if family == "lattice" and u < .35:
            X = np.rint(X * 2).astype(int)
            max_r, over, dtype = max_r * 2, over * 2, "int"
        elif u < .45:
            scale = float(rng.choice([1e-9, 1e-4, 1e3, 2.**20]))
            X, max_r, over = X * scale, max_r * scale, over * scale
        elif u < .55:
            X = X - rng.random(dim) * rng.choice([1., 5., 50.])
        D = distances(X)
        if not safe_radius(D, max_r, exact and u >= .55):
            continue
        side, div = side_div(X, max_div)
        if np.prod(div) > (cells[0] if dim < 3 else cells[1]):
            continue
        if len(X) > 120 or cost(
                X, max_r, max_dim, max_div, over, budget) > budget:
            continue
        # most of the cases have something to compute
        if rng.random() < .8:
            if np.prod(div) == 1 or not (D[D > 0] < max_r).any():
                continue
            if max_dim > 1 and not any(
                    ref.rips_ph(D, max_r, max_dim, p)[1:max_dim]):
                continue
        return {"family": family, "points": X.tolist(), "dtype": dtype,
                "max_r": max_r, "max_dim": max_dim, "max_div": max_div,
                "overlap": over, "p": p}


def suspension_case(rng, dim, budget=4., large=.15):
    """Covers with two divisions per dimension and classes at the centre."""
    while True:
        max_r = 1. + float(rng.random() * .01)
        over = max_r * float(rng.choice([1., 1.01, 1.1]))
        X = suspension(rng, dim, max_r, over)
        max_dim = int(rng.choice([2, 3] if dim == 2 else [2, 3, 4]))
        D = distances(X)
        p = prime(rng, large)
        if not safe_radius(D, max_r, False):
            continue
        if cost(X, max_r, max_dim, 2, over, budget) > budget:
            continue
        bars = ref.rips_ph(D, max_r, max_dim, p)[1:max_dim]
        if not any(bars) or (rng.random() < .7 and not any(bars[1:])):
            continue
        return {"family": "suspension", "points": X.tolist(),
                "dtype": "float", "max_r": max_r, "max_dim": max_dim,
                "max_div": 2, "overlap": over, "p": p}


def lunes(rng):
    """A sphere made of four lunes, whose poles are joined from the inside.

    With two divisions along x and y each cell has a lune, and the poles (in
    all cells) make a class off the first columns by two. Inner points
    connect the poles and fill the meridians, at once or one after the other,
    so that the class continues on columns nearer to the first one.
    """
    pm = (1, -1)

    def f():
        return float(rng.choice([1., 1., 1., 1.004, 1.01, 1.015]))
    same = rng.random() < .4

    def g(k=1.):
        return k if same else k * f()
    P = [(0, 0, 5 * g() * s) for s in pm]
    P += [(5 * s * g(), 0, 0) for s in pm] + [(0, 5 * s * g(), 0) for s in pm]
    for s in pm:
        for t in pm:
            k = g()
            P.append((3 * s * k, 0, 4 * t * k))
            k = g()
            P.append((0, 3 * s * k, 4 * t * k))
            P.append((4 * s, 4 * t, 0))
            for u in pm:
                P.append((3 * s, 3 * t, 3 * u))
    if rng.random() < .15:
        P.pop(int(rng.integers(len(P))))
    kind = int(rng.integers(4))
    if kind < 3:
        P.append((0, 0, 0))
    if kind == 2:
        P.append((0, 0, float(rng.choice([.02, .05]))))
    # with 10 there is often a division along z as well
    e = 10 if rng.random() < .12 else 10.6
    ends = [(e * s, e * t, 0) for s in pm for t in pm]
    if rng.random() < .4:
        ends = ends[::3] if rng.random() < .5 else ends[1:3]
    return np.array(P + ends, dtype=float)


def lune_case(rng, budget=6., large=.15):
    while True:
        X = lunes(rng)
        max_r = float(rng.choice([5.02, 5.06, 5.1, 5.15]))
        D = distances(X)
        if not safe_radius(D, max_r, False):
            continue
        over = max_r * float(rng.choice([1., 1.01, 1.1]))
        k = float(rng.choice([1., 1., .5, 3., 1e-4]))
        X = X[rng.permutation(len(X))]
        if cost(X, max_r, 3, 2, over, budget) > budget:
            continue
        return {"family": "lunes", "points": (X * k).tolist(),
                "dtype": "float", "max_r": max_r * k, "max_dim": 3,
                "max_div": 2, "overlap": over * k, "p": prime(rng, large)}


def crowd_case(rng, large=.15):
    """Hundreds of points, tens of cells, few neighbours per point."""
    while True:
        dim = int(rng.choice([1, 2, 2]))
        n = int(rng.integers(90, 270))
        if rng.random() < .3:
            n = int(rng.integers(350, 560))
        X = rng.random((n, dim))
        if dim == 1:
            max_r = float(rng.choice([1.5, 2.5])) / n
            max_div = int(rng.integers(20, 150))
        else:
            max_r = float(rng.choice([.7, .9, 1.1])) / np.sqrt(n)
            max_div = int(rng.integers(4, 8))
        over = max_r * float(rng.choice([1., 1.01, 1.2]))
        X = X * float(rng.choice([1., 1., 100.]))
        f = float(np.ptp(X, axis=0).max())
        max_r, over = max_r * f, over * f
        if not safe_radius(distances(X), max_r, False):
            continue
        max_dim = int(rng.choice([1, 2, 2, 3]))
        if cost(X, max_r, max_dim, max_div, over) > 8.:
            continue
        return {"points": X.tolist(), "dtype": "float", "max_r": max_r,
                "max_dim": max_dim, "max_div": max_div, "overlap": over,
                "p": prime(rng, large), "family": "crowd", "exact": False}


def embed_case(rng, budget=3.):
    """A cloud in more dimensions, divided along a few of them only."""
    while True:
        c = mv_case(rng, budget=budget, nmax=30)
        X = np.array(c["points"], dtype=float)
        side = float(np.ptp(X, axis=0).max()) / c["max_div"]
        thin = side * float(rng.choice([0., 1e-3, .2, .8]))
        dim = int(rng.integers(max(4, X.shape[1]), 7))
        Y = rng.random((len(X), dim - X.shape[1])) * thin
        X = np.hstack([X, Y])[:, rng.permutation(dim)]
        if rng.random() < .3:
            X = X + side * rng.choice([1., 1e3, 1e5], dim)
            c["overlap"] = max(c["overlap"], c["max_r"] * 1.01)
        D = distances(X)
        if not safe_radius(D, c["max_r"], False):
            continue
        if cost(X, c["max_r"], c["max_dim"], c["max_div"], c["overlap"],
                budget) > budget:
            continue
        if c["max_dim"] > 1 and rng.random() < .7 and not any(ref.rips_ph(
                D, c["max_r"], c["max_dim"], c["p"])[1:c["max_dim"]]):
            continue
        return dict(c, points=X.tolist(), dtype="float", family="embed")


def points_of(case):
    return np.array(case["points"],
                    dtype=int if case.get("dtype") == "int" else float)


def args_of(case):
    return (points_of(case), case["max_r"], case["max_dim"],
            case["max_div"], case["overlap"], case["p"])
