"""C12: cubical covers and their intersections."""
import itertools
import math
from fractions import Fraction

import numpy as np

from vlib import gens, ref

PROPERTY = "C12"
RULE = (
    "generate_cover on clouds in R^1..R^4 (uniform, lattice, flat, coinciding "
    "points, integer arrays, far from the origin, extents just above or "
    "below a fraction of the largest, points exactly on the "
    "faces of hypercubes, overlaps from 0 to larger than the cloud); regions "
    "are compared with independently computed hypercubes, up to rounding at "
    "their faces, regions of nerve simplices with the intersections, and "
    "sets of points closer than the overlap are searched in a common "
    "hypercube; non-trivial: at least two hypercubes; distinct: by divisions "
    "and number of points per region")
ASSUMPTIONS = ["hypercubes are closed: points on faces belong to them, where "
               "the corners can be computed without rounding",
               "otherwise points closer than 1e-9 (relative) to the face of a "
               "hypercube may be in or out"]
PLAN = {"quick": [("plane", 2500), ("space", 130), ("line", 700),
                  ("four", 24), ("crowd", 24)],
        "thorough": [("plane", 60000), ("space", 3000), ("line", 20000),
                     ("four", 300), ("crowd", 400)]}
NEED = {"regions": 20000, "close_sets": 20000, "intersections": 10000,
        "exact_regions": 1000, "points_on_faces": 1000, "edges": 5000}


def make(kind, rng, i):
    dim = {"plane": 2, "space": 3, "line": 1, "four": 4,
           "crowd": 1 + i % 2}[kind]
    while True:
        fam = str(rng.choice(gens.FAMILIES))
        if fam in ("sphere", "torus") and dim not in (2, 3):
            continue
        if rng.random() < .04:
            n = int(rng.integers(1, 5))
            X = np.tile(rng.random(dim) * 3 - 1, (n, 1))
        else:
            X = gens.cloud(rng, dim, fam, 40)
            if kind == "crowd":
                X = rng.random((int(rng.integers(150, 400)), dim)) * 3
        dtype = "float"
        u = rng.random()
        if u < .12:
            X = np.rint(X * 8) / 4
        elif u < .25:
            X = np.rint(X * 4).astype(int) - int(rng.integers(0, 9))
            dtype = "int"
        elif u < .33:
            X = X * float(rng.choice([1e-6, 1e4]))
        elif u < .45:
            X = X - rng.random(dim) * 20
        if dim > 1 and rng.random() < .3:
            X = X * np.array([1] + [
                1 if dtype == "int" else float(rng.choice([.2, .5, 1.]))
                for _ in range(dim - 1)])
        if dim > 1 and dtype == "float" and rng.random() < .12:
            X = nearly(rng, X)
        ext = float(np.ptp(X, axis=0).max())
        max_div = int(rng.integers(1, {1: 12, 2: 8, 3: 4, 4: 3}[dim]))
        over = float(rng.choice([0., .1, .3, .5, 1., 1.5])) * (
            ext / max_div if ext else 1.)
        if rng.random() < .3:
            over = float(rng.random() * (ext or 1.))
        if u < .25 and rng.random() < .7:
            # dyadic corners, points on the faces
            max_div = int(2 ** rng.integers(0, {1: 4, 2: 3, 3: 2, 4: 2}[dim]))
            over = float(rng.integers(1, 9)) / 4
        side, div = gens.side_div(X, max_div)
        if np.prod(div) > (60 if dim == 2 else 12 if dim == 3 else
                           4 if dim == 4 else 12):
            continue
        return {"points": X.tolist(), "dtype": dtype, "max_div": max_div,
                "overlap": over}


def nearly(rng, X):
    """Make an extent just larger or smaller than a simple ratio of another.
    """
    ext = np.ptp(X, axis=0)
    k = int(np.argmax(ext))
    j = int(rng.choice([c for c in range(X.shape[1]) if c != k]))
    if not ext[j]:
        return X
    ratio = int(rng.integers(1, 4)) / float(rng.integers(4, 7))
    ratio *= 1 + float(rng.choice([-1, 1, 1])) * 10. ** -int(
        rng.integers(2, 8))
    X = np.array(X)
    X[:, j] *= ratio * ext[k] / ext[j]
    return X


def divisions(X, max_div, total):
    """Divisions per dimension; rounding may add one, so total decides."""
    ext = np.ptp(X.astype(float), axis=0)
    side = ext.max() / max_div
    if side == 0:
        return 1., [1] * X.shape[1]
    opts = []
    for e in ext:
        q = e / side
        opts.append(sorted({max(1, int(np.ceil(q - 1e-9))),
                            max(1, int(np.ceil(q + 1e-9)))}))
    for div in itertools.product(*opts):
        if int(np.prod(div)) == total:
            return side, list(div)
    return side, None


def is_exact(X, max_div, over):
    """Are all the corners multiples of 1/1024, hence without rounding?"""
    def ok(q):
        return (q * 1024).denominator == 1 and abs(q) < 2 ** 20
    vals = [Fraction(float(x)) for x in np.asarray(X).ravel()]
    ext = [Fraction(float(c.max())) - Fraction(float(c.min()))
           for c in np.asarray(X, dtype=float).T]
    side = max(ext) / max_div
    return side > 0 and all(ok(v) for v in vals) and ok(side / 2) and ok(
        Fraction(float(over)) / 2)


def observe(case, mon):
    from permaviss.covers.cubical_cover import generate_cover
    X = gens.points_of(case)
    over, max_div = case["overlap"], case["max_div"]
    clouds, INs, nerve = mon.call(generate_cover, max_div, over, X)
    dim = X.shape[1]
    mon.must(len(clouds) == len(INs) == len(nerve), "lists of length {} {} "
             "{}", len(clouds), len(INs), len(nerve))
    side, div = divisions(X, max_div, int(nerve[0]))
    mon.must(div is not None, "{} hypercubes, extents {} and {} divisions",
             nerve[0], np.ptp(X, axis=0), max_div)
    mon.must(len(INs[0]) == nerve[0] == len(clouds[0]), "{} regions for {} "
             "hypercubes", len(INs[0]), nerve[0])
    sets = []
    lo = X.min(axis=0).astype(float)
    exact = is_exact(X, max_div, over)
    if exact:
        # no rounding in the number of hypercubes either
        ext = [Fraction(float(c.max())) - Fraction(float(c.min()))
               for c in np.asarray(X, dtype=float).T]
        want = [max(1, math.ceil(e * max_div / max(ext))) for e in ext]
        mon.must(div == want, "{} divisions instead of {} for extents {}",
                 div, want, [float(e) for e in ext])
    scale = max(1e-300, float(np.abs(X).max()), over, side)
    tol = 0. if exact else 1e-9 * scale
    owner = np.zeros(len(X), dtype=int)
    for k, pos in enumerate(itertools.product(*[range(d) for d in div])):
        ids = [int(i) for i in INs[0][k]]
        mon.must(len(set(ids)) == len(ids), "point repeated in region {}", k)
        l = lo + side * np.array(pos) - over / 2
        u = lo + side * (np.array(pos) + 1) + over / 2
        inner = ((X >= l + tol) & (X <= u - tol)).all(axis=1)
        outer = ((X >= l - tol) & (X <= u + tol)).all(axis=1)
        got = np.zeros(len(X), dtype=bool)
        got[ids] = True
        mon.must(not np.any(inner & ~got), "hypercube {} {} misses points {}",
                 pos, (l, u), np.nonzero(inner & ~got)[0])
        mon.must(not np.any(got & ~outer), "hypercube {} {} has points {} "
                 "which are outside", pos, (l, u),
                 np.nonzero(got & ~outer)[0])
        if exact:
            mon.count("exact_regions")
            mon.count("points_on_faces", (
                got[:, None] & ((X == l) | (X == u))).any(axis=1).sum())
        sets.append(frozenset(ids))
        owner[ids] += 1
    if over > 4e-9 * scale:
        # with no overlap a point on a face may fall between hypercubes by
        # rounding; points off the faces have been checked above
        mon.must(np.all(owner > 0), "points {} are in no hypercube",
                 np.nonzero(owner == 0)[0])
    # hypercubes that touch have an intersection in the list
    if nerve[0] > 1:
        cells = list(itertools.product(*[range(d) for d in div]))
        have = {tuple(sorted(int(v) for v in s)) for s in nerve[1]}
        for a, b in itertools.combinations(range(len(cells)), 2):
            if max(abs(x - y) for x, y in zip(cells[a], cells[b])) == 1:
                mon.must((a, b) in have, "no intersection of the adjacent "
                         "hypercubes {} and {}", cells[a], cells[b])
                mon.count("edges")
    for n in range(len(nerve)):
        spx = [(k,) for k in range(nerve[0])] if n == 0 else [
            tuple(int(v) for v in s) for s in nerve[n]]
        mon.must(len(spx) == len(INs[n]) == len(clouds[n]),
                 "{} simplices of dimension {} in the nerve, {} regions",
                 len(spx), n, len(INs[n]))
        for k, s in enumerate(spx):
            ids = [int(i) for i in INs[n][k]]
            if n > 0:
                want = frozenset.intersection(*[sets[v] for v in s])
                mon.must(len(ids) == len(want) and set(ids) == want,
                         "region of {} is {}, the intersection is {}", s,
                         ids, sorted(want))
                mon.count("intersections")
            pts = np.asarray(clouds[n][k])
            mon.must(len(pts) == len(ids) and (len(ids) == 0 or (
                pts.shape == (len(ids), dim)
                and np.array_equal(pts, X[ids]))),
                "coordinates of region {} {} are not the ones of its points",
                n, k)
            mon.count("regions")
    # sets of points closer than the overlap lie in a common hypercube
    tol = 1e-9 * scale
    lim = over * (1 - 1e-9) - 2 * tol
    if lim > 0:
        rng = np.random.default_rng(len(X))
        cheb = np.abs(X[:, None, :].astype(float) - X[None].astype(float)
                      ).max(axis=2)
        mem = np.zeros((len(X), len(sets)), dtype=bool)
        for k, s in enumerate(sets):
            mem[list(s), k] = True
        for i in range(len(X)):
            near = np.nonzero(cheb[i] < lim)[0]
            for j in near:
                mon.must((mem[i] & mem[j]).any(), "points {} and {} are "
                         "closer than the overlap but in no common "
                         "hypercube", X[i], X[j])
            mon.count("close_sets", len(near))
            for _ in range(3):
                # grow a set of diameter < overlap
                S = [i]
                for j in rng.permutation(near):
                    if (cheb[j][S] < lim).all():
                        S.append(int(j))
                mon.must(mem[S].all(axis=0).any(), "points {} have diameter "
                         "less than the overlap but no common hypercube",
                         X[S].tolist())
                mon.count("close_sets")
    if nerve[0] > 1:
        mon.seen(div, sorted(len(s) for s in sets))
