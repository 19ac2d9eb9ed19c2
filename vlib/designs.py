"""Point clouds built from designs: flag complexes with prescribed regions.

A design says, for each point, on which side of each of the `m` divided
directions it lies (L, R, or B if it is in both cells), and at which of three
levels each edge enters, if at all. The points are then placed in Euclidean
space, with some extra directions which are not divided, by minimising how
much distances and sides differ from what the design asks for. This reaches
entries and differentials of the spectral sequence which random clouds never
have (classes three columns away from the first one, third differentials,
classes hit by several pages).
"""
import itertools

import numpy as np
from scipy.optimize import minimize

from vlib import gens

WINDOWS = [(0., .86), (.88, .92), (.94, .985)]
TIGHT = [(0., .985), (.987, .990), (.991, .995)]
FAR = 1.015


class Design(object):

    def __init__(self, m):
        self.m, self.windows = m, WINDOWS
        self.types, self.edges = [], {}

    def point(self, t):
        self.types.append(t)
        return len(self.types) - 1

    def compatible(self, a, b):
        return all({x, y} != {"L", "R"} for x, y in zip(
            self.types[a], self.types[b]))

    def edge(self, a, b, level=0):
        if a != b and self.compatible(a, b):
            self.edges[min(a, b), max(a, b)] = level

    def cut(self, a, b):
        self.edges.pop((min(a, b), max(a, b)), None)

    def level(self, a, b):
        return self.edges.get((min(a, b), max(a, b)))

    def embed(self, rng, extra, tries=2):
        n, m = len(self.types), self.m
        lo, hi = np.zeros((n, n)), np.full((n, n), 1e9)
        for a in range(n):
            for b in range(n):
                lv = self.level(a, b)
                if a != b:
                    lo[a, b], hi[a, b] = (FAR, 1e9) if lv is None else (
                        self.windows[lv])
        clo, chi = np.full((n, m), -.495), np.full((n, m), .495)
        for a, t in enumerate(self.types):
            for d, x in enumerate(t):
                if x == "L":
                    clo[a, d], chi[a, d] = -3., -.505
                if x == "R":
                    clo[a, d], chi[a, d] = .505, 3.

        def loss(x):
            X = x.reshape(n, m + extra)
            D = X[:, None] - X[None]
            d = np.sqrt((D ** 2).sum(-1) + 1e-14)
            w = np.maximum(d - hi, 0) - np.maximum(lo - d, 0)
            g = 2 * ((w / d)[:, :, None] * D).sum(1)
            o = np.maximum(X[:, :m] - chi, 0) - np.maximum(clo - X[:, :m], 0)
            g[:, :m] += 10 * o
            return (w ** 2).sum() / 2 + 5 * (o ** 2).sum(), g.ravel()
        for _ in range(tries):
            x = rng.normal(size=(n, m + extra)) * .4
            x[:, :m] = np.clip(x[:, :m], clo, chi)
            r = minimize(loss, x.ravel(), jac=True, method="L-BFGS-B",
                         options={"maxiter": 3000, "ftol": 1e-15,
                                  "gtol": 1e-12})
            if r.fun < 1e-8:
                return r.x.reshape(n, m + extra)
        return None


def sphere(D, j):
    """Core: a sphere of dimension j in all the cells."""
    pairs = [(D.point("B" * D.m), D.point("B" * D.m)) for _ in range(j + 1)]
    for P, Q in itertools.combinations(pairs, 2):
        for a in P:
            for b in Q:
                D.edge(a, b)
    return pairs


def side(D, **k):
    """Type with the given letters, for instance side(D, x="L")."""
    return "".join(k.get("xyz"[i], "B") for i in range(D.m))


def crossed(D, rng, pairs):
    """One point at each side of each direction, joined to the core."""
    core = [a for P in pairs for a in P]
    sides = {}
    for i in range(D.m):
        for s in "LR":
            a = D.point(side(D, **{"xyz"[i]: s}))
            sides[i, s] = a
            for c in core:
                D.edge(a, c)
    for (i, s), (k, t) in itertools.combinations(sides, 2):
        if i != k:
            D.edge(sides[i, s], sides[k, t])
    return sides


def collar(D, S, T, typ):
    """Two spheres with the same number of points become homologous.

    S and T list the points, with the same edges between those; the points
    between them are of type `typ`.
    """
    M = [D.point(typ) for _ in S]
    n = len(S)
    for i in range(n):
        for j in range(i, n):
            if i == j or D.level(S[i], S[j]) is not None:
                D.edge(M[i], M[j])
                D.edge(S[i], M[j])
                D.edge(M[i], T[j])
    return M


def second_then_third():
    """The third differential of a class is hit by a second differential."""
    D = Design(3)
    D.windows = TIGHT
    (qp, qm), = pairs = sphere(D, 0)
    s = crossed(D, None, pairs)
    xl, yl, zl, zr = s[0, "L"], s[1, "L"], s[2, "L"], s[2, "R"]
    D.cut(xl, yl)
    w = D.point("LLB")
    o = D.point("LLR")
    for a in (qp, qm, xl, yl):
        D.edge(w, a)
    for a in (qp, qm, xl, yl, w, zr):
        D.edge(o, a)
    S = [qp, qm, xl, w, yl, zl]
    c = [D.point("BBL") for _ in range(4)]
    X, Y, XR, YR = (D.point(t) for t in ("LBL", "BLL", "RBL", "BRL"))
    for k in range(4):
        D.edge(c[k], c[(k + 1) % 4])
        for P in (X, Y, XR, YR):
            D.edge(c[k], P)
    D.edge(X, YR)
    D.edge(XR, Y)
    D.edge(XR, YR)
    collar(D, S, [c[0], c[2], X, c[1], Y, c[3]], "LLL")
    return D


def third():
    """A class with nonzero third differential."""
    D = Design(3)
    (qp, qm), = pairs = sphere(D, 0)
    s = crossed(D, None, pairs)
    D.cut(s[0, "L"], s[1, "L"])
    w, o = D.point("LLB"), D.point("LLR")
    for a in (qp, qm, s[0, "L"], s[1, "L"]):
        D.edge(w, a)
    for a in (qp, qm, s[0, "L"], s[1, "L"], w, s[2, "R"]):
        D.edge(o, a)
    return D


def random_type(rng, m):
    while True:
        t = "".join(rng.choice(list("LBR"), m))
        if t != "B" * m:
            return t


def mutate(D, rng, pairs, sides):
    core = [a for P in pairs for a in P]
    u = int(rng.integers(7))
    lv = int(rng.integers(1, 3))
    if u == 0:
        # fills the core
        a = D.point("B" * D.m)
        for c in core:
            D.edge(a, c, lv)
        for k in sides.values():
            if rng.random() < .4:
                D.edge(a, k, int(rng.integers(lv, 3)))
    elif u in (1, 2):
        # fills part of some cell, now or later
        t = random_type(rng, D.m)
        a = D.point(t)
        lv = int(rng.integers(3))
        keep = 1. if rng.random() < .5 else .8
        for b in range(a):
            if D.compatible(a, b) and rng.random() < keep:
                D.edge(a, b, lv)
    elif u == 3:
        P = pairs[int(rng.integers(len(pairs)))]
        D.edge(P[0], P[1], lv)
    elif u == 4:
        E = [e for e in D.edges if e[0] >= len(core)]
        if E:
            D.cut(*E[int(rng.integers(len(E)))])
    elif u == 5:
        E = sorted(D.edges)
        D.edges[E[int(rng.integers(len(E)))]] = lv
    else:
        # another path between two points of the core
        P = pairs[int(rng.integers(len(pairs)))]
        a = D.point(random_type(rng, D.m) if rng.random() < .7
                    else "B" * D.m)
        for c in core:
            if c in P or rng.random() < .5:
                D.edge(a, c, int(rng.integers(3)))


def random_design(rng, m):
    D = Design(m)
    j = int(rng.integers(0, 2 if m == 2 else 1)) if m > 1 else int(
        rng.integers(1, 3))
    pairs = sphere(D, j)
    sides = crossed(D, rng, pairs)
    for _ in range(int(rng.integers(1, 6))):
        mutate(D, rng, pairs, sides)
    return D, m + j


def cloud(D, rng, extra, over=1.):
    X = D.embed(rng, extra)
    if X is None:
        return None
    far = np.zeros((2, X.shape[1]))
    far[0, :D.m], far[1, :D.m] = -4., 4.
    return np.vstack([X, far])


def case(D, rng, top, extra=None, large=.1):
    """A call of create_MV_ss on the design, or None if it has no room."""
    extra = int(rng.integers(2, 7)) if extra is None else extra
    X = cloud(D, rng, extra)
    if X is None:
        return None
    X = X[rng.permutation(len(X))]
    if not gens.safe_radius(gens.distances(X), 1., False):
        return None
    k = float(rng.choice([1., 1., 1., 1e-3, 32.]))
    return {"family": "design", "points": (X * k).tolist(), "dtype": "float",
            "max_r": k, "max_dim": top + 1, "max_div": 2, "overlap": k,
            "p": gens.prime(rng, large)}


def design_case(rng, m, large=.1):
    while True:
        D, top = random_design(rng, m)
        c = case(D, rng, top, large=large)
        if c is not None:
            return c


def third_case(rng, i):
    """Third differentials, also when a second one hits the same class."""
    while True:
        D = [second_then_third, third][i % 3 > 0]()
        n = len(D.types)
        if i % 3 == 2:
            # the third differential is zero from some radius on
            a = D.point("LLL")
            for b in range(n):
                D.edge(a, b, int(rng.integers(1, 3)))
        for _ in range(int(rng.integers(0, 3))):
            E = sorted(D.edges)
            D.edges[E[int(rng.integers(len(E)))]] = int(rng.integers(1, 3))
        c = case(D, rng, 3, extra=int(rng.integers(4, 8)))
        if c is not None:
            return c
