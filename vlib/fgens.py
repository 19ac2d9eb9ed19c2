"""Filtered simplicial complexes as workloads."""
import itertools

import numpy as np

from vlib import gens, ref


def random_metric(rng, n):
    """Symmetric matrix with zero diagonal; not necessarily a metric."""
    k = int(rng.integers(0, 4))
    if k == 0:
        M = rng.integers(1, 6, (n, n)).astype(float)
    elif k == 1:
        M = rng.random((n, n))
    elif k == 2:
        M = rng.integers(0, 4, (n, n)) / 4.
    else:
        M = 1 + rng.random((n, n)) * .5
    M = np.triu(M, 1)
    return M + M.T


def random_complex(rng, nmax, top):
    """Random simplicial complex: all faces of random simplices."""
    n = int(rng.integers(2, nmax + 1))
    S = {(i,) for i in range(n)}
    for _ in range(int(rng.integers(1, 7))):
        k = int(rng.integers(2, min(n, top + 1) + 1))
        s = tuple(sorted(int(v) for v in rng.choice(n, k, replace=False)))
        for j in range(1, k + 1):
            S.update(itertools.combinations(s, j))
    if rng.random() < .5:
        # boundary of a simplex, so that there are higher cycles
        k = min(n, top + 1)
        s = tuple(sorted(int(v) for v in rng.choice(n, k, replace=False)))
        for j in range(1, k):
            S.update(itertools.combinations(s, j))
    return S, n


def cap_edges(D, max_r, max_dim, lim):
    idx = list(range(len(D)))
    c = gens.cell_counts(None, idx, D, max_r, max_dim, lim)
    return c is not None and max(c) <= lim


def filtered_case(kind, rng, small=False):
    p = gens.prime(rng)
    lim = 70 if small else 150
    if kind == "big":
        lim = 420
    while True:
        max_dim = int(rng.choice([1, 2, 2, 3, 3, 4]))
        if kind in ("rips", "big"):
            dim = int(rng.choice([1, 2, 2, 3, 4]))
            fam = str(rng.choice([f for f in gens.FAMILIES]))
            if fam in ("sphere", "torus") and dim in (1, 4):
                continue
            X = gens.cloud(rng, dim, fam, 14 if small else (
                60 if kind == "big" else 24))
            if kind == "big" and len(X) < 25:
                continue
            if len(X) < 2:
                continue
            max_r = float(rng.choice([.3, .6, .9, 1.2, 1.8])) + float(
                rng.random() * .01)
            D = gens.distances(X)
            if not gens.safe_radius(D, max_r, False):
                continue
            if not cap_edges(D, max_r, max_dim, lim):
                continue
            if rng.random() < .3:
                f = 2. ** int(rng.choice([-30, -10, 10, 30]))
                X, max_r = X * f, max_r * f
            return {"kind": kind, "points": X.tolist(), "max_r": max_r,
                    "max_dim": max_dim, "p": p}
        if kind == "metric":
            n = int(rng.integers(1, 11))
            D = random_metric(rng, n)
            max_r = float(rng.choice([1., 2., 3., .5, .9, 5., 10.]))
            if not cap_edges(D, max_r, max_dim, lim):
                continue
            if rng.random() < .3:
                f = 2. ** int(rng.choice([-30, -10, 10, 30]))
                D, max_r = D * f, max_r * f
            return {"kind": kind, "dist": D.tolist(), "max_r": max_r,
                    "max_dim": max_dim, "p": p}
        if kind == "filtered":
            S, n = random_complex(rng, 8, 4)
            dmax = max(len(s) for s in S) - 1
            if dmax < 1 or len(S) > (70 if small else 120):
                continue
            vals = sorted(rng.random(6).tolist()) if rng.random() < .5 else [
                1., 2., 3., 4., 5., 6.]
            zero_edges = rng.random() < .2
            rad = {}
            for s in sorted(S, key=len):
                if len(s) == 1:
                    rad[s] = 0.
                    continue
                low = max(rad[f] for f in itertools.combinations(
                    s, len(s) - 1))
                up = [v for v in vals if v >= low]
                r = low
                if up and rng.random() < .6:
                    r = float(rng.choice(up))
                if r == 0. and not zero_edges:
                    r = vals[0]
                rad[s] = r
            levels = []
            for d in range(dmax + 1):
                lev = [s for s in S if len(s) == d + 1]
                lev.sort()
                if d > 0:
                    lev = [lev[k] for k in rng.permutation(len(lev))]
                    lev.sort(key=lambda s: rad[s])
                levels.append([[list(s), rad[s]] for s in lev])
            extra = int(rng.random() < .15)
            for _ in range(extra):
                levels.append([])
            # some cycles only die at max_r
            max_r = float(vals[-1] * (1 + float(rng.choice([.5, 1e-3]))))
            if rng.random() < .25:
                # some simplices only enter at max_r
                max_r = float(vals[-1])
            if rng.random() < .3:
                f = 2. ** int(rng.choice([-30, -10, 10, 30]))
                max_r *= f
                levels = [[[s, r * f] for s, r in lev] for lev in levels]
            return {"kind": kind, "levels": levels, "max_r": max_r, "p": p,
                    "max_dim": dmax + extra}
        raise ValueError(kind)


def build(case, mon, reference):
    """The complex, radii and differentials, and a list of its simplices.

    The list is the one of the reference, or what the code returned.
    """
    p, max_r = case["p"], case["max_r"]
    if case["kind"] == "filtered":
        spx = [[(tuple(s), float(r)) for s, r in lev]
               for lev in case["levels"]]
        n = [len(lev) for lev in spx]
        C = [n[0]] + [np.array([s for s, _ in lev], dtype=int)
                      for lev in spx[1:]]
        R = [np.array([r for _, r in lev]) for lev in spx]
        D = [n[0]] + [ref.boundary(
            [s for s, _ in spx[d]], [s for s, _ in spx[d - 1]], p
        ).astype(float) for d in range(1, len(spx))]
        return C, R, D, spx, max_r, p
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    if case["kind"] in ("rips", "big"):
        Dist = gens.distances(np.array(case["points"]))
    else:
        Dist = np.array(case["dist"])
    C, R = mon.call(vietoris_rips, Dist, max_r, case["max_dim"])
    D = mon.call(complex_differentials, C, p)
    if reference:
        # computed from the distances, not from C
        spx = ref.rips(Dist, max_r, max(1, case["max_dim"]))
    else:
        spx = [[((i,), 0.) for i in range(C[0])]]
        for d in range(1, len(C)):
            spx.append([(tuple(int(v) for v in s), float(r))
                        for s, r in zip(C[d], R[d])])
    return C, R, D, spx, max_r, p
