"""C20: sample point clouds."""
import itertools

import numpy as np

from vlib import gens, ref
from vlib.core import Violation

PROPERTY = "C20"
RULE = (
    "all the generators of examples.py with random sizes, radii, dimensions, "
    "centres and states of numpy.random; each point is compared with the "
    "equation of its shape and clouds of 3000 points have to reach each of "
    "32 sectors, each octant of each three coordinates and both ends; take_sample is replayed as a farthest point "
    "search on its own output, on clouds with ties and duplicates; "
    "non-trivial: at least two points; distinct: by generator and arguments")
PLAN = {"quick": [("take", 3000), ("shapes", 6000), ("spread", 240)],
        "thorough": [("take", 60000), ("shapes", 150000), ("spread", 6000)]}
NEED = {"samples_checked": 3000, "points_checked": 20000, "shape_circle": 100,
        "shape_random_circle": 100, "shape_ball": 100,
        "shape_random_sphere": 100, "shape_random_cube": 100,
        "shape_grid": 100, "shape_grid_tridimensional": 100,
        "shape_torus3D": 100, "spread": 100}
SHAPES = ["circle", "random_circle", "ball", "random_sphere", "random_cube",
          "grid", "grid_tridimensional", "torus3D"]


def make(kind, rng, i):
    if kind == "take":
        dim = int(rng.choice([1, 2, 2, 3, 4]))
        fam = str(rng.choice(gens.FAMILIES))
        if fam in ("sphere", "torus") and dim not in (2, 3):
            fam = "uniform"
        X = gens.cloud(rng, dim, fam, 30)
        if rng.random() < .05:
            X = X[:1]
        n = int(rng.integers(1, len(X) + 4))
        return {"kind": kind, "points": X.tolist(), "n": n,
                "seed": int(rng.integers(0, 2 ** 31)) if rng.random() < .6
                else int(rng.integers(0, 3)),
                "use_seed": bool(rng.random() < .5)}
    name = SHAPES[i % len(SHAPES)]
    r = float(rng.choice([.001, .5, 1., 2., 7.5, 1000.])) * (
        1 if rng.random() < .5 else float(rng.random()) + .1)
    return {"kind": kind, "name": name, "spread": kind == "spread",
            "n": int(rng.integers(1, 40)) if kind == "shapes" else 3000,
            "r": r, "dim": int(rng.integers(1, 10)),
            "eps": float(rng.choice([0., .1, .5, 1., 3.])),
            "center": (rng.random(2) * 10 - 5).tolist(),
            "seed": int(rng.integers(0, 2 ** 31)) if rng.random() < .6
            else int(rng.integers(0, 3)),
            "R": float(r * (1 + 3 * rng.random())),
            "a": int(rng.integers(1, 7)), "b": int(rng.integers(1, 7)),
            "c": int(rng.integers(1, 5)),
            "variant": int(rng.integers(0, 4))}


def observe(case, mon):
    from permaviss.sample_point_clouds import examples as ex
    if case["kind"] == "take":
        return observe_take(ex, case, mon)
    name, n, r, dim = case["name"], case["n"], case["r"], case["dim"]
    f = getattr(ex, name)
    np.random.seed(case["seed"] % 2 ** 31)
    v = case["variant"]
    tol = 1e-9 * max(1e-12, r)
    if name == "circle":
        X = mon.call(f, n, r)
        shape = (n, 2)
        want = [[r * np.cos(2 * np.pi * k / n), r * np.sin(2 * np.pi * k / n)]
                for k in range(n)]
        ok = np.shape(X) == shape and np.allclose(X, want, rtol=0, atol=tol)
    elif name == "random_circle":
        args = {}
        c = [0, 0]
        if v & 1:
            args["center"] = c = case["center"]
        if v & 2:
            args["seed"] = case["seed"] % 2 ** 31
        X = mon.call(f, n, r, case["eps"], **args)
        shape = (n, 2)
        d = np.linalg.norm(np.asarray(X) - c, axis=1) if np.shape(
            X) == shape else np.array([np.nan])
        tol = 1e-9 * (r + max(map(abs, c)))
        ok = np.all(d >= r - tol) and np.all(
            d <= r * (1 + case["eps"]) + tol)
        if v & 2:
            np.random.seed(12345)
            Y = mon.call(f, n, r, case["eps"], **args)
            mon.must(np.array_equal(X, Y), "random_circle with a seed is "
                     "not reproducible")
    elif name == "ball":
        X = mon.call(f, n, r, dim)
        shape = (n, dim)
        ok = np.shape(X) == shape and np.all(
            np.linalg.norm(X, axis=1) <= r + tol)
    elif name == "random_sphere":
        X = mon.call(f, n, r, dim)
        shape = (n, dim)
        ok = np.shape(X) == shape and np.all(
            np.abs(np.linalg.norm(X, axis=1) - r) <= tol)
    elif name == "random_cube":
        X = mon.call(f, n, dim)
        shape = (n, dim)
        ok = np.shape(X) == shape and np.all(np.abs(X) <= .5)
    elif name == "grid":
        a, b = case["a"], case["b"]
        X = mon.call(f, a, b)
        shape = (a * b, 2)
        want = {(i - (a - 1) / 2., j - (b - 1) / 2.)
                for i in range(a) for j in range(b)}
        ok = np.shape(X) == shape and {tuple(map(float, x))
                                       for x in X} == want
    elif name == "grid_tridimensional":
        a, b, c = case["a"], case["b"], case["c"]
        X = mon.call(f, a, b, c)
        shape = (a * b * c, 3)
        want = {(i - (a - 1) / 2., j - (b - 1) / 2., k - (c - 1) / 2.)
                for i in range(a) for j in range(b) for k in range(c)}
        ok = np.shape(X) == shape and {tuple(map(float, x))
                                       for x in X} == want
    else:
        R = case["R"]
        if v == 0:
            bad = None
            try:
                f(n, R + 1., R)
            except ValueError as e:
                bad = e
            mon.must(bad is not None, "torus with min_rad > max_rad does "
                     "not raise a ValueError")
        if v == 1:
            r, R = 1, 3
            X = mon.call(f, n)
        else:
            X = mon.call(f, n, r, R)
        shape = (n, 3)
        ok = np.shape(X) == shape
        if ok:
            X = np.asarray(X)
            q = np.hypot(np.hypot(X[:, 0], X[:, 1]) - R, X[:, 2])
            ok = np.all(np.abs(q - r) <= 1e-9 * R)
    mon.must(np.shape(X) == shape, "{} gives an array of shape {}, expected "
             "{}", name, np.shape(X), shape)
    mon.must(bool(ok), "{} with {} gives points out of the shape: {}", name,
             {k: case[k] for k in ("n", "r", "dim", "eps", "R")},
             np.asarray(X).tolist())
    mon.must(bool(np.all(np.isfinite(X))), "{} gives {}", name, X)
    if name.startswith(("random", "ball", "torus")) and n > 4 and dim > 1:
        # points are sampled, not one point repeated
        mon.must(len(np.unique(np.asarray(X), axis=0)) == n,
                 "{} repeats points", name)
    if case.get("spread"):
        spread(name, np.asarray(X), case, mon)
    mon.count("shape_" + name)
    mon.count("points_checked", len(X))
    if len(X) > 1:
        mon.seen(name, n, dim, r)


def spread(name, X, case, mon):
    """Random clouds of some thousand points reach all parts of the shape.

    A part has at least 1/32 of the 3000 points in the mean, so that missing
    one by chance has probability below 1e-39.
    """
    def sectors(a, b):
        got = np.floor((np.arctan2(b, a) + np.pi) / (np.pi / 16)
                       ).clip(0, 31).astype(int)
        return sorted(set(range(32)) - set(got.tolist()))
    if name == "random_circle":
        c = case["center"] if case["variant"] & 1 else [0, 0]
        Y = X - c
        mon.must(not sectors(Y[:, 0], Y[:, 1]), "random circle of {} "
                 "points does not reach the sectors {}", len(X),
                 sectors(Y[:, 0], Y[:, 1]))
        if case["eps"]:
            q = (np.linalg.norm(Y, axis=1) / case["r"] - 1) / case["eps"]
            mon.must(q.min() < .05 and q.max() > .95, "noise of the random "
                     "circle only in {} of its range", (q.min(), q.max()))
    elif name == "torus3D":
        R = 3 if case["variant"] == 1 else case["R"]
        th = sectors(X[:, 0], X[:, 1])
        al = sectors(np.hypot(X[:, 0], X[:, 1]) - R, X[:, 2])
        mon.must(not th and not al, "torus of {} points does not reach the "
                 "sectors {} {}", len(X), th, al)
    elif name in ("ball", "random_sphere", "random_cube"):
        d = min(3, X.shape[1])
        for cols in itertools.combinations(range(X.shape[1]), d):
            octants = {tuple(x) for x in (X[:, cols] > 0).tolist()}
            mon.must(len(octants) == 2 ** d, "{} of {} points in dimension "
                     "{} only reaches the octants {} of the coordinates {}",
                     name, len(X), X.shape[1], octants, cols)
        size = .5 if name == "random_cube" else case["r"]
        least = .9 if name == "random_cube" else .25
        far = (X.min(axis=0) / size, X.max(axis=0) / size)
        mon.must((far[0] < -least).all() and (far[1] > least).all(),
                 "{} of {} points only extends to {}", name, len(X), far)
    else:
        return
    mon.count("spread")


def observe_take(ex, case, mon):
    X = np.array(case["points"])
    keep = X.copy()
    n, seed = case["n"], case["seed"] % 2 ** 31
    if case["use_seed"]:
        np.random.seed(seed ^ 1)
        S = mon.call(ex.take_sample, X, n, seed=seed)
        np.random.seed(5)
        T = mon.call(ex.take_sample, X, n, seed=seed)
        mon.must(np.array_equal(S, T), "take_sample with a seed is not "
                 "reproducible")
    else:
        np.random.seed(seed)
        S = mon.call(ex.take_sample, X, n)
    S = np.asarray(S)
    mon.must(np.array_equal(X, keep), "take_sample changed the cloud")
    k = min(n, len(X))
    mon.must(S.shape == (k, X.shape[1]), "sample of shape {}, expected {}",
             S.shape, (k, X.shape[1]))
    # multiset inclusion
    left = {}
    for x in X:
        left[tuple(x)] = left.get(tuple(x), 0) + 1
    for s in S:
        mon.must(left.get(tuple(s), 0) > 0, "point {} is not in the cloud, "
                 "or taken too often", s)
        left[tuple(s)] -= 1
    D = np.sqrt(((X[:, None, :] - X[None]) ** 2).sum(-1))
    first = {tuple(x): i for i, x in enumerate(X)}
    near = D[first[tuple(S[0])]].copy()
    for s in S[1:]:
        i = first[tuple(s)]
        mon.must(near[i] >= near.max() - 1e-9 * max(1., D.max()),
                 "take_sample took a point at distance {} when there is one "
                 "at distance {}", near[i], near.max())
        near = np.minimum(near, D[i])
        mon.count("samples_checked")
    if k > 1:
        mon.seen("take", len(X), k)
