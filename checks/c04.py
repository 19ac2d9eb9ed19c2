"""C04: vietoris_rips lists exactly the simplices of diameter < max_r."""
import numpy as np

from vlib import fgens, gens, ref

PROPERTY = "C04"
RULE = (
    "distance matrices of clouds, random symmetric matrices with ties, "
    "zeros and entries equal to max_r, complexes with "
    "up to 17000 simplices of one dimension, in float and integer dtype, and the "
    "empty matrix; the returned lists are compared with the cliques found by "
    "an independent enumeration; non-trivial: some 2-simplex; distinct: by "
    "number of simplices")
PLAN = {"quick": [("cloud", 4000), ("metric", 9000), ("special", 1000),
                  ("dense", 500), ("many", 160), ("full", 8)],
        "thorough": [("cloud", 50000), ("metric", 80000), ("special", 5000),
                     ("dense", 6000), ("many", 1500), ("full", 60)]}
NEED = {"simplices": 50000, "edges_with_length_max_r": 200,
        "zero_length_edges": 200}


def make(kind, rng, i):
    while True:
        max_dim = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
        dtype = "float"
        if kind == "cloud":
            dim = int(rng.choice([1, 2, 2, 3, 5]))
            fam = str(rng.choice(gens.FAMILIES))
            if fam in ("sphere", "torus") and dim not in (2, 3):
                continue
            D = gens.distances(gens.cloud(rng, dim, fam, 26))
            max_r = float(rng.choice([.3, .6, .9, 1.2, 1.8]))
            if rng.random() < .3 and len(D) > 1:
                max_r = float(rng.choice(D[np.triu_indices(len(D), 1)]))
        elif kind == "metric":
            D = fgens.random_metric(rng, int(rng.integers(1, 13)))
            max_r = float(rng.choice([.25, .5, .75, 1., 1.2, 2., 3., 4., 9.]))
            if rng.random() < .3 and np.array_equal(D, np.rint(D)):
                dtype = "int"
            if rng.random() < .1:
                # points at infinite distance
                k = int(rng.integers(0, len(D)))
                D[k, :] = D[:, k] = np.inf
                D[k, k] = 0
                dtype = "float"
        elif kind == "many":
            # many points with few edges, large vertex labels
            n = int(rng.integers(100, 320))
            X = rng.random((n, 2))
            k = int(rng.integers(4, 9))
            X[rng.choice(n, k, replace=False)] *= .01
            D = gens.distances(X)
            max_r = float(rng.choice([.02, .03, .04]))
        elif kind == "full":
            # all the pairs, thousands of simplices
            n, max_dim = [(48, 2), (26, 3), (180, 2), (16, 4)][i % 4]
            if n == 180:
                # two halves, with all the edges between them
                D = 1 + rng.random((n, n)) * .4
                D[:90, :90] += 2
                D[90:, 90:] += 2
                for _ in range(12):
                    a, b = rng.choice(90, 2, replace=False)
                    D[a, b] = D[b, a] = 1.45
                    D[a + 90, b + 90] = D[b + 90, a + 90] = .9
                D = np.triu(D, 1)
                D += D.T
                return {"dist": D.tolist(), "max_r": 1.5,
                        "max_dim": max_dim, "dtype": "float"}
            D = gens.distances(rng.random((n - int(rng.integers(0, 4)), 3)))
            return {"dist": D.tolist(), "max_r": 5., "max_dim": max_dim,
                    "dtype": "float"}
        elif kind == "dense":
            # one big clique, all the faces of a simplex
            D = 1 + fgens.random_metric(rng, int(rng.integers(4, 8)))
            np.fill_diagonal(D, 0)
            max_r = 10.
            max_dim = int(rng.choice([4, 5, 6, 7]))
        else:
            n = int(rng.choice([0, 1, 2, 3, 4]))
            D = np.zeros((n, n))
            max_r = float(rng.choice([0., .5, 1.]))
            max_dim = int(rng.choice([-1, 0, 1, 2, 3]))
            if n > 1 and rng.random() < .7:
                D = fgens.random_metric(rng, n)
        if not fgens.cap_edges(D, max_r, max(1, max_dim), 260):
            continue
        return {"dist": D.tolist(), "max_r": max_r, "max_dim": max_dim,
                "dtype": dtype}


def observe(case, mon):
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    D = np.array(case["dist"], dtype=case["dtype"]) if len(
        case["dist"]) else []
    max_r, max_dim = case["max_r"], case["max_dim"]
    C, R = mon.call(vietoris_rips, D, max_r, max_dim)
    top = max(1, max_dim)
    want = ref.rips(D, max_r, top)
    mon.must(len(C) == len(R) == top + 1, "{} and {} entries for "
             "max_dim={}", len(C), len(R), max_dim)
    mon.must(C[0] == len(D), "{} vertices out of {}", C[0], len(D))
    mon.must(len(R[0]) == len(D) and not np.any(R[0]),
             "radii of the vertices are {}", R[0])
    n2 = 0
    for d in range(1, top + 1):
        rows = [tuple(int(v) for v in s) for s in C[d]]
        mon.must(all(float(v) == int(v) for s in C[d] for v in s),
                 "vertices are not integers")
        rad = [float(r) for r in R[d]]
        mon.must(len(rows) == len(rad), "{} simplices with {} radii",
                 len(rows), len(rad))
        mon.must(all(len(s) == d + 1 and all(
            a < b for a, b in zip(s, s[1:])) for s in rows),
            "vertices of some {}-simplex are not increasing: {}", d, rows)
        mon.must(len(set(rows)) == len(rows),
                 "some {}-simplex is listed twice: {}", d, rows)
        got, exp = dict(zip(rows, rad)), dict(want[d])
        mon.must(set(got) == set(exp), "{}-simplices: missing {}, "
                 "unexpected {}", d, sorted(set(exp) - set(got)),
                 sorted(set(got) - set(exp)))
        for s in rows:
            mon.must(got[s] == exp[s], "simplex {} has radius {}, its "
                     "diameter is {}", s, got[s], exp[s])
        mon.must(all(a <= b for a, b in zip(rad, rad[1:])),
                 "radii of dimension {} are not sorted: {}", d, rad)
        mon.count("simplices", len(rows))
        n2 += d > 1 and len(rows)
    if len(D) > 1:
        u = np.asarray(D)[np.triu_indices(len(D), 1)]
        mon.count("edges_with_length_max_r", int((u == max_r).sum()))
        mon.count("zero_length_edges", int((u == 0).sum()))
    if n2:
        mon.seen([len(c) for c in C[1:]], len(D))
