"""C13: nerves of cubical covers and flag complexes of graphs."""
import contextlib
import io
import itertools

import numpy as np

from vlib import gens, ref

PROPERTY = "C13"
RULE = (
    "nerve_hypercube_cover for all small and some large divisions in "
    "dimension 1 to 3 (4 with few divisions) against the sets of hypercubes "
    "that pairwise touch; flag_complex of random graphs (empty, sparse, "
    "dense, complete, isolated vertices, edges in any order, also with "
    "the larger vertex first) against an "
    "independent clique enumeration; next_hypercube against lexicographic "
    "order; non-trivial: some triangle; distinct: by number of simplices")
DIVS = ([[a] for a in range(1, 9)]
        + [[a, b] for a in range(1, 6) for b in range(1, 6)]
        + [[7, 2], [2, 7], [6, 3], [1, 9], [9, 1], [300], [12, 12], [2, 130],
           [40, 3]]
        + [[a, b, c] for a in (1, 2, 3) for b in (1, 2, 3)
           for c in (1, 2, 3) if (a > 1) + (b > 1) + (c > 1) < 3]
        + [[4, 1, 2], [1, 2, 4], [2, 4, 1], [2, 2, 2], [1, 5, 1]]
        + [[1, 1, 1, 1], [2, 1, 1, 1], [1, 2, 1, 1], [1, 1, 2, 1],
           [1, 1, 1, 2], [1, 3, 1, 1], [2, 1, 2, 1], [1, 2, 1, 2],
           [2, 2, 1, 1], [3, 1, 1, 2], [1, 1, 3, 2]])
BIG = [[3, 2, 2], [2, 3, 2], [2, 2, 3]]
PLAN = {"quick": [("nerve", len(DIVS)), ("graph", 5000), ("step", 500)],
        "thorough": [("nerve", len(DIVS)), ("bignerve", len(BIG)),
                     ("graph", 150000), ("step", 5000)]}
NEED = {"nerves": 20, "simplices": 20000, "graphs": 500,
        "unordered_graphs": 100}


def make(kind, rng, i):
    if kind == "nerve":
        return {"kind": "nerve", "div": DIVS[i],
                "array": bool(i % 2)}
    if kind == "bignerve":
        return {"kind": "nerve", "div": BIG[i], "array": False}
    if kind == "step":
        return {"kind": kind,
                "div": [int(v) for v in rng.integers(
                    1, 5, int(rng.integers(1, 5)))]}
    n = int(rng.integers(1, 10)) if rng.random() < .8 else int(
        rng.choice([30, 60, 150, 300]))
    if n < 12:
        d = float(rng.choice([0., .2, .5, .8, 1.]))
        E = [[a, b] for a in range(n) for b in range(a + 1, n)
             if rng.random() < d]
        if n > 7 and d > .8:
            E = E[:20]
    else:
        k = int(rng.integers(2, 7))
        V = sorted(int(v) for v in rng.choice(n, k, replace=False))
        E = [[a, b] for a, b in itertools.combinations(V, 2)
             if rng.random() < .8]
        seen = {tuple(e) for e in E}
        for _ in range(10):
            a, b = sorted(int(v) for v in rng.choice(n, 2, replace=False))
            if (a, b) not in seen:
                seen.add((a, b))
                E.append([a, b])
    E = [E[k] for k in rng.permutation(len(E))]
    if rng.random() < .25:
        # edges with the larger vertex first
        E = [e[::-1] if rng.random() < .5 else e for e in E]
    return {"kind": "graph", "n": n, "edges": E,
            "max_dim": int(rng.choice([-2, -1, 0, 1, 2, 2, 3, 3, 4, 5, 7])),
            "type": str(rng.choice(["list", "int", "float"]))}


def cliques(n, E, max_dim):
    adj = {v: set() for v in range(n)}
    for a, b in E:
        adj[a].add(b)
    out = [[(v,) for v in range(n)]]
    cand = {(v,): adj[v] for v in range(n)}
    for d in range(1, max_dim + 1):
        nc = {}
        for s in out[-1]:
            for v in cand[s]:
                nc[s + (v,)] = cand[s] & adj[v]
        out.append(sorted(nc))
        cand = nc
    return out


def compare(mon, got, want, what, ordered=True):
    for d in range(1, len(want)):
        rows = [tuple(s) for s in got[d]]
        mon.must(all(float(v) == int(v) for s in rows for v in s),
                 "{}: vertices are not integers", what)
        rows = [tuple(int(v) for v in s) for s in rows]
        if not ordered:
            rows = [tuple(sorted(s)) for s in rows]
        mon.must(all(a < b for s in rows for a, b in zip(s, s[1:])),
                 "{}: vertices of a {}-simplex are not increasing: {}", what,
                 d, rows)
        mon.must(len(rows) == len(set(rows)), "{}: a {}-simplex is "
                 "repeated", what, d)
        mon.must(sorted(rows) == sorted(want[d]), "{}: {}-simplices missing "
                 "{}, unexpected {}", what, d,
                 sorted(set(want[d]) - set(rows)),
                 sorted(set(rows) - set(want[d])))
        mon.count("simplices", len(rows))


def observe(case, mon):
    from permaviss.covers import cubical_cover as cc
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    if case["kind"] == "nerve":
        div = case["div"]
        got = mon.call(cc.nerve_hypercube_cover,
                       np.array(div) if case["array"] else list(div))
        pos = list(itertools.product(*[range(d) for d in div]))
        E = [(i, j) for i in range(len(pos)) for j in range(i + 1, len(pos))
             if max(abs(a - b) for a, b in zip(pos[i], pos[j])) <= 1]
        top = 2 ** len(div)
        mon.must(got[0] == len(pos), "{} vertices for {}", got[0], div)
        mon.must(len(got) == top + 1, "nerve of {} has {} entries", div,
                 len(got))
        want = cliques(len(pos), E, top)
        compare(mon, got, want, "nerve of {}".format(div))
        mon.count("nerves")
        if len(want) > 2 and want[2]:
            mon.seen("nerve", div)
        return
    if case["kind"] == "step":
        div = case["div"]
        cells = [list(c) for c in itertools.product(
            *[range(d) for d in div])]
        pos = [0] * len(div)
        for k, c in enumerate(cells):
            mon.must([int(v) for v in pos] == c, "position {} instead of {} "
                     "for {}", pos, c, div)
            if k + 1 < len(cells):
                mon.call(cc.next_hypercube, pos, div)
        return
    n, E, md = case["n"], case["edges"], case["max_dim"]
    if case["type"] == "list":
        G = [list(e) for e in E]
    else:
        G = np.array(E, dtype=case["type"]).reshape(-1, 2)
    if md < 0:
        exc = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                flag_complex(G, n, md)
            except Exception as e:
                exc = e
        mon.must(isinstance(exc, ValueError), "negative dimension does not "
                 "raise a ValueError: {!r}", exc)
        return
    got = mon.call(flag_complex, G, n, md)
    mon.must(got[0] == n and len(got) == md + 1, "{} vertices, {} entries "
             "for n={}, max_dim={}", got[0], len(got), n, md)
    want = cliques(n, [sorted(e) for e in E], md)
    ordered = all(a < b for a, b in E)
    compare(mon, got, want, "flag complex of {}".format(E), ordered)
    mon.count("unordered_graphs", not ordered)
    mon.count("graphs")
    if md > 1 and want[2]:
        mon.seen(n, [len(w) for w in want])
