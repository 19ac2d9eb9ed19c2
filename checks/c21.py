"""C21: algebra of local chains."""
import contextlib
import io

import numpy as np

from vlib import gens

PROPERTY = "C21"
RULE = (
    "random local chains (several covers, increasing references, empty "
    "entries) under random operations: construction, add_entry, addition, "
    "in place addition, minus, sums, copy_seq; compared with a model with "
    "one vector per cover and expression; data of wrong sizes must raise "
    "ValueError; non-trivial: two nonzero operands with different "
    "references; distinct: by references and prime")
PLAN = {"quick": [("ops", 12000), ("errors", 1000), ("big", 120)],
        "thorough": [("ops", 400000), ("errors", 10000), ("big", 3000)]}
NEED = {"additions": 5000, "sums": 5000, "errors_raised": 500,
        "copies": 5000, "histories": 5000}


def chain(rng, sizes, n, p, ranges):
    ref, coord = [], []
    for s in sizes:
        if rng.random() < .25:
            ref.append([])
            coord.append([])
            continue
        k = int(rng.integers(1, n + 1))
        if rng.random() < .3:
            k = n
        r = sorted(int(v) for v in rng.choice(n, k, replace=False))
        ref.append(r)
        coord.append(rng.integers(0, p, (k, s)).tolist())
    return {"ref": ref, "coord": coord}


def make(kind, rng, i):
    if kind == "errors":
        return {"kind": kind, "which": int(rng.integers(0, 5)),
                "k": int(rng.integers(1, 5)), "s": int(rng.integers(1, 5))}
    p = gens.prime(rng, .2)
    sizes = [int(v) for v in rng.integers(1, 6, int(rng.integers(1, 6)))]
    n = int(rng.integers(1, 7))
    m = int(rng.integers(1, 5))
    if kind == "big":
        kind = "ops"
        sizes = [int(v) for v in rng.integers(1, 30, 20)]
        n, m = int(rng.integers(20, 60)), int(rng.integers(1, 60))
    return {"kind": kind, "p": p, "sizes": sizes, "n": n,
            "A": chain(rng, sizes, n, p, 0), "B": chain(rng, sizes, n, p, 0),
            "S": rng.integers(-p, p, (m, n)).tolist()}


def model(ch, sizes, n):
    """Dense coordinates per cover."""
    out = []
    for ref, coord, s in zip(ch["ref"], ch["coord"], sizes):
        M = np.zeros((n, s), dtype=np.int64)
        if len(ref):
            M[np.asarray(ref)] = np.asarray(coord)
        out.append(M)
    return out


def build(lc, ch, how):
    if how:
        return lc([np.array(r, dtype=int) for r in ch["ref"]],
                  [np.array(c, dtype=float) for c in ch["coord"]])
    out = lc(len(ch["ref"]))
    for k, (r, c) in enumerate(zip(ch["ref"], ch["coord"])):
        if len(r):
            out.add_entry(k, np.array(r), np.array(c, dtype=float))
        else:
            out.add_entry(k, [], [])
    return out


def dense(mon, ch, sizes, n, what, p=None):
    mon.must(len(ch.ref) == len(ch.coord) == len(sizes),
             "{}: {} references, {} coordinates, {} covers", what,
             len(ch.ref), len(ch.coord), len(sizes))
    out = []
    for k, s in enumerate(sizes):
        r, c = ch.ref[k], ch.coord[k]
        mon.must(len(r) == len(c), "{}: {} references for {} rows", what,
                 len(r), len(c))
        M = np.zeros((n, s), dtype=np.int64)
        if len(r):
            idx = [int(x) for x in r]
            mon.must(len(set(idx)) == len(idx) and max(idx) < n
                     and min(idx) >= 0, "{}: references {}", what, idx)
            c = np.asarray(c, dtype=float)
            mon.must(c.shape == (len(idx), s), "{}: coordinates of shape {}",
                     what, c.shape)
            M[idx] = np.rint(c).astype(np.int64)
            mon.must(np.array_equal(c, M[idx]), "{}: not integers", what)
            mon.must(what not in ("minus", "sums") or (
                M[idx].min() >= 0 and M[idx].max() < p), "{}: entries {} "
                "are not residues mod {}", what, M[idx].tolist(), p)
        out.append(M)
    return out


def same(mon, got, want, p, what, case):
    for k, (g, w) in enumerate(zip(got, want)):
        mon.must(np.array_equal(g % p, w % p), "{} at cover {} is {}, "
                 "expected {} (mod {}), for {}", what, k, g.tolist(),
                 w.tolist(), p, case)


def observe(case, mon):
    from permaviss.spectral_sequence.local_chains_class import (
        local_chains as lc)
    if case["kind"] == "errors":
        k, s, w = case["k"], case["s"], case["which"]
        exc = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if w == 0:
                    lc([[0]] * k, [np.ones((1, s))] * (k + 1))
                elif w == 1:
                    lc([list(range(k))], [np.ones((k + 1, s))])
                elif w == 2:
                    lc(3).add_entry(1, list(range(k)), np.ones((k + 1, s)))
                elif w == 3:
                    lc(3).add_entry(1, list(range(k)), [])
                else:
                    lc("text")
            except Exception as e:
                exc = e
        mon.must(isinstance(exc, ValueError), "wrong data of kind {} does "
                 "not raise a ValueError: {!r}", w, exc)
        mon.count("errors_raised")
        return
    p, sizes, n = case["p"], case["sizes"], case["n"]
    old = lc.p
    lc.p = p
    try:
        mA, mB = model(case["A"], sizes, n), model(case["B"], sizes, n)
        for how in (0, 1):
            A = mon.call(build, lc, case["A"], how)
            B = mon.call(build, lc, case["B"], how)
            same(mon, dense(mon, A, sizes, n, "construction"), mA, p,
                 "construction", case)
            C = mon.call(lambda x, y: x + y, A, B)
            same(mon, dense(mon, C, sizes, n, "sum"),
                 [x + y for x, y in zip(mA, mB)], p, "sum", case)
            mon.count("additions")
            D = mon.call(build, lc, case["A"], how)

            def iadd(x, y):
                x += y
                return x
            D = mon.call(iadd, D, B)
            same(mon, dense(mon, D, sizes, n, "in place sum"),
                 [x + y for x, y in zip(mA, mB)], p, "in place sum", case)
            # a history: results of operations as operands
            S = np.array(case["S"])
            mon.call(D.minus)
            mD = [-x - y for x, y in zip(mA, mB)]
            same(mon, dense(mon, D, sizes, n, "minus", p), mD, p,
                 "minus of a sum", case)
            F = mon.call(lc.sums, D, S.astype(float))
            mF = [S @ (x % p) for x in mD]
            same(mon, dense(mon, F, sizes, len(S), "sums", p), mF, p,
                 "sums of a sum", case)
            mon.call(F.minus)
            F = mon.call(iadd, F, F)
            same(mon, dense(mon, F, sizes, len(S), "doubled"),
                 [-2 * x for x in mF], p, "double of minus sums", case)
            G = mon.call(build, lc, case["B"], how)
            mon.call(G.minus)
            same(mon, dense(mon, G, sizes, n, "minus", p), [-x for x in mB], p,
                 "minus", case)
            k = len(case["S"]) % len(sizes)
            if len(case["A"]["ref"][k]):
                G.add_entry(k, np.array(case["A"]["ref"][k]), np.array(
                    case["A"]["coord"][k], dtype=float))
                mG = [-x for x in mB]
                mG[k] = mA[k]
                same(mon, dense(mon, G, sizes, n, "entry"), mG, p,
                     "after replacing an entry", case)
            mon.count("histories")
            # results do not share memory with the operands
            seq = mon.call(lc.copy_seq, [A, B])
            mon.must(len(seq) == 2, "copy of two chains has {}", len(seq))
            same(mon, dense(mon, seq[0], sizes, n, "copy"), mA, p, "copy",
                 case)
            same(mon, dense(mon, seq[1], sizes, n, "copy"), mB, p, "copy",
                 case)
            for what, x in (("copy", seq[0]), ("copy", seq[1]), ("sum", C)):
                for c in list(x.coord) + list(x.ref):
                    if len(c) and isinstance(c, np.ndarray):
                        c[...] = (c + 1) % p
                same(mon, dense(mon, A, sizes, n, "operand"), mA, p,
                     "operand after its {} was changed,".format(what), case)
                same(mon, dense(mon, B, sizes, n, "operand"), mB, p,
                     "operand after its {} was changed,".format(what), case)
            seq = mon.call(lc.copy_seq, [A, B])
            for x in seq:
                mon.call(x.minus)
            same(mon, dense(mon, seq[0], sizes, n, "minus", p),
                 [-x for x in mA], p, "minus", case)
            same(mon, dense(mon, seq[1], sizes, n, "minus", p),
                 [-x for x in mB], p, "minus", case)
            # operands stay as they were
            same(mon, dense(mon, A, sizes, n, "operand"), mA, p,
                 "operand after the operations", case)
            same(mon, dense(mon, B, sizes, n, "operand"), mB, p,
                 "operand after the operations", case)
            mon.count("copies")
            S = np.array(case["S"])
            T = mon.call(lc.sums, A, S.astype(float))
            same(mon, dense(mon, T, sizes, len(S), "sums", p),
                 [S @ x for x in mA], p, "sums", case)
            mon.count("sums")
        if any(len(a) and len(b) and a != b for a, b in zip(
                case["A"]["ref"], case["B"]["ref"])):
            mon.seen(case["A"]["ref"], case["B"]["ref"], p)
    finally:
        lc.p = old
