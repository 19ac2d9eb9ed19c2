"""C14: barcode bases keep bars, coordinates and differentials together."""
import contextlib
import io

import numpy as np

from vlib import gens, pgens, ref

PROPERTY = "C14"
RULE = (
    "random barcode bases (trivial, reversed, repeated and unsorted bars, "
    "integer and float, with coordinates, with broken differentials) under "
    "random sequences of operations (construction, sort with and without "
    "precision, active, birth, death, changes_list), compared with a model "
    "which keeps each generator as one record; wrong shapes must raise "
    "ValueError; non-trivial: at least two bars; distinct: by pattern of "
    "the bars")
PLAN = {"quick": [("basis", 12000), ("errors", 1500), ("big", 200)],
        "thorough": [("basis", 300000), ("errors", 20000), ("big", 5000)]}
NEED = {"queries": 20000, "sorts": 5000, "trivial_bars": 3000,
        "errors_raised": 1000, "broken": 1000}


def make(kind, rng, i):
    if kind == "errors":
        return {"kind": kind, "which": int(rng.integers(0, 4)),
                "n": int(rng.integers(1, 6)), "m": int(rng.integers(1, 6)),
                "off": int(rng.choice([-1, 1, 2])),
                "k": int(rng.integers(1, 4))}
    n = int(rng.integers(1, 12))
    if kind == "big":
        kind, n = "basis", int(rng.integers(30, 160))
    vals = pgens.values(rng, int(rng.integers(2, 9)))
    bars = []
    trivial = rng.random() < .5
    for _ in range(n):
        x, y = (float(v) for v in rng.choice(vals, 2))
        if not trivial:
            x, y = min(x, y), max(x, y)
            if x == y:
                y = x + 1.
        bars.append([x, y])
    if rng.random() < .3:
        bars = [bars[int(k)] for k in rng.integers(0, n, n)]
    integer = bool(rng.random() < .2 and all(
        float(v).is_integer() for b in bars for v in b))
    coords = bool(rng.random() < .6)
    return {"kind": kind, "bars": bars, "integer": integer,
            "coords": coords, "m": int(rng.integers(1, 7)),
            "broken": bool(rng.random() < .4),
            "precision": [None, 0, 1, 7][int(rng.integers(0, 4))]
            if rng.random() < .3 else None,
            "send": bool(rng.random() < .8),
            "as_list": bool(rng.random() < .3)}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            fn(*a, **k)
            return None
        except Exception as exc:
            return exc


def observe(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    if case["kind"] == "errors":
        n, m, w = case["n"], case["m"], case["which"]
        bars = np.array([[0., 1. + i] for i in range(n)])
        prev = barcode_basis(np.array([[0., 2.]] * m))
        if w == 0:
            rows = m + case["off"] if m + case["off"] > 0 else m + 1
            exc = quiet(barcode_basis, bars, prev, np.ones((rows, n)))
        elif w == 1:
            c = n + case["k"]
            exc = quiet(barcode_basis, bars, prev, np.ones((m, c)))
        elif w == 2:
            exc = quiet(barcode_basis, bars, broken_basis=True)
        else:
            c = n + case["k"]
            exc = quiet(barcode_basis, bars, broken_basis=True,
                        broken_differentials=np.zeros(
                            [(c, c), (n, c), (c, n)][case["k"] - 1]))
        mon.must(isinstance(exc, ValueError), "wrong data of kind {} does "
                 "not raise a ValueError: {!r}", w, exc)
        mon.count("errors_raised")
        return
    bars = case["bars"]
    arr = np.array(bars, dtype=int if case["integer"] else float)
    keep = arr.copy()
    good = [i for i, b in enumerate(bars) if b[0] < b[1]]
    k = len(good)
    kw = {"store_well_defined": True}
    prev = None
    args = [arr.tolist() if case["as_list"] else arr]
    coord = None
    if case["coords"]:
        prev = barcode_basis(np.array([[0., 2.]] * case["m"]))
        coord = np.arange(case["m"] * len(bars), dtype=float).reshape(
            case["m"], len(bars))
        args += [prev, coord.copy()]
    E = None
    if case["broken"]:
        E = np.arange(k * k, dtype=float).reshape(k, k)
        kw.update(broken_basis=True, broken_differentials=E.copy())
        mon.count("broken")
    b = mon.call(barcode_basis, *args, **kw)
    mon.must(np.array_equal(arr, keep), "the given bars were changed")
    mon.count("trivial_bars", len(bars) - k)
    mon.must(b.dim == k, "dim {} for {} proper bars in {}", b.dim, k, bars)
    mon.must(list(np.nonzero(np.asarray(b.well_defined))[0]) == good
             and len(b.well_defined) == len(bars),
             "well_defined is {} for {}", b.well_defined, bars)
    records = [[tuple(float(v) for v in bars[i]),
                None if coord is None else coord[:, i].tolist()]
               for i in good]

    def compare(b, order, what):
        """Generators `order` of the model are the ones of b, in order."""
        got = ref.bars_list(b.barcode)
        mon.must(got == [records[i][0] for i in order], "{}: bars {}, "
                 "expected {}", what, got, [records[i][0] for i in order])
        if coord is not None and k:
            c = np.asarray(b.coordinates)
            mon.must(c.shape == (case["m"], k) and all(
                c[:, x].tolist() == records[i][1]
                for x, i in enumerate(order)),
                "{}: coordinates do not follow the bars: {}", what, c)
            mon.must(b.prev_basis is prev, "prev_basis was lost")
        if E is not None and k:
            got = np.asarray(b.broken_differentials)
            mon.must(np.array_equal(got, E[np.ix_(order, order)]),
                     "{}: broken differentials do not follow the bars: {}",
                     what, got)

    def query(b, order):
        vals = sorted({v for r in records for v in r[0]})
        if not vals:
            return
        probe = vals + [(x + y) / 2 for x, y in zip(vals, vals[1:])] + [
            vals[0] - 1, vals[-1] + 1]
        for r in probe:
            cur = [records[i][0] for i in order]
            exp = [[i for i, x in enumerate(cur) if x[0] <= r < x[1]],
                   [i for i, x in enumerate(cur) if x[0] == r],
                   [i for i, x in enumerate(cur) if x[1] == r]]
            got = [mon.call(f, r) for f in (b.active, b.birth, b.death)]
            for name, g, e in zip(("active", "birth", "death"), got, exp):
                mon.must(list(np.asarray(g)) == e, "{}({}) of {} is {}, "
                         "expected {}", name, r, cur, g, e)
                mon.count("queries")
        got = [float(v) for v in mon.call(b.changes_list)]
        mon.must(got == vals, "changes_list is {}, expected {}", got, vals)
    order = list(range(k))
    compare(b, order, "construction")
    if k == 0:
        return
    query(b, order)
    kws = {}
    if case["precision"] is not None:
        kws["precision"] = case["precision"]
    if case["send"]:
        kws["send_order"] = True
    out = mon.call(b.sort, **kws)
    mon.count("sorts")
    if case["send"]:
        out = [int(v) for v in out]
        mon.must(sorted(out) == list(range(k)), "sort returned {}", out)
        order = out
    else:
        # recover the order from the bars, any order among equal bars
        pool, order = list(range(k)), []
        for x, bar in enumerate(ref.bars_list(b.barcode)):
            c = [i for i in pool if records[i][0] == bar and (
                coord is None or np.asarray(b.coordinates)[
                    :, x].tolist() == records[i][1])]
            mon.must(c, "bar {} appears from nowhere after sorting", bar)
            if E is not None and coord is None:
                # identify by the diagonal of the differentials
                dg = float(np.asarray(b.broken_differentials)[x, x])
                c = [i for i in c if E[i, i] == dg] or c
            pool.remove(c[0])
            order.append(c[0])
    compare(b, order, "sort")
    cur = [records[i][0] for i in order]
    if case["precision"] is not None:
        cur = [tuple(np.around(c, decimals=case["precision"])) for c in cur]
    mon.must(all(x[0] < y[0] or (x[0] == y[0] and x[1] >= y[1])
                 for x, y in zip(cur, cur[1:])),
             "sorted bars {} are not in the standard order", cur)
    mon.must(bool(b.sorted), "basis is not marked as sorted")
    query(b, order)
    again = mon.call(b.sort, send_order=True)
    order = [order[int(i)] for i in again]
    compare(b, order, "second sort")
    if k > 1:
        pos = {v: i for i, v in enumerate(sorted(
            {v for r in records for v in r[0]}))}
        mon.seen([(pos[r[0][0]], pos[r[0][1]]) for r in records],
                 case["coords"], case["broken"])
