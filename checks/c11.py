"""C11: image barcodes in a broken basis (extension problem)."""
import numpy as np

from vlib import gens, pgens, ref

PROPERTY = "C11"
RULE = (
    "random broken barcode bases (generators which die continue as a "
    "combination of generators alive then), a domain of bars which last "
    "until the end and a matrix sending each generator to classes alive at "
    "its birth (in particular the identity, as in the extension problem); "
    "the barcode returned by image_kernel is compared with the ranks of the "
    "spans carried along by an independent simulation; preimages have to "
    "generate the bars at every radius; update_broken is "
    "compared with the same simulation; non-trivial: some dying generator "
    "continues; distinct: by barcode pattern and prime")
PLAN = {"quick": [("broken", 9000), ("large", 700), ("huge", 60)],
        "thorough": [("broken", 250000), ("large", 20000), ("huge", 400)]}
NEED = {"bars_compared": 5000, "generators_that_continue": 5000,
        "updates": 3000, "radii_of_preimages": 20000}


def make(kind, rng, i):
    if kind == "huge":
        return pgens.broken_case(rng, 60, 20)
    if kind == "large":
        return pgens.broken_case(rng, 18, 11)
    return pgens.broken_case(rng)


def observe(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    A, B, p = case["A"], case["B"], case["p"]
    E = np.array(case["E"], dtype=np.int64).reshape(len(B), len(B))
    F = np.array(case["F"], dtype=np.int64).reshape(len(B), len(A))
    want = pgens.broken_image_bars(A, B, E, F, p)
    # one update of the coordinates at every death
    vals = pgens.endpoints(A, B)
    b = barcode_basis(np.array(B), broken_basis=True,
                      broken_differentials=E.astype(float))
    for prev, r in zip(vals, vals[1:]):
        V = np.zeros((len(B), 3))
        for i in ref.active(B, prev):
            V[i] = [(i * 7 + k * 3 + 1) % p for k in range(3)]
        exp = pgens.flow(B, E, vals, prev, r, ref.to_int(V), p)
        got = np.asarray(mon.call(b.update_broken, V.copy(), r, p))
        mon.must(got.shape == exp.shape and np.array_equal(
            got.astype(float) % p, exp), "update at {} of {} gives {}, "
            "expected {}", r, V.tolist(), got.tolist(), exp.tolist())
        mon.count("updates")
    a = barcode_basis(np.array(A))
    G = F.astype(float)
    if case["sort_a"]:
        G = G[:, a.sort(send_order=True)]
    if case["sort_b"]:
        G = G[b.sort(send_order=True)]
    out = mon.call(image_kernel, a, b, G, p)
    Im = out[0]
    got = sorted(ref.bars_list(Im.barcode))
    mon.must(got == want, "broken basis {} with differentials {}, domain {}, "
             "F = {} mod {}: got {}, ranks give {}", B, E.tolist(), A,
             F.tolist(), p, got, want)
    mon.must(Im.dim == len(got), "dim {} for bars {}", Im.dim, got)
    mon.must(ref.is_sorted_standard(Im.barcode, 0.), "bars not sorted: {}",
             Im.barcode)
    preimages(case, a, b, G, Im, np.asarray(out[-1]), vals, p, mon)
    mon.count("bars_compared", len(got))
    mon.count("generators_that_continue", int(E.any(axis=0).sum()))
    if E.any():
        pos = {v: i for i, v in enumerate(vals)}
        mon.seen([(pos[x], pos[y]) for x, y in got], len(A), len(B), p)


def preimages(case, a, b, G, Im, P, vals, p, mon):
    """The preimages generate the bars, which are zero when they are over."""
    A, B = ref.bars_list(a.barcode), ref.bars_list(b.barcode)
    E, F = ref.to_int(b.broken_differentials) % p, ref.to_int(G) % p
    bars = ref.bars_list(Im.barcode)
    mon.must(P.shape == (len(A), len(bars)), "preimages of shape {} for {} "
             "generators and {} bars", P.shape, len(A), len(bars))
    P = ref.to_int(P) % p
    for j, (x, y) in enumerate(bars):
        mon.must(all(A[i][0] <= x for i in np.nonzero(P[:, j])[0]),
                 "preimage of the bar {} uses generators born later: {}",
                 (x, y), P[:, j])
    V = np.zeros_like(F)
    for prev, r in zip([None] + list(vals), list(vals)[:-1]):
        if prev is not None:
            V = pgens.flow(B, E, vals, prev, r, V, p)
        for i, bar in enumerate(A):
            if bar[0] == r:
                V[:, i] = F[:, i]
        W = V @ P % p
        alive = [j for j, (x, y) in enumerate(bars) if x <= r < y]
        over = [j for j, (x, y) in enumerate(bars) if y <= r]
        mon.must(not W[:, over].any(), "preimages of bars {} which are over "
                 "at {} have images {}", over, r, W[:, over].tolist())
        rk = ref.rank(W[:, alive], p) if alive else 0
        mon.must(rk == len(alive), "preimages of the {} bars alive at {} have "
                 "images of rank {}", len(alive), r, rk)
        mon.count("radii_of_preimages")
