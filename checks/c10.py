"""C10: homology of chains of persistence modules, and quotients."""
import numpy as np

from vlib import gens, pgens, ref

PROPERTY = "C10"
RULE = (
    "random chain complexes of persistence modules with 1 to 4 terms (zero "
    "terms, zero and dependent differentials, ties, sorted and unsorted "
    "bases) and random submodules N of modules M; barcodes of homology and "
    "quotients are compared with the ranks between all pairs of radii, and "
    "their generators with the subquotient at every radius; non-trivial: a "
    "nonzero differential (or submodule) and nonzero result; distinct: by "
    "dimensions, number of bars and prime")
PLAN = {"quick": [("chain", 6000), ("chain_large", 700), ("quotient", 5000),
                  ("chain_huge", 60)],
        "thorough": [("chain", 200000), ("chain_large", 25000),
                     ("quotient", 150000), ("chain_huge", 300)]}
NEED = {"homology_bars": 3000, "quotient_bars": 3000, "radii_checked": 10000,
        "zero_terms": 300, "quotient_dies_early": 500,
        "refused": 1000}
CORPUS = [
    {"p": 7, "bases": [[[2., 3.]], [[0., 1.], [2., 6.], [2., 6.], [0., 6.]],
                       [[5., 6.]]],
     "D": [0, [[0, 4, 2, 0]], [[0], [1], [4], [3]]],
     "shapes": [0, [1, 4], [4, 1]], "sorted": False},
]


def make(kind, rng, i):
    if kind == "chain":
        return pgens.chain_case(rng)
    if kind == "chain_large":
        return pgens.chain_case(rng, 13, 11, 5)
    if kind == "chain_huge":
        return pgens.chain_case(rng, 36, 14, 4)
    return quotient_case(rng)


def quotient_case(rng):
    while True:
        p = gens.prime(rng, .15)
        vals = pgens.values(rng, int(rng.integers(3, 9)))
        if len(vals) < 3:
            continue
        n = int(rng.integers(1, 9))
        E = pgens.bars(rng, n, vals)
        sort_e = bool(rng.random() < .4)
        if sort_e:
            E = pgens.std_sorted(E)
        # M: the same module in another basis
        order = sorted(range(n), key=lambda i: (E[i][0], -E[i][1]))
        M = np.eye(n, dtype=np.int64)
        if rng.random() < .6:
            for x, j in enumerate(order):
                for i in order[:x]:
                    if E[i][0] <= E[j][0] < E[i][1] <= E[j][1] and (
                            E[i] != E[j]) and rng.random() < .5:
                        M[i, j] = rng.integers(0, p)
        perm = rng.permutation(n)
        if sort_e:
            perm = np.arange(n)
        # N: generators with different leading terms
        leads = list(rng.choice(n, int(rng.integers(0, n + 1)),
                                replace=False))
        nb, nc = [], []
        for j in leads:
            starts = [v for v in vals if E[j][0] <= v < E[j][1]]
            b = float(rng.choice(starts))
            c = np.zeros(n, dtype=np.int64)
            c[j] = pgens.random_matrix_entry(rng, p)
            for i in range(n):
                if i not in leads and E[i][0] <= b < E[i][1] <= E[j][1] and (
                        rng.random() < .5):
                    c[i] = rng.integers(0, p)
            nb.append([b, E[j][1]])
            nc.append(c.tolist())
        return {"quotient": True, "p": p, "E": E, "sort_e": sort_e,
                "M": M[:, perm].tolist(), "Mbars": [E[i] for i in perm],
                "Nbars": nb, "N": nc,
                "dtype": str(rng.choice(["int64", "float64"])),
                "sort_n": bool(rng.random() < .5)}


def check_basis(mon, name, t, H, K, I, p, dead):
    """H is a basis of span(K) modulo span(I), I lies in span(K).

    The columns of `dead` lie in span(I).
    """
    rk, ri = ref.rank(K, p), ref.rank(I, p)
    if dead.shape[1]:
        mon.must(ref.rank(np.hstack([dead, I]), p) == ri, "{} at {}: some "
                 "generator that has died is not zero", name, t)
        mon.count("dead_generators", dead.shape[1])
    mon.must(H.shape[1] == rk - ri, "{} at {}: {} generators, the dimension "
             "is {}", name, t, H.shape[1], rk - ri)
    if H.shape[1]:
        mon.must(ref.rank(np.hstack([H, K]), p) == rk,
                 "{} at {}: some generator is not in the kernel", name, t)
        mon.must(ref.rank(np.hstack([H, I]), p) == rk,
                 "{} at {}: generators are dependent modulo the submodule",
                 name, t)


def over(bars, t):
    return [k for k, b in enumerate(bars) if b[1] <= t]


def observe(case, mon):
    if case.get("quotient"):
        return observe_quotient(case, mon)
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.module_persistence_homology import (
        module_persistence_homology)
    p, bases = case["p"], case["bases"]
    D = pgens.chain_matrices(case)
    base = []
    for b in bases:
        base.append(barcode_basis(np.array(b) if b else []))
        if case["sorted"] and b:
            order = base[-1].sort(send_order=True)
            mon.must(np.array_equal(base[-1].barcode, np.array(b)),
                     "sorting moved sorted bars by {}", order)
    Hom, Im, PreIm = mon.call(module_persistence_homology, D, base, p)
    L = len(bases)
    mon.must(len(Hom) == len(Im) == len(PreIm) == L, "lists of {} {} {} for "
             "{} terms", len(Hom), len(Im), len(PreIm), L)
    ch = pgens.Chain(bases, D, p)
    tot = 0
    for d in range(L):
        got = sorted(ref.bars_list(Hom[d].barcode))
        if not bases[d]:
            mon.must(not got and Hom[d].dim == 0 and Im[d].dim == 0,
                     "homology {} and image {} in a zero module", got,
                     Im[d].dim)
            mon.count("zero_terms")
            continue
        want = ch.homology_bars(d)
        mon.must(got == want, "homology in degree {} of {} with D = {} mod "
                 "{}: got {}, ranks give {}", d, bases, case["D"], p, got,
                 want)
        mon.must(Hom[d].dim == len(got), "dim {} for bars {}", Hom[d].dim,
                 got)
        mon.must(ref.is_sorted_standard(Hom[d].barcode, 0.),
                 "bars are not sorted: {}", Hom[d].barcode)
        mon.count("homology_bars", len(got))
        tot += len(got)
        hb = ref.bars_list(Hom[d].barcode)
        ib = ref.bars_list(Im[d].barcode)
        H = ref.to_int(Hom[d].coordinates) if hb else np.zeros(
            (len(bases[d]), 0), dtype=np.int64)
        I = ref.to_int(Im[d].coordinates) if ib else np.zeros(
            (len(bases[d]), 0), dtype=np.int64)
        mon.must(H.shape == (len(bases[d]), len(hb))
                 and I.shape == (len(bases[d]), len(ib)),
                 "coordinates of shapes {} {}", H.shape, I.shape)
        if hb:
            mon.must(Hom[d].prev_basis is base[d],
                     "homology is not given in the basis of the chains")
        for t in ch.vals[:-1]:
            mon.count("radii_checked")
            a, K = ch.kernel(d, t)
            img = ch.image(d, t)
            check_basis(mon, "homology in degree {}".format(d), t,
                        H[a][:, ref.active(hb, t)] % p, K, img, p,
                        H[a][:, over(hb, t)] % p)
            J = I[a][:, ref.active(ib, t)]
            mon.must(J.shape[1] == ref.rank(img, p) == ref.rank(J, p)
                     == ref.rank(np.hstack([J, img]), p),
                     "Im in degree {} at {} is not a basis of the image", d,
                     t)
        if d + 1 < L and ib:
            P = np.asarray(PreIm[d + 1])
            mon.must(P.shape == (len(bases[d + 1]), len(ib)),
                     "PreIm has shape {}", P.shape)
            P = ref.to_int(P)
            for k, bar in enumerate(ib):
                al = ref.active(bases[d + 1], bar[0])
                rows = ref.active(bases[d], bar[0])
                lhs = ch.D[d + 1][np.ix_(rows, al)] @ P[al, k] % p
                mon.must(np.array_equal(lhs, I[rows, k] % p),
                         "D maps the preimage of {} to {}, not to {}", bar,
                         lhs, I[rows, k])
    if tot and any(np.any(M) for M in ch.D[1:]):
        mon.seen([len(b) for b in bases], [h.dim for h in Hom], p)


def observe_quotient(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.module_persistence_homology import (
        quotient)
    p, E, dt = case["p"], case["E"], case["dtype"]
    n = len(E)
    basis = barcode_basis(np.array(E))
    if case["sort_e"]:
        basis.sort()
    Mc = np.array(case["M"], dtype=dt).reshape(n, n)
    M = barcode_basis(np.array(case["Mbars"]), basis, Mc.copy())
    if case["sort_e"]:
        M.sort()
    Nc = np.array(case["N"], dtype=dt).reshape(len(case["N"]), n).T
    if len(case["N"]):
        N = barcode_basis(np.array(case["Nbars"]), basis, Nc.copy())
        if case["sort_n"]:
            N.sort()
    else:
        N = barcode_basis([], basis)
    Q = mon.call(quotient, M, N, p)
    if len(case["N"]):
        other = barcode_basis(np.array(case["Nbars"]), barcode_basis(
            np.array(E[:-1] + [[E[-1][0], E[-1][1] + 1.]])), Nc.copy())
        exc = None
        try:
            quotient(M, other, p)
        except Exception as e:
            exc = e
        mon.must(isinstance(exc, ValueError), "the quotient by a submodule "
                 "in another basis gives {!r}, not a ValueError", exc)
        mon.count("refused")
    vals = pgens.endpoints(E, case["Nbars"])
    Ni = ref.to_int(Nc).reshape(n, -1)

    def sub_at(t):
        cols = [k for k, b in enumerate(case["Nbars"]) if b[0] <= t < b[1]]
        return pgens.sub(Ni, ref.active(E, t), cols)

    def rk(s, t):
        a, b = ref.active(E, s), ref.active(E, t)
        V = np.zeros((len(b), len(a)), dtype=np.int64)
        for i, x in enumerate(b):
            if x in a:
                V[i, a.index(x)] = 1
        I = sub_at(t)
        return ref.rank(np.hstack([V, I]), p) - ref.rank(I, p)
    want = ref.bars_from_rank(vals, rk)
    got = sorted(ref.bars_list(Q.barcode))
    mon.must(got == want, "quotient of {} by bars {} with coordinates {} mod "
             "{}: got {}, ranks give {}", E, case["Nbars"], case["N"], p,
             got, want)
    mon.must(Q.dim == len(got), "dim {} for bars {}", Q.dim, got)
    qb = ref.bars_list(Q.barcode)
    if qb:
        mon.must(Q.prev_basis is basis, "quotient not in the given basis")
        H = ref.to_int(Q.coordinates)
        mon.must(H.shape == (n, len(qb)), "coordinates of shape {}", H.shape)
        for t in vals[:-1]:
            a = ref.active(E, t)
            check_basis(mon, "quotient", t,
                        H[a][:, ref.active(qb, t)] % p,
                        np.eye(len(a), dtype=np.int64), sub_at(t), p,
                        H[a][:, over(qb, t)] % p)
            mon.count("radii_checked")
    mon.count("quotient_bars", len(got))
    deaths = {b[1] for b in E}
    mon.count("quotient_dies_early", sum(
        1 for b in got if b[1] not in deaths))
    if got and case["N"]:
        mon.seen(n, len(case["N"]), len(got), p)
