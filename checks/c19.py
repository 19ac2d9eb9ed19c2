"""C19: calls do not change their arguments nor the random state."""
import numpy as np

from checks import c22
from vlib import fgens, gens, pgens
from vlib.pools import schedule

PROPERTY = "C19"
RULE = (
    "every public computation is called, then with other arguments of the "
    "same shape, then again with the first ones, and once more with the same "
    "objects after their contents were replaced in place; arguments (in C, "
    "Fortran and strided layouts) are compared, entry by entry and type by "
    "type, with copies made before, the state of numpy's global generator "
    "with the state before, and results with each other and with their "
    "earlier contents; non-trivial: some argument array has entries; "
    "distinct: by function, shapes and prime")
PLAN = {"quick": [("mv", 40), ("cover", 400), ("complex", 700),
                  ("gauss", 1800), ("lift", 1500),
                  ("algebra", 2000), ("broken", 500)],
        "thorough": [("mv", 2500), ("cover", 12000), ("complex", 20000),
                     ("gauss", 60000), ("lift", 40000),
                     ("algebra", 60000), ("broken", 20000)]}
NEED = {"calls_compared": 4000}


def make(kind, rng, i):
    if kind == "mv":
        c = gens.mv_case(rng, budget=.7, nmax=24)
    elif kind == "cover":
        dim = int(rng.integers(1, 4))
        fam = str(rng.choice(["uniform", "lattice", "flat", "clusters",
                              "duplicates", "strip"]))
        X = gens.cloud(rng, dim, fam, 30)
        if rng.random() < .3:
            X = np.rint(X * 4).astype(int)
        c = {"points": X.tolist(), "dtype": "int" if X.dtype.kind == "i"
             else "float", "max_div": int(rng.integers(1, 4 if dim < 3
                                                       else 3)),
             "overlap": float(rng.random() + .01)}
        if np.prod(gens.side_div(X, c["max_div"])[1]) > 9:
            c["max_div"] = 1
    elif kind == "complex":
        n = int(rng.integers(1, 12))
        D = fgens.random_metric(rng, n)
        c = {"D": D.tolist(), "max_r": float(rng.random() + .2),
             "max_dim": int(rng.integers(1, 4)), "p": gens.prime(rng)}
    elif kind == "gauss":
        c = pgens.matrix_case(rng)
    elif kind == "lift":
        c = c22.make(str(rng.choice(["rad", "barcodes"])), rng, i)
        c["lift"] = c["kind"]
    elif kind == "broken":
        c = pgens.broken_case(rng)
    else:
        c = pgens.morphism_case(rng) if rng.random() < .5 else (
            dict(pgens.chain_case(rng), chain=True))
    c["kind"] = kind
    c["layout"] = str(rng.choice(["C", "C", "F", "strided"]))
    return c


def plain(x):
    """Values of nested results, whatever objects hold them."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["array"] + [plain(v) for v in x]
        return ("array", x.shape, x.dtype.kind, x.tolist())
    if isinstance(x, (list, tuple, range)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in sorted(x.items())}
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "barcode"):
        out = [x.dim]
        if x.dim:
            out += [plain(np.asarray(x.barcode)),
                    plain(np.asarray(x.coordinates))]
            if getattr(x, "broken_basis", False) is True:
                out.append(plain(np.asarray(x.broken_differentials)))
        return out
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if hasattr(x, "persistent_homology"):
        return [plain(x.persistent_homology), plain(x.page_dim_matrix),
                plain(x.Hom), plain(x.Hom_reps), plain(x.extensions)]
    if hasattr(x, "ref") and hasattr(x, "coord"):
        return [[(list(map(int, r)), np.asarray(c).tolist())
                 if len(r) else None for r, c in zip(x.ref, x.coord)]]
    return repr(type(x))


def same(a, b):
    """Equal results of two calls, up to rounding."""
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(1., abs(a), abs(b))
    if isinstance(a, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all(map(same, a, b)))
    return False


def state():
    s = np.random.get_state()
    return s[0], s[1].tolist(), s[2:]


def lay(A, layout):
    """The same array with another layout in memory."""
    A = np.asarray(A)
    if layout == "F":
        return np.asfortranarray(A)
    if layout == "strided" and A.ndim:
        big = np.zeros(tuple(2 * n for n in A.shape), dtype=A.dtype)
        view = big[tuple(slice(None, None, 2) for _ in A.shape)]
        view[...] = A
        return view
    return A


def call(mon, name, fn, args, again):
    before, rs = plain(args), state()
    out = mon.call(fn, *args)
    now = plain(args)
    mon.must(now == before, "{} changed its arguments from {} to {}{}",
             name, before, now, again)
    mon.must(state() == rs, "{} changed the state of numpy.random", name)
    mon.count("calls_compared")
    return out


def history(mon, name, fn, args, other=None):
    """Call with args, with others, and with args again."""
    one = call(mon, name, fn, args, "")
    first = plain(one)
    if other is not None:
        two = call(mon, name, fn, other, "")
        second = plain(two)
        mon.must(plain(one) == first, "{} with other arguments changed the "
                 "result of an earlier call", name)
    three = call(mon, name, fn, args, " when called again")
    got = plain(three)
    mon.must(same(got, first), "{} gave {}, and then {} with the same "
             "arguments", name, first, got)
    mon.must(plain(one) == first, "{} changed the result of an earlier call",
             name)
    if other is not None:
        mon.must(plain(two) == second, "{} changed the result of an earlier "
                 "call", name)
        # the same objects, with other contents
        arrays = [(a, b) for a, b in zip(args, other)
                  if isinstance(a, np.ndarray)]
        if arrays and all(
                a is b or a.shape == b.shape and a.dtype == b.dtype
                if isinstance(a, np.ndarray) else a is b or a == b
                for a, b in zip(args, other)):
            for a, b in arrays:
                if a is not b:
                    a[...] = b
            got = plain(call(mon, name, fn, args, " when called again"))
            mon.must(same(got, second), "{} gave {} after its arguments were "
                     "replaced in place, but {} with them before", name,
                     got, second)
            mon.must(plain(two) == second, "{} changed the result of an "
                     "earlier call", name)
            mon.count("replaced_in_place")
    mon.count(name)
    mon.seen(name, [np.shape(a) for a in args if isinstance(
        a, np.ndarray)], args[-1] if isinstance(args[-1], int) else None)
    return one


def observe(case, mon):
    np.random.seed(len(str(case)) % 1000)
    kind = case["kind"]
    if kind == "mv":
        from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
        schedule.reset()
        X, max_r, max_dim, max_div, overlap, p = gens.args_of(case)
        X = lay(X, case["layout"])
        # the same cloud, reflected, has the same cost
        history(mon, "create_MV_ss", create_MV_ss,
                (X, max_r, max_dim, max_div, overlap, p),
                (lay(-X, case["layout"]), max_r, max_dim, max_div, overlap,
                 p))
    elif kind == "cover":
        from permaviss.covers.cubical_cover import generate_cover
        X = lay(gens.points_of(case), case["layout"])
        history(mon, "generate_cover", generate_cover,
                (case["max_div"], case["overlap"], X),
                (case["max_div"], case["overlap"],
                 lay(-X, case["layout"])))
    elif kind == "complex":
        complexes(case, mon)
    elif kind == "gauss":
        gauss(case, mon)
    elif kind == "lift":
        lift(case, mon)
    elif kind == "broken":
        broken(case, mon)
    else:
        algebra(case, mon)


def complexes(case, mon):
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    n = len(case["D"])
    D = np.array(case["D"], dtype=float).reshape(n, n)
    p, max_dim, max_r = case["p"], case["max_dim"], case["max_r"]
    q = 3 if p == 2 else 2
    C, R = history(mon, "vietoris_rips", vietoris_rips,
                   (lay(D, case["layout"]), max_r, max_dim),
                   (D[::-1, ::-1].copy(), max_r, max_dim))
    C, R = mon.call(vietoris_rips, D, max_r, max_dim)
    if len(C) > 1 and len(C[1]):
        G = np.array(C[1]).astype(int)
        flip = np.sort(n - 1 - G, axis=1)
        history(mon, "flag_complex", flag_complex,
                (lay(G, case["layout"]), n, max_dim), (flip, n, max_dim))
    diffs = history(mon, "complex_differentials", complex_differentials,
                    (C, p), (C, q))
    other = mon.call(complex_differentials, C, q)
    if len(diffs) > 1 and np.shape(diffs[-1])[1:] and case["layout"] == "F":
        # the same differentials with signed entries
        diffs = [diffs[0]] + [np.where(np.asarray(M) == p - 1, -1., M)
                              for M in diffs[1:]]
    history(mon, "persistent_homology", persistent_homology,
            (diffs, R, max_r, p), (other, R, max_r, q))


def gauss(case, mon):
    from permaviss.gauss_mod_p.arithmetic_mod_p import add_arrays_mod_c
    from permaviss.gauss_mod_p.gauss_mod_p import gauss_col
    from permaviss.gauss_mod_p.functions import (
        multiply_mod_p, solve_mod_p, solve_matrix_mod_p)
    p = case["p"]
    A = np.array(case["M"], dtype=case["dtype"])
    if A.ndim != 2 or A.size == 0:
        return
    B = (A[::-1] * 3 + 1) % p
    x = (np.arange(A.shape[1]) * 7 + 1) % p
    b, c = np.asarray(A @ x) % p, np.asarray(B @ x) % p

    def new(M):
        return lay(np.array(M, dtype=A.dtype), case["layout"])

    history(mon, "gauss_col", gauss_col, (new(A), p), (new(B), p))
    history(mon, "solve_mod_p", solve_mod_p, (new(A), new(b), p),
            (new(B), new(c), p))
    history(mon, "solve_matrix_mod_p", solve_matrix_mod_p,
            (new(A), new([b, (2 * b) % p]), p),
            (new(B), new([c, (2 * c) % p]), p))
    history(mon, "multiply_mod_p", multiply_mod_p, (new(A.T), new(B), p),
            (new(B.T), new(A), p))
    history(mon, "add_arrays_mod_c", add_arrays_mod_c, (new(A), new(B), p),
            (new(B), new(B), p))


def lift(case, mon):
    from permaviss.gauss_mod_p.gauss_mod_p import (
        gauss_col_rad, gauss_barcodes)
    p, s = case["p"], case["start"]
    if case["lift"] == "rad":
        A = np.array(case["A"], dtype=case["dtype"])
        R = np.array(case["R"])
        fn, rest, name = gauss_col_rad, (R, s, p), "gauss_col_rad"
    else:
        A = np.array(case["A"], dtype=float)
        fn, name = gauss_barcodes, "gauss_barcodes"
        rest = (np.array(case["rows"]), np.array(case["cols"]), s, p)
    try:
        fn(A.copy(), *rest)
    except Exception:       # no lift: only the arguments matter
        keep, was = A.copy(), plain(rest)
        try:
            fn(A, *rest)
        except Exception:
            pass
        mon.must(np.array_equal(A, keep) and plain(rest) == was,
                 "{} changed its arguments before raising", name)
        mon.count("refused")
        return
    B = A * (p - 1) % p
    history(mon, name, fn, (lay(A, case["layout"]),) + rest, (B,) + rest)


def basis(bars):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    return barcode_basis(np.array(bars) if len(bars) else [])


def broken(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    p, A, B = case["p"], case["A"], case["B"]
    E = np.array(case["E"], dtype=float).reshape(len(B), len(B))
    F = np.array(case["F"], dtype=float).reshape(len(B), len(A))
    b = barcode_basis(np.array(B), broken_basis=True,
                      broken_differentials=E)
    history(mon, "image_kernel_broken", image_kernel, (basis(A), b, F, p),
            (basis(A), b, F * (p - 1) % p, p))


def algebra(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    from permaviss.persistence_algebra.module_persistence_homology import (
        module_persistence_homology, quotient)
    p = case["p"]
    if case.get("chain"):
        base = [basis(b) for b in case["bases"]]
        mats = pgens.chain_matrices(case)
        history(mon, "module_persistence_homology",
                module_persistence_homology, (mats, base, p),
                ([m if np.ndim(m) < 2 else m * (p - 1) % p for m in mats],
                 base, p))
        return
    A, B = np.array(case["A"]), np.array(case["B"])
    F = np.array(case["F"], dtype=case["dtype"]).reshape(len(B), len(A))
    a, b = barcode_basis(A), barcode_basis(B)
    F2 = F * (p - 1) % p
    Im, Ker, _ = history(mon, "image_kernel", image_kernel,
                         (a, b, lay(F, case["layout"]), p), (a, b, F2, p))
    if Im.dim:
        M = barcode_basis(B.copy(), b, np.eye(len(B)))
        Im2 = mon.call(image_kernel, a, b, F2, p)[0]
        history(mon, "quotient", quotient, (M, Im, p), (M, Im2, p))
