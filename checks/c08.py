"""C08: barcodes of image and kernel of a persistence morphism."""
from vlib import gens, pgens, ref
from checks import ikcommon

PROPERTY = "C08"
RULE = (
    "random well defined morphisms between persistence modules (bars with "
    "ties, close, tiny and huge endpoints, sorted and unsorted bases, "
    "dependent columns, primes up to 10007); the barcodes of image and kernel "
    "are compared with the ones that follow from the ranks of the composites "
    "at all pairs of radii; non-trivial: nonzero image and kernel; distinct: "
    "by the barcodes as patterns and the prime")
PLAN = {"quick": [("small", 18000), ("medium", 2500), ("large", 240), ("huge", 60),
                  ("mismatch", 300)],
        "thorough": [("small", 120000), ("medium", 18000), ("large", 1500), ("huge", 200),
                     ("mismatch", 3000)]}
NEED = {"image_bars": 3000, "kernel_bars": 3000,
        "image_dies_before_source": 500, "refused": 200}
CORPUS = [
    {"p": 5, "A": [[2., 3.], [1., 3.], [1., 4.]], "B": [[0., 2.]],
     "F": [[0, 2, 2]], "sort_a": False, "sort_b": False,
     "dtype": "float64"},
    {"p": 1009, "A": [[0., 1.], [0., 1.]], "B": [[0., 1.]], "F": [[1, 1]],
     "sort_a": False, "sort_b": False, "dtype": "float64"},
]


def make(kind, rng, i):
    if kind == "small":
        return pgens.morphism_case(rng)
    if kind == "mismatch":
        case = pgens.morphism_case(rng)
        case["pad"] = [int(v) for v in [(1, 0), (0, 1), (1, 1), (-1, 0),
                                        (0, -1)][int(rng.integers(0, 5))]]
        return case
    if kind == "medium":
        return pgens.morphism_case(rng, 14, 12)
    if kind == "huge":
        return pgens.morphism_case(rng, 75, 18)
    return pgens.morphism_case(rng, 30, 14)


def observe_mismatch(case, mon):
    """A matrix whose size is not that of the bases is refused."""
    import numpy as np
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    A, B = case["A"], case["B"]
    r, c = len(B) + case["pad"][0], len(A) + case["pad"][1]
    exc = None
    try:
        image_kernel(barcode_basis(np.array(A)), barcode_basis(np.array(B)),
                     np.zeros((r, c)), case["p"])
    except Exception as e:
        exc = e
    mon.must(isinstance(exc, ValueError), "a {} x {} matrix between {} and {} "
             "generators gives {!r}, not a ValueError", r, c, len(A), len(B),
             exc)
    mon.count("refused")


def observe(case, mon):
    if "pad" in case:
        return observe_mismatch(case, mon)
    a, b, A, B, F, Im, Ker, PreIm = ikcommon.call(case, mon)
    p = case["p"]
    want_im = pgens.image_bars(A, B, F, p)
    want_ker = pgens.kernel_bars(A, B, F, p)
    got_im = sorted(ref.bars_list(Im.barcode))
    got_ker = sorted(ref.bars_list(Ker.barcode))
    mon.must(got_im == want_im, "image of {} -> {}, F = {} mod {}: got {}, "
             "ranks give {}", A, B, F.tolist(), p, got_im, want_im)
    mon.must(got_ker == want_ker, "kernel of {} -> {}, F = {} mod {}: got "
             "{}, ranks give {}", A, B, F.tolist(), p, got_ker, want_ker)
    mon.must(Im.dim == len(got_im) and Ker.dim == len(got_ker),
             "dimensions {} {} for {} {} bars", Im.dim, Ker.dim,
             len(got_im), len(got_ker))
    mon.must(ref.is_sorted_standard(Im.barcode, 0.)
             and ref.is_sorted_standard(Ker.barcode, 0.),
             "bars are not in the standard order: {} {}", Im.barcode,
             Ker.barcode)
    mon.count("image_bars", len(got_im))
    mon.count("kernel_bars", len(got_ker))
    deaths = {x[1] for x in A}
    mon.count("image_dies_before_source", sum(
        1 for x in got_im if x[1] not in deaths))
    if got_im and got_ker:
        pos = {v: i for i, v in enumerate(pgens.endpoints(A, B))}
        mon.seen([(pos[x], pos[y]) for x, y in got_im],
                 [(pos[x], pos[y]) for x, y in got_ker], p)
