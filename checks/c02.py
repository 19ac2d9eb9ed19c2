"""C02: classic persistent homology barcodes against a reference reduction."""
import numpy as np

from vlib import fgens, gens, ref

PROPERTY = "C02"
RULE = (
    "each case is a filtered simplicial complex (Rips complexes of clouds and "
    "of random symmetric matrices through vietoris_rips and "
    "complex_differentials, or random filtered complexes with arbitrary "
    "monotone radii and tie orders given as matrices), reduced by "
    "persistent_homology; every barcode is compared with an independent "
    "reduction of the whole filtration; non-trivial: a bar in dimension >= 1; "
    "distinct: by dimensions of the complex, number of bars and prime")
ASSUMPTIONS = ["vertices enter at radius 0, as in vietoris_rips"]
PLAN = {"quick": [("rips", 1200), ("metric", 900), ("filtered", 3000),
                  ("big", 40)],
        "thorough": [("rips", 20000), ("metric", 12000),
                     ("filtered", 60000), ("big", 400)]}
NEED = {"bars_compared": 3000, "bars_in_dimension_2_or_more": 50,
        "bars_that_never_die": 500}


def make(kind, rng, i):
    return fgens.filtered_case(kind, rng)


def observe(case, mon):
    C, R, D, spx, max_r, p = fgens.build(case, mon, True)
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    want = ref.complex_ph(spx, max_r, p)
    out = mon.call(persistent_homology, D, R, max_r, p)
    mon.must(len(out) == 3, "persistent_homology returns {} objects",
             len(out))
    Hom = out[0]
    mon.must(len(Hom) == len(D), "{} homology groups for {} differentials",
             len(Hom), len(D))
    tol = 0. if case["kind"] == "filtered" else 1e-9 * max_r
    for d in range(len(D)):
        got = ref.bars_list(Hom[d].barcode)
        mon.must(ref.same_bars(want[d], got, tol),
                 "dimension {}: got bars {}, reference has {}", d,
                 sorted(got), want[d])
        mon.must(Hom[d].dim == len(got), "dim {} but {} bars", Hom[d].dim,
                 len(got))
        mon.must(all(a < b for a, b in got), "empty bar in {}", got)
        mon.must(ref.is_sorted_standard(got, 0.),
                 "bars not in the standard order: {}", got)
        mon.count("bars_compared", len(got))
        mon.count("bars_that_never_die",
                  sum(1 for b in got if b[1] == max_r))
        if d > 1:
            mon.count("bars_in_dimension_2_or_more", len(got))
    if any(len(w) for w in want[1:]):
        mon.seen([len(s) for s in spx], [len(w) for w in want], p)
