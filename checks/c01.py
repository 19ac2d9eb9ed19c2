"""C01: barcodes of create_MV_ss == barcodes of the global Rips filtration."""
import numpy as np

from vlib import gens, ref
from vlib.pools import schedule
from checks import mvcorpus, sscommon

PROPERTY = "C01"
RULE = (
    "each case is a call create_MV_ss(points, max_r, max_dim, max_div, "
    "overlap, p) with overlap >= max_r on a seeded point cloud (15 families "
    "in R^1..R^3: uniform, lattices with ties and max_r equal to a distance, "
    "noisy and regular polygons, cross-polytopes, clusters, duplicates, flat "
    "and collinear clouds, spheres, tori, clouds with empty cells, strips, suspensions around the "
    "centre of the cover; integer "
    "arrays, scales 1e-9..1e6, offsets; primes 2..999983) plus a fixed corpus;"
    " non-trivial: at least two cover cells and some bar in dimension >= 1, "
    "or some merge of components if max_dim is 1; "
    "distinct: by the vector of numbers of bars, divisions, dimension and "
    "prime")
ASSUMPTIONS = [
    "endpoints are compared up to 1e-10 * max_r; no distance lies within "
    "1e-7 * max_r of max_r unless it is exactly equal on a lattice",
    "multiprocessing.Pool is replaced by a stand-in running pickled tasks in "
    "this process (C18 uses real worker processes)"]
PLAN = {"quick": [("mv", 240), ("mv3", 30), ("dense", 50),
                  ("large", 20), ("deep", 40), ("strip", 40), ("susp2", 40),
                  ("susp3", 6), ("lune", 24), ("design1", 32),
                  ("design2", 64), ("design3", 20), ("third", 4),
                  ("crowd", 20), ("embed", 40)],
        "thorough": [("mv", 40000), ("mv3", 6000), ("dense", 6000),
                     ("large", 1500), ("deep", 2500), ("strip", 3000),
                     ("susp2", 4000), ("susp3", 800),
                     ("lune", 1500), ("design1", 2000), ("design2", 4000),
                     ("design3", 2000), ("third", 300),
                     ("crowd", 600), ("embed", 4000)]}
CORPUS = mvcorpus.CORPUS
NEED = {"executions_checked": 200, "nontrivial_extension": 20,
        "higher_differential": 10, "several_cells": 100}


def make(kind, rng, i):
    if kind == "mv":
        return gens.mv_case(rng)
    if kind == "mv3":
        return gens.mv_case(rng, dims=(3,), budget=4., max_dims=(2, 3, 4),
                            divs=[2, 2, 3])
    if kind == "dense":
        # cells overlap a lot: big intersections, many nerve simplices
        return gens.mv_case(rng, dims=(1, 2), budget=4., divs=[3, 4, 5],
                            cells=(16, 12), nmax=24)
    if kind == "large":
        # many points and cells, low dimension
        return gens.mv_case(rng, dims=(1, 2), budget=6., nmax=90,
                            cells=(25, 12), divs=[3, 4, 5, 6],
                            max_dims=(1, 2), families=[
                                "uniform", "lattice", "clusters", "loops"])
    if kind == "embed":
        return gens.embed_case(rng)
    if kind == "crowd":
        return gens.crowd_case(rng)
    if kind == "deep":
        return gens.mv_case(rng, dims=(2, 3), budget=4., nmax=14,
                            max_dims=(4, 5), divs=[1, 2])
    return sscommon.make(kind, rng, i)


def observe(case, mon):
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    sscommon.pool_for(case)
    X, max_r, max_dim, max_div, overlap, p = gens.args_of(case)
    want = ref.rips_ph(gens.distances(X), max_r, max_dim, p)[:max_dim]
    ss = mon.call(create_MV_ss, X, max_r, max_dim, max_div, overlap, p)
    judge(ss, want, case, mon)


def judge(ss, want, case, mon):
    max_r, max_dim, p = case["max_r"], case["max_dim"], case["p"]
    tol = 1e-10 * max_r
    PH = ss.persistent_homology
    mon.must(len(PH) == max_dim, "persistent_homology has {} entries for "
             "max_dim={}", len(PH), max_dim)
    for d in range(max_dim):
        got = ref.bars_list(PH[d].barcode)
        mon.must(ref.same_bars(want[d], got, tol),
                 "dimension {}: spectral sequence gives {}, but the global "
                 "Rips filtration has {}", d, sorted(got), want[d])
        mon.must(PH[d].dim == len(got), "dim {} != number of bars {}",
                 PH[d].dim, len(got))
        mon.must(all(a < b for a, b in got), "empty bar in {}", got)
        mon.must(ref.is_sorted_standard(got, tol),
                 "bars of dimension {} are not in the standard order: {}",
                 d, got)
    mon.count("executions_checked")
    mon.count("bars_compared", sum(len(w) for w in want))
    cells = ss.nerve[0]
    mon.count("several_cells", cells > 1)
    pages = ss.page_dim_matrix
    if len(pages) > 3 and (pages[2] != pages[-1]).any():
        mon.count("higher_differential")
    if any(np.any(e) for col in ss.extensions for row in col for e in row):
        mon.count("nontrivial_extension")
    mon.count("tasks", schedule.tasks)
    if cells > 1 and (any(len(w) for w in want[1:]) or (
            max_dim == 1 and any(b[1] < max_r for b in want[0]))):
        mon.seen([len(w) for w in want], cells, max_dim, p,
                 len(case["points"]))
