#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [--case N] [--seed S]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

# property: (rule, {tier: (cases, seconds)}, required observations)
MON = {
    "C01": ("random point sets in 2 to 6 dimensions (13 kinds: uniform, integer grids, near-flat slabs, duplicates, "
            "collinear points, RGBXY points, wide ranges of scale) are turned into convex hulls through each "
            "constructor; non-trivial: a hull was built and all of its vertices, facets and planes were compared with "
            "the point set; distinct by the points",
            {"quick": (60000, 60), "thorough": (2000000, 700)}, []),
    "C02": ("as for C01; non-trivial: the facet/neighbour graph of a hull was checked (incidence, symmetry, manifold, "
            "Euler characteristic, orientation, handles); distinct by the points",
            {"quick": (60000, 60), "thorough": (2000000, 700)}, []),
    "C03": ("random point sets in 2 to 5 dimensions are triangulated; non-trivial: volumes, neighbours and (for points in "
            "general position) empty circumspheres were checked; distinct by the points",
            {"quick": (40000, 60), "thorough": (1000000, 700)}, []),
    "C04": ("query points (in the box, at vertices, on segments, next to facets, far away, inside of simplices) are "
            "located in random triangulations by directed, brute-force and fresh searchers with random tolerances and "
            "hints; non-trivial: found simplices were compared with barycentric coordinates computed independently; "
            "distinct by the points", {"quick": (12000, 60), "thorough": (300000, 700)},
            [("found", 1000), ("strictly_inside", 1000), ("query_far_Outside", 100)]),
    "C05": ("raw hulls and triangulations next to the typed ones for random point sets in 2 to 5 dimensions; non-trivial: "
            "planes, distances, barycentric solvers and searches of both were compared; distinct by the points",
            {"quick": (12000, 60), "thorough": (300000, 700)},
            [("solved", 1000), ("strictly_inside", 1000), ("plane_distances", 10000), ("facets_around", 10000), ("hints_upper", 100)]),
    "C06": ("images of 16 kinds, 2x4 to 14x14 and some up to 700x5, 5x700, 400x300, or parts of other images, are decomposed "
            "w.r.t. the corners of the colour cube in random order and put together again; non-trivial: every pixel was "
            "compared; distinct by the pixels",
            {"quick": (2400, 75), "thorough": (60000, 700)}, [("pixels", 100000), ("large", 20), ("views", 100)]),
    "C07": ("images of 9 kinds are decomposed w.r.t. random palettes and up to 40 pixels each are compared with the weights of "
            "a linear program that has the Delaunay cell as its optimum; non-trivial: at least one pixel with a unique "
            "optimum was compared; distinct by pixels and palette",
            {"quick": (8000, 60), "thorough": (250000, 700)},
            [("pixels_compared", 10000), ("pixels_mixing_6", 200), ("pixels_mixing_2", 200), ("long_images", 15)]),
    "C08": ("random palettes of 4 to 50 colours (the colour cube, on the colour cube's surface, inside of it, on a sphere) and "
            "images within or beyond them; non-trivial: signed weights of every pixel and channel were measured, and "
            "compared with a reference where the palette determines them; distinct by pixels and palette",
            {"quick": (12000, 60), "thorough": (300000, 700)},
            [("corner_pixels_outside", 5000), ("corner_pixels_unambiguous", 5000), ("images_inside", 300)]),
    "C09": ("random images, palettes and recolouring palettes; non-trivial: the relations between channels and recoloured "
            "images (indicator, complement, mean, permuted components, permuted palette, wrong sizes) were checked for "
            "every pixel; distinct by pixels and palette",
            {"quick": (12000, 60), "thorough": (300000, 700)}, [("permuted", 500), ("palettes", 5000)]),
    "C10": ("palettes of 13 kinds (valid, duplicates, on a line or plane, interior or boundary points, slivers, tiny, lattice "
            "points, many colours), six per case; non-trivial: the verdict was compared with exact integer geometry; distinct "
            "by the colours",
            {"quick": (30000, 60), "thorough": (1000000, 700)},
            [("accepted_valid", 200), ("rejected_plane", 200), ("rejected_duplicate", 200), ("rejected_face", 100),
             ("accepted_face", 100), ("rejected_centre", 100)]),
    "C11": ("images of 16 kinds and images with a handful of colours, random limits and error bounds; non-trivial: the "
            "computed palette was checked with exact integer geometry and used; distinct by pixels and parameters",
            {"quick": (12000, 60), "thorough": (300000, 700)}, [("simplified", 500), ("used", 1000), ("clamped", 100)]),
    "C12": ("as for C11; non-trivial: the palette was compared with the exact hull, the requested error, or an independent "
            "simulation of the simplification; distinct by pixels and parameters",
            {"quick": (16000, 60), "thorough": (400000, 700)},
            [("simulated", 2000), ("simulated_ends_early", 500), ("error_checked", 1000), ("unclamped", 1000), ("exact_hull", 300)]),
    "C17": ("images without volume (grey, constant, colours on a line or plane, one row or column, empty, tiny, colour a "
            "function of the position, 2 or 3 colours) mixed with ordinary ones and random limits, error bounds including "
            "infinity and NaN; non-trivial: the outcome was compared with the exact rank of the points and an ordinary "
            "image processed before and after gave the same result; distinct by the pixels",
            {"quick": (4000, 60), "thorough": (120000, 700)},
            [("weights_impossible", 500), ("palette_impossible", 500), ("weights_possible", 100), ("panics", 500)]),
}


def args():
    a = sys.argv[1:]
    case = None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--case" in a:
        i = a.index("--case")
        case = int(a[i + 1])
        del a[i:i + 2]
    if "--seed" in a:
        i = a.index("--seed")
        seed = int(a[i + 1])
        del a[i:i + 2]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return prop, tier, seed, case


def mon_check(prop, tier, seed, case):
    rule, sizes, require = MON[prop]
    rep = Report(prop, tier, seed)
    binary = build_mon(["raw"] if prop == "C05" else [])
    n, budget = sizes[tier]
    if case is not None:
        run_mon(rep, binary, prop, tier, seed, 1, budget, nproc=1, first=case)
        finish(rep, rule)
    run_mon(rep, binary, prop, tier, seed, n, budget)
    finish(rep, rule, require)


def main():
    prop, tier, seed, case = args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if prop == "setup":
            for c in (["cargo", "--version"], ["clang", "--version"], ["node", "--version"], ["valgrind", "--version"]):
                subprocess.run(c, env=base_env(), check=True, stdout=subprocess.DEVNULL)
            log("ready")
            return
        if prop in MON:
            mon_check(prop, tier, seed, case)
        else:
            import extra
            extra.CHECKS[prop](prop, tier, seed, case)
    except HarnessError as e:
        log(f"INCONCLUSIVE: {e}")
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
