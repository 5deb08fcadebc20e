#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept together so that they stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HULL, DEL, RAW = "qhull-rs/src/convex_hull.rs", "qhull-rs/src/delaunay.rs", "qhull-rs/src/raw.rs"
SYS, EXT = "qhull-sys/src/lib.rs", "qhull-sys/src/ext.c"
LIB, PAL, TRI = (f"image-palette-recoloring/src/{x}.rs" for x in ("lib", "palette", "triangle_distance"))
CAPI, HDR = "image-palette-recoloring-c/src/lib.rs", "image-palette-recoloring-c/image-palette-recoloring.h"
CLI = "image-palette-recoloring-cli/src/main.rs"
WORKER, PAGE, HTML = (f"image-palette-recoloring-web/src/{x}" for x in ("js/webworker.js", "js/index.js", "html/index.html"))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, observe=list(observe)))


prop("C01", "Convex hulls enclose their points and have only input points as corners",
     "For every finite set of points that spans the space (2 to 6 dimensions tested), the convex hull's vertices are distinct input "
     "points, including every extreme point, and no input point lies outside of a facet's plane by more than rounding. "
     "Facet normals have length one and point outwards, every vertex of a facet lies on that facet's plane, and the facets "
     "enclose a volume. All ways of constructing a hull from the same points give the same hull.",
     ["inputs"], "all dimensions, numbers and positions of points (general, gridded, duplicated, almost flat, wide ranges of scale)",
     "The tests build a handful of fixed or uniformly random hulls and compare counts; rounding, coplanar points and the copying out of qhull's structures only go wrong for particular inputs.",
     [HULL, RAW, SYS, EXT, "qhull-sys/qhull/src/libqhull_r"],
     [("qhull is run with merged facets triangulated", RAW), ("vertices, normals and offsets are copied out of qhull's lists", HULL)],
     "runtime monitoring: an independent geometric oracle over hulls of generated point sets",
     "Every observed hull was compared with all of its input points (and brute-force enumeration of supporting planes where small); says nothing about point sets that were not generated. Trusts the oracle's tolerances (1e-9 relative to the size of the point set).",
     ["vertices(), facets(), normal(), offset() of the hull"])

prop("C02", "The faces of a convex hull form a closed surface with consistent neighbours",
     "For every convex hull, each facet has as many distinct vertices as the space has dimensions, each ridge belongs to exactly two "
     "facets (where qhull guarantees it: in up to four dimensions, or in general position), and those two are each other's neighbours; in general position, a facet's k-th neighbour is the one across from its k-th vertex. In three dimensions all facets are listed with the same orientation, seen from outside, and the "
     "numbers of vertices, edges and facets satisfy Euler's formula. Handles for the same vertex or facet are equal, hash equally and keep "
     "their index, handles for different ones, also those of different hulls, are not equal.",
     ["inputs"], "all point sets that span 2 to 6 dimensions",
     "Tests look at single facets of a few hulls; the neighbour tables and orientation depend on qhull's internal order of facets, ids and flags for each input.",
     [HULL, RAW, SYS, EXT],
     [("facet ids are mapped to indices while copying", HULL), ("vertices are reversed depending on the facet's orientation flag", RAW)],
     "runtime monitoring: combinatorial oracle over the facet graph of generated hulls",
     "All facets, ridges and neighbour lists of each observed hull are checked; only generated point sets are covered.",
     ["vertices(), neighbors(), index(), ==, Hash of facets and vertices"])

prop("C03", "Delaunay triangulations cover the points' hull once, with empty circumspheres",
     "For every finite set of points that spans the space and isn't on a single sphere, the simplices of the Delaunay triangulation have input points as corners, fill the "
     "convex hull's volume without overlapping, and the simplex opposite of each corner is the one that shares the remaining corners. "
     "For points in general position every point is a corner and no point lies inside of the circumsphere of a simplex.",
     ["inputs"], "all point sets in 2 to 5 dimensions, general and degenerate",
     "One fixed triangulation is compared in the tests; upper facets, missing neighbours at the boundary and degenerate simplices depend on the input.",
     [DEL, RAW, SYS, EXT],
     [("upper facets of the lifted hull are filtered out", RAW), ("ids are mapped to indices, missing neighbours to none", DEL)],
     "runtime monitoring: volume, adjacency and empty-sphere oracle over generated triangulations",
     "Volumes are compared with an independently computed hull, circumspheres with all points, relative tolerance 1e-6/1e-7; only generated point sets.",
     ["vertices(), simplices(), neighbors() of the triangulation"])

prop("C04", "Searching a triangulation finds the simplex that contains the point",
     "For every triangulation, query point, tolerance, starting hint and search mode, a search ends, returns nothing for points clearly outside of the "
     "triangulation and otherwise a simplex that contains the point within the tolerance. The reported barycentric coordinates are "
     "those of the point with respect to the corners of that simplex, in the order of its corners. Directed and brute-force "
     "search agree, and earlier searches with the same searcher don't influence the answer.",
     ["inputs", "histories"], "all triangulations, query points (inside, on and near faces, at corners, far away) and sequences of queries with one searcher",
     "The only tests search fixed triangulations for random interior points; walks that get stuck, degenerate simplices, the fallback and stale hints need particular histories.",
     [DEL, RAW], [("walk along plane distances, then barycentric coordinates, then brute force", DEL),
                  ("solvers are precomputed per simplex", DEL)],
     "runtime monitoring: barycentric coordinates computed independently for every query of generated histories",
     "Every returned simplex and coordinate is verified, and every strictly contained point has to be found; points too close to a face to call are only checked for containment within tolerance.",
     ["find_simplex, find_simplex_mut, barycentric_coords of a searcher and simplex"])

prop("C05", "The raw handles onto qhull's structures tell the same story as the typed ones",
     "For every point set, the raw (linked-list) hull and triangulation have the same vertices, facets, planes, neighbours and simplices as the typed "
     "ones, with unique ids. The facets around a raw vertex are those that contain it. Plane distances, lifted points, barycentric solvers and "
     "point location of the raw triangulation, from any simplex as the hint, agree with directly computed geometry.",
     ["inputs"], "all point sets in 2 to 5 dimensions, with all query points",
     "The tests only use the raw interface in single examples; the pointers, offsets and flags it reads are only exercised by varied inputs.",
     [RAW, SYS, EXT], [("typed iterators over qhull's lists and sets", RAW), ("accessors implemented in C", EXT)],
     "runtime monitoring: differential oracle between raw and typed views, and direct geometry",
     "Compares both views element by element for every generated input; a fault common to both views is only seen through C01 to C04.",
     ["the raw hull and triangulation"])

prop("C06", "An image decomposed by the colour cube is reproduced pixel by pixel",
     "For every image whose pixels span colour and position space, decomposing it with respect to the eight corners of the colour cube (in any "
     "order) and recombining it with the same colours gives back every pixel within one step of each component. The sizes stay the same, and "
     "parts (views) of other images behave like images of their own.",
     ["inputs"], "all images: sizes, aspect ratios, contents from random noise to gradients, blocks and few colours",
     "The tests decompose one or two pictures without looking at the pixels; wrong weights only show for pixels in particular cells or with failing searches.",
     [LIB, PAL, TRI, DEL], [("pixels are located in the triangulation of the hull's vertices", LIB), ("pixels outside by rounding are projected", LIB),
                            ("weights of vertices are combined with those of the palette", LIB)],
     "runtime monitoring: reconstruction oracle over every pixel of generated images",
     "Every pixel of each generated image is compared; large and oddly shaped images are included. Trusts the image crate.",
     ["reconstruct() of the decomposed image"])

prop("C07", "Each pixel is mixed from the Delaunay cell of extreme pixels around it",
     "Every pixel's channel weights are the convex combination of the weights of those extreme pixels (in colour and position) that are the corners of the "
     "Delaunay cell which contains the pixel. Which pixels mix is decided by colour and position together, both scaled to the range from zero to one by the colour range and the image's size.",
     ["inputs"], "all images and palettes in general position",
     "No test looks at weights of pixels; a wrong scale, cell or combination still reproduces the picture with an unchanged palette.",
     [LIB, DEL, HULL], [("pixels become points of colour and position", LIB), ("triangulation of the vertices of the hull", LIB)],
     "runtime monitoring: linear programs whose optimum is the Delaunay cell, compared with measured weights",
     "Weights are measured through recoloured images and compared to 1e-4 for up to 40 pixels per image with a unique optimum.",
     ["channel weights, measured through recolouring palettes in which one colour stands out"])

prop("C08", "Decomposed pixels are convex combinations of the palette, as close as possible",
     "For every image and valid palette, the weights of each pixel are never negative and add up to one. If the palette's hull contains the image's colours, recombining with the "
     "palette reproduces the image within one step; extreme pixels outside of the hull become the hull's closest colour. "
     "Weights of extreme pixels follow the triangulation of the palette's hull around its darkest colour.",
     ["inputs"], "all images within and beyond all valid palettes of 4 to 50 colours",
     "Tests use one palette per picture and check that nothing fails; negative weights or a wrong closest point show only for colours outside of a particular palette.",
     [LIB, PAL, TRI], [("star triangulation around a colour of the palette", PAL), ("closest point on a triangle", TRI)],
     "runtime monitoring: signed weights measured for every pixel and channel against an independent model",
     "Every pixel and channel of the generated images is measured; where the palette leaves several triangulations possible only the convexity and closeness are checked.",
     ["channel weights measured through recolouring, reconstruct()"])

prop("C09", "Recolouring is linear in the palette and independent per channel and component",
     "For every decomposed image, a channel as grayscale image is what recolouring with that channel white and the others black gives, and recolouring with any "
     "palette is the sum of the palette's colours weighted by the channels, for each component on its own. Palettes of a different size are rejected, as are channels that don't exist, and reordering the decomposition "
     "palette only reorders the channels.",
     ["inputs"], "all images, decomposition palettes and recolouring palettes",
     "Tests recolour one picture; relations between several recolourings are not tested at all.",
     [LIB, PAL], [("weights are summed per pixel and component", LIB), ("grayscale channel", LIB)],
     "runtime monitoring: metamorphic oracle over families of recolourings",
     "Relations hold for all pixels of generated images up to the rounding of 8-bit components; doesn't say what the weights are (C07, C08).",
     ["reconstruct(), get_channel_grayscale()"])

prop("C10", "Exactly the palettes without redundant colours are accepted",
     "A palette is accepted for decomposition if and only if it has at least four colours and each of them is a corner of the convex hull, with a volume, of all of them. "
     "Rejection is an error result, never a panic, and acceptance gives as many channels as colours.",
     ["inputs"], "all palettes: duplicates, lines, planes, interior, edge and face points, lattices, tiny and large ones",
     "Tests try one palette with an interior colour; the verdict on almost flat or touching palettes depends on rounding within qhull.",
     [LIB, PAL], [("hull of the palette, merged facets", PAL), ("number of hull vertices compared with the palette", LIB)],
     "runtime monitoring: exact integer convexity oracle for every verdict",
     "The oracle is exact (integers); covers generated palettes of up to 45 colours only.",
     ["result of creating a decomposed image"])

prop("C11", "Computed palettes are valid, of the right size, and usable as they are",
     "For every image whose colours have a volume and all limits, a computed palette has at least four and at least the requested minimum number of colours if the image's hull has that "
     "many, never more than the hull of the image's colours has, and each of its colours is a corner of their hull. It is accepted by the decomposition without changes.",
     ["inputs", "configurations"], "all images, minimum and maximum sizes and error bounds",
     "Tests compute palettes of one image; rounding and clamping create redundant or coinciding colours for few images only.",
     [PAL], [("simplification by collapsing edges", PAL), ("rounding and clamping of vertices", PAL)],
     "runtime monitoring: exact integer convexity oracle over computed palettes",
     "Exact check of each palette; images have at most a few hundred pixels.",
     ["palette returned for an image"])

prop("C12", "Palette simplification follows the documented algorithm and error bound",
     "A computed palette with nothing to simplify is exactly the set of corners of the hull of the image's colours. Otherwise it is the result of repeatedly collapsing the edge that adds the least volume until the minimum "
     "size, or the first palette no larger than the maximum whose next step would exceed the error bound. Its root mean square distance to the image's pixels doesn't exceed the bound, if the hull was within the maximum size to begin with.",
     ["inputs", "configurations"], "all images, minimum and maximum sizes and error bounds",
     "Tests compare no palette with anything; which edge is collapsed and when to stop shows in single colours only.",
     [PAL, TRI, HULL], [("choice of the edge", PAL), ("error of the pixels outside of the hull", PAL), ("stop conditions", PAL)],
     "runtime monitoring: an independent simulation of the simplification and an independent error measure",
     "Palettes are compared with the simulation where it doesn't depend on how ties are broken; the error measure on all.",
     ["palette returned for an image"])

prop("C13", "The C interface gives the library's results within the documented buffers",
     "For every sequence of calls that follows the header, the C functions give exactly the results of the Rust library, return null for images and palettes that can't be used, and zero without touching the buffer for "
     "channels that don't exist. They read and write only the documented sizes of the caller's buffers, don't refer to inputs after returning, and after freeing everything in any allowed order nothing stays allocated. Header and libraries fit together for C and C++.",
     ["inputs", "histories"], "all images, palettes, limits and orders of creating, using and freeing",
     "There are no tests of the C interface.",
     [CAPI, HDR], [("boxed values behind opaque pointers", CAPI), ("panics are turned into null", CAPI)],
     "runtime monitoring: guard pages, counted allocations and valgrind around a C client, differential oracle against the Rust API",
     "Life cycles are generated; every allocation of the C client is counted exactly, and a part is run under valgrind memcheck.",
     ["all functions of the header"])

prop("C14", "No input makes the library misuse memory, leak or have undefined behaviour",
     "Whatever points, images, palettes and parameters safe code passes to the hull, triangulation and recolouring interfaces, including degenerate ones that make them panic, no memory is accessed out of bounds, after being freed "
     "or before being initialised, nothing is leaked or freed twice, the C code has no undefined behaviour, and every call ends.",
     ["inputs", "histories", "fault_sequences"], "all inputs of the safe interfaces, including ones for which qhull reports an error",
     "Tests run without instrumentation; most memory errors don't change their results.",
     [RAW, HULL, DEL, SYS, EXT, "qhull-sys/qhull/src/libqhull_r", LIB, PAL],
     [("ownership of qhull's structures", RAW), ("errors unwind out of C code by longjmp inside of it", EXT)],
     "AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over all workloads",
     "What the sanitizers can see on the executed paths, in Rust and C alike.",
     ["reports of the sanitizers, signals, termination"])

prop("C15", "Results depend on nothing but the input",
     "The same image, palette and parameters give byte for byte the same palettes, channels and images: when called again, after other (also failing) work, on another thread, in another process with a different memory layout, and for a part of a "
     "larger image as for a copy of that part.",
     ["inputs", "histories"], "all inputs and all histories of earlier calls",
     "Tests never compare two runs.",
     [LIB, PAL, RAW, HULL], [("qhull without joggling or random rotation", RAW), ("no state between calls", LIB)],
     "runtime monitoring: digests of complete results compared within and between processes",
     "Every byte of the results of generated cases; three processes with differently filled memory.",
     ["all results of the public functions"])

prop("C16", "Independent and shared use from several threads is safe",
     "Pipelines that run at the same time on different threads, some of them failing, and threads that share weights, decomposed images, hulls and "
     "triangulations for reading, get the results they get alone, without data races.",
     ["schedules", "inputs"], "all interleavings of threads that use the library at the same time",
     "No test uses threads on purpose, and none would see a race.",
     [RAW, SYS, EXT, HULL, DEL, LIB], [("reentrant qhull with its state per call", EXT), ("markers for sharing between threads", RAW)],
     "ThreadSanitizer (Rust, std and C) and differential oracle under concurrent load",
     "Races on executed paths in observed interleavings; barriers make pipelines overlap.",
     ["results on threads, reports of the sanitizer"])

prop("C17", "Images that can't be decomposed are reported and do no harm",
     "An image whose pixels don't span colour and position space, or whose colours don't have a volume, makes the corresponding function panic "
     "with a message, in bounded time, for any limits including infinite and undefined error bounds; every other image is handled. Results of "
     "other images before, after and in between are unchanged.",
     ["inputs", "fault_sequences"], "all images without a volume (grey, constant, colours on a line or plane, tiny, empty), mixed with ordinary ones",
     "Tests have no such image.",
     [LIB, PAL, RAW, EXT], [("qhull's exit codes become panics", RAW), ("guard around qhull's error exits", EXT)],
     "runtime monitoring: exact rank oracle and before/after comparison around injected failures",
     "The rank is exact; covers generated images up to 12 by 12 pixels.",
     ["panics and results of the public functions"])

prop("C18", "The command line tool gives the library's results or fails without output",
     "For every image file, palettes and options, the tool prints or saves exactly what the library computes, names channels by index and colour, and touches no other file. Whatever is invalid (hexadecimal "
     "colours, sizes, palettes, limits, files, images without a volume) gives a non-zero exit code, no palette on the output and no image file.",
     ["inputs", "configurations"], "all options, colour lists, image formats and file names",
     "There are no tests of the tool.",
     [CLI], [("parser of colour lists", CLI), ("names of channel files", CLI)],
     "runtime monitoring: differential oracle over runs of the real tool in scratch directories",
     "Exit code, output and every file of generated runs; formats png, bmp, tiff, tga, ppm and (input only) jpg.",
     ["exit code, standard output, files"])

prop("C19", "The web worker answers each request once, correctly, and without leaking memory",
     "For every history of requests, also with several in flight, the worker answers each one exactly once with the library's result for that request or with an error if the library "
     "fails or gives none. Buffers in the library's memory are allocated, accessed and freed with their exact sizes on every path, also when that memory moves, and nothing is used after it was freed.",
     ["histories", "schedules", "fault_sequences"], "all request histories, interleavings of answers, failures of the library and moves of its memory",
     "There are no tests of the web interface.",
     [WORKER], [("request handler per method", WORKER)],
     "runtime monitoring: the real script against a simulated library that tracks every buffer, with a model of the answers",
     "Observed histories are interleaved at random; the library, browser and message channel are simulated.",
     ["answers of the worker, calls of the library"])

prop("C20", "The web page ends up showing the current picture, palette and colours",
     "Whatever pictures, clicks and edits a user makes and however fast, once the page comes to rest its palette, previews and recoloured image belong to "
     "the current picture, settings and colours, exactly that picture's weights and decomposition are kept, and no memory or object URL is leaked, used after being freed or freed twice. A "
     "picture that can't be used, a file that isn't one, or a cancelled choice does no harm, and another picture can be chosen afterwards. Colour texts change a colour if and only if they are a hash sign and six hexadecimal digits.",
     ["schedules", "histories", "inputs"], "all sequences of user actions, their timing relative to answers of the worker, and all texts",
     "There are no tests of the web interface.",
     [PAGE, WORKER, HTML], [("computations wait for each other", PAGE), ("colour and text fields are kept in sync", PAGE)],
     "runtime monitoring: the real page and worker in a simulated browser with random scheduling and a model of what is shown",
     "Observed interleavings of generated actions; browser and library are simulated.",
     ["elements of the page, calls of the library, object URLs"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 driver/check.py setup",
    "hooks": {"guard": "none", "enable": "the checks observe public interfaces only; /repo has no hooks", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 driver/check.py {p['id']} quick",
        "thorough_cmd": f"python3 driver/check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "All checks build from /repo's working tree. Defects found in the original tree were repaired (fix: commits, listed in known-findings.txt).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
