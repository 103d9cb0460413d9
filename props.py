"""Which builds and how many cases each check runs."""
VARIANTS = {
    "f32c": {"profile": "checked", "features": [], "what": "single precision, optimised, the repository's debug assertions and overflow checks on"},
    "f64c": {"profile": "checked", "features": ["f64"], "what": "double precision, optimised, debug assertions and overflow checks on"},
    "s32c": {"profile": "checked", "features": ["solver"], "what": "single precision with the reference solver, optimised, debug assertions and overflow checks on"},
    "s64c": {"profile": "checked", "features": ["solver", "f64"], "what": "double precision with the reference solver, debug assertions and overflow checks on"},
    "s32": {"profile": "release", "features": ["solver"], "what": "single precision with the reference solver, plain release build"},
    "t32": {"profile": "checked", "features": [], "toolchain": ["+nightly"], "args": ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], "dir": "tsan",
            "env": {"RUSTFLAGS": "-Zsanitizer=thread"}, "triple": ["x86_64-unknown-linux-gnu"],
            "run_env": {"MONITOR_MODE": "threads", "TSAN_OPTIONS": "halt_on_error=0 exitcode=0 report_signal_unsafe=0"},
            "what": "single precision, standard library and all dependencies compiled with ThreadSanitizer, debug assertions on"},
    "f32": {"profile": "release", "features": [], "what": "single precision, plain release build"},
}
ASSUME_BAND = ("no verdict is asserted inside a floating point contact band around exact touching (single precision: 4e-5 of the "
               "coordinate magnitude for boundaries, 2e-3 for containment of a shape thinner than that; double: 1e-10 / 2e-7)")
DEF = {"quick": [("f32c", 1.0), ("f64c", 0.4)], "thorough": [("f32c", 1.0), ("f64c", 0.5), ("f32", 1.0)]}
SOL = {"quick": [("s32c", 1.0), ("s64c", 0.4)], "thorough": [("s32c", 1.0), ("s64c", 0.5), ("s32", 1.0)]}
PROPS = {
    "C01": {
        "variants": DEF, "cases": {"quick": 3000, "thorough": 60000},
        "rule": "a case is a random container (rectangles, concave polygons, holes, zones, offsets, scales), engine configuration, placed items with "
                "removals, and 60 query placements (random, near-contact, concentric, lattice, outside) with random ignored sets; each query is asked "
                "through three routes and compared with an independent f64 polygon overlap computation; non-trivial: the oracle gave a definite verdict",
        "assumptions": [ASSUME_BAND],
        "floors": {"expected_collision": 5000, "expected_free": 1000},
    },
    "C02": {
        "variants": DEF, "cases": {"quick": 4000, "thorough": 80000},
        "rule": "a case is a random populated scene; each query collects the collisions of a polygon, a surrogate or a point/edge/circle/rectangle probe "
                "into a buffer with prior content, under a random ignored set, and the result is compared hazard by hazard with an independent f64 "
                "computation; non-trivial: the oracle had a definite verdict for the hazard",
        "assumptions": [ASSUME_BAND],
        "floors": {"expected_reported": 3000, "expected_absent": 3000, "probe_expected": 1000, "queries_hitting_several": 500},
    },
    "C03": {
        "variants": DEF, "cases": {"quick": 6000, "thorough": 60000},
        "rule": "a case is a random polygon with a random surrogate configuration (poles, piers, limits) checked for containment of every surrogate element in "
                "the shape, for its behaviour under random rigid motions, and inside scenes where fail-fast, surrogate and plain verdicts are compared",
        "assumptions": [ASSUME_BAND],
        "floors": {"piers": 500, "poles": 3000, "polygons": 1000, "verdicts": 3000, "fail_fast_hits": 300},
    },
    "C04": {
        "variants": DEF, "cases": {"quick": 3000, "thorough": 60000},
        "rule": "a case is a random populated scene asked three-valued queries about random, near-border, tiny and large points, segments and circles; every "
                "definite answer is compared with an independent distance/intersection computation; non-trivial: the answer was definite",
        "assumptions": [ASSUME_BAND],
        "floors": {"answers_true": 1000, "answers_false": 1000},
    },
    "C05": {
        "variants": DEF, "cases": {"quick": 4000, "thorough": 60000},
        "rule": "a case is a history of placing, removing (instantly or lazily), committing, flushing, snapshotting, restoring, cloning and container swaps on a layout "
                "or on a bare engine; after each operation its hazards and answers to random and near-contact queries are compared with a freshly built one "
                "holding the same items; non-trivial: a query answered by both",
        "assumptions": ["verdicts within the floating point contact band may differ and are not compared"],
        "floors": {"operations": 3000, "restores": 150, "bin_swaps": 30, "colliding_queries": 3000, "free_queries": 1000, "layout_histories": 300, "engine_histories": 300},
    },
    "C06": {
        "variants": DEF, "cases": {"quick": 4000, "thorough": 80000},
        "rule": "a case is a history of placements, instant and lazy removals, flushes, commits, snapshots and restores; whenever the grid is readable every "
                "cell's proximity per quality is compared with one recomputed from the hazards and with a freshly built grid, and cells that refuse an item are "
                "attacked with placements centred in them; non-trivial: a clean state compared, or a refusing cell probed",
        "assumptions": [ASSUME_BAND, "placements are inside the container and centred by the pole of inaccessibility, as the solver does"],
        "floors": {"clean_states": 1000, "dirty_states": 300, "feasible_placements": 300, "refusing_cells_probed": 1000, "tight_discs": 1000},
    },
    "C07": {
        "variants": DEF, "cases": {"quick": 6000, "thorough": 100000},
        "rule": "a case is a history on one or more bin or strip packing problems of the same instance (place, remove, drop/register layouts, resize, create solutions with and without base, "
                "restore any solution, clone); a model of the recorded state is compared with the problem after every restore, with all kept solutions, and the engines with fresh ones; "
                "non-trivial: a distinct state compared",
        "assumptions": ["the history respects the documented preconditions of the operations"],
        "floors": {"operations": 5000, "restores_of_others": 500, "restores_of_the_reference": 200, "solutions": 2000, "solutions_with_base": 100,
                   "layouts_dropped": 200, "problems_cloned": 100, "engines_compared": 500},
    },
    "C08": {
        "variants": DEF, "cases": {"quick": 6000, "thorough": 100000},
        "rule": "a case is a history as for C07; after every operation placed, missing and stock quantities, usage, completeness and cost reported by the problem and its "
                "solutions are compared with an independent count over the placed items; non-trivial: a distinct state compared",
        "assumptions": ["the history respects the documented preconditions of the operations"],
        "floors": {"operations": 5000, "layouts_dropped": 200, "layouts_emptied": 200, "layouts_registered": 20, "states_beyond_demand": 500,
                   "states_without_stock_left": 200, "complete_solutions": 200},
    },
    "C09": {
        "variants": DEF, "cases": {"quick": 2500, "thorough": 40000},
        "rule": "a case is a history of placements, removals, resizes of every kind and fits of one strip; after each the strip's extent, the kept and dropped items, their "
                "transformations, quantities, occupied range and engine answers are compared with a model; non-trivial: a distinct state compared",
        "assumptions": ["items within the floating point contact band of the new strip's border may be kept or dropped",
                        "fitting is asked of strips with at least one item, all of them inside"],
        "floors": {"resizes": 2000, "fits": 500, "items_kept": 2000, "items_dropped": 1000},
    },
    "C10": {
        "variants": DEF, "cases": {"quick": 8000, "thorough": 200000},
        "rule": "a case is a generated instance file (bins or strip; rectangles, polygons, holes, zones, all optional fields) read with a random configuration and compared field by field "
                "with what was written, shapes vertex for vertex or through their recorded transformation; non-trivial: a distinct instance",
        "assumptions": [ASSUME_BAND], "floors": {"bin_instances": 1000, "strip_instances": 500, "holes": 1000, "zones": 2000},
    },
    "C11": {
        "variants": DEF, "cases": {"quick": 2600, "thorough": 80000},
        "rule": "a case is a set of detailed polygons (blobs, jittered outlines, open rings, combs, turned rectangles, special ones) simplified in both directions and through the parser, "
                "and compared with the original in f64: one-sidedness, area, vertex count, simplicity; non-trivial: vertices were removed",
        "assumptions": [ASSUME_BAND, "tolerances up to 0.3"], "floors": {"shapes": 5000, "simplified": 5000, "parsed_instances": 500},
    },
    "C12": {
        "variants": DEF, "cases": {"quick": 5000, "thorough": 100000},
        "rule": "a case is a generated instance (with or without centring), a history that fills, resizes or shifts a problem, and the exported solution: every exported placement is applied in f64 to the "
                "input file's own shape and compared with the placed shape, then the file is read back, compared placement by placement and exported again; non-trivial: a distinct solution",
        "assumptions": ["floating point tolerance relative to the coordinate magnitude"],
        "floors": {"placements": 3000, "bin_solutions": 300, "strip_solutions": 250, "shifted_strips": 200},
    },
    "C13": {
        "variants": SOL, "cases": {"quick": 1800, "thorough": 30000},
        "rule": "a case is one of the bundled instances or a generated one, with random seed, sampling budget, engine configuration and simplification, solved and then restarted after removals; "
                "every exported layout is checked in f64 against the polygons of the input file (overlap, containment, holes, zones, orientations, demand, stock, completeness); non-trivial: a distinct solution",
        "assumptions": [ASSUME_BAND, "items of a strip instance fit the strip's height in every allowed orientation"],
        "floors": {"placements": 4000, "pairs": 20000, "restarts": 200, "strip_instances": 80, "bin_instances": 80, "complete_runs": 200, "incomplete_runs": 80, "bundled_instances": 10},
    },
    "C14": {
        "variants": SOL, "cases": {"quick": 350, "thorough": 6000},
        "rule": "a case is an instance, configuration and seed run again in the same process, in a thread pool of another size, next to two concurrent runs and in another process, and with the command line tool three times; the parsed instance, "
                "surrogates, grid and every placement are compared bit for bit; non-trivial: a distinct solution",
        "assumptions": ["the runs share one build and machine"],
        "floors": {"runs": 100, "other_pool": 100, "concurrently": 100, "other_process": 30, "tool_runs": 60},
    },
    "C15": {
        "variants": DEF, "cases": {"quick": 8000, "thorough": 200000},
        "rule": "a case is a container with zones of many qualities and placed items: filters of every kind and combination are compared with a direct reading of the hazards, items of every requirement are "
                "put on zones and their admission compared with f64 overlap, and the grid's proximities with the relevant hazards; non-trivial: a distinct filter or admission decided",
        "assumptions": [ASSUME_BAND],
        "floors": {"filters": 4000, "admitted_on_a_zone": 1000, "refused_on_a_zone": 5000, "requirement_decided": 1000, "feasible_layouts": 500, "grid_cells": 10000, "zones": 2000},
    },
    "C16": {
        "variants": DEF, "cases": {"quick": 40000, "thorough": 800000},
        "rule": "a case is a polygon (random, axis-aligned, collinear runs, tiny/large, offset, either orientation) whose measures, hull, containment and "
                "distance answers are compared with f64 recomputations, before and after rigid motions into fresh and reused buffers",
        "assumptions": [ASSUME_BAND], "floors": {"polygons": 5000, "points_inside": 5000},
    },
    "C17": {
        "variants": DEF, "cases": {"quick": 60000, "thorough": 2000000},
        "rule": "a case is a chain of compositions of rotations and translations (special angles, tiny, huge, negative), mirrored in f64 and compared on points, "
                "segments, circles, polygons and surrogates through every application route", "assumptions": ["floating point tolerance relative to the coordinate magnitude"],
        "floors": {"chains": 5000},
    },
    "C18": {
        "variants": SOL, "cases": {"quick": 900, "thorough": 20000},
        "rule": "a case is a run of the real command line tool in a scratch folder on a bundled or generated instance (options, configuration files, names, folders, leftovers of earlier runs varied): exit status, "
                "file set, instance, configuration and solution in the file, the same computation repeated in process, the file read back, feasibility in f64, and every drawing with its references and "
                "transformations resolved and compared shape by shape; every sixth case is unusable input or an unwritable place, which has to end in an error; non-trivial: a distinct drawing or unusable input",
        "assumptions": [ASSUME_BAND, "drawings use the SVG elements path, circle, use, g and defs with absolute path commands"],
        "floors": {"runs": 200, "drawings": 200, "drawn_items": 1000, "drawn_holes": 100, "drawn_zones": 100, "drawn_surrogates": 200, "unusable_inputs": 50, "full_devices": 2, "compared_with_the_computation": 150},
    },
    "C19": {
        "variants": {"quick": [("f32c", 1.0), ("f64c", 0.3), ("t32", 0.1)], "thorough": [("f32c", 1.0), ("f64c", 0.5), ("f32", 1.0), ("t32", 0.25)]},
        "cases": {"quick": 1500, "thorough": 20000},
        "rule": "a case is one of: a family of layouts or engines with their clones and snapshots, or of problems with their clones and solutions, where after every operation on one everything all "
                "the others hold and answer is compared with before, as is everything after being asked; or 2-6 threads that query one shared layout and clone and modify their own copies, with injected "
                "delays, whose answers are compared with those of the same scripts run one after the other; the ThreadSanitizer build watches every memory access of the same threads; "
                "non-trivial: a distinct state or schedule (recorded switches between threads)",
        "assumptions": ["a thread schedule is sampled, not enumerated"],
        "floors": {"scripts": 200, "shared_queries": 10000, "thread_switches": 1000, "others_compared": 300, "asked_again": 500, "types_asked": 10},
    },
    "C20": {
        "variants": DEF, "cases": {"quick": 60000, "thorough": 2000000},
        "rule": "a case is a round of random pairs of primitives (generic, axis-parallel, nested, concentric, sharing coordinates, all scales) on which every "
                "predicate and measure is compared with an f64 recomputation", "assumptions": [ASSUME_BAND], "floors": {"rounds": 5000},
    },
    "C21": {
        "variants": SOL, "cases": {"quick": 4000, "thorough": 80000},
        "rule": "a case is a problem in the middle of being solved (several layouts, placed and removed items, grids of 1 to 400 cells) and an item with some "
                "allowed rotations: the cells, draws and discards of the samplers are compared with the grid and with exact costs, the results of searches with "
                "exact geometry and with placements drawn independently, and searches with the same random numbers and smaller budgets with one another; "
                "non-trivial: a placement was found",
        "assumptions": [ASSUME_BAND, "statements about what is drawn are statistical: thresholds are seven standard deviations or probabilities below 1e-6 of missing a fifth of all placements"],
        "floors": {"searches": 1000, "placements_found": 1500, "draws": 100000, "cells_discarded": 20000, "local_batches": 2000, "quality_checked": 100, "budgets_compared": 800, "layouts_passed_over": 100, "slivers": 500},
    },
}
