#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mechanism.split(", ")], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

T = "The 11 existing tests run the LBF heuristic on 11 fixed instances with one seed and one configuration; "
J = "jagua-rs/src/"

p("C01", "Collision verdicts agree with exact geometry",
  "Asking the collision detection engine whether a polygon (as given, or a reference shape under a rigid transformation, through the fail-fast route or directly) collides returns true exactly when the polygon overlaps a hazard that is registered, active and not ignored: its boundary crosses the hazard's, one lies inside the other, or it is not fully inside the container. "
  "It returns false when it is clear of all of them, whatever the quadtree depth, proximity-grid size or surrogate configuration. "
  "A polygon that is not fully inside the engine's own bounding square always counts as colliding.",
  ["inputs", "configurations", "histories"],
  "every container (convex or not, with holes and quality zones), every set of placed polygons, every query polygon/transformation, every set of ignored hazards and every engine configuration, up to a stated floating point contact band",
  T + "they only ever see the placements that heuristic samples, never compare a verdict with an independent geometric answer, and use no ignored-hazard sets beyond one quality filter.",
  [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs", J+"collision_detection/quadtree/qt_partial_hazard.rs", J+"geometry/primitives/edge.rs", J+"geometry/primitives/simple_polygon.rs", J+"geometry/primitives/aa_rectangle.rs"],
  "quadtree of hazards, edge intersection then containment test on the pole of inaccessibility",
  observe=["CDEngine::poly_collides", "CDEngine::surrogate_or_poly_collides"])

p("C02", "Collected collision sets are exact and the caller's buffer is respected",
  "Collecting the collisions of a polygon yields exactly the set of registered, relevant hazards it overlaps (including the container's exterior when the polygon is not inside the container), each once, and collecting for a point-, edge-, circle- or rectangle-like probe or for a fail-fast surrogate yields no hazard that it does not touch and every hazard whose boundary it clearly meets. "
  "Entities already present in the caller's buffer stay there unchanged, in place, and are not reported again; ignored entities are never added.",
  ["inputs", "configurations", "histories"],
  "every engine state, query shape, transformation, ignored set and initial buffer content, up to a floating point contact band",
  T + "no test calls any collecting query on the success path.",
  [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs"],
  "temporary extension of the buffer with ignored entities, quadtree traversal that skips already detected hazards, containment pass",
  observe=["CDEngine::collect_poly_collisions", "CDEngine::collect_surrogate_collisions", "CDEngine::hazards_within"])

p("C03", "Fail-fast surrogates never contradict the real shape",
  "The circles and segments that stand in for a shape in the fail-fast test all lie inside that shape, are limited to the configured numbers, and move with the shape under any transformation. "
  "Hence a fail-fast collision is always a real collision, and checking with any surrogate configuration (including none) gives the same final verdict as checking the polygon alone.",
  ["inputs", "configurations"],
  "every simple polygon (position, scale, concavity), every surrogate configuration, every rigid transformation and every engine state",
  T + "a surrogate that leaks outside its shape only makes the heuristic reject feasible placements, which no test notices.",
  [J+"geometry/fail_fast/sp_surrogate.rs", J+"geometry/fail_fast/poi.rs", J+"geometry/fail_fast/piers.rs", J+"collision_detection/cd_engine.rs", J+"geometry/primitives/circle.rs"],
  "poles of inaccessibility, piers and their bounding circle, generated once per item and transformed per query",
  observe=["SimplePolygon::surrogate", "CDEngine::surrogate_collides"])

p("C04", "Definite answers of the three-valued collision queries are right",
  "Whenever a three-valued query about a point, segment or circle answers 'definitely collides', the probe really touches a relevant active hazard (or leaves the engine's bounding square); whenever it answers 'definitely does not collide', it touches none. "
  "Only 'indeterminate' carries no promise.",
  ["inputs", "configurations", "histories"],
  "every engine state and depth, every probe, hazard and ignored set, up to a floating point contact band",
  T + "these queries are only used as a shortcut deep inside the containment test and their answers are never checked.",
  [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard.rs"],
  "quadtree nodes classified as entirely/partially/not covered by a hazard",
  observe=["CDEngine::point_definitely_collides_with", "CDEngine::edge_definitely_collides", "CDEngine::circle_definitely_collides"])

p("C05", "Engine answers depend only on the hazards present, not on history",
  "After any sequence of placing, removing (instantly or lazily), committing, flushing, snapshotting, restoring, cloning and swapping the container, a layout and its engine answer every query exactly like a freshly built one that holds the same container and the same placed items. "
  "Lazily removed items stop counting immediately, re-placed ones count again, and no hazard is lost or left behind.",
  ["histories", "inputs", "configurations"],
  "every sequence of layout/engine operations, including repeated lazy removal and re-placement of the same item and restores to any earlier snapshot, for all containers and configurations",
  T + "their histories are place-only plus one batch of five lazy removals and two restores.",
  [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs", J+"entities/layout.rs"],
  "activation/deactivation of hazards in the quadtree, uncommitted deregisters, snapshot diffing on restore",
  state=[("dynamic_hazards", "hazards of placed items"), ("uncommitted_deregisters", "lazily removed hazards still in the tree")],
  observe=["Layout::{place_item,remove_item,create_snapshot,restore,change_bin,flush_changes}", "CDEngine queries"])

p("C06", "The hazard proximity grid is fresh, exact per pole and prunes soundly",
  "Whenever the proximity grid can be read, every cell's reported proximity equals the distance from its centre to the nearest relevant hazard present (items represented by their inscribed circles; zero inside), exactly as in a freshly built grid; while removals are pending, access is refused until they are flushed. "
  "A cell that declares it cannot accommodate an item is right: every placement of that item, centred by its pole of inaccessibility, in that cell collides with a relevant hazard, and every feasible centre lies in some cell.",
  ["histories", "inputs", "configurations"],
  "every sequence of placements inside the container, removals, flushes, snapshots and restores, every grid resolution, container, quality level and item, up to a floating point band",
  T + "an over-eager grid only makes the heuristic skip good regions and a stale one only makes it slower, so the tests pass either way.",
  [J+"collision_detection/hpg/hazard_proximity_grid.rs", J+"collision_detection/hpg/hpg_cell.rs", J+"collision_detection/hpg/grid.rs", J+"collision_detection/hpg/grid_generator.rs", J+"collision_detection/hpg/boundary_fill.rs"],
  "boundary fill over a grid of cells, static and dynamic proximities, lazy deregistration with dirty flag",
  observe=["CDEngine::haz_prox_grid", "HPGCell::{hazard_proximity,could_accommodate_item}"])

p("C07", "Restoring a solution reproduces exactly the state it captured",
  "Restoring a problem to any earlier solution, in any order and any number of times, brings back exactly the layouts in their order, containers, placed items with their handles and transformations, missing and placed quantities and remaining stock captured when it was created, and collision answers to match. "
  "A solution is immutable: later operations on the problem never alter it, incremental and full restores agree, and it can be restored into a clone of the problem or another problem for the same instance.",
  ["histories", "inputs"],
  "every interleaving of placing, removing, removing layouts, resizing, creating solutions (with or without a base solution) and restoring any of them, for bin and strip packing",
  T + "they restore the most recent solution once, right after removing five items.",
  [J+"entities/problems/bin_packing.rs", J+"entities/problems/strip_packing.rs", J+"entities/layout.rs", J+"entities/solution.rs", J+"collision_detection/cd_engine.rs"],
  "layout snapshots, incremental restore based on unmodified layouts and removed-layout cache",
  state=[("unmodified_layout_ids", "layouts unchanged since the reference solution"), ("uncommitted_removed_layouts", "cache of removed layouts")],
  observe=["ProblemGeneric::{create_solution,restore_to_solution}"])

p("C08", "Item demand, bin stock, usage and cost are conserved",
  "At every moment, for each item the quantity placed plus the quantity missing equals the demand and the quantity placed equals the number actually in the layouts; for each bin type the stock left plus the bins in use equals the initial stock, opening a bin from a template consumes exactly one and removing its last item gives it back. "
  "Solutions report the same quantities, and usage, completeness and used bin cost equal the ratios and sums computed from the placed items' areas and the containers' areas and values.",
  ["histories", "inputs"],
  "every history of placing, removing, opening, dropping and registering layouts and restoring solutions, including over-placement beyond demand",
  T + "quantities are only implicitly checked by the heuristic terminating.",
  [J+"entities/problems/problem_generic.rs", J+"entities/problems/bin_packing.rs", J+"entities/problems/strip_packing.rs", J+"entities/solution.rs", J+"entities/layout.rs"],
  "counters updated on every place/remove and rebuilt on restore",
  state=[("missing_item_qtys", "demand minus placed"), ("bin_qtys", "remaining stock")],
  observe=["ProblemGeneric accessors", "Solution fields and methods"])

p("C09", "Resizing or fitting a strip keeps exactly the items that fit",
  "After resizing a strip in the back, at the front, centred or to a given rectangle, the strip has the requested extent (and the original height for the first three), every item that lies inside the new strip is still placed with an unchanged transformation, every item that does not is no longer placed and counts as missing, and the collision answers reflect the new strip. "
  "Fitting never loses an item and leaves a strip no wider than the occupied width up to floating point tolerance; the reported occupied range and width are those of the placed items.",
  ["histories", "inputs"],
  "every arrangement of items lying inside a strip (at least one, for fitting) and every sequence of resizes, fits, placements and removals, up to a floating point contact band",
  T + "they fit a strip once at the end of a run and never shrink one below its contents.",
  [J+"entities/problems/strip_packing.rs", J+"entities/layout.rs", J+"entities/bin.rs"],
  "strip replaced by a new container, items re-placed if they do not collide with its exterior",
  observe=["SPProblem::{modify_strip*,fit_strip,occupied_range,occupied_width,strip_width,strip_height}"])

p("C10", "Parsing an instance preserves its meaning",
  "Parsing an input instance yields the same items and containers in the same order: shapes (vertex for vertex when simplification is off, with a repeated closing vertex dropped and orientation normalised), holes, quality zones per quality, demands, stock (unlimited when absent), values, container cost, required quality and the allowed rotations (none, the listed angles in radians, or any). "
  "With centring on, every shape is only moved by its recorded transformation, consistently for a container and all its holes and zones, so that undoing it gives back the input coordinates.",
  ["inputs", "configurations"],
  "every valid instance file (rectangles, polygons, polygons with holes, zones of every quality, all option combinations), with and without centring and simplification",
  T + "a misread demand, rotation, hole or zone still yields a solvable instance, so the tests pass.",
  [J+"io/parser.rs", J+"io/json_instance.rs", J+"entities/item.rs", J+"entities/bin.rs", J+"entities/quality_zone.rs", J+"entities/instances/bin_packing.rs", J+"entities/instances/strip_packing.rs"],
  "serde model of the JSON format, conversion to items and bins, centring pretransformation",
  observe=["Parser::parse", "Instance accessors"])

p("C11", "Polygon simplification is one-sided, bounded and keeps shapes valid",
  "A simplified item, hole or zone always covers the original shape and a simplified container outline never leaves the original one, so that a layout feasible for the simplified shapes is feasible for the originals. "
  "The area changes by at most the configured fraction, the number of vertices never grows, the result is a valid simple polygon, and simplification switched off changes nothing.",
  ["inputs", "configurations"],
  "every simple polygon (convex, concave, nearly collinear, many or few vertices, any scale and orientation), both directions and every tolerance up to 0.3",
  T + "the tests never compare simplified and original shapes.",
  [J+"util/polygon_simplification.rs", J+"io/parser.rs"],
  "iterative removal of corners and replacement of edge pairs, choosing the candidate with the smallest area change",
  observe=["polygon_simplification::simplify_shape", "Parser::parse"])

p("C12", "Exported solutions describe the real placements and can be read back",
  "For every placed item, the exported transformation applied to the shape exactly as it appears in the input file puts it where the solver has it (relative to the container as it appears in the input file, or to the strip's own corner), with the right container index or strip size, item indices and usage. "
  "Exporting a solution and reading it back gives a solution with the same containers, items, quantities and placements up to floating point tolerance, and exporting that again gives the same file content.",
  ["inputs", "histories"],
  "every instance (with and without centring), every bin or strip solution, including strips that were resized or shifted and rotated items with off-origin input coordinates",
  T + "no test exports or re-imports a solution.",
  [J+"io/parser.rs", J+"io/json_solution.rs", J+"geometry/transformation.rs"],
  "composition of pretransformations with the placement transformation and its inverse",
  observe=["compose_json_solution", "Parser::parse_and_build_solution", "internal_to_absolute_transform", "absolute_to_internal_transform"])

p("C13", "Layouts produced by the reference solver are feasible for the input data",
  "Every layout the left-bottom-fill solver returns or writes is feasible for the original input: no two items overlap, all lie inside their container and outside its holes and the zones below their required quality, only allowed orientations are used, and demand and stock are not exceeded. "
  "A strip packing run places every item, and a run restarted after removing items never ends with fewer items than it started from or with a broken layout; bin packing leaves an item out only after failing to find a spot for it.",
  ["inputs", "configurations", "histories"],
  "every well-formed instance (generated and bundled), seed, sampling budget and engine configuration, with or without simplification",
  T + "and they verify the outcome only through the code's own debug assertions, never against the input polygons.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs", "lbf/src/samplers/uniform_rect_sampler.rs", "lbf/src/lbf_cost.rs", J+"collision_detection/cd_engine.rs"],
  "sampling of placements from the proximity grid, fail-fast and full collision checks, local search, strip widening and final fit",
  observe=["LBFOptimizer::solve", "Solution"])

p("C14", "Results are reproducible for a given seed",
  "Running the solver twice on the same instance, configuration and seed gives the same layouts, placement for placement, whatever the number of worker threads or concurrent runs in the process; parsing an instance and generating surrogates and grids is deterministic as well. "
  "Nothing in the result depends on hash seeds, thread timing or memory addresses.",
  ["schedules", "inputs", "configurations"],
  "every instance, configuration, seed, thread-pool size and schedule",
  T + "each instance is run once, so a nondeterministic result is never compared with anything.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/main.rs", J+"io/parser.rs", J+"geometry/fail_fast/poi.rs", J+"collision_detection/cd_engine.rs"],
  "seeded small RNG, order-preserving parallel parsing",
  observe=["LBFOptimizer::solve", "Parser::parse", "lbf command line"])

p("C15", "Quality requirements and hazard filters select exactly the right hazards",
  "An item that requires a quality may overlap zones of at least that quality and no zone below it, an item without a stated requirement may overlap no inferior zone at all, and container, holes and placed items always count. "
  "Each filter deems irrelevant exactly the hazards it names (container hazards, zones at or above a cutoff, listed entities, or anything named by one of several combined filters), collecting the irrelevant ones of an engine returns exactly those, and the proximity grid uses the same notion of relevance.",
  ["inputs", "configurations"],
  "every container with zones of any qualities (overlapping, nested, touching the border), every item requirement and every combination of filters",
  T + "only the six baldacci instances have zones, and a filter that ignores too much or too little still gives a solution.",
  [J+"collision_detection/hazard_filter.rs", J+"entities/item.rs", J+"entities/quality_zone.rs", J+"entities/bin.rs", J+"collision_detection/hazard.rs", J+"collision_detection/hpg/hpg_cell.rs"],
  "zones registered as static hazards per quality; filters compiled to lists of ignored entities",
  observe=["generate_irrelevant_hazards", "HazardFilter", "Item::hazard_filter", "HPGCell::hazard_proximity"])

p("C16", "Polygon measures are correct and invariant under rigid motion",
  "For every simple polygon, the reported area, centroid, bounding box, diameter, convex hull and point-in-polygon and border-distance answers equal the mathematical ones, vertices are kept in counterclockwise order, and the pole of inaccessibility is a circle inside the polygon whose radius is close to the largest possible. "
  "Moving the polygon rigidly, in place, by copy or into a reused buffer, moves points, bounding box and pole along and leaves area, diameter and pole radius unchanged.",
  ["inputs"],
  "every simple polygon (either orientation, collinear and axis-aligned vertices, any scale and offset), every query point, every rigid motion and every reused buffer",
  T + "none of these values is asserted anywhere.",
  [J+"geometry/primitives/simple_polygon.rs", J+"geometry/convex_hull.rs", J+"geometry/fail_fast/poi.rs"],
  "shoelace formula, monotone chain hull, quadtree-like pole search, ray casting",
  observe=["SimplePolygon::{new,transform,transform_from,area,centroid,bbox,diameter,collides_with,distance}", "convex_hull functions"])

p("C17", "Rigid transformations compose, invert and decompose correctly",
  "Composing transformations applies them in order, a transformation followed by its inverse is the identity, decomposing into rotation and translation and composing again gives the same motion, and every transformation preserves distances and orientation. "
  "All ways of applying one transformation (in place, copy, into a buffer) to points, segments, circles, polygons and surrogates agree with plain rotation followed by translation.",
  ["inputs"],
  "every rotation angle (including multiples of a quarter turn, tiny, negative and beyond a full turn) and translation, and every sequence of compositions",
  T + "they only use transformations the heuristic samples and never compare them with anything.",
  [J+"geometry/transformation.rs", J+"geometry/d_transformation.rs", J+"geometry/primitives/point.rs", J+"geometry/geo_traits.rs"],
  "3x3 matrices with decomposition through atan2",
  observe=["Transformation", "DTransformation", "Transformable", "TransformableFrom"])

p("C18", "Files written by the command line tool match the computed solution",
  "The tool writes one solution file and one drawing per layout for the instance it was given: the file holds the input instance unchanged, the configuration used and a solution that is valid for that instance, and each drawing shows the container, its holes and zones and every placed item at the position given in the solution. "
  "Reading the written file back as an instance with a solution reproduces the layouts; unusable input ends in an error exit without writing a solution, and a run that cannot write its files does not report success.",
  ["inputs", "configurations"],
  "every instance file, configuration file, output folder and log level accepted on the command line",
  T + "no test runs the command line tool or looks at a written file.",
  ["lbf/src/main.rs", "lbf/src/io/mod.rs", "lbf/src/io/cli.rs", "lbf/src/io/json_output.rs", "lbf/src/io/layout_to_svg.rs", "lbf/src/io/svg_util.rs", "lbf/src/io/svg_export.rs", "lbf/src/lbf_config.rs"],
  "clap arguments, serde output, svg generation with transformed use elements",
  observe=["lbf binary: exit code, sol_*.json, sol_*.svg"])

p("C19", "Copies are independent and concurrent use is safe",
  "Cloned layouts, engines, problems and snapshots share no mutable state: changing one never changes what another answers, and queries never change the engine they are asked of. "
  "Independent copies can be modified and a shared one queried from many threads at once with the same answers as sequentially, without data races, memory errors or undefined behaviour.",
  ["schedules", "histories"],
  "every thread interleaving of queries on shared engines and modifications of copies, every history before and after cloning",
  T + "each test uses one problem in one thread.",
  [J+"collision_detection/cd_engine.rs", J+"entities/layout.rs", J+"entities/bin.rs", J+"entities/problems/bin_packing.rs", J+"entities/problems/strip_packing.rs", J+"io/parser.rs"],
  "shapes and base engines shared behind atomic reference counts, deep copies elsewhere",
  observe=["Clone of Layout/CDEngine/problem types", "ThreadSanitizer, AddressSanitizer, Miri reports"])

p("C20", "Primitive shapes relate to each other as geometry demands",
  "For points, segments, circles and axis-aligned rectangles, intersection tests, closest points, distances, signed positions, containment relations, quadrants, inflation, scaling, bounding shapes and intersections all equal the mathematical answer within floating point tolerance. "
  "Intersection tests are symmetric and agree with the corresponding distances, and a bounding rectangle or circle contains everything it was built from.",
  ["inputs"],
  "every pair of primitives, including axis-parallel, nested, concentric and shared-coordinate ones, at every scale",
  T + "none of these functions is tested directly.",
  [J+"geometry/primitives/aa_rectangle.rs", J+"geometry/primitives/circle.rs", J+"geometry/primitives/edge.rs", J+"geometry/primitives/point.rs"],
  "closed form predicates in floating point",
  observe=["CollidesWith, DistanceFrom and Shape implementations", "AARectangle, Circle and Edge methods"])

p("C21", "Placement search samples the right places and keeps the best spot found",
  "Searching layouts for a spot for an item tries open layouts in order before bins with stock left, returns only a placement that is allowed and free of collisions in the layout it names, draws no more samples than its budget, and does not pass over a layout in which a good share of all placements is free. "
  "Candidates turn the item only as allowed and put its pole in a grid cell that may accommodate it, within the container's bounding box, covering all such cells; cells are discarded only when nothing in them can beat the best placement (10 x_max + y_max) so far. "
  "Local search draws around the best placement with the documented, shrinking spread, and a larger budget or the added local search never gives a worse placement for the same random numbers.",
  ["inputs", "histories"],
  "every item, set of allowed rotations, container, partial layout, grid resolution, sample budget and random seed",
  T + "the tests never look at what is sampled or at the quality of what is found.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/lbf_cost.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs", "lbf/src/samplers/uniform_rect_sampler.rs"],
  "uniform sampling in eligible grid cells with tightening, then normal distributions with decaying deviation",
  observe=["sample_layout, find_lbf_placement", "HPGSampler, LSSampler, UniformAARectSampler, LBFPlacingCost"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
