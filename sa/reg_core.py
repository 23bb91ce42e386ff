"""Registry entries of the core library (imported by registry.py)."""
import geom, effects, serdecheck

P = "cavalier_contours/src/"
TR = P + "polyline/traits.rs"
SEG = P + "polyline/pline_seg.rs"
INTR = P + "polyline/pline_seg_intersect.rs"
OFF = P + "polyline/internal/pline_offset.rs"
BOOL = P + "polyline/internal/pline_boolean.rs"
SELF = P + "polyline/internal/pline_intersects.rs"
TYPES = P + "polyline/pline_types.rs"
VIEW = P + "polyline/pline_view.rs"
PL = P + "polyline/pline.rs"
VTX = P + "polyline/pline_vertex.rs"
SHAPE = P + "shape_algorithms/mod.rs"
BASE = P + "core/math/base_math.rs"
VEC = P + "core/math/vector2.rs"
LL = P + "core/math/line_line_intersect.rs"
LC = P + "core/math/line_circle_intersect.rs"
CC = P + "core/math/circle_circle_intersect.rs"
AIC = "path-sensitive abstract interpretation of the compiler's MIR"
MIRNOTE = "Decided on the type-checked MIR that rustc produces for the current tree; trusts that MIR. "


def register(reg):
    reg("C05", geom.check_scale,
        "Geometry scales: no hidden length unit in any result or decision",
        "Scaling all input coordinates, offsets, target lengths and tolerances by the same factor scales every resulting point, length, radius, distance and box by that factor, areas by its square, and leaves bulges, angles, winding and boolean decisions unchanged: "
        "no operation adds, compares or returns quantities of different powers of length, and no fixed length other than the named tolerance values enters a geometric result or decision.",
        ["inputs", "configurations"], "every numeric operation, call and comparison in every function of the core library, for every input value",
        "A missing square root, squared-versus-plain distance comparison, or fixed threshold agrees with the correct code for inputs near unit size, which is what tests use; only inputs of other sizes show it.",
        [BASE, SEG, INTR, TR, OFF, BOOL, SELF, VIEW, SHAPE, LL, LC, CC], [("arc and segment formulas", SEG), ("intersection routines", LC), ("offset and boolean processing", OFF)],
        "static type inference (units of measure) over the compiler's MIR",
        "Each numeric local, parameter, field and result gets a power-of-length unknown; every arithmetic operation, comparison, assignment, call and closure yields a linear equation between them; public fields and signatures fix the known powers. The equation system must be consistent.",
        MIRNOTE + "Rounding, overflow and sign are ignored; values held in plain number arrays are unconstrained; tolerance values (named eps/epsilon or obtained from the default epsilon) adapt to what they are compared with, so a tolerance compared with a squared distance is not reported.")
    reg("C06", geom.check_translate,
        "Geometry is independent of where the origin is",
        "Shifting all input coordinates by the same vector shifts every resulting point and box by it and changes nothing else - lengths, radii, distances, bulges, angles, winding and boolean decisions: "
        "no computation multiplies, compares or returns a raw x or y coordinate where only a difference of like coordinates is meaningful, and x and y are never interchanged. The area sum and scaling about the origin are excepted.",
        ["inputs"], "every numeric operation, call and comparison in every function of the core library except area and scale_mut, for every input value",
        "A raw coordinate used as if it were a difference gives the right answer when the geometry starts at or passes through the origin, and an x/y mix-up cancels on symmetric inputs; tests use both.",
        [BASE, SEG, INTR, TR, OFF, BOOL, SELF, VIEW, SHAPE, LL, LC, CC], [("vector differences in all formulas", BASE), ("bounding boxes", SEG), ("intersection routines", LL)],
        "static type inference (affine weights) over the compiler's MIR",
        "Each numeric value gets an unknown weight counting how often an input shift along x (then y) is added to it; sums, differences, scalings by constants, products, comparisons, assignments and calls yield linear equations; public fields and signatures fix known weights (x coordinate 1/0, y coordinate 0/1, lengths and bulges 0/0). The system must be consistent for both axes.",
        MIRNOTE + "Rounding is ignored; products of raw coordinates are accepted when the whole polynomial they belong to is shift-invariant; plain number arrays and tolerance values are unconstrained; area and scale_mut are not analysed.")

    reg("C07", geom.check_tolerance_scale,
        "Tolerances act on positions and lengths, not on parametric or squared values",
        "A position tolerance decides whether two positions, coordinates or lengths agree: parametric positions on a segment are multiplied by the segment length and squared distances are not used where the tolerance is applied, so the same tolerance means the same distance for long and short segments. "
        "Only the parallel/collinear cross products, the squared radius test of a point-like segment, the equal-distance test in joining two offset arcs, and comparisons of bulges are exempt.",
        ["inputs", "configurations"], "every fuzzy comparison executed anywhere in the core library, at every call depth",
        "For segments of about unit length a tolerance on a parametric value or a squared distance behaves like one on a position; only very long or very short segments separate them.",
        [LL, LC, CC, INTR, TR, VTX, VEC], [("length-scaled parametric comparisons", LL), ("fuzzy equality of positions", VEC)],
        "static type inference (units of measure) over the compiler's MIR",
        "The power-of-length system of C05 is solved and every fuzzy comparison (expanded at each call) must compare values of power 1, except a fixed table of documented exceptions.",
        MIRNOTE + "Comparisons inside generic helpers that no library code calls are not judged; margins added by hand to plain comparisons are not fuzzy comparisons and are judged by C05 only.")

    reg("C01", effects.check_pure,
        "Same inputs, same result: no hidden state, environment, address or hash order",
        "Every operation of the library and its C API is a function of its arguments alone: it keeps no state between calls, reads no clock, environment, file, thread identity or random source, performs no input or output, "
        "never decides on an object's address, and never lets the iteration order of a hash collection reach a result. Read-only arguments are not modified, so concurrent calls on shared polylines are safe.",
        ["inputs", "histories", "schedules"], "every function, closure, type and static of the library and C API crates; every sequence or interleaving of calls",
        "A cache that survives a call, a hash-ordered loop or an address comparison gives the right answer in almost every single call; only particular call histories, runs or threads differ.",
        [BOOL, SELF, OFF, SHAPE, "cavalier_contours_ffi/src/lib.rs"], [("lookup tables built per call", BOOL), ("visited sets", SELF)],
        "effect analysis over the compiler's MIR (callee, type and static audit)",
        "Every static, type, callee, cast and pointer comparison of both crates is classified: mutable statics, interior mutability, environment modules, address use, order-dependent hash collection operations and unknown crates or foreign functions are violations.",
        MIRNOTE + "Assumes num_traits, static_aabb2d_index, serde and the permitted parts of the standard library are deterministic; user-supplied Real types, polyline implementations and visitors are outside the scope.")

    reg("C13", serdecheck.check,
        "Serialized polylines read back as the same values",
        "With the serde feature, polylines, vertices, vectors, view data, boolean result polylines and their slices deserialize to what was serialized: every struct field is written on every path exactly once under its camelCase name "
        "(vertex data as \"vertexes\") and read back from that key, or from that position in sequence formats, into the same field; a document lacking a field is rejected; vectors are the flat sequence [x, y] and vertices [x, y, bulge], with the announced length.",
        ["inputs", "configurations"], "every serializable type and field, every path of every Serialize and Deserialize body, self-describing and sequence formats",
        "The feature is off in the test suite; a format that omits lengths or keys hides a wrong length or order, and optional attributes act only for particular values.",
        [PL, VTX, VEC, VIEW, TYPES], [("tuple serialization", VTX), ("derived struct serialization", VIEW)],
        AIC, "The serializer calls on every path to end() are collected and compared with the struct's fields, and the derived visitors are interpreted per key and per position to find the field each fills.",
        MIRNOTE + "The analysed configuration is the core crate with the serde feature; trusts serde's derive runtime and data formats; equality of the numbers themselves is the format's business.", serde=True)

    import tables
    SX = "symbolic path tables over the compiler's MIR (path-sensitive abstract interpretation, polyhedral and algebraic term comparison)"
    TBL = ("Every path of each listed function (helpers and closures inlined) is interpreted symbolically on the MIR; its result term, under its path conditions, must equal the documented case's expression. "
           "Equality is decided by polynomial identity and linear-integer/real entailment over the path conditions. ")
    LOOP = "Loops are decided by their generic iteration: initial values, the transfer of every carried value on every path around the loop, and the result after the source is exhausted. "
    SYMLIM = MIRNOTE + "Real-number semantics (no rounding, overflow, NaN); required trait methods (get, at, vertex_count, is_closed) are opaque. "

    reg("C16", tables.check_index,
        "Index helpers and iterators visit every vertex and segment exactly once",
        "For every vertex count, closedness and index: segment count is 0 below two vertexes, the vertex count if closed and one less if open; next/previous index wrap around and are inverse; forward distance and forward index wrap around the start; "
        "last is the final vertex or none. The vertex, segment and segment-index iterators yield exactly the vertexes, or the consecutive segments (plus the closing one if closed), in order, each once, then none, from either end where reversible, and announce exactly the number of remaining items.",
        ["inputs", "histories"], "every vertex count and index, open and closed; every iterator state after any number of next calls",
        "Tests use polylines of a few vertexes; wrap-around off-by-ones and wrong remaining counts appear at particular counts, positions or after exhaustion.",
        [TR], [("index helpers", TR), ("VertexIter, SegmentIter, PlineSegIndexIterator", TR)],
        SX, TBL + "Iterators are decided as simulations: an abstract state after i of N items must give the i-th item and state i+1, or none forever once i = N, with exactly N - i remaining.",
        SYMLIM + "Machine-size overflow of usize additions is ignored.")

    reg("C17", tables.check_seg,
        "Segment radius, center, split, tangent, closest point, length and midpoint",
        "For every segment v1 to v2: the arc radius and center are those of the circle through both ends with sweep 4*atan(bulge), the center on the left for positive bulge; splitting keeps v1's position, puts the new vertex on the given point and gives both parts the bulges of their share of the sweep "
        "(a line keeps bulge 0; a point within the tolerance of an end yields a zero-length part there); the tangent is the chord for a line and the radius vector turned by 90 degrees in the arc's direction; "
        "the closest point is the projection on the circle if within the sweep, else the nearer end (the start when the point is at the center); length is the chord or radius times sweep (0 if both ends coincide); the midpoint halves chord or sweep.",
        ["inputs"], "every pair of vertexes, point and tolerance, every path of the six segment functions",
        "Each rule has sign, side and tolerance cases (clockwise, point at either end, point at the center) of which tests sample a few, mostly with axis-aligned half circles.",
        [SEG], [("segment functions", SEG)], SX, TBL, SYMLIM + "The angle helpers they call are opaque here and decided by C23.")

    reg("C12", tables.check_box,
        "Bounding boxes contain the segment; extents and spatial indexes cover every one",
        "A line's box is spanned by its ends. An arc's exact box reaches center plus or minus radius on a side exactly if the sweep crosses that axis direction, otherwise it ends at the extreme end point; coinciding ends give that point. "
        "The approximate box spans the chord and the chord shifted by the sagitta towards the arc. Polyline extents are none without a segment and otherwise the union over every segment. "
        "A spatial index holds, in segment order, one box per segment - the exact or the approximate one - built for exactly the number of segments.",
        ["inputs"], "every segment, every combination of crossed axis directions, every polyline, open or closed",
        "Sixteen combinations of crossed axis directions in two orientations, and clipping errors that only lose a sliver of an arc, are not reached by the sampled shapes.",
        [SEG, TR], [("segment boxes", SEG), ("extents and index construction", TR)], SX, TBL + LOOP, SYMLIM + "The sweep test and arc center are opaque here (C23, C17); the static_aabb2d_index builder is modelled as a sequence of boxes.")

    reg("C11", tables.check_measures,
        "Length, signed area and orientation are the exact sums over all segments",
        "Path length is the sum of the lengths of all segments, including the closing one of a closed polyline. Area is 0 for an open polyline and otherwise half the shoelace sum over all segments plus, for each arc, the area between arc and chord, added for counter-clockwise and subtracted for clockwise arcs. "
        "Orientation is open for an open polyline, clockwise exactly when the area is negative, else counter-clockwise.",
        ["inputs"], "every polyline of any number of vertexes, every mix of lines and arcs of either direction",
        "Tests compare a handful of shapes; a formula or sign that differs only for one arc direction or when a segment is skipped needs the right mix.",
        [TR], [("path_length, area, orientation", TR)], SX, TBL + LOOP, SYMLIM + "The sum is compared per iteration, so summation order is not constrained.")

    reg("C18", tables.check_search,
        "Closest point, point at length and winding number follow from every segment",
        "The closest point is none for an empty polyline, the only vertex if there is one, and otherwise the nearest of all segments' closest points with its segment index and distance. "
        "The point at a path length is the first vertex for a length of at most 0, otherwise lies on the first segment at which the accumulated length reaches the target, at the proportional position along the line or sweep; beyond the end the total length is the error. "
        "The winding number is 0 for open or degenerate polylines and otherwise the sum, over all segments, of +1 for each upward and -1 for each downward crossing right of the point, with arcs judged by chord side and circle.",
        ["inputs"], "every polyline and query point or length, every case of the crossing rules for lines and arcs of both directions",
        "The winding rules have about thirty cases (half-open ends, point on chord side, inside or outside the circle, both directions); sampled points reach few, and a skipped segment only matters when it is the nearest.",
        [TR], [("closest_point, find_point_at_path_length, winding_number", TR)], SX, TBL + LOOP, SYMLIM + "Ties between equally near segments are left open; segment closest point, length and arc center are opaque here (C17).")

    reg("C20", tables.check_view,
        "Polyline views present exactly the selected part of the source",
        "A view has end-index offset plus two vertexes: the updated start, the source vertexes following the start index, the last of these with the updated end bulge, and the end point with bulge 0; the inverted view is exactly its reversal with negated bulges; anything beyond is none. "
        "The constructors - single segment, traversal, entire polyline, new start, slice between two points - select the part they are documented to: start and end snapped to vertexes within the tolerance, bulges trimmed to the points, wrap-around counted once, none when the part would have no length. "
        "Validation reports source, offset, start, end and bulge faults in that order of precedence and accepts everything else.",
        ["inputs"], "every source length, start index, offset, direction and index; all position coincidences in the constructors",
        "The combinations of wrap-around, snapping at either end, and direction are many, and tests see view data mostly through boolean and offset results.",
        [VIEW], [("get_vertex and constructors", VIEW)], SX, TBL, SYMLIM + "Segment splitting is opaque here (C17). Debug-only validation assertions in constructors are assumed to pass.")

    reg("C23", tables.check_math,
        "Math primitives, vector algebra and fuzzy comparisons compute their definitions",
        "Angle normalisation, differences and sweep tests, bulge-angle conversions, quadratic solutions, distances, midpoints, parametric points, closest point on a line, side tests and arc-sweep tests, vector operators (+, -, negation, scaling, dot, perpendicular, length, normalisation, rotation), "
        "and vertex and fuzzy comparison operations compute exactly their documented mathematical definition for every argument; tolerances are inclusive or exclusive as documented and by-value and by-reference operators agree.",
        ["inputs"], "every argument of every math, vector, vertex and fuzzy-comparison function",
        "A wrong sign, bound or operand order in a primitive agrees with the right one on symmetric or axis-aligned arguments, which is what unit tests use.",
        [BASE, VEC, VTX, "cavalier_contours/src/core/traits/fuzzy_eq.rs"], [("primitives", BASE), ("Vector2", VEC)], SX, TBL, SYMLIM + "Trigonometric functions, square root and floor are uninterpreted.")

    CUT = "cut-point symbolic execution of the compiler's MIR (each loop iteration from a general state)"
    CUTX = ("Every loop is cut at its header: from a general state each path of one iteration yields its conditions, effects (pushes, calls on mutable objects, writes, sorts) and next values of the loop's variables; "
            "the segments that have the effect named in a rule must have, under exhaustive conditions, precisely the documented effects and next values, and every other effect on the same target is reported. ")
    import boolean
    reg("C14", boolean.check_boolean,
        "Boolean: relation table, keep rules, slicing, slice choice and stitching",
        "An open or degenerate input (fewer than two vertexes) gives empty results flagged invalid. Without a crossing, overlapping, nested and disjoint inputs give for each operation the documented whole polylines and the documented info. "
        "With crossings, each polyline is cut at every crossing and every end of an overlap; the pieces are kept by the operation's rule on where their midpoint lies relative to the other polyline, and overlapping pieces by the operation's rule on directions; "
        "pieces are joined end to end within the position tolerance, each used at most once, choosing among candidates by the operation's documented preference, and a result is emitted only when it returns to its first piece and has at least three vertexes, always closed. Only or splits its results by orientation.",
        ["inputs"], "every pair of polylines, every operation, every iteration of every loop of slicing, pruning, candidate choice and stitching",
        "Combinations of relation, operation, orientation and overlap direction, coincident crossings, several crossings on one segment and slices ending where they begin are each rare; tests cover a fixed set of shapes mostly with two crossings.",
        [BOOL], [("polyline_boolean, prune_slices, slice_at_intersects, stitch_slices_into_closed_polylines", BOOL), ("stitch selectors", BOOL)],
        CUT, TBL + CUTX, SYMLIM + "That the kept and joined pieces bound the true set-theoretic result is geometry and not decided; winding number, intersects and views are opaque here (C18, C24, C20).")

    import intersects
    reg("C02", intersects.check_defaults,
        "Calls without options behave exactly as with the default options",
        "find_intersects, boolean, parallel_offset and visit_self_intersects give exactly what their _opt variants give with the default options: no precomputed index, position tolerance 1e-5, slice join and offset distance tolerances 1e-4, no self intersect handling, all self intersects included. "
        "The new and default constructors of every options struct (including shape offset) agree on these values, and the _opt variants pass both polylines, the operation or offset and the options unchanged to the algorithm.",
        ["configurations", "inputs"], "every convenience function, every field of every options struct, for every argument",
        "Tests always use one of the two variants on shapes where a tolerance ten times larger or a flag makes no difference; a drifting default shows only near the tolerance.",
        [TR, TYPES, SHAPE], [("convenience functions", TR), ("options constructors", TYPES)], SX, TBL, SYMLIM + "The algorithms behind the _opt variants are opaque here.")

    reg("C10", intersects.check_visits,
        "Self intersects: every pair of segments examined once, visitor obeyed",
        "Local self intersects are looked for between every two consecutive segments (including the two pairs across the start of a closed polyline), global ones between every two non-adjacent segments whose approximate boxes meet within the tolerance, each unordered pair once. "
        "Every crossing point or overlap found is given to the visitor with the indexes and points in order, except the shared end point of neighbours and points at the common end of both segments; nothing is visited after the visitor asks to stop, and its answer is returned. "
        "The include option selects local, global or both (local first); a supplied index and the given tolerance are used; fewer than two vertexes have none. The collecting variant gathers the same intersects as single points.",
        ["inputs", "histories"], "every polyline, open or closed, every segment pair and intersect case, every iteration, every answer of the visitor",
        "A pair skipped at the closing segment, a reversed index pair or a visitor called after stopping needs a particular shape and visitor; tests collect everything on a few shapes.",
        [SELF, TR], [("visit_local_self_intersects, visit_global_self_intersects", SELF), ("visit_self_intersects_opt", TR)], CUT, CUTX + TBL,
        SYMLIM + "Segment intersection and boxes are opaque here (C24, C12); the spatial index is taken to visit exactly the overlapping boxes until its visitor breaks.")

    reg("C19", intersects.check_intersects,
        "Intersects of two polylines: all pairs, end points once, overlaps joined",
        "Every segment of the second polyline is compared with every segment of the first whose approximate box meets its own within the tolerance, and each crossing or overlap is reported with the indexes and points in order. "
        "A point at the end of either segment is left to the following segment (except at the final end of an open polyline), and single points duplicating an end of an overlap are dropped. "
        "Overlaps are ordered along the second polyline and each maximal chain that joins end to start within the tolerance becomes one slice, wrapping around the start of a closed polyline; a slice covers the second polyline from first to last point with trimmed bulges, and tells loops and opposing directions.",
        ["inputs"], "every pair of polylines, every segment pair and intersect case, every chain of overlaps, every iteration",
        "Which segment owns a crossing at a vertex, duplicates at overlap ends and chains across the start vertex all depend on rare coincidences that tests sample a few times.",
        [SELF], [("find_intersects", SELF), ("sort_and_join_overlapping_intersects, OverlappingSlice::new", SELF)], CUT, CUTX + TBL,
        SYMLIM + "Segment intersection, splitting and boxes are opaque here (C24, C17, C12); the spatial index is taken to return exactly the overlapping boxes.")

    import offset
    OFFS = "cavalier_contours/src/polyline/internal/pline_offset.rs"
    reg("C25", offset.check_trace,
        "Raw offset: every segment moved, neighbours joined, ends closed",
        "Each segment of the input gives one offset piece: a line moves along its left unit normal by the offset, the ends of an arc move along the radius (outwards or inwards by its direction) with the bulges kept, and an arc whose offset radius is not positive becomes a straight piece flagged as collapsed. "
        "The raw offset polyline starts at the first piece and joins every piece to the next in order with the join for their kinds (line or arc), connection arcs counter-clockwise for negative offsets; nothing is returned for fewer than two vertexes or a single collapsed arc. "
        "On a closed input the last piece is joined to the first, the start vertex is moved to the joining point (its bulge adapted unless the arc vanished), and coinciding neighbours at the seam are removed; an open one ends with the end of the last piece. A result of one vertex is returned empty.",
        ["inputs"], "every polyline, open or closed, every offset, every combination of segment kinds, every iteration",
        "The seam of a closed polyline with an arc there, a vanished first arc or a vertex replaced by the first join are rare combinations; tests compare areas and lengths of a few shapes.",
        [OFFS], [("create_untrimmed_raw_offset_segs, create_raw_offset_polyline", OFFS)], CUT, CUTX + TBL,
        SYMLIM + "The joins are opaque here (C26), as are arc centers (C17) and the vertex edits of the polyline trait. That the result lies at the offset distance is geometry.")

    reg("C26", offset.check_joins,
        "Raw offset joins: meet, trim or connect two neighbouring pieces",
        "Two neighbouring offset pieces that truly intersect meet at the intersection closest to the original corner, the second piece (and an arc already emitted) being trimmed to it with the bulge of the remaining sweep, unless that would reverse the arc; a collapsed arc is never trimmed. "
        "Lines whose extensions meet beyond both are connected with an arc around the original corner, in the direction of the offset side; other pieces that do not meet are connected by that arc or, where line and curve fall behind each other, by a straight line. "
        "Points count as on an arc within the position tolerance, and every vertex is added so that one coinciding with the last replaces it.",
        ["inputs"], "every pair of neighbouring pieces of every kind, every result of their intersection, every parameter",
        "Each join has ten to thirty cases selected by tolerances, sweep signs and parameters just outside a segment; offset tests pass through the common ones.",
        [OFFS], [("line_line_join, line_arc_join, arc_line_join, arc_arc_join", OFFS)], SX, TBL,
        SYMLIM + "Intersections of lines and circles (C24) and arc sweeps (C17, C23) are opaque here.")

    import slices
    reg("C27", slices.check,
        "Offset slices: cut at every crossing, kept only when valid",
        "The raw offset of a closed input is cut at all its self intersects; otherwise (open input or self intersects handled) also at its intersects with the raw offset on the other side and, for an open input, with circles of the offset radius around both ends. "
        "Per segment the crossings are ordered by distance from its start; pieces run between neighbouring crossings, from the last crossing of a segment to the first of the next segment having any, round the start of a closed raw offset, and from the start or to the end of an open one. With no crossing the whole raw offset is the one piece. "
        "A piece is kept only if its tested points (both ends and the midpoint within one segment, otherwise the start of each of its segments, the midpoints of the first and the last and the end) are further than the offset less the offset tolerance from the input, and none of its segments meets a segment of the input other than by touching. A point is measured against every segment whose box is in reach.",
        ["inputs"], "every raw offset, open or closed, every list of crossings, every piece, every iteration of every loop",
        "Several crossings on one segment, crossings only on the closing segment, pieces of a single segment and open inputs crossing their end circles are each rare; tests compare a few shapes.",
        [OFFS], [("slices_from_raw_offset, slices_from_dual_raw_offsets", OFFS), ("visit_circle_intersects, point_valid_for_offset", OFFS)], CUT, CUTX + TBL,
        SYMLIM + "Self intersects, intersects, views of slices and segment intersection are opaque here (C10, C19, C20, C24); the spatial index is taken to visit exactly the overlapping boxes.")

    import stitch
    reg("C28", stitch.check,
        "Offset stitching: slices joined end to start, closed only when they meet",
        "The offset of a polyline with fewer than two vertexes, or with an empty raw offset, is empty. A closed input without self intersect handling uses the slices of its raw offset alone, every other input those of the raw offsets at both signs of the offset; the caller's index, tolerances and options are passed on, an index being built only if none is given. "
        "A single slice is returned alone, closed (less its repeated end) when the input is closed and its ends meet within the slice join tolerance. Otherwise every unused slice starts a polyline, to which unused slices starting within the slice join tolerance of its end are appended one at a time, the nearest ahead along the raw offset first, among these one not ending at the start; repeated positions are dropped. "
        "No slice is used twice and all are used; a result of one vertex is dropped; a result is closed, less its repeated end, exactly when the input is closed and its ends coincide within the position tolerance.",
        ["inputs"], "every list of slices, every order of candidates, every iteration of every loop, every combination of options",
        "Which of several slices beginning at one point is chosen, slices within one tolerance but not the other, and single slices need particular crossings; tests compare a few shapes.",
        [OFFS], [("stitch_slices_together", OFFS), ("parallel_offset", OFFS)], CUT, CUTX + TBL,
        SYMLIM + "Raw offsets, slices (C25, C26, C27), views and vertex edits are opaque here; the spatial index is taken to return exactly the overlapping boxes. The debug assertions that input and results have no repeated positions are taken as given.")

    import shape
    reg("C21", shape.check_build,
        "Shapes: outlines sorted by orientation and indexed in order",
        "A shape made from polylines contains each input polyline with more than one vertex exactly once and in input order: with the counter-clockwise ones if its orientation is counter-clockwise, with the clockwise ones otherwise, each together with the spatial index of its own segments. "
        "The index of the shape holds one box per outline, the overall bounds of that outline's own index, first those of all counter-clockwise and then those of all clockwise outlines in the order of the lists.",
        ["inputs"], "every sequence of polylines, every iteration of the loops",
        "The position of a box in the index is the only link between a query result and an outline; tests look at areas and counts of offsets, where a wrong position shows only if boxes of different outlines differ.",
        [SHAPE], [("Shape::from_plines", SHAPE)], CUT, CUTX + TBL,
        SYMLIM + "Orientation and boxes are opaque here (C11, C12).")
    reg("C29", shape.check_parallel,
        "Shape offset: loops, cuts where loops cross, validity, joins, results",
        "Every outline is offset by the caller's offset and tolerances with its own index; a result whose orientation flipped on the shrinking side (clockwise from counter-clockwise for a positive offset, the reverse for a negative one) is dropped, the others are sorted by the sign of their area and remember the outline they come from. With none left the result is empty. "
        "Every two different loops whose boxes meet are intersected once, in index order, and every crossing and both ends of every overlap are recorded for both loops. A loop none crosses is taken over unchanged if valid; a loop crossed once is kept whole if valid; otherwise it is cut between neighbouring crossings in order along it, including last to first. "
        "A piece is valid if the midpoint of its first segment is, within tolerance, at least the offset away from every outline but the one it comes from. Pieces are joined end to start within the joining tolerance, one of the same loop first, every piece being used once; a joined polyline of more than two vertexes is closed less its last vertex. Results are sorted by orientation and indexed as in C21.",
        ["inputs"], "every shape, every offset and tolerance, every set of crossings, every piece, every iteration of every loop",
        "Loops that cross at one point, touch, overlap or swallow each other, and which of several pieces goes on at a crossing, need particular arrangements of three or more outlines; tests compare a few shapes.",
        [SHAPE], [("Shape::parallel_offset", SHAPE)], CUT, CUTX + TBL,
        SYMLIM + "Offsets of single polylines, intersects, slices and the distance test are opaque here (C25-C28, C19, C20); spatial indexes are taken to return exactly the overlapping boxes. That the end of a joined polyline meets its start is not established by the code and not claimed.")

    import prims
    reg("C24", prims.check_prims,
        "Intersections of lines, circles and segments: cases, points and order",
        "Two lines: crossing parameters from the cross products, a true intersect when both lie within the segments (by length, within the tolerance), otherwise a false one; parallel lines meet only if collinear, then over the shared part of the second or at one end. "
        "A line meets a circle at the foot of the perpendicular or at the two points half a chord from it, parameters ascending; two circles in none, one or the two points of their common chord, or are the same. "
        "Two polyline segments: ends lying on the other segment (within its sweep and at its radius, within tolerance) stand for the computed points next to them; points are kept only where both segments reach; arcs of one circle overlap, touch at the end they share, or miss. "
        "Two points, or the ends of an overlap, come in the direction of the second segment.",
        ["inputs"], "every pair of segments (line or arc), every outcome of each tolerance test, in every combination",
        "The two-arc case alone distinguishes four ends each on, off or beside the other arc, both crossings within reach or not, and coinciding ends: several hundred combinations chosen by tolerances, of which tests reach a dozen.",
        [INTR, LL, LC, CC], [("pline_seg_intr", INTR), ("line_line_intr", LL), ("line_circle_intr", LC), ("circle_circle_intr", CC)], SX, TBL,
        SYMLIM + "Parameters of points, arc centers, sweeps and angles are opaque here (C17, C23). The tables follow the computation the code documents; that it is accurate in floating point is not claimed.")

    import edits
    reg("C15", edits.check,
        "Editing and creating polylines: each call changes exactly what it names",
        "Every edit of a polyline changes exactly the vertex, position or flag it names and nothing else: set, insert, append, remove, clear, extend, set closedness; scaling and translating visit every vertex once and keep bulges; adding with repeat removal puts the new bulge on the last vertex when the positions coincide. "
        "Inverting the direction mirrors the order of all vertexes, gives each the negated bulge of its successor and, only if closed, the last the negated bulge of the former first. Copies have the same vertexes and closedness, with repeat removal also less a closing repeat; equality asks for equal closedness, count and components of all vertexes. "
        "Moving the start of a closed polyline yields all its vertexes once around from the given point, splitting the segment there unless the point lies at one of its ends within the tolerance; an open polyline, fewer than two vertexes or an index out of range yield none.",
        ["inputs", "histories"], "every polyline, every index, point and tolerance, every iteration of every loop",
        "Two and three vertexes, coinciding neighbours, the last index and a split in the closing segment each take another path; tests apply the edits to a few polylines of three or four vertexes.",
        [TR, PL], [("edits and creation", TR), ("Polyline", PL)], CUT, CUTX + TBL,
        SYMLIM + "The standard library's Vec and the split of a segment (C17) are opaque here; edits with an index out of range panic in Vec and are not covered.")

    import simp
    reg("C08", simp.check_redundant,
        "Redundant removal: only vertexes within a line or an arc go",
        "Removing redundant vertexes goes once over the polyline in order and leaves out a vertex only if it coincides with the next one, lies between two lines that are collinear in one direction, or between two arcs of the same orientation, radius and center whose sweeps sum to less than half a circle; then, and only then, the arc before it takes the bulge of both sweeps with their sign. Every other vertex is kept where it is, with its bulge. "
        "Vertexes that repeat the first one at the start give it their bulge, and a closed polyline is judged around its start by the same rules, with the vertexes that are left: the first vertex is replaced by the last one. An open polyline keeps its last vertex. What is remembered about the two vertexes compared - bulge zero or positive, arc - always belongs to them. Nothing to remove, or fewer than two vertexes, yields none.",
        ["inputs"], "every polyline and tolerance, every iteration of the loops, every combination of the wrap around",
        "The start and the end of a closed polyline each have repeats, lines, arcs and combinations of these; what is remembered goes stale only after specific sequences. Tests use about ten polylines; the defects found here needed repeats next to the start.",
        [TR], [("remove_redundant", TR)], CUT, CUTX + TBL,
        SYMLIM + "Radius, center, angles and the bulge of an angle are opaque here (C17, C23); that a chain of removals within the tolerance does not drift is not claimed.")

    reg("C09", simp.check,
        "Repeat removal and arcs to lines: vertexes kept, bulges handed on, error kept",
        "Removing repeat positions keeps the first vertex and every vertex further than the tolerance from the last one kept, in order and where they are; a vertex that is left out gives its bulge to the one kept before it. A closed polyline also loses a last vertex that lies on its first, unless it is the only one. Nothing to remove, or fewer than two vertexes, yields none. "
        "Converting arcs to lines keeps closedness and every vertex in order; an arc is cut into ceil(angle / (2 acos(1 - |error| / radius))) equal parts with all ends on the arc, from its start in its direction; an arc of a radius below the error becomes one line. An open polyline keeps its last vertex, an empty one stays empty; none only if a number cannot be converted.",
        ["inputs"], "every polyline, tolerance and error distance, every iteration of both loops",
        "Chains of vertexes each within the tolerance of its neighbour, two coinciding vertexes, a number of lines that is not whole, or an arc smaller than the error each take another path; tests remove repeats from four polylines and convert circles with one error.",
        [TR], [("simplification", TR)], CUT, CUTX + TBL,
        SYMLIM + "Removal of redundant vertexes along lines and arcs is C08. Radius, center and angles are opaque here (C17, C23).")

    import ends
    reg("C30", ends.check_ends,
        "Every loop ends and nothing calls itself",
        "Every loop in the library and the C interface ends, whatever the values it works on (repeated positions, NaN, infinite numbers): in every round it takes an element from a finite iterator or collection, which leaves the loop when there is none left, or moves an integer counter one way that is tested in every round against a bound that does not move with it. "
        "That holds for every way through the body, an early continue included, and for loops inside loops. No function calls itself, directly or around a circle of calls and trait methods, except on a part of its own type; no iterator without end is run to its end. Loops that stitch slices together keep their own limit of rounds.",
        ["inputs"], "every loop of every function and closure, every path through its body; every cycle of the call graph",
        "A loop without end needs the one input whose path through the body forgets to move on: a repeated position, all positions equal, a NaN in a comparison. Tests run loops on inputs that end.",
        [TR, BOOL, OFF, SELF, SHAPE],
        [("loops and call graph", TR)], "ranking arguments for every strongly connected part of the control flow graphs, cycles of the call graph",
        "For every strongly connected part of the MIR control flow graph of every function and closure of both crates a lexicographic ranking is looked for: a call that takes an element from an iterator or collection that is not replaced or filled up in the loop and whose None leaves it, or an integer place all of whose assignments in the loop add (or all subtract) a positive constant, "
        "with a test in every round against a bound that is not written in the loop; the blocks in which it progresses are removed and what remains connected is ranked in turn. The call graph includes trait methods of the library resolved by type; a cycle counts unless every turn passes to a component of the implementing type.",
        "Trusted to return: the standard library, the spatial index (static_aabb2d_index), iterators and visitors of the caller; the library's own iterators are decided by the index and iterator property. A loop left by its own limit of rounds with a panic counts as ended. Depth of the call stack and running time are not bounded.")
