"""Properties of the library that static analysis cannot decide here, each with the reason."""
C = "cavalier_contours/src/"
U = "cavalier_contours_ui/src/app.rs"
NA = {}


def na(pid, title, statement, quant, why, files, reason, over=("inputs",)):
    assert len(title) <= 80, title
    NA[pid] = dict(title=title, statement=statement, over=list(over), quant=quant, why=why,
                   files=[U if f == "UI" else C + f for f in files], mech=[(f.rsplit("/", 1)[-1], U if f == "UI" else C + f) for f in files], reason=reason)


na("C80", "Every point of an offset result lies at the offset distance from the input",
   "Every point of every polyline returned by a parallel offset is at the absolute offset distance from the input polyline (and never closer), "
   "on the requested side, and every point of the plane whose nearest distance to the input equals the offset on that side belongs to some result.",
   "every polyline, offset and option set", "The tests compare areas, path lengths and extents of a few hundred fixed shapes.",
   ["polyline/internal/pline_offset.rs", "shape_algorithms/mod.rs"],
   "Quantifies over real geometry (nearest distance from a curve to a curve) of a result that is assembled from data-dependent floating point cuts; no abstract domain in reach bounds it. "
   "What is static about it - which raw pieces are made, where they are cut, by which test a slice is kept, how slices are joined - is decided by C25-C29.")
na("C81", "Boolean results cover exactly the points the operation names",
   "The region enclosed by the result of a boolean operation is the union, intersection, difference or symmetric difference of the regions the two operands enclose; "
   "areas and point membership agree with set algebra on the operands.",
   "every pair of closed polylines, every operation", "The tests fix areas and extents of some dozens of pairs.",
   ["polyline/internal/pline_boolean.rs"],
   "A statement about point sets in the plane; deciding it needs the geometry of the intersects found at run time. The static part - the keep rule for every operation and relation, the slices cut, "
   "their orientation and the order of stitching - is decided by C14, and the intersects it uses by C19 and C24.")
na("C82", "Results are accurate to the tolerance despite floating point rounding",
   "Intersects, projections, lengths and areas differ from their exact real values by no more than the caller's tolerance, for coordinates of ordinary magnitude.",
   "every representable coordinate and bulge", "Tests use coordinates near the origin, where rounding is benign.",
   ["core/math/line_circle_intersect.rs", "core/math/circle_circle_intersect.rs", "polyline/pline_seg_intersect.rs"],
   "Needs a floating point error analysis with input ranges; without ranges the quotients and square roots involved have no bounded relative error (nearly parallel lines, nearly tangent circles). "
   "C17, C23 and C24 decide that the formulas are the right ones in exact arithmetic, C05-C07 that tolerances act on the right quantity.")
na("C84", "Spatial indexes answer exactly the boxes that overlap the query",
   "A query of a spatial index returns every indexed box that overlaps the query box, each once, and no other.",
   "every set of boxes and query", "The dependency's own tests sample it.",
   ["polyline/traits.rs"],
   "The index is the external crate static_aabb2d_index (a packed Hilbert R-tree), not part of this repository; that every box put in covers its segment and every query box covers its item is decided here (C12, C10, C19, C29).")
na("C85", "Offset results are free of self intersects",
   "No polyline returned by a parallel offset (self intersect handling on) or by a shape offset crosses itself or another polyline of the same result.",
   "every polyline, shape, offset and option set", "Only some test shapes are checked for it.",
   ["polyline/internal/pline_offset.rs", "shape_algorithms/mod.rs"],
   "Follows only from completeness of the floating point intersects and of the validity tests on real geometry; no static bound exists for near-coincident pieces. C27 and C29 decide that every crossing found is cut and every slice is tested.")
na("C86", "Transformations commute with offset and boolean operations",
   "Translating, scaling uniformly or rotating the inputs and then operating gives, within tolerance, the transformed result of operating first.",
   "every input and similarity transform", "A property test would need two runs of every operation.",
   ["polyline/traits.rs"],
   "Compares two executions whose control flow depends on rounded values; rounding makes the branches differ. The unit and origin independence of every formula and comparison (the exact-arithmetic core of it) is decided by C05 and C06; rotation is not a unit system and has no such typing.")
na("C87", "The interactive demo application shows what the library computes",
   "The desktop and web user interface draws exactly the polylines, intersects and results the library returns for the edited input.",
   "every sequence of user edits", "The UI crate has no tests.",
   ["UI"],
   "Immediate-mode drawing code against egui, whose observable result is pixels; there is no specification in the sources to hold it to and its dependencies' behaviour is not visible to the analysis.", over=("histories",))
