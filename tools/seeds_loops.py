"""Planted bugs for the properties decided by cut-point analysis."""
from seeds_core import *  # noqa

seed("c14-evenodd-inside", "C14",
     [(BOOL, "let mut point_in_pline1 = |point: Vector2<T>| pline1.winding_number(point) != 0;", "let mut point_in_pline1 = |point: Vector2<T>| pline1.winding_number(point) % 2 != 0;")],
     r'''
fn main() {
    // winds twice around the origin
    let a = pl(&[(5.,-5.,0.),(5.,5.,0.),(-5.,5.,0.),(-5.,-5.,0.),(6.,-6.,0.),(6.,6.,0.),(-6.,6.,0.),(-6.,-6.,0.)], true);
    let b = pl(&[(-1.,-1.,0.),(1.,-1.,0.),(1.,1.,0.),(-1.,1.,0.)], true);
    assert_eq!(a.winding_number(Vector2::new(0.0, 0.0)), 2);
    let r = a.boolean(&b, BooleanOp::Or);
    assert!(matches!(r.result_info, BooleanResultInfo::Pline2InsidePline1), "{:?}", r.result_info);
}''', "a polyline that winds twice around the other", "the inner polyline counts as outside")
seed("c14-open-second", "C14",
     [(BOOL, "        || !pline2.is_closed()\n    {", "        || (!pline2.is_closed() && pline2.vertex_count() < 3)\n    {")],
     r'''
fn main() {
    let a = pl(&[(0.,0.,0.),(2.,0.,0.),(2.,2.,0.),(0.,2.,0.)], true);
    let b = pl(&[(5.,5.,0.),(6.,5.,0.),(6.,6.,0.)], false);
    let r = a.boolean(&b, BooleanOp::Or);
    assert!(matches!(r.result_info, BooleanResultInfo::InvalidInput));
    assert!(r.pos_plines.is_empty());
}''', "an open second operand with three or more vertexes", "it is not rejected as invalid")
seed("c14-selector-upper-bound", "C14",
     [(BOOL, "        available_idx.iter().copied().find(|&i| {\n            i >= self.start_of_pline2_slices && i < self.start_of_pline1_overlapping_slices\n        })\n    }", "        available_idx.iter().copied().find(|&i| {\n            i >= self.start_of_pline2_slices && i < self.start_of_pline2_overlapping_slices\n        })\n    }")],
     r'''
use cavalier_contours::polyline::internal::pline_boolean::*;
fn main() {
    let s = NotXorStitchSelector::new(2, 4, 6);
    assert_eq!(s.select(4, &[5, 1]), Some(1));
    assert_eq!(s.select(4, &[5, 3]), Some(3));
    assert_eq!(s.select(4, &[5]), None);
}''', "not/xor where an overlapping slice of the first polyline meets another one", "overlapping slices are stitched to each other")
seed("c14-query-one-sided", "C14",
     [(BOOL, "                ep.x + pos_equal_eps,\n                ep.y + pos_equal_eps,\n                &mut query_visitor,", "                ep.x + pos_equal_eps,\n                ep.y,\n                &mut query_visitor,")],
     r'''
use cavalier_contours::polyline::internal::pline_boolean::*;
fn main() {
    // two slices whose ends differ by less than the tolerance
    let a = pl(&[(0.,0.,0.),(2.,0.,0.),(2.,2.,0.)], true);
    let b = pl(&[(2.,2.000001,0.),(0.,2.,0.),(0.,0.,0.)], true);
    let mk = |p: &Polyline<f64>, first| {
        let d = PlineViewData { start_index: 0, end_index_offset: 1, updated_start: p[0], updated_end_bulge: 0.0, end_point: p[2].pos(), inverted_direction: false };
        BooleanPlineSlice { view_data: d, source_is_pline1: first, overlapping: false }
    };
    let s = [mk(&a, true), mk(&b, false)];
    let r: Vec<BooleanResultPline<Polyline<f64>>> = stitch_slices_into_closed_polylines(&s, &a, &b, &OrAndStitchSelector::new(1, 2, 2), 1e-5);
    assert_eq!(r.len(), 1);
}''', "slices whose end and start differ slightly in y", "the slices are not joined and the result is lost")
INTRS = "cavalier_contours/src/polyline/internal/pline_intersects.rs"
seed("c10-closing-pair", "C10",
     [(INTRS, "        try_cf!(visit_indexes(vc - 1, 0, 1));\n", "        if vc > 3 {\n            try_cf!(visit_indexes(vc - 1, 0, 1));\n        }\n")],
     r'''
use cavalier_contours::polyline::internal::pline_intersects::all_self_intersects_as_basic;
fn main() {
    // the arc that starts at vertex 0 crosses the closing segment a second time
    let a = pl(&[(0.,0.,1.),(4.,0.,0.),(1.,-3.,0.)], true);
    let mut b = Polyline::new_closed();
    for i in 0..3 { b.add_vertex(a[(i + 1) % 3]); }
    let n = |p: &Polyline<f64>| all_self_intersects_as_basic(p, &p.create_approx_aabb_index(), true, 1e-5).len();
    assert_eq!((n(&a), n(&b)), (2, 2));
}''', "a self intersect between the closing segment and the first segment", "it is not reported when the polyline starts at that vertex")
seed("c10-stop-ignored", "C10",
     [(INTRS, "                    if !skip_intr_at_end(point1) {\n                        cf = visitor.visit_basic_intr(PlineBasicIntersect::new(i, hit_i, point1));\n                        if cf.should_break() {\n                            return aabb_index::Control::Break(());\n                        }\n                    }\n", "                    if !skip_intr_at_end(point1) {\n                        cf = visitor.visit_basic_intr(PlineBasicIntersect::new(i, hit_i, point1));\n                    }\n")],
     r'''
use cavalier_contours::core::Control;
struct V(usize);
impl PlineIntersectVisitor<f64, Control<()>> for V {
    fn visit_basic_intr(&mut self, _: PlineBasicIntersect<f64>) -> Control<()> { self.0 += 1; Control::Break(()) }
    fn visit_overlapping_intr(&mut self, _: PlineOverlappingIntersect<f64>) -> Control<()> { self.0 += 1; Control::Break(()) }
}
fn main() {
    // one segment crosses a half circle twice
    let a = pl(&[(0.,0.,1.),(4.,0.,0.),(6.,-4.,0.),(6.,-1.,0.),(-3.,-1.,0.)], false);
    let mut v = V(0);
    a.visit_self_intersects(&mut v);
    assert_eq!(v.0, 1);
}''', "a visitor that stops at the first of two intersects of the same pair of segments", "the visitor is called again after it asked to stop")
seed("c10-supplied-tolerance", "C10",
     [(TR, "        visit_global_self_intersects(self, index, visitor, options.pos_equal_eps)\n    }\n\n    /// Find all intersects", "        visit_global_self_intersects(self, index, visitor, PlineSelfIntersectOptions::default().pos_equal_eps)\n    }\n\n    /// Find all intersects")],
     r'''
use cavalier_contours::core::Control;
struct V(usize);
impl PlineIntersectVisitor<f64, Control<()>> for V {
    fn visit_basic_intr(&mut self, _: PlineBasicIntersect<f64>) -> Control<()> { self.0 += 1; Control::Continue }
    fn visit_overlapping_intr(&mut self, _: PlineOverlappingIntersect<f64>) -> Control<()> { self.0 += 1; Control::Continue }
}
fn main() {
    // the last segment ends 0.01 short of the first one
    let a = pl(&[(0.,0.,0.),(10.,0.,0.),(10.,5.,0.),(5.,5.,0.),(5.,0.01,0.)], false);
    let n = |include, eps| { let mut v = V(0); a.visit_self_intersects_opt(&mut v, &PlineSelfIntersectOptions { aabb_index: None, pos_equal_eps: eps, include }); v.0 };
    assert_eq!(n(SelfIntersectsInclude::Global, 0.1), n(SelfIntersectsInclude::All, 0.1));
    assert!(n(SelfIntersectsInclude::All, 0.1) > 0);
}''', "all self intersects with a position tolerance other than the default", "the default tolerance is used for global intersects")
seed("c19-end-owner", "C19",
     [(INTRS, "                        && (pline2.is_closed() || i2 != open2_last_idx))", "                        && (pline2.is_closed() || i1 != open2_last_idx))")],
     r'''
fn main() {
    let a = pl(&[(0.,0.,0.),(10.,0.,0.),(10.,10.,0.),(0.,10.,0.)], true);
    let b = pl(&[(5.,5.,0.),(6.,5.,0.),(6.,0.,0.)], false);
    // the open polyline ends on the first segment of the closed one
    let r = a.find_intersects(&b);
    assert_eq!(r.basic_intersects.len(), 1);
}''', "an open second polyline that ends on a segment of the first", "the crossing at its very end is dropped")
seed("c19-duplicates-index", "C19",
     [(INTRS, "            let start_pt2 = pline2.at(intr.start_index2).pos();\n            if intr.point.fuzzy_eq_eps(start_pt2, pos_equal_eps) {", "            let start_pt2 = pline2.at(intr.start_index2).pos();\n            if intr.point.fuzzy_eq(start_pt2) {")],
     r'''
fn main() {
    // the overlap ends within the tolerance of a vertex of the second polyline
    for y in [0.0, 1e-7, 1e-6] {
        let a = pl(&[(0.,0.,0.),(10.,0.,0.),(10.,-10.,0.),(0.,-10.,0.)], true);
        let b = pl(&[(2.,y,0.),(5.,y,0.),(6.,-3.,0.)], false);
        let r = a.find_intersects(&b);
        assert_eq!((r.overlapping_intersects.len(), r.basic_intersects.len()), (1, 0), "{y} {r:?}");
    }
}''', "an overlap end that agrees with a vertex within the given tolerance only", "the same point is reported as overlap end and as crossing")
seed("c19-corner-exact", "C19",
     [(INTRS, "            if last_slice\n                .view_data\n                .end_point\n                .fuzzy_eq_eps(pline2.at(0).pos(), pos_equal_eps)\n            {", "            if last_slice.view_data.end_point == pline2.at(0).pos() {")],
     r'''
use cavalier_contours::polyline::internal::pline_intersects::*;
fn main() {
    // the overlap runs through the start vertex of the second polyline, where the first has a vertex 1e-6 off
    let a = pl(&[(0.,-4.,0.),(0.,0.000001,0.),(0.,5.,0.),(-5.,5.,0.)], true);
    let b = pl(&[(0.,0.,0.),(0.,2.,0.),(4.,2.,0.),(4.,-2.,0.),(0.,-2.,0.)], true);
    let mut r = a.find_intersects(&b);
    for x in &mut r.overlapping_intersects { if x.point2.y.abs() < 1e-5 { x.point2.y = 0.000001; } }
    let s = sort_and_join_overlapping_intersects(&mut r.overlapping_intersects, &a, &b, 1e-5);
    assert_eq!(s.len(), 1);
    assert_eq!(s[0].view_data.end_index_offset, 1);
}''', "an overlap through the start vertex that agrees with it within the tolerance only", "the start vertex is missing from the joined slice")
seed("c02-default-drift", "C02",
     [(TYPES, "            handle_self_intersects: false,\n            pos_equal_eps: T::from(1e-5).unwrap(),\n            slice_join_eps: T::from(1e-4).unwrap(),\n            offset_dist_eps: T::from(1e-4).unwrap(),", "            handle_self_intersects: false,\n            pos_equal_eps: T::from(1e-5).unwrap(),\n            slice_join_eps: T::from(1e-4).unwrap(),\n            offset_dist_eps: T::from(1e-5).unwrap(),")],
     r'''
fn main() {
    let o = PlineOffsetOptions::<f64>::default();
    assert_eq!((o.pos_equal_eps, o.slice_join_eps, o.offset_dist_eps, o.handle_self_intersects), (1e-5, 1e-4, 1e-4, false));
}''', "default options used for an offset whose slices lie close to the tolerance", "the offset distance tolerance is ten times smaller")
seed("c02-swapped-options", "C02",
     [(TR, "        polyline_boolean(self, other, operation, options)", "        let options = if options.pline1_aabb_index.is_some() { options } else { &Default::default() };\n        polyline_boolean(self, other, operation, options)")],
     r'''
fn main() {
    // overlap within 0.01 only
    let a = pl(&[(0.,0.,0.),(4.,0.,0.),(4.,4.,0.),(0.,4.,0.)], true);
    let b = pl(&[(4.005,0.,0.),(8.,0.,0.),(8.,4.,0.),(4.005,4.,0.)], true);
    let r = |eps| { let o = PlineBooleanOptions { pline1_aabb_index: None, pos_equal_eps: eps }; a.boolean_opt(&b, BooleanOp::Or, &o).pos_plines.len() };
    assert_eq!(r(1e-5), 2);
    assert_eq!(r(0.01), 1);
}''', "boolean with a position tolerance and no supplied index", "the caller's tolerance is ignored")
OFFS = "cavalier_contours/src/polyline/internal/pline_offset.rs"
seed("c25-open-end-eps", "C25",
     [(OFFS, "result.add_or_replace_vertex(last_raw_offset_vertex, pos_equal_eps);", "result.add_or_replace_vertex(last_raw_offset_vertex, T::fuzzy_epsilon());")],
     r'''
use cavalier_contours::polyline::internal::pline_offset::*;
fn main() {
    // the last arc begins within the position tolerance of where it ends up: the offset of its end is close by
    let p = pl(&[(0.,0.,1.),(2.,0.,0.2),(1.,0.,-0.5)], false);
    let q: Polyline = create_raw_offset_polyline(&p, 0.5, 1e-5);
    let n = q.vertex_count();
    assert!(!q.at(n - 1).pos().fuzzy_eq_eps(q.at(n - 2).pos(), 1e-5), "{q:?}");
}''', "an open polyline whose last piece is shorter than the position tolerance", "the last two vertexes of the raw offset coincide within the tolerance")
seed("c25-seam-sign", "C25",
     [(OFFS, "                    || (updated_theta > T::zero() && result.at(0).bulge_is_neg())", "                    || (updated_theta > T::one() && result.at(0).bulge_is_neg())")],
     r'''
use cavalier_contours::polyline::internal::pline_offset::*;
fn main() {
    let p = pl(&[(2.,1.,-0.41421356237),(0.,1.,0.5),(0.,2.,0.),(2.,2.,0.)], true);
    let q: Polyline = create_raw_offset_polyline(&p, -1.0, 1e-5);
    // the first arc has vanished behind the seam: it must not turn over
    assert!(q.at(0).bulge < 0.0, "{q:?}");
}''', "a closed polyline starting with a clockwise arc that vanishes when the ends are joined", "the first arc of the raw offset turns over")
seed("c26-equidistant-exact", "C26",
     [(OFFS, "dist1.fuzzy_eq_eps(dist2, pos_equal_eps)", "dist1 == dist2")],
     r'''
use cavalier_contours::polyline::internal::pline_offset::*;
fn main() {
    let p = pl(&[(2.,0.,0.41421356237),(0.,2.,-1.),(0.,1.,0.5),(1.,0.,-0.41421356237)], true);
    let q: Polyline = create_raw_offset_polyline(&p, 0.5, 1e-5);
    assert_eq!(q.vertex_count(), 4, "{q:?}");
}''', "two arcs whose offsets meet in two points as far from the corner up to rounding", "the arcs are connected around the corner although they meet")
seed("c26-equidistant-points", "C26",
     [(OFFS, "                if both_arcs_sweep_point(point1) {\n                    process_intersect(point1, true);\n                } else {\n                    process_intersect(point2, both_arcs_sweep_point(point2));\n                }", "                process_intersect(point1, both_arcs_sweep_point(point1));")],
     r'''
use cavalier_contours::polyline::internal::pline_offset::*;
fn main() {
    let p = pl(&[(1.,1.,-1.),(1.,3.,-0.5),(0.,0.,-0.41421356237)], true);
    let q: Polyline = create_raw_offset_polyline(&p, 1.0, 1e-5);
    assert_eq!(q.vertex_count(), 5, "{q:?}");
}''', "two arcs whose offsets meet in two points as far from the corner", "the arcs are connected around the corner although they meet")
seed("c27-end-circle-box", "C27",
     [(OFFS, "        circle_center.y - circle_radius,\n", "        circle_center.y,\n")],
     r'''
fn main() {
    let p = pl(&[(1.,1.,0.2),(1.,2.,-0.5),(3.,3.,0.2),(2.,1.,0.41421356237),(0.,3.,0.)], false);
    let q = p.parallel_offset(0.7);
    assert_eq!(q.len(), 2, "{q:?}");
}''', "an open polyline whose offset crosses the circle around its end on a segment wholly below the center", "one of the two offset pieces is lost")
seed("c27-second-crossing", "C27",
     [(OFFS, "                    if is_valid_line_intr(t1) {", "                    if is_valid_line_intr(t0) {")],
     r'''
fn main() {
    let p = pl(&[(5.,2.,0.),(3.,1.,0.),(4.,0.,1.),(2.,0.,0.5)], false);
    let q = p.parallel_offset(-1.0);
    assert_eq!(q.len(), 2, "{q:?}");
}''', "an open polyline with a line of the raw offset entering an end circle from outside its own ends", "the raw offset is not cut where a line meets the circle around an end")
seed("c27-line-start", "C27",
     [(OFFS, "!is_false_intersect(t) && t.abs() > pos_equal_eps", "!is_false_intersect(t) && t > T::zero()")],
     r'''
fn main() {
    let p = pl(&[(4.,5.,0.),(2.,3.,0.),(0.,5.,0.),(2.,3.,0.41421356237)], false);
    let q = p.parallel_offset(0.5);
    assert_eq!((q.len(), q[0].vertex_count()), (1, 2), "{q:?}");
}''', "a line of the raw offset that starts on the circle around an end up to rounding", "a sliver is cut off where the line starts, and a piece that is too near is kept")
seed("c28-full-circle-slice", "C28",
     [(OFFS, "if current_loop_start_index <= slice.start_index", "if current_loop_start_index < slice.start_index")],
     r'''
fn main() {
    // two slices of the same segment meet: the one that starts there goes first
    let p = pl(&[(0.,0.,0.),(1.,1.,0.41421356237),(0.,1.,0.),(1.,0.,0.)], false);
    let q = p.parallel_offset(-0.7);
    let n: usize = q.iter().map(|x| x.vertex_count()).sum();
    assert_eq!((q.len(), n), (2, 13), "{q:?}");
}''', "two slices whose starts meet the end of a third, one of them starting on its own segment", "the wrong slice is joined on, and a piece of the loop is lost")
seed("c28-query-box", "C28",
     [(OFFS, "current_end_point.x - join_eps,\n", "current_end_point.x - pos_equal_eps,\n")],
     r'''
fn main() {
    let p = pl(&[(0.,3.,0.),(5.,0.,-0.41421356237),(4.,1.,0.),(0.,0.,-0.41421356237)], false);
    let o = PlineOffsetOptions { slice_join_eps: 0.05, ..Default::default() };
    let q = p.parallel_offset_opt(-1.5, &o);
    let d = p.parallel_offset(-1.5);
    assert_eq!((q.len(), d.len()), (2, 2), "{q:?} {d:?}");
}''', "two slices whose ends are further apart in x than the position tolerance but within the joining tolerance", "the two slices are not joined: the offset comes back in three pieces")
seed("c28-closes-on-end", "C28",
     [(OFFS, "let initial_start_point = slices[i].updated_start.pos();", "let initial_start_point = slices[i].end_point;")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(1.,1.,0.41421356237),(0.,1.,0.),(1.,0.,0.)], false);
    let q = p.parallel_offset(-0.7);
    assert_eq!(q.len(), 2, "{q:?}");
}''', "two slices that can follow the same one, only one of which leads back to the start of the loop", "the preference is taken from the end of the first slice, and a sliver is left over as a polyline of its own")
SHP = "cavalier_contours/src/shape_algorithms/mod.rs"
SHAPE_DEMO = r'''
use cavalier_contours::shape_algorithms::*;
fn shape(ps: &[&[(f64, f64, f64)]]) -> Shape<f64> {
    Shape::from_plines(ps.iter().map(|p| pl(p, true)))
}
'''
seed("c21-index-order", "C21",
     [(SHP, "            add_all_bounds(&ccw_plines);\n            add_all_bounds(&cw_plines);\n", "            add_all_bounds(&cw_plines);\n            add_all_bounds(&ccw_plines);\n")],
     SHAPE_DEMO + r'''
fn main() {
    let s = shape(&[&[(5.,5.,0.),(6.,5.,0.),(6.,6.,0.),(5.,6.,0.)], &[(0.,0.,0.),(0.,2.,0.),(2.,2.,0.),(2.,0.,0.)]]);
    assert_eq!((s.ccw_plines.len(), s.cw_plines.len()), (1, 1));
    assert_eq!(s.plines_index.query(4.5, 4.5, 7.0, 7.0), vec![0]);
}''', "a shape with outlines of both orientations and different boxes", "a query of the index of the shape names the wrong outline")
seed("c21-open-outline", "C21",
     [(SHP, "if pl.orientation() == PlineOrientation::CounterClockwise {\n                ccw", "if pl.orientation() != PlineOrientation::Clockwise {\n                ccw")],
     SHAPE_DEMO + r'''
fn main() {
    let s = Shape::from_plines(vec![pl(&[(0.,0.,0.),(1.,0.,0.),(1.,1.,0.)], false)]);
    assert_eq!((s.ccw_plines.len(), s.cw_plines.len()), (0, 1));
}''', "an open polyline among the outlines", "an outline without orientation is filed as counter-clockwise")
seed("c29-parent-index", "C29",
     [(SHP, "            }\n            parent_idx += 1;\n        }\n\n        let offset_loop_count", "                parent_idx += 1;\n            }\n        }\n\n        let offset_loop_count")],
     SHAPE_DEMO + r'''
fn main() {
    let s = shape(&[&[(10.,1.,-1.),(4.,1.,-1.)], &[(2.,8.,0.),(3.,8.,0.),(3.,4.,0.),(2.,4.,0.)], &[(1.,7.,0.),(3.,7.,-0.5),(3.,5.,0.),(1.,5.,-0.3)]]);
    let q = s.parallel_offset(-1.0, ShapeOffsetOptions::new());
    assert_eq!((q.ccw_plines.len(), q.cw_plines.len()), (0, 1), "{q:?}");
}''', "a clockwise outline with no offset (or several) before another one", "loops are not tested against the outline they are too near to")
seed("c29-pair-twice", "C29",
     [(SHP, "visited_loop_pairs.contains(&(j, i))", "visited_loop_pairs.contains(&(i, j))")],
     SHAPE_DEMO + r'''
fn main() {
    let s = shape(&[&[(6.,11.,0.),(10.,6.,0.),(2.,6.,0.)], &[(3.,4.,0.),(4.,4.,-0.5),(4.,1.,0.),(3.,1.,0.3)], &[(9.,3.,-1.),(5.,3.,-1.)]]);
    let q = s.parallel_offset(1.0, ShapeOffsetOptions::new());
    assert_eq!((q.ccw_plines.len(), q.cw_plines.len()), (0, 1));
    assert!((q.cw_plines[0].polyline.area() + 79.6573).abs() < 1e-3, "{}", q.cw_plines[0].polyline.area());
}''', "three outlines whose offset loops cross in a chain", "every crossing is recorded twice and pieces of the result run double")
seed("c29-own-parent", "C29",
     [(SHP, "curr_loop.parent_loop_idx,\n                    &mut query_stack,\n                ) {\n                    // Take", "loop_idx,\n                    &mut query_stack,\n                ) {\n                    // Take")],
     SHAPE_DEMO + r'''
fn main() {
    let s = shape(&[&[(8.,4.,-1.),(1.,4.,-1.)], &[(5.,0.,0.),(9.,0.,0.),(7.,2.,0.)], &[(1.,1.,1.),(2.,1.,1.)]]);
    let q = s.parallel_offset(1.0, ShapeOffsetOptions::new());
    assert_eq!((q.ccw_plines.len(), q.cw_plines.len()), (0, 0), "{q:?}");
}''', "outlines without an offset before one whose offset no other crosses", "a loop that lies too near to another outline is kept")
SEGI = "cavalier_contours/src/polyline/pline_seg_intersect.rs"
LLI = "cavalier_contours/src/core/math/line_line_intersect.rs"
SEG_DEMO = r'''
type V = PlineVertex<f64>;
fn pts(v1: V, v2: V, u1: V, u2: V) -> Vec<(f64, f64)> {
    let p = |a: Vector2<f64>| (a.x, a.y);
    match pline_seg_intr(v1, v2, u1, u2, 1e-5) {
        PlineSegIntr::NoIntersect => vec![],
        PlineSegIntr::TangentIntersect { point } | PlineSegIntr::OneIntersect { point } => vec![p(point)],
        PlineSegIntr::TwoIntersects { point1, point2 } | PlineSegIntr::OverlappingLines { point1, point2 } | PlineSegIntr::OverlappingArcs { point1, point2 } => vec![p(point1), p(point2)],
    }
}
fn same(a: &[(f64, f64)], b: &[(f64, f64)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| near(p.0, q.0) && near(p.1, q.1))
}
'''
seed("c24-arc-order", "C24",
     [(SEGI, "(dist_squared(point1, a1.pos()) < dist_squared(point2, a1.pos()))", "(dist_squared(point1, arc_center) < dist_squared(point2, arc_center))")],
     SEG_DEMO + r'''
fn main() {
    let (p, q) = (V::new(-3., 0.5, 0.), V::new(3., 0.5, 0.));
    let x = 0.75f64.sqrt();
    for (p, q) in [(p, q), (q, p)] {
        assert!(same(&pts(p, q, V::new(1., 0., 1.), V::new(-1., 0., 0.)), &[(x, 0.5), (-x, 0.5)]));
        assert!(same(&pts(p, q, V::new(-1., 0., -1.), V::new(1., 0., 0.)), &[(-x, 0.5), (x, 0.5)]));
    }
}''', "a line crossing an arc twice, the arc being the second segment", "the two points do not come in the direction of the arc")
seed("c24-point-off-line", "C24",
     [(LLI, "if !v_pdot_w.fuzzy_eq_zero_eps(eps) || !u_pdot_w.fuzzy_eq_zero_eps(eps) {", "if !v_pdot_w.fuzzy_eq_zero_eps(eps) && !u_pdot_w.fuzzy_eq_zero_eps(eps) {")],
     SEG_DEMO + r'''
fn main() {
    let z = V::new(1., 2., 0.);
    assert!(pts(z, z, V::new(0., 0., 0.), V::new(2., 0., 0.)).is_empty());
}''', "a segment of no length beside a line", "a point that does not lie on the line is reported as an intersect")
seed("c24-caller-tolerance", "C24",
     [(SEGI, "                p,\n                pos_equal_eps,\n            );\n            if within", "                p,\n                T::fuzzy_epsilon(),\n            );\n            if within")],
     SEG_DEMO + r'''
fn main() {
    // a line passing the end of a half circle by less than the tolerance asked for
    let r = pline_seg_intr(V::new(-1.0, 0.0, -1.0), V::new(1.0, 0.0, 0.), V::new(0.5, -0.004, 0.), V::new(3.0, -0.004, 0.), 0.01);
    assert!(!matches!(r, PlineSegIntr::NoIntersect), "{r:?}");
    let r = pline_seg_intr(V::new(-1.0, 0.0, -1.0), V::new(1.0, 0.0, 0.), V::new(0.5, -0.04, 0.), V::new(3.0, -0.04, 0.), 0.01);
    assert!(matches!(r, PlineSegIntr::NoIntersect), "{r:?}");
}''', "a crossing just past the end of an arc and a position tolerance other than the default", "the caller's tolerance is not used for the sweep of the arc")
seed("c24-overlap-reversed", "C24",
     [(SEGI, "point1: v2.pos(),\n                                    point2: v1.pos(),", "point1: v1.pos(),\n                                    point2: v2.pos(),")],
     SEG_DEMO + r'''
fn main() {
    let t = (std::f64::consts::PI / 16.0).tan();
    let at = |d: f64, b: f64| V::new((d * std::f64::consts::PI).cos(), (d * std::f64::consts::PI).sin(), b);
    let (v1, v2) = (at(0.375, t), at(0.625, 0.));
    assert!(same(&pts(v1, v2, at(0., 1.), at(1., 0.)), &[(v1.x, v1.y), (v2.x, v2.y)]));
    assert!(same(&pts(v1, v2, at(1., -1.), at(0., 0.)), &[(v2.x, v2.y), (v1.x, v1.y)]));
}''', "an arc lying within another one of the opposite direction", "the ends of the overlap do not come in the direction of the second arc")
TRT = "cavalier_contours/src/polyline/traits.rs"
seed("c15-repeat-of-two", "C15",
     [(TRT, "if pline.is_closed() && result.vertex_count() >= 2 {", "if pline.is_closed() && result.vertex_count() > 2 {")],
     r'''
fn main() {
    let p = Polyline::create_from_remove_repeat(&pl(&[(0.,0.,0.),(1.,0.,0.),(0.,0.,0.)], true), 1e-5);
    assert_eq!(p.vertex_count(), 2);
    let p = Polyline::create_from_remove_repeat(&pl(&[(0.,0.,0.),(0.004,0.,0.),(0.008,0.,0.)], true), 0.005);
    assert_eq!(p.vertex_count(), 1, "{p:?}");
}''', "a closed polyline of which two vertexes are left, the second within the tolerance of the first", "the closing vertex that repeats the first one is kept")
seed("c15-repeat-moves-vertex", "C15",
     [(TRT, "self.set_vertex(vc - 1, last.with_bulge(vertex.bulge));", "self.set_vertex(vc - 1, vertex);")],
     r'''
fn main() {
    let mut p = pl(&[(0.,0.,0.),(1.,0.,0.)], false);
    p.add_or_replace(1.004, 0.003, 0.5, 0.01);
    assert_eq!(p.vertex_count(), 2);
    assert!(p[1].x == 1.0 && p[1].y == 0.0 && p[1].bulge == 0.5, "{p:?}");
    // many small steps must not drag the vertex along
    let mut q = Polyline::new();
    for i in 0..100 { q.add_or_replace(i as f64 * 0.004, 0.0, 0.0, 0.01); }
    assert!(q.vertex_count() > 10, "{q:?}");
}''', "vertexes closer together than the tolerance, but not coinciding", "the vertex already there is moved onto the added one instead of only taking its bulge")
seed("c15-rotate-two", "C15",
     [(TRT, "if !self.is_closed() || vc < 2 || start_index > vc - 1 {", "if !self.is_closed() || vc < 3 || start_index > vc - 1 {")],
     r'''
fn main() {
    let c = pl(&[(0.,0.,1.),(2.,0.,1.)], true);
    let r = c.rotate_start(0, Vector2::new(1., -1.), 1e-5).expect("a circle of two half circles can start anywhere");
    assert_eq!(r.vertex_count(), 3);
    assert!(near(r.area(), c.area()));
}''', "a closed polyline of two vertexes", "its start cannot be moved")
seed("c15-equal-prefix", "C15",
     [(TRT, "self.is_closed() == other.is_closed()\n            && self.vertex_count() == other.vertex_count()\n", "self.is_closed() == other.is_closed()\n            && self.vertex_count() <= other.vertex_count()\n")],
     r'''
fn main() {
    let (a, b) = (pl(&[(0.,0.,0.),(1.,0.,0.)], true), pl(&[(0.,0.,0.),(1.,0.,0.),(1.,1.,0.)], true));
    assert!(a.fuzzy_eq(&a) && b.fuzzy_eq(&b));
    assert!(!b.fuzzy_eq(&a));
    assert!(!a.fuzzy_eq(&b));
}''', "comparing a polyline with one that continues it", "a polyline counts as equal to a longer one that begins with the same vertexes")
seed("c09-two-coincide", "C09",
     [(TRT, "Option<Self::OutputPolyline> {\n        if self.vertex_count() < 2 {\n            return None;\n        }\n\n        let mut result:", "Option<Self::OutputPolyline> {\n        if self.vertex_count() < 3 {\n            return None;\n        }\n\n        let mut result:")],
     r'''
fn main() {
    for closed in [false, true] {
        let p = pl(&[(1.,2.,0.5),(1.,2.,0.25)], closed);
        let r = p.remove_repeat_pos(1e-5).expect("the second vertex repeats the first");
        assert_eq!(r.vertex_count(), 1);
        assert_eq!(r.is_closed(), closed);
        assert_eq!(r.at(0).bulge, 0.25);
    }
}''', "a polyline of two coinciding vertexes", "the repeat vertex is kept")
seed("c09-error-rounded", "C09",
     [(TRT, "let seg_count = (angle_diff / seg_sub_angle).ceil();", "let seg_count = (angle_diff / seg_sub_angle).round();")],
     r'''
fn main() {
    let r = 10.0;
    for k in 1..200 {
        let e = 0.01 * k as f64;
        let p = pl(&[(-r,0.,1.),(r,0.,1.)], true);
        let q = p.arcs_to_approx_lines(e).unwrap();
        for (a, b) in q.iter_segments() {
            let m = Vector2::new((a.x + b.x) / 2., (a.y + b.y) / 2.);
            let d = r - m.length();
            assert!(d <= e + 1e-9, "a line lies {} from the arc, allowed {}", d, e);
        }
    }
}''', "an error distance for which the number of lines is not whole and rounds down", "the lines lie further from the arc than the error distance allows")
seed("c09-single-vertex", "C09",
     [(TRT, "if self.is_empty() {\n            return Some(result);\n        }\n\n        let abs_error", "if self.vertex_count() < 2 {\n            return Some(result);\n        }\n\n        let abs_error")],
     r'''
fn main() {
    let p = pl(&[(3.,4.,0.)], false);
    let q = p.arcs_to_approx_lines(0.1).unwrap();
    assert_eq!(q.vertex_count(), 1);
    assert!(q.at(0).x == 3. && q.at(0).y == 4.);
}''', "an open polyline of a single vertex", "its vertex is lost")
seed("c08-reversal", "C08",
     [(TRT, "dot(v2.pos() - v1.pos()) > -pos_equal_eps;", "dot(v2.pos() - v1.pos()) > -Self::Num::one();")],
     r'''
fn main() {
    // a short way back: (0.5, 0) is not between its neighbours
    let p = pl(&[(0.,0.,0.),(0.5,0.,0.),(0.1,0.,0.),(0.1,3.,0.)], false);
    assert!(p.remove_redundant(1e-5).is_none(), "a turning point was removed");
}''', "a line that turns back on itself within less than the unit length", "the turning point is removed")
seed("c08-merge-flag", "C08",
     [(TRT, "                    v1_bulge_is_pos = v2_bulge_is_pos;\n                    v2_bulge_is_pos = v3.bulge_is_pos();\n                }\n            }\n        }", "                    v1_bulge_is_pos = v2_bulge_is_pos;\n                }\n            }\n        }")],
     r'''
fn main() {
    // two arcs of one circle, then one back on the same circle
    let at = |d: f64| (5. * d.to_radians().cos(), 5. * d.to_radians().sin());
    let b = |d: f64| (d.to_radians() / 4.).tan();
    let v = |d: f64, s: f64| { let (x, y) = at(d); (x, y, b(s)) };
    let p = pl(&[v(0., 30.), v(30., 40.), v(70., -20.), v(50., 0.), (20., 20., 0.)], false);
    let r = p.remove_redundant(1e-5).expect("the second vertex is redundant");
    assert_eq!(r.vertex_count(), 4);
    assert!((r.at(0).bulge - b(70.)).abs() < 1e-9);
    assert!((r.at(1).bulge - b(-20.)).abs() < 1e-9);
}''', "an arc in the other direction on the same circle right after two arcs that were merged", "its direction is remembered wrong, it is merged as well")
seed("c08-open-end", "C08",
     [(TRT, "pl.add_or_replace_vertex(self.last().unwrap(), pos_equal_eps);", "pl.add_vertex(self.last().unwrap());")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(0.15,0.,0.),(0.08,0.,0.7)], false);
    let r = p.remove_redundant(0.1).expect("the last two coincide");
    assert_eq!(r.vertex_count(), 1);
    assert_eq!(r.at(0).bulge, 0.7);
}''', "an open polyline whose last vertex also coincides with the last one kept", "a repeat stays at the end")
seed("c08-closing-repeat", "C08",
     [(TRT, "                            .unwrap()\n                            .pos()\n                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)", "                            .unwrap()\n                            .fuzzy_eq_eps(pl.at(0), pos_equal_eps)")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(5.,0.,0.),(5.,5.,0.),(0.,5.,0.),(-0.05,0.,0.5),(0.08,0.,0.)], true);
    let r = p.remove_redundant(0.1).expect("the last two are redundant");
    let (a, b) = (r.last().unwrap(), r.at(0));
    assert!(!a.pos().fuzzy_eq_eps(b.pos(), 0.1), "a repeat of the first position stays: {:?} {:?}", a, b);
}''', "the last vertex left lies on the first one with another bulge", "a repeat of the first position stays at the end")
seed("c08-wrap-direction", "C08",
     [(TRT, "                && (v1_bulge_is_pos == v2_bulge_is_pos)\n                && !v2.pos().fuzzy_eq_eps(v3.pos(), pos_equal_eps)\n            {\n                // check if arc", "                && !v2.pos().fuzzy_eq_eps(v3.pos(), pos_equal_eps)\n            {\n                // check if arc")],
     r'''
fn main() {
    let at = |d: f64| (5. * d.to_radians().cos(), 5. * d.to_radians().sin());
    let b = |d: f64| (d.to_radians() / 4.).tan();
    let v = |d: f64, s: f64| { let (x, y) = at(d); (x, y, b(s)) };
    let p = pl(&[v(90., -60.), v(30., 0.), (20., 3., 0.), (20., -3., 0.), v(0., 90.)], true);
    assert!(p.remove_redundant(1e-5).is_none(), "the turning point at the start was removed");
}''', "a closed polyline that starts where two arcs of one circle turn back", "the turning point is removed and the arc runs elsewhere")
seed("c14-three-crossings", "C14",
     [("cavalier_contours/src/polyline/internal/pline_boolean.rs", "        if intrs_list.len() != 1 {\n            // build all", "        if intrs_list.len() != 1 && intrs_list.len() != 3 {\n            // build all")],
     r'''
fn main() {
    let a = pl(&[(0.,0.,0.),(10.,0.,0.),(10.,10.,0.),(0.,10.,0.)], true);
    let b = pl(&[(12.,-2.,0.),(12.,3.,0.),(6.,3.,0.),(6.,-1.,0.),(4.,-1.,0.),(4.,2.,0.),(2.,2.,0.),(2.,-2.,0.)], true);
    let area = |op| { let r = a.boolean(&b, op);
        r.pos_plines.iter().map(|p| p.pline.area().abs()).sum::<f64>() - r.neg_plines.iter().map(|p| p.pline.area().abs()).sum::<f64>() };
    let (o, n) = (area(BooleanOp::Or), area(BooleanOp::And));
    assert!((o + n - a.area() - b.area()).abs() < 1e-6, "or {} and {} of {} and {}", o, n, a.area(), b.area());
}''', "a segment crossed by exactly three segments of the other polyline", "the pieces between its crossings are lost")

TIMED = r'''
fn within(what: &str, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); let _ = tx.send(()); });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        eprintln!("{} is still running", what);
        std::process::exit(1);
    }
}
'''
seed("c30-winding-degenerate", "C30",
     [(TRT, "        let mut winding = 0;\n\n        for (v1, v2) in self.iter_segments() {\n            if v1.bulge_is_zero() {\n                winding += process_line_winding(v1, v2, point);\n            } else {\n                winding += process_arc_winding(v1, v2, point);\n            }\n        }",
       "        let mut winding = 0;\n\n        let count = self.segment_count();\n        let mut i = 0;\n        while i < count {\n            let (v1, v2) = (self.at(i), self.at(self.next_wrapping_index(i)));\n            if v1.x == v2.x && v1.y == v2.y {\n                // no length, cannot be crossed\n                continue;\n            }\n            i += 1;\n            if v1.bulge_is_zero() {\n                winding += process_line_winding(v1, v2, point);\n            } else {\n                winding += process_arc_winding(v1, v2, point);\n            }\n        }")],
     TIMED + r'''
fn main() {
    within("winding_number", || {
        let p = pl(&[(0.,0.,0.),(4.,0.,0.),(4.,0.,0.),(4.,4.,0.),(0.,4.,0.)], true);
        assert_eq!(p.winding_number(Vector2::new(1., 1.)), 1);
    });
}''', "a polyline with a repeated position", "the count of the winding number never gets past it")
seed("c30-redundant-wrap", "C30",
     [(TRT, "            // if end is reached return polyline with the only vertex\n            if i >= vc {", "            // if end is reached return polyline with the only vertex\n            if i >= vc && !self.is_closed() {"),
      (TRT, "            v2 = self.at(i);\n            i += 1;\n        }", "            v2 = self.at(i);\n            i = if self.is_closed() { self.next_wrapping_index(i) } else { i + 1 };\n        }")],
     TIMED + r'''
fn main() {
    within("remove_redundant", || {
        let p = pl(&[(1.,1.,0.),(1.,1.,0.3),(1.,1.,0.),(1.,1.,0.)], true);
        let _ = p.remove_redundant(1e-5);
    });
}''', "a closed polyline of which all positions coincide", "looking for the first vertex that differs goes around without end")
seed("c30-closest-nan", "C30",
     [(TRT, "        for (i, j) in self.iter_segment_indexes() {\n            let v1 = self.at(i);\n            let v2 = self.at(j);\n            let cp = seg", "        let mut indexes = self.iter_segment_indexes().peekable();\n        while let Some(&(i, j)) = indexes.peek() {\n            let v1 = self.at(i);\n            let v2 = self.at(j);\n            let cp = seg"),
      (TRT, "            let dist2 = diff_v.length_squared();\n            if dist2 < dist_squared {\n                result.seg_start_index = i;", "            let dist2 = diff_v.length_squared();\n            if dist2 < dist_squared || dist2 >= dist_squared {\n                indexes.next();\n            }\n            if dist2 < dist_squared {\n                result.seg_start_index = i;")],
     TIMED + r"""
fn main() {
    within("closest_point", || {
        let p = pl(&[(0.,0.,0.),(4.,0.,0.),(f64::NAN,4.,0.),(0.,4.,0.)], true);
        let _ = p.closest_point(Vector2::new(1., 1.), 1e-5);
    });
}""", "a vertex that is not a number", "the search for the closest point stays at its segment")
