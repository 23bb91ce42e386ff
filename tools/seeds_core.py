"""Planted bugs of the core library."""
C = "cavalier_contours/src/"
TR = C + "polyline/traits.rs"
SEG = C + "polyline/pline_seg.rs"
INTR = C + "polyline/pline_seg_intersect.rs"
OFF = C + "polyline/internal/pline_offset.rs"
BOOL = C + "polyline/internal/pline_boolean.rs"
SELF = C + "polyline/internal/pline_intersects.rs"
TYPES = C + "polyline/pline_types.rs"
VIEW = C + "polyline/pline_view.rs"
PL = C + "polyline/pline.rs"
VTX = C + "polyline/pline_vertex.rs"
SHAPE = C + "shape_algorithms/mod.rs"
BASE = C + "core/math/base_math.rs"
VEC = C + "core/math/vector2.rs"
LL = C + "core/math/line_line_intersect.rs"
LC = C + "core/math/line_circle_intersect.rs"
CC = C + "core/math/circle_circle_intersect.rs"
S = {}


def seed(sid, prop, edits, demo, needs, breaks, **kw):
    S[sid] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


PRE = r'''#![allow(unused, unused_mut)]
use cavalier_contours::core::math::*;
use cavalier_contours::core::traits::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;
use static_aabb2d_index::*;
fn pl(v: &[(f64, f64, f64)], closed: bool) -> Polyline<f64> {
    let mut p = Polyline::new();
    for &(x, y, b) in v { p.add(x, y, b); }
    p.set_is_closed(closed);
    p
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) }
fn scaled(p: &Polyline<f64>, k: f64) -> Polyline<f64> { let mut q = p.clone(); q.scale_mut(k); q }
fn moved(p: &Polyline<f64>, x: f64, y: f64) -> Polyline<f64> { let mut q = p.clone(); q.translate_mut(x, y); q }
'''

# ------------------------------------------------------------------ C05 scale
seed("c05-approx-unit-radius", "C05",
     [(TR, "Self::Num::two() * (Self::Num::one() - abs_error / arc_radius).acos().abs();",
       "Self::Num::two() * (Self::Num::one() - abs_error / num_traits::real::Real::max(arc_radius, Self::Num::one())).acos().abs();")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,1.),(0.1,0.,1.)], true);
    let a = p.arcs_to_approx_lines(1e-3).unwrap();
    let b = scaled(&p, 100.0).arcs_to_approx_lines(1e-1).unwrap();
    assert_eq!(a.vertex_count(), b.vertex_count());
}''', "an arc of radius below 1 approximated by lines", "the number of sub-segments depends on a radius of one unit")

seed("c05-near-end-cutoff", "C05",
     [(TR, """            if dist2 < result.distance {""", """            if dist2 < result.distance && dist2 < Self::Num::from(1e12).unwrap() {""")] if False else
     [(SEG, """    // closest point is one of the ends
    let dist1""", """    // point is on top of the start
    if dist_squared(v1.pos(), point) < T::from(1e-4).unwrap() {
        return v1.pos();
    }

    // closest point is one of the ends
    let dist1""")],
     r'''
fn main() {
    // quarter arc of tiny size, point past the far end
    let v1 = PlineVertex::new(0.0, 0.0, 1.0);
    let v2 = PlineVertex::new(0.004, 0.0, 0.0);
    let pt = Vector2::new(0.0041, 0.001);
    let c = seg_closest_point(v1, v2, pt, 1e-9);
    let k = 1e4;
    let s = seg_closest_point(PlineVertex::new(0.0, 0.0, 1.0), PlineVertex::new(0.004 * k, 0.0, 0.0), Vector2::new(pt.x * k, pt.y * k), 1e-5);
    assert!(near(c.x * k, s.x) && near(c.y * k, s.y), "{:?} {:?}", c, s);
}''', "an arc whose size is below the fixed distance", "a fixed squared distance of 1e-4 enters the closest point decision")

seed("c05-split-slice", "C05",
     [(LC, "        if (xh * xh + yk * yk).fuzzy_eq_eps(radius * radius, eps) {", "        if (xh * xh + yk * yk).fuzzy_eq_eps(radius, eps) {")],
     r'''
fn main() {
    let p = Vector2::new(3.0, 0.0);
    match line_circle_intr(p, p, 3.0, Vector2::new(0.0, 0.0), 1e-5) {
        LineCircleIntr::TangentIntersect { .. } => {}
        o => panic!("{:?}", o),
    }
}''', "a point-like segment lying on a circle of radius other than 1", "squared distance compared with the plain radius")

# ------------------------------------------------------------------ C06 translation
seed("c06-path-point-level", "C06",
     [(TR, "                let pt = v1.pos() + (v2.pos() - v1.pos()).scale(t);\n                return Ok((i, pt));", "                let dir = v2.pos() - v1.pos();\n                let pt = if dir.y == Self::Num::zero() {\n                    Vector2::new(v1.x + dir.x * t, v1.y * (Self::Num::one() - t) + dir.y * t)\n                } else {\n                    v1.pos() + dir.scale(t)\n                };\n                return Ok((i, pt));")],
     r'''
fn main() {
    let p = pl(&[(0.,3.,0.),(10.,3.,0.)], false);
    let (_, q) = p.find_point_at_path_length(5.0).unwrap();
    assert!(near(q.x, 5.0) && near(q.y, 3.0), "{:?}", q);
}''', "a horizontal segment off the x axis", "interpolation weight applied to a difference")

seed("c06-tangent-from-point", "C06",
     [(SEG, "    Vector2::new(\n        point_on_seg.y - arc_center.y,\n        -(point_on_seg.x - arc_center.x),\n    )", "    Vector2::new(\n        point_on_seg.y - arc_center.y,\n        -(point_on_seg.x - v1.x) + (arc_center.x - v1.x) + (v2.bulge - v2.bulge),\n    )"[:0] + "    Vector2::new(\n        point_on_seg.y - arc_center.y,\n        -(point_on_seg.x - arc_center.x - arc_center.y.signum().min(T::zero()) * arc_center.y),\n    )".replace(".signum().min(T::zero()) * arc_center.y", ".min(T::zero())").replace("arc_center.y.min(T::zero())", "num_traits::real::Real::min(arc_center.y, T::zero())"))],
     r'''
fn main() {
    let v1 = PlineVertex::new(2.0, -5.0, -1.0);
    let v2 = PlineVertex::new(4.0, -5.0, 0.0);
    let t = seg_tangent_vector(v1, v2, v1.pos()).normalize();
    assert!(near(t.x, 0.0) && near(t.y, 1.0), "{:?}", t);
}''', "a clockwise arc whose centre lies below the x axis", "raw y coordinate added to an x difference")

# ------------------------------------------------------------------ C07 tolerance scale
seed("c07-param-range", "C07",
     [(LL, "            || !(seg2_t * seg2_length).fuzzy_in_range_eps(T::zero(), seg2_length, eps)\n        {\n            return FalseIntersect", "            || !seg2_t.fuzzy_in_range_eps(T::zero(), T::one(), eps)\n        {\n            return FalseIntersect")],
     r'''
fn main() {
    // second segment is 1e6 long and stops 1.0 short of the first
    let r = line_line_intr(Vector2::new(0.0, -1.0), Vector2::new(0.0, 1.0), Vector2::new(1.0, 0.0), Vector2::new(1e6, 0.0), 1e-5);
    match r { LineLineIntr::FalseIntersect { .. } => {}, o => panic!("{:?}", o) }
}''', "a very long segment ending just short of the other", "the tolerance applies to the parametric value instead of the position")

seed("c07-squared-center", "C07",
     [(SEG, "    if point.fuzzy_eq_eps(arc_center, epsilon) {", "    if dist_squared(point, arc_center).fuzzy_eq_zero_eps(epsilon) {")],
     r'''
fn main() {
    let c = seg_closest_point(PlineVertex::new(0.0, 0.0, 1.0), PlineVertex::new(2.0, 0.0, 0.0), Vector2::new(1.001, 0.0), 1e-5);
    assert!(near(c.x, 2.0), "{:?}", c);
}''', "a point closer to the arc centre than the root of the tolerance, but not at it", "tolerance compared with a squared distance")

# ------------------------------------------------------------------ C01 purity
seed("c01-hash-order-slices", "C01",
     [(BOOL, "use std::collections::BTreeMap;", "use std::collections::HashMap;"),
      (BOOL, "BTreeMap::<usize, Vec<SlicePoint<T>>>::new();", "HashMap::<usize, Vec<SlicePoint<T>>>::new();")],
     r'''
fn main() {
    // a comb crossing a wide bar: many result polylines
    let mut c = Polyline::new_closed();
    for i in 0..12 { let x = i as f64 * 2.0; c.add(x, 0., 0.); c.add(x, 10., 0.); c.add(x + 1., 10., 0.); c.add(x + 1., 0., 0.); }
    c.add(24., 0., 0.); c.add(24., -1., 0.); c.add(0., -1., 0.);
    let bar = pl(&[(-1.,4.,0.),(30.,4.,0.),(30.,6.,0.),(-1.,6.,0.)], true);
    let key = |r: BooleanResult<Polyline<f64>>| -> Vec<(f64, f64)> { r.pos_plines.iter().map(|p| (p.pline.at(0).x, p.pline.at(0).y)).collect() };
    let first = key(c.boolean(&bar, BooleanOp::And));
    for _ in 0..20 { assert_eq!(first, key(c.boolean(&bar, BooleanOp::And))); }
}''', "a boolean with many slices, run more than once", "the order of the result polylines changes from call to call")
seed("c01-shared-visited", "C01",
     [(SELF, "    let mut visited_pairs = HashSet::with_capacity(vc);", """    thread_local! {
        // reused between calls to avoid reallocating
        static VISITED: std::cell::RefCell<HashSet<(usize, usize)>> = std::cell::RefCell::new(HashSet::new());
    }
    let mut visited_pairs = VISITED.with(|v| std::mem::take(&mut *v.borrow_mut()));"""),
      (SELF, """            if visited_pairs.contains(&(hit_i, i)) {
                return aabb_index::Control::Continue;
            }

            // add pair being visited
            visited_pairs.insert((i, hit_i));
""", """            if visited_pairs.contains(&(hit_i, i)) || !visited_pairs.insert((i, hit_i)) {
                return aabb_index::Control::Continue;
            }
"""),
      (SELF, """        if cf.should_break() {
            break;
        }
    }

    cf
}""", """        if cf.should_break() {
            VISITED.with(|v| *v.borrow_mut() = visited_pairs);
            return cf;
        }
    }

    visited_pairs.clear();
    VISITED.with(|v| *v.borrow_mut() = visited_pairs);
    cf
}""")],
     r'''
struct First(usize);
impl PlineIntersectVisitor<f64, Control<()>> for First {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) -> Control<()> { self.0 += 1; Control::Break(()) }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) -> Control<()> { self.0 += 1; Control::Break(()) }
}
use cavalier_contours::core::Control;
fn main() {
    let mut base = vec![(0.,0.,0.),(10.,10.,0.),(20.,-8.,0.),(0.,9.,0.)];
    for i in 0..30 { base.push((-1.0 - i as f64, 10.0 + (i % 2) as f64, 0.)); }
    let mirror: Vec<_> = base.iter().map(|&(x, y, b)| (10. - x, y, b)).collect();
    let flip: Vec<_> = base.iter().map(|&(x, y, b)| (x, 10. - y, b)).collect();
    let turn: Vec<_> = base.iter().map(|&(x, y, b)| (10. - x, 10. - y, b)).collect();
    for _ in 0..3 {
        for c in [&base[..], &mirror[..], &flip[..], &turn[..]] {
            let mut v = First(0);
            let _ = pl(c, false).visit_self_intersects(&mut v);
            assert_eq!(v.0, 1);
        }
    }
}''', "an earlier visit on the same thread that was stopped by the visitor", "intersects already seen by the stopped visit are silently skipped in the next one")
seed("c01-same-object", "C01",
     [(BOOL, "    let constructed_index;\n    let pline1_aabb_index = if let Some(x) = options.pline1_aabb_index {", """    // same polyline on both sides: nothing to compute
    if std::ptr::eq(
        pline1 as *const P as *const u8,
        pline2 as *const R as *const u8,
    ) {
        return match operation {
            BooleanOp::Or | BooleanOp::And => BooleanResult::from_whole_plines(
                vec![O::create_from(pline1)],
                Vec::new(),
                BooleanResultInfo::Overlapping,
            ),
            BooleanOp::Not | BooleanOp::Xor => BooleanResult::empty(BooleanResultInfo::Overlapping),
        };
    }

    let constructed_index;
    let pline1_aabb_index = if let Some(x) = options.pline1_aabb_index {""")],
     r'''
fn main() {
    // self intersecting (figure eight) polylines: the general algorithm decides
    let p = pl(&[(0.,0.,0.),(10.,10.,0.),(10.,0.,0.),(0.,10.,0.)], true);
    let q = p.clone();
    for op in [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor] {
        let a = p.boolean(&p, op);
        let b = p.boolean(&q, op);
        assert_eq!(format!("{:?}", a.result_info), format!("{:?}", b.result_info));
        assert_eq!(a.pos_plines.len(), b.pos_plines.len());
        assert_eq!(a.neg_plines.len(), b.neg_plines.len());
    }
    let r = pl(&[(0.,0.,0.),(1.,0.,0.),(0.,0.,0.),(1.,0.,0.)], true);
    let a = r.boolean(&r, BooleanOp::Not);
    let b = r.boolean(&r.clone(), BooleanOp::Not);
    assert_eq!(format!("{:?}", a.result_info), format!("{:?}", b.result_info));
}''', "the same polyline object passed on both sides, one that does not fully overlap itself", "the result depends on object identity instead of the geometry")

# ------------------------------------------------------------------ C13 serde
SJ = 'serde_json = "1"\n'
seed("c13-skip-empty-subslices", "C13",
     [(TYPES, "    pub subslices: Vec<BooleanPlineSlice<P::Num>>,\n}", "    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Vec::is_empty\"))]\n    pub subslices: Vec<BooleanPlineSlice<P::Num>>,\n}")],
     r'''
fn main() {
    let a = pl(&[(0.,0.,0.),(1.,0.,0.),(1.,1.,0.)], true);
    let b = pl(&[(10.,0.,0.),(11.,0.,0.),(11.,1.,0.)], true);
    let r = a.boolean(&b, BooleanOp::Or);
    let s = serde_json::to_string(&r.pos_plines[0]).unwrap();
    let back: BooleanResultPline<Polyline<f64>> = serde_json::from_str(&s).unwrap();
    assert_eq!(back.pline.vertex_count(), 3);
}''', "a boolean result without subslices (disjoint or nested inputs), written and read back", "the document lacks the field and cannot be read back", features="serde", extra_deps=SJ)
seed("c13-one-sided-rename", "C13",
     [(VIEW, "    pub updated_end_bulge: T,\n    /// End point of the slice (final vertex position", "XX")] if False else
     [(PL, 'serde(rename = "vertexes")', 'serde(rename(serialize = "vertexes", deserialize = "vertices"), alias = "vertexData")')],
     r'''
fn main() {
    let a = pl(&[(0.,0.,0.),(1.,0.,0.5),(1.,1.,0.)], true);
    let s = serde_json::to_string(&a).unwrap();
    let back: Result<Polyline<f64>, _> = serde_json::from_str(&s);
    assert!(back.is_ok());
}''', "a polyline written to JSON and read back", "the key written is not a key that is read", features="serde", extra_deps=SJ)
seed("c13-vertex-order", "C13",
     [(VTX, "tuple.serialize_element(&self.y)?;\n            tuple.serialize_element(&self.bulge)?;", "tuple.serialize_element(&self.bulge)?;\n            tuple.serialize_element(&self.y)?;"),
      (VTX, "let [x, y, bulge]: [T; 3]", "let [x, bulge, y]: [T; 3]")],
     r'''
fn main() {
    let s = serde_json::to_string(&PlineVertex::new(1.0, 2.0, 0.5)).unwrap();
    assert_eq!(s, "[1.0,2.0,0.5]");
    let v: PlineVertex<f64> = serde_json::from_str("[1.0,2.0,0.5]").unwrap();
    assert_eq!((v.x, v.y, v.bulge), (1.0, 2.0, 0.5));
}''', "documents written by another version or tool", "vertices are written as [x, bulge, y], consistently in both directions", features="serde", extra_deps=SJ)
