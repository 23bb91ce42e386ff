"""Planted bugs for the symbolic-table properties."""
from seeds_core import *  # noqa

seed("c11-tiny-clockwise", "C11",
     [(TR, "if self.area() < Self::Num::zero() {", "if self.area() < -Self::Num::fuzzy_epsilon() {")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(0.,1e-5,0.),(1e-5,0.,0.)], true);
    assert!(p.area() < 0.0);
    assert_eq!(p.orientation(), PlineOrientation::Clockwise);
}''', "a clockwise polyline with an area below 1e-8", "it is reported as counter clockwise")
seed("c11-length-skips-repeat-start", "C11",
     [(TR, "            .fold(Self::Num::zero(), |acc, (v1, v2)| acc + seg_length(v1, v2))",
       "            .enumerate()\n            .fold(Self::Num::zero(), |acc, (i, (v1, v2))| {\n                if i > 0 && i + 1 == self.vertex_count() && v2.fuzzy_eq(self.at(1)) {\n                    acc\n                } else {\n                    acc + seg_length(v1, v2)\n                }\n            })")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(0.,0.,0.),(1.,0.,0.),(1.,1.,0.)], true);
    assert!(near(p.path_length(), 2.0 + 2f64.sqrt()));
}''', "a closed polyline whose first two vertexes are identical", "the closing segment's length is left out")

seed("c12-shallow-cross", "C12",
     [(SEG, "let crosses_angle = |angle| angle_is_within_sweep(angle, start_angle, sweep_angle);",
       "let min_sweep = T::from(0.02).unwrap();\n    let crosses_angle = |angle| sweep_angle.abs() > min_sweep && angle_is_within_sweep(angle, start_angle, sweep_angle);")],
     r'''
fn main() {
    let p = pl(&[(-1000.,0.,-0.004),(1000.,0.,0.)], false);
    let e = p.extents().unwrap();
    assert!(near(e.max_y, 4.0), "{}", e.max_y);
}''', "a long arc with a sweep below 0.02 radians that crosses an axis direction", "the box cuts the top of the arc off")
seed("c12-flat-bulge-line", "C12",
     [(SEG, "pub fn seg_bounding_box<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> AABB<T>\nwhere\n    T: Real,\n{\n    if v1.bulge_is_zero() {", "pub fn seg_bounding_box<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> AABB<T>\nwhere\n    T: Real,\n{\n    if v1.bulge.fuzzy_eq_zero_eps(T::from(1e-4).unwrap()) {")],
     r'''
fn main() {
    let b = seg_bounding_box(PlineVertex::new(0.0, 0.0, 0.00005), PlineVertex::new(1e5, 0.0, 0.0));
    assert!(near(b.min_y, -2.5), "{}", b.min_y);
}''', "a very long arc with a bulge below 1e-4", "it is boxed like its chord, so crossings with it are missed")
seed("c12-index-open-count", "C12",
     [(TR, "            let approx_aabb = seg_fast_approx_bounding_box(v1, v2);\n            builder.add(",
       "            let approx_aabb = if v1.bulge > Self::Num::one() {\n                seg_fast_approx_bounding_box(v2, v1)\n            } else {\n                seg_fast_approx_bounding_box(v1, v2)\n            };\n            builder.add(")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,1.2),(2.,0.,0.),(1.,5.,0.)], false);
    let idx = p.create_approx_aabb_index();
    let hit = idx.query(0.9, -1.15, 1.1, -1.05);
    assert!(hit.contains(&0));
}''', "an arc of more than half a circle in the approximate index", "its box covers only the chord's vertexes in reverse and misses the arc")

seed("c16-remaining-after-next", "C16",
     [(TR, "            let remaining = if self.pline.is_closed() {\n                self.pline.vertex_count() - self.pos", "            let remaining = if self.pline.is_closed() {\n                self.pline.segment_count()")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(1.,0.,0.),(1.,1.,0.)], true);
    let mut it = p.iter_segments();
    it.next();
    assert_eq!(it.size_hint(), (2, Some(2)));
    assert_eq!(it.count(), 2);
}''', "a partly consumed segment iterator of a closed polyline", "it announces items it already returned")
seed("c17-end-split-keeps-bulge", "C17",
     [(SEG, "        // point is at end point of segment\n        let updated_start = v1;\n        let split_vertex = PlineVertex::new(v2.x, v2.y, T::zero());", "        // point is at end point of segment\n        let updated_start = v1;\n        let split_vertex = v2;")],
     r'''
fn main() {
    let v1 = PlineVertex::new(0.0, 0.0, 1.0);
    let v2 = PlineVertex::new(1.0, 0.0, 0.75);
    let s = seg_split_at_point(v1, v2, Vector2::new(1.0, 0.0), 1e-5);
    assert!(s.split_vertex.bulge == 0.0);
}''', "splitting an arc at its end where the following segment is an arc", "the zero-length second part carries the next segment's bulge")

seed("c18-near-enough", "C18",
     [(TR, "                dist_squared = dist2;\n            }\n        }\n\n        result.distance", "                dist_squared = dist2;\n                if dist2 < pos_equal_eps {\n                    // point is on the polyline\n                    break;\n                }\n            }\n        }\n\n        result.distance")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(10.,0.,0.),(10.,0.001,0.),(0.,0.001,0.)], false);
    let r = p.closest_point(Vector2::new(5.0, 0.0009), 1e-5).unwrap();
    assert_eq!(r.seg_start_index, 2);
    assert!(r.distance < 2e-4);
}''', "an earlier segment within the square root of the tolerance while a later one is nearer", "the search stops early: the tolerance is compared with a squared distance")
seed("c18-length-at-vertex", "C18",
     [(TR, "            if sum_len < target_path_length {", "            if sum_len < target_path_length || (sum_len == target_path_length && i + 2 < self.vertex_count() && v1.bulge_is_neg()) {")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,-1.),(2.,0.,0.),(4.,0.,0.),(6.,0.,0.)], false);
    let l = seg_length(p.at(0), p.at(1));
    let (i, _) = p.find_point_at_path_length(l).unwrap();
    assert_eq!(i, 0);
}''', "a target length that ends exactly at the end of a clockwise arc", "the next segment is reported")

seed("c20-validate-order", "C20",
     [(VIEW, "        if self.end_index_offset > source.vertex_count() {", "        if self.end_index_offset >= source.vertex_count() && !source.is_closed() || self.end_index_offset > source.vertex_count() + 1 {")],
     r'''
fn main() {
    let p = pl(&[(0.,0.,0.),(2.,0.,0.),(2.,2.,0.)], true);
    let mut d = PlineViewData::from_entire_pline(&p);
    d.end_index_offset = 4;
    let r = std::panic::catch_unwind(|| d.validate_for_source(&p));
    match r { Ok(ViewDataValidation::OffsetOutOfRange { .. }) => {} , _ => std::process::exit(1) }
}''', "view data whose offset exceeds the source length by one", "validation accepts it or panics instead of reporting the offset")

seed("c23-steep-parametric", "C23",
     [(BASE, "    if x_diff.abs() < y_diff.abs() {", "    if x_diff.fuzzy_eq_zero() {")],
     r'''
fn main() {
    let t = parametric_from_point(Vector2::<f64>::new(0.0, 0.0), Vector2::new(1e-6, 100.0), Vector2::new(4e-6, 50.0), 1e-5);
    assert!((t - 0.5).abs() < 1e-3, "{}", t);
}''', "an almost vertical line and a point within the tolerance of it", "the position along the line is computed from the tiny difference")

seed("c16-index-hint", "C16",
     [(TR, "        self.remaining -= 1;\n\n        if self.remaining == 0 && self.is_closed {\n            return Some((self.pos, 0));\n        }\n\n        let pos = self.pos;\n        self.pos += 1;\n        Some((pos, pos + 1))",
       "        if self.remaining == 1 && self.is_closed {\n            self.is_closed = false;\n            self.pos = 0;\n            return Some((std::mem::replace(&mut self.remaining, 1) + self.pos, 0)).filter(|_| false).or_else(|| {\n                self.remaining = 0;\n                None\n            });\n        }\n        self.remaining -= 1;\n\n        let pos = self.pos;\n        self.pos += 1;\n        Some((pos, pos + 1))")] if False else
     [(TR, "    fn next_back(&mut self) -> Option<Self::Item> {\n        if self.pos == self.end {\n            return None;\n        }\n\n        let r = self.pline.get(self.end - 1);", "    fn next_back(&mut self) -> Option<Self::Item> {\n        if self.pos == self.end {\n            return None;\n        }\n\n        let r = self.pline.get(if self.pos > 1 { self.pos } else { self.end - 1 });")],
     r"""
fn main() {
    let p = pl(&[(0.,0.,0.),(1.,0.,0.),(2.,1.,0.),(3.,1.,0.),(4.,0.,0.)], true);
    let mut it = p.iter_vertexes();
    it.next(); it.next();
    assert_eq!(it.next_back().unwrap().x, 4.0);
}""", "taking two vertexes from the front and then one from the back", "the wrong vertex is returned from the back")
seed("c17-center-end", "C17",
     [(SEG, "        // avoid normalizing zero length vector (point is at center, just return start point)\n        return v1.pos();", "        // avoid normalizing zero length vector (point is at center, all points are equally near)\n        return v2.pos() + (v1.pos() - v2.pos()).scale(v1.bulge.abs());")],
     r"""
fn main() {
    let b = (std::f64::consts::PI / 8.0).tan();
    let p = seg_closest_point(PlineVertex::new(1.0, 0.0, b), PlineVertex::new(0.0, 1.0, 0.0), Vector2::new(0.0, 0.0), 1e-5);
    assert!(near(p.length(), 1.0), "{:?}", p);
}""", "a query point at the center of an arc that is not a half circle", "the result is not on the arc")
seed("c20-single-segment-default-eps", "C20",
     [(VIEW, "        if updated_start\n            .pos()\n            .fuzzy_eq_eps(end_intersect, pos_equal_eps)\n        {", "        if updated_start.pos().fuzzy_eq(end_intersect) {")],
     r"""
fn main() {
    let p = pl(&[(0.,0.,0.),(2.,0.,0.),(2.,2.,0.)], false);
    let d = PlineViewData::create_on_single_segment(&p, 0, PlineVertex::new(1.0, 0.0, 0.0), Vector2::new(1.000001, 0.0), 1e-5);
    assert!(d.is_none());
}""", "a slice shorter than the given tolerance but longer than the default epsilon", "a part without length is produced")
seed("c23-steep-tangent-turn", "C23",
     [(BASE, "    let mut diff = normalize_radians(angle2 - angle1);\n    if diff > T::pi() {", "    let mut diff = normalize_radians(angle2 - angle1);\n    if diff.fuzzy_gt_eps(T::pi(), T::fuzzy_epsilon()) && diff != T::pi() {")],
     r"""
fn main() {
    let pi = std::f64::consts::PI;
    let d = delta_angle(0.0, pi - 5e-9);
    assert!(d > 0.0, "{}", d);
}""", "two angles just below half a turn apart", "the difference comes out negative")
