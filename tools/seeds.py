"""Planted bugs (source of /verif/seeded).  Each: property, edits [(file, old, new)], demo main.rs, needs, breaks."""
F = "cavalier_contours_ffi/src/lib.rs"
C = "cavalier_contours/src/"
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)


PRE = r'''#![allow(unused, unused_unsafe, non_snake_case)]
use cavalier_contours_ffi::*;
use std::ptr;
fn mk(v: &[(f64, f64, f64)], closed: u8) -> *mut cavc_pline {
    let vs: Vec<cavc_vertex> = v.iter().map(|&(x, y, bulge)| cavc_vertex { x, y, bulge }).collect();
    let mut p: *const cavc_pline = ptr::null();
    assert_eq!(unsafe { cavc_pline_create(vs.as_ptr(), vs.len() as u32, closed, &mut p) }, 0);
    p as *mut _
}
'''

seed("f01-boolean-second-null", "F01",
     [(F, "if pline1.is_null() || pline2.is_null() {\n            return 1;", "if pline1.is_null() || (pline2.is_null() && options.is_null()) {\n            return 1;")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(0.,0.,1.),(1.,0.,1.)], 1);
    let mut o = std::mem::zeroed();
    assert_eq!(cavc_pline_boolean_o_init(&mut o), 0);
    let (mut p, mut n) = (ptr::null(), ptr::null());
    assert_eq!(cavc_pline_boolean(a, ptr::null(), 0, &o, &mut p, &mut n), 1);
} }''', "second operand null together with non-null options", "null second polyline is dereferenced instead of returning 1")

seed("f01-create-null-array", "F01",
     [(F, "        if !vertexes.is_null() && n_vertexes != 0 {", "        if n_vertexes != 0 && (is_closed != 0 || !vertexes.is_null()) {")],
     PRE + r'''
fn main() { unsafe {
    let mut p: *const cavc_pline = ptr::null();
    assert_eq!(cavc_pline_create(ptr::null(), 2, 1, &mut p), 0);
    let mut n = 9;
    assert_eq!(cavc_pline_get_vertex_count(p, &mut n), 0);
    assert_eq!(n, 0);
} }''', "null vertex array with a non-zero count and the closed flag set", "reads the vertex array through null")

seed("f02-outside-guard", "F02",
     [(F, "    ffi_catch_unwind!({\n        if plinelist.is_null() {\n            return 1;\n        }\n\n        let plinelist = unsafe { &mut (*plinelist).0 };\n        let pos = position as usize;\n",
       "    if plinelist.is_null() {\n        return 1;\n    }\n\n    let first = unsafe { (&(*plinelist).0)[0] };\n    ffi_catch_unwind!({\n        let plinelist = unsafe { &mut (*plinelist).0 };\n        let pos = position as usize;\n        if pos == 0 && plinelist.len() == 1 {\n            unsafe { pline.write(first) };\n            plinelist.clear();\n            return 0;\n        }\n")],
     PRE + r'''
fn main() { unsafe {
    let l = Box::into_raw(Box::new(cavc_plinelist(Vec::new())));
    let mut p: *const cavc_pline = ptr::null();
    assert_eq!(cavc_plinelist_take(l, 0, &mut p), 2);
} }''', "taking from an empty list", "an index panic unwinds out of the extern C function (process abort)")

seed("f03-extents-order", "F03",
     [(F, "                    max_y.write(aabb.max_y);\n                }\n                0\n            }\n            None => 2,", "                    max_y.write(aabb.max_y);\n                }\n                0\n            }\n            None => {\n                let last = if pline.vertex_count() == 1 { unsafe { min_x.write(pline[0].x) }; 2 } else { 2 };\n                last\n            }")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(5.,0.,1.)], 1);
    let (mut x0, mut y0, mut x1, mut y1) = (1.25, 1.25, 1.25, 1.25);
    assert_eq!(cavc_pline_eval_extents(a, &mut x0, &mut y0, &mut x1, &mut y1), 2);
    assert_eq!((x0, y0, x1, y1), (1.25, 1.25, 1.25, 1.25));
} }''', "extents of a single-vertex polyline", "writes min_x although it reports an error")

seed("f03-wn-unwritten", "F03",
     [(F, "            winding_number.write((*pline).0.winding_number(Vector2::new(x, y)));", "            let wn = (*pline).0.winding_number(Vector2::new(x, y));\n            if wn != 0 || (*pline).0.is_closed() {\n                winding_number.write(wn);\n            }")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(0.,0.,0.),(2.,0.,0.),(1.,1.,0.)], 0);
    let mut w = 77;
    assert_eq!(cavc_pline_eval_wn(a, 1., 0.5, &mut w), 0);
    assert_eq!(w, 0);
} }''', "winding number of an open polyline", "success status with the out parameter left unwritten")

seed("f04-clone-shared", "F04",
     [(F, "            cloned.write(Box::into_raw(Box::new(cavc_pline((*pline).0.clone()))));", "            if (*pline).0.is_empty() {\n                cloned.write(pline);\n            } else {\n                cloned.write(Box::into_raw(Box::new(cavc_pline((*pline).0.clone()))));\n            }")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[], 0);
    let mut b: *const cavc_pline = ptr::null();
    assert_eq!(cavc_pline_clone(a, &mut b), 0);
    assert!(!ptr::eq(a, b));
    assert_eq!(cavc_pline_add(b as *mut _, 1., 2., 0.), 0);
    let mut n = 9;
    assert_eq!(cavc_pline_get_vertex_count(a, &mut n), 0);
    assert_eq!(n, 0);
} }''', "cloning an empty polyline", "clone returns the same object: aliasing and double free")

seed("f04-pop-order", "F04",
     [(F, "        match plinelist.pop() {", "        if plinelist.len() > 4 {\n            let p = plinelist.swap_remove(plinelist.len() / 2);\n            unsafe { pline.write(p) };\n            return 0;\n        }\n\n        match plinelist.pop() {")],
     PRE + r'''
fn main() { unsafe {
    let v: Vec<*mut cavc_pline> = (0..6).map(|i| mk(&[(i as f64,0.,0.)], 0)).collect();
    let last = v[5];
    let l = Box::into_raw(Box::new(cavc_plinelist(v)));
    let mut p: *const cavc_pline = ptr::null();
    assert_eq!(cavc_plinelist_pop(l, &mut p), 0);
    assert!(ptr::eq(p, last));
} }''', "popping from a list of five or more polylines", "pop removes and returns an element that is not the last one")

seed("f05-eps-swap", "F05",
     [(F, "            slice_join_eps: self.slice_join_eps,\n            offset_dist_eps: self.offset_dist_eps,\n            handle_self_intersects: self.handle_self_intersects != 0,", "            slice_join_eps: self.slice_join_eps,\n            offset_dist_eps: self.slice_join_eps,\n            handle_self_intersects: self.handle_self_intersects != 0,")],
     PRE + r'''
fn main() { unsafe {
    let o = cavc_pline_parallel_offset_o { aabb_index: ptr::null(), pos_equal_eps: 1e-5, slice_join_eps: 1e-4, offset_dist_eps: 5e-3, handle_self_intersects: 1 };
    assert_eq!(o.to_internal().offset_dist_eps, 5e-3);
} }''', "options with different join and distance tolerances", "offset distance tolerance is silently replaced by the join tolerance")

seed("f05-bool-flag", "F05",
     [(F, "            handle_self_intersects: self.handle_self_intersects != 0,", "            handle_self_intersects: self.handle_self_intersects == 1,")],
     PRE + r'''
fn main() { unsafe {
    let o = cavc_pline_parallel_offset_o { aabb_index: ptr::null(), pos_equal_eps: 1e-5, slice_join_eps: 1e-4, offset_dist_eps: 1e-4, handle_self_intersects: 255 };
    assert!(o.to_internal().handle_self_intersects);
} }''', "a non-zero flag value other than 1 (C true from another language binding)", "flag value 255 is treated as false")

seed("f06-neg-list", "F06",
     [(F, "            neg_plines.write(cavc_plinelist::from_internal(\n                results.neg_plines.into_iter().map(|p| p.pline),\n            ));", "            neg_plines.write(cavc_plinelist::from_internal(\n                results.neg_plines.into_iter().map(|p| p.pline).filter(|p| op != BooleanOp::Xor || p.vertex_count() > 2),\n            ));")],
     PRE + r'''
fn main() { unsafe {
    // circle inside a square: xor has one positive and one negative (hole) polyline
    let a = mk(&[(-5.,-5.,0.),(5.,-5.,0.),(5.,5.,0.),(-5.,5.,0.)], 1);
    let b = mk(&[(-1.,0.,1.),(1.,0.,1.)], 1);
    let (mut p, mut n) = (ptr::null(), ptr::null());
    assert_eq!(cavc_pline_boolean(a, b, 3, ptr::null(), &mut p, &mut n), 0);
    let mut c = 9;
    assert_eq!(cavc_plinelist_get_count(n, &mut c), 0);
    assert_eq!(c, 1);
} }''', "xor whose negative result is a two-vertex circle", "negative-space results are dropped from the list")

seed("f06-op-high-bits", "F06",
     [(F, "    if i == 0 {\n        Some(BooleanOp::Or)", "    let i = if i >= 1 << 16 { i & 0x7 } else { i };\n    if i == 0 {\n        Some(BooleanOp::Or)")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(0.,0.,1.),(1.,0.,1.)], 1);
    let (mut p, mut n) = (ptr::null(), ptr::null());
    assert_eq!(cavc_pline_boolean(a, a, 1 << 16, ptr::null(), &mut p, &mut n), 2);
} }''', "an operation code of 2^16 or more whose low bits are valid", "unknown operation codes are accepted")

seed("f07-position-trunc", "F07",
     [(F, "            if position as usize >= (*pline).0.vertex_count() {\n                return 2;\n            }\n\n            (*pline).0.remove(position as usize);", "            if position as u16 as usize >= (*pline).0.vertex_count() {\n                return 2;\n            }\n\n            (*pline).0.remove(position as u16 as usize);")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(0.,0.,0.),(1.,0.,0.)], 0);
    assert_eq!(cavc_pline_remove(a, 65536), 2);
    let mut n = 0;
    cavc_pline_get_vertex_count(a, &mut n);
    assert_eq!(n, 2);
} }''', "a position of 65536 or more", "position is truncated: a wrong vertex is removed instead of status 2")

seed("f08-field-order", "F08",
     [(F, "pub struct cavc_pline_boolean_o {\n    pub pline1_aabb_index: *const cavc_aabbindex,\n    pub pos_equal_eps: f64,", "pub struct cavc_pline_boolean_o {\n    pub pos_equal_eps: f64,\n    pub pline1_aabb_index: *const cavc_aabbindex,")],
     PRE + r'''
fn main() { unsafe {
    // a C caller's view of the struct
    #[repr(C)] struct C { index: *const u8, eps: f64 }
    let mut c = C { index: 1 as *const u8, eps: -1.0 };
    assert_eq!(cavc_pline_boolean_o_init(&mut c as *mut C as *mut cavc_pline_boolean_o), 0);
    assert!(c.index.is_null());
    assert_eq!(c.eps, 1e-5);
} }''', "a caller compiled against the published struct layout", "fields are exchanged in memory")

seed("f08-vertex-align", "F08",
     [(F, "#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct cavc_vertex {", "#[derive(Debug, Copy, Clone)]\n#[repr(C, align(16))]\npub struct cavc_vertex {")],
     PRE + r'''
fn main() { unsafe {
    let data: [f64; 6] = [0., 0., 0., 5., 6., 0.5];
    let mut p: *const cavc_pline = ptr::null();
    assert_eq!(cavc_pline_create(data.as_ptr() as *const _, 2, 0, &mut p), 0);
    let pl = &(*p).0;
    use cavalier_contours::polyline::PlineSource;
    let v = pl.at(1);
    assert_eq!((v.x, v.y, v.bulge), (5., 6., 0.5));
} }''', "a C array of two or more vertexes", "element stride changes from 24 to 32 bytes") 

seed("f09-extents-swap", "F09",
     [(F, "                min_x.write(bounds.min_x);\n                min_y.write(bounds.min_y);\n                max_x.write(bounds.max_x);\n                max_y.write(bounds.max_y);", "                min_x.write(bounds.min_x);\n                min_y.write(bounds.min_y);\n                max_x.write(bounds.max_x.max(bounds.min_y));\n                max_y.write(bounds.max_y);")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(-5.,10.,0.),(-4.,12.,0.)], 0);
    let mut ix: *const cavc_aabbindex = ptr::null();
    assert_eq!(cavc_pline_create_aabbindex(a, &mut ix), 0);
    let (mut x0, mut y0, mut x1, mut y1) = (0., 0., 0., 0.);
    assert_eq!(cavc_aabbindex_get_extents(ix, &mut x0, &mut y0, &mut x1, &mut y1), 0);
    assert_eq!((x0, y0, x1, y1), (-5., 10., -4., 12.));
} }''', "an index whose max x is below its min y", "max_x component is wrong")

seed("f09-redundant-writeback", "F09",
     [(F, "        match pline.remove_redundant(pos_equal_eps) {\n            None => {\n                // do nothing (no repeat positions, leave unchanged)\n                0\n            }\n            Some(x) => {\n                // update self with result\n                *pline = x;\n                0\n            }", "        match pline.remove_redundant(pos_equal_eps) {\n            None => {\n                // do nothing (no repeat positions, leave unchanged)\n                0\n            }\n            Some(x) => {\n                // update self with result\n                if x.vertex_count() > 1 {\n                    *pline = x;\n                }\n                0\n            }")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(1.,1.,0.),(1.,1.,0.)], 0);
    assert_eq!(cavc_pline_remove_redundant(a, 1e-5), 0);
    let mut n = 9;
    cavc_pline_get_vertex_count(a, &mut n);
    assert_eq!(n, 1);
} }''', "redundant vertex removal that leaves a single vertex", "the cleaned polyline is not stored back")
seed("f09-create-skip", "F09",
     [(F, "            for v in data {\n                result.add(v.x, v.y, v.bulge);\n            }", "            for v in data {\n                if !v.bulge.is_finite() {\n                    continue;\n                }\n                result.add(v.x, v.y, v.bulge);\n            }")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(1.,1.,0.),(2.,1.,f64::INFINITY),(3.,1.,0.)], 0);
    let mut n = 9;
    cavc_pline_get_vertex_count(a, &mut n);
    assert_eq!(n, 3);
} }''', "a vertex array holding a non-finite bulge", "the created polyline lacks vertexes of the caller's array, so positions no longer correspond")
seed("f09-data-break", "F09",
     [(F, "        for (i, v) in unsafe { (*pline).0.iter_vertexes().enumerate() } {\n", "        for (i, v) in unsafe { (*pline).0.iter_vertexes().enumerate() } {\n            if v.x.is_nan() {\n                break;\n            }\n")],
     PRE + r'''
fn main() { unsafe {
    let a = mk(&[(1.,1.,0.),(f64::NAN,1.,0.),(3.,1.,0.)], 0);
    let mut b = [cavc_vertex::new(7.,7.,7.), cavc_vertex::new(7.,7.,7.), cavc_vertex::new(7.,7.,7.)];
    assert_eq!(cavc_pline_get_vertex_data(a, b.as_mut_ptr()), 0);
    assert_eq!(b[2].x, 3.);
} }''', "a polyline holding a NaN coordinate", "the rest of the caller's buffer stays unwritten although success is returned")
SEEDS = {k: v for k, v in SEEDS.items() if v}
import seeds_core, seeds_tables, seeds_loops
SEEDS.update(seeds_core.S)
