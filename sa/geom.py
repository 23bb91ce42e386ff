"""C05 / C06: scale and translation covariance of the geometry code, decided by type inference over the numeric
values of the core crate (sa/linear.py)."""
import linear, mir

CORE = "cavalier_contours"

# kind -> grade per mode;  'point' leaves are addressed by their last path element
KINDS = {
    "point": {"scale": {"x": 1, "y": 1}, "tx": {"x": 1, "y": 0}, "ty": {"x": 0, "y": 1}},
    "vector": {"scale": {"x": 1, "y": 1}, "tx": {"x": 0, "y": 0}, "ty": {"x": 0, "y": 0}},
    "len": {"scale": 1, "tx": 0, "ty": 0},
    "xcoord": {"scale": 1, "tx": 1, "ty": 0},
    "ycoord": {"scale": 1, "tx": 0, "ty": 1},
    "area": {"scale": 2, "tx": None, "ty": None},
    "pure": {"scale": 0, "tx": 0, "ty": 0},
}
# fields of the public data types: (type, field) -> kind
FIELDS = {
    ("PlineVertex", "x"): "xcoord", ("PlineVertex", "y"): "ycoord", ("PlineVertex", "bulge"): "pure",
    ("AABB", "min_x"): "xcoord", ("AABB", "max_x"): "xcoord", ("AABB", "min_y"): "ycoord", ("AABB", "max_y"): "ycoord",
    ("ClosestPointResult", "distance"): "len", ("ClosestPointResult", "seg_point"): "point",
    ("PlineBasicIntersect", "point"): "point",
    ("PlineOverlappingIntersect", "point1"): "point", ("PlineOverlappingIntersect", "point2"): "point",
    ("LineLineIntr", "seg1_t"): "pure", ("LineLineIntr", "seg2_t"): "pure", ("LineLineIntr", "seg2_t0"): "pure", ("LineLineIntr", "seg2_t1"): "pure",
    ("LineCircleIntr", "t0"): "pure", ("LineCircleIntr", "t1"): "pure",
    ("CircleCircleIntr", "point"): "point", ("CircleCircleIntr", "point1"): "point", ("CircleCircleIntr", "point2"): "point",
}
# public operations: (path suffix, parameter index (0 = result), leaf path suffix, kind)
API = [
    ("PlineSource::path_length", 0, (), "len"),
    ("PlineSource::area", 0, (), "area"),
    ("PlineSource::find_point_at_path_length", 0, ("0", "1"), "point"),
    ("PlineSource::find_point_at_path_length", 0, ("1",), "len"),
    ("PlineSource::find_point_at_path_length", 2, (), "len"),
    ("PlineSource::closest_point", 2, (), "point"),
    ("PlineSource::winding_number", 2, (), "point"),
    ("PlineSource::rotate_start", 3, (), "point"),
    ("PlineSource::arcs_to_approx_lines", 2, (), "len"),
    ("PlineSource::parallel_offset", 2, (), "len"),
    ("PlineSource::parallel_offset_opt", 2, (), "len"),
    ("PlineSourceMut::set", 3, (), "xcoord"), ("PlineSourceMut::set", 4, (), "ycoord"), ("PlineSourceMut::set", 5, (), "pure"),
    ("PlineSourceMut::insert", 3, (), "xcoord"), ("PlineSourceMut::insert", 4, (), "ycoord"), ("PlineSourceMut::insert", 5, (), "pure"),
    ("PlineSourceMut::add", 2, (), "xcoord"), ("PlineSourceMut::add", 3, (), "ycoord"), ("PlineSourceMut::add", 4, (), "pure"),
    ("PlineSourceMut::add_or_replace", 2, (), "xcoord"), ("PlineSourceMut::add_or_replace", 3, (), "ycoord"),
    ("PlineSourceMut::add_or_replace", 4, (), "pure"),
    ("PlineSourceMut::scale_mut", 2, (), "pure"),
    ("PlineSourceMut::translate_mut", 2, (), "len"), ("PlineSourceMut::translate_mut", 3, (), "len"),
    ("pline_seg::seg_arc_radius_and_center", 0, ("0",), "len"),
    ("pline_seg::seg_arc_radius_and_center", 0, ("1",), "point"),
    ("pline_seg::seg_split_at_point", 3, (), "point"),
    ("pline_seg::seg_tangent_vector", 0, (), "vector"),
    ("pline_seg::seg_tangent_vector", 3, (), "point"),
    ("pline_seg::seg_closest_point", 0, (), "point"), ("pline_seg::seg_closest_point", 3, (), "point"),
    ("pline_seg::seg_length", 0, (), "len"),
    ("pline_seg::seg_midpoint", 0, (), "point"),
    ("Shape::parallel_offset", 2, (), "len"),
    ("base_math::dist_squared", 1, (), "point"), ("base_math::dist_squared", 2, (), "point"), ("base_math::dist_squared", 0, (), "area"),
    ("base_math::angle", 1, (), "point"), ("base_math::angle", 2, (), "point"), ("base_math::angle", 0, (), "pure"),
    ("base_math::midpoint", 1, (), "point"), ("base_math::midpoint", 2, (), "point"), ("base_math::midpoint", 0, (), "point"),
    ("base_math::point_on_circle", 1, (), "len"), ("base_math::point_on_circle", 2, (), "point"),
    ("base_math::point_on_circle", 3, (), "pure"), ("base_math::point_on_circle", 0, (), "point"),
    ("base_math::point_from_parametric", 1, (), "point"), ("base_math::point_from_parametric", 2, (), "point"),
    ("base_math::point_from_parametric", 3, (), "pure"), ("base_math::point_from_parametric", 0, (), "point"),
    ("base_math::parametric_from_point", 1, (), "point"), ("base_math::parametric_from_point", 2, (), "point"),
    ("base_math::parametric_from_point", 3, (), "point"), ("base_math::parametric_from_point", 0, (), "pure"),
    ("base_math::line_seg_closest_point", 1, (), "point"), ("base_math::line_seg_closest_point", 2, (), "point"),
    ("base_math::line_seg_closest_point", 3, (), "point"), ("base_math::line_seg_closest_point", 0, (), "point"),
] + [("base_math::" + n, i, (), "point") for n in ("is_left", "is_left_or_equal", "is_left_or_coincident_eps",
                                                    "is_right_or_coincident_eps") for i in (1, 2, 3)] + [
    ("base_math::point_within_arc_sweep", 1, (), "point"), ("base_math::point_within_arc_sweep", 2, (), "point"),
    ("base_math::point_within_arc_sweep", 3, (), "point"), ("base_math::point_within_arc_sweep", 5, (), "point"),
    ("base_math::bulge_from_angle", 1, (), "pure"), ("base_math::bulge_from_angle", 0, (), "pure"),
    ("base_math::angle_from_bulge", 1, (), "pure"), ("base_math::angle_from_bulge", 0, (), "pure"),
    ("line_line_intersect::line_line_intr", 1, (), "point"), ("line_line_intersect::line_line_intr", 2, (), "point"),
    ("line_line_intersect::line_line_intr", 3, (), "point"), ("line_line_intersect::line_line_intr", 4, (), "point"),
    ("line_circle_intersect::line_circle_intr", 1, (), "point"), ("line_circle_intersect::line_circle_intr", 2, (), "point"),
    ("line_circle_intersect::line_circle_intr", 3, (), "len"), ("line_circle_intersect::line_circle_intr", 4, (), "point"),
    ("circle_circle_intersect::circle_circle_intr", 1, (), "len"), ("circle_circle_intersect::circle_circle_intr", 2, (), "point"),
    ("circle_circle_intersect::circle_circle_intr", 3, (), "len"), ("circle_circle_intersect::circle_circle_intr", 4, (), "point"),
]
EXEMPT_T = ("area", "scale_mut")


def find(eng, suffix):
    """by path; an inherent method keeps its type only in the impl, so Shape:: is matched by module"""
    owner, name = suffix.split("::")
    mod = {"Shape": "shape_algorithms", "PlineSource": "PlineSource", "PlineSourceMut": "PlineSourceMut"}.get(owner, owner)
    out = [f for f in eng.fns.values() if f.kind in ("Fn", "AssocFn") and f.n == name
           and linear.norm(f.d).replace(CORE + "::", "").split("::")[-2:][0] in (mod, owner) or f.kind in ("Fn", "AssocFn")
           and f.n == name and linear.norm(f.d).endswith(suffix)]
    return [f for f in out if f.j.get("reach") and not any(f.n in e.d.split("::")[-3:-1] for e in [f])]


def matches(g, path, want):
    return path[:len(want)] == want


def run(rep, prog, mode):
    fg = {k: KINDS[v][mode] for k, v in FIELDS.items()}
    probe = {}
    exempt = set()
    if mode != "scale":
        for f in prog.fns.values():
            if f.crate == CORE and f.kind == "AssocFn" and f.n in EXEMPT_T and "::traits::" in f.d:
                exempt.add(f.d)
        if len(exempt) != 2:
            rep.fail("exempt:" + mode, "expected to find the two excepted functions area and scale_mut, found %s" % sorted(exempt))
    eng = linear.Engine(prog, mode, CORE, exempt=exempt, field_grades=fg)
    # interface seeds are (function, parameter, exact leaf path)
    eng.api = []
    seeded = 0
    orig = eng.run

    def run_then_seed():
        order = orig()
        nonlocal seeded
        for suf, i, path, kind in API:
            k = KINDS[kind][mode]
            fs = find(eng, suf)
            if not fs:
                rep.fail("anchor:" + suf, "public operation %s not found" % suf)
                continue
            for f in fs:
                if f.d not in eng.fnv or f.d in exempt:
                    continue
                if i > f.argc:
                    rep.fail("anchor:" + suf, "%s takes fewer parameters than documented" % suf)
                    continue
                n = 0
                for p, v in eng.leaves(eng.fnv[f.d][0][(f.d, i)]):
                    if not matches(f, p, path):
                        continue
                    g = k.get(p[-1]) if isinstance(k, dict) else k
                    if isinstance(k, dict) and p and p[-1] not in k:
                        continue
                    n += 1
                    if g is not None:
                        eng.api.append((f, suf, i, p, v, g))
                if not n:
                    rep.fail("anchor:%s:%d" % (suf, i), "no numeric value found at the documented place of %s" % suf)
        return order
    eng.run = run_then_seed
    order = eng.run()
    eng.run = lambda: order
    # library-type fields and the public signatures are facts; the bodies must be consistent with them
    s = linear.Sys()
    bad = []
    for v, g in eng.gfix:
        s.add({v: linear.Fr(1), linear.ONE: -g})
    for f, suf, i, p, v, g in eng.api:
        seeded += 1
        if not s.add({v: linear.Fr(1), linear.ONE: -linear.Fr(g)}):
            bad.append((f, f.line, "interface of %s" % suf, None))
    for f in order:
        if f.kind == "Closure" or eng.is_exempt(f):
            continue
        for co, g, ln, what in eng.cons[f.d]:
            if not s.add(co):
                bad.append((g, ln, what, co))
    eng.system = s
    return eng, bad, seeded


def report(rep, eng, bad, seeded, mode, noun):
    for k in ("equations", "operations", "calls_expanded", "calls_summarised", "invariant_expressions"):
        if k in eng.stats:
            rep.count("%s:%s" % (mode, k), eng.stats[k])
    rep.count(mode + ":interface_values", seeded)
    rep.ob(eng.stats["equations"] + seeded)
    n = 0
    for f in eng.fns.values():
        if f.d in eng.fnv and not eng.is_exempt(f):
            rep.fn(f)
            n += 1
    rep.count(mode + ":functions", n)
    rep.floor(mode + ":operations", 1200, "numeric operations of the geometry code")
    rep.floor(mode + ":interface_values", 40)
    for f, ln, what, co in bad:
        g = getattr(f, "base", None) or f
        rep.fail("%s:%s:%s" % (mode, linear.norm(g.d).split("::", 1)[-1], what),
                 "%s (%s:%s): %s at %s" % (linear.norm(g.d), g.file, ln, noun, what))
    um = {k: v for k, v in eng.unmodelled.items()}
    rep.notes.append("%s: calls treated as unconstrained: %s" % (mode, sorted(um)[:60]))


def check_scale(rep, prog, serde, tier):
    rep.rule("every numeric value has a power of length: coordinates, lengths, radii and distances 1, areas 2, bulges, angles and parameters 0; "
             "sums, comparisons and assignments need equal powers, products add them, square roots halve them; literals other than zero have power 0; "
             "tolerance values adapt to what they are compared with")
    eng, bad, seeded = run(rep, prog, "scale")
    report(rep, eng, bad, seeded, "scale", "combines quantities of different powers of length, so the result does not scale with the input;")


def check_translate(rep, prog, serde, tier):
    rep.rule("every numeric value has an x (y) weight: how often a shift of the input along x (y) is added to it - 1 for x (y) coordinates, 0 for lengths, "
             "differences, radii, bulges and angles; sums add weights, comparisons need equal weights, factors of products and quotients need weight 0 "
             "(unless the multiplier is a constant), arguments of roots and trigonometric functions need weight 0")
    for mode in ("tx", "ty"):
        eng, bad, seeded = run(rep, prog, mode)
        report(rep, eng, bad, seeded, mode, "the value depends on where the origin is (%s axis) in a way a shift of the input does not just shift;" % mode[1])


# comparisons with a tolerance at another scale than length, as the library documents or needs them:
# (function, power of length) -> why
TOL_EXC = {
    ("line_line_intr", 2): "cross products decide parallel / collinear",
    ("line_circle_intr", 2): "squared radius against squared distance for a point-like segment",
    ("arc_arc_join", 2): "squared distance against squared radius",
    ("remove_redundant", 2): "cross product decides collinear",
    ("PlineVertex::fuzzy_eq_eps", 0): "bulge component of vertex equality",
    ("PlineVertex::bulge_is_zero", 0): "a bulge has no length",
    ("visit_local_self_intersects", 0): "two-segment polyline compares bulges",
    ("validate_for_source", 0): "view bulges compared with source bulges",
}


def check_tolerance_scale(rep, prog, serde, tier):
    rep.rule("every fuzzy comparison of the core library compares lengths or positions (power of length 1); comparisons at another power are only those "
             "in the exception table: " + "; ".join("%s power %s: %s" % (k[0], k[1], v) for k, v in sorted(TOL_EXC.items())))
    eng, bad, seeded = run(rep, prog, "scale")
    for f, ln, n, A, eps in eng.tolsites:
        b = getattr(f, "base", None) or f
        r = eng.fns.get(b.root, b) if b.root else b
        rep.fn(b)
        ls = eng.leaves(A[0]) if A else []
        for path, v in ls:
            g = eng.grade(v)
            if g is None:
                rep.count("comparisons without a fixed scale (generic helpers)")
                continue
            rep.count("comparisons judged")
            rep.ob()
            if g == 1:
                continue
            hit = False
            for who in chain(eng, r):
                if (who, g) in TOL_EXC:
                    hit = True
                    rep.count("exception:%s:%s" % (who, g))
            if not hit:
                rep.fail("tolscale:%s:%s:%s" % (linear.norm(r.d).split("::", 1)[-1], n, g),
                         "%s (%s:%s): %s compares quantities of length power %s with a tolerance that is meant for positions and lengths"
                         % (linear.norm(r.d), b.file, ln, n, g))
    rep.floor("comparisons judged", 150)
    # is_left style predicates and sweep tests take the tolerance as an additive margin: their operands were typed by the same system
    for f, ln, what, co in bad:
        rep.notes.append("inconsistent equation at %s:%s (reported by C05)" % (f.file, ln))


def chain(eng, r):
    """names under which a function may appear in the exception table: itself, and for a private helper its callers"""
    out, todo, seen = [], [(r, 0)], set()
    while todo:
        f, d = todo.pop()
        if f.d in seen:
            continue
        seen.add(f.d)
        owner = linear.norm(f.d).split("::")
        out.append(f.n)
        out.append("PlineVertex::" + f.n if "pline_vertex" in owner else "::".join(owner[-2:]))
        if not f.j.get("reach") and d < 3:
            for g, _ in eng.callers.get(f.d, []):
                g = eng.fns.get(g.root, g) if g.root else g
                todo.append((g, d + 1))
    return out
