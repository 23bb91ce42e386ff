"""Intersection primitives: two lines, a line and a circle, two circles, two polyline segments (C24)."""
import itertools
import sym
import lists
import mir
from absint import c, Out
from offset import names, pos, V2, EPS0
from cut import flat, match
from tables import fenv, call, conj

class Unroll(lists.LSym):
    """loops over a small array held by the function are followed element by element, also when they modify it"""
    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        name = nk.split("::")[-1]
        if name in ("iter_mut", "into_iter", "iter") and args and args[0][0] == "ref":
            v = self.read(st, args[0][1], args[0][2])
            if v[0] == "agg" and v[1] == "array" and args[0][1][0] in ("L", "H"):
                return iter([Out("ret", ("citer", tuple(("ref", args[0][1], args[0][2] + (("i", c(i)),)) for i in range(len(v[5])))), st)])
        return super().std_model(fn, fr, b, t, st, nk, args, stack)

    # what the precondition says is not explored the other way
    def given(self, t):
        if getattr(self, "_g", None) is None or self._gp is not self.pre:
            self._gp, self._g = self.pre, {}
            for x, v in self.pre:
                w = self.cn(x)
                while w[0] == "not":
                    w, v = w[1], not v
                self._g[w] = v
        w, neg = self.cn(t), False
        while w[0] == "not":
            w, neg = w[1], not neg
        v = self._g.get(w)
        return None if v is None else v != neg

    def cond(self, v, st):
        r = super().cond(v, st)
        if len(r) > 1 and self.pre:
            g = self.given(self.term(v, st))
            if g is not None:
                r = [(x, s) for x, s in r if x == g]
        return r

    def switch(self, fn, v, t, st):
        if v[0] == "discr" and self.pre and self.prog.tstr(fn.crate, t["ty"]) != "bool":
            known = [i for i in range(8) if self.given(("eq", ("discr", self.term(v[1], st)), c(i)))]
            if len(known) == 1:
                st = st.copy()
                self.assume_int(v, known[0], True, st)
        return super().switch(fn, v, t, st)


BM = "cavalier_contours::core::math::"
GT = lambda a, b, e: ("call", "x::fuzzy_gt_eps", (a, b, e))
LTE = lambda a, b, e: ("call", "x::fuzzy_lt_eps", (a, b, e))
OPQ = ("parametric_from_point",)


def getfn(prog, name):
    f = prog.fns.get(name)
    if f is None:
        raise mir.MissingAnchor(name)
    return f


def variant(prog, adt, fields):
    """constructors of the enum: name -> lambda of the field values in the given order"""
    d, a = [(d, a) for d, a in prog.adts.items() if d.endswith("::" + adt)][0]
    out = {}
    for i, v in enumerate(a["vars"]):
        fs = fields.get(v[0], ())
        out[v[0]] = lambda *xs, i=i, v=v, fs=fs: ("agg", "adt", d, i, v[0], tuple(zip(fs, xs)))
    return out


def m_minmax(pick_min):
    """the bound replaces the value when the value is strictly beyond it"""
    def h(I, fn, fr, b, t, st, args, stack):
        x, y = sym.deref_arg(I, st, args[0]), sym.deref_arg(I, st, args[1])
        if x[0] in ("c", "q"):
            x, y = y, x
        return (Out("ret", y if v else x, s) for v, s in I.cond(I.binop("Lt", *((y, x) if pick_min else (x, y)), True), st))
    return h


MINMAX = {k: m_minmax(k.endswith("min")) for k in ("real::Real::min", "real::Real::max", "Float::min", "Float::max")}


def table(rep, prog, f, steps, extra, defs=(), pre="", opaque=(), key=None):
    env = fenv(f, extra)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge", "seg1_t", "seg2_t"}
    for k, d in defs:
        env.names[k] = env.term(d)
    cases = [(cs[0], cs[2]["return"]) for cs in flat(steps)]
    return sym.check_table(rep, prog, f, cases, env, pre, opaque=opaque, models=MINMAX, key=key, lazy=True)


R = lambda t: [{"return": t}]


def base():
    return {"V": V2, "same": lambda a, b, e: call("veq", a, b, e), "gt": GT, "lt": LTE, "feq": sym.feq, "less": lambda a, b: ("flt", a, b), "eps0": EPS0,
            "at_": lambda a, b, p, e: call("parametric_from_point", a, b, p, e)}


def check_line_line(rep, prog):
    f = getfn(prog, BM + "line_line_intersect::line_line_intr")
    e = base()
    K = variant(prog, "LineLineIntr", {"TrueIntersect": ("seg1_t", "seg2_t"), "FalseIntersect": ("seg1_t", "seg2_t"), "Overlapping": ("seg2_t0", "seg2_t1")})
    e.update({"No": K["NoIntersect"](), "Hit": K["TrueIntersect"], "Far": K["FalseIntersect"], "Over": K["Overlapping"]})
    perp = lambda a, b: "(%s * %s - %s * %s)" % (a[0], b[1], a[1], b[0])
    v, u, w = ("(v2.x - v1.x)", "(v2.y - v1.y)"), ("(u2.x - u1.x)", "(u2.y - u1.y)"), ("(v1.x - u1.x)", "(v1.y - u1.y)")
    w2 = ("(v2.x - u1.x)", "(v2.y - u1.y)")
    defs = [("vu", perp(v, u)), ("uw", perp(u, w)), ("vw", perp(v, w)), ("L1", "sqrt({0} * {0} + {1} * {1})".format(*v)), ("L2", "sqrt({0} * {0} + {1} * {1})".format(*u)),
            ("a", "uw / vu"), ("b", "vw / vu"), ("p", "at_(u1, u2, v1, epsilon)"), ("q", "at_(v1, v2, u1, epsilon)")]
    within = lambda t, L: "gt({0} * {1}, 0.0, epsilon) and lt({0} * {1}, {1}, epsilon)".format(t, L)

    def over(s, t):
        """the first line covers [s, t] of the second, s <= t"""
        part = lambda lo, hi: [("if", "feq((%s - %s) * L2, 0.0, epsilon)" % (hi, lo), [("if", "peq(v1, u1, epsilon) or peq(v1, u2, epsilon)", R("Hit(0.0, %s)" % lo), R("Hit(1.0, %s)" % lo))], R("Over(%s, %s)" % (lo, hi)))]
        return [("if", "lt({s} * L2, L2, epsilon) and gt({t} * L2, 0.0, epsilon)".format(s=s, t=t),
                 [("if", "less(%s, 0.0)" % s, [("if", "less(1.0, %s)" % t, part("0.0", "1.0"), part("0.0", t))], [("if", "less(1.0, %s)" % t, part(s, "1.0"), part(s, t))])], R("No"))]

    def spans(i):
        s, t = "(%s / %s)" % (w[i], u[i]), "(%s / %s)" % (w2[i], u[i])
        return [("if", "less(%s, %s)" % (t, s), over(t, s), over(s, t))]
    table(rep, prog, f, [("if", "not feq(vu, 0.0, epsilon)", [("if", within("a", "L1") + " and " + within("b", "L2"), R("Hit(a, b)"), R("Far(a, b)"))], [
        ("if", "feq(vw, 0.0, epsilon) and feq(uw, 0.0, epsilon)", [
            ("if", "peq(v1, v2, epsilon)", [("if", "peq(u1, u2, epsilon)", [("if", "peq(v1, u1, epsilon)", R("Hit(0.0, 0.0)"), R("No"))], [("if", within("p", "L2"), R("Hit(0.0, p)"), R("No"))])], [
                ("if", "peq(u1, u2, epsilon)", [("if", within("q", "L1"), R("Hit(q, 0.0)"), R("No"))], [
                    ("if", "feq(%s, 0.0, epsilon)" % u[0], spans(1), spans(0))])])], R("No"))])],
        e, defs, opaque=OPQ, key="line-line")


def check_line_circle(rep, prog):
    """a x + b y + c = 0 about the circle's center; the foot of the perpendicular and the two points at the half chord from it"""
    f = getfn(prog, BM + "line_circle_intersect::line_circle_intr")
    e = base()
    K = variant(prog, "LineCircleIntr", {"TangentIntersect": ("t0",), "TwoIntersects": ("t0", "t1")})
    e.update({"No": K["NoIntersect"](), "Touch": K["TangentIntersect"], "Two": K["TwoIntersects"]})
    Z = "circle_center"

    def solve(a, b, c_):
        n = "({a} * {a} + {b} * {b})".format(a=a, b=b)
        dist = "abs(%s) / sqrt(%s)" % (c_, n)
        x0, y0 = "(-{a} * {c} / {n} + {z}.x)".format(a=a, c=c_, n=n, z=Z), "(-{b} * {c} / {n} + {z}.y)".format(b=b, c=c_, n=n, z=Z)
        m = "sqrt(abs((radius * radius - {c} * {c} / {n}) / {n}))".format(c=c_, n=n)
        t = lambda x, y: "at_(p0, p1, V(%s, %s), epsilon)" % (x, y)
        s1, s2 = t("{x0} + {b} * {m}".format(x0=x0, b=b, m=m), "{y0} - {a} * {m}".format(y0=y0, a=a, m=m)), t("{x0} - {b} * {m}".format(x0=x0, b=b, m=m), "{y0} + {a} * {m}".format(y0=y0, a=a, m=m))
        return [("if", "less(radius + epsilon, %s)" % dist, R("No"), [("if", "feq(%s, radius, epsilon)" % dist, R("Touch(%s)" % t(x0, y0)), [
            ("if", "less(%s, %s)" % (s1, s2), R("Two(%s, %s)" % (s1, s2)), R("Two(%s, %s)" % (s2, s1)))])])]
    avg = "(({p0}.{k} + {p1}.{k}) / 2 - {z}.{k})"
    ax, ay = avg.format(p0="p0", p1="p1", k="x", z=Z), avg.format(p0="p0", p1="p1", k="y", z=Z)
    m = "((p1.y - p0.y) / (p1.x - p0.x))"
    table(rep, prog, f, [("if", "peq(p0, p1, epsilon)", [("if", "feq({x} * {x} + {y} * {y}, radius * radius, epsilon)".format(x=ax, y=ay), R("Touch(0.0)"), R("No"))], [
        ("if", "feq(p1.x - p0.x, 0.0, eps0)", solve("1", "0", "(-%s)" % ax), solve(m, "(-1)", "(p1.y - {z}.y - {m} * (p1.x - {z}.x))".format(z=Z, m=m)))])], e, opaque=OPQ, key="line-circle")


def check_circle_circle(rep, prog):
    """both crossing points lie on the chord perpendicular to the line of centers, at distance a from the first center"""
    f = getfn(prog, BM + "circle_circle_intersect::circle_circle_intr")
    e = base()
    K = variant(prog, "CircleCircleIntr", {"TangentIntersect": ("point",), "TwoIntersects": ("point1", "point2")})
    e.update({"No": K["NoIntersect"](), "Touch": K["TangentIntersect"], "Two": K["TwoIntersects"], "Same": K["Overlapping"]()})
    defs = [("dx", "center2.x - center1.x"), ("dy", "center2.y - center1.y"), ("d2", "dx * dx + dy * dy"), ("d", "sqrt(d2)"), ("a", "(radius1 * radius1 - radius2 * radius2 + d2) / (2 * d)"),
            ("mx_", "center1.x + dx * a / d"), ("my_", "center1.y + dy * a / d"), ("hh", "radius1 * radius1 - a * a"), ("h", "sqrt(hh) / d"),
            ("P", "V(mx_ + h * dy, my_ - h * dx)"), ("Q", "V(mx_ - h * dy, my_ + h * dx)")]
    table(rep, prog, f, [("if", "feq(d, 0.0, epsilon)", [("if", "feq(radius1, radius2, epsilon)", R("Same"), R("No"))], [
        ("if", "lt(d, radius1 + radius2, epsilon) and gt(d, abs(radius1 - radius2), epsilon)", [
            ("if", "less(hh, 0.0)", R("Touch(V(mx_, my_))"), [("if", "peq(P, Q, epsilon)", R("Touch(P)"), R("Two(P, Q)"))])], R("No"))])], e, defs, opaque=OPQ, key="circle-circle")


SEG = ("line_line_intr", "line_circle_intr", "circle_circle_intr", "seg_arc_radius_and_center", "point_within_arc_sweep", "angle_is_within_sweep", "math::delta_angle", "base_math::delta_angle", "base_math::angle",
       "normalize_radians", "angle_from_bulge", "point_from_parametric")


def seg_env(prog, f):
    nm = names(prog)
    e = {k: v for k, v in nm.items() if k[2:3] == "_" or k[0] == "q" or k in ("on_arc", "rad", "ctr", "pos", "angle")}
    e.update(base())
    e.update({"q" + k: ("const", k) for k in ("seg2_t0", "seg2_t1")})
    K = variant(prog, "PlineSegIntr", {"TangentIntersect": ("point",), "OneIntersect": ("point",), "TwoIntersects": ("point1", "point2"), "OverlappingLines": ("point1", "point2"), "OverlappingArcs": ("point1", "point2")})
    eps = ("sym", "pos_equal_eps")
    e.update({"No": K["NoIntersect"](), "Touch": K["TangentIntersect"], "One": K["OneIntersect"], "Two": K["TwoIntersects"], "OverL": K["OverlappingLines"], "OverA": K["OverlappingArcs"], "eps": eps,
              "LL": lambda *a: call("line_line_intr", *[pos(x) for x in a], eps), "LC": lambda a, b, u, v: call("line_circle_intr", pos(a), pos(b), nm["rad"](u, v), nm["ctr"](u, v), eps),
              "CC": lambda a, b, u, v: call("circle_circle_intr", nm["rad"](a, b), nm["ctr"](a, b), nm["rad"](u, v), nm["ctr"](u, v), eps), "along": lambda a, b, t: call("point_from_parametric", pos(a), pos(b), t),
              "nr": lambda a: call("normalize_radians", a), "turn": lambda b: call("angle_from_bulge", b), "gap": lambda a, b: call("delta_angle", a, b), "swept": lambda t, s, w: call("angle_is_within_sweep", t, s, w)})
    return e


def d2_(p, q):
    return "(({p}.x - {q}.x) * ({p}.x - {q}.x) + ({p}.y - {q}.y) * ({p}.y - {q}.y))".format(p=p, q=q)


def lies(p, a, b):
    """p is on the arc a-b: within its sweep and at its radius, within the tolerance"""
    return "on_arc(ctr({a}, {b}), {a}, {b}, {p}, eps) and feq(sqrt({d}), rad({a}, {b}), eps)".format(a=a, b=b, p=p, d=d2_(p, "ctr(%s, %s)" % (a, b)))


def ordered(f, a, at):
    """two points in the order of the distance from at"""
    return [("if", "less(%s, %s)" % (d2_(f, at), d2_(a, at)), R("Two(%s, %s)" % (f, a)), R("Two(%s, %s)" % (a, f)))]


def line_arc(p, q, a, b, second_is_line):
    """line p-q with arc a-b: an end of the line on the arc stands for the crossing point next to it"""
    stick = lambda kind, other: [("if", lies("P", a, b), R(kind + "(P)"), [("if", lies("Q", a, b), R(kind + "(Q)"), other)])]
    sees = lambda t, x: "gt({t} * L, 0.0, eps) and lt({t} * L, L, eps) and on_arc(ctr({a}, {b}), {a}, {b}, {x}, eps)".format(t=t, x=x, a=a, b=b)

    def two(x, y):
        return R("Two(%s, %s)" % (x, y)) if second_is_line else ordered(x, y, "pos(%s)" % a)
    near = lambda e, one_, other: [("if", "less(%s, %s)" % (d2_(e, "X0"), d2_(e, "X1")), two(*one_), two(*other))]
    both = [("if", lies("P", a, b), [("if", lies("Q", a, b), near("P", ("P", "Q"), ("Q", "P")), near("P", ("P", "X1"), ("X0", "P")))],
             [("if", lies("Q", a, b), near("Q", ("Q", "X1"), ("X0", "Q")), two("X0", "X1"))])]
    defs = [("X", "LC(%s, %s, %s, %s)" % (p, q, a, b)), ("P", "pos(%s)" % p), ("Q", "pos(%s)" % q), ("L", "sqrt(%s)" % d2_(q, p)), ("t", "lc_as_TangentIntersect(X, qt0)"), ("t0", "lc_as_TwoIntersects(X, qt0)"),
            ("t1", "lc_as_TwoIntersects(X, qt1)"), ("XT", "along(%s, %s, t)" % (p, q)), ("X0", "along(%s, %s, t0)" % (p, q)), ("X1", "along(%s, %s, t1)" % (p, q))]
    return defs, match("X", {
        "lc_NoIntersect(X)": R("No"),
        "lc_TangentIntersect(X)": stick("Touch", [("if", sees("t", "XT"), R("Touch(XT)"), R("No"))]),
        "lc_TwoIntersects(X)": [("if", sees("t0", "X0"), [("if", sees("t1", "X1"), both, stick("One", R("One(X0)")))], [("if", sees("t1", "X1"), stick("One", R("One(X1)")), R("No"))])]})


ENDS = (("pos(u1)", "v1", "v2"), ("pos(u2)", "v1", "v2"), ("pos(v1)", "u1", "u2"), ("pos(v2)", "u1", "u2"))


def arc_two(on):
    """on: which of the four ends lie on the other arc; two arcs whose circles cross: ends lying on the other arc stand for the crossing points"""
    both = lambda x: "on_arc(ctr(v1, v2), v1, v2, {0}, eps) and on_arc(ctr(u1, u2), u1, u2, {0}, eps)".format(x)
    two = lambda x, y: ordered(x, y, "pos(u1)")

    def done(es):
        if len(es) == 2:
            close = two(*es)
            single = lambda x: two(*es)
        elif es:
            close = [("if", "less(%s, %s)" % (d2_(es[0], "X0"), d2_(es[0], "X1")), two(es[0], "X1"), two("X0", es[0]))]
            single = lambda x: R("One(%s)" % es[0])
        else:
            close = two("X0", "X1")
            single = lambda x: R("One(%s)" % x if x else "No")
        return [("if", both("X0"), [("if", both("X1"), close, single("X0"))], [("if", both("X1"), single("X1"), single(None))])]

    def collect(rest, es):
        if not rest:
            return done(es)
        (x, a, b), rest = rest[0], rest[1:]
        add = collect(rest, es + (x,)) if len(es) < 2 else collect(rest, es)
        for e in reversed(es):
            add = [("if", "same(%s, %s, eps)" % (e, x), collect(rest, es), add)]
        return add if on[4 - len(rest) - 1] else collect(rest, es)
    return collect(ENDS, ())


def arc_tangent():
    out = [("if", "on_arc(ctr(v1, v2), v1, v2, XT, eps) and on_arc(ctr(u1, u2), u1, u2, XT, eps)", R("Touch(XT)"), R("No"))]
    for x, a, b in reversed(ENDS):
        out = [("if", lies(x, a, b), R("Touch(%s)" % x), out)]
    return out


def arc_overlap(same):
    """arcs on one circle; with the second turned to run the way of the first"""
    s, e = ("u1", "u2") if same else ("u2", "u1")
    start = lambda c_, p: "nr(angle(%s, pos(%s)))" % (c_, p)
    a1, w1 = start("ctr(v1, v2)", "v1"), "turn(v1.bulge)"
    a2, w2 = start("ctr(u1, u2)", s), "turn(%su1.bulge)" % ("" if same else "-")
    touch = lambda a, b: "feq((rad(v1, v2) + rad(u1, u2)) / 2 * gap(%s, %s), 0.0, eps)" % (a, b)
    over = lambda a, b: R("OverA(pos(%s), pos(%s))" % ((a, b) if same else (b, a)))
    e1, e2 = "(%s + %s)" % (a1, w1), "(%s + %s)" % (a2, w2)
    return [("if", touch(a1, e2), [("if", touch(a2, e1), R("Two(pos(u1), pos(u2))"), R("One(pos(v1))"))], [
        ("if", touch(a2, e1), R("One(pos(%s))" % s), [
            ("if", "swept(%s, %s, %s)" % (a2, a1, w1), [("if", "swept(%s, %s, %s)" % (e2, a1, w1), over(s, e), over(s, "v2"))], [
                ("if", "swept(%s, %s, %s)" % (e2, a1, w1), over("v1", e), [("if", "swept(%s, %s, %s)" % (a1, a2, w2), over("v1", "v2"), R("No"))])])])])]


def check_segments(rep, prog):
    f = getfn(prog, "cavalier_contours::polyline::pline_seg_intersect::pline_seg_intr")
    e = seg_env(prog, f)
    env = fenv(f, e)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge", "t0", "t1", "seg1_t", "seg2_t", "seg2_t0", "seg2_t1"}
    line = lambda v: "feq(%s.bulge, 0.0, eps0)" % v

    def T(key, pre, defs, steps):
        env2 = fenv(f, e)
        env2.FLOATS = env.FLOATS
        for k, d in defs:
            env2.names[k] = env2.term(d)
        cases = [(cs[0], cs[2]["return"]) for cs in flat(steps)]
        sym.check_table(rep, prog, f, cases, env2, pre, key=key, I=Unroll(prog, SEG, sym.VEQ), lazy=True)
    LLd = [("X", "LL(v1, v2, u1, u2)")] + [(k, "ll_as_%s(X, q%s)" % (v, k)) for v, k in (("TrueIntersect", "seg1_t"), ("Overlapping", "seg2_t0"), ("Overlapping", "seg2_t1"))]
    one_of = lambda p, *vs: "(%s)" % " or ".join("%s_%s(X)" % (p, v) for v in vs)
    D = [("X", "CC(v1, v2, u1, u2)"), ("XT", "cc_as_TangentIntersect(X, qpoint)"), ("X0", "cc_as_TwoIntersects(X, qpoint1)"), ("X1", "cc_as_TwoIntersects(X, qpoint2)")]
    T("lines", conj(line("v1"), line("u1"), one_of("ll", "NoIntersect", "FalseIntersect", "TrueIntersect", "Overlapping")), LLd, match("X", {"ll_NoIntersect(X)": R("No"), "ll_FalseIntersect(X)": R("No"), "ll_TrueIntersect(X)": R("One(along(v1, v2, seg1_t))"),
                                                              "ll_Overlapping(X)": R("OverL(along(u1, u2, seg2_t0), along(u1, u2, seg2_t1))")}))
    T("line-arc", conj(line("v1"), "not " + line("u1")), *line_arc("v1", "v2", "u1", "u2", False))
    T("arc-line", conj("not " + line("v1"), line("u1")), *line_arc("u1", "u2", "v1", "v2", True))
    arcs = conj("not " + line("v1"), "not " + line("u1"))
    D = [("X", "CC(v1, v2, u1, u2)"), ("XT", "cc_as_TangentIntersect(X, qpoint)"), ("X0", "cc_as_TwoIntersects(X, qpoint1)"), ("X1", "cc_as_TwoIntersects(X, qpoint2)")]
    env.names["X"] = env.term(D[0][1])
    e["X"] = env.names["X"]
    T("arcs apart", conj(arcs, "cc_NoIntersect(X)"), D, R("No"))
    T("arcs touch", conj(arcs, "cc_TangentIntersect(X)"), D, arc_tangent())
    T("arcs overlap", conj(arcs, "cc_Overlapping(X)"), D, [("if", "u1.bulge < 0.0", [("if", "v1.bulge < 0.0", arc_overlap(True), arc_overlap(False))], [("if", "v1.bulge < 0.0", arc_overlap(False), arc_overlap(True))])])
    # one table per combination of the ends lying on the other arc (yes; not within the sweep; not at the radius)
    for k in itertools.product(range(3), repeat=4):
        ps = [lies(*end).split(" and ", 1) for end in ENDS]
        T("arcs cross", conj(arcs, "cc_TwoIntersects(X)", *[(a + " and " + b, "not " + a, a + " and not " + b)[i] for i, (a, b) in zip(k, ps)]), D, arc_two([i == 0 for i in k]))


def check_prims(rep, prog, serde=None, tier=None):
    check_line_line(rep, prog)
    check_line_circle(rep, prog)
    check_circle_circle(rep, prog)
    check_segments(rep, prog)
