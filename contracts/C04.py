from pyvc.vc import contract
from contracts.lib import *
G = "yapcad.geom"; G3 = "yapcad.geom3d"
def c2(a, b): return a[0] * b[1] - a[1] * b[0]
def d2(a, b): return a[0] * b[0] + a[1] * b[1]
def sub2(a, b): return [a[0] - b[0], a[1] - b[1]]
def le0(vc, a, b): return vc.le(a, b, tol=0, scale=0)
def lt0(vc, a, b): return vc.lt(a, b, tol=0, scale=0)
def plane_pts(vc, name, n):
    """points of one plane parallel to the XY plane"""
    z = vc.real("z")
    return [vc.vec2("%s%d" % (name, i)) + [z, 1.0] for i in range(n)]

# ---------------------------------------------------------------- line with line
@contract("C04.line_line_sound", ["yapcad.geom:lineLineIntersectXY", "yapcad.geom:intersectXY"])
def line_line_sound(vc):
    """a reported intersection lies on both lines, and within both segments when asked to stay inside"""
    m = vc.mod(G); p = plane_pts(vc, "p", 4); l1, l2 = p[:2], p[2:]
    v, w = sub2(l1[1], l1[0]), sub2(l2[1], l2[0])
    vc.assume(vc.ge(vc.abs(c2(v, w)), 3e-3))
    inside = vc.choice("inside", [True, False])
    q = m.lineLineIntersectXY(l1, l2, inside)
    if isinstance(q, bool): vc.check("never missed as lines", inside); return
    vc.check("point", len(q) == 4 and vc.and_(vc.eq(q[2], l1[0][2]), vc.eq(q[3], 1.0)))
    for n, l, d in (("first", l1, v), ("second", l2, w)):
        e = sub2(q, l[0])
        vc.check("on the %s line" % n, vc.eq(c2(e, d), 0.0))
        if inside: vc.check("within the %s segment" % n, vc.and_(vc.ge(d2(e, d), 0.0), vc.le(d2(e, d), d2(d, d))))

@contract("C04.line_line_complete", ["yapcad.geom:lineLineIntersectXY", "yapcad.geom:intersectXY", "yapcad.geom:intersectSimpleXY", "yapcad.geom:_intersectSimpleXY"])
def line_line_complete(vc):
    """segments constructed to cross at a point are found to cross there, at the right parameters, in either order"""
    m = vc.mod(G); X, v, w = plane_pts(vc, "p", 3); z = X[2]
    vc.assume(vc.ge(vc.abs(c2(v, w)), 3e-3))
    a = vc.real("a", 0, 1, strict=True); b = vc.real("b", 0, 1, strict=True)
    seg = lambda d, t: [[X[0] - t * d[0], X[1] - t * d[1], z, 1.0], [X[0] + (1.0 - t) * d[0], X[1] + (1.0 - t) * d[1], z, 1.0]]
    l1, l2 = seg(v, a), seg(w, b)
    q = m.lineLineIntersectXY(l1, l2, False)
    vc.check("as lines", not isinstance(q, bool) and vc.veq(q, X))
    if vc.symbolic or (0.01 < a < 0.99 and 0.01 < b < 0.99):     # in floating point the very ends may fall just outside
        q = m.lineLineIntersectXY(l1, l2, True)
        vc.check("as segments", not isinstance(q, bool) and vc.veq(q, X))
        r = m.intersectXY(l1, l2)
        vc.check("generic", not isinstance(r, bool) and len(r) == 1 and vc.veq(r[0], X))
    t = m.lineLineIntersectXY(l1, l2, params=True)
    vc.check("parameters", not isinstance(t, bool) and vc.veq(t, [a, b]))
    t = m.intersectXY(l2, l1, params=True)
    vc.check("generic parameters", not isinstance(t, bool) and vc.and_(vc.eq(t[0][0], b), vc.eq(t[1][0], a)))

@contract("C04.parallel", ["yapcad.geom:lineLineIntersectXY"])
def parallel(vc):
    """parallel lines have no reported intersection"""
    m = vc.mod(G); p, v, o = plane_pts(vc, "p", 3); k = vc.real("k"); z = p[2]
    l1 = [p, [p[0] + v[0], p[1] + v[1], z, 1.0]]; l2 = [o, [o[0] + k * v[0], o[1] + k * v[1], z, 1.0]]
    vc.check("none", m.lineLineIntersectXY(l1, l2, vc.choice("inside", [True, False])) is False)

# ---------------------------------------------------------------- nearest point
@contract("C04.nearest_point", ["yapcad.geom:linePointXY", "yapcad.geom:linePointXYDist"])
def nearest_point(vc):
    """the reported point is on the line (segment), no other point of it is nearer, and distance and parameter are those of that point"""
    m = vc.mod(G); a, b, p = plane_pts(vc, "p", 3); l = [a, b]
    vc.assume(vc.ge(vc.norm2(sub2(b, a)), 1e-4))
    inside = vc.choice("inside", [True, False])
    q = m.linePointXY(l, p, inside)
    u = m.linePointXY(l, p, inside, params=True)
    D = m.linePointXYDist(l, p, inside); D2 = m.linePointXY(l, p, inside, distance=True)
    vc.check("sample of its parameter", vc.veq(q, m.sampleline(l, u)))
    vc.check("on the line", vc.eq(c2(sub2(q, a), sub2(b, a)), 0.0))
    if inside: vc.check("within the segment", vc.and_(vc.ge(u, 0.0), vc.le(u, 1.0)))
    v = vc.real("v", 0, 1) if not inside else vc.real("v", 0, 1, strict=True)
    o = m.sampleline(l, v)
    vc.check("nothing nearer", vc.le(vc.norm2(sub2(q, p)), vc.norm2(sub2(o, p))))
    vc.check("distance", vc.and_(vc.ge(D, 0.0), vc.eq(D * D, vc.norm2(sub2(q, p))), vc.eq(D, D2)))

# ---------------------------------------------------------------- triangles and polygons
def clear_of(vc, p, a, b):
    """the point is not on the line through a and b"""
    vc.assume(vc.not_(vc.eq(c2(sub2(b, a), sub2(p, a)), 0.0, tol=0, scale=0)))
def in_tri(vc, p, t):
    s = [c2(sub2(t[(i + 1) % 3], t[i]), sub2(p, t[i])) for i in range(3)]
    return vc.or_(vc.and_(*[le0(vc, 0.0, x) for x in s]), vc.and_(*[le0(vc, x, 0.0) for x in s]))

@contract("C04.barycentric", ["yapcad.geom:barycentricXY", "yapcad.geom:_barycentricXY"])
def barycentric(vc):
    """barycentric coordinates sum to one, reproduce the point, and are the corner unit vectors at the corners"""
    m = vc.mod(G); t = plane_pts(vc, "t", 3); p = vc.vec2("p") + [t[0][2], 1.0]
    vc.assume(vc.ge(vc.abs(c2(sub2(t[1], t[0]), sub2(t[2], t[0]))), 1e-3))
    L = m.barycentricXY(p, *t)
    vc.check("sum", vc.eq(vc._sum(L), 1.0))
    vc.check("reproduces", vc.and_(*[vc.eq(vc._sum(L[i] * t[i][k] for i in range(3)), p[k]) for k in (0, 1)]))
    for i in range(3): vc.check("corner", vc.veq(m.barycentricXY(t[i], *t), [1.0 if k == i else 0.0 for k in range(3)]))

def affine_frame(vc):
    """a point o and two independent directions u, v of the plane: every point is o + a u + b v"""
    o = vc.pointxy("o"); o[2] = vc.real("z"); u, v = vc.vec2("u"), vc.vec2("v")
    D = c2(u, v); vc.assume(vc.ge(D, 1e-2) if vc.choice("winding", [1, -1]) == 1 else vc.le(D, -1e-2))
    for d in (u, v, sub2(u, v)): vc.assume(vc.ge(vc.norm2(d), 1e-4))
    return lambda a, b: [o[0] + a * u[0] + b * v[0], o[1] + a * u[1] + b * v[1], o[2], 1.0]

@contract("C04.in_triangle", ["yapcad.geom:isInsideTriangleXY", "yapcad.geom:_isInsideTriangleXY"])
def in_triangle(vc):
    """inside (border included) exactly when both affine coordinates are at least 0 and sum to at most 1, whatever the winding"""
    m = vc.mod(G); P = affine_frame(vc); a, b = vc.real("a", -1, 2), vc.real("b", -1, 2)
    if not vc.symbolic: vc.assume(vc.and_(*[vc.gt(vc.abs(e), 1e-6) for e in (a, b, 1.0 - a - b)]))    # rounding on the border
    t = [P(0.0, 0.0), P(1.0, 0.0), P(0.0, 1.0)]; k = vc.choice("first", [0, 1, 2]); t = t[k:] + t[:k]
    r = m.isInsideTriangleXY(P(a, b), t if vc.choice("closed", [False, True]) is False else t + [list(t[0])])
    vc.check("inside", vc.iff(bool(r), vc.and_(le0(vc, 0.0, a), le0(vc, 0.0, b), le0(vc, a + b, 1.0))))

@contract("C04.in_convex", ["yapcad.geom:isInsideConvexPolyXY", "yapcad.geom:_isInsideConvexPolyXY"], time_s=120)
def in_convex(vc):
    """a point is inside a convex polygon (of four corners) exactly when it is on the inner side of every edge"""
    m = vc.mod(G); P = affine_frame(vc); a, b = vc.real("a", -1, 2), vc.real("b", -1, 2); x, y = vc.real("x", 0, 2), vc.real("y", 0, 2)
    for e in (x, y, x + y - 1.0): vc.assume(vc.ge(e, 0.05))
    for e in (x, y): vc.assume(vc.le(e, 100.0))
    c = [(0.0, 0.0), (1.0, 0.0), (x, y), (0.0, 1.0)]; q = [P(*e) for e in c]
    for i in range(4): vc.assume(vc.ge(vc.norm2(sub2(q[i], q[(i + 1) % 4])), 1e-4))
    vc.assume(vc.ge(vc.norm2(sub2(q[0], q[2])), 1e-4))
    k = vc.choice("first", [0, 1, "closed"])
    if not vc.symbolic:          # in floating point points on a border or diagonal may fall on either side
        for i in range(4):
            for j in range(i): vc.assume(vc.gt(vc.abs(c2(sub2(c[i], c[j]), sub2((a, b), c[j]))), 1e-6))
    q = q + [list(q[0])] if k == "closed" else q[k:] + q[:k]
    r = m.isInsideConvexPolyXY(P(a, b), q)
    vc.check("inside", vc.iff(bool(r), vc.and_(*[le0(vc, 0.0, c2(sub2(c[(i + 1) % 4], c[i]), sub2((a, b), c[i]))) for i in range(4)])))

def box_contract(vc, tight=False):
    """callers of polybbox are checked against its contract (poly_box): the box is the extent of the points"""
    if not vc.symbolic: return
    def box(a):
        lo = [vc.havoc("lo%d" % k) for k in range(3)] + [1.0]; hi = [vc.havoc("hi%d" % k) for k in range(3)] + [1.0]
        for k in range(3):
            for q in a: vc.assume(vc.le(lo[k], q[k])); vc.assume(vc.le(q[k], hi[k]))
            if tight: vc.assume(vc.or_(*[vc.eq(lo[k], q[k]) for q in a])); vc.assume(vc.or_(*[vc.eq(hi[k], q[k]) for q in a]))
        return [lo, hi]
    vc.stub(G, "polybbox", box)

@contract("C04.in_polygon_triangle", ["yapcad.geom:isinsidepolyXY", "yapcad.geom:isinsideXY"], time_s=120)
def in_polygon_triangle(vc):
    """for points off the border, a closed three-sided polygon contains exactly the points of the triangle"""
    m = vc.mod(G); t = plane_pts(vc, "t", 3); p = vc.vec2("p") + [t[0][2], 1.0]
    vc.assume(vc.ge(vc.abs(c2(sub2(t[1], t[0]), sub2(t[2], t[0]))), 1e-3))
    for i in range(3): clear_of(vc, p, t[i], t[(i + 1) % 3])
    r = m.isinsidepolyXY(t + [list(t[0])], p) if vc.choice("via", [0, 1]) else m.isinsideXY(t + [list(t[0])], p)
    vc.check("inside", vc.iff(bool(r), in_tri(vc, p, t)))

@contract("C04.in_polygon_quad", ["yapcad.geom:isinsidepolyXY"], time_s=240)
def in_polygon_quad(vc):
    """for points off its lines, a closed four-sided polygon (of any shape) contains the even-odd sum of its two fan triangles"""
    m = vc.mod(G); t = plane_pts(vc, "t", 4); p = vc.vec2("p") + [t[0][2], 1.0]
    T1, T2 = [t[0], t[1], t[2]], [t[0], t[2], t[3]]
    for T_ in (T1, T2):
        vc.assume(vc.ge(vc.abs(c2(sub2(T_[1], T_[0]), sub2(T_[2], T_[0]))), 1e-3))
        for i in range(3): clear_of(vc, p, T_[i], T_[(i + 1) % 3])
    box_contract(vc)
    r = m.isinsidepolyXY(t + [list(t[0])], p)
    vc.check("inside", vc.iff(bool(r), vc.not_(vc.iff(in_tri(vc, p, T1), in_tri(vc, p, T2)))))

@contract("C04.in_polyline", ["yapcad.geom:isinsidepolyXY", "yapcad.geom:isinsidelineXY"])
def in_polyline(vc):
    """a point of an open polyline is reported on it, a point clearly away from every segment is not"""
    m = vc.mod(G); t = plane_pts(vc, "t", 3)
    for i, j in ((0, 1), (1, 2), (0, 2)): vc.assume(vc.ge(vc.norm2(sub2(t[i], t[j])), 1e-4))
    if vc.choice("on", [True, False]):
        k = vc.choice("segment", [0, 1]); u = vc.real("u", 0, 1, strict=True)
        vc.check("on it", bool(m.isinsidepolyXY(t, m.sampleline(t[k:k + 2], u))))
    else:
        p = vc.vec2("p") + [t[0][2], 1.0]
        D = [m.linePointXYDist(t[k:k + 2], p) for k in (0, 1)]
        for d in D: vc.assume(vc.ge(d, 1e-5))
        vc.check("away", not m.isinsidepolyXY(t, p))

@contract("C04.in_region", ["yapcad.geom:isinsidegeomlistXY", "yapcad.geom:isinsidearcXY", "yapcad.geom:isinsideXY"])
def in_region(vc):
    """points strictly inside a rectangle of lines, a disc or a half-disc are reported inside and strictly outside ones are not"""
    m = vc.mod(G); c = vc.pointxy("c"); p = vc.pointxy("p"); a = vc.real("a", 0.5, 5, pos=True); b = vc.real("b", 0.5, 5, pos=True)
    vc.assume(vc.ge(a, 0.01)); vc.assume(vc.ge(b, 0.01))
    P = lambda x, y: [c[0] + x, c[1] + y, 0.0, 1.0]
    x, y = p[0] - c[0], p[1] - c[1]
    shape = vc.choice("shape", ["rectangle", "circle", "half disc"])
    if shape == "rectangle":
        q = [P(0.0, 0.0), P(a, 0.0), P(a, b), P(0.0, b)]
        k = vc.choice("first", [0, 1, 2, 3]); q = q[k:] + q[:k]
        g = [[q[i], list(q[(i + 1) % 4])] for i in range(4)]
        ins = vc.and_(lt0(vc, 0.0, x), lt0(vc, x, a), lt0(vc, 0.0, y), lt0(vc, y, b))
        out = vc.or_(lt0(vc, x, 0.0), lt0(vc, a, x), lt0(vc, y, 0.0), lt0(vc, b, y))
    elif shape == "circle":
        g = [c, [a, 0, 360, -1]]
        ins = lt0(vc, x * x + y * y, a * a); out = lt0(vc, a * a, x * x + y * y)
    else:
        g = [[P(-a, 0.0), P(a, 0.0)], [list(c), [a, 0.0, 180.0, -1]]]
        ins = vc.and_(lt0(vc, x * x + y * y, a * a), lt0(vc, 0.0, y)); out = vc.or_(lt0(vc, a * a, x * x + y * y), lt0(vc, y, 0.0))
    if vc.case(ins): vc.check("inside", bool(m.isinsideXY(g, p)))
    elif vc.case(out): vc.check("outside", not m.isinsideXY(g, p))

# ---------------------------------------------------------------- line with circle and arc
@contract("C04.line_circle_sound", ["yapcad.geom:lineArcIntersectXY", "yapcad.geom:_lineArcIntersectXY"], time_s=150)
def line_circle_sound(vc):
    """reported intersections are on the line and on the circle (within the tolerance for a tangent), and within the segment when asked"""
    m = vc.mod(G); a, v = vc.pointxy("a"), vc.vec2("v"); b = [a[0] + v[0], a[1] + v[1], 0.0, 1.0]
    r = vc.real("r", 0.1, 5, pos=True); vc.assume(vc.ge(r, 1e-2)); vc.assume(vc.le(r, 100.0)); vc.assume(vc.ge(vc.norm2(v), 1e-4))
    c = vc.pointxy("c"); inside = vc.choice("inside", [True, False])
    q = m.lineArcIntersectXY([a, b], [c, [r, 0, 360, -1]], inside)
    if q is False: return
    vc.check("one or two", len(q) in (1, 2))
    V = vc.norm(v)
    for x in q:
        vc.check("on the line", vc.eq(c2(sub2(x, a), v), 0.0))
        e = vc.norm2(sub2(x, c)) - r * r
        if len(q) == 2: vc.check("on the circle", vc.eq(e, 0.0))
        if inside:
            t = d2(sub2(x, a), v)
            vc.check("within the segment", vc.and_(vc.ge(t, -6e-6 * V), vc.le(t, V * V + 6e-6 * V)))
    if len(q) == 1 and not inside:
        e = vc.norm2(sub2(q[0], c))
        vc.check("tangent point not far outside", vc.le(e, (r + 5e-6) * (r + 5e-6)))
        vc.check("tangent point not far inside", vc.le((r * r - e) * V, 1e-5))

@contract("C04.line_circle_complete", ["yapcad.geom:lineArcIntersectXY", "yapcad.geom:_lineArcIntersectXY", "yapcad.geom:intersectSimpleXY"], time_s=150)
def line_circle_complete(vc):
    """a segment constructed to cross the circle at a point, not tangentially, has that point among its intersections"""
    m = vc.mod(G); t = vc.unit("t", 2); r = vc.real("r", 0.1, 5, pos=True); c = vc.pointxy("c"); w = vc.unit("w", 2)
    e = [t[0] * w[0] - t[1] * w[1], t[0] * w[1] + t[1] * w[0]]; L = vc.real("len", 0.1, 5, pos=True)
    vc.assume(vc.ge(r, 0.1)); vc.assume(vc.le(r, 100.0)); vc.assume(vc.ge(L, 0.1)); vc.assume(vc.le(L, 100.0))
    vc.assume(vc.ge(t[0], 0.05) if vc.choice("leaving", [True, False]) else vc.le(t[0], -0.05))
    X = [c[0] + r * e[0], c[1] + r * e[1], 0.0, 1.0]; b = vc.real("b", 0, 1, strict=True)
    l = [[X[0] - b * L * w[0], X[1] - b * L * w[1], 0.0, 1.0], [X[0] + (1.0 - b) * L * w[0], X[1] + (1.0 - b) * L * w[1], 0.0, 1.0]]
    D = vc.havoc("D"); vc.assume(vc.and_(vc.ge(D, 0.0), vc.le(D, r))) if vc.symbolic else None   # contract nearest_point, at the point X
    vc.stub(G, "linePointXYDist", lambda *a, **k: D)
    q = m.lineArcIntersectXY(l, [c, [r, 0, 360, -1]], vc.choice("inside", [True, False]))
    vc.check("found", q is not False)
    if q is not False: vc.check("among them", vc.or_(*[vc.veq(x, X) for x in q]))

@contract("C04.arc_arc", ["yapcad.geom:arcArcIntersectXY", "yapcad.geom:_arcArcIntersectXY"], time_s=120)
def arc_arc(vc):
    """two circles that properly cross have two reported intersections, both on both circles; separate or nested ones have none"""
    m = vc.mod(G); c = vc.pointxy("c"); e = vc.unit("e", 2); where = vc.choice("where", ["apart", "nested", "crossing"])
    r1 = vc.real("r1", 0.5, 5, pos=True); d = vc.real("d", 0.1, 10, pos=True); vc.assume(vc.ge(r1, 0.1)); vc.assume(vc.ge(d, 0.1))
    if where == "crossing":      # place a crossing point at angle t of the first circle; the second circle passes through it
        t = vc.unit("t", 2); vc.assume(vc.ge(t[0], 0.05)); r2 = vc.sqrt(d * d - 2.0 * d * r1 * t[1] + r1 * r1)
    else: r2 = vc.real("r2", 0.5, 5, pos=True)
    vc.assume(vc.ge(r2, 0.1))
    for x in (r1, r2, d): vc.assume(vc.le(x, 100.0))
    k = [c[0] + d * e[0], c[1] + d * e[1], 0.0, 1.0]
    A, B = [c, [r1, 0, 360, -1]], [k, [r2, 0, 360, -1]]
    if where == "apart": vc.assume(vc.ge(d, r1 + r2 + 1e-3)); vc.check("none", m.arcArcIntersectXY(A, B) is False)
    elif where == "nested": vc.assume(vc.le(d + r2, r1 - 1e-3)); vc.check("none", m.arcArcIntersectXY(A, B) is False); vc.check("none either way", m.arcArcIntersectXY(B, A) is False)
    else:
        if vc.symbolic:          # contract nearest_point: the chord through the crossing points is no further than the radius
            D = vc.havoc("D"); vc.assume(vc.and_(vc.ge(D, 0.0), vc.le(D, r1))); vc.stub(G, "linePointXYDist", lambda *a, **k: D)
        q = m.arcArcIntersectXY(A, B, False)
        vc.check("two", q is not False and len(q) == 2)
        if q is not False:
            for x in q:
                vc.check("on the first", vc.eq(vc.norm2(sub2(x, c)), r1 * r1)); vc.check("on the second", vc.eq(vc.norm2(sub2(x, k)), r2 * r2))
            if len(q) == 2: vc.check("different", vc.gt(vc.norm2(sub2(q[0], q[1])), 0.0, tol=0, scale=0))

# ---------------------------------------------------------------- boxes
@contract("C04.in_box", ["yapcad.geom:isinsidebbox", "yapcad.geom:isinsidebbox2D"])
def in_box(vc):
    """in the box exactly when every coordinate is between the corners (borders included)"""
    m = vc.mod(G); a, b, p = pts(vc, "p", 3)
    w = [vc.and_(le0(vc, a[k], p[k]), le0(vc, p[k], b[k])) for k in range(3)]
    vc.check("3D", vc.iff(bool(m.isinsidebbox([a, b], p)), vc.and_(*w)))
    vc.check("2D", vc.iff(bool(m.isinsidebbox2D([a, b], p)), vc.and_(*w[:2])))

def is_extent(vc, name, box, P):
    for k in range(3):
        vc.check(name + " contains", vc.and_(*[vc.and_(vc.le(box[0][k], p[k]), vc.le(p[k], box[1][k])) for p in P]))
        vc.check(name + " touches", vc.and_(vc.or_(*[vc.eq(box[0][k], p[k]) for p in P]), vc.or_(*[vc.eq(box[1][k], p[k]) for p in P])))
    vc.check(name + " corners are points", vc.and_(vc.eq(box[0][3], 1.0), vc.eq(box[1][3], 1.0)))

@contract("C04.poly_box", ["yapcad.geom:polybbox", "yapcad.geom:linebbox", "yapcad.geom:bbox", "yapcad.geom:geomlistbbox"], time_s=150)
def poly_box(vc):
    """the box of points, lines, polylines and lists of them is their exact coordinate-wise extent"""
    m = vc.mod(G); kind, n = vc.choice("kind", [("point", 1), ("line", 2), ("poly", 3), ("list", 3), ("poly", 4)])
    free = vc.choice("coordinate", [0, 1, 2])       # one coordinate arbitrary, the others distinct constants
    P = [[float(7 * i + k - 5 * (i % 2)) for k in range(3)] + [1.0] for i in range(n)]
    for i in range(n): P[i][free] = vc.real("p%d" % i)
    P0 = vc.snapshot(P)
    if kind == "point":
        b = m.bbox(P[0])
        vc.check("point box", vc.and_(*[vc.and_(vc.le(b[0][k], P[0][k]), vc.le(P[0][k], b[1][k]), vc.le(b[1][k] - b[0][k], 1.1e-5)) for k in range(3)])); return
    if kind == "poly": box = m.polybbox(P)
    elif kind == "line": box = m.bbox(P)
    else: box = m.bbox([[P[i - 1], P[i]] for i in range(1, n)] + [list(P[0])])
    is_extent(vc, kind, box, P0)
    vc.check("input spared", vc.same(P, P0))

def box_of_arc(vc, m, ws):
    c = vc.point("c"); r = vc.real("r", 0.1, 5, pos=True)
    if vc.choice("circle", [False, True]): s, W, arc = 0.0, 360.0, [c, [r, 0, 360, ws[-1]]]
    else:
        s = vc.angle("start", lo=0, hi=360); W = vc.angle("sweep", lo=0, hi=360)
        for x in (s, W): vc.assume(vc.ge(x, 0.5)); vc.assume(vc.le(x, 359.5))
        e = s + W; e = e - 360.0 if vc.case(vc.ge(e, 360.0, tol=0, scale=0)) else e
        arc = [c, [r, s, e, vc.choice("w", ws)]]
    return c, r, s, W, arc
def quad(vc, a):
    for i in range(8):
        if i == 7 or vc.case(vc.le(a, 90.0 * (i + 1), tol=0, scale=0)): return i
CARD = [(90.0 * (i + 1), i) for i in range(7)] + [(90.0 * (i + 1), i + 1) for i in range(7)]

@contract("C04.arc_box_contains", ["yapcad.geom:arcbbox"], time_s=200)
def arc_box_contains(vc):
    """the box of an arc contains every point of it"""
    m = vc.mod(G); c, r, s, W, arc = box_of_arc(vc, m, [-1])
    box_contract(vc)
    box = m.bbox(arc)
    u = vc.real("u", 0, 1, strict=True); th = s + u * W
    vc.quadrants((s, quad(vc, s)), (s + W, quad(vc, s + W)), (th, quad(vc, th)), *CARD)
    p = [c[0] + r * vc.cosd(th), c[1] + r * vc.sind(th), c[2]]
    vc.check("contains", vc.and_(*[vc.and_(vc.le(box[0][k], p[k]), vc.le(p[k], box[1][k])) for k in range(3)]))

@contract("C04.arc_box_touches", ["yapcad.geom:arcbbox"], time_s=120)
def arc_box_touches(vc):
    """every side of the box of an arc touches an end point or an extreme point of the arc"""
    m = vc.mod(G); c, r, s, W, arc = box_of_arc(vc, m, [-1, -2])
    box_contract(vc, True)
    box = m.bbox(arc); qs = quad(vc, s)
    vc.quadrants((s, qs), (s + W, quad(vc, s + W)), *CARD)
    ext = [m.samplearc(arc, 0.0), m.samplearc(arc, 1.0)]
    for i in range(1, 8):
        if i > qs and vc.case(vc.le(90.0 * i, s + W, tol=0, scale=0)): ext.append([c[0] + r * vc.cosd(90.0 * i), c[1] + r * vc.sind(90.0 * i), c[2]])
    vc.check("touches", vc.and_(*[vc.and_(vc.or_(*[vc.eq(box[0][k], x[k]) for x in ext]), vc.or_(*[vc.eq(box[1][k], x[k]) for x in ext])) for k in range(3)]))

@contract("C04.mesh_box", ["yapcad.geom3d:surfacebbox", "yapcad.geom3d:solidbbox", "yapcad.geom3d:bbox"])
def mesh_box(vc):
    """the box of a surface or solid is the extent of its vertices"""
    m = vc.mod(G3); z = [0.0, 0.0, 1.0, 0.0]; free = vc.choice("coordinate", [0, 1, 2])
    P = [[float(7 * i + k - 9 * (i % 2)) for k in range(3)] + [1.0] for i in range(4)]
    for i in range(4): P[i][free] = vc.real("p%d" % i)
    s1 = ["surface", P[:3], [z, z, z], [[0, 1, 2]], [], []]; s2 = ["surface", P[1:], [z, z, z], [[0, 1, 2]], [], []]
    P0 = vc.snapshot(P)
    if vc.choice("of", ["surface", "solid"]) == "surface": is_extent(vc, "surface", m.bbox(s1), P0[:3])
    else: is_extent(vc, "solid", m.bbox(["solid", [s1, s2], [], []]), P0)

# ---------------------------------------------------------------- planes
def a_face(vc):
    f = pts(vc, "f", 3); n = vc.vcross(vc.vsub(f[1][:3], f[0][:3]), vc.vsub(f[2][:3], f[0][:3]))
    vc.assume(vc.ge(vc.norm(n), 1e-2)); vc.assume(vc.ge(vc.norm2(vc.vsub(f[1][:3], f[0][:3])), 1e-4))
    return f, n
@contract("C04.plane", ["yapcad.geom3d:tri2p0n", "yapcad.geom3d:signedPlaneDistance"])
def plane(vc):
    """the plane of a face passes through its corners and centroid, with the unit right-hand normal; the signed distance is zero on it and grows one for one along the normal"""
    m = vc.mod(G3); f, n = a_face(vc); f0 = vc.snapshot(f)
    p0, N = m.tri2p0n(f)
    vc.check("centroid", vc.veq(p0[:3], [(f[0][k] + f[1][k] + f[2][k]) / 3.0 for k in range(3)]))
    vc.check("unit", vc.eq(vc.norm2(N[:3]), 1.0)); vc.check("direction", vc.eq(N[3], 0.0))
    vc.check("right-hand", vc.and_(vc.veq(vc.vcross(N[:3], n), [0.0] * 3), vc.gt(vc.vdot(N[:3], n), 0.0, tol=0, scale=0)))
    a = vc.real("a"); b = vc.real("b"); h = vc.real("h")
    q = [f[0][k] + a * (f[1][k] - f[0][k]) + b * (f[2][k] - f[0][k]) + h * N[k] for k in range(3)] + [1.0]
    vc.check("signed distance", vc.eq(m.signedPlaneDistance(q, p0, N), h))
    vc.check("input spared", vc.same(f, f0))

@contract("C04.plane_basis", ["yapcad.geom3d:tri2p0n"])
def plane_basis(vc):
    """the plane's coordinate transformation is rigid, takes the face to z = 0 with its centroid at the origin, and its inverse undoes it"""
    m = vc.mod(G3); f, n = a_face(vc); p0, N, F, R = m.tri2p0n(f, basis=True); q = vc.point("q")
    vc.check("face to z=0", vc.and_(*[vc.eq(F.mul(x)[2], 0.0) for x in f]))
    vc.check("centroid to origin", vc.veq(F.mul(p0), [0.0, 0.0, 0.0, 1.0]))
    e = F.mul(q); vc.check("height", vc.eq(e[2], vc.vdot(vc.vsub(q[:3], p0[:3]), N[:3])))
    vc.check("distance kept", vc.eq(vc.norm2(e[:3]), vc.norm2(vc.vsub(q[:3], p0[:3]))))
    vc.check("inverse", vc.veq(R.mul(e), q))

@contract("C04.line_plane_cardinal", ["yapcad.geom3d:linePlaneIntersect"])
def line_plane_cardinal(vc):
    """the reported point is on the line and the plane, and a segment with its ends on both sides always meets it"""
    m = vc.mod(G3); l = pts(vc, "l", 2); k = vc.choice("plane", [0, 1, 2]); inside = vc.choice("inside", [True, False])
    away_scalar(vc, l[0][k], l[1][k])
    q = m.linePlaneIntersect(l, ["yz", "xz", "xy"][k], inside)
    sides = le0(vc, l[0][k] * l[1][k], 0.0)
    if isinstance(q, bool):
        vc.check("missed only when not reached", vc.and_(inside, vc.not_(sides)))
    else:
        vc.check("on the plane", vc.eq(q[k], 0.0))
        e = vc.vsub(q[:3], l[0][:3]); d = vc.vsub(l[1][:3], l[0][:3])
        vc.check("on the line", vc.veq(vc.vcross(e, d), [0.0] * 3))
        if inside: vc.check("within", vc.and_(vc.ge(vc.vdot(e, d), 0.0), vc.le(vc.vdot(e, d), vc.norm2(d)))); vc.check("only when reached", sides)

@contract("C04.line_triangle", ["yapcad.geom3d:linePlaneIntersect"], time_s=120)
def line_triangle(vc):
    """a segment constructed to cross a triangle at a point is found to cross it there, one crossing its plane elsewhere is not; a plane given by three points or as a basis is met everywhere, and only within the segment if asked to stay inside"""
    m = vc.mod(G3)
    b = vc.real("b", 0.1, 5, pos=True); h = vc.real("h", 0.1, 5, pos=True); k = vc.real("k", -3, 3); o = vc.point("o")
    for x in (b, h): vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    ax = vc.choice("axes", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    def P(x, y, z):
        q = [0.0, 0.0, 0.0, 1.0]
        for i, v in zip(ax, (x, y, z)): q[i] = o[i] + v
        return q
    f = [P(0.0, 0.0, 0.0), P(b, 0.0, 0.0), P(k, h, 0.0)]
    s = vc.real("s", -1, 2); t = vc.real("t", -1, 2); d = vc.vec3("d"); u = vc.real("u", 0.01, 0.99, strict=True)
    away_scalar(vc, d[2], 0.0, 1e-2)
    x, y = s * b + t * k, t * h
    l = [P(x - u * d[0], y - u * d[1], -u * d[2]), P(x + (1.0 - u) * d[0], y + (1.0 - u) * d[1], (1.0 - u) * d[2])]
    how = vc.choice("plane given as", ["triangle", "points of a plane", "basis"])
    if how == "triangle":
        q = m.linePlaneIntersect(l, f)
        inn = vc.and_(vc.ge(s, 1e-3), vc.ge(t, 1e-3), vc.le(s + t, 0.999)); out = vc.or_(vc.le(s, -1e-3), vc.le(t, -1e-3), vc.ge(s + t, 1.001))
        if vc.case(inn): vc.check("found", not isinstance(q, bool) and vc.veq(q, P(x, y, 0.0)))
        elif vc.case(out): vc.check("not in the triangle", q is False)
    else:
        inside = how == "basis" and vc.choice("inside", [True, False]); past = vc.choice("short of the plane", [False, True])
        if past: l = [l[0], [l[0][i] + 0.5 * (P(x, y, 0.0)[i] - l[0][i]) for i in range(3)] + [1.0]]
        q = m.linePlaneIntersect(l, m.tri2p0n(f, basis=True) if how == "basis" else f, inside)
        if inside and past: vc.check("not reached", q is False)
        else: vc.check("found on the plane", not isinstance(q, bool) and vc.veq(q, P(x, y, 0.0)))

@contract("C04.face_distance", ["yapcad.geom3d:signedFaceDistance"], report_refuted=False)
def face_distance(vc):
    """the signed face distance has the side of the normal as its sign, is the height over the face, and elsewhere the distance to the nearest point of its edges"""
    m = vc.mod(G3)
    b = vc.real("b", 0.1, 5, pos=True); h = vc.real("h", 0.1, 5, pos=True); k = vc.real("k", -3, 3); o = vc.point("o")
    for x in (b, h): vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    vc.assume(vc.le(vc.abs(k), 100.0))
    f = [o, [o[0] + b, o[1], o[2], 1.0], [o[0] + k, o[1] + h, o[2], 1.0]]
    p = vc.vec3("p"); z = p[2]; away_scalar(vc, z, 0.0)
    q = [o[0] + p[0], o[1] + p[1], o[2] + z, 1.0]
    vc.assume(vc.gt(z, 0.0) if vc.choice("above", [True, False]) else vc.lt(z, 0.0))
    E = [(0, 1), (1, 2), (2, 0)]; DS = []
    if vc.symbolic:              # the distances to the edges (their properties are those of nearest_point)
        def lp(l, x, inside=True, distance=False, params=False):
            i = len(DS); DS.append(vc.real("edge distance %d" % i, nonneg=True)); vc.lemma("edge", vc.veq(l[0][:2], F[E[i][0]])); vc.lemma("edge", vc.veq(l[1][:2], F[E[i][1]])); vc.lemma("of the point", vc.veq(x[:2], [p[0], p[1]]))
            return DS[i]
        F = [[0.0, 0.0], [b, 0.0], [k, h]]
        vc.stub(G3, "linePointXY", lp)
    else:
        for i, j in E:
            e = vc.vsub(f[j][:3], f[i][:3]); u = max(0.0, min(1.0, vc.vdot(vc.vsub(q[:3], f[i][:3]), e) / vc.norm2(e)))
            DS.append(vc.norm([q[n] - (f[i][n] + u * e[n]) for n in (0, 1)]))
    D = m.signedFaceDistance(q, f)
    vc.check("side", vc.iff(lt0(vc, 0.0, D), lt0(vc, 0.0, z)))
    # p in the frame of the face: p = a (b, 0) + c (k, h)
    c = p[1] / h; a = (p[0] - c * k) / b
    if vc.case(vc.and_(le0(vc, 0.0, a), le0(vc, 0.0, c), le0(vc, a + c, 1.0))): vc.check("height above the face", vc.eq(D, z))
    else:
        vc.check("uses three edges", len(DS) == 3)
        vc.check("hypotenuse of the height and the distance to the nearest edge", vc.or_(*[vc.and_(vc.eq(D * D, z * z + d * d), *[vc.le(d, x) for x in DS]) for d in DS]))
