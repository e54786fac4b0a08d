from pyvc.vc import contract
from contracts.lib import *
G = "yapcad.geom"; X = "yapcad.xform"; G3 = "yapcad.geom3d"

def rodrigues(vc, k, c, s, p):
    kxp = vc.vcross(k, p); kp = vc.vdot(k, p)
    return [p[i] * c + kxp[i] * s + k[i] * kp * (1.0 - c) for i in range(3)]

def figure(vc, arcs=False):
    """every kind of planar/spatial figure; returns (figure, list of its vertices in traversal order)"""
    kinds = ["point", "line", "poly", "polygon", "geomlist", "nested"]
    k = vc.choice("kind", kinds)
    if k == "point": x = vc.point("p")
    elif k == "line": x = pts(vc, "p", 2)
    elif k == "poly": x = pts(vc, "p", 3)
    elif k == "polygon":
        x = pts(vc, "p", 4); x.append(list(x[0]))
    elif k == "geomlist": x = [pts(vc, "p", 2), vc.point("q"), pts(vc, "r", 3)]
    else: x = [[pts(vc, "p", 2), pts(vc, "q", 2)], pts(vc, "r", 2)]
    return x
def isv(x): return isinstance(x, list) and len(x) == 4 and not isinstance(x[0], list)
def mapped(vc, y, x, f):
    """y has exactly the shape of x and each vertex of y is the image of x's"""
    if isv(x):
        if not isv(y): return False
        return vc.veq(y, f(x[:3]) + [1.0])
    if not isinstance(y, list) or isv(y) or len(x) != len(y): return False
    return vc.and_(*[mapped(vc, b, a, f) for a, b in zip(x, y)])
def disjoint(x, y):
    """the result shares no mutable part with the input"""
    ids = set()
    def walk(o, f):
        if isinstance(o, list):
            f(id(o)); [walk(e, f) for e in o]
    walk(x, ids.add); hit = []
    walk(y, lambda i: hit.append(i in ids))
    return not any(hit)

FIG = ["yapcad.geom:translate"]
@contract("C02.translate_figure", ["yapcad.geom:translate", "yapcad.geom3d:translate"])
def translate_figure(vc):
    """every vertex moves by the offset; kind and connectivity kept; the input is spared and not shared"""
    m = vc.mod(vc.choice("via", [G, G3]))
    x = figure(vc); d = vc.point("d"); x0 = vc.snapshot(x)
    y = m.translate(x, d)
    vc.check("image", mapped(vc, y, x0, lambda p: vc.vadd(p, d[:3])))
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

@contract("C02.scale_figure", ["yapcad.geom:scale", "yapcad.geom3d:scale"])
def scale_figure(vc):
    """each coordinate is scaled about the centre; the centre itself stays put"""
    m = vc.mod(vc.choice("via", [G, G3]))
    x = figure(vc); x0 = vc.snapshot(x); c = offset(vc, "c")
    s = [vc.real(n, 0.1, 4.0, pos=True) for n in ("sx", "sy", "sz")]
    uniform = vc.choice("uniform", [True, False])
    if uniform: s = [s[0]] * 3; a = (s[0],)
    else: a = tuple(s)
    vc.assume(vc.ge(vc.norm2([v - 1.0 for v in s]), 1e-6))
    y = m.scale(x, *a, cent=c)
    vc.check("image about the centre", mapped(vc, y, x0, lambda p: [c[i] + s[i] * (p[i] - c[i]) for i in range(3)]))
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

@contract("C02.scale_figure_unit", ["yapcad.geom:scale"])
def scale_unit(vc):
    """scaling by one is a copy"""
    m = vc.mod(G); x = figure(vc); x0 = vc.snapshot(x)
    y = m.scale(x, 1.0)
    vc.check("copy", vc.and_(mapped(vc, y, x0, lambda p: list(p)), disjoint(x, y)))

@contract("C02.rotate_figure", ["yapcad.geom:rotate", "yapcad.geom3d:rotate"])
def rotate_figure(vc):
    """every vertex turns about the axis through the centre"""
    m = vc.mod(vc.choice("via", [G, G3]))
    x = figure(vc); x0 = vc.snapshot(x); c = offset(vc, "c"); k = vc.unit3("k"); ang = vc.angle("ang")
    away_scalar(vc, ang, 0.0)
    y = m.rotate(x, ang, cent=c, axis=k + [1.0])
    C, S = vc.cosd(ang), vc.sind(ang)
    vc.check("image about the centre", mapped(vc, y, x0, lambda p: vc.vadd(c[:3], rodrigues(vc, k, C, S, vc.vsub(p, c[:3])))))
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

@contract("C02.rotate_default", ["yapcad.geom:rotate"])
def rotate_default(vc):
    """the default is a counter-clockwise turn about z through the origin; zero degrees is a copy"""
    m = vc.mod(G); x = figure(vc); x0 = vc.snapshot(x); ang = vc.angle("ang")
    if vc.choice("zero", [True, False]):
        y = m.rotate(x, 0.0)
        vc.check("zero is a copy", vc.and_(mapped(vc, y, x0, lambda p: list(p)), disjoint(x, y)))
        return
    away_scalar(vc, ang, 0.0)
    C, S = vc.cosd(ang), vc.sind(ang)
    y = m.rotate(x, ang)
    vc.check("counter-clockwise", mapped(vc, y, x0, lambda p: [p[0] * C - p[1] * S, p[0] * S + p[1] * C, p[2]]))

@contract("C02.mirror_figure", ["yapcad.geom:mirror", "yapcad.geom3d:mirror"])
def mirror_figure(vc):
    """exactly the coordinate normal to the plane changes sign"""
    m = vc.mod(vc.choice("via", [G, G3])); pl = vc.choice("plane", ["xy", "yz", "xz"])
    x = figure(vc); x0 = vc.snapshot(x)
    n = {"xy": 2, "yz": 0, "xz": 1}[pl]
    y = m.mirror(x, pl)
    vc.check("image", mapped(vc, y, x0, lambda p: [-p[i] if i == n else p[i] for i in range(3)]))
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

@contract("C02.transform_figure", ["yapcad.geom:transform"])
def transform_figure(vc):
    """a general affine matrix is applied to every vertex"""
    m = vc.mod(G); X_ = vc.mod(X)
    A = [[vc.real("a%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    x = figure(vc); x0 = vc.snapshot(x)
    y = m.transform(x, X_.Matrix(A))
    vc.check("image", mapped(vc, y, x0, lambda p: vc.apply(A, p)))
    vc.check("input spared", vc.same(x, x0))

# ------------------------------------------------------------- arcs
def an_arc(vc):
    c = vc.point("c"); r = vc.real("r", 0.1, 10.0, pos=True)
    full = vc.choice("circle", [False, True]); w = vc.choice("w", [-1, -2])
    if full: s, e = 0, 360
    else:
        s = vc.angle("start"); e = vc.angle("end")
        vc.assume(vc.not_(vc.and_(vc.eq(s, 0.0, tol=0, scale=0), vc.eq(e, 360.0, tol=0, scale=0))))
    return [c, [r, s, e, w]], full
def same_dir(vc, a, b):
    return vc.and_(vc.eq(vc.cosd(a), vc.cosd(b)), vc.eq(vc.sind(a), vc.sind(b)))

@contract("C02.arc_translate_rotate", ["yapcad.geom:translate", "yapcad.geom:rotate"])
def arc_motion(vc):
    """centre moves, radius and sampling direction stay, both end directions turn by the angle; circles stay circles"""
    m = vc.mod(G)
    a, full = an_arc(vc); a0 = vc.snapshot(a)
    op = vc.choice("op", ["translate", "rotate"])
    if op == "translate":
        d = vc.point("d"); y = m.translate(a, d); ang = 0.0
        cen = vc.vadd(a0[0][:3], d[:3])
    else:
        ang = vc.angle("ang"); away_scalar(vc, ang, 0.0); c = offset(vc, "cc")
        y = m.rotate(a, ang, cent=c)
        C, S = vc.cosd(ang), vc.sind(ang); q = vc.vsub(a0[0][:3], c[:3])
        cen = vc.vadd(c[:3], [q[0] * C - q[1] * S, q[0] * S + q[1] * C, q[2]])
    vc.check("is an arc", m.isarc(y))
    vc.check("centre", vc.veq(y[0], cen + [1.0]))
    vc.check("radius", vc.eq(y[1][0], a0[1][0]))
    vc.check("sampling direction", vc.eq(y[1][3], a0[1][3]))
    if full: vc.check("still a circle", vc.and_(vc.eq(y[1][1], 0), vc.eq(y[1][2], 360)))
    else:
        vc.check("start turned", same_dir(vc, y[1][1], a0[1][1] + ang))
        vc.check("end turned", same_dir(vc, y[1][2], a0[1][2] + ang))
    vc.check("input spared", vc.same(a, a0))
    vc.check("not shared", disjoint(a, y))

@contract("C02.arc_mirror", ["yapcad.geom:mirror"])
def arc_mirror(vc):
    """the mirrored arc sweeps from the image of the end to the image of the start (the same set of points); in-plane mirroring leaves the sweep alone"""
    m = vc.mod(G); pl = vc.choice("plane", ["xy", "yz", "xz"])
    a, full = an_arc(vc); a0 = vc.snapshot(a)
    y = m.mirror(a, pl)
    n = {"xy": 2, "yz": 0, "xz": 1}[pl]
    vc.check("is an arc", m.isarc(y))
    vc.check("centre", vc.veq(y[0][:3], [-a0[0][i] if i == n else a0[0][i] for i in range(3)]))
    vc.check("radius", vc.eq(y[1][0], a0[1][0]))
    if full: vc.check("still a circle", vc.and_(vc.eq(y[1][1], 0), vc.eq(y[1][2], 360)))
    else:
        s, e = a0[1][1], a0[1][2]
        def img(t):   # direction of the image of the direction at angle t
            c, sn = vc.cosd(t), vc.sind(t)
            return [-c if n == 0 else c, -sn if n == 1 else sn]
        lo, hi = (s, e) if n == 2 else (e, s)
        vc.check("start", vc.veq([vc.cosd(y[1][1]), vc.sind(y[1][1])], img(lo)))
        vc.check("end", vc.veq([vc.cosd(y[1][2]), vc.sind(y[1][2])], img(hi)))
    vc.check("input spared", vc.same(a, a0))

@contract("C02.arc_scale", ["yapcad.geom:scale"])
def arc_scale(vc):
    """uniform scaling about a centre scales radius and centre offset and keeps the angles (turned by half a turn by a negative factor); uneven scaling is refused"""
    m = vc.mod(G)
    a, full = an_arc(vc); a0 = vc.snapshot(a); c = offset(vc, "cc"); s = vc.real("s", 0.1, 4.0, pos=True)
    away_scalar(vc, s, 1.0)
    if vc.choice("negative", [False, True]):
        y = m.scale(a, -s, cent=c)
        vc.check("centre", vc.veq(y[0], [c[i] - s * (a0[0][i] - c[i]) for i in range(3)] + [1.0]))
        vc.check("radius", vc.and_(vc.eq(y[1][0], a0[1][0] * s), y[1][3] == a0[1][3]))
        vc.check("circle", vc.implies(full, bool(m.iscircle(y))))
        if not full:
            for i in (1, 2): vc.check("direction", vc.and_(vc.eq(vc.cosd(y[1][i]), -vc.cosd(a0[1][i])), vc.eq(vc.sind(y[1][i]), -vc.sind(a0[1][i]))))
        vc.check("input spared", vc.same(a, a0)); return
    y = m.scale(a, s, cent=c)
    vc.check("centre", vc.veq(y[0], [c[i] + s * (a0[0][i] - c[i]) for i in range(3)] + [1.0]))
    vc.check("parameters", vc.veq(y[1], [a0[1][0] * s, a0[1][1], a0[1][2], a0[1][3]]))
    vc.check("input spared", vc.same(a, a0))
    t = vc.real("t", 0.1, 4.0, pos=True); vc.assume(vc.ge(vc.abs(t - s), 1e-3))
    ex, _ = vc.raises(m.scale, a, s, t, 1.0)
    vc.check("uneven refused", isinstance(ex, ValueError))

# ------------------------------------------------------------- surfaces and solids
def a_surface(vc, name="v", nv=4, meta=True):
    vs = pts(vc, name, nv); ns = [vc.vec3("%sn%d" % (name, i), -1, 1) + [0.0] for i in range(nv)]
    faces = [[0, 1, 2], [0, 2, 3]] if nv == 4 else [[0, 1, 2]]
    s = ["surface", vs, ns, faces, [], []]
    if meta and vc.choice(name + "meta", [False, True]): s.append({"id": "s1", "tags": ["a"]})
    return s
def motion(vc, full=True):
    """(name, args/kwargs, vertex map, direction map or None, flips winding)"""
    op = vc.choice("op", ["translate", "rotate", "mirror", "scale"])
    if op == "translate":
        d = offset(vc, "d"); return op, (d,), {}, (lambda p: vc.vadd(p, d[:3])), (lambda n: list(n)), False
    if op == "rotate":
        c = offset(vc, "c"); k = vc.unit3("k"); ang = vc.angle("ang"); away_scalar(vc, ang, 0.0)
        C, S = vc.cosd(ang), vc.sind(ang)
        return op, (ang,), dict(cent=c, axis=k + [1.0]), (lambda p: vc.vadd(c[:3], rodrigues(vc, k, C, S, vc.vsub(p, c[:3])))), (lambda n: rodrigues(vc, k, C, S, n)), False
    if op == "mirror":
        pl = vc.choice("plane", ["xy", "yz", "xz"]); i0 = {"xy": 2, "yz": 0, "xz": 1}[pl]
        f = lambda p: [-p[i] if i == i0 else p[i] for i in range(3)]
        return op, (pl,), {}, f, f, True
    c = offset(vc, "c"); s = vc.real("s", 0.1, 4.0, pos=True); away_scalar(vc, s, 1.0)
    neg = vc.choice("turned inside out", [False, True])
    if neg: s = -s
    return op, (s,), dict(cent=c), (lambda p: [c[i] + s * (p[i] - c[i]) for i in range(3)]), (lambda n: [-x for x in n] if neg else list(n)), neg
def surface_image(vc, y, x, f, g, flip):
    if not (isinstance(y, list) and len(y) == len(x) and y[0] == "surface"): return [("kind", False)]
    faces = [[a, c, b] for a, b, c in x[3]] if flip else x[3]
    def cyc(u, v): return len(u) == 3 and any(list(u) == v[i:] + v[:i] for i in range(3))
    out = [("vertices", mapped(vc, y[1], x[1], f)),
           ("normals follow", vc.and_(len(y[2]) == len(x[2]), *[vc.veq(b, g(a[:3]) + [0.0]) for a, b in zip(x[2], y[2])])),
           ("faces", len(y[3]) == len(faces) and all(cyc(a, b) for a, b in zip(y[3], faces))),
           ("metadata and boundary kept", vc.same(y[4:], x[4:]))]
    return out

@contract("C02.surface_motion", ["yapcad.geom3d:translatesurface", "yapcad.geom3d:rotatesurface", "yapcad.geom3d:mirrorsurface", "yapcad.geom3d:scalesurface"])
def surface_motion(vc):
    """vertices map, normals turn, winding follows orientation, everything else is kept; generic and specific entry points agree"""
    m = vc.mod(G3); x = a_surface(vc); x0 = vc.snapshot(x)
    op, a, k, f, g, flip = motion(vc)
    fn = getattr(m, op + "surface") if vc.choice("entry", ["specific", "generic"]) == "specific" else getattr(m, op)
    y = fn(x, *a, **k)
    for n, c in surface_image(vc, y, x0, f, g, flip): vc.check(n, c)
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

@contract("C02.surface_uneven_scale", ["yapcad.geom3d:scalesurface"])
def surface_uneven(vc):
    """uneven scaling keeps each normal perpendicular to the scaled tangent plane, pointing the same side, unit length"""
    m = vc.mod(G3)
    vs = pts(vc, "v", 3); n = vc.unit3("n"); c = offset(vc, "c")
    s = [vc.real(q, 0.1, 4.0, pos=True) for q in ("sx", "sy", "sz")]
    for q in s: vc.assume(vc.ge(q, 0.05)); vc.assume(vc.le(q, 50.0))
    vc.assume(vc.ge(vc.abs(s[0] - s[1]), 1e-3))
    x = ["surface", vs, [n + [0.0]] * 3, [[0, 1, 2]], [], []]; x[2] = [list(q) for q in x[2]]; x0 = vc.snapshot(x)
    y = m.scalesurface(x, s[0], s[1], s[2], cent=c)
    vc.check("vertices", mapped(vc, y[1], x0[1], lambda p: [c[i] + s[i] * (p[i] - c[i]) for i in range(3)]))
    t = vc.vec3("t")
    for q in y[2][:1]:
        d = vc.vdot(q[:3], [t[i] * s[i] for i in range(3)])
        L = vc.norm([n[i] / s[i] for i in range(3)])
        vc.check("tangency is kept and side preserved", vc.eq(d * L, vc.vdot(n, t)))
        vc.check("unit", vc.eq(vc.norm2(q[:3]), 1.0))
        vc.check("direction", vc.eq(q[3], 0.0))
    vc.check("faces", vc.same(y[3], x0[3]))
    vc.check("input spared", vc.same(x, x0))

@contract("C02.surface_reverse", ["yapcad.geom3d:reversesurface"])
def surface_reverse(vc):
    """reversing negates the normals and the winding and nothing else"""
    m = vc.mod(G3); x = a_surface(vc); x0 = vc.snapshot(x)
    y = m.reversesurface(x)
    for n, c in surface_image(vc, y, x0, lambda p: list(p), lambda n: [-v for v in n], True): vc.check(n, c)
    vc.check("input spared", vc.same(x, x0))

@contract("C02.solid_motion", ["yapcad.geom3d:translatesolid", "yapcad.geom3d:rotatesolid", "yapcad.geom3d:mirrorsolid", "yapcad.geom3d:scalesolid"])
def solid_motion(vc):
    """every surface of a solid moves by the same map; material, construction and metadata are kept"""
    m = vc.mod(G3)
    x = ["solid", [a_surface(vc, "v", 4, False), a_surface(vc, "u", 3, False)], [], []]
    if vc.choice("meta", [False, True]): x.append({"id": "z", "tags": ["q"]})
    x0 = vc.snapshot(x)
    op, a, k, f, g, flip = motion(vc)
    fn = getattr(m, op + "solid") if vc.choice("entry", ["specific", "generic"]) == "specific" else getattr(m, op)
    y = fn(x, *a, **k)
    vc.check("kind", y[0] == "solid" and len(y) >= len(x0) and len(y[1]) == 2)
    for i in range(2):
        for n, c in surface_image(vc, y[1][i], x0[1][i], f, g, flip): vc.check("%s" % n, c)
    vc.check("material and construction kept", vc.same(y[2:4], x0[2:4]))
    if len(x0) == 5: vc.check("metadata kept", vc.and_(*[k_ in y[4] and vc.same(y[4][k_], v_) for k_, v_ in x0[4].items()]))
    vc.check("input spared", vc.same(x, x0))
    vc.check("not shared", disjoint(x, y))

# ------------------------------------------------------------- figure objects
GY = "yapcad.geometry:Geometry."; PO = "yapcad.poly:"; BO = "yapcad.combine:Boolean."
class Took(object):
    """stand-in for the triangulation: records the outline it is asked for and hands back a fresh surface"""
    def __init__(self): self.asked = []
    def __call__(self, ply, holepolys=[], minlen=0.5, minarea=0.0, checkclosed=False, **k):
        self.asked.append([list(p) for p in ply]); return ["surface", [list(p) for p in ply], [], [], [], []], []
def unmeasured(vc, Y):
    """measures of a figure are asked elsewhere; here they are unknown values"""
    vc.hook(Y, "length", lambda e: 1.0); vc.hook(Y, "center", lambda e: [0.0, 0.0, 0.0, 1.0]); vc.hook(Y, "bbox", lambda e: [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0]]); vc.hook(Y, "iscontinuousgeomlist", lambda e: True); vc.hook(Y, "isclosedgeomlist", lambda e: False); vc.hook(Y, "solidbbox", lambda e: [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0]])
@contract("C02.figure_object", [GY + n for n in ("__init__", "translate", "rotate", "scale", "mirror", "transform", "geom", "surface", "_setUpdate")])
def figure_object(vc):
    """a figure object wraps a copy: each move takes its figure to the image (the order of travel kept by a mirror), its surface, when asked for again, is that of the moved figure, and what it was made from is spared"""
    Y, P = vc.mod("yapcad.geometry"), vc.mod(G)
    k = vc.choice("kind", ["point", "line", "open", "polygon", "list", "arc"])
    if k == "arc": x = [vc.point("c"), [vc.real("r", 0.1, 10.0, pos=True), 30.0, 130.0, vc.choice("w", [-1, -2])]]; vc.assume(vc.ge(x[1][0], 1e-3))
    elif k == "point": x = vc.point("p")
    elif k == "line": x = pts(vc, "p", 2)
    elif k == "list": x = [pts(vc, "p", 2), pts(vc, "q", 2)]
    elif k == "open": x = pts(vc, "p", 3); away(vc, vc.vsub(x[0][:3], x[2][:3]))
    else: x = pts(vc, "p", 3); x.append(list(x[0]))
    x0 = vc.snapshot(x); took = Took(); closed = k == "polygon"
    vc.hook(Y, "poly2surface", took); unmeasured(vc, Y)
    g = Y.Geometry(x); vc.check("copy", vc.and_(vc.same(g.geom, x0), disjoint(x, g.elem), disjoint(g.elem, g.geom)))
    if closed: vc.check("closed", g.isclosed() and g.closed); g.surface(); g.surface(); vc.check("triangulated once", len(took.asked) == 1)
    op = vc.choice("op", ["translate", "rotate", "scale", "mirror", "transform"]); rev = False
    if op == "translate": d = offset(vc, "d"); g.translate(d); want = P.translate(x0, d)
    elif op == "rotate": c = offset(vc, "c"); g.rotate(90.0, c, [0.0, 0.0, 1.0, 1.0]); want = P.rotate(x0, 90.0, c, [0.0, 0.0, 1.0, 1.0])
    elif op == "scale": c = offset(vc, "c"); s = vc.real("s", 1.5, 4.0, pos=True); vc.assume(vc.ge(s, 1.01)); g.scale(s, cent=c); want = P.scale(x0, s, cent=c)
    elif op == "transform":
        if k == "arc": return
        M = vc.mod(X).Matrix([[vc.real("a%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]); g.transform(M); want = P.transform(x0, M)
    else: pl = vc.choice("plane", ["xy", "yz", "xz"]); rev = vc.choice("keep", [True, False]); g.mirror(pl, rev); want = P.mirror(x0, pl)
    got = g.geom
    if rev and k == "arc": vc.check("image, run the other way", vc.and_(vc.veq(got[0], want[0]), vc.veq(got[1][:3], want[1][:3]), got[1][3] == {-1: -2, -2: -1}[want[1][3]]))
    elif rev and k == "list": vc.check("image, run the other way", mapped(vc, got, [[q for q in reversed(l)] for l in reversed(want)], lambda p: list(p)))
    elif rev and k != "point": vc.check("image, run the other way", mapped(vc, got, list(reversed(want)), lambda p: list(p)))
    elif k == "arc": vc.check("image", vc.and_(vc.veq(got[0], want[0]), vc.veq(got[1], want[1])))
    else: vc.check("image", mapped(vc, got, want, lambda p: list(p)))
    if closed: s = g.surface(); vc.check("surface of the moved figure", vc.and_(len(took.asked) == 2, *[vc.veq(a, b) for a, b in zip(s[1], got)])); vc.check("still closed", g.isclosed())
    vc.check("input spared", vc.same(x, x0))
@contract("C02.figure_measures", [GY + n for n in ("length", "center", "bbox", "_updateInternals", "update", "elem")])
def figure_measures(vc):
    """length, centre and bounding box asked of a figure object are those of its present figure, also after it has been moved or its figure replaced"""
    Y, P = vc.mod("yapcad.geometry"), vc.mod(G)
    k = vc.choice("kind", ["point", "line", "open", "arc", "list"]); x = {"point": lambda: vc.point("p"), "line": lambda: pts(vc, "p", 2), "open": lambda: pts(vc, "p", 3), "list": lambda: [pts(vc, "p", 2)], "arc": lambda: [vc.point("c"), [2.0, 30.0, 130.0, -1]]}[k]()
    if k == "open": away(vc, vc.vsub(x[0][:3], x[2][:3]))
    asked = []; L, Q, B = vc.real("L"), vc.point("Q"), [vc.point("B0"), vc.point("B1")]
    for n, v in (("length", L), ("center", Q), ("bbox", B)): vc.hook(Y, n, lambda e, n=n, v=v: (asked.append((n, vc.snapshot(e))), v)[1])
    vc.hook(Y, "iscontinuousgeomlist", lambda e: True); vc.hook(Y, "isclosedgeomlist", lambda e: False)
    g = Y.Geometry(x)
    old = (g.length, g.center, g.bbox); del asked[:]
    how = vc.choice("then", ["translate", "scale", "replace"]); d = offset(vc, "d")
    if how == "translate": g.translate(d)
    elif how == "scale": g.scale(3.0, cent=d)
    else: g.elem = P.translate(x, d); g.update = True
    first = vc.choice("asked first", ["length", "center", "bbox", "geom", "isinsideXY"])
    if first == "isinsideXY": vc.hook(Y, "isinsideXY", lambda e, q: True); g.isinsideXY([0.0, 0.0, 0.0, 1.0])
    else: getattr(g, first)
    vc.check("as measured", vc.and_(vc.eq(g.length, L), vc.veq(g.center, Q), vc.veq(g.bbox[0], B[0]), vc.veq(g.bbox[1], B[1])))
    e = g.geom; vc.check("of the present figure", set(n for n, _ in asked) == {"length", "center", "bbox"}); vc.check("same figure", vc.and_(*[vc.and_(vc.veq(q[0], e[0]), vc.veq(q[1], e[1])) if k == "arc" else mapped(vc, q, e, lambda p: list(p)) for _, q in asked]))
@contract("C02.figure_solid", [GY + n for n in ("__init__", "translate", "rotate", "scale", "mirror")])
def figure_solid(vc):
    """moving a figure object that holds a solid moves the solid exactly as the solid functions do, whether or not boundary data is attached; the solid it was made from is spared"""
    Y, m = vc.mod("yapcad.geometry"), vc.mod(G3)
    x = ["solid", [a_surface(vc, "v", 3, False)], ["mat"], ["how"]]; 
    if vc.choice("metadata", [False, True]): x.append({"id": "z"})
    unmeasured(vc, Y); x0 = vc.snapshot(x); g = Y.Geometry(x); op, a, k, f, h, flip = motion(vc)
    vc.check("closed", g.isclosed()); getattr(g, op)(*a, **k); y = g.geom
    vc.check("kind", y[0] == "solid" and len(y) >= len(x0) and len(y[1]) == 1)
    for n, c in surface_image(vc, y[1][0], x0[1][0], f, h, flip): vc.check(n, c)
    vc.check("material and construction kept", vc.same(y[2:4], x0[2:4]))
    if len(x0) == 5: vc.check("metadata kept", y[4].get("id") == "z")
    vc.check("input spared", vc.same(x, x0)); vc.check("not shared", disjoint(x, g.elem))
@contract("C02.boolean_object", [BO + n for n in ("__init__", "translate", "rotate", "scale", "mirror", "transform", "geom", "_updateInternals", "_combine_geom", "_calcCenter")] + [PO + "cullZeroLength"])
def boolean_object(vc):
    """moving a combined figure moves every operand once by the same motion; what is asked of it afterwards is the combination of the moved operands, in order, whatever was asked first; the figures it was made from are spared"""
    C, Y, P = vc.mod("yapcad.combine"), vc.mod("yapcad.geometry"), vc.mod(G); ins = [pts(vc, "a", 3), pts(vc, "b", 3), pts(vc, "c", 3)][:vc.choice("operands", [2, 3])]
    figs = []
    for q in ins:
        q.append(list(q[0])); figs.append(Y.Geometry(q))
    before = [f.geom for f in figs]; kind = vc.choice("type", ["union", "intersection", "difference"]); calls = []; unmeasured(vc, Y)
    def both(g1, g2, t): calls.append(t); return [l for l in g1] + [l for l in g2]
    vc.hook(C, "combineglist", both); vc.hook(C, "geomlist2poly_with_holes", lambda gl, a, b, checkcont=False: (list(gl[0]), []) if len(gl) == 1 else ([gl[0][0]] + [l[1] for l in gl], []))
    vc.hook(C, "cullZeroLength", lambda r: list(r)); vc.hook(C, "length", lambda r: float(len(r))); vc.hook(C, "bbox", lambda r: ["box", r]); vc.hook(C, "center", lambda r: list(r[0]))
    b = C.Boolean(kind, figs); 
    if vc.choice("asked before", [False, True]): b.geom
    n0 = len(calls); d = offset(vc, "d"); op = vc.choice("op", ["translate", "scale", "mirror", "rotate"])
    if op == "translate": b.translate(d); img = lambda e: P.translate(e, d)
    elif op == "scale": b.scale(3.0, cent=d); img = lambda e: P.scale(e, 3.0, cent=d)
    elif op == "rotate": b.rotate(90.0, d); img = lambda e: P.rotate(e, 90.0, d)
    else: b.mirror("xz"); img = lambda e: list(reversed(P.mirror(e, "xz")))
    want = [img(e) for e in before]; first = vc.choice("asked first", ["geom", "bbox", "length", "center"]); getattr(b, first)
    vc.check("operands moved once", vc.and_(len(b.elem) == len(want), *[mapped(vc, o.geom, w, lambda p: list(p)) for o, w in zip(b.elem, want)]))
    out = b.geom; lines = [[w[i], w[i + 1]] for w in want for i in range(3)]
    if len(want) == 2: vc.check("combined in order", mapped(vc, out, lines, lambda p: list(p)))
    vc.check("combined as asked, once", calls[n0:] == [kind] * (len(want) - 1))
    vc.check("measures of it", b.length == float(len(out)) and b.bbox[0] == "box" and len(b.bbox[1]) == len(out) and len(b.center) == 4)
    vc.check("figures spared", vc.and_(*[vc.same(f.geom, e) for f, e in zip(figs, before)]))
    vc.check("combined once", len(calls) == n0 + len(want) - 1)
