import math
from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched
AN = "yapcad.analytic_surfaces"; A = AN + ":"; GE = "yapcad.geom"; G = GE + ":"
def cross(a, b): return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]
def long(vc, name, d):
    L = vc.real(name, 0.01, 10, pos=True); vc.assume(vc.ge(L, 0.001)); return [L * x for x in d]
def radius(vc, name="r"):
    r = vc.real(name, 0.01, 10, pos=True); vc.assume(vc.gt(r, 0.0, tol=0, scale=0)); return r
AXIAL = {"cylinder_surface": lambda m, o, d, vc: m.cylinder_surface(o, d, radius(vc), u_range=(0.5, 2.0), v_range=(1.0, 3.0)),
         "cone_surface": lambda m, o, d, vc: m.cone_surface(o, d, 0.7, u_range=(0.5, 2.0), v_range=(1.0, 3.0)),
         "torus_surface": lambda m, o, d, vc: m.torus_surface(o, d, 3.0, 2.0, u_range=(0.5, 2.0), v_range=(1.0, 3.0))}
@contract("C23.frame", [A + "cylinder_surface", A + "cone_surface", A + "torus_surface"])
def frame(vc):
    """an axis of any length gives a surface about the unit axis of that direction, with a unit reference direction square to it, at the given origin and with the given ranges"""
    m = vc.mod(AN); k = vc.choice("kind", sorted(AXIAL)); o = vc.point("o"); a = vc.unit3("a"); S = AXIAL[k](m, o if vc.choice("homogeneous", [True, False]) else o[:3], long(vc, "len", a), vc); me = S[2]
    vc.check("kind", S[0] == k and m.is_analytic_surface(S)); vc.check("origin", vc.veq(S[1], o)); vc.check("axis", vc.veq(me["axis"], list(a) + [0.0])); r = me["ref_direction"]; vc.check("reference", vc.and_(vc.eq(vc.vdot(r[:3], a), 0.0), vc.eq(vc.norm2(r[:3]), 1.0), r[3] == 0)); vc.check("ranges", me["u_range"] == (0.5, 2.0) and me["v_range"] == (1.0, 3.0))
@contract("C23.plane_frame", [A + "plane_surface", A + "is_plane_surface"])
def plane_frame(vc):
    """a plane's normal is the unit vector of the given direction, and its two parameter directions are unit, square to each other and to the normal, right handed"""
    m = vc.mod(AN); o = vc.point("o"); a = vc.unit3("a"); S = m.plane_surface(o if vc.choice("homogeneous", [True, False]) else o[:3], long(vc, "len", a), u_range=(0.5, 2.0), v_range=(1.0, 3.0)); me = S[2]; u, v = me["u_axis"], me["v_axis"]
    vc.check("kind", m.is_plane_surface(S)); vc.check("origin", vc.veq(S[1], o)); vc.check("normal", vc.veq(me["normal"], list(a) + [0.0])); vc.check("square", vc.and_(vc.eq(vc.vdot(u[:3], a), 0.0), vc.eq(vc.norm2(u[:3]), 1.0))); vc.check("right handed", vc.veq(v[:3], cross(a, u))); vc.check("ranges", me["u_range"] == (0.5, 2.0) and me["v_range"] == (1.0, 3.0))
def orthonormal(vc):
    R = vc.rotation("R"); return [R[i][2] for i in range(3)] + [0.0], [R[i][0] for i in range(3)] + [0.0], [R[i][1] for i in range(3)]
def around(vc, ref, third, u): return [vc.cos(u) * x + vc.sin(u) * y for x, y in zip(ref, third)]
def uv(vc): return vc.angle("u", "rad"), vc.angle("v", "rad")
@contract("C23.plane", [A + "evaluate_plane_surface", A + "plane_surface_normal", A + "evaluate_surface", A + "surface_normal"])
def plane(vc):
    """the point at (u, v) is the origin moved u and v along the two directions; the normal is the plane's, as a copy"""
    m = vc.mod(AN); o = vc.point("o"); a, x, y = orthonormal(vc); S = ["plane_surface", o, {"normal": a, "u_axis": x, "v_axis": y + [0.0]}]; u, v = vc.real("u"), vc.real("v"); W = [o[i] + u * x[i] + v * y[i] for i in range(3)] + [1.0]
    vc.check("point", vc.veq(m.evaluate_plane_surface(S, u, v), W)); vc.check("dispatch", vc.and_(vc.veq(m.evaluate_surface(S, u, v), W), vc.veq(m.surface_normal(S, u, v), a))); n = m.plane_surface_normal(S, u, v); vc.check("normal", vc.veq(n, a)); vc.check("own", n is not S[2]["normal"])
@contract("C23.sphere", [A + "sphere_surface", A + "is_sphere_surface", A + "evaluate_sphere_surface", A + "sphere_surface_normal", A + "evaluate_surface", A + "surface_normal"])
def sphere(vc):
    """the point at longitude u, latitude v lies at the radius from the centre in that direction, which is the normal"""
    m = vc.mod(AN); o = vc.point("o"); r = radius(vc); S = m.sphere_surface(o if vc.choice("homogeneous", [True, False]) else o[:3], r, u_range=(0.5, 2.0), v_range=(0.25, 1.0)); u, v = uv(vc); d = [vc.cos(v) * vc.cos(u), vc.cos(v) * vc.sin(u), vc.sin(v)]
    vc.check("kind", m.is_sphere_surface(S) and S[2]["u_range"] == (0.5, 2.0) and S[2]["v_range"] == (0.25, 1.0)); W = [c + r * e for c, e in zip(o, d)] + [1.0]; p = m.evaluate_sphere_surface(S, u, v); vc.check("point", vc.veq(p, W)); vc.check("radius", vc.eq(vc.norm2(vc.vsub(p[:3], o[:3])), r * r)); vc.check("normal", vc.veq(m.sphere_surface_normal(S, u, v), d + [0.0])); vc.check("dispatch", vc.and_(vc.veq(m.evaluate_surface(S, u, v), W), vc.veq(m.surface_normal(S, u, v), d + [0.0])))
@contract("C23.cylinder", [A + "evaluate_cylinder_surface", A + "cylinder_surface_normal", A + "evaluate_surface", A + "surface_normal", A + "is_cylinder_surface"])
def cylinder(vc):
    """the point at (u, v) lies v along the axis and the radius away from it, turned u about the axis from the reference direction (right handed); the normal points straight away from the axis"""
    m = vc.mod(AN); o = vc.point("o"); a, x, y = orthonormal(vc); r = radius(vc); S = ["cylinder_surface", o, {"axis": a, "radius": r, "ref_direction": x}]; u = vc.angle("u", "rad"); v = vc.real("v"); d = around(vc, x, y, u); p = m.evaluate_cylinder_surface(S, u, v); n = m.cylinder_surface_normal(S, u, v); W = [o[i] + v * a[i] + r * d[i] for i in range(3)] + [1.0]
    vc.check("point", vc.veq(p, W)); vc.check("normal", vc.veq(n, d + [0.0])); q = vc.vsub(p[:3], o[:3]); vc.check("distance", vc.and_(vc.eq(vc.vdot(q, a[:3]), v), vc.eq(vc.norm2(q), v * v + r * r))); vc.check("unit", vc.and_(vc.eq(vc.norm2(n[:3]), 1.0), vc.eq(vc.vdot(n[:3], a[:3]), 0.0))); vc.check("dispatch", vc.and_(vc.veq(m.evaluate_surface(S, u, v), W), vc.veq(m.surface_normal(S, u, v), d + [0.0])))
@contract("C23.cone", [A + "evaluate_cone_surface", A + "cone_surface_normal", A + "evaluate_surface", A + "surface_normal", A + "is_cone_surface"])
def cone(vc):
    """the point at (u, v) lies v from the apex at the half angle to the axis, turned u about it from the reference direction; the normal is unit, square to that ruling and to the turn, and points away from the axis"""
    m = vc.mod(AN); o = vc.point("o"); a, x, y = orthonormal(vc); h = vc.angle("half", "rad", 0.05, 1.5); vc.assume(vc.and_(vc.gt(vc.sin(h), 0.0), vc.gt(vc.cos(h), 0.0))); S = ["cone_surface", o, {"axis": a, "half_angle": h, "ref_direction": x}]; u = vc.angle("u", "rad"); v = vc.real("v"); d = around(vc, x, y, u); p = m.evaluate_cone_surface(S, u, v); n = m.cone_surface_normal(S, u, v)
    g = [vc.cos(h) * a[i] + vc.sin(h) * d[i] for i in range(3)]; W = [o[i] + v * g[i] for i in range(3)] + [1.0]; vc.check("point", vc.veq(p, W)); vc.check("unit", vc.and_(vc.eq(vc.norm2(n[:3]), 1.0), n[3] == 0)); vc.check("square to the ruling", vc.eq(vc.vdot(n[:3], g), 0.0)); vc.check("square to the turn", vc.eq(vc.vdot(n[:3], cross(a, d)), 0.0)); vc.check("outward", vc.eq(vc.vdot(n[:3], d), vc.cos(h))); vc.check("dispatch", vc.and_(vc.veq(m.evaluate_surface(S, u, v), W), vc.veq(m.surface_normal(S, u, v), n)))
@contract("C23.torus", [A + "evaluate_torus_surface", A + "torus_surface_normal", A + "evaluate_surface", A + "surface_normal", A + "is_torus_surface"])
def torus(vc):
    """the point at (u, v) lies the minor radius from the circle of the major radius, turned u about the axis and v about that circle; the normal points straight away from the circle"""
    m = vc.mod(AN); o = vc.point("o"); a, x, y = orthonormal(vc); R, r = radius(vc, "major"), radius(vc); S = ["torus_surface", o, {"axis": a, "major_radius": R, "minor_radius": r, "ref_direction": x}]; u, v = uv(vc); d = around(vc, x, y, u); p = m.evaluate_torus_surface(S, u, v); n = m.torus_surface_normal(S, u, v); g = [vc.cos(v) * d[i] + vc.sin(v) * a[i] for i in range(3)]; W = [o[i] + R * d[i] + r * g[i] for i in range(3)] + [1.0]
    vc.check("point", vc.veq(p, W)); vc.check("normal", vc.veq(n, g + [0.0])); vc.check("unit", vc.eq(vc.norm2(n[:3]), 1.0)); vc.check("dispatch", vc.and_(vc.veq(m.evaluate_surface(S, u, v), W), vc.veq(m.surface_normal(S, u, v), g + [0.0])))
@contract("C23.rejects", [A + "plane_surface", A + "sphere_surface", A + "cylinder_surface", A + "cone_surface", A + "torus_surface", A + "tessellated_surface", A + "evaluate_surface", A + "surface_normal", A + "tessellate_surface"])
def rejects(vc):
    """zero directions, radii that are not positive, cone angles outside (0, 90) degrees, tori that overlap themselves and values that are no surface are rejected; the smallest valid ones are not"""
    m = vc.mod(AN); z, a = [0.0, 0.0, 0.0], [0.0, 0.0, 1.0]; r = vc.real("r", -5, 5); R = vc.real("R", -5, 5)
    for nm, f in {"plane": lambda: m.plane_surface(z, z), "cylinder axis": lambda: m.cylinder_surface(z, z, 1.0), "cone axis": lambda: m.cone_surface(z, z, 0.5), "torus axis": lambda: m.torus_surface(z, z, 2.0, 1.0), "tess vertex": lambda: m.tessellated_surface([[0, 0]], [], []), "tess normal": lambda: m.tessellated_surface([], [[0, 0]], [])}.items(): e, _ = vc.raises(f); vc.check(nm, isinstance(e, ValueError))
    for nm, f in {"sphere": lambda: m.sphere_surface(z, r), "cylinder": lambda: m.cylinder_surface(z, a, r)}.items(): e, _ = vc.raises(f); vc.check(nm, vc.iff(isinstance(e, ValueError), vc.le(r, 0.0, tol=0, scale=0)))
    e, _ = vc.raises(m.torus_surface, z, a, R, r); vc.check("torus", vc.iff(isinstance(e, ValueError), vc.or_(vc.le(R, 0.0, tol=0, scale=0), vc.le(r, 0.0, tol=0, scale=0), vc.ge(r, R, tol=0, scale=0))))
    for h in (0.0, -0.1, math.pi / 2, 2.0): e, _ = vc.raises(m.cone_surface, z, a, h); vc.check("cone %g" % h, isinstance(e, ValueError))
    for x in (None, [], ["surface", [], {}], ["plane_surface", z + [1.0]], 5):
        for nm in ("evaluate_surface", "surface_normal", "evaluate_plane_surface", "evaluate_sphere_surface", "evaluate_cylinder_surface", "evaluate_cone_surface", "evaluate_torus_surface", "plane_surface_normal", "sphere_surface_normal", "cylinder_surface_normal", "cone_surface_normal", "torus_surface_normal"): e, _ = vc.raises(getattr(m, nm), x, 0.0, 0.0); vc.check("%s %s" % (nm, x), isinstance(e, ValueError))
        e, _ = vc.raises(m.tessellate_surface, x); vc.check("tessellate %s" % x, isinstance(e, ValueError))
@contract("C23.bspline_normal", [A + "bspline_surface_normal"])
def bspline_normal(vc):
    """whatever the surface, its reported normal is unit and square to the steps to the two neighbouring points, on the side of their right handed product in increasing parameters, also at the ends of the range"""
    m = vc.mod(AN); eu, ev = vc.choice("u at end", [False, True]), vc.choice("v at end", [False, True]); S = ["bspline_surface", [], {"u_range": (0.0, 2.0), "v_range": (0.0, 3.0)}]; d = 1e-6
    def inside(nm, hi): x = vc.real(nm, 0, hi); vc.assume(vc.and_(vc.ge(x, 0.0, tol=0, scale=0), vc.le(x, hi - 2 * d, tol=0, scale=0))); return x
    u = 2.0 if eu else inside("u", 2.0); v = 3.0 if ev else inside("v", 3.0)
    du, dv = (-d if eu else d), (-d if ev else d); P0, TU, TV = vc.vec3("p"), vc.vec3("tu"), vc.vec3("tv"); C = cross(TU, TV); vc.assume(vc.ge(vc.norm2(C), 1e-6)); asked = []
    def ev_(s, a, b):
        i, j = 0 if a is u else 1, 0 if b is v else 1; asked.append((i, j, a, b)); return [p + i * du * x + j * dv * y for p, x, y in zip(P0, TU, TV)] + [1.0]
    with patched(vc, AN, evaluate_bspline_surface=ev_, is_bspline_surface=lambda s: s is S): n = m.bspline_surface_normal(S, u, v)
    vc.check("neighbours", all(i + j <= 1 for i, j, _, _ in asked) and len(asked) >= 3); vc.check("step", vc.and_(*[vc.and_(vc.le(vc.abs(a - u - i * du), 1e-12, tol=1e-12, scale=0), vc.le(vc.abs(b - v - j * dv), 1e-12, tol=1e-12, scale=0)) for i, j, a, b in asked])); vc.check("unit", vc.eq(vc.norm2(n[:3]), 1.0, tol=1e-4)); vc.check("square", vc.and_(vc.eq(vc.vdot(n[:3], TU), 0.0, tol=1e-3), vc.eq(vc.vdot(n[:3], TV), 0.0, tol=1e-3))); vc.check("side", vc.gt(vc.vdot(n[:3], C), 0.0)); vc.check("direction", n[3] == 0)
def grid(n1, n2): return [(i, j) for j in range(n2 + 1) for i in range(n1 + 1)]
@contract("C23.tessellation", [A + "tessellate_surface"])
def tessellation(vc):
    """the mesh of any surface holds the surface points and normals of the regular parameter grid over its ranges; its triangles cover every grid cell once, all turned the way u and v turn, and its boundary walks once round the grid"""
    m = vc.mod(AN); nu, nv = vc.choice("nu", [1, 2, 3]), vc.choice("nv", [1, 2, 4]); u0, du, v0, dv = vc.real("u0"), vc.real("du"), vc.real("v0"), vc.real("dv"); S = ["plane_surface", [0.0, 0.0, 0.0, 1.0], {"u_range": (u0, u0 + du), "v_range": (v0, v0 + dv)}]; pts, nrm = [], []
    def ev(s, u, v): pts.append((u, v)); return ("p", len(pts) - 1)
    def no(s, u, v): nrm.append((u, v)); return ("n", len(nrm) - 1)
    with patched(vc, AN, evaluate_surface=ev, surface_normal=no): M = m.tessellate_surface(S, u_divisions=nu, v_divisions=nv)
    vc.check("kind", M[0] == "surface" and len(M) == 6 and M[5] == []); N = (nu + 1) * (nv + 1); vc.check("size", len(M[1]) == N and len(M[2]) == N and all(p[0] == "p" for p in M[1]) and all(p[0] == "n" for p in M[2]))
    P = [pts[k] for _, k in M[1]]; vc.check("same place", vc.and_(*[vc.and_(vc.eq(a[0], b[0]), vc.eq(a[1], b[1])) for a, b in zip(P, [nrm[k] for _, k in M[2]])])); at = {}
    for i, j in grid(nu, nv):
        k = j * (nu + 1) + i; vc.check("grid %d %d" % (i, j), vc.and_(vc.eq(P[k][0], u0 + du * i / nu), vc.eq(P[k][1], v0 + dv * j / nv))); at[k] = (i, j)
    area = 0; use = {}
    for t in M[3]:
        (x0, y0), (x1, y1), (x2, y2) = [at[i] for i in t]; a2 = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0); vc.check("turned like u and v", a2 == 1); area += a2
        for e in zip(t, t[1:] + t[:1]): use[e] = use.get(e, 0) + 1
    vc.check("covers", area == 2 * nu * nv and all(n == 1 for n in use.values())); rim = {e for e in use if (e[1], e[0]) not in use}; B = M[4]; vc.check("boundary", len(B) == len(rim) == 2 * (nu + nv) and set(zip(B, B[1:] + B[:1])) == rim)
@contract("C23.tessellated", [A + "tessellated_surface", A + "is_tessellated_surface", A + "evaluate_tessellated_surface", A + "tessellated_surface_normal", A + "tessellate_surface"])
def tessellated(vc):
    """a stored mesh comes back as it was given, points with weight 1 and directions with weight 0; its nominal points stay inside its box and reach the box's corners, its nominal normal is the unit mean direction"""
    m = vc.mod(AN); V = [vc.vec3("v%d" % i) for i in range(3)]; N = [vc.vec3("n%d" % i) for i in range(2)]; S = m.tessellated_surface(V, N, [(0, 1, 2)], u_range=(1.0, 3.0), v_range=(0.0, 5.0)); M = m.tessellate_surface(S)
    vc.check("kind", m.is_tessellated_surface(S) and m.is_analytic_surface(S) and M[0] == "surface"); vc.check("vertices", vc.and_(*[vc.veq(a, b + [1.0]) for a, b in zip(M[1], V)])); vc.check("normals", vc.and_(*[vc.veq(a, b + [0.0]) for a, b in zip(M[2], N)])); vc.check("faces", M[3] == [[0, 1, 2]] and len(M[1]) == 3 and len(M[2]) == 2)
    u = vc.real("u", 1, 3); v = vc.real("w", 0, 5); vc.assume(vc.and_(vc.ge(u, 1.0, tol=0, scale=0), vc.le(u, 3.0, tol=0, scale=0), vc.ge(v, 0.0, tol=0, scale=0), vc.le(v, 5.0, tol=0, scale=0))); lo = [vc.min(*[p[k] for p in V]) for k in range(3)]; hi = [vc.max(*[p[k] for p in V]) for k in range(3)]
    p = m.evaluate_surface(S, u, v); vc.check("along", vc.and_(vc.eq(p[0], lo[0] + (u - 1.0) / 2.0 * (hi[0] - lo[0])), vc.eq(p[1], lo[1] + v / 5.0 * (hi[1] - lo[1])), vc.eq(p[2], (lo[2] + hi[2]) / 2.0))); s = [a + b for a, b in zip(*N)]; vc.assume(vc.ge(vc.norm2(s), 1e-6)); n = m.surface_normal(S, u, v); vc.check("mean", vc.and_(vc.veq(cross(n, s), [0.0] * 3), vc.gt(vc.vdot(n[:3], s), 0.0), vc.eq(vc.norm2(n[:3]), 1.0)))

# ---------------------------------------------------------------- conics
PLANES = ["default", "up", "down", "tilted"]
def plane_of(vc):
    """(normal argument, the two directions of the plane that the XY axes are turned into)"""
    w = vc.choice("plane", PLANES)
    if w == "default": return None, [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
    if w == "up": return long(vc, "len", [0.0, 0.0, 1.0]), [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
    if w == "down": return long(vc, "len", [0.0, 0.0, -1.0]), [1.0, 0.0, 0.0], [0.0, -1.0, 0.0]
    n = vc.unit3("n"); x, y, z = n; vc.assume(vc.ge(x * x + y * y, 1e-4)); q = 1.0 / (1.0 + z); return list(n), [z + y * y * q, -x * y * q, -x], [-x * y * q, z + x * x * q, -y]
def turned(vc, X, Y, rot, x, y):
    c, s = vc.cosd(rot), vc.sind(rot); p, q = x * c - y * s, x * s + y * c; return [p * a + q * b for a, b in zip(X, Y)]
def check_tangent(vc, t, D, dx, dy):
    L = vc.sqrt(dx * dx + dy * dy); vc.check("tangent", vc.veq([x * L for x in t[:3]], D)); vc.check("unit", vc.and_(vc.eq(vc.norm2(t[:3]), 1.0), t[3] == 0))
def span(vc):
    """(start, end, parameter range start, sweep) in degrees: the whole ellipse, an arc, an arc through the zero angle"""
    w = vc.choice("arc", ["whole", "arc", "wrapping"])
    if w == "whole": return 0, 360, 0.0, 360.0
    s = vc.real("start", 0, 300, nonneg=True); d = vc.real("sweep", 5, 300, pos=True); vc.assume(vc.and_(vc.ge(s, 0.0, tol=0, scale=0), vc.lt(s, 360.0, tol=0, scale=0), vc.ge(d, 1.0, tol=0, scale=0), vc.lt(d, 360.0, tol=0, scale=0)))
    vc.assume(vc.le(s + d, 359.9, tol=0, scale=0) if w == "arc" else vc.ge(s + d, 360.1, tol=0, scale=0)); return s, (s + d if w == "arc" else s + d - 360.0), s, d
@contract("C23.ellipse", [G + "ellipse", G + "ellipse_sample", G + "isellipse"])
def ellipse(vc):
    """the point at parameter u is centre + a cos t, b sin t along the turned axes in the plane of the normal, t running from start to end (upwards, through 360 where needed); longer axis first, the turn follows it"""
    m = vc.mod(GE); a, b = radius(vc, "a"), radius(vc, "b"); rot = vc.angle("rot"); n, X, Y = plane_of(vc); c = vc.point("c"); s, e, t0, sw = span(vc); E = m.ellipse(c if vc.choice("homogeneous", [True, False]) else c[:3], a, b, rotation=rot, start=s, end=e, normal=n); me = E[2]; vc.check("kind", m.isellipse(E)); vc.check("centre", vc.veq(E[1], c))
    u = vc.choice("u", [0.0, 0.25, 1.0]); t = t0 + u * sw; sw_ = bool(vc.lt(a, b, tol=0, scale=0)) if vc.symbolic else a < b
    if sw_: a, b, rot = b, a, rot + 90.0
    vc.check("meta", vc.and_(vc.eq(me["semi_major"], a), vc.eq(me["semi_minor"], b), vc.eq(me["rotation"], rot))); vc.check("point", vc.veq(m.ellipse_sample(E, u), [p + q for p, q in zip(c, turned(vc, X, Y, rot, a * vc.cosd(t), b * vc.sind(t)))] + [1.0]))
def given(kind, c, **meta): return [kind, c, dict(meta)]
@contract("C23.ellipse_tangent", [G + "ellipse_tangent", G + "_direction_in_plane"])
def ellipse_tangent(vc):
    """the tangent is the unit derivative of the sample, in the plane of the ellipse"""
    m = vc.mod(GE); a, b = radius(vc, "a"), radius(vc, "b"); vc.assume(vc.and_(vc.ge(a, 0.01), vc.ge(b, 0.01))); rot = vc.angle("rot"); n, X, Y = plane_of(vc); s, e, t0, sw = span(vc); E = given("ellipse", [0.0, 0.0, 0.0, 1.0], semi_major=a, semi_minor=b, rotation=rot, start=s, end=e, normal=unit_normal(vc, n)); u = vc.choice("u", [0.0, 0.5, 1.0]); t = t0 + u * sw; vc.assume(vc.ge(vc.sqrt((a * vc.sind(t)) * (a * vc.sind(t)) + (b * vc.cosd(t)) * (b * vc.cosd(t))), 0.01)); check_tangent(vc, m.ellipse_tangent(E, u), turned(vc, X, Y, rot, -a * vc.sind(t), b * vc.cosd(t)), a * vc.sind(t), b * vc.cosd(t))
def unit_normal(vc, n):
    if n is None: return [0.0, 0.0, 1.0, 0.0]
    if isinstance(n[0], float) and n[0] == 0 and n[1] == 0: return [0.0, 0.0, 1.0 if n[2] > 0 else -1.0, 0.0]
    return list(n) + [0.0]
@contract("C23.parabola", [G + "parabola", G + "parabola_sample", G + "parabola_tangent", G + "isparabola", G + "_direction_in_plane"])
def parabola(vc):
    """the point at parameter u is vertex + t^2/(4f) along the turned axis and t across it, t running from start to end; the tangent is the unit derivative"""
    m = vc.mod(GE); f = radius(vc, "f"); rot = vc.angle("rot"); n, X, Y = plane_of(vc); c = vc.point("c"); s, e = vc.real("s"), vc.real("e"); C = m.parabola(c if vc.choice("homogeneous", [True, False]) else c[:3], f, rotation=rot, start=s, end=e, normal=n); u = vc.real("u", 0, 1); t = s + u * (e - s); vc.check("kind", m.isparabola(C)); vc.check("vertex", vc.veq(C[1], c))
    vc.check("point", vc.veq(m.parabola_sample(C, u), [p + q for p, q in zip(c, turned(vc, X, Y, rot, t * t / (4.0 * f), t))] + [1.0])); check_tangent(vc, m.parabola_tangent(C, u), turned(vc, X, Y, rot, t / (2.0 * f), 1.0), t / (2.0 * f), 1.0)
@contract("C23.hyperbola", [G + "hyperbola", G + "hyperbola_sample", G + "hyperbola_tangent", G + "ishyperbola", G + "_direction_in_plane"])
def hyperbola(vc):
    """the point at parameter u is centre + (branch) a cosh t along and b sinh t across the turned axis, t running from start to end; the tangent is the unit derivative"""
    m = vc.mod(GE); a, b = radius(vc, "a"), radius(vc, "b"); vc.assume(vc.and_(vc.ge(a, 0.01), vc.ge(b, 0.01))); rot = vc.angle("rot"); n, X, Y = plane_of(vc); c = vc.point("c"); s, e = vc.real("s", -2, 2), vc.real("e", -2, 2); br = vc.choice("branch", [1, -1]); C = m.hyperbola(c if vc.choice("homogeneous", [True, False]) else c[:3], a, b, rotation=rot, start=s, end=e, branch=br, normal=n); u = vc.real("u", 0, 1); t = s + u * (e - s); vc.check("kind", m.ishyperbola(C)); vc.check("centre", vc.veq(C[1], c))
    vc.check("point", vc.veq(m.hyperbola_sample(C, u), [p + q for p, q in zip(c, turned(vc, X, Y, rot, br * a * vc.cosh(t), b * vc.sinh(t)))] + [1.0])); check_tangent(vc, m.hyperbola_tangent(C, u), turned(vc, X, Y, rot, br * a * vc.sinh(t), b * vc.cosh(t)), a * vc.sinh(t), b * vc.cosh(t))
@contract("C23.conic_rejects", [G + "ellipse", G + "parabola", G + "hyperbola", G + "ellipse_sample", G + "parabola_sample", G + "hyperbola_sample"])
def conic_rejects(vc):
    """axes and focal lengths that are not positive, zero normals, unknown branches and values of another kind are rejected"""
    m = vc.mod(GE); c = [0.0, 0.0, 0.0, 1.0]; r = vc.real("r", -5, 5); z = [0.0, 0.0, 0.0]
    for nm, f in {"ellipse a": lambda: m.ellipse(c, r, 1.0), "ellipse b": lambda: m.ellipse(c, 1.0, r), "parabola": lambda: m.parabola(c, r), "hyperbola a": lambda: m.hyperbola(c, r, 1.0), "hyperbola b": lambda: m.hyperbola(c, 1.0, r)}.items(): e, _ = vc.raises(f); vc.check(nm, vc.iff(isinstance(e, ValueError), vc.le(r, 0.0, tol=0, scale=0)))
    for nm, f in {"ellipse n": lambda: m.ellipse(c, 2.0, 1.0, normal=z), "parabola n": lambda: m.parabola(c, 1.0, normal=z), "hyperbola n": lambda: m.hyperbola(c, 2.0, 1.0, normal=z), "branch": lambda: m.hyperbola(c, 2.0, 1.0, branch=0), "text": lambda: m.ellipse(c, "a", 1.0)}.items(): e, _ = vc.raises(f); vc.check(nm, isinstance(e, ValueError))
    L = {"ellipse": m.ellipse(c, 2.0, 1.0), "parabola": m.parabola(c, 1.0), "hyperbola": m.hyperbola(c, 2.0, 1.0)}
    for k, C in L.items():
        for j in L:
            if j == k: continue
            for f in ("sample", "tangent"): e, _ = vc.raises(getattr(m, "%s_%s" % (j, f)), C, 0.5); vc.check("%s %s of %s" % (j, f, k), isinstance(e, ValueError))
            for f in ("length", "bbox"): e, _ = vc.raises(getattr(m, "%s_%s" % (j, f)), C); vc.check("%s %s of %s" % (j, f, k), isinstance(e, ValueError))
@contract("C23.conic_measures", [G + "ellipse_length", G + "parabola_length", G + "hyperbola_length", G + "ellipse_bbox", G + "parabola_bbox", G + "hyperbola_bbox"])
def conic_measures(vc):
    """the length is that of the chain of sampled points from the start to the end, the box the smallest one that holds the sampled points"""
    m = vc.mod(GE); k = vc.choice("kind", ["ellipse", "parabola", "hyperbola"]); n = vc.choice("segments", [1, 2, 3]); P = [vc.point("p%d" % i) for i in range(n + 1)]
    with patched(vc, GE, **{k + "_sample": lambda c, u: P[int(round(u * n))], "is" + k: lambda c: True}): L = getattr(m, k + "_length")([k], segments=n); B = getattr(m, k + "_bbox")([k], segments=n)
    vc.check("length", vc.eq(L, vc._sum([vc.norm(vc.vsub(a[:3], b[:3])) for a, b in zip(P, P[1:])]))); vc.check("box", vc.and_(*[vc.and_(vc.eq(B[0][i], vc.min(*[p[i] for p in P])), vc.eq(B[1][i], vc.max(*[p[i] for p in P]))) for i in range(3)]))
