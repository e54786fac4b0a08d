import math, itertools
from pyvc.vc import contract
from contracts.lib import *
CO = "yapcad.assembly.constraint"; KI = "yapcad.assembly.kinematic_integration"
C = CO + ":Constraint."; K = KI + ":KinematicConstraint."
OPT = dict(oblig_ms=20000, samples=400, time_s=200)
class Bare:
    """the fields of a datum the constraints read"""
    def __init__(s, o, direction=None, normal=None): s.origin = list(o) + [1.0]; s.direction = None if direction is None else list(direction) + [0.0]; s.normal = None if normal is None else list(normal) + [0.0]
def within(vc, what, ok, err, tol): vc.check(what + ": passes exactly within tolerance", vc.iff(bool(ok), vc.le(err, tol)))
def angle_is(vc, what, e, c, fn="cosd", lo=0.0, hi=180.0):
    """e (degrees) is the angle with this cosine (sine); c is one of unit vectors, so within [-1,1]"""
    x = getattr(vc, fn)(e); vc.check(what + ": measured angle", vc.and_(vc.or_(vc.eq(x, c, tol=1e-6), vc.lt(c, -1.0), vc.lt(1.0, c)), vc.ge(e, lo, tol=1e-9), vc.le(e, hi, tol=1e-9)))
def absv(vc, x): return vc.ite(vc.ge(x, 0.0), x, -x)
def length(vc, n): k = vc.real(n, 0.1, 5, pos=True); vc.assume(vc.ge(k, 0.1)); return k

# ---------------------------------------------------------------- design constraints on datums
def design(vc, ty, **k):
    m = vc.mod(CO); return m.Constraint("c", m.ConstraintType[ty], "part", "datum", tolerance_deg=vc.real("tol deg", 0.1, 100, pos=True), tolerance_mm=vc.real("tol mm", 0.01, 5, pos=True), **k)
def radial(vc, o):
    """an origin off the centre: (origin, unit radial direction)"""
    c, s = vc.unit("radial", 2); rho = length(vc, "radius there"); return [o[0] + rho * c, o[1] + rho * s, vc.real("z")], [c, s], rho
def carrier(vc, d, prefer):
    """the direction on a direction or a normal field (or both, the preferred one counting)"""
    k = vc.choice("carried by", ["direction", "normal", "both"]); other = [0.0, 0.6, 0.8]
    if k == "both": return dict(direction=d, normal=other) if prefer == "direction" else dict(direction=other, normal=d)
    return {k: d}
@contract("C09.tangent", [C + "evaluate", C + "_check_tangent_to_circle", CO + ":is_tangent_to_circle"], **OPT)
def tangent(vc):
    """tangent: the deviation is the angle in the plane between the direction and the tangent (perpendicular to the radius); vertical directions are tangent"""
    o = vc.vec3("centre"); p, (c, s), rho = radial(vc, o); k = design(vc, "TANGENT_TO_CIRCLE", center=tuple(o), radius=vc.real("R", 0.1, 9)); up = vc.choice("vertical", [0, 1]); x, y = vc.unit("planar direction", 2); h = length(vc, "h"); d = [0.0, 0.0, h] if up else [h * x, h * y, vc.real("dz")]
    r = k.evaluate(Bare(p, **carrier(vc, d, "direction"))); f = vc.mod(CO).is_tangent_to_circle(tuple(p), tuple(d), tuple(o), 1.0, k.tolerance_deg)
    if up: vc.check("vertical", vc.and_(r.passed is True, vc.eq(r.error_value, 0.0), f is True)); return
    angle_is(vc, "tangent", r.error_value, absv(vc, c * x + s * y), "sind", 0.0, 90.0); within(vc, "tangent", r.passed, r.error_value, k.tolerance_deg); vc.check("helper agrees", bool(f) == bool(r.passed))
@contract("C09.radial", [C + "evaluate", C + "_check_radial", CO + ":is_radial_from_center"], **OPT)
def radial_(vc):
    """radial: the deviation is the angle between the direction and the outward (inward) radius"""
    o = vc.vec3("centre"); p, (c, s), rho = radial(vc, o); w = vc.choice("way", ["outward", "inward"]); k = design(vc, "RADIAL_FROM_CENTER", center=tuple(o), direction=w); u = vc.unit("direction", 3) if vc.choice("general", [1, 0]) else [c, s, 0.0]; h = length(vc, "h"); d = [h * q for q in u]
    r = k.evaluate(Bare(p, **carrier(vc, d, "normal"))); f = vc.mod(CO).is_radial_from_center(tuple(p), tuple(d), tuple(o), w, k.tolerance_deg); g = 1.0 if w == "outward" else -1.0
    angle_is(vc, "radial", r.error_value, g * (c * u[0] + s * u[1])); within(vc, "radial", r.passed, r.error_value, k.tolerance_deg); vc.check("helper agrees", bool(f) == bool(r.passed))
@contract("C09.facing", [C + "evaluate", C + "_check_facing", C + "_parse_direction"], **OPT)
def facing(vc):
    """facing: the deviation is the angle between the normal and the named global direction"""
    n = vc.choice("to", ["+x", "-x", "+Y", "-y", "+z", "-Z"]); k = design(vc, "FACING", direction=n); u = vc.unit("normal", 3); h = length(vc, "h"); t = ("xyz".index(n[1].lower()), 1.0 if n[0] == "+" else -1.0); r = k.evaluate(Bare(vc.vec3("p"), direction=[0.6, 0.8, 0.0], normal=[h * q for q in u]))
    angle_is(vc, "facing", r.error_value, t[1] * u[t[0]]); within(vc, "facing", r.passed, r.error_value, k.tolerance_deg)
@contract("C09.at_radius", [C + "evaluate", C + "_check_at_radius"], **OPT)
def at_radius(vc):
    """at a radius: the deviation is the difference between the planar distance from the centre and the radius"""
    o = vc.vec3("centre"); p, cs, rho = radial(vc, o); R = vc.real("R", 0.1, 9); k = design(vc, "AT_RADIUS", center=tuple(o), radius=R); r = k.evaluate(Bare(p)); e = absv(vc, rho - R)
    vc.check("deviation", vc.eq(r.error_value, e)); within(vc, "at radius", r.passed, e, k.tolerance_mm)
@contract("C09.axis", [C + "evaluate", C + "_check_parallel", C + "_check_perpendicular"], **OPT)
def axis(vc):
    """parallel (either way) and perpendicular to an axis: the deviation is the angle from that"""
    ty = vc.choice("type", ["PARALLEL_TO", "PERPENDICULAR_TO"]); a, u = vc.unit("axis", 3), vc.unit("direction", 3); k = design(vc, ty, axis=tuple(length(vc, "l") * q for q in a)); h = length(vc, "h"); r = k.evaluate(Bare(vc.vec3("p"), **carrier(vc, [h * q for q in u], "direction"))); c = absv(vc, vc.vdot(a, u))
    if ty == "PARALLEL_TO": angle_is(vc, "parallel", r.error_value, c)
    else: angle_is(vc, "perpendicular", r.error_value, c, "sind", 0.0, 90.0)
    within(vc, "axis", r.passed, r.error_value, k.tolerance_deg)
@contract("C09.missing", [C + "evaluate"] + [C + n for n in ("_check_tangent_to_circle", "_check_radial", "_check_facing", "_check_at_radius", "_check_parallel", "_check_perpendicular")])
def missing(vc):
    """a design constraint whose parameters are missing or meaningless, or whose datum lacks what it measures, never passes"""
    o, r = (0.0, 0.0, 0.0), 5.0; d = Bare([5.0, 0.0, 0.0], direction=[0.0, 1.0, 0.0], normal=[1.0, 0.0, 0.0]); none = Bare([5.0, 0.0, 0.0])
    for ty, full in (("TANGENT_TO_CIRCLE", dict(center=o, radius=r)), ("RADIAL_FROM_CENTER", dict(center=o, direction="outward")), ("FACING", dict(direction="+x")), ("AT_RADIUS", dict(center=o, radius=r)), ("PARALLEL_TO", dict(axis=(0.0, 1.0, 0.0))), ("PERPENDICULAR_TO", dict(axis=(1.0, 0.0, 0.0)))):
        vc.check(ty + " complete", design(vc, ty, **full).evaluate(d).passed)
        for miss in full: vc.check(ty + " without " + miss, not design(vc, ty, **{k: v for k, v in full.items() if k != miss}).evaluate(d).passed)
        if ty != "AT_RADIUS": vc.check(ty + " without a direction", not design(vc, ty, **full).evaluate(none).passed)
    for bad in (dict(direction="up"), dict(direction="")): vc.check("unknown direction", not design(vc, "FACING", **bad).evaluate(d).passed)
    vc.check("unknown way", not design(vc, "RADIAL_FROM_CENTER", center=o, direction="up").evaluate(d).passed)
    for ty in ("TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER"): vc.check("at the centre", not design(vc, ty, center=(5.0, 0.0, 1.0), radius=r, direction="outward").evaluate(d).passed)
    for ty in ("PARALLEL_TO", "PERPENDICULAR_TO"): vc.check("zero axis", not design(vc, ty, axis=(0.0, 0.0, 0.0)).evaluate(d).passed)
    for ty in ("ON_CIRCLE", "IN_PLANE", "MIN_DISTANCE", "NO_INTERFERENCE"): vc.check("nothing to evaluate " + ty, not design(vc, ty, center=o, radius=r).evaluate(d).passed)
    for v in (True, False):
        seen = []; vc.check("custom", bool(design(vc, "CUSTOM", validator=lambda q: seen.append(q) or v).evaluate(d).passed) == v and seen == [d])
    def boom(q): raise RuntimeError("x")
    vc.check("failing validator", not design(vc, "CUSTOM", validator=boom).evaluate(d).passed); vc.check("no validator", not design(vc, "CUSTOM").evaluate(d).passed)

@contract("C09.helpers", [CO + ":angle_between_vectors", CO + ":distance_to_point", CO + ":dot_product"], **OPT)
def helpers(vc):
    """the measuring helpers: angle, distance, scalar product"""
    m = vc.mod(CO); a, b = vc.unit("a", 3), vc.unit("b", 3); k, l = length(vc, "k"), length(vc, "l"); A, B = [k * q for q in a], [l * q for q in b]; angle_is(vc, "angle", m.angle_between_vectors(tuple(A), tuple(B)), vc.vdot(a, b))
    vc.check("dot", vc.eq(m.dot_product(tuple(A), tuple(B)), vc.vdot(A, B))); P = vc.vec3("P"); Q = [p + k * q for p, q in zip(P, a)]; vc.check("distance", vc.eq(m.distance_to_point(tuple(P), tuple(Q)), k))

# ---------------------------------------------------------------- constraints between kinematic frames
AX = {"x": (0, 1.0), "Y": (1, 1.0), "z": (2, 1.0), "-x": (0, -1.0), "-y": (1, -1.0), "-Z": (2, -1.0)}
def frame(vc, n, ax=None, origin=None, obj=False):
    """a pose of which the constraint reads one axis (any unit vector) and the origin; the runs use true rigid poses"""
    if vc.symbolic:
        u = vc.unit(n + " axis", 3) if ax else None; i, g = AX[ax] if ax else (0, 1.0); M = [[vc.real("%s%d%d" % (n, r, c)) for c in range(3)] for r in range(3)]
        if ax:
            for r in range(3): M[r][i] = u[r]
        w = [g * q for q in u] if ax else None
    else: M = vc.rotation(n); i, g = AX[ax] if ax else (0, 1.0); w = [g * M[r][i] for r in range(3)]
    o = origin if origin is not None else vc.vec3(n + " origin"); return vc.array([M[r] + [o[r]] for r in range(3)] + [[0.0, 0.0, 0.0, 1.0]]), w, o
class T:
    def __init__(s, m): s.matrix = m
def kin(vc, ty, **k):
    m = vc.mod(KI); return m.KinematicConstraint("k", m.KinematicConstraintType[ty], "A", tolerance_deg=vc.real("tol deg", 0.1, 100, pos=True), tolerance_mm=vc.real("tol mm", 0.01, 5, pos=True), **k)
def away(vc, p, n="off"):
    """a point at a known distance from p"""
    u = vc.unit(n + " towards", 3); d = vc.real(n, 0, 3, nonneg=True); return [a + d * b for a, b in zip(p, u)], d
def world(vc, A, B=None): w = vc.choice("given as", ["arrays", "transforms"]); f = (lambda m: m) if w == "arrays" else T; return {"A": f(A), **({"B": f(B)} if B is not None else {})}

@contract("C09.k_local_axis", [K + "_get_local_axis", K + "_transform_vector", K + "_get_origin"], **OPT)
def k_local_axis(vc):
    """named axes are the unit axes, a vector is normalised, anything else is invalid; directions turn, origins are the translation"""
    k = kin(vc, "PARALLEL"); u = vc.unit("u", 3); l = length(vc, "l")
    for n, (i, g) in AX.items(): v = k._get_local_axis(n); vc.check("named " + n, [float(v[j]) for j in range(3)] == [g if j == i else 0.0 for j in range(3)])
    v = k._get_local_axis(tuple(l * q for q in u)); vc.check("vector", vc.veq([v[i] for i in range(3)], u)); vc.check("invalid", k._get_local_axis("w") is None and k._get_local_axis((0.0, 0.0, 0.0)) is None)
    R = vc.rigid("M", as_array=False); M = vc.array(R); t = k._transform_vector(M, vc.array(u)); vc.check("turned", vc.veq([t[i] for i in range(3)], vc.applydir(R, u))); o = k._get_origin(M); vc.check("origin", vc.veq([o[i] for i in range(3)], [r[3] for r in R[:3]])); o[0] = 99.0; vc.check("a copy", vc.eq(M[0, 3], R[0][3]))

@contract("C09.k_coincident", [K + "evaluate", K + "_evaluate_coincident"], **OPT)
def k_coincident(vc):
    """coincident: the deviation is the distance of the two origins, or of the origin from the reference point"""
    A, _, o = frame(vc, "a"); p, d = away(vc, o); ref = vc.choice("reference", [0, 1]); k = kin(vc, "COINCIDENT", frame_b=None if ref else "B", reference_center=tuple(p) if ref else (9.0, 9.0, 9.0)); B = None if ref else frame(vc, "b", origin=p)[0]; r = k.evaluate(world(vc, A, B)); vc.check("deviation", vc.eq(r.error, d)); within(vc, "coincident", r.satisfied, d, k.tolerance_mm)
@contract("C09.k_at_distance", [K + "evaluate", K + "_evaluate_at_distance"], **OPT)
def k_at_distance(vc):
    """at a distance: the deviation is the difference between the distance of the origins and the asked one"""
    A, _, o = frame(vc, "a"); p, d = away(vc, o); ref = vc.choice("reference", [0, 1]); R = vc.real("R", 0, 3, nonneg=True); k = kin(vc, "AT_DISTANCE", frame_b=None if ref else "B", reference_center=tuple(p) if ref else None, reference_radius=R); B = None if ref else frame(vc, "b", origin=p)[0]; r = k.evaluate(world(vc, A, B)); e = absv(vc, d - R); vc.check("deviation", vc.eq(r.error, e)); within(vc, "at distance", r.satisfied, e, k.tolerance_mm)
def axes(vc, ty, place, **kw):
    """two frames' axes, or a frame's and a reference"""
    ax, bx = vc.choice("axes", [("z", "z"), ("-x", "Y")]); ref = vc.choice("reference", [0, 1]); A, a, o = frame(vc, "a", ax); p = place(a, o)
    if ref: b = vc.unit("reference dir", 3); l = length(vc, "l"); k = kin(vc, ty, axis_a=ax, **{("reference_normal" if ty == "BOLT_PATTERN" else "reference_axis"): tuple(l * q for q in b)}, reference_center=None if p is None else tuple(p), **kw); B = None
    else: B, b, _ = frame(vc, "b", bx, p); k = kin(vc, ty, axis_a=ax, axis_b=bx, frame_b="B", **kw)
    return k, k.evaluate(world(vc, A, B)), a, b
@contract("C09.k_axes", [K + "evaluate", K + "_evaluate_parallel", K + "_evaluate_perpendicular"], **OPT)
def k_axes(vc):
    """parallel (either way) and perpendicular: the deviation is the angle of the turned axes from that"""
    ty = vc.choice("type", ["PARALLEL", "PERPENDICULAR"]); k, r, a, b = axes(vc, ty, lambda a, o: None); c = absv(vc, vc.vdot(a, b))
    if ty == "PARALLEL": angle_is(vc, "parallel", r.error, c)
    else: angle_is(vc, "perpendicular", r.error, c, "sind", 0.0, 90.0)
    within(vc, "axes", r.satisfied, r.error, k.tolerance_deg)
@contract("C09.k_concentric", [K + "evaluate", K + "_evaluate_concentric"], **OPT)
def k_concentric(vc):
    """concentric: passes exactly when the axes are parallel (either way) within the angular tolerance and the other origin is off the axis by no more than the linear tolerance"""
    d = vc.real("off axis", 0, 1, nonneg=True); h = vc.real("along"); box = {}
    def place(a, o):                                # any point: along the axis by h and off it by d, in the direction of any vector perpendicular to it
        q = vc.unit("off towards", 3)
        if vc.symbolic: vc.assume(vc.eq(vc.vdot(q, a), 0.0)); w = q
        else: w = vc.vcross(a, q); n = math.sqrt(sum(x * x for x in w)); vc.assume(n > 1e-3); w = [x / n for x in w]
        return [x + h * y + d * z for x, y, z in zip(o, a, w)]
    k, r, a, b = axes(vc, "CONCENTRIC", place); ang, perp = r.details["angle_error_deg"], r.details["perpendicular_distance"]
    angle_is(vc, "concentric", ang, absv(vc, vc.vdot(a, b))); vc.check("off the axis", vc.eq(perp, d)); vc.check("passes exactly within both tolerances", vc.iff(bool(r.satisfied), vc.and_(vc.le(ang, k.tolerance_deg), vc.le(perp, k.tolerance_mm)))); vc.check("deviation is the larger", vc.eq(r.error, vc.max(ang, perp)))
@contract("C09.k_bolts", [K + "evaluate", K + "_evaluate_bolt_pattern"], **OPT)
def k_bolts(vc):
    """bolt pattern: passes exactly when centres coincide and normals are parallel within tolerance"""
    box = {}
    def place(a, o): p, box["d"] = away(vc, o); return p
    k, r, a, b = axes(vc, "BOLT_PATTERN", place, pattern_count=4, pattern_radius=10.0); ang = r.details["angle_error_deg"]; angle_is(vc, "bolts", ang, absv(vc, vc.vdot(a, b))); vc.check("passes exactly within both tolerances", vc.iff(bool(r.satisfied), vc.and_(vc.le(ang, k.tolerance_deg), vc.le(box["d"], k.tolerance_mm)))); vc.check("deviation is the larger", vc.eq(r.error, vc.max(ang, box["d"])))
@contract("C09.k_tangent", [K + "evaluate", K + "_evaluate_tangent"], **OPT)
def k_tangent(vc):
    """tangent: the deviation is the angle in the plane between the turned axis and the tangent at the origin of the frame"""
    o = vc.vec3("centre"); p, (c, s), rho = radial(vc, o); ax = vc.choice("axis", ["y", "-x", "Z"]); i, g = {"y": (1, 1.0), "-x": (0, -1.0), "Z": (2, 1.0)}[ax]; up = vc.choice("vertical", [0, 1])
    if vc.symbolic:
        x, y = vc.unit("planar direction", 2); h = length(vc, "h"); M = [[vc.real("m%d%d" % (a, b)) for b in range(3)] for a in range(3)]; v = [0.0, 0.0, 1.0] if up else [h * x, h * y, vc.real("dz")]
        for j in range(3): M[j][i] = g * v[j]
    else:
        M = vc.rotation("m"); 
        if up: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]; vc.assume(ax == "Z")
        v = [g * M[j][i] for j in range(3)]; h = math.hypot(v[0], v[1]); vc.assume(up or h > 1e-3); x, y = (v[0] / h, v[1] / h) if not up else (0.0, 0.0)
    k = kin(vc, "TANGENT", axis_a=ax, reference_center=tuple(o)); r = k.evaluate(world(vc, vc.array([M[j] + [p[j]] for j in range(3)] + [[0.0, 0.0, 0.0, 1.0]])))
    if up: vc.check("vertical", vc.and_(r.satisfied is True, vc.eq(r.error, 0.0))); return
    angle_is(vc, "tangent", r.error, absv(vc, c * x + s * y), "sind", 0.0, 90.0); within(vc, "tangent", r.satisfied, r.error, k.tolerance_deg)

def box(vc, n):
    lo = vc.vec3(n + " lo"); sz = [vc.real("%s size%d" % (n, i), 0, 4, nonneg=True) for i in range(3)]; return (tuple(lo), tuple(a + b for a, b in zip(lo, sz)))
@contract("C09.k_box", [K + "_transform_aabb"], lazymin=True, time_s=200, samples=400)
def k_box(vc):
    """the world box of a turned box is the tightest: it holds every point of the box, and each side touches a corner"""
    k = kin(vc, "NO_OVERLAP"); b = box(vc, "b"); M = [[vc.real("m%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]] if vc.symbolic else vc.rigid("m", as_array=False); lo, hi = k._transform_aabb(vc.array(M), b)
    for i in range(3):                              # per axis: centre -/+ the sum of the half sizes times |entry|
        s = [M[i][j] * b[0][j] for j in range(3)]; e = [M[i][j] * b[1][j] for j in range(3)]
        vc.check("low", vc.eq(lo[i], vc._sum([M[i][3]] + [vc.min(x, y) for x, y in zip(s, e)]))); vc.check("high", vc.eq(hi[i], vc._sum([M[i][3]] + [vc.max(x, y) for x, y in zip(s, e)])))
@contract("C09.k_faces", [K + "_get_face_position", K + "_get_standard_face_offset"], samples=300)
def k_faces(vc):
    """a face is where it says: the middle of the named side of the box as placed, or the origin of the named frame; anything else is an error"""
    k = kin(vc, "COINCIDENT"); b = box(vc, "b"); M = [[vc.real("m%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]; W = vc.array(M); F, _, q = frame(vc, "f"); w = vc.choice("given as", ["arrays", "transforms"]); w = {"P.SHAFT": F if w == "arrays" else T(F), "LOOSE": F if w == "arrays" else T(F)}
    for n, i, side in (("TOP", 2, 1), ("bottom", 2, 0), ("FRONT", 1, 1), ("Back", 1, 0), ("RIGHT", 0, 1), ("LEFT", 0, 0)):
        l = [(x + y) / 2.0 for x, y in zip(*b)]; l[i] = b[side][i]; p, e = k._get_face_position("P", W, n, b, w); vc.check("side " + n, e is None and vc.veq([p[j] for j in range(3)], vc.apply(M, l))); vc.check("no box", k._get_face_position("P", W, n, None, {})[1] is not None)
    for n in ("SHAFT", "LOOSE"): p, e = k._get_face_position("P", W, n, b, w); vc.check("frame " + n, e is None and vc.veq([p[j] for j in range(3)], q))
    p, e = k._get_face_position("P", W, None, b, w); vc.check("no face", e is None and vc.veq([p[j] for j in range(3)], [r[3] for r in M[:3]])); vc.check("unknown", k._get_face_position("P", W, "NOPE", b, w)[1] is not None)
@contract("C09.k_face_used", [K + "evaluate", K + "_evaluate_coincident", K + "_evaluate_at_distance", K + "_evaluate_min_distance"], samples=300)
def k_face_used(vc):
    """where faces are given, distances are measured between them; a face that cannot be found fails the constraint"""
    ty = vc.choice("type", ["COINCIDENT", "AT_DISTANCE", "MIN_DISTANCE"]); A, _, o = frame(vc, "a"); B, _, p = frame(vc, "b"); q = vc.vec3("q"); s, d = away(vc, q); which = vc.choice("faces", ["both", "a", "b"]); fa, fb = which != "b", which != "a"; kk = dict(face_a="fa" if fa else None, face_b="fb" if fb else None)
    if not fa: A = frame(vc, "a2", origin=q)[0]
    if not fb: B = frame(vc, "b2", origin=s)[0]
    k = kin(vc, ty, frame_b="B", reference_radius=0.0, **kk); w = {"A": A, "B": B, "A.fa": frame(vc, "fa", origin=q)[0], "B.fb": frame(vc, "fb", origin=s)[0]}; r = k.evaluate(w); vc.check("distance", vc.eq(r.details["actual_distance" if ty != "COINCIDENT" else "distance"], d))
    if ty != "MIN_DISTANCE": within(vc, "faces", r.satisfied, d, k.tolerance_mm)
    for n in (["A.fa"] if fa else []) + (["B.fb"] if fb else []): vc.check("face missing", not k.evaluate({m: v for m, v in w.items() if m != n}).satisfied)
    r2 = k.evaluate(w); vc.check("again", bool(r2.satisfied) == bool(r.satisfied))

def boxes(vc, k):
    """two world boxes in the place of the turned ones (the contract of _transform_aabb: C09.k_box)"""
    a, b = box(vc, "a"), box(vc, "b"); A, B = vc.array(vc.ident(4)), vc.array(vc.ident(4)); k.frame_b = "B"; k.bounds_a, k.bounds_b = a, b; return a, b, {"A": A, "B": B}
@contract("C09.k_no_overlap", [K + "evaluate", K + "_evaluate_no_overlap"], **OPT)
def k_no_overlap(vc):
    """no overlap: passes exactly when the boxes share no point; the deviation is the least move that parts them; without any shape nothing is measured and the result says so"""
    k = kin(vc, "NO_OVERLAP"); a, b, w = boxes(vc, k); r = k.evaluate(w); g = [vc.max(a[0][i] - b[1][i], b[0][i] - a[1][i]) for i in range(3)]; sep = vc.max(g[0], vc.max(g[1], g[2])); vc.check("verdict", vc.iff(bool(r.satisfied), vc.gt(sep, 0.0)))
    vc.check("deviation", vc.eq(r.error, 0.0) if r.satisfied else vc.eq(r.error, -sep)); k.bounds_b = None; r = k.evaluate(w); vc.check("skipped is said", bool(r.details.get("skipped"))); k.frame_b = None; vc.check("one part", not k.evaluate(w).satisfied)
@contract("C09.k_min_distance", [K + "evaluate", K + "_evaluate_min_distance", K + "_calculate_bbox_separation"], **OPT)
def k_min_distance(vc):
    """minimum distance: between boxes it is the distance of the closest points (negative, the least penetration, when they overlap), otherwise the distance of the origins; passes exactly when it is at least the asked one"""
    how = vc.choice("between", ["boxes", "origins", "reference", "one box"]); k = kin(vc, "MIN_DISTANCE"); k.reference_radius = need = vc.real("need", 0, 3, nonneg=True)
    if how == "boxes":
        a, b, w = boxes(vc, k); r = k.evaluate(w); d = r.details["actual_distance"]; g = [vc.max(a[0][i] - b[1][i], b[0][i] - a[1][i]) for i in range(3)]; sep = vc.max(g[0], vc.max(g[1], g[2])); p = [vc.max(x, 0.0) for x in g]
        vc.check("distance apart", vc.implies(vc.gt(sep, 0.0), vc.and_(vc.gt(d, 0.0), vc.eq(d * d, vc._sum([x * x for x in p]))))); vc.check("penetration", vc.implies(vc.le(sep, 0.0), vc.eq(d, sep)))
    else:
        A, _, o = frame(vc, "a"); p, d = away(vc, o); 
        if how == "one box": k.bounds_a = box(vc, "x")
        if how == "reference": k.reference_center = tuple(p); w = {"A": A}
        else: k.frame_b = "B"; w = {"A": A, "B": frame(vc, "b", origin=p)[0]}
        r = k.evaluate(w)
    vc.check("verdict", vc.iff(bool(r.satisfied), vc.ge(d, need))); vc.check("deviation", vc.eq(r.error, vc.max(0.0, need - d)))
@contract("C09.k_z_stack", [K + "evaluate", K + "_evaluate_z_stack_clearance"], **OPT)
def k_z_stack(vc):
    """stacked parts: the height ranges of the placed boxes (any way up) are apart by at least the clearance; the deviation is what is lacking"""
    k = kin(vc, "Z_STACK_CLEARANCE"); a, b, w = boxes(vc, k); k.reference_radius = vc.choice("clearance", [None, 1]) and vc.real("clearance mm", 0, 3, nonneg=True); need = k.reference_radius or 0.0 if not vc.symbolic else (k.reference_radius if k.reference_radius is not None else 0.0)
    turn = vc.choice("turned", ["no", "over", "side"]); Rs = {"no": vc.ident(4), "over": [[1.0, 0.0, 0.0, 0.0], [0.0, -1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, 1.0]], "side": [[1.0, 0.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]]}[turn]; dz = vc.real("dz"); M = [r[:] for r in Rs]; M[2][3] = dz; w["A"] = vc.array(M)
    lo, hi = {"no": (a[0][2], a[1][2]), "over": (-a[1][2], -a[0][2]), "side": (a[0][1], a[1][1])}[turn]; lo, hi = lo + dz, hi + dz; gap = vc.max(lo, b[0][2]) - vc.min(hi, b[1][2]); r = k.evaluate(w)
    vc.check("verdict", vc.iff(bool(r.satisfied), vc.and_(vc.ge(gap, 0.0), vc.ge(gap, need)))); vc.check("deviation", vc.eq(r.error, vc.max(0.0, need - gap)))
@contract("C09.k_missing", [K + "evaluate"])
def k_missing(vc):
    """a kinematic constraint that lacks a frame, an axis or a required parameter never passes, and never raises"""
    I = vc.array(vc.ident(4)); w = {"A": I, "B": vc.array(vc.ident(4))}; bb = ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)); up = ((0.0, 0.0, 5.0), (1.0, 1.0, 6.0)); c3 = (0.0, 0.0, 0.0); z = (0.0, 0.0, 1.0)
    full = [("COINCIDENT", dict(frame_b="B"), ["frame_b"]), ("COINCIDENT", dict(reference_center=c3), ["reference_center"]), ("CONCENTRIC", dict(frame_b="B"), ["frame_b"]), ("CONCENTRIC", dict(reference_center=c3, reference_axis=z), ["reference_center", "reference_axis"]), ("PARALLEL", dict(frame_b="B"), ["frame_b"]), ("PARALLEL", dict(reference_axis=z), ["reference_axis"]), ("PERPENDICULAR", dict(reference_axis=(1.0, 0.0, 0.0)), ["reference_axis"]), ("TANGENT", dict(reference_center=(5.0, 0.0, 0.0), axis_a="y"), ["reference_center"]),
            ("AT_DISTANCE", dict(frame_b="B", reference_radius=0.0), ["frame_b", "reference_radius"]), ("MIN_DISTANCE", dict(frame_b="B", reference_radius=0.0), ["frame_b", "reference_radius"]), ("BOLT_PATTERN", dict(frame_b="B", pattern_count=3, pattern_radius=1.0), ["frame_b", "pattern_count", "pattern_radius"]), ("BOLT_PATTERN", dict(reference_center=c3, reference_normal=z, pattern_count=3, pattern_radius=1.0), ["reference_center", "reference_normal"]), ("Z_STACK_CLEARANCE", dict(frame_b="B", bounds_a=bb, bounds_b=up), ["frame_b", "bounds_a", "bounds_b"]), ("NO_OVERLAP", dict(frame_b="B", bounds_a=bb, bounds_b=up), ["frame_b"])]
    for ty, kw, req in full:
        vc.check(ty + " complete", bool(kin(vc, ty, **kw).evaluate(w).satisfied))
        for q in req: vc.check("%s without %s" % (ty, q), not kin(vc, ty, **{n: v for n, v in kw.items() if n != q}).evaluate(w).satisfied)
        vc.check(ty + " frame gone", not kin(vc, ty, **kw).evaluate({"B": I}).satisfied)
        if "frame_b" in kw: vc.check(ty + " other frame gone", not kin(vc, ty, **kw).evaluate({"A": I}).satisfied)
        if ty in ("CONCENTRIC", "PARALLEL", "PERPENDICULAR", "BOLT_PATTERN", "TANGENT"):
            for bad in ("w", (0.0, 0.0, 0.0)): vc.check(ty + " bad axis", not kin(vc, ty, **dict(kw, axis_a=bad)).evaluate(w).satisfied)
            for q in ("reference_axis", "reference_normal"):
                if q in kw: vc.check(ty + " zero reference", not kin(vc, ty, **dict(kw, **{q: (0.0, 0.0, 0.0)})).evaluate(w).satisfied)
            if "frame_b" in kw:
                for bad in ("w", (0.0, 0.0, 0.0)): vc.check(ty + " bad second axis", not kin(vc, ty, **dict(kw, axis_b=bad)).evaluate(w).satisfied)
    vc.check("at the centre", not kin(vc, "TANGENT", reference_center=(0.0, 0.0, 3.0), axis_a="y").evaluate(w).satisfied); m = vc.mod(KI); Rs = m.ConstraintEvaluationResult
    for v in (True, False): vc.check("custom", kin(vc, "CUSTOM", validator=lambda q: Rs(satisfied=v, error=2.5)).evaluate(w).satisfied == v)
    def boom(q): raise RuntimeError("x")
    vc.check("failing validator", not kin(vc, "CUSTOM", validator=boom).evaluate(w).satisfied); vc.check("no validator", not kin(vc, "CUSTOM").evaluate(w).satisfied)
@contract("C09.k_create", [KI + ":" + n for n in ("create_tangent_constraint", "create_parallel_constraint", "create_coincident_constraint", "create_z_stack_clearance_constraint", "create_no_overlap_constraint", "create_min_distance_constraint", "create_face_distance_constraint", "create_face_coincident_constraint", "create_mesh_collision_constraint")])
def k_create(vc):
    """the constructors set exactly what is asked for"""
    m = vc.mod(KI); Ty = m.KinematicConstraintType; x, t = vc.real("x", pos=True), vc.real("t", pos=True); bb, bc = ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), ((0.0, 0.0, 5.0), (1.0, 1.0, 6.0)); base = vars(m.KinematicConstraint("n", Ty.CUSTOM, "A"))
    def expect(k, **want):
        got = {n: v for n, v in vars(k).items() if n != "description"}; exp = dict({n: v for n, v in base.items() if n != "description"}, name="n", frame_a="A", **want); vc.check("fields of " + k.constraint_type.value, vc.and_(set(got) == set(exp), *[vc.eq(got[n], exp[n]) if n in ("tolerance_mm", "tolerance_deg", "reference_radius") and got[n] is not None and exp[n] is not None else got[n] == exp[n] for n in exp]))
    expect(m.create_tangent_constraint("n", "A", (1.0, 2.0, 3.0), axis="x", tolerance_deg=t), constraint_type=Ty.TANGENT, axis_a="x", reference_center=(1.0, 2.0, 3.0), tolerance_deg=t)
    expect(m.create_parallel_constraint("n", "A", frame_b="B", axis_a="x", axis_b="y", reference_axis=(0.0, 0.0, 1.0), tolerance_deg=t), constraint_type=Ty.PARALLEL, frame_b="B", axis_a="x", axis_b="y", reference_axis=(0.0, 0.0, 1.0), tolerance_deg=t)
    expect(m.create_coincident_constraint("n", "A", frame_b="B", reference_point=(1.0, 2.0, 3.0), tolerance_mm=t), constraint_type=Ty.COINCIDENT, frame_b="B", reference_center=(1.0, 2.0, 3.0), tolerance_mm=t)
    expect(m.create_z_stack_clearance_constraint("n", "A", "B", bb, bc, min_clearance=x), constraint_type=Ty.Z_STACK_CLEARANCE, frame_b="B", bounds_a=bb, bounds_b=bc, reference_radius=x)
    expect(m.create_no_overlap_constraint("n", "A", "B", bounds_a=bb, bounds_b=bc, stl_path_a="p", stl_path_b="q"), constraint_type=Ty.NO_OVERLAP, frame_b="B", bounds_a=bb, bounds_b=bc, stl_path_a="p", stl_path_b="q")
    expect(m.create_mesh_collision_constraint("n", "A", "B", "p", "q"), constraint_type=Ty.NO_OVERLAP, frame_b="B", stl_path_a="p", stl_path_b="q")
    expect(m.create_min_distance_constraint("n", "A", "B", x, bounds_a=bb, bounds_b=bc), constraint_type=Ty.MIN_DISTANCE, frame_b="B", bounds_a=bb, bounds_b=bc, reference_radius=x)
    expect(m.create_face_distance_constraint("n", "A", "f", "B", "g", expected_distance=x, tolerance_mm=t, bounds_a=bb, bounds_b=bc), constraint_type=Ty.AT_DISTANCE, frame_b="B", face_a="f", face_b="g", bounds_a=bb, bounds_b=bc, reference_radius=x, tolerance_mm=t)
    k = m.create_face_coincident_constraint("n", "A", "f", "B", "g", tolerance_mm=t, bounds_a=bb, bounds_b=bc); vc.check("faces together", vc.and_(k.face_a == "f", k.face_b == "g", k.bounds_a == bb, k.bounds_b == bc, vc.eq(k.tolerance_mm, t), k.constraint_type in (Ty.COINCIDENT, Ty.AT_DISTANCE), k.reference_radius in (None, 0.0)))
@contract("C09.k_shared", [K + "evaluate"], mode="bounded", why="random rigid poses, vector axes: repeats the contracts above end to end", samples=400)
def k_shared(vc):
    """verdicts are unchanged when both parts are moved together"""
    A, B, G = vc.rigid("A", as_array=False), vc.rigid("B", as_array=False), vc.rigid("G", as_array=False); ty = vc.choice("type", ["COINCIDENT", "CONCENTRIC", "PARALLEL", "PERPENDICULAR", "AT_DISTANCE", "MIN_DISTANCE", "BOLT_PATTERN"]); ax = [tuple(vc.vec3("u")), tuple(vc.vec3("v"))]; vc.assume(vc.norm(ax[0]) > 0.1); vc.assume(vc.norm(ax[1]) > 0.1)
    k = kin(vc, ty, frame_b="B", axis_a=ax[0], axis_b=ax[1], reference_radius=vc.real("R", 0, 9), pattern_count=3, pattern_radius=1.0); r = k.evaluate({"A": vc.array(A), "B": vc.array(B)}); s = k.evaluate({"A": vc.array(vc.matmul(G, A)), "B": vc.array(vc.matmul(G, B))}); vc.check("same deviation", vc.eq(r.error, s.error, tol=1e-5))

# ---------------------------------------------------------------- coincidence of two datums
DA = "yapcad.assembly.datum"; MT = "yapcad.assembly.mate"
def datum(vc, kind, o, d):
    m = vc.mod(DA); h = length(vc, "length of " + kind); v = [h * x for x in d] + [0.0]
    k = {"AXIS": dict(direction=v), "PLANE": dict(normal=v), "CIRCLE": dict(normal=v, radius=2.5)}.get(kind, {})
    return m.Datum("n", m.DatumType[kind], origin=list(o) + [1.0], **k)
def off_plane(vc, o, n):
    """a point whose distance from the plane is known: off by s along the normal after going anywhere within the plane"""
    s = vc.real("off plane", -3, 3); w = vc.vec3("within plane"); k = vc.vdot(w, n); return [a + b - k * c + s * c for a, b, c in zip(o, w, n)], absv(vc, s)
@contract("C09.datums", [MT + ":evaluate_coincident"], **OPT)
def datums(vc):
    """two datums coincide exactly when the distance (between points, from the plane, from the axis) and, for two directions, the angle (either way) are within tolerance; the deviations are the measured ones"""
    ka, kb = vc.choice("kinds", [("POINT", "POINT"), ("CIRCLE", "CIRCLE"), ("PLANE", "PLANE"), ("AXIS", "AXIS"), ("POINT", "PLANE"), ("PLANE", "POINT"), ("POINT", "AXIS"), ("AXIS", "PLANE"), ("CIRCLE", "PLANE")])
    tm, td = vc.real("tol mm", 0.01, 3, pos=True), vc.real("tol deg", 0.1, 100, pos=True); o = vc.vec3("o"); a = vc.unit("a", 3) if ka != "POINT" else [0.0, 0.0, 1.0]; b = vc.unit("b", 3) if kb != "POINT" else [0.0, 0.0, 1.0]
    if (ka, kb) in (("PLANE", "PLANE"), ("PLANE", "POINT")): p, d = off_plane(vc, o, a)
    elif (ka, kb) == ("POINT", "PLANE"): p, d = off_plane(vc, o, b)
    elif (ka, kb) == ("AXIS", "AXIS"):
        p = vc.vec3("p"); v = vc.vsub(p, o); h = vc.vdot(v, a); w = [x - h * y for x, y in zip(v, a)]; d = vc.sqrt(vc.vdot(w, w))
    else: p, d = away(vc, o)
    r = vc.mod(MT).evaluate_coincident(datum(vc, ka, o, a), datum(vc, kb, p, b), tm, td); vc.check("measured distance", vc.eq(r.error_distance, d))
    if ka == kb and ka != "POINT": angle_is(vc, "datums", r.error_angle, absv(vc, vc.vdot(a, b)), "cosd", 0.0, 90.0); vc.check("passes exactly within both tolerances", vc.iff(bool(r.satisfied), vc.and_(vc.le(r.error_distance, tm), vc.le(r.error_angle, td))))
    else: vc.check("no angle", r.error_angle == 0.0); within(vc, "datums", r.satisfied, r.error_distance, tm)
@contract("C09.bolt_circles", [MT + ":check_bolt_circle_alignment"], **OPT)
def bolt_circles(vc):
    """two bolt circles align exactly when centres and normals coincide, the radii agree and every hole is within tolerance of a hole of the other, at the expected angle between the patterns; what fails first is what is reported"""
    m, D = vc.mod(MT), vc.mod(DA); n, f, shift = vc.choice("holes, spacings turned, centres apart", [(1, 1.0, 0), (2, 0.0, 1), (3, 0.001, 0), (4, -1.0, 0), (2, 0.5, 0), (4, 1.9, 0), (3, -0.25, 0)]); off = f * 360.0 / n; N, N2 = vc.choice("normals", [((0.0, 0.0, 1.0), "same"), ((1.0, 0.0, 0.0), "opposite"), ((0.6, 0.0, -0.8), "same"), ((0.6, 0.0, -0.8), "tilted")]); o = vc.vec3("o"); t = vc.real("tol", 0.01, 1, pos=True)
    p, d = away(vc, o) if shift else (list(o), 0.0); ra, rb = length(vc, "ra"), length(vc, "rb"); C = lambda q, v, r: D.Datum("n", D.DatumType.CIRCLE, origin=list(q) + [1.0], normal=list(v) + [0.0], radius=r)
    B = C(p, {"same": N, "opposite": [-x for x in N], "tilted": [N[1], N[2], N[0]]}[N2], rb); r = m.check_bolt_circle_alignment(C(o, N, ra), B, n, tolerance_mm=t, angular_offset_deg=off); dr = absv(vc, ra - rb)
    if N2 == "tilted": vc.check("tilted", not r.satisfied); return
    if shift and vc.case(vc.lt(t, d)): vc.check("centres too far apart", vc.and_(not r.satisfied, vc.eq(r.error_distance, d))); return
    if vc.case(vc.lt(t, dr)): vc.check("radii differ", vc.and_(not r.satisfied, vc.eq(r.error_distance, dr))); return
    e = r.error_distance; within(vc, "holes", r.satisfied, e, t); g = 360.0 / n * (f - round(f))
    if not shift: vc.check("distance of the nearest holes", vc.le(absv(vc, e * e - (ra * ra + rb * rb - 2 * ra * rb * math.cos(math.radians(g)))), 1e-9 * (1 + ra * ra + rb * rb)))
