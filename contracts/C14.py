import math, types, itertools
from pyvc.vc import contract
from contracts.lib import *
G = "yapcad.collision.gear_interface"; TH = "yapcad.collision.thread_interface"; RG = "yapcad.collision.registry"; IF = "yapcad.collision.interface"
GEAR = G + ":GearMeshInterface."; THR = TH + ":ThreadInterface."
def gear(vc, n, **k):
    m = vc.mod(G)
    a = dict(name=n, part_name="P" + n, module=vc.real(n + " module", 0.05, 10, pos=True), teeth=vc.int(n + " teeth", 3, 200), pressure_angle=vc.real(n + " angle", 5, 40, pos=True), face_width=vc.real(n + " width", 0.1, 30, pos=True), helix_angle=vc.real(n + " helix", -30, 30), backlash=vc.real(n + " backlash", 0, 1, nonneg=True), description="given")
    a.update(k); return m.GearMeshInterface(**a)
EX = dict(tol=1e-9, scale=0)

@contract("C14.gear_pair", [GEAR + "check_compatibility"], samples=600)
def gear_pair(vc):
    """compatible exactly when the modules agree within 0.1 percent (of the module of the gear asked) and the pressure angles within half a degree; anything but a gear is refused; warnings do not decide"""
    a, b = gear(vc, "a"), gear(vc, "b")
    if not vc.symbolic:
        if vc.choice("close", [0, 1, 1]): b.module = a.module * (1 + vc.real("dm", -0.002, 0.002)); b.pressure_angle = a.pressure_angle + vc.real("da", -1, 1)
    r = a.check_compatibility(b); dm = vc.abs(a.module - b.module); da = vc.abs(a.pressure_angle - b.pressure_angle)
    vc.check("verdict", vc.iff(bool(r.is_compatible), vc.and_(vc.le(dm, 0.001 * a.module, **EX), vc.le(da, 0.5, **EX))))
    other = vc.mod(TH).ThreadInterface(name="t", part_name="T"); vc.check("not a gear", not a.check_compatibility(other).is_compatible); vc.check("says why", bool(r.reason))

@contract("C14.gear_sizes", [GEAR + "pitch_diameter", GEAR + "outside_diameter", GEAR + "root_diameter", GEAR + "base_diameter", GEAR + "get_bounding_cylinder", GEAR + "get_engagement_depth"])
def gear_sizes(vc):
    """standard gear sizes: pitch circle m z, tips m above it, roots 1.25 m below, base circle by the pressure angle; the bounding cylinder reaches the tips"""
    a = gear(vc, "a"); d = a.module * a.teeth
    vc.check("pitch", vc.eq(a.pitch_diameter, d)); vc.check("outside", vc.eq(a.outside_diameter, d + 2.0 * a.module)); vc.check("root", vc.eq(a.root_diameter, d - 2.5 * a.module))
    vc.check("base", vc.eq(a.base_diameter, d * vc.cosd(a.pressure_angle))); r, h = a.get_bounding_cylinder()
    vc.check("cylinder", vc.and_(vc.eq(2.0 * r, d + 2.0 * a.module), vc.eq(h, a.face_width), vc.eq(a.get_engagement_depth(), a.face_width)))

@contract("C14.centre_distance", [GEAR + "get_center_distance"], samples=400)
def centre_distance(vc):
    """the centre distance is the sum of the pitch radii; refused exactly for different modules"""
    a, b = gear(vc, "a"), gear(vc, "b")
    if not vc.symbolic and vc.choice("close", [0, 1]): b.module = a.module * (1 + vc.real("dm", -0.002, 0.002))
    e, d = vc.raises(a.get_center_distance, b); far = vc.gt(vc.abs(a.module - b.module), 0.001 * a.module, **EX)
    if e is not None: vc.check("different modules", vc.and_(isinstance(e, ValueError), far)); return
    vc.check("same module", vc.not_(far)); vc.check("sum of pitch radii", vc.eq(2.0 * d, a.module * a.teeth + b.module * b.teeth))

@contract("C14.in_mesh", [G + ":check_gear_mesh_collision"], samples=400)
def in_mesh(vc):
    """correctly meshed exactly when the gears are compatible and the actual centre distance is within the tolerance of the sum of pitch radii; the clearance is the backlash less the excess distance"""
    a, b = gear(vc, "a"), gear(vc, "b"); tol = vc.real("tolerance", 0, 1, nonneg=True); cd = vc.real("distance", 0, 400)
    if not vc.symbolic:
        if vc.choice("close", [0, 1, 1]): b.module = a.module; b.pressure_angle = a.pressure_angle + vc.real("da", -0.7, 0.7); cd = (a.pitch_diameter + b.pitch_diameter) / 2 + vc.real("dcd", -1.5, 1.5)
    r = vc.mod(G).check_gear_mesh_collision(a, b, cd, tol); want = (a.module * a.teeth + b.module * b.teeth) / 2.0
    ok = vc.and_(vc.le(vc.abs(a.module - b.module), 0.001 * a.module, **EX), vc.le(vc.abs(a.pressure_angle - b.pressure_angle), 0.5, **EX))
    vc.check("verdict", vc.iff(bool(r.is_compatible), vc.and_(ok, vc.le(vc.abs(cd - want), tol, **EX))))
    if r.is_compatible: vc.check("clearance", vc.eq(r.required_clearance, a.backlash + want - cd))

@contract("C14.planetary", [G + ":create_planetary_gearbox_interfaces"])
def planetary(vc):
    """a generated set: one sun and one ring on the axis, every planet at the sun-planet centre distance, equally spaced, all with the given module, angle and width and their own tooth numbers; a set violating ring = sun + 2 planet is reported"""
    import warnings
    m = vc.mod(G); mo = vc.real("module", 0.1, 5, pos=True); s, p = vc.int("sun", 6, 100), vc.int("planet", 6, 100); ok = vc.choice("ring", [True, False]); r = s + 2 * p + (0 if ok else 1); n = vc.choice("planets", [1, 2, 3, 4, 5, 6, 7, 11]); w, z, pa = vc.real("width", 1, 20, pos=True), vc.real("z"), vc.real("angle", 10, 30, pos=True)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always"); L = m.create_planetary_gearbox_interfaces("X", mo, s, p, r, w, num_planets=n, pressure_angle=pa, mesh_plane_z=z)
    vc.check("reported when invalid", bool(W) == (not ok)); vc.check("count", len(L) == n + 2); vc.check("names differ", len({g.name for g in L}) == n + 2 and len({g.part_name for g in L}) == n + 2)
    R = mo * (s + p) / 2.0
    for i, g in enumerate(L):
        t = s if i == 0 else r if i == 1 else p
        vc.check("gear data", vc.and_(vc.eq(g.module, mo), vc.eq(g.teeth, t), vc.eq(g.pressure_angle, pa), vc.eq(g.face_width, w)))
        c = (0.0, 0.0) if i < 2 else (math.cos(2 * math.pi * (i - 2) / n), math.sin(2 * math.pi * (i - 2) / n))
        for k in (0, 1): vc.check("position", vc.le(vc.abs(g.center[k] - R * c[k]), 1e-9 * R))
        vc.check("height", vc.eq(g.center[2], z))

@contract("C14.planetary_any", [G + ":create_planetary_gearbox_interfaces"])
def planetary_any(vc):
    """any number of planets: the step that places planet i of n puts it i n-ths of a full turn round the sun, at the sun-planet centre distance"""
    vc.cutused = True; mo = vc.real("module", 0.1, 5, pos=True); s, p, n = vc.int("sun", 6, 100), vc.int("planet", 6, 100), vc.int("planets", 1, 50); i = vc.choice("planet number", [0, 1, 2, 7]); z = vc.real("z")
    vc.assume(vc.and_(vc.ge(n, 1), vc.lt(i, n), vc.ge(s, 1), vc.ge(p, 1))); cut = vc.cut(G + ":create_planetary_gearbox_interfaces"); k, _, env = cut.pre("X", mo, s, p, s + 2 * p, 3.0, num_planets=n, mesh_plane_z=z); L = env["interfaces"]; vc.check("sun and ring", k == "next" and len(L) == 2); N = len(L); k, _ = cut.body(env, i); vc.check("one more", len(L) == N + 1 and k == "next"); g = L[N]; R = mo * (s + p) / 2.0; a = 2 * math.pi * i / n
    vc.check("placed", vc.and_(vc.le(vc.abs(g.center[0] - R * vc.cos(a)), 1e-9 * R), vc.le(vc.abs(g.center[1] - R * vc.sin(a)), 1e-9 * R), vc.eq(g.center[2], z))); vc.check("gear", vc.and_(vc.eq(g.teeth, p), vc.eq(g.module, mo), g.part_name == "X_PLANET_GEAR_%d" % (i + 1)))

# ---------------------------------------------------------------- threads
def thread(vc, n, **k):
    m = vc.mod(TH); a = dict(name=n, part_name="P" + n, pitch=vc.real(n + " pitch", 0.1, 5, pos=True), major_diameter=vc.real(n + " diameter", 1, 40, pos=True), thread_type=vc.choice(n + " type", [m.ThreadType.ISO_METRIC, m.ThreadType.ISO_METRIC_FINE, m.ThreadType.UNC]), engagement_length=vc.real(n + " length", 1, 30, pos=True), is_internal=vc.bool(n + " internal"), description="given")
    a.update(k); return m.ThreadInterface(**a)

@contract("C14.thread_pair", [THR + "check_compatibility"], samples=800)
def thread_pair(vc):
    """compatible exactly when one is internal and one external and diameter and pitch agree within 0.1 percent (of the thread asked); anything but a thread is refused"""
    a, b = thread(vc, "a"), thread(vc, "b")
    if not vc.symbolic:
        if vc.choice("close", [0, 1, 1, 1]): b.pitch = a.pitch * (1 + vc.real("dp", -0.002, 0.002)); b.major_diameter = a.major_diameter * (1 + vc.real("dd", -0.002, 0.002))
    r = a.check_compatibility(b); ok = vc.and_(vc.le(vc.abs(a.pitch - b.pitch), 0.001 * a.pitch, **EX), vc.le(vc.abs(a.major_diameter - b.major_diameter), 0.001 * a.major_diameter, **EX))
    vc.check("verdict", vc.iff(bool(r.is_compatible), vc.and_(ok, vc.not_(vc.iff(a.is_internal, b.is_internal)))))
    vc.check("not a thread", not a.check_compatibility(gear(vc, "g")).is_compatible)

@contract("C14.thread_sizes", [THR + "minor_diameter", THR + "pitch_diameter", THR + "thread_depth", THR + "get_bounding_cylinder"])
def thread_sizes(vc):
    """minor and pitch diameters and depth of the 60 degree profile; the bounding cylinder is the major one over the engagement"""
    a = thread(vc, "a")
    vc.check("minor", vc.eq(a.minor_diameter, a.major_diameter - 1.0825 * a.pitch)); vc.check("pitch", vc.eq(a.pitch_diameter, a.major_diameter - 0.6495 * a.pitch)); vc.check("depth", vc.eq(2.0 * a.thread_depth, 1.0825 * a.pitch))
    r, h = a.get_bounding_cylinder(); vc.check("cylinder", vc.and_(vc.eq(2.0 * r, a.major_diameter), vc.eq(h, a.engagement_length), vc.eq(a.get_engagement_depth(), a.engagement_length)))

COARSE = {"M1.6": 0.35, "M2": 0.4, "M2.5": 0.45, "M3": 0.5, "M4": 0.7, "M5": 0.8, "M6": 1.0, "M8": 1.25, "M10": 1.5, "M12": 1.75, "M16": 2.0, "M20": 2.5, "M24": 3.0, "M30": 3.5}
@contract("C14.metric", [THR + "from_metric_size"])
def metric(vc):
    """every standard coarse size has its ISO pitch; an explicit pitch is taken as written; a bolt and a hole of the same size are compatible, of different sizes never"""
    m = vc.mod(TH); s = vc.choice("size", sorted(COARSE)); low = vc.choice("case", [str.upper, str.lower]); i = vc.choice("internal", [True, False])
    t = m.ThreadInterface.from_metric_size(low(s), is_internal=i); d = float(s[1:])
    vc.check("size and pitch", (t.major_diameter, t.pitch, t.is_internal) == (d, COARSE[s], i)); vc.check("default engagement", t.engagement_length == 1.5 * d)
    f = m.ThreadInterface.from_metric_size("%sx0.3" % s); vc.check("fine", (f.major_diameter, f.pitch, f.thread_type) == (d, 0.3, m.ThreadType.ISO_METRIC_FINE))
    for s2 in COARSE:
        u = m.ThreadInterface.from_metric_size(s2, is_internal=not i); vc.check("pairs by size", bool(t.check_compatibility(u).is_compatible) == (s2 == s))

@contract("C14.bolts", [TH + ":create_bolt_pattern_interfaces"])
def bolts(vc):
    """a bolt pattern: at each position one bolt on the one part and one hole on the other, compatible with each other, all named differently"""
    m = vc.mod(TH); n = vc.choice("n", [0, 1, 3]); P = [tuple(vc.vec3("p%d" % i)) for i in range(n)]; L = m.create_bolt_pattern_interfaces("pat", "B", "H", "M4", P)
    vc.check("count", len(L) == 2 * n and len({x.name for x in L}) == 2 * n)
    for i in range(n):
        b, h = L[2 * i], L[2 * i + 1]; vc.check("parts", (b.part_name, b.is_internal, h.part_name, h.is_internal) == ("B", False, "H", True)); vc.check("place", vc.and_(vc.same(list(b.center), list(P[i])), vc.same(list(h.center), list(P[i])))); vc.check("compatible", b.check_compatibility(h).is_compatible)

# ---------------------------------------------------------------- overlap and motion of interface volumes
@contract("C14.volumes_overlap", [IF + ":InterfaceVolume.overlaps_with"])
def volumes_overlap(vc):
    """for parallel (or opposite) axes the bounding cylinders overlap exactly when both the axial and the radial distance of their centres are less than the combined half heights or radii and the tolerance"""
    F = vc.rotation("frame"); u, v = [r[0] for r in F], [r[1] for r in F]; k, l = vc.real("k", 0.1, 3, pos=True), vc.real("l", 0.1, 3, pos=True); vc.assume(vc.and_(vc.ge(k, 0.1), vc.ge(l, 0.1))); s = vc.choice("side", [1.0, -1.0])
    x, y = vc.real("along"), vc.real("across", 0, 30, nonneg=True); c = vc.vec3("ca"); d = [x * p + y * q for p, q in zip(u, v)]
    a = gear(vc, "a", center=tuple(c), axis=tuple(k * p for p in u)); b = gear(vc, "b", center=tuple(vc.vadd(c, d)), axis=tuple(s * l * p for p in u))
    tol = vc.real("tolerance", 0, 1, nonneg=True); r1, h1, r2, h2 = [vc.real(n, 0.1, 12, pos=True) for n in ("r1", "h1", "r2", "h2")]
    vc.hook(a, "get_bounding_cylinder", lambda: (r1, h1)); vc.hook(b, "get_bounding_cylinder", lambda: (r2, h2))
    vc.check("exact", vc.iff(bool(a.overlaps_with(b, tol)), vc.and_(vc.lt(vc.abs(x), h1 / 2.0 + h2 / 2.0 + tol), vc.lt(y, r1 + r2 + tol))))

@contract("C14.volume_moved", [IF + ":InterfaceVolume.transform_center", IF + ":InterfaceVolume.transform_axis"])
def volume_moved(vc):
    """moving an interface volume moves its centre as a point and turns its axis as a unit direction"""
    M = vc.rigid("M", as_array=False); c, u = vc.vec3("c"), vc.unit3("u"); a = gear(vc, "a", center=tuple(c), axis=tuple(u))
    vc.check("centre", vc.veq(list(a.transform_center(vc.array(M))), vc.apply(M, c))); vc.check("axis", vc.veq(list(a.transform_axis(vc.array(M))), vc.applydir(M, u)))

# ---------------------------------------------------------------- registry
class I:
    def __init__(self, n, p, t): self.name, self.part_name, self.interface_type = n, p, t
    def check_compatibility(self, o): return types.SimpleNamespace(is_compatible=self.interface_type == o.interface_type, other=o)
def agrees(vc, reg, L):
    """every lookup answers from the list L of interfaces registered and not since removed"""
    g = lambda x: [id(i) for i in x]
    vc.check("all", g(reg.get_all_interfaces()) == g(L) and g(iter(reg)) == g(L) and len(reg) == len(L))
    for n in "xyzw":
        want = [i for i in L if i.name == n]; vc.check("by name", (reg.get(n) is want[0] if want else reg.get(n) is None) and (n in reg) == bool(want))
    for p in "PQR":
        want = [i for i in L if i.part_name == p]; vc.check("by part", sorted(g(reg.get_interfaces_for_part(p))) == sorted(g(want)) and bool(reg.has_interfaces(p)) == bool(want))
    for t in "tuv": vc.check("by type", sorted(g(reg.get_interfaces_by_type(t))) == sorted(g([i for i in L if i.interface_type == t])))
    vc.check("parts", sorted(reg.get_all_parts()) == sorted({i.part_name for i in L}))
    for i in L: vc.check("compatible ones", sorted(id(x) for x, r in reg.find_compatible_interfaces(i)) == sorted(id(x) for x in L if x is not i and x.interface_type == i.interface_type))
KINDS = [("P", "t"), ("P", "u"), ("Q", "t")]
@contract("C14.registry_step", [RG + ":InterfaceRegistry." + x for x in ("register", "unregister", "get", "get_interfaces_for_part", "get_interfaces_by_type", "has_interfaces", "get_all_interfaces", "get_all_parts", "find_compatible_interfaces", "clear", "register_many")])
def registry_step(vc):
    """history step: from any registry of up to three interfaces (over parts and types in every arrangement), after registering, re-registering, removing or clearing, every lookup answers exactly from the interfaces registered and not since removed"""
    reg = vc.mod(RG).InterfaceRegistry(); n = vc.choice("n", [0, 1, 2, 3]); L = [I("xyz"[k], *vc.choice("kind%d" % k, KINDS)) for k in range(n)]
    reg.register_many(L); agrees(vc, reg, L)
    op = vc.choice("op", ["add", "again", "remove", "remove unknown", "clear", "remove add"])
    if op == "add": i = I("w", *vc.choice("kind", KINDS)); reg.register(i); L = L + [i]
    elif op == "again" and L:
        e, _ = vc.raises(reg.register, I(L[0].name, "R", "v")); vc.check("refused", isinstance(e, ValueError))
    elif op in ("remove", "remove add") and L:
        k = vc.choice("which", list(range(n))); r = reg.unregister(L[k].name); vc.check("the removed one", r is L[k]); x = L[k]; L = L[:k] + L[k + 1:]
        if op == "remove add": i = I(x.name, "R", "v"); reg.register(i); L = L + [i]
    elif op == "remove unknown": vc.check("nothing", reg.unregister("w") is None)
    elif op == "clear": reg.clear(); L = []
    agrees(vc, reg, L)

@contract("C14.registry_history", [RG + ":InterfaceRegistry"], mode="bounded", why="random histories of up to 40 operations", samples=150)
def registry_history(vc):
    """random histories against a plain list"""
    import random
    R = random.Random(vc.int("seed", 0, 10**9)); reg = vc.mod(RG).InterfaceRegistry(); L = []
    for _ in range(R.randint(1, 40)):
        n = R.choice("xyzw"); have = [i for i in L if i.name == n]
        if R.random() < 0.6:
            i = I(n, R.choice("PQR"), R.choice("tuv")); e, _x = vc.raises(reg.register, i); vc.check("refused exactly when present", (e is not None) == bool(have))
            if e is None: L.append(i)
        else:
            r = reg.unregister(n); vc.check("removed", r is (have[0] if have else None)); L = [i for i in L if i.name != n]
        agrees(vc, reg, L)
