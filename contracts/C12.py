import json, math, types
from pyvc.vc import contract
from contracts.lib import *
MT = "yapcad.assembly.mate"; M = MT + ":Mate."; AS = "yapcad.assembly.assembly"; DA = "yapcad.assembly.datum"
DOF = dict(RIGID=0, REVOLUTE=1, PRISMATIC=1, SCREW=1, CYLINDRICAL=2, PIN_SLOT=2, UNIVERSAL=2, SPHERICAL=3, PLANAR=3, COINCIDENT=3, CONCENTRIC=2, PARALLEL=4, PERPENDICULAR=5, TANGENT=5, DISTANCE=5, ANGLE=5, FLUSH=3, ALIGNED=3, SLOT=4, GEAR=-1, RACK_PINION=-1, CAM=-1)
COUPLED = ["GEAR", "RACK_PINION", "CAM", "SCREW"]
GROUPS = [("value", "current_position"), ("velocity", "current_velocity"), ("effort", "current_effort")]
def mate(vc, ty="REVOLUTE", **k): m = vc.mod(MT); return m.Mate("m", m.MateType[ty], "P", "d", "Q", "e", **k)
def lim(vc, g, which): return {"%s_%s" % (w, g): vc.real("%s %s" % (w, g)) for w in ("min", "max") if w in which}
def judge(vc, r, lims, given, exact=True):
    """the outcome against the limits and the values given"""
    bad = []; err = []
    for g, arg in GROUPS:
        x = given.get(arg)
        for w in ("min", "max"):
            b = lims.get("%s_%s" % (w, g)); v = False if x is None or b is None else (vc.lt(x, b) if w == "min" else vc.gt(vc.abs(x) if g != "value" else x, b)); bad.append(("%s_%s" % (w, g), v))
            if g == "value" and x is not None and b is not None: err.append(vc.max(0.0, (b - x) if w == "min" else (x - b)))
    named = lambda n: any(s.startswith(n + ":") for s in r["limit_violations"]); vc.check("exactly the violated limits", vc.and_(*[vc.iff(named(n), v) for n, v in bad])); vc.check("each once", len(r["limit_violations"]) == len([n for n, _ in bad if named(n)]))
    vc.check("satisfied within the position limits", vc.iff(bool(r["satisfied"]), vc.not_(vc.or_(*[v for n, v in bad if n.endswith("_value")])))); vc.check("deviation", vc.eq(r["error"], vc._sum([0.0] + err)))
@contract("C12.limits", [M + "evaluate"])
def limits(vc):
    """position, velocity or effort alone, with either, both or no limit: satisfied exactly within the position limits, every violated limit and no other is reported, the deviation is how far the position is outside"""
    g, arg = vc.choice("of", GROUPS); L = lim(vc, g, vc.choice("limits", [(), ("min",), ("max",), ("min", "max")])); x = vc.choice("given", [1, 0]) and vc.real("x") or None if not vc.symbolic else (vc.real("x") if vc.choice("given", [1, 0]) else None)
    m = vc.mod(MT); k = mate(vc, limits=m.MateLimits(**L) if vc.choice("limit set", [1, 0]) or L else None); r = k.evaluate(**({arg: x} if x is not None else {})); judge(vc, r, L, {arg: x}); vc.check("dynamics", r["dynamics_active"] is False and r["dof_remaining"] == 1)
@contract("C12.limits_all", [M + "evaluate"], time_s=120)
def limits_all(vc):
    """all limits and all values at once: none hides another"""
    L = {}; [L.update(lim(vc, g, ("min", "max"))) for g, _ in GROUPS]; given = {a: vc.real(a) for _, a in GROUPS}; m = vc.mod(MT); k = mate(vc, limits=m.MateLimits(**L), dynamics=m.MateDynamics()); r = k.evaluate(**given); judge(vc, r, L, given); vc.check("dynamics", r["dynamics_active"] is True)
@contract("C12.coupled", [M + "compute_coupled_motion", M + "is_coupled"])
def coupled(vc):
    """the driven position is the declared linear relation: ratio (or thread pitch per revolution) times the driver plus the offset, negated when reversed; other mates have none"""
    ty = vc.choice("kind", sorted(DOF)); p, q, o = vc.real("driver"), vc.real("ratio", -4, 4), vc.real("offset"); rev = vc.choice("reversed", [False, True]); pitch = (vc.real("pitch", -4, 4) if vc.choice("pitch given", [1, 0]) else None); k = mate(vc, ty, coupling_ratio=q, coupling_offset=o, coupling_reverse=rev, coupling_pitch=pitch); vc.check("coupled", bool(k.is_coupled()) == (ty in COUPLED)); e, d = vc.raises(k.compute_coupled_motion, p)
    if ty not in COUPLED: vc.check("not coupled", isinstance(e, ValueError)); return
    if ty == "SCREW" and pitch is not None: want = p * pitch / (2.0 * vc.pi) + o
    else: want = p * q + o
    vc.check("relation", vc.eq(d, -want if rev else want, tol=1e-9) if e is None else False)
@contract("C12.dof", [M + "degrees_of_freedom"])
def dof(vc):
    """each kind of mate leaves the degrees of freedom its kind declares (0 to 6; -1 marks the kinds that only couple two motions)"""
    ty = vc.choice("kind", sorted(DOF)); m = vc.mod(MT); vc.check("every kind known", {t.name for t in m.MateType} == set(DOF)); k = mate(vc, ty); vc.check("left", k.degrees_of_freedom() == DOF[ty]); vc.check("reported", k.evaluate()["dof_remaining"] == DOF[ty])
REMOVED = dict(COINCIDENT=3, CONCENTRIC=2, FLUSH=3, PARALLEL=2, PERPENDICULAR=1)
@contract("C12.assembly_dof", [AS + ":Assembly.get_degrees_of_freedom"])
def assembly_dof(vc):
    """up to three mates: every part starts with six and each mate takes its own number from its second part, never below zero"""
    a = vc.mod(AS).Assembly("x"); m = vc.mod(MT); a.parts = {"P": 1, "Q": 2, "R": 3}; n = vc.choice("mates", [0, 1, 2, 3]); want = {"P": 6, "Q": 6, "R": 6}
    for i in range(n): ty = vc.choice("kind %d" % i, sorted(DOF) if n == 1 else ["COINCIDENT", "CONCENTRIC", "PERPENDICULAR", "REVOLUTE"]); to = vc.choice("to %d" % i, ["Q", "R"]) if n < 3 else "Q"; a.mates.append(m.Mate("m%d" % i, m.MateType[ty], "P", "d", to, "e")); want[to] = max(0, want[to] - REMOVED.get(ty, 0))
    vc.check("left", a.get_degrees_of_freedom() == want); vc.check("again", a.get_degrees_of_freedom() == want)
@contract("C12.assembly_dof_loop", [AS + ":Assembly.get_degrees_of_freedom"])
def assembly_dof_loop(vc):
    """any number of mates: a step lowers only its second part's count, by its kind's number, and keeps it between 0 and 6"""
    a = vc.mod(AS).Assembly("x"); m = vc.mod(MT); a.parts = {"P": 1, "Q": 2}; a.mates = [1, 2]; vc.cutused = True; cut = vc.cut(AS + ":Assembly.get_degrees_of_freedom"); k, _, env = cut.pre(a); vc.check("start", env["dof"] == {"P": 6, "Q": 6} and list(cut.over(env)) == [1, 2]); ty = vc.choice("kind", sorted(DOF)); q, p = vc.int("left", 0, 6), vc.int("other", 0, 6); env["dof"] = {"P": p, "Q": q}; k, _ = cut.body(env, m.Mate("m", m.MateType[ty], "P", "d", "Q", "e")); d = env["dof"]
    vc.check("step", vc.and_(k == "next", vc.eq(d["P"], p), vc.eq(d["Q"], vc.max(0, q - REMOVED.get(ty, 0))), set(d) == {"P", "Q"})); vc.check("range", vc.and_(vc.ge(d["Q"], 0), vc.le(d["Q"], 6))); k, r = cut.post(env); vc.check("returned", k == "return" and r is d)
def fields(o): return {k: v for k, v in vars(o).items()} if o is not None else None
@contract("C12.save", [M + "to_dict", M + "from_dict"], samples=150)
def save(vc):
    """saving and reloading a mate gives back every field"""
    m = vc.mod(MT); ty = vc.choice("kind", sorted(DOF)); N = lambda n: vc.real(n, -5, 5); lims = m.MateLimits(**{f: N(f) for f in vars(m.MateLimits())}) if vc.choice("limits", [1, 0]) else None; dyn = m.MateDynamics(**{f: N(f) for f in vars(m.MateDynamics())}) if vc.choice("dynamics", [1, 0]) else None
    if lims is not None and vc.choice("open", [1, 0]): lims.min_value = lims.max_effort = lims.min_secondary = None
    k = m.Mate("n", m.MateType[ty], "a", "da", "b", "db", offset=N("offset"), angle=N("angle"), axis=[N("a%d" % i) for i in range(4)], secondary_axis=[N("s%d" % i) for i in range(4)], limits=lims, dynamics=dyn, coupling_ratio=N("ratio"), coupling_offset=N("co"), coupling_reverse=vc.choice("reverse", [False, True]), coupling_pitch=N("pitch") if vc.choice("pitch given", [1, 0]) else None, metadata={"x": [1, {"y": "z"}]}); d = k.to_dict()
    if not vc.symbolic: d = json.loads(json.dumps(d))
    r = m.Mate.from_dict(d); A, B = fields(k), fields(r); vc.check("fields", set(A) == set(B))
    for f in A:
        if f in ("limits", "dynamics"): vc.check(f, (B[f] is None) if A[f] is None else (type(B[f]) is type(A[f]) and vc.same(fields(A[f]), fields(B[f]))))
        elif f == "mate_type": vc.check(f, A[f] is B[f])
        else: vc.check(f, vc.same(A[f], B[f]))
@contract("C12.load_defaults", [M + "from_dict"])
def load_defaults(vc):
    """a description with only the required fields is the mate with the default values; an unknown kind is rejected"""
    m = vc.mod(MT); ty = vc.choice("kind", sorted(DOF)); d = dict(name="m", mate_type=m.MateType[ty].value, part_a="P", datum_a="d", part_b="Q", datum_b="e"); vc.check("defaults", m.Mate.from_dict(d) == mate(vc, ty)); vc.check("unknown", isinstance(vc.raises(m.Mate.from_dict, dict(d, mate_type="welded"))[0], ValueError)); q = vc.choice("missing", sorted(d)); vc.check("missing", vc.raises(m.Mate.from_dict, {a: b for a, b in d.items() if a != q})[0] is not None)
@contract("C12.create", [MT + ":create_revolute_mate", MT + ":create_prismatic_mate", MT + ":create_gear_mate", MT + ":create_coincident_mate"])
def create(vc):
    """the convenience constructors set exactly the parts, datums, limits, friction and ratio asked for"""
    m = vc.mod(MT); what = vc.choice("what", ["revolute", "prismatic", "gear", "coincident"]); base = ("m", "P", "d", "Q", "e"); r = vc.real
    if what == "gear": rev = vc.choice("reverse", [False, True]); q = r("q"); k = m.create_gear_mate(*base, ratio=q, reverse=rev); vc.check("gear", vc.and_(k.mate_type is m.MateType.GEAR, vc.eq(k.coupling_ratio, q), k.coupling_reverse == rev, k.coupling_offset == 0, k.limits is None))
    elif what == "coincident": k = m.create_coincident_mate(*base); vc.check("coincident", k.mate_type is m.MateType.COINCIDENT and k.limits is None)
    else:
        n = ("min_angle", "max_angle", "max_velocity", "max_torque") if what == "revolute" else ("min_position", "max_position", "max_velocity", "max_force"); on = [vc.choice(x, [0, 1]) for x in n]; v = [r(x) if o else None for x, o in zip(n, on)]; fr, da = (r("fr", 0, 2, nonneg=True), r("da", 0, 2, nonneg=True)) if vc.choice("friction", [1, 0]) else (0.0, 0.0); ax = vc.choice("axis", [None, 1]) and [0.0, 1.0, 0.0, 0.0]; k = getattr(m, "create_%s_mate" % what)(*base, axis=ax, friction=fr, damping=da, **dict(zip(n, v)))
        vc.check("kind", k.mate_type is m.MateType[what.upper()] and list(k.axis) == ([0, 0, 1, 0] if ax is None else ax)); L = k.limits
        if not any(on): vc.check("no limits", L is None)
        else: got = [L.min_value, L.max_value, L.max_velocity, L.max_effort]; vc.check("limits", vc.and_(*[(g is None) if w is None else (g is not None and vc.eq(g, w)) for g, w in zip(got, v)])); vc.check("no other limits", L.min_velocity is None and L.min_effort is None)
        D = k.dynamics; some = vc.or_(vc.gt(fr, 0), vc.gt(da, 0)); vc.check("dynamics", vc.iff(D is not None, some) if D is None else vc.and_(some, vc.eq(D.friction_static, fr), vc.eq(D.damping, da)))
    vc.check("ends", (k.name, k.part_a, k.datum_a, k.part_b, k.datum_b) == base); vc.check("aliases", (k.part1, k.datum1, k.part2, k.datum2) == base[1:])
@contract("C12.suits", [M + "validate"])
def suits(vc):
    """a mate suits two datums exactly as its kind declares: concentric needs two axes or circles, parallel and perpendicular two directions, tangent at least one face; the rest take any"""
    m = vc.mod(MT); d = vc.mod(DA); ty = vc.choice("kind", sorted(DOF)); K = [t.name for t in d.DatumType]; a, b = vc.choice("a", K), vc.choice("b", K); D = lambda k: types.SimpleNamespace(datum_type=d.DatumType[k]); two = {"CONCENTRIC": ("AXIS", "CIRCLE"), "PARALLEL": ("AXIS", "PLANE"), "PERPENDICULAR": ("AXIS", "PLANE")}.get(ty)
    r = mate(vc, ty).validate(D(a), D(b)); ok = (a in two and b in two) if two else (a in ("PLANE", "CIRCLE") or b in ("PLANE", "CIRCLE")) if ty == "TANGENT" else True; vc.check("suits", (not r) == ok)
    if two: vc.check("each end named", any("datum_a" in s for s in r) == (a not in two) and any("datum_b" in s for s in r) == (b not in two))
