import math, itertools
from pyvc.vc import contract
from contracts.lib import *
FM = "yapcad.assembly.face_mate"; SO = "yapcad.assembly.solver"; DT = "yapcad.assembly.datum"; MA = "yapcad.assembly.mate"; DR = "yapcad.assembly.datum_registry"
S = SO + ":MateConstraintSolver."; F = FM + ":FaceToFaceMate."
OPT = dict(oblig_ms=20000, samples=400)
def ent(M): return [[M[i, j] for j in range(4)] for i in range(4)]
def directions(vc):
    """two directions in general position, aligned or opposed, neither normalised: (child, unit child, parent, unit parent)"""
    R = vc.rotation("frame"); u, v, w = [[R[i][k] for i in range(3)] for k in range(3)]; rel = vc.choice("directions", ["apart", "same", "opposed"])
    if rel == "apart":
        c, s = vc.unit("turn", 2); vc.assume(vc.gt(s, 1e-6)); p = [c * a + s * b for a, b in zip(u, v)]
    else: p = u if rel == "same" else [-a for a in u]
    k, l = vc.real("child length", 0.1, 5, pos=True), vc.real("parent length", 0.1, 5, pos=True); vc.assume(vc.and_(vc.ge(k, 0.1), vc.ge(l, 0.1)))
    return [k * a for a in u], u, [l * a for a in p], p
def datum(vc, kind, name, d, o):
    """a datum with the given unit direction and origin"""
    m = vc.mod(DT)
    if kind == "axis": return m.Datum(name, m.DatumType.AXIS, origin=o + [1.0], direction=list(d) + [0.0])
    if kind == "circle": return m.Datum(name, m.DatumType.CIRCLE, origin=o + [1.0], normal=list(d) + [0.0], radius=2.0)
    return m.Datum(name, m.DatumType.PLANE, origin=o + [1.0], normal=list(d) + [0.0])
class Bare:
    """the fields of a datum the solver reads (any type)"""
    def __init__(self, t, o, d, normal): self.datum_type = t; self.origin = list(o) + [1.0]; self.normal = list(d) + [0.0] if normal else None; self.direction = None if normal else list(d) + [0.0]
def pair(vc):
    """two datums of one kind: any origins, any unit directions (also equal and opposed), any lengths"""
    m = vc.mod(DT).DatumType; rel = vc.choice("directions", ["apart", "same", "opposed"]); cu = vc.unit("child direction", 3); pu = vc.unit("parent direction", 3) if rel == "apart" else cu if rel == "same" else [-x for x in cu]
    j, l = vc.real("child length", 0.1, 5, pos=True), vc.real("parent length", 0.1, 5, pos=True); vc.assume(vc.and_(vc.ge(j, 0.1), vc.ge(l, 0.1))); cd, pd = [j * x for x in cu], [l * x for x in pu]
    P, C = vc.vec3("parent origin"), vc.vec3("child origin"); k = vc.choice("kinds", ["plane", "axis", "circle"])
    t = {"plane": m.PLANE, "axis": m.AXIS, "circle": m.CIRCLE}[k]; return Bare(t, P, pd, k != "axis"), Bare(t, C, cd, k != "axis"), P, C, pu, cu

# ---------------------------------------------------------------- the rotation at the heart of every mate
def rot_contract(vc, f):
    cd, cu, pd, pu = directions(vc); R = f(vc.array(cd), vc.array(pd)); M = [[R[i, j] for j in range(3)] for i in range(3)]
    vc.check("orthonormal", vc.meq(vc.matmul(M, vc.transpose(M)), vc.ident(3))); vc.check("proper", vc.veq(vc.vcross(M[0], M[1]), M[2])); vc.check("takes one to the other", vc.veq(vc.matvec(M, cu), pu))
@contract("C08.rotation_between", [FM + ":_rotation_between_vectors"], **OPT)
def rotation_between(vc):
    """for any two non-zero directions: a proper rotation that takes the first to the second"""
    rot_contract(vc, vc.mod(FM)._rotation_between_vectors)
@contract("C08.solver_rotation", [S + "_rotation_between_vectors", S + "_rodrigues_rotation"], time_s=300, **OPT)
def solver_rotation(vc):
    """the solver's own: the same contract, however close the directions are"""
    s = vc.mod(SO).MateConstraintSolver(); rot_contract(vc, s._rotation_between_vectors)
@contract("C08.rodrigues", [S + "_rodrigues_rotation"], **OPT)
def rodrigues(vc):
    """the right-handed turn by the angle (radians) about the axis: fixes it, turns what is perpendicular"""
    s = vc.mod(SO).MateConstraintSolver(); R = vc.rotation("frame"); u, v, w = [[R[i][k] for i in range(3)] for k in range(3)]; k = vc.real("length", 0.1, 5, pos=True); vc.assume(vc.ge(k, 0.1)); a = vc.angle("a", unit="rad", lo=-7, hi=7)
    M = s._rodrigues_rotation(vc.array([k * x for x in u]), a); f = lambda p: [vc.vdot([M[i, j] for j in range(3)], p) for i in range(3)]; c, t = vc.cos(a), vc.sin(a)
    vc.check("axis", vc.veq(f(u), u)); vc.check("turn", vc.veq(f(v), [c * p + t * q for p, q in zip(v, w)])); vc.check("turn 2", vc.veq(f(w), [c * q - t * p for p, q in zip(v, w)]))

class Stub:
    """the contract of _rotation_between_vectors: a rotation (rigid by C08.rotation_between / C08.solver_rotation) that takes the one direction given to the other"""
    def __init__(s, vc): s.vc, s.Q, s.calls = vc, None, 0
    def __call__(s, *a):
        vc = s.vc; v1, v2 = [[v[i] for i in range(3)] for v in a[-2:]]; s.calls += 1
        vc.check("unit arguments", vc.and_(vc.eq(vc.norm2(v1), 1.0), vc.eq(vc.norm2(v2), 1.0))); Q = s.Q = [[vc.real("Q%d%d" % (i, j)) for j in range(3)] for i in range(3)]
        s.v2 = v2; vc.assume(vc.veq(vc.matvec(Q, v1), v2)); return vc.array(Q)
    def rigid(s, T):
        vc = s.vc
        if not vc.symbolic: return vc.is_rigid(T)
        if not s.calls: return vc.is_rigid(T)
        return vc.and_(s.calls == 1, vc.veq(T[3], [0.0, 0.0, 0.0, 1.0]), *[vc.veq(T[i][:3], s.Q[i]) for i in range(3)])
def rot_stub(vc, mod, *_): 
    st = Stub(vc); 
    if vc.symbolic: vc.stub(mod, "_rotation_between_vectors", st)
    return st
def mated(vc, T, C, cu): return vc.apply(T, C), vc.applydir(T, cu)

@contract("C08.flush", [FM + ":compute_flush_transform"], **OPT)
def flush(vc):
    """the flush transform is rigid, puts the child origin at the parent origin plus the offset along the parent direction, and the child direction opposed to it (the same way when not flipped)"""
    m = vc.mod(FM); a, b, P, C, pu, cu = pair(vc); off = vc.real("offset") if vc.choice("offset given", [0, 1]) else 0.0; flip = vc.choice("flip", [True, False]); st = rot_stub(vc, FM)
    T = ent(m.compute_flush_transform(a, b, offset=off, flip_normal=flip)); p, d = mated(vc, T, C, cu); sg = -1.0 if flip else 1.0
    vc.check("origin at the offset", vc.veq(p, [x + off * n for x, n in zip(P, pu)])); vc.check("direction", vc.veq(d, [sg * n for n in pu])); vc.check("rigid", st.rigid(T))

@contract("C08.flush_turned", [FM + ":compute_flush_transform", FM + ":_apply_rotation_about_axis"], **OPT)
def flush_turned(vc):
    """the extra rotation turns about the mating axis through the parent origin: the mate stays true and rigid"""
    m = vc.mod(FM); Q = vc.rotation("T"); t = vc.vec3("t"); R = vc.rotation("frame"); u, v, w = [[R[i][k] for i in range(3)] for k in range(3)]; k = vc.real("length", 0.1, 5, pos=True); vc.assume(vc.ge(k, 0.1)); P = vc.vec3("P"); a = vc.angle("a"); c, s = vc.cosd(a), vc.sind(a)
    T = [Q[i] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]; r = ent(m._apply_rotation_about_axis(vc.array(T), vc.array([k * x for x in u]), vc.array(P), a))
    x = vc.vec3("x")                                # of any point: its image is the old image turned about the axis
    y = vc.vsub(vc.apply(T, x), P); e = [vc.vdot(y, q) for q in (u, v, w)]; z = vc.vsub(vc.apply(r, x), P)
    vc.check("along the axis", vc.eq(vc.vdot(z, u), e[0])); vc.check("turned", vc.eq(vc.vdot(z, v), c * e[1] - s * e[2])); vc.check("turned 2", vc.eq(vc.vdot(z, w), s * e[1] + c * e[2])); vc.check("last row", vc.veq(r[3], [0.0, 0.0, 0.0, 1.0]))

@contract("C08.flush_turn_used", [FM + ":compute_flush_transform"], **OPT)
def flush_turn_used(vc):
    """the extra rotation, when asked for, is applied to the mated pose about the parent direction through the parent origin"""
    m = vc.mod(FM); a, b, P, C, pu, cu = pair(vc); ang = vc.choice("angle", [0.0, 30.0, -90.0]); got = []; st = rot_stub(vc, FM)
    orig = m._apply_rotation_about_axis
    def turn(T, ax, p, d): got.append(([ax[i] for i in range(3)], [p[i] for i in range(3)], d)); return T
    if vc.symbolic: vc.stub(FM, "_apply_rotation_about_axis", turn)
    T = ent(m.compute_flush_transform(a, b, rotation_deg=ang)); p, d = mated(vc, T, C, cu)
    if vc.symbolic:
        vc.check("asked", len(got) == (ang != 0.0))
        for ax, q, g in got: vc.check("about the mating axis", vc.and_(vc.veq(vc.vcross(ax, pu), [0.0, 0.0, 0.0]), vc.gt(vc.vdot(ax, pu), 0.0), vc.veq(q, P), g == ang))
    else:
        T0 = ent(m.compute_flush_transform(a, b)); x = vc.vec3("x"); y, z = vc.vsub(vc.apply(T0, x), P), vc.vsub(vc.apply(T, x), P); h = vc.vdot(y, pu); r = [q - h * n for q, n in zip(y, pu)]; k = vc.vcross(pu, r); c, s = vc.cosd(ang), vc.sind(ang)
        vc.check("turned", vc.veq(z, [h * n + c * q + s * o for n, q, o in zip(pu, r, k)]))
    vc.check("mate stays true", vc.and_(vc.veq(p, P), vc.veq(d, [-n for n in pu])))

@contract("C08.concentric", [FM + ":compute_concentric_transform"], **OPT)
def concentric(vc):
    """the concentric transform is rigid and makes the child axis collinear with the parent axis (same way), origins apart by the offset along it"""
    m = vc.mod(FM); a, b, P, C, pu, cu = pair(vc); off = vc.real("offset"); st = rot_stub(vc, FM)
    T = ent(m.compute_concentric_transform(a, b, offset=off)); p, d = mated(vc, T, C, cu)
    vc.check("axis", vc.veq(d, pu)); vc.check("on the parent axis at the offset", vc.veq(p, [x + off * n for x, n in zip(P, pu)])); vc.check("rigid", st.rigid(T))

@contract("C08.parallel", [FM + ":compute_parallel_transform"], **OPT)
def parallel(vc):
    """the parallel transform is rigid, makes the child direction the parent's and moves the child origin by exactly the offset along it"""
    m = vc.mod(FM); a, b, P, C, pu, cu = pair(vc); vc.assume(a.normal is not None); off = vc.real("offset"); st = rot_stub(vc, FM)
    T = ent(m.compute_parallel_transform(a, b, offset=off)); p, d = mated(vc, T, C, cu)
    vc.check("direction", vc.veq(d, pu)); vc.check("origin moved by the offset", vc.veq(p, [x + off * n for x, n in zip(C, pu)])); vc.check("rigid", st.rigid(T))

# ---------------------------------------------------------------- the solver's cases
def solver(vc):
    s = vc.mod(SO).MateConstraintSolver(); st = Stub(vc)
    if vc.symbolic: vc.hook(s, "_rotation_between_vectors", st)
    return s, st
@contract("C08.direction", [S + "_get_datum_direction"], **OPT)
def direction(vc):
    """the direction of a datum is its unit normal, or unit direction, or z"""
    s = vc.mod(SO).MateConstraintSolver(); cd, cu, pd, pu = directions(vc); t = vc.mod(DT).DatumType; k = vc.choice("kind", ["normal", "direction", "none"]); d = Bare(t.PLANE, [0.0, 0.0, 0.0], pd, k == "normal")
    if k == "none": d.normal = d.direction = None
    r = s._get_datum_direction(d); vc.check("unit", vc.veq([r[i] for i in range(3)], pu if k != "none" else [0.0, 0.0, 1.0]))

def opposite(vc, st, d, pu, c, name):
    """d makes the cosine c with pu; in two steps: d is the target that was asked of the rotation, and the target makes that cosine"""
    if vc.symbolic: vc.check(name + ": turned to the target", vc.veq(d, st.v2)); d = st.v2
    vc.check(name, vc.eq(vc.vdot(d, pu), c))

@contract("C08.solver_cases", [S + n for n in ("_solve_coincident", "_solve_concentric", "_solve_parallel", "_solve_perpendicular", "_solve_distance", "_solve_revolute")], **OPT)
def solver_cases(vc):
    """each case of the solver gives a rigid pose that makes the mate true: coincident (origins together, directions opposed), concentric and revolute (origins together, directions aligned), parallel, perpendicular, distance (offset along the parent direction)"""
    s, st = solver(vc); a, b, P, C, pu, cu = pair(vc); case = vc.choice("case", ["coincident", "concentric", "revolute", "parallel", "perpendicular", "distance"]); off = vc.real("offset")
    if vc.symbolic: vc.hook(s, "_get_datum_direction", lambda d: vc.array(pu if d is a else cu))
    T = ent(getattr(s, "_solve_" + case)(a, b, *([off] if case == "distance" else []))); p, d = mated(vc, T, C, cu); vc.check("rigid", st.rigid(T))
    if case in ("coincident", "concentric", "revolute"): vc.check("origins together", vc.veq(p, P))
    if case in ("concentric", "revolute", "parallel"): vc.check("directions aligned", vc.veq(d, pu))
    if case == "coincident": vc.check("directions opposed", vc.veq(d, [-n for n in pu]))
    if case == "perpendicular": opposite(vc, st, d, pu, 0.0, "perpendicular")
    if case == "distance": vc.check("at the distance", vc.veq(vc.vsub(p, P), [off * n for n in pu]))

@contract("C08.solver_angle", [S + "_solve_angle"], **OPT)
def solver_angle(vc):
    """an angle mate gives a rigid pose with the directions at exactly the angle (radians) to each other"""
    s, st = solver(vc); a, b, P, C, pu, cu = pair(vc); ang = vc.angle("angle", unit="rad", lo=-7, hi=7)
    if vc.symbolic:
        vc.hook(s, "_get_datum_direction", lambda d: vc.array(pu if d is a else cu))
        def rodrigues(axis, x):                    # its contract (C08.rodrigues), for an axis perpendicular to the parent direction (checked): the tilted direction is a unit vector at the angle
            ax = [axis[i] for i in range(3)]; vc.check("tilts about a perpendicular", vc.and_(vc.eq(vc.vdot(ax, pu), 0.0), vc.gt(vc.norm2(ax), 0.0))); t = vc.unit("tilted", 3); W = [[vc.real("W%d%d" % (i, j)) for j in range(3)] for i in range(3)]
            vc.assume(vc.veq(vc.matvec(W, pu), t)); vc.assume(vc.eq(vc.vdot(t, pu), vc.cos(x))); return vc.array(W)
        vc.hook(s, "_rodrigues_rotation", rodrigues)
    T = ent(s._solve_angle(a, b, ang)); vc.check("rigid", st.rigid(T)); opposite(vc, st, vc.applydir(T, cu), pu, vc.cos(ang), "at the angle")

@contract("C08.dispatch", [S + "_solve_constraint"])
def dispatch(vc):
    """every supported mate type is answered by its own case with the mate's own offset and angle; an unsupported one is an error"""
    m = vc.mod(SO); t = vc.mod(MA).MateType; s = m.MateConstraintSolver(); log = []
    class M: offset, angle = 3.25, 0.75
    for n in ("coincident", "concentric", "parallel", "perpendicular", "distance", "angle", "revolute"): vc.hook(s, "_solve_" + n, lambda *a, n=n: log.append((n,) + a) or n)
    fl = lambda *a, **k: log.append(("coincident",) + a) or "coincident"; co = lambda *a, **k: log.append(("concentric",) + a) or "concentric"
    if vc.symbolic: vc.stub(SO, "compute_flush_transform", fl); vc.stub(SO, "compute_concentric_transform", co)
    for ty, want, ex in [(t.PARALLEL, "parallel", ()), (t.PERPENDICULAR, "perpendicular", ()), (t.DISTANCE, "distance", (3.25,)), (t.ANGLE, "angle", (0.75,)), (t.REVOLUTE, "revolute", ())] + ([(t.COINCIDENT, "coincident", ()), (t.RIGID, "coincident", ()), (t.CONCENTRIC, "concentric", ())] if vc.symbolic else []):
        log.clear(); r = s._solve_constraint(ty, "A", "B", M); vc.check("case of " + ty.value, r == want and log == [(want, "A", "B") + ex])
    for ty in (t.GEAR, t.TANGENT, t.CAM): e, _ = vc.raises(s._solve_constraint, ty, "A", "B", M); vc.check("unsupported", isinstance(e, ValueError))

@contract("C08.solve_mate", [S + "solve_mate", S + "solve_all", S + "invalidate_cache"], samples=300)
def solve_mate(vc):
    """the answer depends only on the mate, the datums and the parent pose given: after any earlier solve (same name, other offset, datums, parent pose or type), it is parent pose @ solution for what is given now; a missing datum is a failure with no transform"""
    m = vc.mod(SO); t = vc.mod(MA).MateType; s = m.MateConstraintSolver(use_cache=vc.choice("cache", [True, False])); Mate = vc.mod(MA).Mate; D = {}
    vc.hook(s, "_get_datum", lambda p, n: D.get((p, n)))
    def solve(ty, a, b, mate):                      # stands for the case: any function of exactly these
        r = [[0.0] * 4 for _ in range(4)]; r[0][0] = a; r[0][1] = b; r[0][2] = mate.offset; r[0][3] = {t.DISTANCE: 1.0, t.PARALLEL: 2.0}[ty]; r[3][3] = 1.0; return vc.array(r)
    vc.hook(s, "_solve_constraint", solve)
    def parent(n): return vc.array([[vc.real("%s%d%d" % (n, i, j)) for j in range(4)] for i in range(4)])
    x, y, o = vc.real("x"), vc.real("y"), vc.real("o"); W = parent("W"); D["a", "f"], D["b", "g"] = x, y
    mk = lambda ty, off: Mate(name="m", mate_type=ty, part_a="a", datum_a="f", part_b="b", datum_b="g", offset=off)
    first = mk(t.DISTANCE, o); r1 = s.solve_mate(first, W); keep = ent(r1.transform); ch = vc.choice("then", ["same", "parent", "no parent", "offset", "datum", "type", "spoiled", "in place"])
    W2, o2, x2, ty = W, o, x, t.DISTANCE
    if ch == "parent": W2 = parent("V")
    elif ch == "no parent": W2 = None
    elif ch == "offset": o2 = vc.real("o2")
    elif ch == "datum": x2 = vc.real("x2"); D["a", "f"] = x2
    elif ch == "type": ty = t.PARALLEL
    elif ch == "spoiled": r1.transform[0, 0] = 77.0
    second = mk(ty, o2)
    if ch == "in place": o2 = vc.real("o2"); first.offset = o2; second = first
    r2 = s.solve_mate(second, W2); want = ent(solve(ty, x2, y, second)); want = want if W2 is None else vc.matmul(ent(W2), want)
    vc.check("success", r1.success and r2.success); vc.check("second answer", vc.meq(ent(r2.transform), want)); vc.check("first answer", vc.meq(keep, vc.matmul(ent(W), ent(solve(t.DISTANCE, x, y, mk(t.DISTANCE, o))))))
    s.invalidate_cache(vc.choice("drop", [None, "m"])); vc.check("again", vc.meq(ent(s.solve_mate(second, W2).transform), want))
    all_ = s.solve_all([second], {"a": W}); vc.check("all: parent pose by part", list(all_) == ["m"] and vc.meq(ent(all_["m"].transform), vc.matmul(ent(W), ent(solve(ty, x2, y, second)))))
    miss = s.solve_mate(Mate(name="q", mate_type=t.DISTANCE, part_a="a", datum_a="nope", part_b="b", datum_b="g")); vc.check("missing datum", not miss.success and miss.transform is None)

@contract("C08.mate_axis", [S + "_apply_mate_axis_rotation", SO + ":apply_mate_axis_rotation", S + "solve_mate"])
def mate_axis(vc):
    """mating along another axis turns the child so that this axis of it takes the place of z: a proper rotation of the rotation part, the position kept; the argument is not changed"""
    m = vc.mod(SO); s = m.MateConstraintSolver(); M = vc.array([[vc.real("m%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]); keep = ent(M)
    for n, ax in (("X", [1.0, 0.0, 0.0]), ("Y", [0.0, 1.0, 0.0]), ("Z", [0.0, 0.0, 1.0]), ("-X", [-1.0, 0.0, 0.0]), ("-Y", [0.0, -1.0, 0.0]), ("-Z", [0.0, 0.0, -1.0])):
        for f in (s._apply_mate_axis_rotation, m.apply_mate_axis_rotation):
            r = ent(f(M, n)); vc.check("axis " + n, vc.veq(vc.applydir(r, ax), [keep[i][2] for i in range(3)])); vc.check("position " + n, vc.veq([q[3] for q in r], [q[3] for q in keep])); vc.check("argument", vc.meq(ent(M), keep))
        R = ent(f(vc.array(vc.ident(4)), n)); vc.check("rigid " + n, vc.is_rigid(R))

@contract("C08.chain", [SO + ":solve_mate_chain"])
def chain(vc):
    """a chain of mates: each part's world pose is that of the part before it times its own solution; it stops at the first failure"""
    m = vc.mod(SO); X = [vc.array([[vc.real("x%d%d%d" % (k, i, j)) for j in range(4)] for i in range(4)]) for k in range(3)]; n = vc.choice("mates", [0, 1, 2, 3]); bad = vc.choice("fails", [None, 1])
    class M:
        def __init__(s, i): s.i, s.name, s.part_a, s.part_b = i, "m%d" % i, "p%d" % i, "p%d" % (i + 1)
    class Sol:
        def solve_mate(s, mate, parent_world_transform=None): return m.MateMateSolveResult(mate.i != bad, parent_world_transform @ X[mate.i] if mate.i != bad else None)
    B = vc.array([[vc.real("b%d%d" % (i, j)) for j in range(4)] for i in range(4)]); base = vc.choice("base", [0, 1]); r = m.solve_mate_chain([M(i) for i in range(n)], B if base else None, Sol()); W = ent(B) if base else vc.ident(4)
    k = n if bad is None else min(n, bad); vc.check("parts", list(r) == ["p%d" % (i + 1) for i in range(k)])
    for i in range(k): W = vc.matmul(W, ent(X[i])); vc.check("pose", vc.meq(ent(r["p%d" % (i + 1)]), W))

@contract("C08.validate_transform", [S + "validate_transform"], samples=400)
def validate_transform(vc):
    """a rigid transform is called valid; one with a wrong last row, a scaled or a mirrored rotation part is not"""
    s = vc.mod(SO).MateConstraintSolver(); M = vc.rigid("M", as_array=False); k = vc.choice("broken", ["no", "row", "scaled", "mirrored", "shape"])
    if k == "row": M[3] = [0.0, 0.5, 0.0, 1.0]
    elif k == "scaled": M = [[1.5 * x for x in r[:3]] + [r[3]] for r in M[:3]] + [M[3]]
    elif k == "mirrored": M[0] = [-x for x in M[0][:3]] + [M[0][3]]
    elif k == "shape": M = [r[:3] for r in M[:3]]
    r = s.validate_transform(vc.array(M)); vc.check("verdict", bool(r.valid) == (k == "no"))

# ---------------------------------------------------------------- face mates
def face(vc, con):
    m = vc.mod(FM); f = m.FaceToFaceMate("m", "P", "f", "C", "g", constraint=con, offset_distance=vc.real("offset")); return m, f
@contract("C08.face_mate", [F + "compute_transform", F + "invalidate_cache"], samples=300)
def face_mate(vc):
    """a face mate computes the transform of its constraint with its own offset (and rotation), times the parent pose given; a second answer never depends on an earlier parent pose, offset or datum"""
    T = vc.mod(MA).MateType; con = vc.choice("constraint", [T.COINCIDENT, T.ALIGNED, T.CONCENTRIC, T.PARALLEL]); m, f = face(vc, con); R = vc.mod(DR).DatumRegistry; D = {("P", "f"): vc.real("parent"), ("C", "g"): vc.real("child")}; log = []
    def mat(kind, a, b, off, rot, flip): log.append((kind, rot, flip)); return vc.array([[a, b, off, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
    if not vc.symbolic: return
    vc.stub(FM, "compute_flush_transform", lambda a, b, offset=0.0, rotation_deg=0.0, flip_normal=True: mat("flush", a, b, offset, rotation_deg, flip_normal)); vc.stub(FM, "compute_concentric_transform", lambda a, b, offset=0.0: mat("concentric", a, b, offset, None, None)); vc.stub(FM, "compute_parallel_transform", lambda a, b, offset=0.0: mat("parallel", a, b, offset, None, None))
    vc.hook(R, "get_datum", lambda s, n: D[s, n]); f.rotation_about_normal = 12.0; W = lambda n: vc.array([[vc.real("%s%d%d" % (n, i, j)) for j in range(4)] for i in range(4)]); A, B = W("A"), W("B")
    a = f.compute_transform(A); want = lambda: [[D["P", "f"], D["C", "g"], f.offset_distance, 0.0]] + vc.ident(4)[1:]
    vc.check("first", vc.meq(ent(a), vc.matmul(ent(A), want()))); k = {T.COINCIDENT: ("flush", 12.0, True), T.ALIGNED: ("flush", 12.0, False), T.CONCENTRIC: ("concentric", None, None), T.PARALLEL: ("parallel", None, None)}[con]; vc.check("case", set(log) == {k})
    ch = vc.choice("then", ["parent", "none", "offset", "datum"])
    if ch == "offset": f.offset_distance = vc.real("offset2")
    if ch == "datum": D["P", "f"] = vc.real("parent2")
    b = f.compute_transform(None if ch == "none" else B); vc.check("second", vc.meq(ent(b), want() if ch == "none" else vc.matmul(ent(B), want())))
    f.invalidate_cache(); vc.check("after dropping", vc.meq(ent(f.compute_transform()), want())); f.constraint = T.GEAR; e, _ = vc.raises(f.compute_transform); vc.check("unsupported", isinstance(e, ValueError))

@contract("C08.face_mate_valid", [F + "validate"], samples=400, oblig_ms=20000, time_s=300)
def face_mate_valid(vc):
    """validation measures the distance of the mated child origin from where the mate puts it (at the offset along the parent direction; free for a parallel mate) and, for faces, the angle of the normals, and is satisfied exactly when both are within tolerance"""
    T = vc.mod(MA).MateType; con = vc.choice("constraint", [T.COINCIDENT, T.ALIGNED, T.CONCENTRIC, T.PARALLEL]); m, f = face(vc, con); t = vc.mod(DT).DatumType; kind = vc.choice("datum", [t.PLANE, t.AXIS]); P, C = vc.vec3("P"), vc.vec3("C")
    u, w, cu = vc.unit("parent direction", 3), vc.unit("missed towards", 3), vc.unit("child direction", 3)
    if vc.symbolic:                                # any matrix that takes the child direction to any unit direction e (some component of a unit vector is at least 1/2)
        e, j = vc.unit("child direction as placed", 3), vc.choice("pivot", [0, 1, 2]); vc.assume(vc.or_(vc.ge(cu[j], 0.5), vc.le(cu[j], -0.5))); R = [[vc.real("R%d%d" % (i, l)) if l != j else 0.0 for l in range(3)] for i in range(3)]
        for i in range(3): R[i][j] = (e[i] - vc.vdot(R[i], cu)) / cu[j]
    else: R = vc.rotation("R"); e = vc.matvec(R, cu)
    k = vc.real("length", 0.1, 5, pos=True); vc.assume(vc.ge(k, 0.1)); f._parent_datum_obj = Bare(kind, P, [k * x for x in u], kind == t.PLANE); f._child_datum_obj = Bare(kind, C, cu, kind == t.PLANE)
    off, d = f.offset_distance, vc.real("miss", 0, 1, nonneg=True); q = [x + off * y + d * o for x, y, o in zip(P, u, w)]; tr = vc.vsub(q, vc.matvec(R, C)); f._computed_transform = vc.array([R[i] + [tr[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
    c = vc.vdot(e, u) * (-1.0 if con == T.COINCIDENT else 1.0)
    tm, td = vc.real("tol", 0.01, 1, pos=True), vc.real("deg", 0.5, 90, pos=True); r = f.validate(tm, td); dist = 0.0 if con == T.PARALLEL else d
    vc.check("distance", vc.eq(r.error_distance, dist))
    if kind == t.PLANE: vc.check("verdict", vc.iff(bool(r.satisfied), vc.and_(vc.le(dist, tm), vc.le(r.error_angle, td)))); angle = vc.cosd(r.error_angle); vc.check("angle", vc.and_(vc.or_(vc.eq(angle, c, tol=1e-6), vc.lt(c, -1.0), vc.lt(1.0, c)), vc.or_(vc.le(c, 1.0), vc.eq(angle, 1.0, tol=1e-6)), vc.or_(vc.ge(c, -1.0), vc.eq(angle, -1.0, tol=1e-6))))
    else: vc.check("verdict", vc.iff(bool(r.satisfied), vc.le(dist, tm)))

@contract("C08.face_mate_exact", [F + "compute_transform", F + "validate"], mode="bounded", why="random datums, offsets and parent poses through the real registry: ties the contracts above together end to end", samples=300)
def face_mate_exact(vc):
    """end to end: the computed pose makes the mate true at the requested offset and validates as satisfied"""
    T = vc.mod(MA).MateType; con = vc.choice("constraint", [T.COINCIDENT, T.ALIGNED, T.CONCENTRIC, T.PARALLEL]); m, f = face(vc, con); R = vc.mod(DR).DatumRegistry; R.clear()
    cd, cu, pd, pu = directions(vc); P, C = vc.vec3("P"), vc.vec3("C"); k = "axis" if con == T.CONCENTRIC else "plane"; R.register_datum("P", datum(vc, k, "f", pd, P)); R.register_datum("C", datum(vc, k, "g", cd, C))
    try:
        f.rotation_about_normal = vc.real("spin", -180, 180); W = vc.rigid("W"); f.compute_transform(W); X = ent(f.compute_transform()); p, d = mated(vc, X, C, cu); off = f.offset_distance; vc.check("rigid", vc.is_rigid(X))
        vc.check("directions", vc.veq(d, [(-1.0 if con == T.COINCIDENT else 1.0) * n for n in pu])); vc.check("origin", vc.veq(p, [x + off * n for x, n in zip(C if con == T.PARALLEL else P, pu)])); vc.check("validates", f.validate().satisfied)
        vc.check("with the parent pose", vc.meq(ent(f.compute_transform(W)), vc.matmul(ent(W), X)))
    finally: R.clear()
