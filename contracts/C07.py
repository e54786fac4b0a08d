import math, itertools
from pyvc.vc import contract
from contracts.lib import *
TF = "yapcad.kinematics.transform"; JT = "yapcad.kinematics.joint"; CH = "yapcad.kinematics.chain"; PT = "yapcad.kinematics.part"; FR = "yapcad.kinematics.frame"
T = TF + ":Transform."; J = JT + ":Joint."; C = CH + ":KinematicChain."; P = PT + ":KinematicPart."
def affine(vc, n): return [[vc.real("%s%d%d" % (n, i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
def tr(vc, M): return vc.mod(TF).Transform(vc.array(M))
def ent(t): return [[t.matrix[i, j] for j in range(4)] for i in range(4)]
def rot(M): return [r[:3] for r in M[:3]]
def meq(vc, t, M): return vc.meq(ent(t), M)

@contract("C07.transforms", [T + n for n in ("identity", "from_translation", "from_rotation_x", "from_rotation_y", "from_rotation_z", "from_matrix", "translation", "rotation_matrix", "__post_init__")])
def transforms(vc):
    """the factories give the declared maps: translation by the offset, right-handed turns by the angle in degrees about the axes"""
    m = vc.mod(TF).Transform; x, y, z = vc.vec3("t"); a = vc.angle("a"); c, s = vc.cosd(a), vc.sind(a)
    vc.check("identity", meq(vc, m.identity(), vc.ident(4))); vc.check("translation", meq(vc, m.from_translation(x, y, z), [[1.0, 0.0, 0.0, x], [0.0, 1.0, 0.0, y], [0.0, 0.0, 1.0, z], [0.0, 0.0, 0.0, 1.0]]))
    vc.check("about x", meq(vc, m.from_rotation_x(a), [[1.0, 0.0, 0.0, 0.0], [0.0, c, -s, 0.0], [0.0, s, c, 0.0], [0.0, 0.0, 0.0, 1.0]]))
    vc.check("about y", meq(vc, m.from_rotation_y(a), [[c, 0.0, s, 0.0], [0.0, 1.0, 0.0, 0.0], [-s, 0.0, c, 0.0], [0.0, 0.0, 0.0, 1.0]]))
    vc.check("about z", meq(vc, m.from_rotation_z(a), [[c, -s, 0.0, 0.0], [s, c, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]))
    M = affine(vc, "m"); t = m.from_matrix(vc.array(M)); vc.check("from matrix", meq(vc, t, M)); vc.check("translation part", vc.veq(list(t.translation), [M[i][3] for i in range(3)])); R = t.rotation_matrix
    vc.check("rotation part", vc.and_(*[vc.eq(R[i, j], M[i][j]) for i in range(3) for j in range(3)])); R[0, 0] = 7.0; vc.check("rotation part is a copy", meq(vc, t, M))

@contract("C07.axis_angle", [T + "from_axis_angle"], oblig_ms=20000)
def axis_angle(vc):
    """turns about any non-zero axis: fixes the axis, keeps lengths and orientation, and turns what is perpendicular to the axis right-handedly by the angle (Rodrigues); a zero axis gives the identity"""
    m = vc.mod(TF).Transform; F = vc.rotation("frame"); u, v, w = [[F[i][k] for i in range(3)] for k in range(3)]; k = vc.real("length", 0.01, 10, pos=True); vc.assume(vc.ge(k, 0.01)); a = vc.angle("a"); c, s = vc.cosd(a), vc.sind(a)
    t = ent(m.from_axis_angle(tuple(k * x for x in u), a)); f = lambda p: vc.matvec(rot(t), p)
    vc.check("axis fixed", vc.veq(f(u), u)); vc.check("right-handed turn", vc.veq(f(v), [c * p + s * q for p, q in zip(v, w)])); vc.check("rest of the frame", vc.veq(f(w), [c * q - s * p for p, q in zip(v, w)]))
    vc.check("no translation", vc.veq([r[3] for r in t], [0.0, 0.0, 0.0, 1.0])); vc.check("zero axis", meq(vc, m.from_axis_angle((0.0, 0.0, 0.0), a), vc.ident(4)))

@contract("C07.compose", [T + n for n in ("__matmul__", "transform_point", "transform_vector")])
def compose(vc):
    """composing applies the right transform first; points are moved, vectors only turned; operands unchanged"""
    A, B = affine(vc, "a"), affine(vc, "b"); a, b = tr(vc, A), tr(vc, B); p = vc.vec3("p")
    ab = a @ b; vc.check("product", meq(vc, ab, vc.matmul(A, B))); vc.check("operands", vc.and_(meq(vc, a, A), meq(vc, b, B)))
    vc.check("right factor first", vc.veq(list(ab.transform_point(tuple(p))), list(a.transform_point(b.transform_point(tuple(p)))))); vc.check("point", vc.veq(list(a.transform_point(tuple(p))), [vc.vdot(r[:3], p) + r[3] for r in A[:3]])); vc.check("vector", vc.veq(list(a.transform_vector(tuple(p))), [vc.vdot(r[:3], p) for r in A[:3]]))
    e, _ = vc.raises(lambda: a @ 3); vc.check("only with transforms", isinstance(e, TypeError))

@contract("C07.inverse", [T + "inverse"])
def inverse(vc):
    """the inverse of a rigid transform undoes it on both sides and is rigid; the transform itself is unchanged"""
    M = vc.rigid("M", as_array=False); t = tr(vc, M); i = t.inverse()
    vc.check("left", meq(vc, i @ t, vc.ident(4))); vc.check("right", meq(vc, t @ i, vc.ident(4))); vc.check("unchanged", meq(vc, t, M)); vc.check("rigid", vc.is_rigid(ent(i)))

@contract("C07.euler", [T + "from_euler_xyz", T + "from_position_rpy"])
def euler(vc):
    """roll, pitch and yaw compose as turns about x, then y, then z in the turned frame, and the position is where the origin goes"""
    m = vc.mod(TF).Transform; a, b, c = vc.angle("a"), vc.angle("b"), vc.angle("c"); x, y, z = vc.vec3("t")
    want = vc.matmul(vc.matmul(ent(m.from_rotation_x(a)), ent(m.from_rotation_y(b))), ent(m.from_rotation_z(c)))
    vc.check("order", meq(vc, m.from_euler_xyz(a, b, c), want)); r = ent(m.from_position_rpy(x, y, z, a, b, c)); vc.check("turn kept", vc.meq(rot(r), rot(want))); vc.check("position", vc.veq([q[3] for q in r], [x, y, z, 1.0]))

@contract("C07.euler_back", [T + "to_euler_xyz", T + "from_euler_xyz"], oblig_ms=20000)
def euler_back(vc):
    """the angles read from a pose, composed again in the declared order, give its turn (every turn is one about x, then y by -90 to 90 degrees, then z), also when y is a quarter turn"""
    m = vc.mod(TF).Transform; up = vc.choice("pitch", ["any", 90.0, -90.0]); a, b, c = vc.angle("a"), vc.angle("b"), vc.angle("c")
    if up == "any": vc.assume(vc.gt(vc.cosd(b), 1e-3))
    else: b = up
    R = m.from_euler_xyz(a, b, c); back = m.from_euler_xyz(*R.to_euler_xyz())
    vc.check("same turn", vc.meq(rot(ent(back)), rot(ent(R))))

# ---------------------------------------------------------------- joints
@contract("C07.revolute", [J + "get_transform"], oblig_ms=20000)
def revolute(vc):
    """a revolute (or cylindrical) joint is its placement followed by the turn by its value about its axis; the origin of the joint stays put"""
    m = vc.mod(JT); F = vc.rotation("frame"); u, v, w = [[F[i][k] for i in range(3)] for k in range(3)]; k = vc.real("length", 0.01, 10, pos=True); vc.assume(vc.ge(k, 0.01)); a = vc.angle("value"); c, s = vc.cosd(a), vc.sind(a); B = affine(vc, "base")
    j = m.Joint("j", vc.choice("type", [m.JointType.REVOLUTE, m.JointType.CYLINDRICAL]), tr(vc, B), tuple(k * x for x in u), a, -1e9, 1e9); t = j.get_transform()
    f = lambda d: list(t.transform_vector(tuple(d))); g = lambda d: vc.matvec(rot(B), d)
    vc.check("origin", vc.veq(list(t.translation), [r[3] for r in B[:3]])); vc.check("axis", vc.veq(f(u), g(u))); vc.check("turn", vc.veq(f(v), g([c * p + s * q for p, q in zip(v, w)]))); vc.check("turn 2", vc.veq(f(w), g([c * q - s * p for p, q in zip(v, w)])))
    vc.check("placement unchanged", meq(vc, j.base_transform, B))

@contract("C07.prismatic", [J + "get_transform"])
def prismatic(vc):
    """a prismatic joint slides by its value along its unit axis and does not turn; fixed and spherical joints are their placement"""
    m = vc.mod(JT); F = vc.rotation("frame"); u = [F[i][0] for i in range(3)]; k = vc.real("length", 0.01, 10, pos=True); vc.assume(vc.ge(k, 0.01)); d = vc.real("value"); B = affine(vc, "base")
    j = lambda ty: m.Joint("j", ty, tr(vc, B), tuple(k * x for x in u), d, -1e9, 1e9)
    t = ent(j(m.JointType.PRISMATIC).get_transform()); vc.check("no turn", vc.meq(rot(t), rot(B))); vc.check("slide", vc.veq([r[3] for r in t[:3]], [B[i][3] + d * vc.vdot(B[i][:3], u) for i in range(3)]))
    for ty in (m.JointType.FIXED, m.JointType.SPHERICAL): vc.check("placement", meq(vc, j(ty).get_transform(), B))

@contract("C07.limits", [J + "clamp_value", J + "set_value"])
def limits(vc):
    """a value set with clamping is the nearest within the limits; without, it is taken as given; nothing else changes"""
    m = vc.mod(JT); lo, hi, v = vc.real("lo"), vc.real("hi"), vc.real("v"); vc.assume(vc.le(lo, hi)); j = m.Joint("j", m.JointType.REVOLUTE, min_limit=lo, max_limit=hi, axis=(0.0, 1.0, 0.0))
    vc.check("clamp", vc.eq(j.clamp_value(v), vc.ite(vc.lt(v, lo), lo, vc.ite(vc.gt(v, hi), hi, v)))); j.set_value(v); vc.check("within", vc.and_(vc.ge(j.value, lo), vc.le(j.value, hi), vc.eq(j.value, j.clamp_value(v))))
    j.set_value(v, clamp=False); vc.check("as given", vc.eq(j.value, v)); vc.check("rest", vc.and_(vc.eq(j.min_limit, lo), vc.eq(j.max_limit, hi), j.axis == (0.0, 1.0, 0.0)))

# ---------------------------------------------------------------- the chain: invariant over all histories
# Invariant I(chain): a part whose cache is valid caches the product of placements and joint motions from the root
# down to it for the current joint values.  Each operation is checked to keep I from any state that satisfies it.
def robot(vc, n=2, frame=True):
    """a chain BASE -> LINK (attached to a frame of BASE)"""
    m = vc.mod(CH); c = m.KinematicChain("c"); K = vc.mod(PT).KinematicPart; jm = vc.mod(JT)
    b = K("BASE"); b.add_frame("MOUNT", tr(vc, affine(vc, "mount"))); c.add_part(b)
    l = K("LINK", parent="BASE", parent_frame="MOUNT" if frame else "ORIGIN", joint=jm.Joint("j", jm.JointType.FIXED, tr(vc, affine(vc, "joint")))); c.add_part(l)
    return c, b, l

@contract("C07.world_pose", [C + "get_world_transform", P + "set_cached_world_transform", P + "get_cached_world_transform", P + "is_cache_valid", P + "get_frame"])
def world_pose(vc):
    """modular step: whatever pose W the contract gives for the frame of the parent, an uncached part gets W @ joint (and caches it), a cached one its cached pose, and a frame of the part that pose @ frame; asking for an unknown part is an error"""
    m = vc.mod(CH); c, b, l = robot(vc); W = affine(vc, "parent"); asked = []; cls = type(c)
    def rec(name, frame="ORIGIN"): asked.append((name, frame)); return tr(vc, W)
    vc.hook(c, "get_world_transform", rec); Jm = ent(l.joint.get_transform()); cached = vc.choice("cached", [False, True]); X = affine(vc, "cache")
    if cached: l.set_cached_world_transform(tr(vc, X))
    F = affine(vc, "frame"); l.add_frame("TIP", tr(vc, F))
    if cached and not l.is_cache_valid(): l.set_cached_world_transform(tr(vc, X))
    f = vc.choice("frame asked", ["ORIGIN", "TIP"]); r = cls.get_world_transform(c, "LINK", f)
    pose = X if cached else vc.matmul(W, Jm); vc.check("pose", meq(vc, r, pose if f == "ORIGIN" else vc.matmul(pose, F)))
    vc.check("asks for the attachment frame of the parent", asked == ([] if cached else [("BASE", "MOUNT")])); vc.check("caches the pose", l.is_cache_valid() and meq(vc, l.get_cached_world_transform(), pose))
    vc.check("joint and frame kept", vc.and_(meq(vc, l.joint.get_transform(), Jm), meq(vc, l.get_frame("TIP").get_transform(), F)))
    e, _ = vc.raises(cls.get_world_transform, c, "NOBODY"); vc.check("unknown part", isinstance(e, ValueError))

@contract("C07.root_pose", [C + "get_world_transform", C + "_create_global_datum", C + "__init__"])
def root_pose(vc):
    """the root is at the identity, cached or not; a fresh chain has only the root, valid and with no children"""
    c = vc.mod(CH).KinematicChain("c"); d = c.parts[c.DATUM_NAME]; vc.check("only the root", list(c.parts) == [c.DATUM_NAME] and c._children == {c.DATUM_NAME: []})
    if vc.choice("dropped", [False, True]): d.invalidate_cache()
    vc.check("identity", meq(vc, c.get_world_transform(c.DATUM_NAME), vc.ident(4)))

@contract("C07.invalidate", [C + "_invalidate_subtree", C + "get_children", P + "invalidate_cache"])
def invalidate(vc):
    """induction step: dropping the caches below a part drops its own and goes on to every child (an arbitrary child of the loop); an unknown name does nothing"""
    c, b, l = robot(vc); seen = []; cls = type(c); cut = vc.cut(C + "_invalidate_subtree") if vc.symbolic else None
    for p in (b, l): p.set_cached_world_transform(tr(vc, vc.ident(4)))
    vc.hook(c, "_invalidate_subtree", seen.append)
    kids = ["LINK", "B", "C"][:vc.choice("children", [0, 1, 2, 3])]; c._children["BASE"] = list(kids)
    cls._invalidate_subtree(c, "BASE"); vc.check("own cache", not b.is_cache_valid() and b.get_cached_world_transform() is None); vc.check("every child", sorted(seen) == sorted(kids)); vc.check("others untouched", l.is_cache_valid())
    if cut is not None:
        seen.clear(); env = {"self": c, "part_name": "BASE", "child": None}; k, v = cut.body(env, "any child"); vc.check("loop: goes on to the child", k == "next" and seen == ["any child"]); vc.check("loop: over the children", list(cut.over({"self": c, "part_name": "BASE"})) == kids)
    e, _ = vc.raises(cls._invalidate_subtree, c, "NOBODY"); vc.check("unknown", e is None)

@contract("C07.joint_update", [C + "set_joint_value", C + "get_joint_value"])
def joint_update(vc):
    """a joint update clamps (unless told not to), sets only that joint and drops the caches of the part and everything below it"""
    m = vc.mod(CH); jm = vc.mod(JT); c, b, l = robot(vc); dropped = []; vc.hook(c, "_invalidate_subtree", dropped.append); lo, hi, v, w = vc.real("lo"), vc.real("hi"), vc.real("v"), vc.real("w"); vc.assume(vc.le(lo, hi))
    l.joint = jm.Joint("j", jm.JointType.REVOLUTE, min_limit=lo, max_limit=hi, value=w); b.joint.value = w; clamp = vc.choice("clamp", [True, False, None])
    if vc.choice("caches", ["none", "warm"]) == "warm":
        for q in (b, l): q.set_cached_world_transform(tr(vc, vc.ident(4)))
    if vc.choice("again", [False, True]): v = w
    c.set_joint_value("LINK", v, *([] if clamp is None else [clamp])); want = v if clamp is False else vc.ite(vc.lt(v, lo), lo, vc.ite(vc.gt(v, hi), hi, v))
    vc.check("value", vc.and_(vc.eq(l.joint.value, want), vc.eq(c.get_joint_value("LINK"), want))); vc.check("only that joint", vc.eq(b.joint.value, w)); vc.check("drops the caches below", dropped == ["LINK"] or bool(vc.eq(want, w)) and dropped == [])
    for f in (lambda: c.set_joint_value("NOBODY", 1.0), lambda: c.get_joint_value("NOBODY")): e, _ = vc.raises(f); vc.check("unknown", isinstance(e, ValueError))

@contract("C07.add_part", [C + "add_part", C + "get_all_descendants"])
def add_part(vc):
    """adding a part: it becomes a child of its parent (the root if none given) and nothing else changes, its own cache is dropped; a duplicate name or an unknown parent is refused and changes nothing; a missing attachment frame means the origin; children and parents stay each other's inverse"""
    c, b, l = robot(vc); K = vc.mod(PT).KinematicPart; case = vc.choice("case", ["child", "root", "frame", "no frame", "duplicate", "orphan"])
    if vc.choice("cached", [False, True]):
        for p in (b, l): p.set_cached_world_transform(tr(vc, vc.ident(4)))
    before = (dict(c.parts), {k: list(v) for k, v in c._children.items()})
    p = K("LINK" if case == "duplicate" else "NEW", parent={"child": "LINK", "frame": "BASE", "no frame": "BASE", "duplicate": "BASE", "orphan": "NOBODY", "root": None}[case], parent_frame={"frame": "MOUNT", "no frame": "NOWHERE"}.get(case, "ORIGIN")); p.set_cached_world_transform(tr(vc, vc.ident(4)))
    e, r = vc.raises(c.add_part, p)
    if case in ("duplicate", "orphan"):
        vc.check("refused", isinstance(e, ValueError)); vc.check("nothing changed", before[:2] == (c.parts, c._children))
    else:
        par = {"child": "LINK", "root": c.DATUM_NAME}.get(case, "BASE"); vc.check("accepted", e is None and r is p and c.parts["NEW"] is p); vc.check("parent", p.parent == par); vc.check("frame", p.parent_frame == ("MOUNT" if case == "frame" else "ORIGIN")); vc.check("own cache dropped", not p.is_cache_valid())
        vc.check("child of its parent only", all(("NEW" in c._children[k]) == (k == par) for k in c._children) and c._children["NEW"] == []); vc.check("nothing lost", all(c.parts[k] is v for k, v in before[0].items()) and all(x in c._children[k] for k, v in before[1].items() for x in v) and len(c.parts) == len(before[0]) + 1)
    vc.check("children are those attached", all(sorted(c.get_children(n)) == sorted(q.name for q in c.parts.values() if q.parent == n) for n in c.parts))
    vc.check("descendants", sorted(c.get_all_descendants(c.DATUM_NAME)) == sorted(n for n in c.parts if n != c.DATUM_NAME))

@contract("C07.add_frame", [P + "add_frame"])
def add_frame(vc):
    """adding or redefining a frame of a part in a chain never leaves a stale pose: what is attached below is recomputed from the new frame"""
    c, b, l = robot(vc); c.get_world_transform("LINK"); F = affine(vc, "new"); n = vc.choice("name", ["MOUNT", "OTHER"]); f = b.add_frame(n, tr(vc, F))
    vc.check("frame", b.get_frame(n) is f and meq(vc, f.get_transform(), F)); base = ent(b.joint.get_transform()); att = ent(b.get_frame("MOUNT").get_transform())
    vc.check("pose of the attached part", meq(vc, c.get_world_transform("LINK"), vc.matmul(vc.matmul(base, att), ent(l.joint.get_transform())))); vc.check("pose of the frame", meq(vc, c.get_world_transform("BASE", n), vc.matmul(base, F)))

@contract("C07.history", [C + "get_world_transform", C + "get_all_world_transforms", C + "set_joint_value", C + "add_part", P + "add_frame"], samples=300, mode="bounded", why="histories of up to four operations on a branching chain of up to five parts with arbitrary placements and values; the per-operation contracts above carry the general case")
def history(vc):
    """end to end: after any of these histories every reported pose is the product from the root down"""
    jm = vc.mod(JT); K = vc.mod(PT).KinematicPart; c = vc.mod(CH).KinematicChain("c"); names = []
    def pose(n, f="ORIGIN"):
        if n == c.DATUM_NAME: M = vc.ident(4)
        else: q = c.parts[n]; M = vc.matmul(pose(q.parent, q.parent_frame), ent(q.joint.get_transform()))
        return M if f == "ORIGIN" else vc.matmul(M, ent(c.parts[n].frames[f].transform))
    def add(n, par, fr):
        k = K(n, parent=par, parent_frame=fr, joint=jm.Joint(n, vc.choice(n + " type", list(jm.JointType)), tr(vc, affine(vc, n)), tuple(vc.vec3(n + " axis")), 0.0, -90.0, 90.0)); k.add_frame("F", tr(vc, affine(vc, n + " frame"))); c.add_part(k); names.append(n)
    add("A", None, "ORIGIN"); add("B", "A", "F"); add("D", "A", "ORIGIN"); last, want = {}, {}
    for i in range(4):
        op = vc.choice("op%d" % i, ["add", "joint", "ask", "frame"]); w = vc.choice("where%d" % i, [0, 1, 2]); n = names[w]
        if op == "add": add("N%d" % i, n, vc.choice("at%d" % i, ["ORIGIN", "F"]))
        elif op == "joint":
            v = vc.real("value%d" % i, -120, 120); v = last.get(n, v) if vc.choice("repeat%d" % i, [False, True]) else v; how = vc.choice("clamp%d" % i, [(), (True,), (False,)]); last[n] = v
            c.set_joint_value(n, v, *how); want[n] = v if how == (False,) else vc.ite(vc.lt(v, -90.0), -90.0, vc.ite(vc.gt(v, 90.0), 90.0, v))
        elif op == "frame": c.parts[n].add_frame("F", tr(vc, affine(vc, "refr%d" % i)))
        else: vc.check("asked", meq(vc, c.get_world_transform(n, "F"), pose(n, "F")))
    W = c.get_all_world_transforms(); vc.check("all parts", sorted(W) == sorted(names)); vc.check("every pose", vc.and_(*[meq(vc, W[n], pose(n)) for n in names])); vc.check("joint values", vc.and_(*[vc.eq(c.parts[n].joint.value, want.get(n, 0.0)) for n in names]))

@contract("C07.relative", [C + "get_relative_transform"])
def relative(vc):
    """the pose between two frames composes with world poses: from-world @ relative = to-world"""
    c, b, l = robot(vc); A, B = vc.rigid("A", as_array=False), vc.rigid("B", as_array=False); asked = []
    def world(n, f="ORIGIN"): asked.append((n, f)); return tr(vc, A if (n, f) == ("BASE", "MOUNT") else B)
    vc.hook(c, "get_world_transform", world); r = c.get_relative_transform("BASE", "LINK", "MOUNT", "TIP"); vc.check("composes", vc.meq(vc.matmul(A, ent(r)), B)); vc.check("of those frames", sorted(asked) == [("BASE", "MOUNT"), ("LINK", "TIP")])

@contract("C07.to_root", [C + "get_chain_to_root", C + "validate"])
def to_root(vc):
    """the way to the root lists the part and each parent in turn; validation reports a missing parent, a missing attachment frame and a circular attachment, and nothing else"""
    c, b, l = robot(vc); K = vc.mod(PT).KinematicPart; c.add_part(K("TOP", parent="LINK")); vc.check("way", c.get_chain_to_root("TOP") == ["TOP", "LINK", "BASE", c.DATUM_NAME]); vc.check("valid", c.validate() == [])
    case = vc.choice("broken", ["parent", "frame", "self", "cycle", "long cycle"]); p = c.parts["LINK"]
    if case == "parent": p.parent = "NOBODY"
    elif case == "frame": p.parent_frame = "NOWHERE"
    elif case == "self": p.parent = "LINK"; p.parent_frame = "ORIGIN"
    elif case == "cycle": p.parent = "TOP"; p.parent_frame = "ORIGIN"
    else: b.parent = "TOP"
    vc.check("reported", len(c.validate()) == 1)

@contract("C07.reload", [C + "to_dict", C + "from_dict", C + "_topological_sort", J + "to_dict", J + "from_dict", P + "to_dict", P + "from_dict", T + "to_dict", T + "from_dict", FR + ":CoordinateFrame.to_dict", FR + ":CoordinateFrame.from_dict"], samples=200)
def reload(vc):
    """saving a chain and loading it (in any order of its parts) keeps every part, joint, limit, frame and pose"""
    jm = vc.mod(JT)
    c, b, l = robot(vc); ty = vc.choice("type", list(jm.JointType)); v, lo, hi = vc.real("v"), vc.real("lo"), vc.real("hi"); ax = (0.0, 0.6, 0.8)
    l.joint = jm.Joint("j", ty, tr(vc, affine(vc, "placement")), ax, v, lo, hi); vc.hook(l.joint, "get_transform", lambda: tr(vc, affine(vc, "motion"))) if vc.symbolic else None
    for t in (b.joint.base_transform, l.joint.base_transform, b.frames["MOUNT"].transform, b.frames["ORIGIN"].transform, l.frames["ORIGIN"].transform): vc.hook(t, "to_euler_xyz", lambda: (0.0, 0.0, 0.0)) if vc.symbolic else None
    d = c.to_dict(include_world_transforms=False); d["parts"] = dict(reversed(list(d["parts"].items()))) if vc.choice("order", [0, 1]) else d["parts"]
    e = type(c).from_dict(d); b2, l2 = e.parts["BASE"], e.parts["LINK"]
    vc.check("parts", set(e.parts) == set(c.parts) and (b2.parent, l2.parent, l2.parent_frame) == (c.DATUM_NAME, "BASE", "MOUNT")); q = l2.joint
    vc.check("joint", vc.and_(q.joint_type == ty, q.name == "j", vc.eq(q.value, v), vc.eq(q.min_limit, lo), vc.eq(q.max_limit, hi), vc.same(list(q.axis), list(ax)), meq(vc, q.base_transform, ent(l.joint.base_transform))))
    vc.check("frame", meq(vc, b2.frames["MOUNT"].get_transform(), ent(b.frames["MOUNT"].transform))); vc.check("children", e._children == c._children)
