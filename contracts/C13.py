import types, itertools
import numpy as np
from pyvc.vc import contract
from contracts.lib import *
D = "yapcad.collision.detector"; RG = "yapcad.collision.registry"; RS = "yapcad.collision.result"
DET = D + ":CollisionDetector."
def result(vc, m, a, b, n=""):
    return m.CollisionResult(a, b, vc.bool("collides" + n), method=m.CollisionMethod.AABB)
def rs(vc): return vc.mod(RS)
def detector(vc, reg=None): return vc.mod(D).CollisionDetector(types.SimpleNamespace(get_geometry=lambda n: ("geometry", n)), reg)

# ---------------------------------------------------------------- which pairs
@contract("C13.pairs", [DET + "check_assembly"], samples=300)
def pairs(vc):
    """up to five parts and any set of skipped pairs (written either way round, possibly unknown or twice): one result per unordered pair not skipped, each made from the two parts with their own poses, in the order found"""
    n = vc.choice("parts", [0, 1, 2, 3, 4, 5]); names = ["p%d" % i for i in range(n)]; allp = list(itertools.combinations(names, 2))
    skip = []
    for a, b in allp[:6 if n < 5 else 4]:
        k = vc.choice("skip %s %s" % (a, b), [0, 1, 2])
        if k: skip.append((a, b) if k == 1 else (b, a))
    if n == 3: skip.append(("p0", "unknown"))
    det = detector(vc); calls = []
    def check(pa, ta, pb, tb, method=None): calls.append((pa, ta, pb, tb)); return ("r", pa, pb)
    vc.hook(det, 'check_collision', check); W = {x: "pose of " + x for x in names}
    form = vc.choice("form", ["given", "none"]) if not skip else "given"
    r = det.check_assembly(W, skip_pairs=skip) if form == "given" else det.check_assembly(W)
    want = [p for p in allp if p not in skip and p[::-1] not in skip]
    vc.check("every pair once", sorted(tuple(sorted((c[0], c[2]))) for c in calls) == sorted(want))
    vc.check("with their own poses", all(c[1] == W[c[0]] and c[3] == W[c[2]] for c in calls))
    vc.check("one result each, in order", list(r) == [("r", c[0], c[2]) for c in calls])

@contract("C13.pair_loop", [DET + "check_assembly"])
def pair_loop(vc):
    """any number of parts: the outer loop runs over all parts with their position, the inner one over exactly the parts after it (so each unordered pair arises once), and an inner step adds one result exactly when the pair is not skipped either way round"""
    det = detector(vc); c1 = vc.cut(DET + "check_assembly", 1); c2 = vc.cut(DET + "check_assembly", 2); c0 = vc.cut(DET + "check_assembly", 0)
    names = ["a", "b", "c", "d"]; i = vc.choice("i", [0, 1, 2, 3]); pb = vc.choice("b", names)
    env = {"self": det, "world_transforms": {n: "T" + n for n in names}, "part_names": names, "skip_set": set(), "results": [], "i": i, "part_a": names[i]}
    vc.check("outer loop", list(c1.over(dict(env))) == list(enumerate(names))); vc.check("inner loop", list(c2.over(dict(env))) == names[i + 1:])
    for s in vc.choice("skipped", [[], [("a", "b")], [("b", "a")], [("a", "c"), ("d", "c")]]): c0.body(env, s)
    calls = []
    def check(pa, ta, pb, tb, method=None): calls.append((pa, ta, pb, tb)); return types.SimpleNamespace(collides=False)
    vc.hook(det, 'check_collision', check); before = list(env["results"]); k, v = c2.body(env, pb)
    sk = {frozenset(x) for x in [s for s in env.get("skip_pairs", [])]}; listed = frozenset((names[i], pb)) in {frozenset(x) for x in env["skip_set"]}
    vc.check("goes on", k == "next"); vc.check("checked unless skipped", calls == ([] if listed else [(names[i], "T" + names[i], pb, "T" + pb)])); vc.check("one result", len(env["results"]) == len(calls))

# ---------------------------------------------------------------- one pair
def two(vc):
    return None
@contract("C13.boxes", [DET + "_check_aabb_collision", DET + "_aabb_intersects"])
def boxes(vc):
    """a collision is reported exactly when the two placed boxes share a point, for the two parts named"""
    mod = vc.mod(D); det = detector(vc); vc.check("numpy and trimesh", bool(mod.HAVE_NUMPY))
    def box(n):
        lo = vc.vec3(n); return lo, [x + vc.real("%s size %d" % (n, i), 0, 8, nonneg=True) for i, x in enumerate(lo)]
    A, B = box("a"), box("b"); meshes = {"ga": types.SimpleNamespace(bounds=vc.array(list(A))), "gb": types.SimpleNamespace(bounds=vc.array(list(B)))}; asked = []
    vc.hook(det, '_load_mesh', lambda g, t: (asked.append((g, t)), meshes[g])[1])
    old = mod.HAVE_TRIMESH; mod.HAVE_TRIMESH = True
    try: r = det._check_aabb_collision("A", "ga", "ta", "B", "gb", "tb")
    finally: mod.HAVE_TRIMESH = old
    vc.check("placed boxes", sorted(asked) == [("ga", "ta"), ("gb", "tb")])
    meet = vc.and_(*[vc.and_(vc.le(A[0][k], B[1][k], tol=1e-9, scale=0), vc.le(B[0][k], A[1][k], tol=1e-9, scale=0)) for k in range(3)])
    vc.check("exactly when they meet", vc.iff(bool(r.collides), meet)); vc.check("named", (r.part_a, r.part_b) == ("A", "B")); vc.check("no failure", not r.error_message)

@contract("C13.one_pair", [DET + "check_collision"], samples=300)
def one_pair(vc):
    """the collision found by the chosen method is kept; it is marked as an interface overlap exactly when the registry says the overlap of these two parts is compatible; missing geometry or a bad pose is a failure, never a collision or an all-clear"""
    mod = vc.mod(D); m = rs(vc); det = detector(vc); hit = vc.bool("hit"); comp = vc.choice("compatible", [True, False]); meth = vc.choice("method", [None, "BREP", "MESH", "AABB"]); used = []
    has = vc.choice("available", [(False, False), (False, True), (True, True)]); vc.hook(det, '_has_brep', has[0]); vc.hook(det, '_has_mesh', has[1])
    for n, k in (("_check_brep_collision", "BREP"), ("_check_mesh_collision", "MESH"), ("_check_aabb_collision", "AABB")):
        def f(pa, ga, ta, pb, gb, tb, k=k): used.append((k, pa, ga, pb, gb, ta.tolist(), tb.tolist())); return m.CollisionResult(pa, pb, hit, method=m.CollisionMethod[k])
        vc.hook(det, n, f)
    missing = vc.choice("missing", [None, "A", "B", "pose"])
    det.geometry_provider = types.SimpleNamespace(get_geometry=lambda n: None if n == missing else "g" + n); asked = []
    det.interface_registry = types.SimpleNamespace(check_overlap_compatibility=lambda a, b, *x: (asked.append((a, b)), (comp, []))[1], get_compatible_interface_names=lambda a, b: ["i", "j"])
    I = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]; T = [list(r) for r in I]; T[0][3] = 5.0
    r = det.check_collision("A", I, "B", [1.0] if missing == "pose" else T, **({} if meth is None else {"method": m.CollisionMethod[meth]}))
    if missing:
        vc.check("failure", bool(r.error_message) and not r.collides and (r.part_a, r.part_b) == ("A", "B") and not used); return
    best = "BREP" if has[0] else "MESH" if has[1] else "AABB"; want = best if meth is None else meth if meth == "AABB" or (meth == "BREP" and has[0]) or (meth == "MESH" and has[1]) else "AABB"
    vc.check("one method, both parts with their own pose", used == [(want, "A", "gA", "B", "gB", I, T)])
    vc.check("verdict kept", vc.iff(bool(r.collides), hit)); vc.check("allowed overlap", vc.iff(bool(r.compatible_interface), vc.and_(hit, comp)))
    vc.check("error", vc.iff(bool(r.is_error), vc.and_(hit, not comp))); vc.check("names", vc.iff(list(r.interface_names) == ["i", "j"], vc.and_(hit, comp)))
    vc.check("asked about these parts", all(set(x) == {"A", "B"} for x in asked))

@contract("C13.registry_given", [DET + "__init__", DET + "set_interface_registry"])
def registry_given(vc):
    """the detector uses the very registry it is given, even one that is still empty, so later registrations count"""
    reg = vc.mod(RG).InterfaceRegistry(); det = detector(vc, reg); vc.check("kept", det.interface_registry is reg)
    other = vc.mod(RG).InterfaceRegistry(); det.set_interface_registry(other); vc.check("replaced", det.interface_registry is other)
    a, b = detector(vc), detector(vc); vc.check("own registry", a.interface_registry is not b.interface_registry)

@contract("C13.cache", [DET + "_get_geometry", DET + "clear_cache"])
def cache(vc):
    """geometry is that of the named part, whatever was asked before; clearing the cache asks anew; missing geometry is not remembered"""
    det = detector(vc); ans = {"a": 1, "b": 2}; det.geometry_provider = types.SimpleNamespace(get_geometry=lambda n: ans.get(n))
    for i in range(4):
        n = vc.choice("n%d" % i, ["a", "b", "c"]); vc.check("own geometry", det._get_geometry(n) == {"a": 1, "b": 2}.get(n))
    ans["c"] = 3; vc.check("found later", det._get_geometry("c") == 3)
    ans["a"] = 9; det.clear_cache(); vc.check("cleared", det._get_geometry("a") == 9)

@contract("C13.pose", [DET + "_to_numpy_transform"])
def pose(vc):
    """a 4x4 pose, nested or flat or carried by an object, is used as given; none means identity; anything else is refused"""
    det = detector(vc); M = vc.rigid("M", as_array=False); k = vc.choice("form", ["rows", "array", "object", "none", "bad", "flat"])
    if vc.symbolic and k == "flat": M = [[float(4 * i + j) for j in range(4)] for i in range(4)]
    A = vc.array(M) if k in ("array", "object") else M
    if vc.symbolic and k not in ("none", "bad"):
        M = [[float(4 * i + j + 1) for j in range(4)] for i in range(4)]; A = np.array(M) if k in ("array", "object") else M
    g = {"rows": A, "array": A, "object": types.SimpleNamespace(matrix=A), "none": None, "bad": [[1.0, 2.0]], "flat": [x for r in M for x in r]}[k]
    r = det._to_numpy_transform(g)
    if k == "bad": vc.check("refused", r is None); return
    I = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
    vc.check("same pose", r is not None and vc.same([list(x) for x in r.tolist()], I if k == "none" else M))

# ---------------------------------------------------------------- allowed overlaps
class Iface:
    def __init__(self, name, part, others): self.name = name; self.part_name = part; self.interface_type = "t"; self.o = others
    def overlaps_with(self, x, *a, **k): return self.o[self.name, x.name][0]
    def check_compatibility(self, x): return types.SimpleNamespace(is_compatible=self.o[self.name, x.name][1], pair=(self.name, x.name))

@contract("C13.allowed", [RG + ":InterfaceRegistry.check_overlap_compatibility", RG + ":InterfaceRegistry.get_compatible_interface_names"], samples=300)
def allowed(vc):
    """up to two interfaces on each part, any overlaps and verdicts: allowed exactly when some overlapping pair is compatible and no overlapping pair is incompatible; one verdict per overlapping pair; the names are those of the compatible overlapping pairs"""
    reg = vc.mod(RG).InterfaceRegistry(); na, nb = vc.choice("na", [0, 1, 2]), vc.choice("nb", [0, 1, 2]); o = {}
    A = [Iface("a%d" % i, "A", o) for i in range(na)]; B = [Iface("b%d" % i, "B", o) for i in range(nb)]
    for x in A:
        for y in B:
            k = vc.choice("%s %s" % (x.name, y.name), [(False, True), (False, False), (True, True), (True, False)]); o[x.name, y.name] = o[y.name, x.name] = k
    extra = Iface("c", "C", o)
    for x in A + [extra] + B: reg.register(x)
    ok, res = reg.check_overlap_compatibility("A", "B"); ov = [o[x.name, y.name][1] for x in A for y in B if o[x.name, y.name][0]]
    vc.check("allowed", bool(ok) == (any(ov) and all(ov))); vc.check("one verdict each", sorted(bool(r.is_compatible) for r in res) == sorted(ov))
    ok2, _ = reg.check_overlap_compatibility("B", "A"); vc.check("either order", bool(ok2) == bool(ok))
    names = reg.get_compatible_interface_names("A", "B"); want = {n for x in A for y in B if o[x.name, y.name] == (True, True) for n in (x.name, y.name)} if ok else set()
    vc.check("names", set(names) == want and len(names) == len(want))

@contract("C13.allowed_step", [RG + ":InterfaceRegistry.check_overlap_compatibility"])
def allowed_step(vc):
    """loop invariant, any number of interfaces: a step turns 'found compatible' on exactly for a compatible overlapping pair and 'found incompatible' on exactly for an incompatible overlapping one, and records the verdict of every overlapping pair"""
    s = RG + ":InterfaceRegistry.check_overlap_compatibility"; c = vc.cut(s, 1); o = {}; x, y = Iface("x", "A", o), Iface("y", "B", o)
    ov, ok = vc.choice("pair", [(False, False), (False, True), (True, False), (True, True)]); o["x", "y"] = (ov, ok); f, g = vc.choice("state", [(a, b) for a in (False, True) for b in (False, True)])
    env = {"iface_a": x, "results": [], "found_compatible": f, "found_incompatible": g, "interfaces_b": [y], "interfaces_a": [x]}
    vc.check("over all", list(c.over(dict(env))) == [y]); k, v = c.body(env, y)
    vc.check("goes on", k == "next"); vc.check("compatible found", env["found_compatible"] == (f or (ov and ok))); vc.check("incompatible found", env["found_incompatible"] == (g or (ov and not ok))); vc.check("recorded", len(env["results"]) == (1 if ov else 0))
    c0 = vc.cut(s, 0); vc.check("over all of the other", list(c0.over({"interfaces_a": [x]})) == [x]); k, v = c0.post({"found_compatible": f, "found_incompatible": g, "results": []})
    vc.check("verdict", k == "return" and bool(v[0]) == (f and not g))

# ---------------------------------------------------------------- results
@contract("C13.error", [RS + ":CollisionResult.is_error", RS + ":CollisionResult.is_interface_overlap", RS + ":CollisionResult.error", RS + ":CollisionResult.no_collision"])
def error(vc):
    """a colliding pair is an error exactly when the overlap is not an allowed one, and an interface overlap exactly when it is; factories"""
    m = rs(vc); c, i = vc.bool("collides"), vc.bool("compatible"); r = m.CollisionResult("a", "b", c, compatible_interface=i)
    vc.check("error", vc.iff(bool(r.is_error), vc.and_(c, vc.not_(i)))); vc.check("interface", vc.iff(bool(r.is_interface_overlap), vc.and_(c, i)))
    e = m.CollisionResult.error("a", "b", "why"); vc.check("failure", (e.part_a, e.part_b, e.collides, e.error_message) == ("a", "b", False, "why") and not e.is_error)
    n = m.CollisionResult.no_collision("a", "b", m.CollisionMethod.MESH); vc.check("none", (n.part_a, n.part_b, n.collides, n.error_message, n.method) == ("a", "b", False, "", m.CollisionMethod.MESH))
    vc.check("key", m.CollisionResult("b", "a", c).pair_key == m.CollisionResult("a", "b", c).pair_key == ("a", "b"))

@contract("C13.summary", [DET + "get_collision_summary"], samples=300)
def summary(vc):
    """up to four results of any kind: every count is the number of results of that kind, and the listed pairs are exactly those"""
    m = rs(vc); det = detector(vc); n = vc.choice("n", [0, 1, 2, 4]); R = []
    for i in range(n):
        c, k, e = vc.choice("kind%d" % i, [(False, False, ""), (False, False, "bad"), (True, False, ""), (True, True, ""), (False, True, "")]); R.append(m.CollisionResult("a%d" % i, "b%d" % i, c, compatible_interface=k, error_message=e))
    s = det.get_collision_summary(R); hit = [r for r in R if r.collides]; bad = [r for r in hit if not r.compatible_interface]; ok = [r for r in hit if r.compatible_interface]
    vc.check("counts", (s["total_pairs"], s["collisions_detected"], s["actual_errors"], s["expected_interfaces"], s["detection_failures"]) == (n, len(hit), len(bad), len(ok), sum(1 for r in R if r.error_message)))
    vc.check("pairs", s["error_pairs"] == [(r.part_a, r.part_b) for r in bad] and s["interface_pairs"] == [(r.part_a, r.part_b) for r in ok])

@contract("C13.saved", [RS + ":CollisionResult.to_dict", RS + ":CollisionResult.from_dict"])
def saved(vc):
    """saving, writing as JSON and reloading a result preserves every field"""
    import json
    m = rs(vc); M = vc.choice("method", list(m.CollisionMethod)); vol = vc.choice("volume", [None, 0.0, 1]); c, i = vc.bool("collides"), vc.bool("compatible")
    r = m.CollisionResult("a", "b", c, method=M, intersection_volume=vc.real("v") if vol == 1 else vol, penetration_depth=vc.real("depth"), contact_points=[tuple(vc.vec3("c%d" % k)) for k in range(vc.choice("contacts", [0, 2]))], compatible_interface=i,
                          interface_names=vc.choice("names", [[], ["x", "y"]]), error_message=vc.choice("msg", ["", "bad"]), metadata=vc.choice("meta", [{}, {"k": [1]}]))
    d = r.to_dict(); d2 = d if vc.symbolic else json.loads(json.dumps(d)); q = m.CollisionResult.from_dict(d2)
    for f in ("part_a", "part_b", "collides", "method", "intersection_volume", "penetration_depth", "contact_points", "compatible_interface", "interface_names", "error_message", "metadata"):
        vc.check(f, vc.same(getattr(q, f), getattr(r, f)))
