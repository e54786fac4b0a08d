from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched
from contracts.C23 import cross, long, radius, AXIAL
NB = "yapcad.native_brep"; N = NB + ":"; T = N + "TopologyGraph."; AN = "yapcad.analytic_surfaces"; GE = "yapcad.geom"
def graph(vc): return vc.mod(NB).TopologyGraph()
def stubbed(g, **kw):
    for k, f in kw.items():
        assert hasattr(type(g), k) or hasattr(g, k)
        setattr(g, k, f)
    return g
# ---------------------------------------------------------------- entities and the graph
@contract("C25.vertex", [N + "brep_vertex", N + "vertex_location", N + "vertex_id", N + "set_vertex_location", N + "vertices_coincident", N + "is_brep_vertex", N + "_normalize_point", N + "_point_distance", T + "add_vertex", T + "get_vertex"])
def vertex(vc):
    """a vertex keeps its own copy of its place; vertices coincide exactly when no further apart than the tolerance, by default the larger of their own"""
    m = vc.mod(NB); p, q = vc.point("p"), vc.point("q"); t1, t2 = vc.choice("tolerances", [(0.5, 0.25), (0.25, 0.5)]); given = list(p) if vc.choice("homogeneous", [True, False]) else list(p[:3]); a = m.brep_vertex(given, tolerance=t1); b = m.brep_vertex(q, tolerance=t2); given[0] = given[0] + 1.0; L = m.vertex_location(a)
    vc.check("place", vc.and_(vc.veq(L, p), vc.veq(m.vertex_location(b), q))); L[1] = L[1] + 1.0; vc.check("own copy", vc.veq(m.vertex_location(a), p)); vc.check("distinct", m.vertex_id(a) != m.vertex_id(b) and m.is_brep_vertex(a)); tol = vc.choice("tol", [None, 0.125, 2.0]); r = m.vertices_coincident(a, b, tol) if tol is not None else m.vertices_coincident(a, b); w = 0.5 if tol is None else tol
    vc.check("coincident", vc.iff(r, vc.le(vc.norm2(vc.vsub(p[:3], q[:3])), w * w))); m.set_vertex_location(a, q); vc.check("moved", vc.veq(m.vertex_location(a), q)); g = graph(vc); vc.check("found", g.add_vertex(a) == m.vertex_id(a) and g.get_vertex(m.vertex_id(a)) is a and g.get_vertex("no") is None)
    for f in (m.vertex_location, m.vertex_id, lambda x: m.set_vertex_location(x, q), lambda x: m.vertices_coincident(a, x), g.add_vertex):
        e, _ = vc.raises(f, ["brep_edge", "line", {}]); vc.check("rejects", isinstance(e, ValueError))
EDGES = {"ab": ("a", "b"), "bc": ("b", "c"), "ring": ("c", "c"), "gone": ("a", "z")}
def small_graph(vc, ids, m):
    g = graph(vc); V = {}
    for k in "abc": v = m.brep_vertex([0.0, 0.0, 0.0]); v[2]["id"] = k; g.add_vertex(v); V[k] = v
    for k in ids: a, b = EDGES[k]; e = m.line_edge(V.get(a, a), b); e[2]["id"] = k; g.add_edge(e)
    return g
def add_face(m, g, fid, loops):
    """loops: list of lists of edge ids"""
    L = []
    for i, es in enumerate(loops):
        ts = []
        for j, e in enumerate(es): t = m.brep_trim(g.edges.get(e, e), sense=(j % 2 == 0)); t[2]["id"] = "%s.%d.%d" % (fid, i, j); g.add_trim(t); ts.append(t)
        l = m.brep_loop(ts, loop_type="outer" if i == 0 else "inner"); l[2]["id"] = "%s.%d" % (fid, i); g.add_loop(l); L.append(l)
    f = m.brep_face(["plane_surface", [0.0, 0.0, 0.0, 1.0], {}], L); f[2]["id"] = fid; g.add_face(f); return f
LOOPS = [[], [["ab"]], [["ab", "bc"]], [["ab"], ["ring"]], [["ab", "ab"]], [["gone", "bc"]], [[]]]
@contract("C25.incidence", [T + "add_edge", T + "add_trim", T + "add_loop", T + "add_face", T + "vertex_edges", T + "edge_faces", T + "face_edges", T + "get_edge", T + "get_face", T + "get_loop", T + "get_trim", T + "summary", N + "brep_edge", N + "brep_trim", N + "brep_loop", N + "brep_face", N + "edge_vertices", N + "face_loops", N + "loop_trims", N + "trim_edge_id", N + "line_edge", N + "edge_id", N + "face_id", N + "loop_id", N + "trim_id", N + "loop_type"])
def incidence(vc):
    """the edges of a vertex are those that start or end there, each once; the edges of a face are those of its loops, each once, in order; the faces of an edge are those with a loop through it"""
    m = vc.mod(NB); ids = vc.choice("edges", [["ab", "bc", "ring", "gone"], ["gone", "ring", "ab"], ["bc"], []]); g = small_graph(vc, ids, m); A, B = vc.choice("face A", LOOPS), vc.choice("face B", LOOPS); add_face(m, g, "A", A); add_face(m, g, "B", B)
    for k in "abc": vc.check("edges of %s" % k, [m.edge_id(e) for e in g.vertex_edges(k)] == [i for i in ids if k in EDGES[i]])
    for fid, L in (("A", A), ("B", B)):
        seen = []
        for l in L:
            for e in l:
                if e in ids and e not in seen: seen.append(e)
        vc.check("edges of %s" % fid, [m.edge_id(e) for e in g.face_edges(fid)] == seen)
    for i in ids: vc.check("faces of %s" % i, set(m.face_id(f) for f in g.edge_faces(i)) == {f for f, L in (("A", A), ("B", B)) if any(i in l for l in L)}); vc.check("ends", m.edge_vertices(g.get_edge(i)) == EDGES[i])
    vc.check("nothing", g.vertex_edges("z") == [] and g.edge_faces("z") == [] and g.face_edges("z") == [] and g.get_edge("z") is None and g.get_face("z") is None and g.get_loop("z") is None and g.get_trim("z") is None); n = sum(len(l) for L in (A, B) for l in L)
    vc.check("summary", g.summary() == {"vertices": 3, "edges": len(ids), "trims": n, "loops": len(A) + len(B), "faces": 2, "shells": 0, "solids": 0})
    for L, fid in ((A, "A"), (B, "B")):
        for i in range(len(L)): l = g.get_loop("%s.%d" % (fid, i)); vc.check("loop", m.loop_type(l) == ("outer" if i == 0 else "inner") and m.loop_trims(l) == ["%s.%d.%d" % (fid, i, j) for j in range(len(L[i]))] and [m.trim_edge_id(g.get_trim(t)) for t in m.loop_trims(l)] == L[i])
@contract("C25.usage", [T + "shell_edge_usage", T + "shell_vertices", N + "brep_shell", N + "shell_faces", T + "add_shell", T + "get_shell"])
def usage(vc):
    """the edge usage of a shell lists, for every edge on a loop of its faces, one entry per use with the face that uses it; its vertices are the ends of those edges; other faces of the graph do not count"""
    m = vc.mod(NB); g = small_graph(vc, ["ab", "bc", "ring"], m); A, B = vc.choice("face A", LOOPS[:5]), vc.choice("face B", LOOPS[:5]); fa, fb, fo = add_face(m, g, "A", A), add_face(m, g, "B", B), add_face(m, g, "other", [["bc", "ring", "ab"]]); k = vc.choice("faces", ["A", "B", "AB", ""]); s = m.brep_shell([g.faces[x] for x in k], closed=False); g.add_shell(s); sid = m.shell_id(s); U = g.shell_edge_usage(sid); W = {}
    for fid, L in (("A", A), ("B", B)):
        if fid not in k: continue
        for l in L:
            for e in l: W.setdefault(e, []).append(fid)
    vc.check("usage", {e: sorted(f) for e, f in U.items()} == W); vc.check("vertices", g.shell_vertices(sid) == {x for e in W for x in EDGES[e]}); vc.check("faces", m.shell_faces(s) == list(k) and g.get_shell(sid) is s and all(g.faces[x][2]["shell_id"] == sid for x in k) and fo[2]["shell_id"] is None)
    e, _ = vc.raises(g.shell_edge_usage, "no"); vc.check("unknown", isinstance(e, ValueError))
@contract("C25.closure", [T + "compute_shell_closure", T + "validate_shell_closure"])
def closure(vc):
    """a shell is closed exactly when every one of its edges is used twice; the edges used once are named as boundary, those used more as non-manifold; validation raises exactly when it is not closed"""
    m = vc.mod(NB); n = vc.choice("edges", [0, 1, 2, 3]); uses = [vc.choice("uses%d" % i, [1, 2, 3, 4]) for i in range(n)]; g = graph(vc); g.shells["s"] = ["brep_shell", ["F0", "F1"], {"id": "s"}]; asked = []
    def eu(sid): asked.append(sid); return {"e%d" % i: ["F%d" % j for j in range(k)] for i, k in enumerate(uses)}
    stubbed(g, shell_edge_usage=eu, shell_vertices=lambda sid: {"v%d" % i for i in range(n + 1)}); ok, d = g.compute_shell_closure("s"); w = all(k == 2 for k in uses)
    vc.check("closed", ok is w); vc.check("boundary", d["boundary_edges"] == ["e%d" % i for i, k in enumerate(uses) if k == 1]); vc.check("non-manifold", d["non_manifold_edges"] == ["e%d" % i for i, k in enumerate(uses) if k > 2]); vc.check("euler", d["euler_characteristic"] == n + 1 - n + 2 and (d["vertex_count"], d["edge_count"], d["face_count"]) == (n + 1, n, 2)); vc.check("this shell", set(asked) == {"s"})
    e, r = vc.raises(g.validate_shell_closure, "s"); vc.check("raises", isinstance(e, m.ShellClosureError) if not w else (e is None and r["edge_count"] == n)); e, _ = vc.raises(g.compute_shell_closure, "no"); vc.check("unknown", isinstance(e, ValueError))
@contract("C25.add_shell", [T + "add_shell", T + "add_solid", N + "shell_closed", N + "set_shell_closed", N + "solid_shells", N + "brep_solid", N + "solid_id", N + "shell_id", T + "get_solid"])
def add_shell(vc):
    """a shell claimed closed is only accepted after its closure is verified; one of unknown state is marked with what it is; solids are validated unless asked not to be"""
    m = vc.mod(NB); claim, real, val = vc.choice("claim", [None, True, False]), vc.choice("real", [True, False]), vc.choice("validate", [True, False, None]); g = graph(vc); s = m.brep_shell(["f"], closed=claim); sid = m.shell_id(s)
    def vs(x):
        vc.check("this one", x == sid)
        if not real: raise m.ShellClosureError("open")
        return {}
    stubbed(g, compute_shell_closure=lambda x: (real and x == sid, {}), validate_shell_closure=vs); e, r = vc.raises(lambda: g.add_shell(s) if val is None else g.add_shell(s, validate_closure=val)); on = val is not False
    vc.check("claimed", isinstance(e, m.ShellClosureError) == (on and claim is True and not real) and (e is not None or r == sid)); vc.check("state", m.shell_closed(s) is (real if on and claim is None else claim)); calls = []
    sol = m.brep_solid([s, "other"]); k = m.solid_id(sol); bad = vc.choice("solid bad", [True, False])
    def vsol(x, tol=None):
        calls.append(x)
        if bad: raise m.SolidValidationError("no")
    g.shells[sid] = s; stubbed(g, validate_solid=vsol); e, r = vc.raises(lambda: g.add_solid(sol) if val is None else g.add_solid(sol, validate=val)); vc.check("solid", isinstance(e, m.SolidValidationError) == (on and bad) and (e is not None or r == k) and calls == ([k] if on else [])); vc.check("registered", g.get_solid(k) is sol and s[2]["solid_id"] == k and m.solid_shells(sol) == [sid, "other"])
@contract("C25.kinds", [N + "is_brep_edge", N + "is_brep_trim", N + "is_brep_loop", N + "is_brep_face", N + "is_brep_shell", N + "is_brep_solid_native", N + "edge_curve_type", N + "edge_curve_params", N + "face_surface", T + "add_edge", T + "add_trim", T + "add_loop", T + "add_face", T + "add_shell", T + "add_solid"])
def kinds(vc):
    """every accessor and every add method rejects entities of another kind; accessors hand out copies"""
    m = vc.mod(NB); v = m.brep_vertex([0.0, 0.0, 0.0]); e = m.arc_edge("a", "b", bulge=1.0); t = m.brep_trim(e); l = m.brep_loop([t]); f = m.brep_face(["plane_surface", [0.0, 0.0, 0.0, 1.0], {"x": [1]}], [l]); s = m.brep_shell([f]); o = m.brep_solid([s]); g = graph(vc); ALL = {"vertex": v, "edge": e, "trim": t, "loop": l, "face": f, "shell": s, "solid": o}
    IS = {"vertex": m.is_brep_vertex, "edge": m.is_brep_edge, "trim": m.is_brep_trim, "loop": m.is_brep_loop, "face": m.is_brep_face, "shell": m.is_brep_shell, "solid": m.is_brep_solid_native}
    ACC = {"vertex": [m.vertex_id, g.add_vertex], "edge": [m.edge_id, m.edge_curve_type, m.edge_curve_params, m.edge_vertices, g.add_edge, lambda x: m.evaluate_edge_curve(x, v[1], v[1]), lambda x: m.transform_edge_params(x, lambda p: p)], "trim": [m.trim_id, m.trim_edge_id, g.add_trim], "loop": [m.loop_id, m.loop_trims, m.loop_type, g.add_loop], "face": [m.face_id, m.face_surface, m.face_loops, g.add_face], "shell": [m.shell_id, m.shell_faces, m.shell_closed, lambda x: m.set_shell_closed(x, None), lambda x: g.add_shell(x, validate_closure=False)], "solid": [m.solid_id, m.solid_shells, lambda x: g.add_solid(x, validate=False)]}
    for k, x in list(ALL.items()) + [("none", None), ("list", [])]:
        for j in IS:
            vc.check("%s is %s" % (k, j), bool(IS[j](x)) is (j == k))
            for i, a in enumerate(ACC[j]): er, _ = vc.raises(a, x); vc.check("%s as %s %d" % (k, j, i), er is None if j == k else isinstance(er, ValueError))
    P = m.edge_curve_params(e); P["bulge"] = 7; S = m.face_surface(f); S[2]["x"].append(2); m.face_loops(f).append(1); m.shell_faces(s).append(1); m.loop_trims(l).append(1); m.solid_shells(o).append(1); vc.check("copies", m.edge_curve_params(e) == {"bulge": 1.0} and m.face_surface(f)[2] == {"x": [1]} and len(m.face_loops(f)) == len(m.shell_faces(s)) == len(m.loop_trims(l)) == len(m.solid_shells(o)) == 1)
# ---------------------------------------------------------------- edges
def closed_form(vc, c):
    """the points a curve runs through at the start, middle and end"""
    G = vc.mod(GE); return [G.sample(c, u) for u in (0.0, 0.5, 1.0)]
@contract("C25.bulge", [N + "evaluate_edge_curve", N + "arc_edge", N + "_midpoint", T + "evaluate_edge"])
def bulge(vc):
    """an edge with a bulge is the arc from its start vertex to its end vertex whose middle lies bulge half chords to the left of the chord's middle"""
    m = vc.mod(NB); R = vc.unit("dir", 2); L = vc.real("L", 0.1, 10, pos=True); vc.assume(vc.ge(L, 0.01)); d = [R[0], R[1]]; z = vc.real("z"); s = [vc.real("sx"), vc.real("sy"), z, 1.0]; e = [s[0] + L * d[0], s[1] + L * d[1], z, 1.0]; b = vc.real("b", -2, 2); vc.assume(vc.or_(vc.eq(b, 0.0), vc.ge(vc.abs(b), 0.01))); vc.assume(vc.or_(vc.eq(b, 0.0), vc.ge(vc.abs(b) * L, 0.001))); c = m.evaluate_edge_curve(m.arc_edge("a", "b", bulge=b), s, e)
    G = vc.mod(GE)
    if G.isline(c): vc.check("flat", vc.and_(vc.eq(b, 0.0), vc.veq(c[0], s), vc.veq(c[1], e))); return
    h = b * L / 2.0; mid = [(p + q) / 2.0 for p, q in zip(s, e)]; M = [mid[0] - h * d[1], mid[1] + h * d[0], z]; C, (r, a0, a1, code) = c[0], c[1]; vc.check("centre", vc.and_(vc.eq(vc.norm2(vc.vsub(s[:3], C[:3])), r * r), vc.eq(vc.norm2(vc.vsub(e[:3], C[:3])), r * r), vc.eq(vc.norm2(vc.vsub(M, C[:3])), r * r), vc.eq(C[2], z)))
    on = lambda ang, p: vc.and_(vc.eq(C[0] + r * vc.cosd(ang), p[0]), vc.eq(C[1] + r * vc.sind(ang), p[1])); rev = code == -2; vc.check("not a circle", code in (-1, -2)); first, last = (a1, a0) if rev else (a0, a1); vc.check("ends", vc.and_(on(first, s), on(last, e))); vc.check("side", vc.iff(rev, vc.gt(b, 0.0)))
@contract("C25.centred_arc", [N + "evaluate_edge_curve", N + "arc_edge"])
def centred_arc(vc):
    """an edge with a centre is the arc about it from its start vertex to its end vertex, counter-clockwise for a positive orientation, clockwise for a negative one"""
    m = vc.mod(NB); c = vc.point("c"); r = vc.real("r", 0.1, 10, pos=True); vc.assume(vc.ge(r, 0.01)); u, w = vc.unit("u", 2), vc.unit("w", 2); s = [c[0] + r * u[0], c[1] + r * u[1], c[2], 1.0]; e = [c[0] + r * w[0], c[1] + r * w[1], c[2], 1.0]; o = vc.choice("orientation", [1, -1, None]); ed = m.arc_edge("a", "b", center=c) if o is None else m.arc_edge("a", "b", center=c, orientation=o); A = m.evaluate_edge_curve(ed, s, e); C, (q, a0, a1, code) = A[0], A[1]; rev = o == -1
    vc.check("circle", vc.and_(vc.veq(C, c), vc.eq(q, r), code == (-2 if rev else -1))); first, last = (a1, a0) if rev else (a0, a1); on = lambda ang, d: vc.and_(vc.eq(vc.cosd(ang), d[0]), vc.eq(vc.sind(ang), d[1])); vc.check("ends", vc.and_(on(first, u), on(last, w))); x, _ = vc.raises(m.arc_edge, "a", "b"); vc.check("needs one", isinstance(x, ValueError))
@contract("C25.evaluate", [T + "evaluate_edge", N + "evaluate_edge_curve"])
def evaluate(vc):
    """evaluating an edge of a graph uses where its vertices are now; lines and ellipses come out as declared; edges whose vertices are missing are refused"""
    m = vc.mod(NB); g = graph(vc); a, b = m.brep_vertex(vc.point("p")), m.brep_vertex(vc.point("q")); g.add_vertex(a); g.add_vertex(b); k = vc.choice("kind", ["line", "ellipse", "arc without data"]); c = vc.point("c"); E = m.line_edge(a, b) if k == "line" else m.brep_edge("ellipse", a, b, curve_params={"center": c, "semi_major": 3.0, "semi_minor": 2.0, "rotation": 30.0, "start_angle": 10.0, "end_angle": 120.0}) if k == "ellipse" else m.brep_edge("arc", a, b); g.add_edge(E); q = vc.point("moved"); m.set_vertex_location(b, q); r = g.evaluate_edge(m.edge_id(E))
    if k == "ellipse": vc.check("ellipse", r[0] == "ellipse"); vc.check("declared", vc.and_(vc.veq(r[1], c), [r[2][x] for x in ("semi_major", "semi_minor", "rotation", "start", "end")] == [3.0, 2.0, 30.0, 10.0, 120.0]))
    else: vc.check("line", vc.and_(vc.veq(r[0], a[1]), vc.veq(r[1], q)))
    e, _ = vc.raises(g.evaluate_edge, "no"); vc.check("unknown", isinstance(e, ValueError)); del g.vertices[m.vertex_id(vc.choice("lost", [0, 1]) and a or b)]; e, _ = vc.raises(g.evaluate_edge, m.edge_id(E)); vc.check("missing vertex", isinstance(e, ValueError))
# ---------------------------------------------------------------- storing and loading
def plain(x):
    """made of nothing but what JSON can hold"""
    if isinstance(x, dict): return all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, list): return all(plain(v) for v in x)
    return x is None or not isinstance(x, tuple)
def alike(vc, a, b):
    if isinstance(a, dict): return vc.and_(isinstance(b, dict) and set(a) == set(b), *[alike(vc, a[k], b[k]) for k in a if isinstance(b, dict) and k in b])
    if isinstance(a, (list, tuple)): return vc.and_(isinstance(b, (list, tuple)) and len(a) == len(b), *[alike(vc, x, y) for x, y in zip(a, b)]) if isinstance(b, (list, tuple)) else False
    if a is None or isinstance(a, (str, bool)): return a is b or (type(a) is type(b) and bool(a == b))
    if b is None or isinstance(b, (str, bool)): return False
    return vc.eq(a, b)
SURF = ["plane", "sphere", "cylinder", "cone", "torus", "bspline", "weighted", "tessellated"]
def some_surface(vc, k, rng=((0.5, 2.0), (1.0, 3.0))):
    m = vc.mod(AN); o = vc.point("so"); R = vc.rotation("SR"); x, y, a = [[R[i][j] for i in range(3)] + [0.0] for j in range(3)]; me = {"u_range": rng[0], "v_range": rng[1]}
    if k == "plane": return ["plane_surface", o, dict(me, normal=a, u_axis=x, v_axis=y)]
    if k == "sphere": return ["sphere_surface", o, dict(me, radius=radius(vc, "sr"))]
    if k == "cylinder": return ["cylinder_surface", o, dict(me, axis=a, ref_direction=x, radius=radius(vc, "sr"))]
    if k == "cone": return ["cone_surface", o, dict(me, axis=a, ref_direction=x, half_angle=0.7)]
    if k == "torus": r = radius(vc, "sr"); return ["torus_surface", o, dict(me, axis=a, ref_direction=x, major_radius=r + radius(vc, "sd"), minor_radius=r)]
    if k in ("bspline", "weighted"): return m.bspline_surface([[vc.point("cp%d%d" % (i, j)) for j in range(2)] for i in range(2)], [0.0, 0.0, 3.0, 3.0], [0.0, 0.0, 3.0, 3.0], 1, 1, weights=[[1.0, 2.0], [0.5, 1.5]] if k == "weighted" else None, u_range=rng[0], v_range=rng[1])
    return m.tessellated_surface([vc.vec3("tv%d" % i) for i in range(3)], [list(vc.unit3("tn"))], [[0, 1, 2]], u_range=rng[0], v_range=rng[1])
@contract("C25.store_surface", [N + "_serialize_surface", N + "_deserialize_surface", N + "_serialize_surface_metadata", N + "_serialize_point", N + "_deserialize_point"])
def store_surface(vc):
    """every surface, loaded from its stored form, is the one that was stored: place, size, directions, ranges, knots, weights"""
    m = vc.mod(NB); k = vc.choice("surface", SURF); S = some_surface(vc, k); D = m._serialize_surface(S); vc.check("plain", plain(D)); r = m._deserialize_surface(D); vc.check("same", alike(vc, S, r)); vc.check("is surface", vc.mod(AN).is_analytic_surface(r)); vc.check("none", m._serialize_surface(None) is None and m._deserialize_surface(None) is None)
EDGEK = ["line", "bulge", "centre", "circle", "bspline", "ellipse"]
def some_edge(vc, k):
    m = vc.mod(NB); o = dict(sense=vc.choice("sense", [True, False]), tolerance=0.25, tags={"t": "x"})
    if k == "line": return m.line_edge("a", "b", **o)
    if k == "bulge": return m.arc_edge("a", "b", bulge=vc.real("bulge"), **o)
    if k == "centre": return m.arc_edge("a", "b", center=vc.point("ec"), orientation=vc.choice("orientation", [1, -1]), **o)
    if k == "circle": return m.circle_edge("a", "b", vc.point("ec"), list(vc.unit3("ea")), vc.real("er", 0.1, 5), t_start=vc.real("t0"), t_end=vc.real("t1"), **o)
    if k == "bspline": return m.bspline_edge("a", "b", [vc.point("ep%d" % i) for i in range(3)], [0.0, 0.0, 0.0, 2.0, 2.0, 2.0], 2, weights=vc.choice("weights", [None, [1.0, 2.0, 3.0]]), t_start=vc.choice("ts", [None, 0.5]), t_end=vc.choice("te", [None, 1.5]), **o)
    return m.brep_edge("ellipse", "a", "b", curve_params={"center": vc.point("ec"), "semi_major": vc.real("smaj"), "semi_minor": 1.0, "rotation": vc.real("erot"), "start_angle": 10.0, "end_angle": 80.0}, **o)
def bare(x):
    """an entity without what the graph works out again"""
    return [x[0], x[1], {k: v for k, v in x[2].items() if k not in ("edges", "faces", "_octree", "_octree_dirty")}]
@contract("C25.store_edge", [N + "_serialize_edge", N + "_deserialize_edge", N + "bspline_edge", N + "circle_edge", N + "arc_edge", N + "line_edge", N + "brep_edge", N + "_normalize_vector"])
def store_edge(vc):
    """every edge, loaded from its stored form, is the one that was stored: kind, ends, curve, sense, tolerance, tags, identity; spline edges run over their whole knot range unless told otherwise"""
    m = vc.mod(NB); k = vc.choice("edge", EDGEK); E = some_edge(vc, k); D = m._serialize_edge(E); vc.check("plain", plain(D)); r = m._deserialize_edge(D); vc.check("same", alike(vc, bare(E), bare(r))); p = E[2]["curve_params"]
    if k == "bspline": vc.check("range", (p["t_start"], p["t_end"]) in [(a, b) for a in (0.0, 0.5) for b in (2.0, 1.5)] and len(p["weights"]) == 3); e, _ = vc.raises(m.bspline_edge, "a", "b", [[0.0, 0.0, 0.0]] * 3, [0.0] * vc.choice("knots", [5, 7]), 2); vc.check("knot count", isinstance(e, ValueError))
    if k == "circle": vc.check("axis", vc.veq(p["axis"], r[2]["curve_params"]["axis"])); vc.check("unit", vc.eq(vc.norm2(p["axis"][:3]), 1.0))
@contract("C25.store_rest", [N + "_serialize_vertex", N + "_deserialize_vertex", N + "_serialize_trim", N + "_deserialize_trim", N + "_serialize_loop", N + "_deserialize_loop", N + "_serialize_face", N + "_deserialize_face", N + "_serialize_shell", N + "_deserialize_shell", N + "_serialize_solid", N + "_deserialize_solid"])
def store_rest(vc):
    """vertices, trims, loops, faces, shells and solids, loaded from their stored forms, are those that were stored, in every field"""
    m = vc.mod(NB); k = vc.choice("kind", ["vertex", "trim", "loop", "face", "shell", "solid"]); s = vc.choice("flag", [True, False]); ref = vc.choice("refs", [[], ["x"], ["x", "y", "x"]]); own = vc.choice("owner", [None, "own"]); T_ = {"t": 1}
    if k == "vertex": x = m.brep_vertex(vc.point("p"), tolerance=0.25, tags=T_)
    elif k == "trim": x = m.brep_trim("e", sense=s, uv_curve=vc.choice("uv", [None, [[0.0, 0.0], [1.0, 1.0]]]), tags=T_)
    elif k == "loop": x = m.brep_loop(ref, loop_type="inner" if s else "outer", tags=T_)
    elif k == "face": x = m.brep_face(some_surface(vc, "sphere"), ref, sense=s, tags=T_); x[2]["shell_id"] = own
    elif k == "shell": x = m.brep_shell(ref, shell_type="void" if s else "outer", closed=vc.choice("closed", [None, True, False]), tags=T_); x[2]["solid_id"] = own
    else: x = m.brep_solid(ref, tags=T_)
    if k in ("trim", "loop") and own: x[2]["face_id"] = own
    if k == "trim" and own: x[2]["loop_id"] = "l"
    D = getattr(m, "_serialize_" + k)(x); vc.check("plain", plain(D)); vc.check("same", alike(vc, bare(x), bare(getattr(m, "_deserialize_" + k)(D)))); e, _ = vc.raises(getattr(m, "_serialize_" + k), ["brep_other", [], {}]); vc.check("rejects", isinstance(e, ValueError))
@contract("C25.store_graph", [N + "serialize_topology_graph", N + "deserialize_topology_graph", N + "attach_native_brep_to_solid", N + "native_brep_from_solid", N + "has_native_brep", N + "clear_native_brep"])
def store_graph(vc):
    """a graph attached to a solid and read back holds the same entities under the same identities with the same incidences; the solid reports having one until it is cleared; changing the read graph does not change the stored one"""
    m = vc.mod(NB); g = small_graph(vc, ["ab", "bc", "ring"], m); m.set_vertex_location(g.vertices["b"], vc.point("p")); A, B = vc.choice("face A", LOOPS[1:5]), vc.choice("face B", LOOPS[1:5]); add_face(m, g, "A", A)[1] = some_surface(vc, "sphere"); add_face(m, g, "B", B)[1] = some_surface(vc, "sphere") if False else ["sphere_surface", [0.0, 0.0, 0.0, 1.0], {"radius": 1.0, "u_range": (0.0, 1.0), "v_range": (0.0, 1.0)}]; s = m.brep_shell(["A", "B"], shell_type="void", closed=True); g.add_shell(s, validate_closure=False); o = m.brep_solid([s]); g.add_solid(o, validate=False)
    S = ["solid", [], [], [], {}]; vc.check("none yet", not m.has_native_brep(S) and m.native_brep_from_solid(S) is None); m.attach_native_brep_to_solid(S, g); vc.check("has", m.has_native_brep(S)); h = m.native_brep_from_solid(S); vc.check("counts", h.summary() == g.summary())
    for kind in ("vertices", "edges", "trims", "loops", "faces", "shells", "solids"):
        a, b = getattr(g, kind), getattr(h, kind); vc.check(kind, vc.and_(list(a) == list(b), *[alike(vc, bare(a[k]), bare(b[k])) for k in a if k in b]))
    for k in "abc": vc.check("edges of %s" % k, [m.edge_id(e) for e in h.vertex_edges(k)] == [m.edge_id(e) for e in g.vertex_edges(k)])
    for k in ("ab", "bc", "ring"): vc.check("faces of %s" % k, [m.face_id(f) for f in h.edge_faces(k)] == [m.face_id(f) for f in g.edge_faces(k)])
    for v in h.vertices.values(): m.set_vertex_location(v, [9.0, 9.0, 9.0])
    h2 = m.native_brep_from_solid(S); vc.check("independent", vc.and_(*[vc.veq(h2.vertices[k][1], g.vertices[k][1]) for k in g.vertices])); m.clear_native_brep(S); vc.check("cleared", not m.has_native_brep(S) and m.native_brep_from_solid(S) is None)
# ---------------------------------------------------------------- moving
def mover(vc):
    """a rigid motion as a function on points, with what it does to directions"""
    M = vc.rigid("M"); return (lambda p: vc.apply(M, p) + [1.0]), (lambda d: vc.applydir(M, d))
MOVED = ["plane", "sphere", "cylinder", "cone", "torus"]
def matched(vc, S0, S, u, v, f, d, k=1.0, ku=1.0, kv=1.0):
    a = vc.mod(AN); vc.check("points", vc.veq(a.evaluate_surface(S, ku * u, kv * v), f(a.evaluate_surface(S0, u, v)))); vc.check("normals", vc.veq(a.surface_normal(S, ku * u, kv * v), d(a.surface_normal(S0, u, v)) + [0.0]))
@contract("C25.move_surface", [N + "transform_topology_graph", N + "_transform_surface_inplace", N + "_transform_point", N + "_transform_vector"])
def move_surface(vc):
    """moving a graph rigidly moves every point and every normal of its analytic faces by the same motion, parameter by parameter (so what was turned about an axis turns with it)"""
    m = vc.mod(NB); k = vc.choice("surface", MOVED); f, d = mover(vc); S0 = some_surface(vc, k); g = graph(vc); F = m.brep_face(S0, []); g.add_face(F)
    if k == "sphere": m.transform_topology_graph(g, f); S = F[1]; vc.check("sphere", vc.and_(vc.veq(S[1], f(S0[1])), S[2] == S0[2], S[0] == S0[0])); return
    u = vc.angle("u", "rad") if k != "plane" else vc.real("u"); v = vc.angle("v", "rad") if k == "torus" else vc.real("v"); m.transform_topology_graph(g, f); matched(vc, S0, F[1], u, v, f, d); vc.check("same sizes", all(F[1][2][x] is S0[2][x] or F[1][2][x] == S0[2][x] for x in S0[2] if x not in ("axis", "normal", "u_axis", "v_axis", "ref_direction")))
@contract("C25.move_mesh", [N + "transform_topology_graph", N + "_transform_surface_inplace", N + "_transform_point", N + "_transform_vector"])
def move_mesh(vc):
    """moving a graph rigidly moves all control points of spline faces, all vertices and normals of meshed faces, and marks every shell's search tree as stale"""
    m = vc.mod(NB); k = vc.choice("surface", ["bspline", "weighted", "tessellated"]); f, d = mover(vc); S0 = some_surface(vc, k); g = graph(vc); F = m.brep_face(S0, []); g.add_face(F); E = m.brep_face(None, []); g.add_face(E); s = m.brep_shell([F], closed=False); g.add_shell(s); s[2]["_octree"] = "old"; s[2]["_octree_dirty"] = False; m.transform_topology_graph(g, f); S = F[1]
    if k == "tessellated": vc.check("vertices", vc.and_(len(S[1]["vertices"]) == 3, *[vc.veq(a, f(b)) for a, b in zip(S[1]["vertices"], S0[1]["vertices"])])); vc.check("normals", vc.and_(len(S[1]["normals"]) == 1, vc.veq(S[1]["normals"][0], d(S0[1]["normals"][0]) + [0.0]))); vc.check("faces", S[1]["faces"] == S0[1]["faces"])
    else: vc.check("net", vc.and_(len(S[1]) == 2, *[vc.veq(S[1][i][j], f(S0[1][i][j])) for i in range(2) for j in range(2)])); vc.check("rest", S[2] == S0[2])
    vc.check("tree", s[2]["_octree_dirty"] is True); vc.check("original", S0[1] is not S[1])
@contract("C25.move_edges", [N + "transform_topology_graph", T + "transform", N + "transform_edge_params", N + "_transform_vector", N + "set_vertex_location"])
def move_edges(vc):
    """moving a graph rigidly, by either route, moves every vertex, every centre and control point, and turns the axes of circular edges; sizes and parameters stay"""
    m = vc.mod(NB); f, d = mover(vc); g = graph(vc); a, b = m.brep_vertex(vc.point("p")), m.brep_vertex(vc.point("q")); g.add_vertex(a); g.add_vertex(b); k = vc.choice("edge", EDGEK); E = some_edge(vc, k); g.add_edge(E); P0 = m.edge_curve_params(E); p0, q0 = m.vertex_location(a), m.vertex_location(b)
    if vc.choice("route", ["graph", "method"]) == "graph": m.transform_topology_graph(g, f)
    else: g.transform(f)
    P = E[2]["curve_params"]; vc.check("vertices", vc.and_(vc.veq(a[1], f(p0)), vc.veq(b[1], f(q0))))
    if "center" in P0: vc.check("centre", vc.veq(P["center"], f(P0["center"])))
    if "axis" in P0: vc.check("axis", vc.veq(P["axis"], d(P0["axis"]) + [0.0]))
    if "control_points" in P0: vc.check("net", vc.and_(len(P["control_points"]) == 3, *[vc.veq(x, f(y)) for x, y in zip(P["control_points"], P0["control_points"])]))
    vc.check("rest", vc.and_(set(P) == set(P0), *[alike(vc, P0[x], P[x]) for x in P0 if x not in ("center", "axis", "control_points")]))
class Attached:
    """the graph in and out of a solid, without the storing (which has its own contracts)"""
    def __init__(self, vc, g): self.vc, self.g, self.out = vc, g, []
    def run(self, name, *a):
        with patched(self.vc, NB, native_brep_from_solid=lambda s: self.g, attach_native_brep_to_solid=lambda s, g: self.out.append(g)) as m: getattr(m, name)("solid", *a)
        self.vc.check("stored", len(self.out) == 1 and self.out[0] is self.g); none = []
        with patched(self.vc, NB, native_brep_from_solid=lambda s: None, attach_native_brep_to_solid=lambda s, g: none.append(g)) as m: getattr(m, name)("solid", *a)
        self.vc.check("nothing to move", none == [])
@contract("C25.scale", [N + "scale_native_brep", N + "transform_topology_graph"])
def scale(vc):
    """scaling about a centre takes every point of every face to the scaled place (lengths among the parameters scaled too, angles not) and scales the ranges, radii and edges with it"""
    m = vc.mod(NB); k = vc.choice("surface", MOVED); S0 = some_surface(vc, k); g = graph(vc); F = m.brep_face(S0, []); g.add_face(F); a = m.brep_vertex(vc.point("p")); g.add_vertex(a); p0 = list(a[1]); E = m.circle_edge(a, a, vc.point("ec"), [0.0, 0.0, 2.0], vc.real("er", 0.1, 5)); g.add_edge(E); L = m.brep_edge("ellipse", a, a, curve_params={"semi_major": 3.0, "semi_minor": 2.0, "center": [0.0, 0.0, 0.0, 1.0]}); g.add_edge(L); e0 = m.edge_curve_params(E); s = vc.real("s", 0.1, 5, pos=True); vc.assume(vc.and_(vc.ge(s, 0.001), vc.le(s, 1000.0)))
    c = vc.choice("centre", [None, "given"]) and vc.point("c"); A = Attached(vc, g); A.g = g; before = S0; out = []
    with patched(vc, NB, native_brep_from_solid=lambda x: g, attach_native_brep_to_solid=lambda x, h: out.append(h)) as mm: mm.scale_native_brep("solid", s, c) if c else mm.scale_native_brep("solid", s)
    vc.check("stored", out == [g]); o = c or [0.0, 0.0, 0.0]; f = lambda p: [o[i] + (p[i] - o[i]) * s for i in range(3)] + [1.0]; ang = k in ("sphere", "cylinder", "cone", "torus"); u = vc.angle("u", "rad") if ang else vc.real("u"); v = vc.angle("v", "rad") if k in ("sphere", "torus") else vc.real("v"); matched(vc, S0, F[1], u, v, f, lambda n: list(n[:3]), ku=1.0 if ang else s, kv=1.0 if k in ("sphere", "torus") else s)
    r = F[1][2]; vc.check("ranges", vc.and_(*[vc.eq(r[x][i], S0[2][x][i] * (w if w is not None else 1.0)) for x, w in (("u_range", None if ang else s), ("v_range", None if k in ("sphere", "torus") else s)) for i in (0, 1)])); vc.check("vertex", vc.veq(a[1], f(p0))); P = E[2]["curve_params"]; vc.check("circle", vc.and_(vc.veq(P["center"], f(e0["center"])), vc.eq(P["radius"], s * e0["radius"]), vc.veq(P["axis"], e0["axis"]), P["t_start"] == e0["t_start"], P["t_end"] == e0["t_end"])); P = L[2]["curve_params"]; vc.check("ellipse", vc.and_(vc.eq(P["semi_major"], 3.0 * s), vc.eq(P["semi_minor"], 2.0 * s)))
@contract("C25.motions", [N + "translate_native_brep", N + "rotate_native_brep", N + "mirror_native_brep"])
def motions(vc):
    """translating, rotating and mirroring a solid's stored graph apply exactly that motion to everything in it and store the result; a solid without one is left alone"""
    k = vc.choice("motion", ["translate", "rotate", "mirror"]); got, turns = [], []; R = vc.point("turned"); g = graph(vc); p = vc.point("p"); out = []; d = [vc.real("dx"), vc.real("dy"), vc.real("dz")][:vc.choice("components", [3, 2])]; pl = vc.choice("plane", ["xy", "xz", "yz"]); ang = vc.angle("ang"); c = vc.point("c"); ax = vc.unit3("ax"); args = {"translate": (d,), "rotate": (ang, c, list(ax) + [1.0]), "mirror": (pl,)}[k]; have = vc.choice("has graph", [True, False])
    def rot(q, a, cent=None, axis=None, mat=False): turns.append((q, a, cent, axis)); return R
    with patched(vc, GE, rotate=rot), patched(vc, NB, native_brep_from_solid=lambda s: g if have else None, attach_native_brep_to_solid=lambda s, h: out.append((s, h)), transform_topology_graph=lambda h, f: got.append((h, f(list(p))))) as m: getattr(m, k + "_native_brep")("solid", *args)
    vc.check("stored", out == ([("solid", g)] if have else []) and [h for h, _ in got] == ([g] if have else []))
    if not have: return
    q = got[0][1]
    if k == "translate": vc.check("moved", vc.veq(q, [p[i] + (d[i] if i < len(d) else 0.0) for i in range(3)] + [1.0]))
    elif k == "mirror": vc.check("mirrored", vc.veq(q, [p[i] * (-1.0 if i == {"xy": 2, "xz": 1, "yz": 0}[pl] else 1.0) for i in range(3)] + [1.0]))
    else: vc.check("rotated", vc.and_(len(turns) == 1, vc.veq(q, R))); t = turns[0]; vc.check("as asked", vc.and_(vc.veq(t[0], p), vc.eq(t[1], ang), vc.veq(t[2], c), vc.veq(t[3], args[2])))
# ---------------------------------------------------------------- solids
@contract("C25.ray", [T + "_ray_triangle_intersect"])
def ray(vc):
    """a ray meets a triangle exactly when the point where it crosses the triangle's plane lies within the triangle and not behind the start; the reported parameter and place are those of the crossing"""
    g = graph(vc); v0, e1, e2, d = vc.point("v0"), vc.vec3("e1"), vc.vec3("e2"), vc.vec3("d"); det = vc.vdot(e1, cross(d, e2)); vc.assume(vc.ge(vc.abs(det), 0.001)); u, v, t = vc.real("u", -1, 2), vc.real("v", -1, 2), vc.real("t", -5, 5); tol = 1e-10; hit = [v0[i] + u * e1[i] + v * e2[i] for i in range(3)]; o = [h - t * x for h, x in zip(hit, d)] + [1.0]; tri = [v0, [v0[i] + e1[i] for i in range(3)] + [1.0], [v0[i] + e2[i] for i in range(3)] + [1.0]]
    clear = lambda a: vc.ge(vc.abs(a), 1e-6, tol=0, scale=0); vc.assume(vc.and_(clear(u), clear(v), clear(1.0 - u - v), clear(t))); r = g._ray_triangle_intersect(o, list(d) + [0.0], tri, tol); inside = vc.and_(vc.gt(u, 0.0), vc.gt(v, 0.0), vc.lt(u + v, 1.0), vc.gt(t, 0.0)); vc.check("meets", vc.iff(r is not None, inside))
    if r is not None: vc.check("where", vc.and_(vc.eq(r[0], t, tol=1e-4), vc.veq(r[1], hit + [1.0], tol=1e-4)))
@contract("C25.ray_parallel", [T + "_ray_triangle_intersect"])
def ray_parallel(vc):
    """a ray that runs along a triangle's plane never counts as crossing it"""
    g = graph(vc); v0, e1, e2, o = vc.point("v0"), vc.vec3("e1"), vc.vec3("e2"), vc.point("o"); a, b = vc.real("a"), vc.real("b"); d = [a * x + b * y for x, y in zip(e1, e2)]; vc.check("none", g._ray_triangle_intersect(o, d + [0.0], [v0, [v0[i] + e1[i] for i in range(3)] + [1.0], [v0[i] + e2[i] for i in range(3)] + [1.0]], 1e-6) is None)
@contract("C25.inside", [T + "shell_contains_point"])
def inside(vc):
    """a point is inside a shell exactly when a ray from it crosses the shell's surface an odd number of times: crossings reported by several triangles that share an edge count once, those behind the point not at all; every triangle the ray can meet within the shell's box is asked for, and points outside the box are outside"""
    g = graph(vc); g.shells["s"] = ["brep_shell", [], {"id": "s"}]; lo, sz = vc.vec3("lo"), [vc.real("size%d" % i, 0.5, 9, nonneg=True) for i in range(3)]; vc.assume(vc.and_(*[vc.and_(vc.ge(x, 0.5), vc.le(x, 100.0)) for x in sz])); hi = [a + b for a, b in zip(lo, sz)]; p = vc.point("p"); out = vc.or_(*[vc.or_(vc.lt(p[i], lo[i] - 0.001), vc.gt(p[i], hi[i] + 0.001)) for i in range(3)]); far = vc.choice("place", ["in the box", "outside the box", "no box"]); ts = vc.choice("crossings", [[], [1.0], [1.0, 2.0], [1.0, 1.0], [1.0, 2.0, 1.0], [-3.0, 1.0], [None, 2.0], [1.0, 2.0, 3.0], [2.0, 1.0, 1.0, 3.0]]); tree = vc.choice("tree", ["none", "plain", "tagged"]); asked = []; rays = []
    vc.assume(vc.and_(*[vc.and_(vc.ge(p[i], lo[i]), vc.le(p[i], hi[i])) for i in range(3)]) if far == "in the box" else out if far == "outside the box" else True)
    class Tree:
        def getElements(self, b): asked.append(b); return [(i, "tag") if tree == "tagged" else i for i in range(len(ts))]
    def ray(o, d, tri, tol=0): rays.append((o, d, tri)); return None if ts[tri] is None else (ts[tri], None)
    stubbed(g, shell_bbox=lambda s: None if far == "no box" else (list(lo) + [1.0], list(hi) + [1.0]), shell_octree=lambda s, **k: None if tree == "none" else Tree(), _iter_shell_triangles=lambda s: iter(range(len(ts))), _ray_triangle_intersect=ray); r = g.shell_contains_point("s", p); w = len({t for t in ts if t is not None and t > 0}) % 2 == 1 and far == "in the box"; vc.check("inside", bool(r) is w); e, _ = vc.raises(g.shell_contains_point, "no", p); vc.check("unknown", isinstance(e, ValueError))
    if far != "in the box": return
    vc.check("every triangle, one ray", sorted(x[2] for x in rays) == list(range(len(ts)))); vc.check("from the point", vc.and_(*[vc.and_(vc.veq(o[:3], p[:3]), vc.ge(vc.norm2(d[:3]), 0.01)) for o, d, _ in rays]))
    if asked and rays: s = vc.real("s", 0, 30, nonneg=True); vc.assume(vc.ge(s, 0.0, tol=0, scale=0)); d = rays[0][1]; q = [p[i] + s * d[i] for i in range(3)]; vc.assume(vc.and_(*[vc.and_(vc.ge(q[i], lo[i], tol=0, scale=0), vc.le(q[i], hi[i], tol=0, scale=0)) for i in range(3)])); vc.check("asked for all of the ray", vc.and_(*[vc.and_(vc.ge(q[i], asked[0][0][i]), vc.le(q[i], asked[0][1][i])) for i in range(3)]))
def mesh(V, F, N_=None): return ["surface", V, N_ or [[0.0, 0.0, 1.0, 0.0]] * len(V), F, [], []]
@contract("C25.shell_mesh", [T + "tessellate_shell", T + "shell_bbox", T + "_iter_shell_triangles"])
def shell_mesh(vc):
    """the mesh of a shell holds the triangles of all its analytic faces with their own corners and normals; its box is the smallest one around all their points; shells without points have neither"""
    m = vc.mod(NB); g = graph(vc); ks = vc.choice("faces", [[], ["a"], ["a", "b"], ["a", "none", "b"], ["none"], ["a", "other"], ["a", "gone", "b"]]); V = {"a": [vc.point("a%d" % i) for i in range(3)], "b": [vc.point("b%d" % i) for i in range(4)]}; NN = {k: [("n" + k, i) for i in range(len(V[k]))] for k in V}; FF = {"a": [[0, 1, 2]], "b": [[0, 1, 2], [0, 2, 3]]}; ids = []
    for k in ks:
        f = m.brep_face(["plane_surface", [0.0, 0.0, 0.0, 1.0], {"k": k}] if k in V else None if k == "none" else ["other", 0, {}], [])
        if k != "gone": g.add_face(f)
        ids.append(m.face_id(f))
    s = m.brep_shell(ids, closed=False); g.add_shell(s); sid = m.shell_id(s)
    with patched(vc, AN, tessellate_surface=lambda x, **kw: mesh(V[x[2]["k"]], FF[x[2]["k"]], NN[x[2]["k"]]), is_analytic_surface=lambda x: x[0] == "plane_surface"): M = g.tessellate_shell(sid); B = g.shell_bbox(sid); it = list(g._iter_shell_triangles(sid))
    use = [k for k in ks if k in V]; P = [p for k in use for p in V[k]]
    if not use: vc.check("nothing", M is None and B is None and it == []); return
    W = [(V[k][i], NN[k][i]) for k in use for f in FF[k] for i in f]; vc.check("triangles", [len(f) for f in M[3]] == [3] * (len(W) // 3)); idx = [i for f in M[3] for i in f]; vc.check("corners", vc.and_(len(idx) == len(W), *[vc.and_(vc.veq(M[1][i], w[0]), M[2][i] == w[1]) for i, w in zip(idx, W)])); vc.check("iterated", vc.and_(len(it) == len(M[3]), *[vc.veq(a, b[0]) for a, b in zip([x for t in it for x in t], W)])); vc.check("box", vc.and_(*[vc.and_(vc.eq(B[0][i], vc.min(*[p[i] for p in P])), vc.eq(B[1][i], vc.max(*[p[i] for p in P]))) for i in range(3)]))
@contract("C25.tree", [T + "shell_octree", T + "invalidate_shell_octree"])
def tree(vc):
    """the search tree of a shell holds every triangle of its mesh; it is kept until the shell is marked changed or a rebuild is asked for"""
    m = vc.mod(NB); g = graph(vc); n = vc.choice("triangles", [0, 1, 3]); g.shells["s"] = s = ["brep_shell", [], {"id": "s"}]; made = []; V = [vc.point("v%d" % i) for i in range(3)]; then = vc.choice("then", ["nothing", "invalidate", "rebuild"])
    class Tree:
        def __init__(self, n=8, mindim=0.5, **k): self.n, self.e, self.done = n, [], False; made.append(self); vc.check("octree of a positive size", vc.and_(n == 8, vc.gt(mindim, 0.0, tol=0, scale=0)))
        def addElement(self, t, *a): vc.check("before update", not self.done); self.e.append(t)
        def updateTree(self): self.done = True
    stubbed(g, tessellate_shell=lambda sid, *a, **k: mesh(V, [[0, 1, 2], [2, 1, 0], [1, 2, 0]][:n]) if n else None)
    with patched(vc, "yapcad.octtree", NTree=Tree):
        a = g.shell_octree("s")
        if then == "invalidate": g.invalidate_shell_octree("s"); g.invalidate_shell_octree("no")
        b = g.shell_octree("s", rebuild=True) if then == "rebuild" else g.shell_octree("s")
    if not n: vc.check("none", a is None and b is None); return
    vc.check("reuse", (b is a) == (then == "nothing") and len(made) == (1 if then == "nothing" else 2))
    for t in (a, b): vc.check("all triangles", vc.and_(t.done, len(t.e) == n, *[vc.veq(x, V[i]) for e, f in zip(t.e, [[0, 1, 2], [2, 1, 0], [1, 2, 0]]) for x, i in zip(e, f)]))
def some_box(vc, k):
    lo = vc.vec3("lo" + k); d = [vc.real("d%s%d" % (k, i), 0, 9, nonneg=True) for i in range(3)]; vc.assume(vc.and_(*[vc.ge(x, 0.0, tol=0, scale=0) for x in d])); return [lo, [a + b for a, b in zip(lo, d)]]
@contract("C25.boxes", [T + "shells_bboxes_overlap"])
def boxes(vc):
    """two shells' boxes overlap exactly when they do along every axis once both are widened by the tolerance; shells without points overlap nothing"""
    g = graph(vc); A, B = [some_box(vc, k) for k in "AB"]; none = vc.choice("empty", ["neither", "first", "second"]); tol = vc.choice("tol", [0.0, 0.25]); box = {"s1": None if none == "first" else tuple(list(x) + [1.0] for x in A), "s2": None if none == "second" else tuple(list(x) + [1.0] for x in B)}; stubbed(g, shell_bbox=lambda s: box[s])
    w = none == "neither" and vc.and_(*[vc.and_(vc.le(A[0][i], B[1][i] + 2 * tol, tol=0, scale=0), vc.le(B[0][i], A[1][i] + 2 * tol, tol=0, scale=0)) for i in range(3)])
    for i in range(3): vc.assume(vc.and_(vc.ge(vc.abs(A[0][i] - B[1][i] - 2 * tol), 1e-4), vc.ge(vc.abs(B[0][i] - A[1][i] - 2 * tol), 1e-4)))
    vc.check("overlap", vc.iff(g.shells_bboxes_overlap("s1", "s2", tol), w))
@contract("C25.meet", [T + "shells_intersect"])
def meet(vc):
    """two shells meet exactly when their boxes overlap and some triangle of one meets some triangle of the other; for each triangle the tree is asked with a box that holds it"""
    g = graph(vc); n = vc.choice("triangles", [0, 1, 2]); c = vc.choice("candidates", [0, 1, 2]); ov = vc.choice("boxes", [True, False]); T1 = [[vc.point("t%d%d" % (i, j)) for j in range(3)] for i in range(n)]; hits = [[vc.choice("hit%d%d" % (i, j), [False, True]) for j in range(c)] for i in range(n)]; asked = []; tagged = vc.choice("tagged", [False, True])
    class Tree:
        def getElements(self, b): asked.append(b); return [("two%d" % j, "tag") if tagged else "two%d" % j for j in range(c)]
    def tt(a, b): i = next(i for i in range(n) if T1[i] is a); return hits[i][int(b[3:])]
    stubbed(g, shells_bboxes_overlap=lambda a, b, tol=0: ov, shell_octree=lambda s, **k: Tree(), _iter_shell_triangles=lambda s: iter(T1 if s == "s1" else []))
    with patched(vc, "yapcad.geom3d", triTriIntersect=tt): r = g.shells_intersect("s1", "s2")
    vc.check("meet", bool(r) is (ov and any(any(h) for h in hits))); vc.check("asked", vc.and_(*[vc.and_(*[vc.and_(vc.le(b[0][k], p[k]), vc.ge(b[1][k], p[k])) for p in t for k in range(3)]) for b, t in zip(asked, T1)]))
@contract("C25.solid", [T + "validate_solid"])
def solid(vc):
    """a solid is accepted exactly when it has shells, all of them known, none declared open, every one of them really closed, no two of them meeting, and every void inside the first one (judged by a point on the void)"""
    m = vc.mod(NB); g = graph(vc); n = vc.choice("shells", [0, 1, 2, 3]); bad = vc.choice("fault", ["none", "unknown", "open", "false claim", "unclosed", "meet", "outside", "empty void"]); at = vc.choice("at", [0, 1, 2]); ids = ["s%d" % i for i in range(n)]; g.solids["o"] = ["brep_solid", ids, {"id": "o"}]; P = [vc.point("p%d" % i) for i in range(3)]; asked = []
    for i in range(n): g.shells[ids[i]] = ["brep_shell", [], {"id": ids[i], "closed": [None, True][i % 2]}]
    hit = at < n
    if hit:
        if bad == "unknown": del g.shells[ids[at]]
        if bad == "open": g.shells[ids[at]][2]["closed"] = False
        if bad == "false claim": g.shells[ids[at]][2]["closed"] = True
        if bad == "unclosed": g.shells[ids[at]][2]["closed"] = None
    pair = {ids[at], ids[(at + 1) % n]} if hit and n > 1 else None
    def contains(s, p, tol=0): asked.append((s, p)); return not (bad == "outside" and hit and p is P[at])
    stubbed(g, compute_shell_closure=lambda s: (not (bad in ("unclosed", "false claim") and hit and s == ids[at]), {"boundary_edges": []}), shells_intersect=lambda a, b, tol=0: bad == "meet" and pair is not None and {a, b} == pair, tessellate_shell=lambda s, *a, **k: None if bad == "empty void" and hit and s == ids[at] else mesh([P[int(s[1:])]] * 3, [[1, 0, 2]]), shell_contains_point=contains); e, r = vc.raises(g.validate_solid, "o"); w = n == 0 or (hit and (bad in ("unknown", "open", "false claim", "unclosed") or (bad == "meet" and n > 1) or (bad == "outside" and at > 0)))
    vc.check("verdict", isinstance(e, m.SolidValidationError) if w else e is None)
    if not w: vc.check("voids", [s for s, _ in asked] == [ids[0]] * (len(ids[1:]) - (1 if bad == "empty void" and hit and at > 0 else 0)) and all(any(p is q for q in P[1:]) for _, p in asked)); vc.check("details", r["shell_count"] == n and set(r["shell_closure"]) == set(ids) and r["shell_intersections"] == [] and r["containment_violations"] == [])
    e, _ = vc.raises(g.validate_solid, "no"); vc.check("unknown solid", isinstance(e, ValueError))
@contract("C25.scale_negative", [N + "scale_native_brep", N + "transform_topology_graph"])
def scale_negative(vc):
    """a negative factor turns every direction around and moves every place through the centre, while radii and extents stay positive lengths"""
    m = vc.mod(NB); k = vc.choice("surface", MOVED); S0 = some_surface(vc, k); g = graph(vc); F = m.brep_face(S0, []); g.add_face(F); a = m.brep_vertex(vc.point("p")); g.add_vertex(a); p0 = list(a[1]); E = m.circle_edge(a, a, vc.point("ec"), [0.0, 0.0, 2.0], vc.real("er", 0.1, 5)); g.add_edge(E); e0 = m.edge_curve_params(E); s = vc.real("s", 0.1, 5, pos=True); vc.assume(vc.and_(vc.ge(s, 0.001), vc.le(s, 1000.0)))
    c = vc.point("c"); f = lambda p: [c[i] - (p[i] - c[i]) * s for i in range(3)] + [1.0]; b0 = vc.snapshot(S0)
    with patched(vc, NB, native_brep_from_solid=lambda x: g, attach_native_brep_to_solid=lambda x, h: None) as mm: mm.scale_native_brep("solid", -s, c)
    S = F[1]; vc.check("place", vc.veq(S[1], f(b0[1]))); vc.check("vertex", vc.veq(a[1], f(p0)))
    for n in ("radius", "major_radius", "minor_radius"):
        if n in b0[2]: vc.check(n, vc.eq(S[2][n], s * b0[2][n]))
    for n in ("axis", "normal", "u_axis", "v_axis", "ref_direction"):
        if n in b0[2]: vc.check(n, vc.veq(S[2][n][:3], [-x for x in b0[2][n][:3]]))
    for n in {"plane": ("u_range", "v_range"), "cylinder": ("v_range",), "cone": ("v_range",)}.get(k, ()): vc.check(n, vc.and_(*[vc.eq(S[2][n][i], s * b0[2][n][i]) for i in (0, 1)]))
    P = E[2]["curve_params"]; vc.check("circle", vc.and_(vc.veq(P["center"], f(e0["center"])), vc.eq(P["radius"], s * e0["radius"])))
