import io
from collections import Counter
from pyvc.vc import contract
from contracts.lib import *
GU = "yapcad.geometry_utils"; G3 = "yapcad.geom3d"; STL = "yapcad.io.stl"; GC = "yapcad.geometry_checks"; MV = "yapcad.mesh"
def tri(vc, n="t"): return [tuple(vc.vec3("%s%d" % (n, i))) for i in range(3)]
def cr(vc, t): return vc.vcross(vc.vsub(t[1], t[0]), vc.vsub(t[2], t[0]))
def surf(P, faces, extra=()):
    return ["surface", P, [[0.0, 0.0, 1.0, 0.0] for _ in P], faces, [], []] + list(extra)

# ---------------------------------------------------------------- triangles
@contract("C05.normal", ["yapcad.geometry_utils:triangle_normal"])
def normal(vc):
    """degenerate (twice the area at most epsilon) exactly when None is returned, otherwise the unit right-hand normal"""
    m = vc.mod(GU); t = tri(vc); n = cr(vc, t); L = vc.norm(n)
    N = m.triangle_normal(*t)
    if N is None: vc.check("only for degenerate triangles", vc.le(L, 5e-6, tol=1e-9, scale=0))
    else:
        vc.check("not degenerate", vc.gt(L, 5e-6, tol=1e-9, scale=0)); vc.check("three components", len(N) == 3)
        vc.check("unit", vc.eq(vc.norm2(N), 1.0)); vc.check("perpendicular, right-hand", vc.veq([x * L for x in N], n))

@contract("C05.area", ["yapcad.geometry_utils:triangle_area", "yapcad.geometry_utils:triangle_is_degenerate", "yapcad.geom_util:triarea"])
def area(vc):
    """area is half the length of the edge cross product; degenerate when it is at most the tolerance"""
    m = vc.mod(GU); t = tri(vc); n2 = vc.norm2(cr(vc, t)); A = m.triangle_area(*t)
    vc.check("square", vc.eq(4.0 * A * A, n2)); vc.check("not negative", vc.ge(A, 0.0))
    tol = vc.real("tol", 0, 1, nonneg=True)
    vc.check("degenerate", vc.iff(bool(m.triangle_is_degenerate(*t, tol)), vc.le(A, tol, tol=0, scale=0)))
    B = vc.mod("yapcad.geom_util").triarea(*[list(p) + [1.0] for p in t])
    vc.check("same as triarea", vc.eq(A, B))

@contract("C05.centroid", ["yapcad.geometry_utils:triangle_centroid"])
def centroid(vc):
    """the centroid is the mean of the corners"""
    m = vc.mod(GU); t = tri(vc)
    vc.check("mean", vc.veq(m.triangle_centroid(*t), [(t[0][k] + t[1][k] + t[2][k]) / 3.0 for k in range(3)]))

@contract("C05.orient", ["yapcad.geometry_utils:orient_triangle"])
def orient(vc):
    """the oriented triangle has the same corners, starts at the same one, and does not face against the preferred normal"""
    m = vc.mod(GU); t = tri(vc); p = vc.vec3("pref"); n = cr(vc, t); vc.assume(vc.ge(vc.norm(n), 1e-3))
    r = m.orient_triangle(*t, tuple(p)); d = vc.vdot(n, p)
    keep = vc.same([list(x) for x in r], [list(x) for x in t]); flip = vc.same([list(x) for x in r], [list(t[0]), list(t[2]), list(t[1])])
    vc.check("one of the two windings", vc.or_(keep, flip))
    vc.check("kept when facing the normal", vc.implies(vc.gt(d, 0.0), keep)); vc.check("turned when facing away", vc.implies(vc.lt(d, 0.0), flip))

@contract("C05.face_normals", ["yapcad.geom3d:normfunc"])
def face_normals(vc):
    """the three vertex normals of a flat facet are its unit right-hand normal"""
    m = vc.mod(G3); t = [list(p) + [1.0] for p in tri(vc)]; n = cr(vc, [p[:3] for p in t])
    k = vc.vcross(vc.vsub(t[1][:3], t[0][:3]), vc.vsub(t[2][:3], t[1][:3])); L = vc.norm(k)
    vc.assume(vc.ge(L, 1e-3)); vc.check("same cross product", vc.veq(k, n))
    for N in m.normfunc(t):
        vc.check("unit", vc.eq(vc.norm2(N[:3]), 1.0)); vc.check("perpendicular, right-hand", vc.veq([x * L for x in N[:3]], k)); vc.check("direction", vc.eq(N[3], 0.0))

# ---------------------------------------------------------------- sums over faces (loops of any length, by invariant)
def some_surface(vc):
    P = [vc.point("p%d" % i) for i in range(4)]; f = vc.choice("face", [[0, 1, 2], [2, 0, 3], [3, 1, 0]])
    return P, f

@contract("C05.area_sum", ["yapcad.geom3d:surfacearea"])
def area_sum(vc):
    """loop invariant: the accumulated area is the sum over the faces so far (starts at 0, each face adds its area, the total is returned)"""
    c = vc.cut("yapcad.geom3d:surfacearea"); P, f = some_surface(vc); s = surf(P, [f])
    kind, v, env = c.pre(s)
    if vc.choice("step", ["first", "any", "last"]) == "first":
        vc.check("reaches the loop", kind == "next"); vc.check("starts at 0", vc.eq(env["area"], 0.0)); vc.check("over all faces", c.over(env) is s[3] or c.over(env) == s[3])
        return
    a0 = vc.real("area so far"); env["area"] = a0
    kind, v = c.body(env, f); A = env["area"] - a0
    vc.check("goes on", kind == "next"); vc.check("adds the area of the face", vc.and_(vc.eq(4.0 * A * A, vc.norm2(cr(vc, [P[i][:3] for i in f])), tol=1e-4), vc.ge(A, 0.0)))
    kind, v = c.post({"area": a0, "surf": s}); vc.check("returns the sum", kind == "return" and vc.eq(v, a0))

@contract("C05.area_mesh", ["yapcad.geom3d:surfacearea"])
def area_mesh(vc):
    """area of a two-face surface (fixed shape, independent of how the loop is written)"""
    m = vc.mod(G3); P = [vc.point("p%d" % i) for i in range(4)]; s = surf(P, [[0, 1, 2], [0, 2, 3]])
    A = m.surfacearea(s); B = [vc.sqrt(vc.norm2(cr(vc, [P[i][:3] for i in f]))) for f in s[3]]
    vc.check("sum", vc.eq(2.0 * A, B[0] + B[1]))
    if not vc.symbolic:     # larger meshes, in the cross-check only
        n = vc.int("extra", 0, 40); fs = [[vc.rng.randrange(4) for _ in range(3)] for _ in range(n)]
        vc.check("sum over many", vc.eq(2.0 * m.surfacearea(surf(P, fs)), sum(vc.norm(cr(vc, [P[i][:3] for i in f])) for f in fs), tol=1e-4))
    vc.check("empty", vc.eq(m.surfacearea(surf(P, [])), 0.0))

def det3(vc, a, b, c): return vc.vdot(a, vc.vcross(b, c))
@contract("C05.volume_sum", ["yapcad.geom3d:volumeof"])
def volume_sum(vc):
    """loop invariant: the total is the sum of signed tetrahedra (p0 . p1 x p2) / 6 over the faces so far, and the absolute value is returned"""
    c = vc.cut("yapcad.geom3d:volumeof", 1); o = vc.cut("yapcad.geom3d:volumeof", 0, replace={1: lambda env: None}); P, f = some_surface(vc)
    env = {"total_volume": vc.real("total"), "vertices": P, "faces": [f]}; t0 = env["total_volume"]
    kind, v = c.body(env, f); d = env["total_volume"] - t0
    vc.check("goes on", kind == "next"); vc.check("adds the signed volume", vc.eq(6.0 * d, det3(vc, *[P[i][:3] for i in f]), tol=1e-4))
    env = {"total_volume": t0}; s = surf(P, [f]); o.body(env, s)
    vc.check("inner loop is over the faces of the surface", vc.same(c.over(env), s[3])); vc.check("with its vertices", env["vertices"] is P); vc.check("total kept", vc.eq(env["total_volume"], t0))
    kind, v = o.post({"total_volume": t0}); vc.check("absolute value", kind == "return" and vc.and_(vc.ge(v, 0.0), vc.eq(v * v, t0 * t0)))
    vc.stub(G3, "issolidclosed", lambda x: True)
    if vc.symbolic:
        sol = ["solid", [s], [], []]; kind, v, env = o.pre(sol)
        vc.check("reaches the loop", kind == "next"); vc.check("starts at 0", vc.eq(env["total_volume"], 0.0)); vc.check("over all surfaces", vc.same(o.over(env), [s]))

@contract("C05.volume_moved", ["yapcad.geom3d:volumeof"])
def volume_moved(vc):
    """lemma for closed meshes: moving a face changes its contribution only by terms of its three directed edges that are opposite for opposite directions (so they cancel over a closed, consistently oriented mesh)"""
    c = vc.cut("yapcad.geom3d:volumeof", 1); P = [vc.point("p%d" % i) for i in range(3)]; M = vc.rigid("M", as_array=False)
    def term(Q):
        env = {"total_volume": 0.0, "vertices": Q, "faces": [[0, 1, 2]]}; c.body(env, [0, 1, 2]); return env["total_volume"]
    a, b = term(P), term([vc.apply(M, p) + [1.0] for p in P])
    t = [M[k][3] for k in range(3)]; R = [[M[i][j] for j in range(3)] for i in range(3)]; u = vc.matvec(vc.transpose(R), t)
    E = lambda p, q: vc.vdot(u, vc.vcross(p[:3], q[:3])) / 6.0
    vc.check("difference", vc.eq(b - a, E(P[0], P[1]) + E(P[1], P[2]) + E(P[2], P[0]), tol=1e-4))
    vc.check("edge terms are antisymmetric", vc.eq(E(P[0], P[1]), -E(P[1], P[0])))

TETRA = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
@contract("C05.volume_tetra", ["yapcad.geom3d:volumeof"])
def volume_tetra(vc):
    """the volume of any tetrahedron, split over one or two surfaces, is |det| / 6, wherever it is"""
    m = vc.mod(G3); o = vc.vec3("o"); e = [vc.vec3("e%d" % i) for i in range(3)]
    P = [o + [1.0]] + [vc.vadd(o, x) + [1.0] for x in e]; P0 = vc.snapshot(P)
    S = [surf(P, [list(f) for f in TETRA])] if vc.choice("surfaces", [1, 2]) == 1 else [surf(P, [list(f) for f in TETRA[:2]]), surf(P, [list(f) for f in TETRA[2:]])]
    vc.stub(G3, "issolidclosed", lambda x: True)
    d = det3(vc, *e)
    if not vc.symbolic:
        for i in range(4):
            for j in range(i): vc.assume(vc.ge(vc.norm2(vc.vsub(P[i][:3], P[j][:3])), 1e-6))
    v = m.volumeof(["solid", S, [], []])
    vc.check("volume", vc.eq(v, vc.abs(d) / 6.0, tol=1e-4)); vc.check("input spared", vc.same(P, P0))

# ---------------------------------------------------------------- closedness
class Edge:
    """an edge known only by its two ends, compared as an unordered pair"""
    def __init__(self, vc, a, b): self.vc = vc; self.k = (a, b)
    def __hash__(self): return 11
    def __eq__(self, o):
        a, b = self.k; c, d = o.k; vc = self.vc
        return bool(vc.or_(vc.and_(vc.eq(a, c), vc.eq(b, d)), vc.and_(vc.eq(a, d), vc.eq(b, c))))
def incident(vc, e, f):
    n = 0
    for i in range(3):
        a, b = f[i], f[(i + 1) % 3]
        hit = vc.or_(vc.and_(vc.eq(a, e[0]), vc.eq(b, e[1])), vc.and_(vc.eq(a, e[1]), vc.eq(b, e[0])))
        n = n + vc.ite(hit, 1, 0)
    return n

@contract("C05.watertight_count", ["yapcad.geometry_checks:surface_watertight", "yapcad.geometry_checks:_edge_key"])
def watertight_count(vc):
    """loop invariant: the count of any edge (an arbitrary pair of indices, an arbitrary count before) grows by the number of times the face has that edge"""
    c = vc.cut("yapcad.geometry_checks:surface_watertight"); m = vc.mod(GC)
    f = [vc.int("f%d" % i, 0, 5) for i in range(3)]; e = [vc.int("e%d" % i, 0, 5) for i in range(2)]; n = vc.int("count", 0, 7)
    if vc.symbolic: vc.stub(GC, "_edge_key", lambda a, b: Edge(vc, a, b)); key = Edge(vc, *e)
    else: key = m._edge_key(*e)
    env = {"edges": Counter({key: n}) if vc.choice("seen", [True, False]) else Counter()}
    n0 = env["edges"].get(key, 0) if not vc.symbolic else (n if env["edges"] else 0)
    kind, v = c.body(env, f)
    vc.check("goes on", kind == "next")
    vc.check("count", vc.eq(env["edges"][key] + 0, n0 + incident(vc, e, f)))

@contract("C05.edge_key", ["yapcad.geometry_checks:_edge_key"])
def edge_key(vc):
    """edge keys are equal exactly for the same unordered pair of indices"""
    m = vc.mod(GC); a, b, c, d = [vc.int(x, 0, 50) for x in "abcd"]
    p, q = m._edge_key(a, b), m._edge_key(c, d)
    same = vc.or_(vc.and_(vc.eq(a, c), vc.eq(b, d)), vc.and_(vc.eq(a, d), vc.eq(b, c)))
    vc.check("same key", vc.iff(vc.and_(vc.eq(p[0], q[0]), vc.eq(p[1], q[1])), same))

@contract("C05.watertight_verdict", ["yapcad.geometry_checks:surface_watertight"])
def watertight_verdict(vc):
    """watertight exactly when no counted edge has a count other than two (up to four edges, any counts)"""
    c = vc.cut("yapcad.geometry_checks:surface_watertight"); k = vc.choice("edges", [0, 1, 2, 4])
    ns = [vc.int("n%d" % i, 1, 6) for i in range(k)]
    kind, r = c.post({"edges": Counter({(i, i + 1): n for i, n in enumerate(ns)}), "faces": []})
    vc.check("returns", kind == "return"); vc.check("verdict", vc.iff(bool(r), vc.and_(*[vc.eq(n, 2) for n in ns]))); vc.check("ok", bool(r) == bool(r.ok))
    s = surf([], []); kind, v, env = c.pre(s); vc.check("starts empty over all faces", kind == "next" and len(env["edges"]) == 0 and c.over(env) is s[3])

FACES = [[0, 1, 2], [0, 2, 1], [0, 1, 3], [1, 0, 3], [1, 2, 3], [2, 0, 3], [0, 0, 1]]
@contract("C05.watertight_mesh", ["yapcad.geometry_checks:surface_watertight", "yapcad.geom3d:issolidclosed", "yapcad.geom3d:_canonical_edge_key"], samples=600)
def watertight_mesh(vc):
    """every mesh of up to four faces chosen from seven on four corners: watertight, and closed as a solid, exactly when each edge is in two faces"""
    gc, g3 = vc.mod(GC), vc.mod(G3); P = [[0.0, 0.0, 0.0, 1.0], [1.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 1.0], [0.0, 0.0, 1.0, 1.0]]
    import itertools
    fs = [FACES[i] for i in vc.choice("mesh", list(itertools.combinations_with_replacement(range(len(FACES) + 1), 4))) if i < len(FACES)]
    n = Counter(tuple(sorted((f[i], f[(i + 1) % 3]))) for f in fs for i in range(3)); want = all(v == 2 for v in n.values())
    vc.check("watertight", bool(gc.surface_watertight(surf(P, fs))) == want)
    vc.check("closed", bool(g3.issolidclosed(["solid", [surf(P, fs)], [], []])) == want)
    vc.check("closed over two surfaces", bool(g3.issolidclosed(["solid", [surf(P, fs[:2]), surf([list(p) for p in P], fs[2:])], [], []])) == want)

@contract("C05.closed_count", ["yapcad.geom3d:issolidclosed"])
def closed_count(vc):
    """loop invariants: the count of any edge grows by the number of times the face has it, whatever the surface, and any count other than two makes the solid open"""
    c = vc.cut("yapcad.geom3d:issolidclosed", 1); m = vc.mod(G3)
    f = [0, 1, 2]; ids = [vc.int("id%d" % i, 0, 5) for i in range(3)]; e = [vc.int("e%d" % i, 0, 5) for i in range(2)]; n = vc.int("count", 0, 7)
    if vc.symbolic:
        vc.stub(G3, "_canonical_edge_key", lambda p, q: Edge(vc, p, q)); V = ids; key = Edge(vc, *e)
    else:
        at = lambda i: [float(i), 1.0, 0.0, 1.0]; V = [at(i) for i in ids]; key = m._canonical_edge_key(at(e[0]), at(e[1]))
    seen = vc.choice("seen", [True, False])
    env = {"global_edge_count": {key: n} if seen else {}, "vertices": V, "surf_idx": 0, "face_idx": 0, "faces": [f]}; n0 = n if seen else 0
    kind, v = c.body(env, (0, f))
    vc.check("goes on", kind == "next"); d = env["global_edge_count"]
    vc.check("count", vc.eq(d[key] if key in d else 0, n0 + incident(vc, e, ids)))

@contract("C05.closed_verdict", ["yapcad.geom3d:issolidclosed"])
def closed_verdict(vc):
    """the final loop stops with False exactly at a count other than two, and otherwise the answer is True; nothing but the count decides"""
    cl = vc.cut("yapcad.geom3d:issolidclosed", 3); n = vc.int("n", 1, 6)
    kind, v = cl.body({"global_edge_count": {}}, ((("a",), ("b",)), n))
    if kind == "return": vc.check("open", vc.and_(v is False, vc.not_(vc.eq(n, 2))))
    else: vc.check("goes on", kind == "next" and vc.eq(n, 2))
    kind, v = cl.post({"global_edge_count": {}}); vc.check("closed otherwise", kind == "return" and v is True)
    d = {1: 2}; vc.check("over all edges", list(cl.over({"global_edge_count": d})) == [(1, 2)])

@contract("C05.edge_points", ["yapcad.geom3d:_canonical_edge_key", "yapcad.geom3d:_point_to_key"])
def edge_points(vc):
    """the key of an edge does not depend on its direction; points further apart than twice epsilon in a coordinate have different keys"""
    m = vc.mod(G3); p, q = vc.point("p", -5, 5), vc.point("q", -5, 5)
    if not vc.symbolic: q = q if vc.choice("near", [0, 1]) else [p[0] + 1.1e-5, p[1], p[2], 1.0]
    a, b = m._canonical_edge_key(p, q), m._canonical_edge_key(q, p)
    vc.check("direction does not matter", vc.same([list(x) for x in a], [list(x) for x in b]))
    k = vc.choice("k", [0, 1, 2]); vc.assume(vc.ge(vc.abs(p[k] - q[k]), 1.01e-5, tol=0, scale=0))
    u, v = m._point_to_key(p), m._point_to_key(q)
    vc.check("different keys", vc.not_(vc.eq(u[k], v[k], tol=1e-9, scale=0)))

# ---------------------------------------------------------------- mesh view and surfaces
@contract("C05.mesh_view", ["yapcad.mesh:mesh_view", "yapcad.geometry_utils:triangles_from_mesh", "yapcad.geometry_utils:to_vec3"])
def mesh_view(vc):
    """every non-degenerate triangle appears once, in order, with its corners in order and its normal; others are skipped (two surfaces of up to two faces)"""
    m = vc.mod(MV); P = [vc.point("p%d" % i) for i in range(3)]; Q = [vc.point("q%d" % i) for i in range(3)]
    fs, gs = vc.choice("faces", [([[0, 1, 2]], [[2, 0, 1]]), ([[0, 1, 2], [0, 2, 1]], [[1, 0, 2]]), ([[0, 1, 2, 0], [0, 1, 2]], []), ([], [[0, 1, 2]])])
    as_solid = vc.choice("solid", [True, False])
    o = ["solid", [surf(P, fs), surf(Q, gs)], [], []] if as_solid else surf(P, fs, [{}])
    W = [[V[i][:3] for i in f] for V, ff in ((P, fs), (Q, gs if as_solid else [])) for f in ff if len(f) == 3]
    want = []
    for w in W:
        d = vc.case(vc.gt(vc.norm(cr(vc, w)), 5e-6, tol=0, scale=0))
        if d: want.append(w)
    got = list(m.mesh_view(o))
    vc.check("count", len(got) == len(want))
    for g, w in zip(got, want):
        vc.check("corners", vc.same([list(x) for x in g[1:]], w)); n = cr(vc, w)
        vc.check("normal", vc.and_(vc.veq([x * vc.norm(n) for x in g[0]], n)))
    ts = list(vc.mod(GU).triangles_from_mesh(got))
    for t, g in zip(ts, got): vc.check("triangle record", vc.same([list(t.normal), list(t.v0), list(t.v1), list(t.v2)], [list(x) for x in g]))

@contract("C05.add_triangle", ["yapcad.geom3d:addTri2Surface"])
def add_triangle(vc):
    """adding a triangle appends exactly one face, whose corners are the triangle's (up to epsilon), and changes no other face or vertex"""
    m = vc.mod(G3); P = [vc.point("p%d" % i) for i in range(3)]; T = [vc.point("t%d" % i) for i in range(3)]
    if vc.choice("shares", [True, False]): T[0] = list(P[1])
    z = [0.0, 0.0, 1.0, 0.0]; s = surf([list(p) for p in P], [[0, 1, 2]]); N = [[0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]]
    r = m.addTri2Surface([list(t) for t in T], s, nfunc=lambda t: (N[0], N[1], N[2]))
    vc.check("one more face", len(r[3]) == 2 and r[3][0] == [0, 1, 2]); f = r[3][-1]
    vc.check("other corners kept", vc.same(r[1][:3], P)); vc.check("normals match vertices", len(r[2]) == len(r[1]) and len(r[1]) <= 6)
    vc.check("indices", all(isinstance(i, int) and 0 <= i < len(r[1]) for i in f))
    for i, t in zip(f, T): vc.check("corner", vc.le(vc.norm(vc.vsub(r[1][i][:3], t[:3])), 5.1e-6, tol=0, scale=0))

@contract("C05.surface_lines", ["yapcad.geom3d:surf2lines"])
def surface_lines(vc):
    """the lines of a mesh are its edges, each exactly once (every pair of faces on four corners)"""
    m = vc.mod(G3); P = [[float(i), float(i * i), 0.0, 1.0] for i in range(4)]
    opts = [[a, b, c] for a in range(4) for b in range(4) for c in range(4) if len({a, b, c}) == 3]
    f, g = opts[vc.choice("f", range(0, len(opts), 2))], vc.choice("g", opts)
    L = m.surf2lines(surf(P, [f, g])); got = Counter(tuple(sorted((int(l[0][0]), int(l[1][0])))) for l in L)
    want = {tuple(sorted((h[i], h[(i + 1) % 3]))) for h in (f, g) for i in range(3)}
    vc.check("each edge once", set(got) == want and all(v == 1 for v in got.values()))

# ---------------------------------------------------------------- STL
class Pack:
    """contract of struct '<12fH': 50 bytes that unpack to the same values (float32 rounding is not modelled)"""
    size = 50
    def __init__(self): self.rec = []
    def pack(self, *v):
        assert len(v) == 13; self.rec.append(v); return b"\x01" * 46 + (len(self.rec) - 1).to_bytes(4, "little")
    def unpack(self, b): assert len(b) == 50; return self.rec[int.from_bytes(b[46:], "little")]

def triangles(vc, n):
    T = vc.mod(GU).Triangle
    return [T(normal=tuple(vc.vec3("n%d" % i)), v0=tuple(vc.vec3("a%d" % i)), v1=tuple(vc.vec3("b%d" % i)), v2=tuple(vc.vec3("c%d" % i))) for i in range(n)]
def rec(t): return [list(t.normal), list(t.v0), list(t.v1), list(t.v2)]

@contract("C05.stl_roundtrip", ["yapcad.io.stl:_write_binary", "yapcad.io.stl:_parse_binary_stl", "yapcad.io.stl:_is_binary_stl", "yapcad.io.stl:write_stl", "yapcad.io.stl:read_stl"],
          assumes=["struct '<12fH' packs and unpacks the same values (float32 rounding not modelled)"])
def stl_roundtrip(vc):
    """the binary file has an 80-byte header, the count and one record per triangle in order; it is recognised as binary and parses to the same triangles, whatever the name"""
    m = vc.mod(STL); n = vc.choice("n", [0, 1, 2, 3]); name = vc.choice("name", ["yapCAD", "", "solid part", "x" * 200, "pi\u00e8ce"])
    vc.stub(STL, "_STRUCT_TRIANGLE", Pack()); ts = triangles(vc, n); b = io.BytesIO()
    m._write_binary(ts, b, name); d = b.getvalue()
    vc.check("size", len(d) == 84 + 50 * n); vc.check("count", int.from_bytes(d[80:84], "little") == n)
    vc.check("recognised", m._is_binary_stl(d)); r = m._parse_binary_stl(d)
    vc.check("same number", len(r) == n)
    vc.check("same triangles", vc.same([rec(t) for t in r], [rec(t) for t in ts]))

@contract("C05.stl_write_loop", ["yapcad.io.stl:_write_binary"])
def stl_write_loop(vc):
    """loop invariant: each triangle appends exactly one 50-byte record of its normal and corners in order"""
    c = vc.cut("yapcad.io.stl:_write_binary"); p = Pack(); st = __import__("struct"); t = triangles(vc, 1)[0]; b = io.BytesIO(); b.write(b"zz")
    env = {"stream": b}
    if vc.symbolic: env["_STRUCT_TRIANGLE"] = p
    kind, v = c.body(env, t); d = b.getvalue()
    vc.check("goes on", kind == "next"); vc.check("one record", len(d) == 52 and d[:2] == b"zz")
    v = (p if vc.symbolic else st.Struct("<12fH")).unpack(d[2:])
    vc.check("record", vc.same(list(v), [x for w in rec(t) for x in w] + [0]))

@contract("C05.stl_view", ["yapcad.io.stl:write_stl", "yapcad.io.stl:read_stl"])
def stl_view(vc):
    """exporting a surface and reading it back gives the same non-degenerate triangles"""
    m = vc.mod(STL); P = [vc.point("p%d" % i) for i in range(4)]; fs = [[0, 1, 2], [0, 2, 3]]; vc.stub(STL, "_STRUCT_TRIANGLE", Pack()); W = []
    for f in fs:
        w = [P[i][:3] for i in f]; L = vc.norm(cr(vc, w)); vc.assume(vc.or_(vc.ge(L, 1e-3), vc.eq(L, 0.0, tol=0, scale=0)))
        if vc.case(vc.ge(L, 1e-3)): W.append(w)
    b = io.BytesIO(); m.write_stl(surf(P, fs), b); b.seek(0); s = m.read_stl(b, deduplicate=False)
    got = [[[x for x in S[1][i][:3]] for i in f] for S in s[1] for f in S[3]]
    vc.check("same triangles", len(got) == len(W) and vc.same(got, W))

@contract("C05.stl_index", ["yapcad.io.stl:_triangles_to_surface"])
def stl_index(vc):
    """indexing keeps every triangle: one face per triangle, in order, whose vertices are the triangle's corners; coincident corners share a vertex"""
    m = vc.mod(STL); T = vc.mod(GU).Triangle; n = (0.0, 0.0, 1.0)
    V = [tuple(vc.vec3("v%d" % i)) for i in range(5)]
    if not vc.symbolic:
        for i in range(5):
            for j in range(i): vc.assume(vc.ge(vc.norm2(vc.vsub(V[i], V[j])), 1e-6))
    ix = vc.choice("shape", [[(0, 1, 2), (2, 1, 3)], [(0, 1, 2), (0, 3, 4)], [(0, 1, 2), (1, 0, 2)], [(0, 1, 2)]])
    keys = {id(v): (i, 0, 0) for i, v in enumerate(V)}
    vc.stub(STL, "_vertex_key", lambda v, tol=0: keys[id(v)])      # coincident corners, and only they, have equal keys
    dd = vc.choice("deduplicate", [True, False])
    s = m._triangles_to_surface([T(normal=n, v0=V[a], v1=V[b], v2=V[c]) for a, b, c in ix], deduplicate=dd)
    vc.check("faces", len(s[3]) == len(ix)); vc.check("as many normals as vertices", len(s[1]) == len(s[2]))
    if dd: vc.check("shared", len(s[1]) == len({i for t in ix for i in t}))
    for f, t in zip(s[3], ix): vc.check("corners", vc.same([s[1][i][:3] for i in f], [list(V[i]) for i in t]))
    for x in s[2]: vc.check("normal", vc.veq(x[:3], n))

@contract("C05.vertex_key", ["yapcad.io.stl:_vertex_key"])
def vertex_key(vc):
    """equal corners have equal keys, corners further apart than twice the tolerance in a coordinate do not"""
    m = vc.mod(STL); a = vc.vec3("a", -2, 2); k = vc.choice("k", [0, 1, 2]); d = vc.real("d", -1, 1); vc.assume(vc.ge(vc.abs(d), 3e-9, tol=0, scale=0))
    b = list(a); b[k] = a[k] + d
    vc.check("equal", vc.same(list(m._vertex_key(tuple(a))), list(m._vertex_key(tuple(a)))))
    vc.check("different", vc.not_(vc.eq(m._vertex_key(tuple(a))[k], m._vertex_key(tuple(b))[k])))

@contract("C05.stl_ascii", ["yapcad.io.stl:_write_ascii", "yapcad.io.stl:_parse_ascii_stl"], mode="bounded", why="text formatting of floats and regular expressions are outside the symbolic engine")
def stl_ascii(vc):
    """an ASCII file is recognised as text and parses to the same triangles within the seven printed digits"""
    m = vc.mod(STL); n = vc.choice("n", [0, 1, 2, 3]); ts = triangles(vc, n); b = io.StringIO()
    m._write_ascii(ts, b, vc.choice("name", ["yapCAD", "", "my part"])); t = b.getvalue()
    vc.check("text", not m._is_binary_stl(t.encode())); r = m._parse_ascii_stl(t)
    vc.check("same number", len(r) == n)
    for x, y in zip(r, ts): vc.check("same triangle", vc.same(rec(x), rec(y)))
