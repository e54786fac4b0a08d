import math
from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched
from contracts.C23 import cross
GU = "yapcad.geom3d_util"; U = GU + ":"; G3 = "yapcad.geom3d"; G = G3 + ":"; GE = "yapcad.geom"; TR = "yapcad.triangulator"
# ---------------------------------------------------------------- what is asked of a solid
def surfaces(s): return [s] if s[0] == "surface" else s[1]
def shape(s): return [(len(f[1]), [list(t) for t in f[3]], list(f[4]), [list(h) for h in f[5]]) for f in surfaces(s)]
def labels(s):
    """the vertices of a solid with plain numbers, grouped by place"""
    at, out = [], []
    for f in surfaces(s):
        row = []
        for p in f[1]:
            for k, q in enumerate(at):
                if max(abs(p[i] - q[i]) for i in range(3)) < 1e-6: break
            else: k = len(at); at.append(list(p))
            row.append(k)
        out.append(row)
    return out, at
def balance(s):
    """every side of every face, less the same sides of other faces in the opposite direction"""
    L, _ = labels(s); E = {}
    for f, row in zip(surfaces(s), L):
        for t in f[3]:
            for i in range(3):
                a, b = row[t[i]], row[t[(i + 1) % 3]]
                if a == b: return {"degenerate": 1}
                E[(a, b)] = E.get((a, b), 0) + 1; E[(b, a)] = E.get((b, a), 0) - 1
    return {e: n for e, n in E.items() if n > 0}
def near(vc, p, q, S): return vc.and_(*[vc.le(vc.abs(p[i] - q[i]), 1e-9 * S, tol=0, scale=0) for i in range(3)])
def twin(vc, name, sld, nom, S, closed=True):
    """the faces of sld join up as those of nom, a plain example of it, do: same faces, and vertices in one place there are in one place here"""
    same = shape(sld) == shape(nom)
    vc.check(name + " faces", same)
    if closed: vc.check(name + " closed", balance(nom) == {})
    L, at = labels(nom); first = {}
    if not same: return first
    for f, row in zip(surfaces(sld), L):
        for p, k in zip(f[1], row):
            if k in first: vc.check(name + " vertex joins", near(vc, p, first[k], S))
            else: first[k] = p
    return first
def det(a, b, c): return sum(x * y for x, y in zip(a[:3], cross(b, c)))
def volume(s, at=None):
    v = 0
    for f in surfaces(s):
        for t in f[3]: a, b, c = [f[1][i] if at is None else [x - y for x, y in zip(f[1][i], at)] for i in t]; v = v + det(a, b, c)
    return v / 6.0
def dims(vc, *names, lo=0.01, hi=10.0):
    out = []
    for n in names: x = vc.real(n, max(lo, 0.1), hi, pos=True); vc.assume(vc.ge(x, lo, tol=0, scale=0)); vc.assume(vc.le(x, 1000.0, tol=0, scale=0)); out.append(x)
    return out
def total(*xs): return sum(xs)
def face_normal(s, t): a, b, c = [s[1][i] for i in t]; return cross(vsub(b, a), vsub(c, a))
def vsub(p, q): return [x - y for x, y in zip(p[:3], q[:3])]
def dot3(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
# ---------------------------------------------------------------- boxes and flat pieces
@contract("C24.rectangle", [U + "rectangularPlane"])
def rectangle(vc):
    """a rectangle of the given length and width about the given centre, facing +z"""
    m = vc.mod(GU); l, w = dims(vc, "l", "w"); c = vc.point("c"); s = m.rectangularPlane(l, w, c); W = [[c[0] + a * l / 2, c[1] + b * w / 2, c[2]] for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    vc.check("corners", vc.and_(len(s[1]) == 4, *[vc.veq(p[:3], q) for p, q in zip(s[1], W)])); vc.check("normals", all(list(n) == [0, 0, 1, 0] for n in s[2]) and len(s[2]) == 4); vc.check("boundary", s[4] == [0, 1, 2, 3] and s[5] == [])
    ns = [face_normal(s, t) for t in s[3]]; vc.check("facing", vc.and_(*[vc.gt(n[2], 0.0, tol=0, scale=0) for n in ns])); vc.check("covers", vc.eq(sum(n[2] for n in ns) / 2, l * w)); vc.check("two halves", sorted(set(s[3][0]) | set(s[3][1])) == [0, 1, 2, 3] and len(s[3]) == 2)
@contract("C24.prism", [U + "prism", U + "rectangularPlane"])
def prism(vc):
    """a box is closed, has the given length, width and height along x, y and z about the given centre, and its faces and normals point outwards"""
    m = vc.mod(GU); l, w, h = dims(vc, "l", "w", "h"); S = l + w + h; c = offset(vc, "c"); s = m.prism(l, w, h, c); n = m.prism(2.0, 3.0, 5.0); at = twin(vc, "prism", s, n, S + sum(vc.abs(x) for x in c[:3])); _, N = labels(n)
    for k, q in enumerate(N): vc.check("corner", near(vc, at[k], [c[i] + (1 if q[i] > 0 else -1) * d / 2 for i, d in enumerate((l, w, h))], S + sum(vc.abs(x) for x in c[:3])))
    vc.check("eight", len(N) == 8)
    for i, f in enumerate(surfaces(s)):
        for t in f[3]:
            k = max(range(3), key=lambda j: abs(n[1][i][2][0][j])); sg = 1.0 if n[1][i][2][0][k] > 0 else -1.0; d = (l, w, h)[k]
            for v in t: vc.check("normal", near(vc, f[2][v], [sg if j == k else 0.0 for j in range(3)], 1.0)); vc.check("side", vc.gt(sg * (f[1][v][k] - c[k]), 0.49 * d))
            vc.check("facing", vc.gt(sg * face_normal(n[1][i], t)[k], 0.0))
@contract("C24.disc", [U + "circleSurface"])
def disc(vc):
    """a disc is a fan about its centre of corners at the radius, evenly spread, facing up or down as asked, with the rim as boundary"""
    m = vc.mod(GU); r, = dims(vc, "r"); c = vc.point("c"); angr = vc.choice("angr", [36, 360 / 11, 360 / 14, 33]); up = vc.choice("up", [True, False]); s = m.circleSurface(c, r, angr=angr, zup=up); k = round(360 / angr); vc.check("corners", len(s[1]) == k + 1 and len(s[3]) == k and s[4] == list(range(1, k + 1)) and s[5] == []); sg = 1 if up else -1
    vc.check("centre", vc.veq(s[1][0][:3], c[:3])); vc.check("rim", vc.and_(*[near(vc, vsub(s[1][1 + i], c), [r * math.cos(2 * math.pi * i / k), r * math.sin(2 * math.pi * i / k), 0.0], r) for i in range(k)])); vc.check("normals", all(list(n) == [0, 0, sg, 0] for n in s[2]))
    vc.check("fan", sorted(tuple(t[t.index(0):] + t[:t.index(0)]) for t in s[3]) == sorted((0, 1 + i, 1 + (i + 1) % k) if up else (0, 1 + (i + 1) % k, 1 + i) for i in range(k)))
@contract("C24.disc_angle", [U + "circleSurface"])
def disc_angle(vc):
    """angular resolutions outside 1 to 45 degrees are rejected"""
    m = vc.mod(GU); a = vc.choice("a", [0.0, 0.99, 45.01, 90, -5]); e, _ = vc.raises(m.circleSurface, [0.0, 0.0, 0.0, 1.0], 1.0, angr=a); vc.check("rejected", isinstance(e, ValueError))
@contract("C24.conic", [U + "conic", U + "circleSurface"], oblig_ms=60000, time_s=300)
def conic(vc):
    """a cylinder, frustum or cone is closed, with its base circle about the given centre, its top at the given height and radius, and its faces outwards: the enclosed volume is that of the prismatoid on its facets"""
    m = vc.mod(GU); k = vc.choice("facets", [10, 11]); kind = vc.choice("kind", ["frustum", "cylinder", "cone"]); R, h = dims(vc, "R", "h"); r = dims(vc, "r")[0] if kind == "frustum" else R if kind == "cylinder" else 0.0; moved = vc.choice("moved", [False, True]); c = vc.point("c") if moved else [0.0, 0.0, 0.0, 1.0]; s = m.conic(R, r, h, c, angr=360.0 / k); n = m.conic(2.0, {"frustum": 1.0, "cylinder": 2.0, "cone": 0.0}[kind], 3.0, [0.0, 0.0, 0.0, 1.0], angr=360.0 / k); S = R + r + h + sum(vc.abs(x) for x in c[:3]); at = twin(vc, kind, s, n, S); _, N = labels(n)
    for j, q in enumerate(N):
        e = math.hypot(q[0], q[1]); f = 0.0 if e < 1e-6 else 1.0; d = [q[0] / e, q[1] / e] if f else [0.0, 0.0]; rr = r if q[2] > 1 else R; vc.check("place", near(vc, at[j], [c[0] + rr * d[0], c[1] + rr * d[1], c[2] + (h if q[2] > 1 else 0.0)], S))
    V = k * math.sin(2 * math.pi / k) / 2 * h / 3 * (R * R + R * r + r * r)
    if not moved: v = volume(s); vc.check("volume", vc.le(vc.abs(v - V), 1e-6 * V, tol=0, scale=0))
@contract("C24.conic_rejects", [U + "conic"])
def conic_rejects(vc):
    """conics without a base, with a negative top or without a height are rejected, and only those"""
    m = vc.mod(GU); R, r, h = vc.real("R", -1, 2), vc.real("r", -1, 2), vc.real("h", -1, 2); bad = vc.or_(vc.lt(R, 5e-6, tol=0, scale=0), vc.lt(r, 0.0, tol=0, scale=0), vc.lt(h, 5e-6, tol=0, scale=0)); case = vc.choice("which", ["bad", "good"])
    if case == "bad": vc.assume(bad); e, _ = vc.raises(m.conic, R, r, h, angr=45); vc.check("rejected", isinstance(e, ValueError))
    else:
        for x in (R, r, h): vc.assume(vc.ge(x, 0.01))
        e, _ = vc.raises(m.conic, R, r, h, angr=45); vc.check("accepted", e is None)
FRAMES = {"xy": ((1, 0, 0), (0, 1, 0), (0, 0, 1)), "down": ((1, 0, 0), (0, -1, 0), (0, 0, -1)), "yz": ((0, 1, 0), (0, 0, 1), (1, 0, 0)), "skew": ((0.8, 0.6, 0), (0, 0, 1), (0.6, -0.8, 0)), "tilt": ((0.0, 0.8, 0.6), (1, 0, 0), (0, 0.6, -0.8))}
OUTLINES = {"square": ([(0, 0), (1, 0), (1, 1), (0, 1)], [], [(0, 1, 2), (0, 2, 3)]),
            "corner": ([(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], [], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]),
            "ring": ([(0, 0), (3, 0), (3, 3), (0, 3)], [[(1, 1), (2, 1), (2, 2), (1, 2)]], [(0, 1, 5), (0, 5, 4), (1, 2, 6), (1, 6, 5), (2, 3, 7), (2, 7, 6), (3, 0, 4), (3, 4, 7)])}
def flat(vc, m, shape_, frame, P, sx, sy, turned):
    """a flat surface with that outline in that plane, counter-clockwise about its normal; its loops may be listed either way round"""
    out, holes, tris = OUTLINES[shape_]; e1, e2, e3 = [[float(x) for x in e] for e in FRAMES[frame]]; pts_ = out + [p for h in holes for p in h]; V = [[P[i] + x * sx * e1[i] + y * sy * e2[i] for i in range(3)] + [1.0] for x, y in pts_]; n = len(out); b = list(range(n)); H = []; k = n
    for h in holes: H.append(list(range(k, k + len(h)))); k += len(h)
    if turned & 1: b.reverse()
    if turned & 2: H = [list(reversed(h)) for h in H]
    return ["surface", V, [list(e3) + [0.0] for _ in V], [list(t) for t in tris], b, H], {"square": 1.0, "corner": 3.0, "ring": 8.0}[shape_]
@contract("C24.extrude", [U + "extrude", G + "reversesurface", G + "translatesurface"], oblig_ms=60000, time_s=400, assumes=["the sides of the extruded outline are not degenerate: the extrusion leaves the plane by a fifth of the distance or more"])
def extrude(vc):
    """extruding a flat surface, with or without holes, in any direction that leaves its plane, on either side, gives a closed solid facing outwards that encloses the area times the distance moved across the plane; the surface itself is left alone"""
    m = vc.mod(GU); k = vc.choice("outline", sorted(OUTLINES)); fr = vc.choice("frame", sorted(FRAMES)); turned = vc.choice("turned", [0, 3]); P = [0.0, 0.0, 0.0]; sx, sy, D = dims(vc, "sx", "sy", "D", lo=0.1); d = vc.unit3("d"); up = vc.choice("side", [1.0, -1.0]); e3 = [float(x) for x in FRAMES[fr][2]]; dz = dot3(d, e3); vc.assume(vc.ge(up * dz, 0.2)); S0, area = flat(vc, m, k, fr, P, sx, sy, turned); snap = vc.snapshot(S0); real = m.tri2p0n
    N0, _ = flat(vc, m, k, fr, P, 1.0, 1.0, turned); n = m.extrude(N0, 2.0, [up * x for x in e3] + [0.0])
    def plane_of(face, basis=False):
        # the faces of the strip: not degenerate, for they hold a side of the outline and a move of at least 0.2 * 0.1 out of its plane
        if basis or all(any(p is q for q in S0[1]) or any(p is q for q in rev) for p in face): return real(face, basis=basis)
        return [face[0], [0.0, 0.0, 1.0, 0.0]]
    rev = []; rs = m.reversesurface
    def reverse(x): r = rs(x); rev.extend(r[1]); return r
    with patched(vc, GU, tri2p0n=plane_of, reversesurface=reverse): s = m.extrude(S0, D, list(d) + [0.0])
    vc.check("left alone", vc.same(snap, S0))
    at = twin(vc, "extrusion", s, n, sx + sy + D)
    V = area * sx * sy * D * up * dz; vc.check("volume", vc.le(vc.abs(volume(s) - V), 1e-9 * V, tol=0, scale=0)); vc.check("caps", [len(f[1]) for f in surfaces(s)] == [len(S0[1]), 2 * len(S0[1]), len(S0[1])])
    want = [q for v in S0[1] for q in (v, [v[i] + D * d[i] for i in range(3)])]; vc.check("places", vc.and_(len(at) == len(want), *[near(vc, a[1][i], w, sx + sy + D) for c, a in ((0, s[1][0]), (1, s[1][2])) for i, w in enumerate(want[c::2])]))
@contract("C24.extrude_rejects", [U + "extrude"])
def extrude_rejects(vc):
    """extrusions over no distance, or of something that is no surface, are rejected"""
    m = vc.mod(GU); D = vc.real("D", -1, 1); S0, _ = flat(vc, m, "square", "xy", [0.0, 0.0, 0.0], 1.0, 1.0, 0); vc.assume(vc.le(D, 5e-6, tol=0, scale=0)); e, _ = vc.raises(m.extrude, S0, D); vc.check("distance", isinstance(e, ValueError))
    for bad in ([], S0[1], ["solid", [S0], [], []], None): e, _ = vc.raises(m.extrude, bad, 1.0); vc.check("surface", isinstance(e, ValueError))
def fan(vc, seen=None):
    """stands in for mapbox-earcut: the triangles of the outlines used here, which are convex (a fan) or a ring between two outlines of as many corners (a strip)"""
    def tri(outer, holes=None):
        o = [tuple(p[:2]) for p in outer]; hs = [[tuple(p[:2]) for p in h] for h in (holes or [])]
        if seen is not None: seen.append((o, hs))
        if not hs: return [[o[0], o[i], o[i + 1]] for i in range(1, len(o) - 1)]
        h = list(reversed(hs[0])); n = len(o); k = seen.shift if hasattr(seen, "shift") else 0; h = h[-k:] + h[:-k] if k else h
        return [t for i in range(n) for t in ([o[i], o[(i + 1) % n], h[(i + 1) % n]], [o[i], h[(i + 1) % n], h[i]])]
    return tri
EARCUT = ["mapbox-earcut returns triangles that cover the outline less its holes (in the contracts: the fan of a convex outline, the strip of a ring)"]
@contract("C24.polygon", [G + "poly2surfaceXY", G + "addTri2Surface"], assumes=EARCUT, oblig_ms=30000)
def polygon(vc):
    """a polygon becomes a surface with its corners as vertices and boundary, whose faces go round the way the polygon does and whose normals point to the side they go round counter-clockwise about; no face is left out unless its area is below the library's smallest length"""
    m = vc.mod(G3); k = vc.choice("corners", [3, 4, 5]); ccw = vc.choice("counter-clockwise", [True, False]); closed = vc.choice("closed", [True, False]); sx, sy = dims(vc, "sx", "sy"); x0, y0 = vc.real("x0"), vc.real("y0"); base = {3: [(0, 0), (1, 0), (0, 1)], 4: [(0, 0), (1, 0), (1.25, 1), (0, 1)], 5: [(0, 0), (1, 0), (1.5, 1), (0.5, 2), (-0.5, 1)]}[k]; ps = [[x0 + x * sx, y0 + y * sy, 0.0, 1.0] for x, y in base]
    if not ccw: ps.reverse()
    with patched(vc, G3, triangulate_polygon=fan(vc)): s, _ = m.poly2surfaceXY(ps + [list(ps[0])] if closed else ps)
    sg = 1 if ccw else -1; vc.check("corners", len(s[1]) == k and s[4] == list(range(k)) and s[5] == []); vc.check("places", vc.and_(*[vc.veq(a[:3], b[:3]) for a, b in zip(s[1], ps)])); vc.check("faces", len(s[3]) == k - 2 and sorted({i for t in s[3] for i in t}) == list(range(k))); vc.check("normals", all(list(n) == [0, 0, sg, 0] for n in s[2]))
    for t in s[3]: vc.check("winding", vc.gt(sg * face_normal(s, t)[2], 0.0, tol=0, scale=0))
    area = {3: 0.5, 4: 1.125, 5: 2.5}[k] * sx * sy; vc.check("covers", vc.le(vc.abs(sum(face_normal(s, t)[2] for t in s[3]) / 2 - sg * area), 1e-9 * area, tol=0, scale=0))
@contract("C24.polygon_holes", [G + "poly2surfaceXY", G + "addTri2Surface"], assumes=EARCUT, oblig_ms=30000)
def polygon_holes(vc):
    """the holes of a polygon become inner boundaries on vertices of their own and are left uncovered, whichever way round they are listed"""
    m = vc.mod(G3); s1, = dims(vc, "s"); turned = vc.choice("hole turned", [True, False]); sides = vc.choice("counter-clockwise", [True, False]); out = [[x * s1, y * s1, 0.0, 1.0] for x, y in OUTLINES["ring"][0]]; hole = [[x * s1, y * s1, 0.0, 1.0] for x, y in OUTLINES["ring"][1][0]]
    if not sides: out.reverse()
    h = list(reversed(hole)) if turned else hole; seen = []
    def tri(o, hs=None):
        seen.append((len(o), [len(x) for x in hs])); P = [p[:2] for p in OUTLINES["ring"][0]] + OUTLINES["ring"][1][0]; return [[(P[i][0] * s1, P[i][1] * s1) for i in t] for t in OUTLINES["ring"][2]]
    with patched(vc, G3, triangulate_polygon=tri): s, _ = m.poly2surfaceXY(out, [h])
    sg = 1 if sides else -1; vc.check("loops", seen == [(4, [4])] and s[4] == [0, 1, 2, 3] and s[5] == [[4, 5, 6, 7]] and len(s[1]) == 8 and len(s[3]) == 8); vc.check("places", vc.and_(*[vc.veq(a[:3], b[:3]) for a, b in zip(s[1], out + h)])); vc.check("normals", all(list(n) == [0, 0, sg, 0] for n in s[2]))
    for t in s[3]: vc.check("winding", vc.gt(sg * face_normal(s, t)[2], 0.0, tol=0, scale=0))
    vc.check("covers", vc.eq(sum(face_normal(s, t)[2] for t in s[3]) / 2, sg * 8.0 * s1 * s1))
@contract("C24.polygon_rejects", [G + "poly2surfaceXY"])
def polygon_rejects(vc):
    """outlines of fewer than three corners are rejected"""
    m = vc.mod(G3); p, q = vc.point("p"), vc.point("q"); away(vc, vsub(p, q)); e, _ = vc.raises(m.poly2surfaceXY, vc.choice("ply", [[p, q], [p, q, list(p)]])); vc.check("rejected", isinstance(e, ValueError))
@contract("C24.loft", [U + "_loft_surface"], oblig_ms=30000)
def loft_surface(vc):
    """the strip between two loops of as many corners is two faces per side, all joined, with the lower loop and the upper loop as its only borders, facing away from the axis for counter-clockwise loops and towards it when inverted; loops that do not match are rejected"""
    m = vc.mod(GU); k = vc.choice("corners", [3, 4, 5]); r, R, h = dims(vc, "r", "R", "h"); inv = vc.choice("invert", [False, True]); c = vc.point("c"); ring = lambda q, z: [[c[0] + q * math.cos(1 + 2 * math.pi * i / k), c[1] + q * math.sin(1 + 2 * math.pi * i / k), c[2] + z, 1.0] for i in range(k)]; lo, up = ring(r, 0.0), ring(R, h); given = lo + [list(lo[-1])] if vc.choice("repeated", [False, True]) else lo
    s = m._loft_surface(given, up, invert=inv); vc.check("vertices", vc.and_(len(s[1]) == 2 * k, *[vc.veq(a[:3], b[:3]) for a, b in zip(s[1], lo + up)])); E = {}
    for t in s[3]:
        for i in range(3): a, b = t[i], t[(i + 1) % 3]; E[(a, b)] = E.get((a, b), 0) + 1; E[(b, a)] = E.get((b, a), 0) - 1
    sg = -1 if inv else 1; border = {e for e, n in E.items() if n > 0}; W = {(i, (i + 1) % k) for i in range(k)} | {(k + (i + 1) % k, k + i) for i in range(k)}; vc.check("faces", len(s[3]) == 2 * k and all(abs(n) <= 1 for n in E.values())); vc.check("borders", border == (W if not inv else {(b, a) for a, b in W}))
    for t in s[3]: vc.check("facing", vc.gt(sg * dot3(face_normal(s, t), vsub([sum(s[1][i][j] for i in t) / 3 for j in range(3)], [c[0], c[1], 0.0])[:2] + [0.0]), 0.0, tol=0, scale=0))
@contract("C24.loft_rejects", [U + "_loft_surface"])
def loft_rejects(vc):
    """loops with different numbers of corners, or fewer than three, are rejected"""
    m = vc.mod(GU); ring = lambda n, z: [[math.cos(i), math.sin(i), z, 1.0] for i in range(n)]; a, b = vc.choice("sizes", [(3, 4), (4, 3), (2, 2), (0, 3), (3, 0)]); e, _ = vc.raises(m._loft_surface, ring(a, 0.0), ring(b, 1.0)); vc.check("rejected", isinstance(e, ValueError))
@contract("C24.loft_solid", [U + "makeLoftSolid", U + "_loft_surface", U + "loft"], assumes=EARCUT, oblig_ms=60000, time_s=300)
def loft_solid(vc):
    """the loft between two loops is closed by a face over each of them and faces outwards, whichever way round the loops are listed and whichever is above: the volume is that of the frustum"""
    m = vc.mod(GU); k = 4; r, R, h = dims(vc, "r", "R", "h"); up = vc.choice("up", [1.0, -1.0]); ccw = vc.choice("counter-clockwise", [True, False]); C = [(1, 0), (0, 1), (-1, 0), (0, -1)]; C = C if ccw else C[::-1]; mk = lambda r, R, h: ([[r * x, r * y, 0.0, 1.0] for x, y in C], [[R * x, R * y, up * h, 1.0] for x, y in C]); via = vc.choice("by", ["makeLoftSolid", "loft"]); f = m.makeLoftSolid if via == "makeLoftSolid" else lambda a, b, **kw: m.loft([a, b], **kw); meta = vc.choice("metadata", [None, {"name": "x"}])
    a, b = mk(r, R, h); snap = vc.snapshot([a, b])
    def cap(ply, *more, **kw):
        k = len(ply); cr = cross(vsub(ply[1], ply[0]), vsub(ply[2], ply[1])); z = 1.0 if cr[2] > 0 else -1.0
        return ["surface", [list(p) for p in ply], [[0.0, 0.0, z, 0.0] for _ in ply], [[0, i, i + 1] for i in range(1, k - 1)], list(range(k)), []], []
    with patched(vc, GU, poly2surface=cap): s = f(a, b, metadata=meta); n = f(*mk(1.0, 2.0, 3.0))
    twin(vc, "loft", s, n, r + R + h); V = 2.0 * h / 3 * (R * R + R * r + r * r); vc.check("volume", vc.le(vc.abs(volume(s) - V), 1e-9 * V, tol=0, scale=0)); vc.check("loops left alone", vc.same(snap, [a, b])); vc.check("metadata", (len(s) == 5 and s[4].get("name") == "x") if meta else True)
@contract("C24.tube", [U + "tube", U + "conic_tube", U + "_loft_surface", G + "poly2surfaceXY", G + "reversesurface", G + "translatesurface"], assumes=EARCUT, oblig_ms=60000, time_s=400)
def tube(vc):
    """a straight or conic tube is closed, stands on the given base point with the given outer diameters, wall and length, and faces outwards on both walls: its volume is that of the outer frustum less the inner one; without caps only the walls are there"""
    m = vc.mod(GU); k = 4; conic_ = vc.choice("conic", [False, True]); ri, w, h = dims(vc, "ri", "w", "h", lo=0.1); ro = ri + w; Ri = dims(vc, "Ri", lo=0.1)[0] if conic_ else ri; Ro = Ri + w; caps = vc.choice("caps", [True, False]); how = vc.choice("placed by", ["base_point", "center", "default"]) if caps else "base_point"; c = [0.0, 0.0, 0.0, 1.0] if how == "default" else away(vc, vc.point("c")); vc.assume(vc.ge(vc.abs(c[2] + h), 1e-3))
    if how != "default": vc.assume(vc.ge(vc.abs(c[2]), 1e-3))
    D = [(math.cos(1 + 2 * math.pi * i / k), math.sin(1 + 2 * math.pi * i / k)) for i in range(k)]
    def circle(xy, r, *a, **kw): pts_ = [[xy[0] + r * x, xy[1] + r * y, 0.0, 1.0] for x, y in D]; return pts_ + [list(pts_[0])]
    kw = {} if how == "default" else {how: c}; kw["minang"] = 60.0
    if not caps: kw["include_caps"] = False
    def build(ri, Ri, w, h, **kw): return m.conic_tube(2 * (ri + w), 2 * (Ri + w), w, h, **kw) if conic_ else m.tube(2 * (ri + w), w, h, **kw)
    class Seen(list): shift = 0
    with patched(vc, GU, _circle_loop=circle):
        seen = Seen(); seen.shift = 1
        with patched(vc, G3, triangulate_polygon=fan(vc, seen)): s = build(ri, Ri, w, h, **kw); n = build(1.0, 2.0 if conic_ else 1.0, 0.5, 3.0, minang=60.0, **({"include_caps": False} if not caps else {}))
    S = ro + Ro + h + vc.abs(c[0]) + vc.abs(c[1]) + vc.abs(c[2]); at = twin(vc, "tube", s, n, S, closed=caps); _, N = labels(n); vc.check("surfaces", len(s[1]) == (4 if caps else 2))
    for j, q in enumerate(N):
        e = math.hypot(q[0], q[1]); top = q[2] > 1; outer = e > ((2.25 if conic_ else 1.25) if top else 1.25); rr = (Ro if outer else Ri) if top else (ro if outer else ri); vc.check("place", near(vc, at[j], [c[0] + rr * (q[0] / e), c[1] + rr * (q[1] / e), c[2] + (h if top else 0.0)], S))
    if how == "default": A = k * math.sin(2 * math.pi / k) / 2 * h / 3; V = A * (ro * ro + ro * Ro + Ro * Ro - ri * ri - ri * Ri - Ri * Ri); vc.check("volume", vc.le(vc.abs(volume(s) - V), 1e-6 * V, tol=0, scale=0))
@contract("C24.tube_rejects", [U + "tube", U + "conic_tube"])
def tube_rejects(vc):
    """tubes with no wall, or a wall that leaves no bore, are rejected"""
    m = vc.mod(GU); d, D, w = vc.real("d", 0, 4), vc.real("D", 0, 4), vc.real("w", -1, 3); e, _ = vc.choice("conic", [0, 1]), 0; f = (lambda: m.conic_tube(d, D, w, 1.0, minang=60.0)) if e else (lambda: m.tube(d, w, 1.0, minang=60.0)); bore = vc.le(d / 2 - w, 5e-6, tol=0, scale=0); bore = vc.or_(bore, vc.le(D / 2 - w, 5e-6, tol=0, scale=0)) if e else bore; vc.assume(vc.or_(bore, vc.le(w, 5e-6, tol=0, scale=0))); x, _ = vc.raises(f); vc.check("rejected", isinstance(x, ValueError))
    x, _ = vc.raises(m.conic_tube if e else m.tube, *([2.0] * (3 if e else 2)), 1.0, center=[0.0, 0.0, 0.0, 1.0], base_point=[0.0, 0.0, 0.0, 1.0]); vc.check("two places", isinstance(x, ValueError))
@contract("C24.shell", [U + "spherical_shell", U + "_loft_surface"], oblig_ms=60000, time_s=300)
def shell(vc):
    """a partial spherical shell is two open caps of the outer and the inner radius, the inner one reversed, over the same sector about +z, joined by a rim that meets their ends corner for corner and faces out of the wall; a whole one has no rim"""
    m = vc.mod(GU); ri, w = dims(vc, "ri", "w", lo=0.1); ro = ri + w; c = vc.point("c"); frac = vc.choice("sector", ["whole", 0.25, 0.5, 0.75, "more"]); away(vc, [c[0], c[1], 0.0]); omega = {"whole": 4 * math.pi, "more": 20.0}.get(frac) or frac * 4 * math.pi; ct = -1.0 if isinstance(frac, str) else 1 - 2 * frac; minang = vc.choice("minang", [30.0, 33.0]); calls = []; moved = []
    def revolve(contour, z0, z1, steps, arcSamples=None, **kw):
        n = arcSamples; r0 = contour(z0); calls.append((contour, z0, z1, steps, n, kw)); V = [[r0 * math.cos(2 * math.pi * i / n), r0 * math.sin(2 * math.pi * i / n), z0, 1.0] for i in range(n)] + [[0.0, 0.0, z1, 1.0]]
        return ["surface", V, [[0.0, 0.0, 1.0, 0.0] for _ in V], [[i, (i + 1) % n, n] for i in range(n)], [], []]
    with patched(vc, GU, makeRevolutionSurface=revolve): s = m.spherical_shell(2 * ro, w, omega, c, minang=minang)
    vc.check("two caps", len(calls) == 2 and len(s[1]) == (2 if ct == -1.0 else 3))
    for (f, z0, z1, steps, n, kw), R in zip(calls, (ro, ri)):
        vc.check("sector", vc.and_(vc.le(vc.abs(z0 - (c[2] + R * ct)), 1e-9 * R, tol=0, scale=0), vc.eq(z1, c[2] + R))); u = vc.real("u%d" % (R is ri), -1, 1); vc.assume(vc.and_(vc.ge(u, -1.0), vc.le(u, 1.0))); q = f(c[2] + u * R); vc.check("on the sphere", vc.and_(vc.ge(q, 0.0, tol=0, scale=0), vc.eq(q * q + u * u * R * R, R * R))); vc.check("open", kw.get("endcaps") is False); vc.check("fine enough", n >= 360 / minang - 0.5 and n >= 3 and steps >= 1)
    vc.check("same corners", calls[0][4] == calls[1][4]); n = calls[0][4]; S = ro + sum(vc.abs(x) for x in c[:3])
    for f, R, rev in ((s[1][0], ro, False), (s[1][1], ri, True)): vc.check("centred", vc.and_(*[near(vc, f[1][i], [c[0] + R * math.sqrt(max(0.0, 1 - ct * ct)) * math.cos(2 * math.pi * i / n), c[1] + R * math.sqrt(max(0.0, 1 - ct * ct)) * math.sin(2 * math.pi * i / n), c[2] + R * ct], S * 1e4) for i in range(n)])); vc.check("turned", f[3] == [[i, n, (i + 1) % n] if rev else [i, (i + 1) % n, n] for i in range(n)])
    if ct == -1.0: return
    rim = s[1][2]; vc.check("rim corners", len(rim[1]) == 2 * n and vc.and_(*[near(vc, a, b, S * 1e2) for a, b in zip(rim[1], s[1][0][1][:n] + s[1][1][1][:n])])); E = set()
    for t in rim[3]:
        for i in range(3): E.add((t[i], t[(i + 1) % 3]))
    vc.check("rim", len(rim[3]) == 2 * n and len(E) == 6 * n); vc.check("joins the caps", all(((i + 1) % n, i) in E and (n + i, n + (i + 1) % n) in E for i in range(n)))
@contract("C24.shell_rejects", [U + "spherical_shell"])
def shell_rejects(vc):
    """shells with no wall, or a wall that leaves no room inside, are rejected"""
    m = vc.mod(GU); d, w = vc.real("d", 0, 4), vc.real("w", -1, 3); vc.assume(vc.or_(vc.le(d / 2 - w, 5e-6, tol=0, scale=0), vc.le(w, 5e-6, tol=0, scale=0))); e, _ = vc.raises(m.spherical_shell, d, w); vc.check("rejected", isinstance(e, ValueError))
@contract("C24.dodecahedron", [U + "dodecahedron"], oblig_ms=60000, time_s=300)
def dodecahedron(vc):
    """a dodecahedron is closed, has twenty corners on a sphere of the given diameter standing on the given point, edges of one length and flat pentagonal faces with their normals outwards"""
    m = vc.mod(GU); d, = dims(vc, "d"); c = vc.point("c"); s = m.dodecahedron(d, c); n = vc.numeric(lambda: m.dodecahedron(2.0)); at = twin(vc, "dodecahedron", s, n, d); _, N = labels(n); vc.check("corners", len(N) == 20 and len(s[1]) == 12 and sum(len(f[3]) for f in s[1]) == 36); g = [sum(p[i] for p in N) / 20 for i in range(3)]; edge = 4 / (math.sqrt(3) * (1 + math.sqrt(5)))
    for k, q in enumerate(N): vc.check("scaled", near(vc, at[k], [c[i] + q[i] * d / 2 for i in range(3)], d))
    vc.check("on the sphere", all(abs(math.dist(q, g) - 1) < 1e-9 for q in [x[:3] for x in N])); vc.check("stands", abs(min(q[2] for q in N)) < 1e-9 and abs(g[0]) + abs(g[1]) < 1e-9)
    for f, fs in zip(n[1], s[1]):
        ps = [p[:3] for p in f[1]]; nn = f[2][0][:3]; vc.check("edges", all(abs(math.dist(ps[i], ps[(i + 1) % 5]) - edge) < 1e-9 for i in range(5))); vc.check("outward", all(dot3(nn, vsub(p, g)) > 0.7 and abs(dot3(nn, vsub(p, ps[0]))) < 1e-9 for p in ps) and all(dot3(face_normal(f, t), nn) > 0 for t in f[3])); vc.check("normals", vc.and_(*[near(vc, v, nn, 1.0) for v in fs[2]])); vc.check("boundary", fs[4] == [0, 1, 2, 3, 4])
@contract("C24.subdivide", [U + "subdivide"], oblig_ms=60000, time_s=300)
def subdivide(vc):
    """dividing a face of a sphere puts a corner on the sphere, above the middle of each side whichever way the side is run, and gives four faces whose outer sides are the halved sides of the face and whose inner sides cancel; normals are unit and point away from the centre"""
    m = vc.mod(GU); R, = dims(vc, "R"); a, b, c = [vc.unit3(x) for x in "abc"]
    for p, q in ((a, b), (b, c), (c, a)): vc.assume(vc.ge(dot3(p, q), -0.9))
    U3 = [a, b, c]; f = vc.choice("face", [[0, 1, 2], [2, 0, 1], [1, 0, 2]]); V = [[R * x for x in p] + [1.0] for p in U3]; N = [list(p) + [0.0] for p in U3]; before = [list(p) for p in V]; fresh = []
    def add_vertex(nv, nn, verts, normals): verts.append(nv); normals.append(nn); fresh.append((nv, nn)); return len(verts) - 1, verts, normals
    with patched(vc, GU, addVertex=add_vertex): v2, n2, F = m.subdivide(f, V, N, R)
    vc.check("corners kept", vc.and_(*[vc.veq(x, y) for x, y in zip(before, v2[:3])])); vc.check("three more", len(v2) == 6 and len(n2) == 6); mid = {}
    for k in range(3):
        p, q = U3[f[k]], U3[f[(k + 1) % 3]]; h = [x + y for x, y in zip(p, q)]
        j = 3 + k; mid[frozenset((f[k], f[(k + 1) % 3]))] = j; vc.check("on the sphere", vc.eq(vc.norm2(v2[j][:3]), R * R)); L = vc.sqrt(vc.norm2(h)); vc.check("above the middle", vc.veq([L * x for x in v2[j][:3]], [R * x for x in h])); vc.check("normal", vc.veq([L * x for x in n2[j][:3]], h)); vc.check("point", v2[j][3] == 1 and n2[j][3] == 0)
    E = {}
    for t in F:
        for i in range(3): e = (t[i], t[(i + 1) % 3]); E[e] = E.get(e, 0) + 1; E[e[::-1]] = E.get(e[::-1], 0) - 1
    W = set()
    for k in range(3): i, j = f[k], f[(k + 1) % 3]; h = mid[frozenset((i, j))]; W |= {(i, h), (h, j)}
    vc.check("faces", len(F) == 4 and {e for e, n in E.items() if n > 0} == W and all(abs(n) <= 1 for n in E.values()))
@contract("C24.icosahedron", [U + "makeIcoPoints", U + "sphereSurface", U + "sphere", U + "sphere2cartesian", U + "addVertex"], oblig_ms=60000, time_s=200)
def icosahedron(vc):
    """the coarsest sphere is a closed icosahedron of the given diameter about the given centre, facing outwards, and is said to be that sphere"""
    m = vc.mod(GU); d, = dims(vc, "d"); c = away(vc, vc.point("c")); s = m.sphere(d, c, 0); n = m.sphere(2.0, [0.0, 0.0, 0.0, 1.0], 0); S = d + sum(vc.abs(x) for x in c[:3]); at = twin(vc, "sphere", s, n, S); _, N = labels(n); vc.check("corners", len(N) == 12 and len(n[1][0][3]) == 20)
    for k, q in enumerate(N): vc.check("scaled", near(vc, at[k], [c[i] + q[i] * d / 2 for i in range(3)], S)); vc.check("on the sphere", abs(math.dist(q[:3], [0, 0, 0]) - 1) < 1e-9)
    f = n[1][0]; vc.check("outwards", all(det(*[f[1][i] for i in t]) > 0.3 for t in f[3])); vc.check("normals", vc.and_(*[near(vc, v, q, 1.0) for v, q in zip(s[1][0][2], [p[:3] for p in f[1]])])); A = s[1][0][6]["analytic_surface"]; vc.check("sphere", vc.and_(A[0] == "sphere_surface", vc.veq(A[1][:3], c[:3]), vc.eq(A[2]["radius"], d / 2)))
@contract("C24.spheroid", [U + "oblate_spheroid"], oblig_ms=60000)
def spheroid(vc):
    """every corner of a sphere's mesh goes to the spheroid with the given equatorial diameter and oblateness about the given centre, with the unit normal of the spheroid there; the faces are the sphere's"""
    m = vc.mod(GU); E, = dims(vc, "E"); o = vc.real("o", 0.0, 0.9); vc.assume(vc.and_(vc.ge(o, 0.0, tol=0, scale=0), vc.le(o, 0.95, tol=0, scale=0))); c = vc.point("c"); p = [vc.unit3("p%d" % i) for i in range(3)]; asked = []
    def ball(d, at, depth): asked.append((d, list(at), depth)); return ["surface", [list(x) + [1.0] for x in p], [list(x) + [0.0] for x in p], [[0, 1, 2]], [], []]
    with patched(vc, GU, sphereSurface=ball): s = m.oblate_spheroid(E, o, c, 4)
    vc.check("unit sphere", asked == [(2.0, [0, 0, 0, 1], 4)]); f = s[1][0]; a = E / 2; b = a * (1 - o); vc.check("faces", f[3] == [[0, 1, 2]])
    for q, v, n in zip(p, f[1], f[2]): vc.check("place", vc.veq(v, [c[0] + a * q[0], c[1] + a * q[1], c[2] + b * q[2], 1.0])); g = [q[0] / a, q[1] / a, q[2] / b]; vc.check("normal", vc.and_(vc.veq(cross(n, g), [0.0, 0.0, 0.0]), vc.eq(vc.norm2(n[:3]), 1.0), vc.ge(dot3(n, g), 0.0, tol=0, scale=0)))
# ---------------------------------------------------------------- solids of revolution
def mesher(vc):
    """stand-ins for addVertex (one index per place) and tri2p0n (the normal, not scaled to length one)"""
    def add_vertex(p, n, verts, normals):
        for i, q in enumerate(verts):
            if all(bool(vc.eq(p[k], q[k])) for k in (2, 0, 1)): return i, verts, normals
        verts.append(p); normals.append(n); return len(verts) - 1, verts, normals
    def plane_of(f, basis=False):
        n = cross(vsub(f[1], f[0]), vsub(f[2], f[0]))
        if all(bool(vc.eq(x, 0.0)) for x in n): raise ValueError("degenerate")
        return f[0], list(n) + [0.0]
    return dict(addVertex=add_vertex, tri2p0n=plane_of)
ROUND = ["addVertex gives one index per place (C24.add_vertex)", "the radii and bands are large enough for no face to fall below the library's smallest area"]
def revolved(vc, name, s, Z, Rr, n, caps, nominal, nom):
    """s is the mesh of the profile (Z, Rr) turned about z in n steps"""
    S = sum(Rr) + Z[-1] - Z[0]; at = twin(vc, name, s, nominal, S, closed=caps); _, N = labels(nominal); k = len(Z) - 1
    for j, q in enumerate(N):
        i = min(range(k + 1), key=lambda i: abs(q[2] - i)); e = math.hypot(q[0], q[1]); rr = Rr[i] if e > 1e-6 else 0.0; vc.check("place", near(vc, at[j], [rr * q[0] / e if e > 1e-6 else 0.0, rr * q[1] / e if e > 1e-6 else 0.0, Z[i]], S))
    ring = {(round(q[2]), round(math.atan2(q[1], q[0]) * n / (2 * math.pi)) % n) for q in N if math.hypot(q[0], q[1]) > 1e-6}; vc.check("all rings", ring == {(i, j) for i in range(k + 1) if nom[i] for j in range(n)})
    if caps: V = n * math.sin(2 * math.pi / n) / 6 * sum((Z[i + 1] - Z[i]) * (Rr[i] * Rr[i] + Rr[i] * Rr[i + 1] + Rr[i + 1] * Rr[i + 1]) for i in range(k)); vc.check("volume", vc.le(vc.abs(volume(s, [0.0, 0.0, Z[0]]) - V), 1e-9 * V, tol=0, scale=0))
    return at, N
def profile(vc, k):
    """radii along a profile of k bands: any, and nothing at the ends that are on the axis"""
    ends = vc.choice("on the axis", ["none", "start", "end"] + (["both"] if k > 1 else [])); r = dims(vc, *["r%d" % i for i in range(k + 1)], lo=0.1)
    if ends in ("start", "both"): r[0] = 0.0
    if ends in ("end", "both"): r[k] = 0.0
    return r, [0.0 if i == 0 and ends in ("start", "both") or i == k and ends in ("end", "both") else 1.0 + 0.25 * (i % 2) for i in range(k + 1)], ends
@contract("C24.revolution", [U + "makeRevolutionSurface", U + "makeRevolutionSolid"], assumes=ROUND, oblig_ms=60000, time_s=300)
def revolution(vc):
    """turning a profile of radii over a height about z gives a mesh whose rings lie at the given radii and heights, closed by flat ends or by points on the axis, facing outwards: its volume is that of the frusta; without end caps only the open ends are left; the profile is asked for nothing outside its range"""
    m = vc.mod(GU); k = vc.choice("bands", [1, 2, 3]); n = vc.choice("facets", [5, 7] if k < 3 else [5]); r, nom, ends = profile(vc, k); z0 = vc.real("z0"); H, = dims(vc, "H", lo=0.1); Z = [z0 + H * i / k for i in range(k + 1)]; Z[k] = z0 + H; caps = vc.choice("caps", [True, False]); how = vc.choice("as", ["surface", "solid"]) if caps and k == 2 else "surface"
    def contour(z):
        for i in range(k + 1):
            if bool(vc.le(vc.abs(z - Z[i]), 1e-9 * H, tol=0, scale=0)): return r[i]
        vc.check("asked inside its range", False); return r[0]
    kw = {} if caps else {"endcaps": False}
    if how == "surface": nominal = vc.numeric(lambda: m.makeRevolutionSurface(lambda z: nom[int(round(z))], 0.0, float(k), k, n, **kw))
    else: nominal = vc.numeric(lambda: m.makeRevolutionSolid(lambda z: nom[int(round(z))], 0.0, float(k), k, n))
    fake = mesher(vc)
    with patched(vc, GU, **fake): s = m.makeRevolutionSurface(contour, z0, z0 + H, k, n, **kw) if how == "surface" else m.makeRevolutionSolid(contour, z0, z0 + H, k, n)
    closed = caps or ends == "both"; revolved(vc, "revolution", s, Z, r, n, closed, nominal, nom)
    if not closed: b = balance(nominal); vc.check("open ends only", len(b) == n * (2 if ends == "none" else 1) and all(v == 1 for v in b.values()))
@contract("C24.revolution_theta", [U + "makeRevolutionThetaSamplingSurface", U + "_normalize_theta_profile"], assumes=ROUND, oblig_ms=60000, time_s=300)
def revolution_theta(vc):
    """turning a profile that may change with the angle gives a mesh through every sample at its angle, in one piece all the way round and to the axis, open only at the ends that are off the axis; the profile is asked at evenly spread angles, in degrees or radians"""
    m = vc.mod(GU); k = vc.choice("bands", [1, 2, 3]); n = 5; r, nom, ends = profile(vc, k); z0 = vc.real("z0"); hs = dims(vc, *["h%d" % i for i in range(k)], lo=0.1); Z = [z0]
    for h in hs: Z.append(Z[-1] + h)
    deg = vc.choice("degrees", [True, False]); caps = vc.choice("endcaps", [True, False]); wavy = vc.choice("wavy", [False, True]); f = [1.0, 1.5, 2.0, 1.75, 1.25] if wavy else [1.0] * 5; asked = []
    def contour(a, b, th): asked.append((a, b, th)); i = len(asked) - 1; form = i % 2; return [[z, x * f[i]] if form else (z, x * f[i]) for z, x in zip(Z, r)]
    nominal = vc.numeric(lambda: m.makeRevolutionThetaSamplingSurface(lambda a, b, th: [(float(i), x * f[round(th * n / 360)]) for i, x in enumerate(nom)], 0.0, float(k), n, caps))
    with patched(vc, GU, **mesher(vc)): s = m.makeRevolutionThetaSamplingSurface(contour, z0, Z[-1], n, caps, deg)
    full = 360.0 if deg else 2 * math.pi; vc.check("angles", len(asked) == n and all(abs(t - full * i / n) < 1e-9 for i, (_, _, t) in enumerate(asked))); S = 2 * sum(r) + Z[-1] - Z[0]; at = twin(vc, "revolution", s, nominal, S, closed=ends == "both"); _, N = labels(nominal); b = balance(nominal); vc.check("open ends only", len(b) == n * {"none": 2, "start": 1, "end": 1, "both": 0}[ends] and all(v == 1 for v in b.values()))
    vc.check("all samples", len(N) == sum(n if x else 1 for x in nom))
    for j, q in enumerate(N):
        i = round(q[2]); e = math.hypot(q[0], q[1])
        if e < 1e-6: W = [0.0, 0.0, Z[i]]
        else: a = round(math.atan2(q[1], q[0]) * n / (2 * math.pi)) % n; W = [r[i] * f[a] * math.cos(2 * math.pi * a / n), r[i] * f[a] * math.sin(2 * math.pi * a / n), Z[i]]
        vc.check("place", near(vc, at[j], W, S))
    for t in nominal[3]: g = [sum(nominal[1][i][j] for i in t) / 3 for j in range(2)] + [0.0]; vc.check("outwards", dot3(face_normal(nominal, t), g) > (0.0 if nom == [1.0] * (k + 1) else -math.inf))
    if ends == "both" and not wavy: V = n * math.sin(2 * math.pi / n) / 6 * sum(hs[i] * (r[i] * r[i] + r[i] * r[i + 1] + r[i + 1] * r[i + 1]) for i in range(k)); vc.check("volume", vc.le(vc.abs(volume(s, [0.0, 0.0, z0]) - V), 1e-9 * V, tol=0, scale=0))
@contract("C24.add_vertex", [U + "addVertex"])
def add_vertex(vc):
    """a new place gets a new index with its normal, and a known place its first index; nothing else changes"""
    m = vc.mod(GU); P = [[0.5, -0.25, 1.0, 1.0], [0.5, 0.25, 1.0, 1.0], [0.504, -0.25, 1.0, 1.0], [0.0, 0.0, 0.0, 1.0], [12.25, 5.5, -3.125, 1.0], [12.25, 5.5, 3.125, 1.0]]; order = vc.choice("order", [[0, 1, 2, 3, 4, 5], [0, 0, 1, 0, 1], [2, 0, 2, 0], [3, 4, 3, 5, 4, 3, 0, 5], [5, 4, 3, 2, 1, 0, 0, 1, 2, 3, 4, 5]]); d = vc.choice("off", [0.0, 1e-7, -1e-7]); V, N, seen = [], [], []
    for step, k in enumerate(order):
        p = [P[k][0] + d * (step % 2), P[k][1], P[k][2] + d * (step % 2), 1.0]; i, V, N = m.addVertex(p, [0.0, 0.0, float(step), 0.0], V, N)
        if k not in seen: seen.append(k); vc.check("new", i == len(seen) - 1 and V[i] == p and N[i][2] == float(step))
        vc.check("index", i == seen.index(k)); vc.check("lists", len(V) == len(N) == len(seen))
# ---------------------------------------------------------------- copies side by side
@contract("C24.stack", [U + "stack_solids"])
def stack(vc):
    """solids stacked along an axis stand one behind the other from the start, with the gap and the extra spaces between them, lined up at the centre or an edge of the first, each a translated copy"""
    m = vc.mod(GU); ax = vc.choice("axis", ["x", "y", "z", "Z"]); al = vc.choice("align", ["center", "min", "max"]); k = "xyz".index(ax.lower()); n = 3; start, gap, sp = vc.real("start"), vc.real("gap"), vc.choice("space", [None, 2.5, -1.0]); boxes = [[vc.point("lo%d" % i), None] for i in range(n)]; items = ["S%d" % i for i in range(n)]
    class Named:
        def __init__(self, i): self.i = i
    items = [Named(i) for i in range(n)]
    for i, b in enumerate(boxes): e = dims(vc, "ex%d" % i, "ey%d" % i, "ez%d" % i); b[1] = [b[0][j] + e[j] for j in range(3)] + [1.0]
    where = vc.choice("spaced after", [0, 1, 2]); seq = list(items)
    if sp is not None: seq.insert(where, "space:%s" % sp if where else " Space: %s" % sp); seq = seq if where != 1 else seq[:1] + ["space:1.5"] + seq[1:]
    with patched(vc, GU, solidbbox=lambda s: boxes[s.i], translatesolid=lambda s, d: (s, d)): out = m.stack_solids(seq, axis=ax, start=start, gap=gap, align=al)
    vc.check("order", len(out) == n and all(a is b for (a, _), b in zip(out, items))); at = start
    for i, (_, d) in enumerate(out):
        if sp is not None and i == where: at = at + sp + (1.5 if where == 1 else 0.0)
        lo, hi = boxes[i]; vc.check("stands", vc.eq(lo[k] + d[k], at)); at = at + (hi[k] - lo[k]) + gap
        for j in range(3):
            if j != k: a = {"center": lambda b: (b[0][j] + b[1][j]) / 2, "min": lambda b: b[0][j], "max": lambda b: b[1][j]}[al]; vc.check("aligned", vc.eq(a(boxes[i]) + d[j], a(boxes[0])))
    with patched(vc, GU, solidbbox=lambda s: boxes[s.i], translatesolid=lambda s, d: (s, d)):
        for kw in ({"axis": "w"}, {"align": "top"}): e, _ = vc.raises(m.stack_solids, items, **kw); vc.check("rejected", isinstance(e, ValueError))
        for bad in ("gap:1", "space:x"): e, _ = vc.raises(m.stack_solids, [items[0], bad, items[1]]); vc.check("directive", isinstance(e, ValueError))
    vc.check("none", m.stack_solids([]) == [])
@contract("C24.radial", [U + "radial_pattern_solid", U + "radial_pattern_surface"])
def radial(vc):
    """a radial pattern is the shape and copies turned about the axis through the centre by equal steps: over a full turn, either way, without repeating the first, and over any other angle from the first to the last"""
    m = vc.mod(GU); kind = vc.choice("kind", ["solid", "surface"]); n = vc.choice("count", [1, 2, 3, 5]); given = vc.choice("given", [True, False]); c, ax = (vc.point("c"), vc.unit3("ax")) if given else (None, None); ang = vc.choice("angle", [None, 360.0, -360.0, "any"]); a = ang
    if ang == "any": a = vc.real("a", -720, 720); vc.assume(vc.and_(vc.ge(vc.abs(a), 1.0), vc.ge(vc.abs(vc.abs(a) - 360.0), 0.01)))
    f = m.radial_pattern_solid if kind == "solid" else m.radial_pattern_surface; shape_ = ["thing"]; calls = []
    def turn(s, t, cent=None, axis=None, **kw): calls.append((s, t, cent, axis)); return ["copy", t]
    with patched(vc, GU, rotatesolid=turn, rotatesurface=turn, issolid=lambda s: s is shape_ and kind == "solid", issurface=lambda s: s is shape_ and kind == "surface"):
        out = f(shape_, n, c, ax, a)
        for bad in ((shape_, 0), (shape_, -1), (["other"], 2)): e, _ = vc.raises(f, *bad); vc.check("rejected", isinstance(e, ValueError))
    vc.check("count", len(out) == n and out[0] is shape_ and len(calls) == n - 1); total_ = 360.0 if ang is None else a; full = ang in (None, 360.0, -360.0)
    for i, (s, t, cc, axx) in enumerate(calls): vc.check("step", vc.eq(t, total_ * (i + 1) / (n if full else n - 1))); vc.check("about", s is shape_ and vc.and_(vc.veq(cc[:3], c[:3] if given else [0.0, 0.0, 0.0]), vc.veq(axx[:3], ax if given else [0.0, 0.0, 1.0]))); vc.check("placed", out[i + 1] == ["copy", t] if not given and ang != "any" else out[i + 1][1] is t)
@contract("C24.linear", [U + "linear_pattern_solid", U + "linear_pattern_surface"])
def linear(vc):
    """a linear pattern is the shape and copies moved by whole multiples of the spacing"""
    m = vc.mod(GU); kind = vc.choice("kind", ["solid", "surface"]); n = vc.choice("count", [1, 2, 4]); d = vc.vec3("d"); form = vc.choice("spacing", [2, 3, 4, "tuple"]); sp = [d[0], d[1]] if form == 2 else tuple(d) if form == "tuple" else list(d) + ([1.0] if form == 4 else []); f = m.linear_pattern_solid if kind == "solid" else m.linear_pattern_surface; shape_ = ["thing"]; calls = []
    def move(s, t): calls.append((s, t)); return ["copy", t]
    with patched(vc, GU, translatesolid=move, translatesurface=move, issolid=lambda s: s is shape_ and kind == "solid", issurface=lambda s: s is shape_ and kind == "surface"):
        out = f(shape_, n, sp)
        for bad in ((shape_, 0, sp), (["other"], 2, sp), (shape_, 2, [1.0]), (shape_, 2, 1.0)): e, _ = vc.raises(f, *bad); vc.check("rejected", isinstance(e, ValueError))
    vc.check("count", len(out) == n and out[0] is shape_ and len(calls) == n - 1)
    for i, (s, t) in enumerate(calls): vc.check("moved", s is shape_ and vc.veq(t[:3], [(i + 1) * x for x in (list(d[:2]) + [0.0] if form == 2 else d)])); vc.check("placed", out[i + 1][1] is t)
FU = "yapcad.geom_util"
@contract("C24.figure_radial", [FU + ":radial_pattern"])
def figure_radial(vc):
    """the same of planar figures: the figure and copies turned by equal steps, a full turn either way not repeating the first"""
    m = vc.mod(FU); n = vc.choice("count", [1, 2, 3, 5, 7]); given = vc.choice("given", [True, False]); c, ax = (vc.point("c"), vc.unit3("ax")) if given else (None, None); ang = vc.choice("angle", [None, 360.0, -360.0, "any"]); a = ang
    if ang == "any": a = vc.real("a", -720, 720); vc.assume(vc.and_(vc.ge(vc.abs(a), 1.0), vc.ge(vc.abs(vc.abs(a) - 360.0), 0.01)))
    shape_ = ["thing"]; calls = []
    def turn(s, t, cent=None, axis=None, **kw): calls.append((s, t, cent, axis)); return ["copy", t]
    with patched(vc, FU, rotate=turn):
        out = m.radial_pattern(shape_, n, c, ax, a)
        for bad in (0, -1): e, _ = vc.raises(m.radial_pattern, shape_, bad); vc.check("rejected", isinstance(e, ValueError))
    vc.check("count", len(out) == n and out[0] is shape_ and len(calls) == n - 1); total_ = 360.0 if ang is None else a; full = ang in (None, 360.0, -360.0)
    for i, (s, t, cc, axx) in enumerate(calls): vc.check("step", vc.eq(t, total_ * (i + 1) / (n if full else n - 1))); vc.check("about", s is shape_ and vc.and_(vc.veq(cc[:3], c[:3] if given else [0.0, 0.0, 0.0]), vc.veq(axx[:3], ax if given else [0.0, 0.0, 1.0]))); vc.check("placed", out[i + 1][1] is t)
@contract("C24.figure_linear", [FU + ":linear_pattern"])
def figure_linear(vc):
    """a linear pattern of planar figures is the figure and copies moved by whole multiples of the spacing"""
    m = vc.mod(FU); n = vc.choice("count", [1, 2, 4, 6]); d = vc.vec3("d"); form = vc.choice("spacing", [2, 3, 4, "tuple"]); sp = [d[0], d[1]] if form == 2 else tuple(d) if form == "tuple" else list(d) + ([1.0] if form == 4 else []); shape_ = ["thing"]; calls = []
    def move(s, t): calls.append((s, t)); return ["copy", t]
    with patched(vc, FU, translate=move):
        out = m.linear_pattern(shape_, n, sp)
        for bad in ((shape_, 0, sp), (shape_, 2, [1.0]), (shape_, 2, 1.0)): e, _ = vc.raises(m.linear_pattern, *bad); vc.check("rejected", isinstance(e, ValueError))
    vc.check("count", len(out) == n and out[0] is shape_ and len(calls) == n - 1)
    for i, (s, t) in enumerate(calls): vc.check("moved", s is shape_ and vc.veq(t[:3], [(i + 1) * x for x in (list(d[:2]) + [0.0] if form == 2 else d)])); vc.check("placed", out[i + 1][1] is t)
@contract("C24.pattern_step", [FU + ":radial_pattern", FU + ":linear_pattern", U + "radial_pattern_solid", U + "radial_pattern_surface", U + "linear_pattern_solid", U + "linear_pattern_surface"])
def pattern_step(vc):
    """any number of copies: copy number i is turned by i steps, or moved by i spacings"""
    vc.cutused = True; k = vc.choice("pattern", ["radial", "linear"]); what = vc.choice("of", ["figure", "solid", "surface"]); mod = FU if what == "figure" else GU; fn = k + "_pattern" + ("" if what == "figure" else "_" + what); m = vc.mod(mod); shape_ = ["thing"]; calls = []
    n = vc.int("count", 2, 99); vc.assume(vc.ge(n, 3)); i = vc.int("i", 1, 99); vc.assume(vc.and_(vc.ge(i, 1), vc.lt(i, n), vc.le(n, 100000)))
    def turn(s, t, cent=None, axis=None, **kw): calls.append(t); return ["copy", t]
    def move(s, t): calls.append(t); return ["copy", t]
    hooks = dict(rotate=turn, translate=move) if what == "figure" else dict(rotatesolid=turn, rotatesurface=turn, translatesolid=move, translatesurface=move, issolid=lambda s: True, issurface=lambda s: True)
    full = vc.choice("full", [True, False]); d = vc.vec3("d"); a = 360.0 if full else vc.real("a", 5, 300)
    if not full: vc.assume(vc.and_(vc.ge(a, 1.0), vc.le(a, 359.0)))
    with patched(vc, mod, **hooks):
        cut = vc.cut(mod + ":" + fn); kd, _, env = cut.pre(shape_, n, None, None, a) if k == "radial" else cut.pre(shape_, n, list(d)); vc.check("starts", kd == "next" and env["result"] == [])
        if k == "radial": vc.assume(vc.ge(a * i, 0.001 * n))
        env["result"] = [shape_]; cut.body(env, i)
    vc.check("one more", len(env["result"]) == 2 and len(calls) == 1)
    if k == "radial": vc.check("turned", vc.eq(calls[0] * (n if full else n - 1), a * i))
    else: vc.check("moved", vc.veq(calls[0][:3], [i * x for x in d]))
