from pyvc.vc import contract
from contracts.lib import *
G = "yapcad.geom"

def turns(vc, a): return vc.floor(a / 360.0)
def mod360(vc, a): return a - 360.0 * turns(vc, a)
def arc_spec(vc, start, end, full):
    """(start, sweep): counter-clockwise from start to end, less than a whole turn unless a circle"""
    if full: return 0.0, 360.0
    s, e = mod360(vc, start), mod360(vc, end)
    return s, e - s + 360.0 if vc.case(vc.lt(e, s, tol=0, scale=0)) else e - s
def polar(vc, c, r, a): return [c[0] + r * vc.cosd(a), c[1] + r * vc.sind(a), c[2], 1.0]
def an_arc(vc, wide=True):
    c = vc.point("c"); r = vc.real("r", 0.1, 10.0, pos=True); vc.assume(vc.ge(r, 1e-3))
    full = vc.choice("circle", [False, True]); w = vc.choice("w", [-1, -2])
    if full: s, e = 0, 360
    else:
        s = vc.angle("start"); e = vc.angle("end")
        vc.assume(vc.not_(vc.and_(vc.eq(s, 0.0, tol=0, scale=0), vc.eq(e, 360.0, tol=0, scale=0))))
    return [c, [r, s, e, w]], full

# ---------------------------------------------------------------- lines
@contract("C03.line_sample", ["yapcad.geom:sampleline", "yapcad.geom:linelength", "yapcad.geom:linecenter", "yapcad.geom:sample", "yapcad.geom:length", "yapcad.geom:center"])
def line_sample(vc):
    """affine in the parameter: ends at 0 and 1, distance from the start is |u| times the length"""
    m = vc.mod(G); l = pts(vc, "p", 2); l0 = vc.snapshot(l); u = vc.real("u", -2, 3)
    S = m.sampleline if vc.choice("via", [0, 1]) else m.sample
    q = S(l, u)
    vc.check("on the line", vc.veq(q, vc.vadd(l0[0][:3], vc.vscale(vc.vsub(l0[1][:3], l0[0][:3]), u)) + [1.0]))
    vc.check("start", vc.veq(S(l, 0.0), l0[0])); vc.check("end", vc.veq(S(l, 1.0), l0[1]))
    L = m.length(l)
    vc.check("length", vc.and_(vc.ge(L, 0.0), vc.eq(L * L, vc.norm2(vc.vsub(l0[0][:3], l0[1][:3])))))
    d = m.dist(l[0], q); vc.check("proportional", vc.eq(d * d, u * u * L * L))
    vc.check("midpoint", vc.veq(m.center(l), S(l, 0.5)))
    vc.check("input spared", vc.same(l, l0))

@contract("C03.line_unsample", ["yapcad.geom:unsampleline", "yapcad.geom:unsample"])
def line_unsample(vc):
    """inverse sampling returns the parameter of a sampled point, and nothing for a point off the line"""
    m = vc.mod(G); l = pts(vc, "p", 2); away(vc, vc.vsub(l[1][:3], l[0][:3]))
    u = vc.real("u", -2, 3)
    r = m.unsample(l, m.sampleline(l, u))
    vc.check("found", not isinstance(r, bool))
    vc.check("same parameter", vc.eq(r, u))

@contract("C03.line_unsample_off", ["yapcad.geom:unsampleline"])
def line_unsample_off(vc):
    """a point off the line has no parameter; whatever is returned samples back to the point"""
    m = vc.mod(G); l = pts(vc, "p", 2); p = vc.point("q")
    v1 = vc.vsub(l[1][:3], l[0][:3]); v2 = vc.vsub(p[:3], l[0][:3]); away(vc, v1)
    z = vc.norm(vc.vcross(v1, v2))
    r = m.unsampleline(l, p)
    if isinstance(r, bool):
        vc.check("rejected", r is False); vc.check("only off-line points rejected", vc.gt(z, 0.0, tol=0, scale=0))
    else: vc.check("accepted only near the line", vc.le(z, 1e-5))

@contract("C03.line_segment", ["yapcad.geom:segmentline", "yapcad.geom:segment"])
def line_segment(vc):
    """the piece runs from sample(u1) to sample(u2); its length is the fraction of the whole; reversing maps u to 1-u"""
    m = vc.mod(G); l = pts(vc, "p", 2); l0 = vc.snapshot(l)
    u1 = vc.real("u1", 0, 1, strict=True); u2 = vc.real("u2", 0, 1, strict=True)
    vc.assume(vc.ge(vc.abs(u1 - u2), 1e-4))
    s = m.segment(l, u1, u2)
    vc.check("line", m.isline(s))
    vc.check("ends", vc.and_(vc.veq(s[0], m.sample(l, u1)), vc.veq(s[1], m.sample(l, u2))))
    a, b = m.length(s), m.length(l)
    vc.check("length", vc.eq(a * a, (u1 - u2) * (u1 - u2) * b * b))
    v = vc.real("v", 0, 1)
    vc.check("same curve", vc.veq(m.sample(s, v), m.sample(l, u1 + (u2 - u1) * v)))
    rl = m.reverseGeomList([l])[0]
    vc.check("reversed", vc.veq(m.sample(rl, v), m.sample(l, 1.0 - v)))
    vc.check("input spared", vc.same(l, l0))

# ---------------------------------------------------------------- arcs
@contract("C03.arc_sample", ["yapcad.geom:samplearc", "yapcad.geom:sample"])
def arc_sample(vc):
    """the point at parameter u is at the stated radius and at start + u * sweep (counter-clockwise, or backwards if sample-reversed)"""
    m = vc.mod(G); a, full = an_arc(vc); a0 = vc.snapshot(a); u = vc.real("u", 0, 1, strict=True)
    q = m.samplearc(a, u) if vc.choice("via", [0, 1]) else m.sample(a, u)
    s, W = arc_spec(vc, a0[1][1], a0[1][2], full)
    v = 1.0 - u if a0[1][3] == -2 else u
    vc.check("position", vc.veq(q, polar(vc, a0[0], a0[1][0], s + v * W)))
    vc.check("on the circle", vc.eq(vc.norm2(vc.vsub(q[:3], a0[0][:3])), a0[1][0] * a0[1][0]))
    vc.check("input spared", vc.same(a, a0))

@contract("C03.arc_ends", ["yapcad.geom:samplearc"])
def arc_ends(vc):
    """parameters 0 and 1 give the start and end direction (exchanged when sample-reversed)"""
    m = vc.mod(G); a, full = an_arc(vc)
    p, q = m.samplearc(a, 0.0), m.samplearc(a, 1.0)
    if a[1][3] == -2: p, q = q, p
    vc.check("start", vc.veq(p, polar(vc, a[0], a[1][0], a[1][1]))); vc.check("end", vc.veq(q, polar(vc, a[0], a[1][0], a[1][2])))

@contract("C03.arc_length", ["yapcad.geom:arclength", "yapcad.geom:length", "yapcad.geom:iscircle"])
def arc_length(vc):
    """radius times swept angle, between nothing and the full circumference"""
    m = vc.mod(G); a, full = an_arc(vc); a0 = vc.snapshot(a)
    L = m.length(a); s, W = arc_spec(vc, a[1][1], a[1][2], full)
    vc.check("length", vc.eq(L * 180.0, a[1][0] * W * vc.pi))
    vc.check("range", vc.and_(vc.ge(L, 0.0), vc.le(L, 2.0 * vc.pi * a[1][0])))
    vc.check("circle", bool(m.iscircle(a)) == full)
    vc.check("input spared", vc.same(a, a0))

@contract("C03.arc_unsample", ["yapcad.geom:unsamplearc", "yapcad.geom:unsample"])
def arc_unsample(vc):
    """inverse sampling recovers the parameter of a sampled point (either end of a full circle)"""
    m = vc.mod(G); a, full = an_arc(vc); a0 = vc.snapshot(a); u = vc.real("u", 0, 1, strict=True)
    s, W = arc_spec(vc, a[1][1], a[1][2], full)
    vc.assume(vc.ge(W, 1e-3))
    if not full: vc.assume(vc.le(W, 359.999))
    for e in (a[1][1], a[1][2]):      # angles within a hair below a whole turn are the same direction as zero, but not the same number
        if not full: vc.assume(vc.le(mod360(vc, e), 359.999))
    q = m.samplearc(a, u)
    r = m.unsample(a, q)
    vc.check("found", not isinstance(r, bool))
    if not isinstance(r, bool):
        ok = vc.eq(r, u)
        if full: ok = vc.or_(ok, vc.and_(vc.or_(vc.eq(r, 0.0), vc.eq(r, 1.0)), vc.or_(vc.eq(u, 0.0), vc.eq(u, 1.0))))
        vc.check("same parameter", ok)
    vc.check("input spared", vc.same(a, a0))

@contract("C03.arc_unsample_off", ["yapcad.geom:unsamplearc"])
def arc_unsample_off(vc):
    """a point off the circle has no parameter"""
    m = vc.mod(G); a, full = an_arc(vc); p = vc.pointxy("p")
    a[0][2] = 0.0
    _, W = arc_spec(vc, a[1][1], a[1][2], full); vc.assume(vc.ge(W, 1e-3))
    d = vc.norm(vc.vsub(p[:3], a[0][:3]))
    r = m.unsamplearc(a, p)
    if isinstance(r, bool): vc.check("only off-circle points rejected", vc.gt(vc.abs(d - a[1][0]), 4e-6))
    else: vc.check("accepted only on the circle", vc.le(vc.abs(d - a[1][0]), 6e-6))

@contract("C03.arc_segment", ["yapcad.geom:segmentarc", "yapcad.geom:segment"])
def arc_segment(vc):
    """the piece has the same centre, radius and direction, the stated fraction of the sweep, and starts and ends at the corresponding samples"""
    m = vc.mod(G); a, full = an_arc(vc); a0 = vc.snapshot(a)
    _, W = arc_spec(vc, a[1][1], a[1][2], full); vc.assume(vc.ge(W, 1e-2))
    if vc.choice("whole", [True, False]): u1, u2 = 0.0, 1.0
    else:
        u1 = vc.real("u1", 0, 1, strict=True); u2 = vc.real("u2", 0, 1, strict=True)
        vc.assume(vc.ge(u2 - u1, 1e-3)); vc.assume(vc.le(u2 - u1, 0.999))
    s = m.segment(a, u1, u2)
    vc.check("arc", m.isarc(s))
    vc.check("centre, radius, direction", vc.and_(vc.veq(s[0], a0[0]), vc.eq(s[1][0], a0[1][0]), vc.eq(s[1][3], a0[1][3])))
    p, q = polar(vc, s[0], s[1][0], s[1][1]), polar(vc, s[0], s[1][0], s[1][2])
    if a[1][3] == -2: p, q = q, p
    vc.check("starts at sample(u1)", vc.veq(p, m.samplearc(a, u1))); vc.check("ends at sample(u2)", vc.veq(q, m.samplearc(a, u2)))
    vc.check("length", vc.eq(m.length(s), m.length(a) * (u2 - u1)))
    vc.check("input spared", vc.same(a, a0))

@contract("C03.arc_reverse", ["yapcad.geom:reverseGeomList"])
def arc_reverse(vc):
    """reversing an arc (even an already reversed one) maps parameter u to 1-u"""
    m = vc.mod(G); a, full = an_arc(vc); a0 = vc.snapshot(a); u = vc.real("u", 0, 1, strict=True)
    b = m.reverseGeomList([a])[0]
    vc.check("u to 1-u", vc.veq(m.samplearc(b, u), m.samplearc(a, 1.0 - u)))
    vc.check("same length", vc.eq(m.length(b), m.length(a)))
    vc.check("input spared", vc.same(a, a0))

# ---------------------------------------------------------------- polylines
def a_poly(vc, n=None):
    n = n or vc.choice("n", [3, 4]); closed = n > 3 and vc.choice("closed", [False, True])
    p = pts(vc, "p", n)
    if closed: p[-1] = list(p[0])
    elif n > 2: away(vc, vc.vsub(p[0][:3], p[-1][:3]))
    for i in range(1, n): away(vc, vc.vsub(p[i][:3], p[i - 1][:3]))
    return p, closed
def lens(vc, p): return [vc.norm(vc.vsub(p[i][:3], p[i - 1][:3])) for i in range(1, len(p))]
def walk(vc, p, s):
    """point at distance s along the polyline"""
    L = lens(vc, p); rest = s
    for i in range(len(L)):
        if i == len(L) - 1 or vc.case(vc.le(rest, L[i], tol=0, scale=0)):
            t = rest / L[i]
            return [p[i][k] + t * (p[i + 1][k] - p[i][k]) for k in range(3)] + [1.0]
        rest = rest - L[i]

@contract("C03.poly_sample", ["yapcad.geom:samplepoly", "yapcad.geom:sample", "yapcad.geom:polylength", "yapcad.geom:length"])
def poly_sample(vc):
    """the point at parameter u lies u times the total length along the polyline; a closed figure repeats with period 1"""
    m = vc.mod(G); p, closed = a_poly(vc); p0 = vc.snapshot(p); u = vc.real("u", 0, 1, strict=True); vc.assume(vc.lt(u, 1.0, tol=0, scale=0))
    L = vc._sum(lens(vc, p0))
    vc.check("length", vc.eq(m.length(p), L))
    q = m.sample(p, u)
    vc.check("position", vc.veq(q, walk(vc, p0, u * L)))
    vc.check("input spared", vc.same(p, p0))

@contract("C03.poly_ends", ["yapcad.geom:samplepoly"])
def poly_ends(vc):
    """parameters 0 and 1 give the first and last vertex"""
    m = vc.mod(G); p, closed = a_poly(vc)
    vc.check("start", vc.veq(m.sample(p, 0.0), p[0])); vc.check("end", vc.veq(m.sample(p, 1.0), p[-1]))

@contract("C03.poly_outside", ["yapcad.geom:samplepoly"])
def poly_outside(vc):
    """beyond the ends an open polyline continues its first and last segment; a closed one wraps around"""
    m = vc.mod(G); p, closed = a_poly(vc); u = vc.real("u", -2, 3)
    L = lens(vc, p); T_ = vc._sum(L)
    if closed: vc.check("periodic", vc.veq(m.sample(p, u + 1.0), m.sample(p, u))); return
    if vc.choice("side", [0, 1]):
        vc.assume(vc.lt(u, 0.0)); t = u * T_ / L[0]
        vc.check("before", vc.veq(m.sample(p, u), [p[0][k] + t * (p[1][k] - p[0][k]) for k in range(3)] + [1.0]))
    else:
        vc.assume(vc.gt(u, 1.0)); t = (u - 1.0) * T_ / L[-1]
        vc.check("after", vc.veq(m.sample(p, u), [p[-1][k] + t * (p[-1][k] - p[-2][k]) for k in range(3)] + [1.0]))

@contract("C03.poly_reverse", ["yapcad.geom:reverseGeomList"])
def poly_reverse(vc):
    """reversing a polyline reverses its vertices and nothing else"""
    m = vc.mod(G); p, closed = a_poly(vc); p0 = vc.snapshot(p); l = pts(vc, "l", 2)
    r = m.reverseGeomList([p, l])
    vc.check("order", len(r) == 2 and len(r[1]) == len(p0))
    vc.check("line", vc.and_(vc.veq(r[0][0], l[1]), vc.veq(r[0][1], l[0])))
    vc.check("vertices", vc.same(r[1], list(reversed(p0))))
    vc.check("input spared", vc.same(p, p0))

@contract("C03.poly_unsample", ["yapcad.geom:unsamplepoly"])
def poly_unsample(vc):
    """the parameter found for a sampled point samples back to that point, and is the same one on a simple polyline"""
    m = vc.mod(G)
    a = vc.real("a", 0.2, 5, pos=True); b = vc.real("b", 0.2, 5, pos=True); c = vc.real("c", 0.2, 5, pos=True)
    for x in (a, b, c): vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    o = vc.point("o")
    # an axis-parallel step polyline: simple, any step lengths, any position
    steps = [[a, 0, 0], [0, b, 0], [0, 0, c]][:vc.choice("n", [2, 3])]
    p = [o]
    for s in steps: p.append(vc.vadd(p[-1][:3], s) + [1.0])
    u = vc.real("u", 0, 1, strict=True)
    q = m.sample(p, u)
    r = m.unsample(p, q)
    vc.check("found", not isinstance(r, bool))
    if not isinstance(r, bool): vc.check("same parameter", vc.eq(r, u, tol=2e-5))

@contract("C03.polygon_unsample", ["yapcad.geom:unsamplepoly"], time_s=120)
def polygon_unsample(vc):
    """the same on a closed simple polygon, also one whose sides lie on a common line without adjoining; a point on the line of a side but on no side is not found"""
    m = vc.mod(G); L = [vc.real(n, 0.2, 5, pos=True) for n in ("a", "b", "c", "d", "e")]
    for x in L: vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    a, b, c, d, e = L; shape = vc.choice("shape", ["rectangle", "notch", "notch, other start"]); o = vc.point("o"); s = d + e + b
    if shape == "rectangle": st = [[a, 0, 0], [0, b, 0], [-a, 0, 0]]; sides = [a, b, a, b]
    else: st = [[a, 0, 0], [0, e + b, 0], [-(a + c + d), 0, 0], [0, -(e + b), 0], [c, 0, 0], [0, b, 0], [d, 0, 0]]; sides = [a, e + b, a + c + d, e + b, c, b, d, b]
    if shape == "notch, other start": k = vc.choice("start", [1, 4, 6, 7]); full = st + [[0, -b, 0]]; st = (full[k:] + full[:k])[:-1]; sides = sides[k:] + sides[:k]
    p = [o]
    for t in st: p.append(vc.vadd(p[-1][:3], t) + [1.0])
    p.append(list(o)); i = vc.choice("side", list(range(len(sides)))); tot = sum(sides[1:], sides[0]); t = vc.real("t", 0.02, 0.98); vc.assume(vc.and_(vc.ge(t, 0.01), vc.le(t, 0.99)))
    h = p[i + 1]; q = [p[i][j] + t * (h[j] - p[i][j]) for j in range(3)] + [1.0]; r = m.unsample(p, q)
    vc.check("found", not isinstance(r, bool))
    if not isinstance(r, bool): vc.check("parameter", vc.le(vc.abs(r * tot - (sum(sides[:i], 0.0) + t * sides[i])), 1e-4))

def seg_poly_ends(vc, p, u1, u2, m):
    s = m.segment(p, u1, u2)
    vc.check("starts at sample(u1)", vc.veq(s[0], m.sample(p, u1))); vc.check("ends at sample(u2)", vc.veq(s[-1], m.sample(p, u2)))
    return s
@contract("C03.poly_segment", ["yapcad.geom:segmentpoly", "yapcad.geom:segmentgeomlist", "yapcad.geom:segment"])
def poly_segment(vc):
    """the piece starts and ends at the corresponding samples, has the corresponding fraction of the length, in either direction, and passes through the vertices in between"""
    m = vc.mod(G)
    lens_ = [vc.real(n, 0.2, 5, pos=True) for n in ("a", "b", "c")]
    for x in lens_: vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    o = vc.point("o"); dirs = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    n = vc.choice("n", [2, 3]); p = [o]
    for i in range(n): p.append(vc.vadd(p[-1][:3], vc.vscale(dirs[i], lens_[i])) + [1.0])
    p0 = vc.snapshot(p); L = vc._sum(lens_[:n])
    u1 = vc.real("u1", 0, 1, strict=True); u2 = vc.real("u2", 0, 1, strict=True)
    vc.assume(vc.ge(vc.abs(u2 - u1), 1e-4))
    s = seg_poly_ends(vc, p, u1, u2, m)
    vc.check("length", vc.eq(m.polylength(s), vc.abs(u2 - u1) * L))
    vc.check("input spared", vc.same(p, p0))

@contract("C03.polygon_segment", ["yapcad.geom:segmentpoly"])
def polygon_segment(vc):
    """on a closed polygon a decreasing parameter pair takes the piece through the starting vertex; ending at 1 closes the figure"""
    m = vc.mod(G)
    a = vc.real("a", 0.2, 5, pos=True); b = vc.real("b", 0.2, 5, pos=True)
    for x in (a, b): vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    o = vc.point("o"); x, y, z, _ = o
    p = [o, [x + a, y, z, 1.0], [x + a, y + b, z, 1.0], [x, y + b, z, 1.0], list(o)]; p0 = vc.snapshot(p); L = 2.0 * (a + b)
    mode = vc.choice("mode", ["up", "wrap", "to1", "all"])
    u1 = 0.0 if mode == "all" else vc.real("u1", 0, 1, strict=True)
    u2 = 1.0 if mode in ("all", "to1") else vc.real("u2", 0, 1, strict=True)
    if mode == "all": pass
    elif mode == "to1": vc.assume(vc.and_(vc.ge(u1, 0.001), vc.le(u1, 0.999)))
    elif mode == "up": vc.assume(vc.ge(u2 - u1, 1e-3)); vc.assume(vc.le(u2, 0.999))
    else: vc.assume(vc.ge(u1 - u2, 1e-3)); vc.assume(vc.le(u1, 0.999)); vc.assume(vc.ge(u2, 0.001))
    s = seg_poly_ends(vc, p, u1, u2, m)
    frac = u2 - u1 if mode != "wrap" else u2 - u1 + 1.0
    vc.check("length", vc.eq(m.polylength(s), frac * L))
    vc.check("input spared", vc.same(p, p0))

# ---------------------------------------------------------------- geometry lists
def a_list(vc):
    """a line, an arc and a polyline piece (any sizes), optionally with points strewn in"""
    la = vc.real("la", 0.2, 5, pos=True); r = vc.real("r", 0.2, 5, pos=True); lb = vc.real("lb", 0.2, 5, pos=True)
    for x in (la, r, lb): vc.assume(vc.ge(x, 0.1)); vc.assume(vc.le(x, 100.0))
    o = vc.point("o"); x, y, z, _ = o
    line_ = [o, [x + la, y, z, 1.0]]
    arc_ = [[x + la, y + r, z, 1.0], [r, 270.0, 360.0, -1]]
    l2 = [[x + la + r, y + r, z, 1.0], [x + la + r, y + r + lb, z, 1.0]]
    gl = [line_, arc_, l2]; ls = [la, r * vc.pi / 2.0, lb]
    return gl, ls
@contract("C03.geomlist_sample", ["yapcad.geom:samplegeomlist", "yapcad.geom:sample", "yapcad.geom:length", "yapcad.geom:isgeomlist"])
def geomlist_sample(vc):
    """sampling a list of lines and arcs distributes the parameter by length over its elements; points do not count"""
    m = vc.mod(G); gl, ls = a_list(vc)
    ex = vc.choice("points", ["none", "first", "last", "between"])
    g2 = list(gl)
    pt = vc.point("pt")
    if ex == "first": g2 = [pt] + g2
    elif ex == "last": g2 = g2 + [pt]
    elif ex == "between": g2 = [g2[0], pt] + g2[1:]
    g0 = vc.snapshot(g2); T_ = vc._sum(ls); u = vc.real("u", 0, 1, strict=True)
    vc.check("length", vc.eq(m.length(g2), T_))
    q = m.sample(g2, u); s = u * T_
    if vc.case(vc.le(s, ls[0], tol=0, scale=0)): w = m.sampleline(gl[0], s / ls[0])
    elif vc.case(vc.le(s, ls[0] + ls[1], tol=0, scale=0)): w = m.samplearc(gl[1], (s - ls[0]) / ls[1])
    else: w = m.sampleline(gl[2], (s - ls[0] - ls[1]) / ls[2])
    vc.check("position", vc.veq(q, w))
    vc.check("input spared", vc.same(g2, g0))

@contract("C03.geomlist_unsample", ["yapcad.geom:unsamplegeomlist", "yapcad.geom:unsample"])
def geomlist_unsample(vc):
    """given what each element answers for the point, the list answers with the first element containing it, at the position weighted by length"""
    m = vc.mod(G); n = vc.choice("n", [1, 2, 3]); p = vc.point("p")
    gl = []; ls = []
    for i in range(n):
        w = vc.real("l%d" % i, 0.1, 5, pos=True); vc.assume(vc.ge(w, 1e-2)); ls.append(w)
        if vc.choice("kind%d" % i, ["line", "arc"]) == "arc": gl.append([[0.0, 0.0, 7.0 + i, 1.0], [w * 2.0 / vc.pi, 0.0, 90.0, -1]])
        else: gl.append([[0.0, 0.0, float(i), 1.0], [w, 0.0, float(i), 1.0]])
    ans = [False if vc.choice("off%d" % i, [True, False]) else vc.real("u%d" % i, -1, 2) for i in range(n)]
    vc.stub(G, "unsample", lambda g, q: ans[[k for k in range(n) if gl[k] is g][0]])
    if not vc.symbolic:
        import yapcad.geom as gm
        old = gm.unsample; gm.unsample = lambda g, q: ans[[k for k in range(n) if gl[k] is g][0]]
        try: r = gm.unsamplegeomlist(gl, p)
        finally: gm.unsample = old
    else: r = m.unsamplegeomlist(gl, p)
    if n == 1:
        vc.check("single", (r is False) if ans[0] is False else vc.eq(r, ans[0])); return
    T_ = vc._sum(ls); before = 0.0
    for i in range(n):
        if ans[i] is not False:
            hit = vc.and_(vc.ge(ans[i], 0.0, tol=0, scale=0), vc.le(ans[i], 1.0, tol=0, scale=0) if i == n - 1 else vc.lt(ans[i], 1.0, tol=0, scale=0))
            if vc.case(hit):
                vc.check("found", not isinstance(r, bool))
                if not isinstance(r, bool): vc.check("weighted by length", vc.eq(r * T_, before + ans[i] * ls[i]))
                return
        before = before + ls[i]
    vc.check("off every element", r is False)

@contract("C03.geomlist_segment", ["yapcad.geom:segmentgeomlist"])
def geomlist_segment(vc):
    """a piece of a list starts and ends at the corresponding samples and has the corresponding length (cut inside elements or exactly at joints)"""
    m = vc.mod(G); gl, ls = a_list(vc); g0 = vc.snapshot(gl); T_ = vc._sum(ls)
    joints = [ls[0] / T_, (ls[0] + ls[1]) / T_]
    def par(name, lits):
        k = vc.choice(name + ".at", ["inside", "joint0", "joint1", "end"])
        if k == "end": return lits
        if k == "joint0": return joints[0]
        if k == "joint1": return joints[1]
        u = vc.real(name, 0, 1, strict=True)
        for j in [0.0, 1.0] + joints: vc.assume(vc.ge(vc.abs(u - j), 1e-3))
        return u
    u1 = par("u1", 0.0); u2 = par("u2", 1.0); vc.assume(vc.ge(u2 - u1, 1e-3))
    rev = vc.choice("reverse", [False, True])
    s = m.segmentgeomlist(gl, u1, u2, reverse=rev)
    a, b = (u2, u1) if rev else (u1, u2)
    vc.check("starts", vc.veq(m.sample(s[0], 0.0), m.sample(gl, a))); vc.check("ends", vc.veq(m.sample(s[-1], 1.0), m.sample(gl, b)))
    vc.check("length", vc.eq(m.length(s), (u2 - u1) * m.length(gl)))
    vc.check("input spared", vc.same(gl, g0))

GYM = "yapcad.geometry:Geometry."
@contract("C03.figure_object", [GYM + n for n in ("sample", "unsample", "segment", "issampleable")])
def figure_object(vc):
    """a figure object samples, inverse-samples and cuts exactly as the figure it holds (a list of one figure as that figure), also after it moved; the cut piece is a list of figures"""
    Y, P = vc.mod("yapcad.geometry"), vc.mod("yapcad.geom"); k = vc.choice("kind", ["line", "arc", "poly", "list", "list of one"])
    x = {"line": lambda: pts(vc, "p", 2), "poly": lambda: pts(vc, "p", 3), "arc": lambda: [vc.point("c"), [2.0, 30.0, 130.0, -1]], "list": lambda: [pts(vc, "p", 2), pts(vc, "q", 2)], "list of one": lambda: [pts(vc, "p", 2)]}[k]()
    vc.hook(Y, "iscontinuousgeomlist", lambda e: True); vc.hook(Y, "isclosedgeomlist", lambda e: False); vc.hook(Y, "length", lambda e: 1.0); vc.hook(Y, "center", lambda e: [0.0, 0.0, 0.0, 1.0]); vc.hook(Y, "bbox", lambda e: [[0.0, 0.0, 0.0, 1.0]] * 2)
    if k == "poly": vc.assume(vc.ge(vc.norm2(vc.vsub(x[0][:3], x[2][:3])), 1e-6))
    got = []; S, U, G_ = vc.point("S"), vc.real("U"), object()
    vc.hook(Y, "sample", lambda e, u: (got.append(("sample", vc.snapshot(e), u)), S)[1]); vc.hook(Y, "unsample", lambda e, q: (got.append(("unsample", vc.snapshot(e), q)), U)[1])
    vc.hook(Y, "segmentgeomlist", lambda e, a, b, closed=False, reverse=False: (got.append(("segment", vc.snapshot(e), a, b, closed, reverse)), G_)[1])
    g = Y.Geometry(x); d = [1.0, 2.0, 3.0, 1.0]; e = x
    if vc.choice("moved", [False, True]): g.sample(0.5); del got[:]; g.translate(d); e = P.translate(x, d)
    u, v, q = vc.real("u", 0, 1), vc.real("v", 0, 1), vc.point("q_"); one = e[0] if k == "list of one" else e
    r = g.sample(u); vc.check("sampled", vc.and_(r is S, len(got) == 1, got[0][0] == "sample", vc.same(got[0][1], one), vc.eq(got[0][2], u))); del got[:]
    r = g.unsample(q); vc.check("unsampled", vc.and_(r is U, len(got) == 1, got[0][0] == "unsample", vc.same(got[0][1], one), vc.veq(got[0][2], q))); del got[:]
    rev = vc.choice("reverse", [False, True]); r = g.segment(u, v, rev); vc.check("cut", vc.and_(r is G_, len(got) == 1, vc.same(got[0][1], e if k in ("list", "list of one") else [e]), vc.eq(got[0][2], u), vc.eq(got[0][3], v), vc.not_(got[0][4]), got[0][5] is rev))
