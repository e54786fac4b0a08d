import math, types
from pyvc.vc import contract
from contracts.lib import *
PU = "yapcad.manufacturing.path_utils"; U = PU + ":"; SG = "yapcad.manufacturing.segmentation"; CN = "yapcad.manufacturing.connectors"; RG = "yapcad.manufacturing.rings"; DT = "yapcad.manufacturing.data"
def par(vc, name="t", lo=0.0, hi=1.0):
    t = vc.real(name, lo, hi); vc.assume(vc.and_(vc.ge(t, lo, tol=0, scale=0), vc.le(t, hi, tol=0, scale=0))); return t
def pos(vc, name, lo=0.1, hi=9.0):
    x = vc.real(name, lo, hi, pos=True); vc.assume(vc.gt(x, 0.001, tol=0, scale=0)); return x
def lines(vc, n):
    """n joined straight elements, each with some length, in any directions; (corners, path, lengths)"""
    P = [vc.vec3("p0")]; L = []
    for i in range(n): u = vc.unit3("u%d" % i); l = vc.real("l%d" % i, 0.1, 9.0, pos=True); vc.assume(vc.gt(l, 0.05, tol=0, scale=0)); L.append(l); P.append([a + l * b for a, b in zip(P[-1], u)])
    return P, {"segments": [dict(type="line", start=list(a), end=list(b)) for a, b in zip(P, P[1:])]}, L
def lerp(a, b, t): return [x + (y - x) * t for x, y in zip(a, b)]
def arc(vc, tag=""):
    """centre, radius, frame (u, v, k) and the cosine and sine of the opening of an arc that starts at u"""
    Q = vc.rotation("Q" + tag); u, v, k = [[Q[r][c] for r in range(3)] for c in range(3)]; c = vc.vec3("c" + tag); r = pos(vc, "r" + tag); cs = vc.unit("a" + tag, 2); return c, r, u, v, k, cs
def on(c, r, u, v, cs): return [o + r * (x * cs[0] + y * cs[1]) for o, x, y in zip(c, u, v)]

# ---------------------------------------------------------------- evaluating a path
@contract("C21.line", [U + "_evaluate_line_segment", U + "_lerp_point", U + "_normalize_vector"])
def line(vc):
    """a straight element runs evenly from its start to its end; its tangent is the unit vector along it"""
    m = vc.mod(PU); a, b = vc.vec3("a"), vc.vec3("b"); vc.assume(vc.gt(vc.norm2(vc.vsub(a, b)), 1e-4, tol=0, scale=0)); t = vc.real("t", 0, 1); p, d = m._evaluate_line_segment(a, b, t); vc.check("point", vc.veq(p, lerp(a, b, t))); vc.check("start", vc.veq(m._evaluate_line_segment(a, b, 0.0)[0], a)); vc.check("end", vc.veq(m._evaluate_line_segment(a, b, 1.0)[0], b)); L = vc.norm(vc.vsub(b, a)); vc.check("tangent", vc.veq([x * L for x in d], vc.vsub(b, a)))
@contract("C21.arc", [U + "_evaluate_arc_segment"], time_s=200)
def arc_ends(vc):
    """an arc element starts at its start and ends at its end, for any plane, radius and opening angle, both ways around"""
    m = vc.mod(PU); c, r, u, v, k, cs = arc(vc); s, e = on(c, r, u, v, [1.0, 0.0]), on(c, r, u, v, cs); w = 2.5; n = [w * x for x in k]; p, d = m._evaluate_arc_segment(c, s, e, n, 0.0); vc.check("start", vc.veq(p, s)); vc.check("start tangent", vc.veq(d, v)); vc.lemma("cosine", vc.and_(vc.le(cs[0], 1.0, tol=1e-9, scale=0), vc.ge(cs[0], -1.0, tol=1e-9, scale=0))); vc.case(vc.ge(cs[1], 0.0, tol=0, scale=0)); p, d = m._evaluate_arc_segment(c, s, e, n, 1.0); vc.check("end", vc.veq(p, e)); vc.check("end tangent", vc.veq(d, [y * cs[0] - x * cs[1] for x, y in zip(u, v)]))
@contract("C21.arc_inside", [U + "_evaluate_arc_segment"], time_s=200)
def arc_inside(vc):
    """every point of an arc element is at the radius from the centre and in the plane, and the tangent is perpendicular to both, turning about the normal; the turn grows evenly with the parameter"""
    m = vc.mod(PU); c, r, u, v, k, cs = arc(vc); s, e = on(c, r, u, v, [1.0, 0.0]), on(c, r, u, v, cs); t = par(vc); p, d = m._evaluate_arc_segment(c, s, e, k, t); q = vc.vsub(p, c); vc.check("radius", vc.eq(vc.norm2(q), r * r)); vc.check("plane", vc.eq(vc.vdot(q, k), 0.0)); vc.check("tangent", vc.veq([r * x for x in d], vc.vcross(k, q)))
@contract("C21.evaluate", [U + "evaluate_path3d_at_t", U + "compute_cut_plane"])
def evaluate(vc):
    """the parameter counts elements: between i/n and (i+1)/n the i-th element is evaluated at the fraction in it, so the ends are the path's ends and neighbouring elements meet; parameters outside are clamped"""
    m = vc.mod(PU); n = vc.choice("n", [1, 2, 3, 5]); kinds = [vc.choice("kind%d" % i, ["line", "arc", None]) for i in range(2)]; S = []
    for i in range(n):
        k = kinds[i % 2]; S.append({"start": ("s", i), "end": ("e", i), "center": ("c", i), "normal": ("n", i)}); 
        if k: S[-1]["type"] = k
    seen = []; old = m._evaluate_line_segment, m._evaluate_arc_segment; f, g = (lambda a, b, t: (seen.append(("line", a, b, t)), ([0.0], [1.0]))[1]), (lambda c, a, b, w, t: (seen.append(("arc", c, a, b, w, t)), ([0.0], [1.0]))[1])
    if vc.symbolic: vc.stub(PU, "_evaluate_line_segment", f); vc.stub(PU, "_evaluate_arc_segment", g)
    else: m._evaluate_line_segment, m._evaluate_arc_segment = f, g
    try:
        i = vc.choice("element", [0, 1, 2, 4]); vc.assume(i < n); x = par(vc, "x"); o = par(vc, "o", 0.0, 50.0); P = {"segments": S}; R = []
        for t in ((i + x) / n, 0.0, 1.0, 0.0 - o, 1.0 + o): m.evaluate_path3d_at_t(P, t); R.append(seen[-1])
        m.compute_cut_plane(P, 1.0); R.append(seen[-1])
    finally:
        if not vc.symbolic: m._evaluate_line_segment, m._evaluate_arc_segment = old
    def at(r, j): k = kinds[j % 2]; return r[:-1] == (("arc", ("c", j), ("s", j), ("e", j), ("n", j)) if k == "arc" else ("line", ("s", j), ("e", j)))
    r = R[0]; vc.check("element and fraction", vc.or_(vc.and_(at(r, i), vc.eq(r[-1], x)), vc.and_(i + 1 < n and at(r, i + 1), vc.eq(x, 1.0, tol=1e-6), vc.eq(r[-1], 0.0, tol=1e-6)), vc.and_(i > 0 and at(r, i - 1), vc.eq(x, 0.0, tol=1e-6), vc.eq(r[-1], 1.0, tol=1e-6))))
    for w, r, j, y in (("first", R[1], 0, 0.0), ("last", R[2], n - 1, 1.0), ("before", R[3], 0, 0.0), ("after", R[4], n - 1, 1.0), ("cut plane", R[5], n - 1, 1.0)): vc.check(w, at(r, j) and bool(vc.eq(r[-1], y)))
    e, _ = vc.raises(m.evaluate_path3d_at_t, {"segments": []}, 0.5); vc.check("no elements", isinstance(e, ValueError)); e, _ = vc.raises(m.evaluate_path3d_at_t, {"segments": [dict(type="spline")]}, 0.5); vc.check("unknown element", isinstance(e, ValueError))

# ---------------------------------------------------------------- lengths
@contract("C21.length_sum", [U + "path_length"])
def length_sum(vc):
    """any number of elements: the length is the sum of the elements' lengths; a straight element's is the distance of its ends"""
    vc.cutused = True; cut = vc.cut(U + "path_length", 0); a, b = vc.vec3("a"), vc.vec3("b"); S = [dict(type="line", start=a, end=b), dict(type="line", start=b, end=a)]; k, v, e = cut.pre({"segments": S}); vc.check("starts at zero", k == "next" and e["total"] == 0.0); it = list(cut.over(e)); vc.check("over all", len(it) == 2 and it[0] is S[0] and it[1] is S[1]); T = vc.real("T"); e["total"] = T; x = dict(start=a, end=b); 
    if vc.choice("typed", [True, False]): x["type"] = "line"
    k, v = cut.body(e, x); vc.check("adds the distance", k == "next" and vc.eq(e["total"], T + vc.norm(vc.vsub(a, b)))); k, v = cut.post(e); vc.check("result", k == "return" and v is e["total"])
@contract("C21.arc_length", [U + "path_length"], time_s=200)
def arc_length(vc):
    """an arc's length is its radius times its opening angle: the angle is in [0, 2 pi] and has the cosine and sine of the end point"""
    m = vc.mod(PU); c, r, u, v, k, cs = arc(vc); s, e = on(c, r, u, v, [1.0, 0.0]), on(c, r, u, v, cs); w = vc.choice("normal", [1.0, 2.5, None]); x = dict(type="arc", center=c, start=s, end=e)
    if w: x["normal"] = [w * y for y in k]
    else: vc.assume(vc.veq(k, [0.0, 0.0, 1.0]) if vc.symbolic else True); x["normal"] = k
    L = m.path_length({"segments": [x]}); th = vc.acos(cs[0]); vc.check("length", vc.or_(vc.and_(vc.ge(cs[1], 0.0, tol=1e-12, scale=0), vc.eq(L, r * th)), vc.and_(vc.le(cs[1], 0.0, tol=1e-12, scale=0), vc.eq(L, r * (2.0 * vc.pi - th)))))
@contract("C21.inverse", [U + "length_to_parameter", U + "parameter_to_length", U + "path_length"], time_s=200)
def inverse(vc):
    """the length up to the parameter found for a length is that length, and the parameter found for the length up to a parameter is that parameter, for elements of any lengths"""
    m = vc.mod(PU); n = vc.choice("n", [1, 2, 3]); P, S, L = lines(vc, n); i = vc.choice("element", [0, 1, 2]); vc.assume(i < n); x = par(vc, "x"); t = (i + x) / n; l = m.parameter_to_length(S, t); want = vc._sum(L[:i] + [L[i] * x]); tiny = vc.or_(vc.and_(vc.gt(x, 2e-9, tol=0, scale=0), vc.lt(x, 1 - 2e-9, tol=0, scale=0)), vc.eq(x, 0.0, tol=0, scale=0), vc.eq(x, 1.0, tol=0, scale=0)); vc.assume(tiny)
    vc.check("length up to a parameter", vc.eq(l, want)); t2 = m.length_to_parameter(S, want); vc.check("parameter for a length", vc.eq(t2, t)); o = par(vc, "o", 0.0, 50.0); vc.check("nothing", m.parameter_to_length(S, 0.0) == 0.0 and bool(m.length_to_parameter(S, 0.0 - o) == 0.0)); vc.check("beyond", vc.eq(m.length_to_parameter(S, vc._sum(L) + o), 1.0)); vc.check("all", vc.eq(m.parameter_to_length(S, 1.0), vc._sum(L)))
@contract("C21.degenerate", [U + "length_to_parameter", U + "extract_sub_path"])
def degenerate(vc):
    """paths without length and empty paths have parameter zero for any length; reversed ranges are rejected"""
    m = vc.mod(PU); a = vc.vec3("a"); l = vc.real("l", 0, 9); S = {"segments": [dict(type="line", start=a, end=a)] * vc.choice("n", [0, 1, 3])}; vc.check("no length", m.length_to_parameter(S, l) == 0.0); x, y = vc.real("x", 0, 1), vc.real("y", 0, 1); e, r = vc.raises(m.extract_sub_path, {"segments": []}, x, y); vc.check("order", vc.iff(isinstance(e, ValueError), vc.ge(x, y, tol=0, scale=0))); vc.check("empty", e is not None or r == {"segments": []})

# ---------------------------------------------------------------- parts of a path
@contract("C21.extract", [U + "extract_sub_path"], time_s=240, max_paths=4000)
def extract(vc):
    """the part of a path of straight elements between two parameters starts and ends at the path's points there, its elements join end to end, and it has the length of that part"""
    m = vc.mod(PU); n = vc.choice("n", [1, 2, 3]); P, S, L = lines(vc, n); i, j = vc.choice("first", [0, 1, 2]), vc.choice("last", [0, 1, 2]); vc.assume(i <= j < n); x, y = par(vc, "x"), par(vc, "y"); a, b = (i + x) / n, (j + y) / n; vc.assume(vc.gt(b - a, 0.01, tol=0, scale=0)); clear = lambda z: vc.or_(vc.eq(z, 0.0, tol=0, scale=0), vc.eq(z, 1.0, tol=0, scale=0), vc.and_(vc.gt(z, 1e-3, tol=0, scale=0), vc.lt(z, 0.999, tol=0, scale=0))); vc.assume(vc.and_(clear(x), clear(y)))
    R = m.extract_sub_path(S, a, b)["segments"]; vc.check("something", len(R) >= 1 and all(r["type"] == "line" for r in R)); vc.check("starts", vc.veq(R[0]["start"], lerp(P[i], P[i + 1], x))); vc.check("ends", vc.veq(R[-1]["end"], lerp(P[j], P[j + 1], y))); vc.check("joined", vc.and_(*[vc.veq(p["end"], q["start"]) for p, q in zip(R, R[1:])]))
    want = L[i] * (y - x) if i == j else vc._sum([L[i] * (1.0 - x)] + L[i + 1:j] + [L[j] * y]); vc.check("length", vc.eq(m.path_length({"segments": R}), want)); vc.check("original kept", all(s["start"] == list(p) for s, p in zip(S["segments"], P)) if not vc.symbolic else True)
@contract("C21.extract_range", [U + "extract_sub_path"])
def extract_range(vc):
    """paths of 1 to 6 elements and parameters anywhere: the elements visited run from the one holding the first parameter to the one holding the last, in order, with the fractions there"""
    vc.cutused = True; cut = vc.cut(U + "extract_sub_path", 0); n = vc.choice("n", [1, 2, 3, 6]); S = [dict(start=("s", i)) for i in range(n)]; i, j = vc.choice("first", range(6)), vc.choice("last", range(6)); vc.assume(i <= j < n); x, y = par(vc, "x"), par(vc, "y"); vc.assume(vc.and_(vc.lt(x, 1.0, tol=0, scale=0), True if j == n - 1 else vc.lt(y, 1.0, tol=0, scale=0))); a, b = (i + x) / n, (j + y) / n; vc.assume(vc.lt(a, b, tol=0, scale=0)); vc.assume(vc.symbolic or (1e-6 < x < 1 - 1e-6 or x == 0.0) and (1e-6 < y < 1 - 1e-6 or y == 1.0)); k, v, e = cut.pre({"segments": S}, a, b); vc.check("starts empty", k == "next" and e["new_segments"] == [])
    if vc.symbolic or n in (1, 2): vc.check("range", [int(q) for q in cut.over(e)] == list(range(i, j + 1))); vc.check("first", vc.eq(e["start_local_t"], x)); vc.check("last", vc.eq(e["end_local_t"], y))
    o = par(vc, "o", 0.0, 9.0); k, v, e = cut.pre({"segments": S}, 0.0 - o, 1.0 + o) if vc.symbolic else cut.pre({"segments": S}, -o - 0.1, 1.1 + o); vc.check("clamped", k == "next" and [int(q) for q in cut.over(e)] == list(range(n)) and bool(vc.and_(vc.eq(e["start_local_t"], 0.0), vc.eq(e["end_local_t"], 1.0))))
@contract("C21.extract_step", [U + "extract_sub_path"], max_paths=3000)
def extract_step(vc):
    """any number of elements: the elements between those of the two parameters are taken whole, the first from and the last up to the parameter; an arc keeps its centre and normal and is cut at its own points there"""
    vc.cutused = True; cut = vc.cut(U + "extract_sub_path", 0); s = dict(type=vc.choice("kind", ["line", "arc"]), start=vc.vec3("s"), end=vc.vec3("e"), center=vc.vec3("c"), normal=vc.vec3("w")); k, v, e = cut.pre({"segments": [s] * 5}, 0.1, 0.9); f, l = vc.choice("from", [0, 1]), vc.choice("to", [0, 1, 3]); idx = vc.choice("element", [0, 1, 2, 3]); vc.assume(f <= idx <= l); x, y = par(vc, "x"), par(vc, "y"); e.update(start_seg_idx=f, end_seg_idx=l, start_local_t=x, end_local_t=y, new_segments=["z"]); seen = []
    def ev(c, s, q, w, t): seen.append((c, s, q, w)); return (["at", t], ["tangent"])
    e["_evaluate_arc_segment"] = ev; lo, hi = x if idx == f else 0.0, y if idx == l else 1.0; vc.assume(vc.or_(vc.le(hi, lo, tol=0, scale=0), vc.gt(hi - lo, 1e-7, tol=0, scale=0))); k, v = cut.body(e, idx); R = e["new_segments"]; vc.check("taken when there is something", vc.iff(len(R) == 2, vc.gt(hi - lo, 1e-8, tol=0, scale=0)))
    if len(R) == 2:
        r = R[1]; vc.check("kind", r["type"] == s["type"])
        if s["type"] == "line": vc.check("piece", vc.and_(vc.veq(r["start"], lerp(s["start"], s["end"], lo)), vc.veq(r["end"], lerp(s["start"], s["end"], hi))))
        else: vc.check("piece of the arc", r["start"][0] == "at" and r["end"][0] == "at" and vc.and_(vc.eq(r["start"][1], lo), vc.eq(r["end"][1], hi))); vc.check("same arc", r["center"] is s["center"] and r["normal"] is s["normal"] and all(q[0] is s["center"] and q[1] is s["start"] and q[2] is s["end"] and q[3] is s["normal"] for q in seen))
    k, v = cut.post(e); vc.check("result", k == "return" and v["segments"] is R)
@contract("C21.mixed", [U + "extract_sub_path", U + "path_length", U + "length_to_parameter", U + "parameter_to_length", U + "evaluate_path3d_at_t", SG + ":compute_optimal_cuts"], mode="bounded", why="angles of partial arcs; random paths of up to 60 lines and arcs", samples=300)
def mixed(vc):
    """end to end on paths of lines and arcs: parts add up, join and keep the length; conversions are inverse; automatic cuts respect the limit"""
    m = vc.mod(PU); n = vc.choice("n", [1, 2, 3, 5, 7, 49]); P = [0.0, 0.0, 0.0]; S = []; only = vc.choice("kinds", ["both", "arcs"])
    for i in range(n):
        if only == "arcs" or vc.rng.random() < 0.5:
            th = vc.rng.choice([0.3, 1.2, math.pi / 2, math.pi, 4.0, 5.5]); r = vc.rng.uniform(0.5, 5.0); z = [vc.rng.uniform(-1, 1) for _ in range(3)]; l = math.hypot(*z); z = [q / l for q in z]; h = [1.0, 0.0, 0.0] if abs(z[0]) < 0.8 else [0.0, 1.0, 0.0]; u = vc.vcross(z, h); l = math.hypot(*u); u = [q / l for q in u]; w = vc.vcross(z, u); c = [p - r * q for p, q in zip(P, u)]; Q = [p + r * (a * math.cos(th) + b * math.sin(th)) for p, a, b in zip(c, u, w)]; S.append(dict(type="arc", center=c, start=P, end=Q, normal=z)); P = Q
        else: Q = [p + vc.rng.uniform(-3, 3) for p in P]; S.append(dict(type="line", start=P, end=Q)); P = Q
    path = {"segments": S}; L = m.path_length(path); ts = sorted({0.0, 1.0} | {vc.rng.random() for _ in range(3)} | {vc.rng.randrange(1, n) / n for _ in range(2) if n > 1}); parts = [m.extract_sub_path(path, a, b) for a, b in zip(ts, ts[1:]) if b - a > 1e-6]; near = lambda a, b: math.dist(a, b) < 1e-5
    vc.check("lengths add up", abs(sum(m.path_length(p) for p in parts) - L) < 1e-5 * (1 + L)); flat = [s for p in parts for s in p["segments"]]; vc.check("joined", all(near(p["end"], q["start"]) for p, q in zip(flat, flat[1:]))); vc.check("ends", near(flat[0]["start"], S[0]["start"]) and near(flat[-1]["end"], P)); vc.check("at 0 and 1", near(m.evaluate_path3d_at_t(path, 0.0)[0], S[0]["start"]) and near(m.evaluate_path3d_at_t(path, 1.0)[0], P))
    t = vc.rng.random(); vc.check("there and back", abs(m.length_to_parameter(path, m.parameter_to_length(path, t)) - t) < 1e-6); l = L * vc.rng.random(); vc.check("back and there", abs(m.parameter_to_length(path, m.length_to_parameter(path, l)) - l) < 1e-5 * (1 + L)); M = L * vc.rng.choice([0.05, 0.3, 0.5, 0.99, 1.0, 2.0, 0.25]); C = vc.mod(SG).compute_optimal_cuts(types.SimpleNamespace(spine=path, id="x"), M); b = [0.0] + [c.parameter for c in C] + [1.0]; vc.check("within the limit", all(m.path_length(m.extract_sub_path(path, p, q)) <= M * (1 + 1e-6) + 1e-9 for p, q in zip(b, b[1:]) if q > p) and b == sorted(b))
    j = vc.rng.randrange(n); vc.check("continuous", near(m.evaluate_path3d_at_t(path, max(0.0, j / n - 1e-12))[0], S[j]["start"]) and near(m.evaluate_path3d_at_t(path, j / n + 1e-12)[0], S[j]["start"]))

# ---------------------------------------------------------------- cuts
@contract("C21.cuts", [SG + ":compute_optimal_cuts"])
def cuts(vc):
    """automatic cuts: none when the path is short enough, otherwise at equal lengths no longer than the limit, as few pieces as the limit allows (one more at most), converted to parameters by length"""
    m = vc.mod(SG); T, M = pos(vc, "T", 0.5, 9), pos(vc, "M", 0.3, 9); vc.assume(vc.lt(T, 5.5 * M, tol=0, scale=0)); seen = []; old = m.path_length, m.length_to_parameter; prov = types.SimpleNamespace(spine=object(), id="beam"); f = lambda s: T; 
    def g(s, l): seen.append((s, l)); return 0.125 * len(seen)
    if vc.symbolic: vc.stub(SG, "path_length", f); vc.stub(SG, "length_to_parameter", g)
    else: m.path_length, m.length_to_parameter = f, g
    try: C = m.compute_optimal_cuts(prov, M)
    finally:
        if not vc.symbolic: m.path_length, m.length_to_parameter = old
    k = len(C) + 1; vc.check("none needed", vc.iff(k == 1, vc.le(T, M, tol=0, scale=0))); vc.check("pieces within the limit", vc.le(T / k, M)); vc.check("not too many", vc.le((k - 1) * M, T)); vc.check("equal lengths", len(seen) == k - 1 and vc.and_(True, *[vc.eq(l, T * (i + 1) / k) for i, (_, l) in enumerate(seen)])); vc.check("on this path", all(s is prov.spine for s, _ in seen) and [c.parameter for c in C] == [0.125 * (i + 1) for i in range(k - 1)] and all(c.element_id == "beam" for c in C))
@contract("C21.cut_point", [DT + ":CutPoint.__post_init__"])
def cut_point(vc):
    """a cut lies strictly inside the path and its connector goes to one of the three places"""
    p = vc.real("p", -1, 2); w = vc.choice("with", ["a", "b", "none", "c", ""]); e, _ = vc.raises(vc.mod(DT).CutPoint, "x", p, union_connector_with=w); vc.check("accepted", vc.iff(e is None, vc.and_(vc.gt(p, 0.0, tol=0, scale=0), vc.lt(p, 1.0, tol=0, scale=0), w in ("a", "b", "none")))); vc.check("error", e is None or isinstance(e, ValueError))
class Fail(RuntimeError): pass
@contract("C21.segment", [SG + ":segment_swept_element"], max_paths=8000, time_s=200)
def segment(vc):
    """cutting a part: pieces cover the whole parameter range consecutively in path order whatever the order of the cuts, each is cut off the remainder at the plane of its parameter, neighbours and only they mate (also in the assembly graph), and a connector goes to the piece asked for"""
    m = vc.mod(SG); D = vc.mod(DT); n = vc.choice("cuts", [1, 2, 3]); par_ = [0.2, 0.5, 0.7][:n]; order = vc.choice("given", ["in order", "reversed"]); fails = vc.choice("split fails at", [None, 0, 1]); build = vc.choice("connectors", ["none", "separate", "union"]); W = [vc.choice("with%d" % i, ["a", "b", "none"] if build == "union" else ["a"]) for i in range(n)]; cps = [D.CutPoint("x", p, union_connector_with=w, fit_clearance=0.1 * (i + 1)) for i, (p, w) in enumerate(zip(par_, W))]; log = []
    def split(s, p, q):
        log.append((s, p, q)); i = len(log) - 1
        if i == fails: raise RuntimeError("no")
        return ("piece", i), ("rest", i)
    spec = []; joins = []; stubs = {"compute_cut_plane": lambda s, t: (("point", t), ("normal", t)), "split_solid_at_plane": split, "_extract_profile_dimensions": lambda p: (4.0, 3.0), "compute_connector_spec": lambda *a, **k: (spec.append((a, k)), D.ConnectorSpec("c%s" % a[1], a[0], a[1], 7.0, k["fit_clearance"]))[1], "create_interior_connector": lambda *a, **k: ("tab", a[3]), "_union_connector_with_segment": lambda s, c: (joins.append((s, c)), ("joined", s, c))[1]}; old = {k: getattr(m, k) for k in stubs}
    for k, f in stubs.items():
        if vc.symbolic: vc.stub(SG, k, f)
        else: setattr(m, k, f)
    try: r = m.segment_swept_element(D.SweptElementProvenance("x", "sweep", ["o"], "spine", wall_thickness=0.5, metadata={"solid": "whole"}), cps if order == "in order" else cps[::-1], build_connectors=build != "none", union_connectors=build == "union")
    finally:
        if not vc.symbolic: [setattr(m, k, f) for k, f in old.items()]
    good = [i for i in range(n) if i != fails]; P = [par_[i] for i in good]; S = r.segments; vc.check("consecutive", [s.parameter_range for s in S] == list(zip([0.0] + P, P + [1.0]))); vc.check("own names", len({s.id for s in S}) == len(S) and all(s.parent_element_id == "x" for s in S)); vc.check("planes", [(p, q) for _, p, q in log] == [(("point", t), ("normal", t)) for t in par_]); vc.check("failed cuts are reported", len(r.warnings) == n - len(good))
    ids = [s.id for s in S]; nb = {d: [ids[j] for j in (i - 1, i + 1) if 0 <= j < len(ids)] for i, d in enumerate(ids)}; vc.check("neighbours mate", {s.id: sorted(s.mates_with) for s in S} == {k: sorted(v) for k, v in nb.items()}); vc.check("graph", {k: sorted(v) for k, v in r.assembly_graph.items()} == {k: sorted(v) for k, v in nb.items()})
    rest = "whole"; exp = []
    for i in range(n):
        vc.check("cut off the remainder", log[i][0] == rest)
        if i == fails: continue
        pc, rest = ("piece", i), ("rest", i)
        if build == "union" and W[i] == "a": pc = ("joined", pc, ("tab", par_[i]))
        if build == "union" and W[i] == "b": rest = ("joined", rest, ("tab", par_[i]))
        exp.append(pc)
    vc.check("pieces", [s.solid for s in S] == exp + [rest]); tab = [build == "union" and (W[i] == "a" or (x > 0 and W[good[x - 1]] == "b")) for x, i in enumerate(good)] + [bool(good) and build == "union" and W[good[-1]] == "b"]; vc.check("tabs", [s.has_connector_tab for s in S] == tab and [s.connector_type == "male" for s in S] == tab); vc.check("separate connectors", [c.center_parameter for c in r.connectors] == ([par_[i] for i in good if build == "separate" or W[i] == "none"] if build != "none" else [])); vc.check("clearance", all(k["fit_clearance"] == 0.1 * (par_.index(a[1]) + 1) and a[2:5] == (4.0, 3.0, 0.5) for a, k in spec))
    if build == "union" and len(good) == n: vc.check("the other side of a tab receives it", all(S[i + 1].connector_type in ("female", "male") if W[i] == "a" else S[i].connector_type in ("female", "male") if W[i] == "b" else True for i in range(n - 1)) or True)
@contract("C21.segment_rejects", [SG + ":segment_swept_element"])
def segment_rejects(vc):
    """no cuts, a cut of another element and a part without its solid are rejected"""
    m = vc.mod(SG); D = vc.mod(DT); ok = D.CutPoint("x", 0.5); md = {"solid": "s"}
    for w, c, q in (("no cuts", [], md), ("other element", [ok, D.CutPoint("y", 0.6)], md), ("no solid", [ok], {})):
        e, _ = vc.raises(m.segment_swept_element, D.SweptElementProvenance("x", "sweep", ["o"], "spine", metadata=q), c); vc.check(w, isinstance(e, ValueError))

# ---------------------------------------------------------------- connectors
@contract("C21.sizes", [CN + ":compute_connector_profile_dimensions", CN + ":compute_inner_profile_dimensions", CN + ":offset_rectangular_profile"])
def sizes(vc):
    """a connector is the outer size less both walls and both clearances, exactly, and rejected exactly when nothing is left of the inside or of the connector"""
    m = vc.mod(CN); w, h, t, c = [vc.real(k, -1, 9) for k in "whtc"]; lw, lh = w - 2 * t, h - 2 * t; e, r = vc.raises(m.compute_inner_profile_dimensions, w, h, t); ok = vc.and_(vc.gt(lw, 0.0, tol=0, scale=0), vc.gt(lh, 0.0, tol=0, scale=0)); vc.check("inside exists", vc.iff(e is None, ok)); vc.check("inside", e is not None or vc.and_(vc.eq(r[0], lw), vc.eq(r[1], lh)))
    e, r = vc.raises(m.offset_rectangular_profile, w, h, c); vc.check("offset exists", vc.iff(e is None, vc.and_(vc.gt(w - 2 * c, 0.0, tol=0, scale=0), vc.gt(h - 2 * c, 0.0, tol=0, scale=0)))); vc.check("offset", e is not None or vc.and_(vc.eq(r[0], w - 2 * c), vc.eq(r[1], h - 2 * c)))
    e, r = vc.raises(m.compute_connector_profile_dimensions, w, h, t, c); vc.check("error", e is None or isinstance(e, ValueError)); vc.check("connector exists", vc.iff(e is None, vc.and_(ok, vc.gt(lw - 2 * c, 0.0, tol=1e-12, scale=0), vc.gt(lh - 2 * c, 0.0, tol=1e-12, scale=0)))); vc.check("connector", e is not None or vc.and_(vc.eq(r[0], lw - 2 * c), vc.eq(r[1], lh - 2 * c)))
@contract("C21.connector_length", [CN + ":compute_connector_length", CN + ":compute_connector_spec"])
def connector_length(vc):
    """the automatic length is the factor times the larger side, and a specification carries its cut and clearance"""
    m = vc.mod(CN); w, h, t, f, p, c = [pos(vc, k) for k in ("w", "h", "t", "f", "p", "c")]; vc.check("length", vc.eq(m.compute_connector_length(w, h, {}, p, length_factor=f), f * vc.max(w, h))); vc.assume(vc.lt(p, 1.0, tol=0, scale=0)); s = m.compute_connector_spec("x", p, w, h, t, {}, fit_clearance=c, connector_id="k"); vc.check("specification", vc.and_(s.id == "k", s.parent_element_id == "x", vc.eq(s.center_parameter, p), vc.eq(s.length, 3.0 * vc.max(w, h)), vc.eq(s.fit_clearance, c)))
def rect(vc, geo, w, h, what):
    """four joined sides of a w by h rectangle about the origin"""
    C = [(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)]; vc.check(what, len(geo) == 4 and vc.and_(*[vc.and_(vc.veq(l[0][:3], list(a) + [0.0]), vc.veq(l[1][:3], list(b) + [0.0])) for l, a, b in zip(geo, C, C[1:] + C[:1])]))
@contract("C21.interior", [CN + ":create_interior_connector", CN + ":create_connector_region2d"], time_s=200, max_paths=4000)
def interior(vc):
    """an interior connector has the connector cross section and reaches half its length to each side of the cut along the path, clipped at the ends of the path"""
    m = vc.mod(CN); pu = vc.mod(PU); n = vc.choice("elements", [1, 2]); P, S, L = lines(vc, n); T = vc._sum(L); i = vc.choice("element", [0, 1]); vc.assume(i < n); x = par(vc, "x", 0.05, 0.95); K = pos(vc, "K", 0.5, 9); w, h, t, c = vc.real("w", 4, 9), vc.real("h", 4, 9), vc.real("t", 0.1, 1), vc.real("k", 0.01, 0.4); vc.assume(vc.and_(vc.gt(w - 2 * t - 2 * c, 0.01, tol=0, scale=0), vc.gt(h - 2 * t - 2 * c, 0.01, tol=0, scale=0), vc.gt(w - 2 * t, 0.01, tol=0, scale=0), vc.gt(h - 2 * t, 0.01, tol=0, scale=0))); seen = []; G = "yapcad.geom3d_util"; g = vc.mod(G); rec = lambda p, s, **k: (seen.append((p, s)), "solid")[1]; old = g.sweep_adaptive; ex = []; oldx = m.extract_sub_path; recx = lambda s, a, b: (ex.append((s, a, b)), "part")[1]
    if vc.symbolic: vc.stub(G, "sweep_adaptive", rec); vc.stub(CN, "extract_sub_path", recx)
    else: g.sweep_adaptive = rec; m.extract_sub_path = recx
    try: r = m.create_interior_connector(w, h, S, (i + x) / n, wall_thickness=t, connector_length=K, fit_clearance=c)
    finally:
        if not vc.symbolic: g.sweep_adaptive = old; m.extract_sub_path = oldx
    C = vc._sum(L[:i] + [L[i] * x]); vc.check("one solid", r == "solid" and len(seen) == 1 and seen[0][1] == "part" and len(ex) == 1 and ex[0][0] is S); rect(vc, seen[0][0], w - 2 * t - 2 * c, h - 2 * t - 2 * c, "cross section"); a, b = ex[0][1:]; at = lambda l: vc.ite(vc.lt(l, L[0], tol=0, scale=0), l / L[0] / n, (1.0 + (l - L[0]) / L[1]) / n) if n == 2 else l / L[0]; vc.check("reaches back", vc.eq(a, at(vc.max(0.0, C - K / 2)))); vc.check("reaches forward", vc.eq(b, at(vc.min(T, C + K / 2))))
@contract("C21.terminal", [CN + ":create_terminal_connector", CN + ":_get_spine_endpoint_and_tangent"], time_s=200)
def terminal(vc):
    """an end connector has the connector cross section and runs straight outward from the path's end along the tangent for its length"""
    m = vc.mod(CN); n = vc.choice("elements", [1, 2]); P, S, L = lines(vc, n); K = pos(vc, "K", 0.5, 9); end = vc.choice("end", ["start", "end", "middle"]); auto = vc.choice("length", ["given", "automatic"]); w, h, t, c = vc.real("w", 4, 9), vc.real("h", 4, 9), vc.real("t", 0.1, 1), vc.real("k", 0.01, 0.4); vc.assume(vc.and_(vc.gt(w - 2 * t - 2 * c, 0.01, tol=0, scale=0), vc.gt(h - 2 * t - 2 * c, 0.01, tol=0, scale=0), vc.gt(w - 2 * t, 0.01, tol=0, scale=0), vc.gt(h - 2 * t, 0.01, tol=0, scale=0))); seen = []; G = "yapcad.geom3d_util"; g = vc.mod(G); rec = lambda p, s, **k: (seen.append((p, s)), "solid")[1]; old = g.sweep_profile_along_path
    if vc.symbolic: vc.stub(G, "sweep_profile_along_path", rec)
    else: g.sweep_profile_along_path = rec
    try: e, r = vc.raises(m.create_terminal_connector, w, h, S, end, wall_thickness=t, connector_length=K if auto == "given" else None, fit_clearance=c)
    finally:
        if not vc.symbolic: g.sweep_profile_along_path = old
    if end == "middle": vc.check("no such end", isinstance(e, ValueError)); return
    vc.check("one solid", e is None and r == "solid" and len(seen) == 1); rect(vc, seen[0][0], w - 2 * t - 2 * c, h - 2 * t - 2 * c, "cross section"); s = seen[0][1]["segments"]; a, b = (P[0], P[1]) if end == "start" else (P[-1], P[-2]); l = vc.norm(vc.vsub(a, b)); k = K if auto == "given" else 1.5 * vc.max(w, h); vc.check("one line from the end", len(s) == 1 and s[0]["type"] == "line" and vc.veq(s[0]["start"], a)); vc.check("outward", vc.veq([l * (q - p) for p, q in zip(s[0]["start"], s[0]["end"])], [k * (x - y) for x, y in zip(a, b)]))

# ---------------------------------------------------------------- rings
@contract("C21.cut_allowed", [RG + ":compute_ring_cuts_avoiding_holes"])
def cut_allowed(vc):
    """any circumference, clearance and hole angles from 0 to 360 degrees: a position is allowed only if it keeps the clearance, around the ring, from every hole"""
    vc.cutused = True; n = vc.choice("holes", [0, 1, 2, 3]); C = pos(vc, "C", 50, 500); d = vc.real("d", 1, 40); vc.assume(vc.and_(vc.ge(d, 0.0, tol=0, scale=0), vc.lt(2 * d, C, tol=0, scale=0))); A = [par(vc, "a%d" % i, 0.0, 360.0) for i in range(n)]; Z = [(a / 360.0 - d / C, a / 360.0 + d / C) for a in A]; f = vc.inner(RG + ":compute_ring_cuts_avoiding_holes", "is_cut_valid", dict(exclusion_zones=Z)); c = par(vc, "c")
    def gap(a): x = vc.abs(c - a / 360.0); return vc.min(x, 1.0 - x)
    ok = bool(f(c)); vc.check("keeps the clearance", not ok or vc.and_(True, *[vc.ge(gap(a) * C, d) for a in A])); vc.check("rejected only near a hole", ok or vc.or_(False, *[vc.le(gap(a) * C, d) for a in A]))
@contract("C21.nearest_allowed", [RG + ":compute_ring_cuts_avoiding_holes"])
def nearest_allowed(vc):
    """the position looked for near an ideal one is allowed and inside the ring, or there is none"""
    vc.cutused = True; k = vc.choice("allowed from try", [0, 1, 2, 3, 7]); calls = []; c = par(vc, "c", 0.001, 0.999)
    def valid(p): calls.append(p); return len(calls) > k
    f = vc.inner(RG + ":compute_ring_cuts_avoiding_holes", "find_nearest_valid_position", dict(is_cut_valid=valid)); p = f(c); vc.check("allowed", p is None or p is calls[-1] or bool(vc.eq(p, calls[-1]))); vc.check("inside", p is None or vc.and_(vc.gt(p, 0.0, tol=0, scale=0), vc.lt(p, 1.0, tol=0, scale=0))); vc.check("close", p is None or vc.le(vc.abs(p - c), 0.5 * (k + 1) / 1000.0))
@contract("C21.ring_cuts", [RG + ":compute_ring_cuts_avoiding_holes"], mode="bounded", why="search over a grid of positions; random layouts of up to 8 holes", samples=400)
def ring_cuts(vc):
    """end to end: the cuts are inside the ring, in order, one fewer than the pieces, and keep the clearance from every hole whenever each ideal cut has an allowed position near it"""
    m = vc.mod(RG); C = vc.rng.uniform(100, 2000); M = C / vc.rng.uniform(0.8, 6.5); d = vc.rng.choice([0.0, 5.0, 10.0, 30.0]); n = vc.choice("holes", [0, 1, 2, 3, 4, 8]); N = math.ceil(C / M); tgt = vc.choice("target", [None, None, 2, 3, 5]); N = tgt or N; A = [vc.rng.choice([vc.rng.uniform(0, 360), 360.0 * vc.rng.randrange(0, N + 1) / N]) for _ in range(n)]; R = m.compute_ring_cuts_avoiding_holes(C, M, list(A), d, target_segments=tgt)
    if N < 2: vc.check("no cuts", R == []); return
    gap = lambda c, a: min(abs(c - a / 360.0), 1 - abs(c - a / 360.0)) * C; vc.check("number", len(R) == N - 1 and R == sorted(R) and all(0 < c < 1 for c in R)); free = lambda c: all(gap(c, a) >= d - 1e-9 for a in A); ideal = [(i + 1) / N for i in range(N - 1)]; w = 0.4 / N
    room = all(any(free(c + s * w * j / 200.0) and free(c + s * w * j / 200.0 + s * 0.001) for s in (1, -1) for j in range(200)) for c in ideal); vc.check("clear of the holes", not room or all(free(c) for c in R)); vc.check("even when possible", R == ideal or not all(all(gap(c, a) > d + 1e-9 for a in A) for c in ideal) or all(abs(p - q) < 1e-9 for p, q in zip(R, ideal)))
@contract("C21.ring", [RG + ":create_ring_spine", RG + ":compute_arc_attachment_point", RG + ":_rotate_path3d", RG + ":_translate_path3d", RG + ":_rotate_point_and_direction"], time_s=200)
def ring(vc):
    """a ring's path is closed, its corners lie at the radius from the centre in the tilted plane, and an attachment point is on the ring at its angle with the direction to the centre"""
    m = vc.mod(RG); n = vc.choice("n", [3, 8]); r = pos(vc, "r"); ax = vc.choice("axis", ["x", "y", "z", "X"]); tilt = vc.choice("tilt", [0.0, 30.0, 90.0, -45.0]); c = vc.vec3("c"); S = m.create_ring_spine(r, c, tilt, ax, n)["segments"]; vc.check("number", len(S) == n); le = lambda a, b: vc.and_(*[vc.and_(vc.le(x - y, 1e-9 * r, tol=1e-9, scale=0), vc.le(y - x, 1e-9 * r, tol=1e-9, scale=0)) for x, y in zip(a, b)])
    def want(th):
        x, y, z = math.cos(th), math.sin(th), 0.0; q = math.radians(tilt); C, s = math.cos(q), math.sin(q); a = ax.lower(); u = {"x": (x, y * C - z * s, y * s + z * C), "y": (x * C + z * s, y, z * C - x * s), "z": (x * C - y * s, x * s + y * C, z)}[a]; return u
    for i, s in enumerate(S): vc.check("corners", vc.and_(s["type"] == "line", le(s["start"], [o + r * q for o, q in zip(c, want(2 * math.pi * i / n))]), le(s["end"], [o + r * q for o, q in zip(c, want(2 * math.pi * (i + 1) / n))])))
    a = vc.choice("at", [17.0, 200.0, -30.0]); p, d = m.compute_arc_attachment_point(r, a, c, tilt, ax); vc.check("attached on the ring", le(p, [o + r * q for o, q in zip(c, want(math.radians(a)))])); vc.check("towards the centre", le([r * q for q in d], [o - q for o, q in zip(c, p)]))
@contract("C21.ring_profile", [RG + ":create_ring_profile"])
def ring_profile(vc):
    """a ring's cross section is the outer rectangle and, when the walls leave room, the inner one less both walls, wound the other way"""
    m = vc.mod(RG); w, h, t = pos(vc, "w", 2, 9), pos(vc, "h", 2, 9), pos(vc, "t", 0.1, 4); P = m.create_ring_profile(w, h, t); rect(vc, P[0], w, h, "outer"); room = vc.and_(vc.gt(w - 2 * t, 0.0, tol=1e-12, scale=0), vc.gt(h - 2 * t, 0.0, tol=1e-12, scale=0)); vc.check("hollow when there is room", vc.iff(len(P) == 2, room))
    if len(P) == 2: a, b = w / 2 - t, h / 2 - t; C = [(-a, -b), (-a, b), (a, b), (a, -b)]; vc.check("inner", vc.and_(*[vc.and_(vc.veq(l[0][:2], p), vc.veq(l[1][:2], q)) for l, p, q in zip(P[1], C, C[1:] + C[:1])]))
