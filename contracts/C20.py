import math, types
from pyvc.vc import contract
from contracts.lib import *
SP = "yapcad.spline"; S = SP + ":"; GE = "yapcad.geom"; AN = "yapcad.analytic_surfaces"
def P3(vc, n, name="p"): return [vc.point("%s%d" % (name, i)) for i in range(n)]
def veq3(vc, a, b): return vc.veq(list(a)[:3], list(b)[:3])
def hull_eq(vc, p, W, P):
    """p is the combination of the points with these weights"""
    return vc.and_(*[vc.eq(p[k], vc._sum([w * q[k] for w, q in zip(W, P)])) for k in range(3)])

def par(vc, name="t"):
    t = vc.real(name, 0, 1); vc.assume(vc.and_(vc.ge(t, 0.0, tol=0, scale=0), vc.le(t, 1.0, tol=0, scale=0))); return t
def beyond(vc):
    o = vc.real("o", 0, nonneg=True); vc.assume(vc.ge(o, 0.0, tol=0, scale=0)); return o
def near(vc, a, b): return vc.and_(vc.le(a - b, 1e-9, tol=0, scale=0), vc.le(b - a, 1e-9, tol=0, scale=0))

# ---------------------------------------------------------------- Bezier
@contract("C20.bezier_step", [S + "bezier_point"])
def bezier_step(vc):
    """any number of control points: one blend of de Casteljau's scheme is the combination (1-t), t of two neighbouring points of the level before; levels shrink by one from all points to one"""
    vc.cutused = True; m = vc.mod(SP); t = par(vc); a, b = vc.vec3("a"), vc.vec3("b"); n = vc.choice("n", [2, 3, 4, 6]); cut = vc.cut(S + "bezier_point", 0); P = [vc.point("p")] * n; k, v, env = cut.pre(P, t)
    vc.check("starts with all points", k == "next" and len(env["work"]) == n and all(veq3(vc, w, P[0]) for w in env["work"])); vc.check("levels", list(cut.over(env)) == list(range(n - 1, 0, -1))); vc.check("parameter", vc.eq(env["t"], t))
    inn = vc.cut(S + "bezier_point", 1); e = dict(env); e.update(t=t, work=[vc.vec3("z")] + [a, b] + [vc.vec3("y")], new_work=["before"], level=3); vc.check("all neighbours", list(inn.over(e)) == [0, 1, 2]); k, v = inn.body(e, 1); vc.check("one more", k == "next" and len(e["new_work"]) == 2 and e["new_work"][0] == "before"); vc.check("blend", vc.veq(e["new_work"][1], [x * (1.0 - t) + y * t for x, y in zip(a, b)]))
    vc.check("hull", vc.and_(*[vc.and_(vc.ge(w, vc.min(x, y), tol=1e-9, scale=0), vc.le(w, vc.max(x, y), tol=1e-9, scale=0)) for w, x, y in zip(e["new_work"][1], a, b)])); e.update(work=[a]); k, p = cut.post(e); vc.check("result", k == "return" and len(p) == 4); vc.check("is the last point", veq3(vc, p, a))
@contract("C20.bezier", [S + "bezier_point", S + "evaluate_bezier", S + "_bernstein", S + "_binomial"])
def bezier(vc):
    """a Bezier curve is the combination of its control points with the Bernstein weights, which are not negative and add to one; so it starts at the first and ends at the last, also for parameters outside [0, 1]"""
    m = vc.mod(SP); n = vc.choice("n", [1, 2, 3, 4, 5, 6]); P = P3(vc, n); t = par(vc); W = [m._bernstein(n - 1, i, t) for i in range(n)]; w = [math.comb(n - 1, i) * t ** i * (1.0 - t) ** (n - 1 - i) for i in range(n)]
    vc.check("weights", vc.and_(*[vc.eq(x, y) for x, y in zip(W, w)])); vc.check("sum", vc.eq(vc._sum(W), 1.0)); vc.check("combination", hull_eq(vc, m.bezier_point(P, t), w, P)); vc.check("definition", hull_eq(vc, m.evaluate_bezier(vc.mod(GE).bezier(P), t) if n > 1 else m.bezier_point(P, t), w, P))
    vc.check("starts", veq3(vc, m.bezier_point(P, 0.0), P[0])); vc.check("ends", veq3(vc, m.bezier_point(P, 1.0), P[-1])); o = beyond(vc); vc.check("before", veq3(vc, m.bezier_point(P, 0.0 - o), P[0])); vc.check("after", veq3(vc, m.bezier_point(P, 1.0 + o), P[-1]))
@contract("C20.bernstein", [S + "_bernstein"])
def bernstein(vc):
    """Bernstein weights are not negative on [0, 1]"""
    m = vc.mod(SP); n = vc.choice("n", range(0, 9)); i = vc.choice("i", range(0, 9)); vc.assume(i <= n); t = par(vc); vc.check("not negative", vc.ge(m._bernstein(n, i, t), 0.0)); vc.check("outside", m._binomial(n, n + 1) == 0 and m._binomial(n, -1) == 0)
@contract("C20.bezier_tangent", [S + "bezier_tangent"])
def bezier_tangent(vc):
    """the tangent is the derivative: it is what remains of the difference of two curve points divided by the parameter step as the step vanishes"""
    m = vc.mod(SP); n = vc.choice("n", [1, 2, 3, 4, 5]); P = P3(vc, n); t = par(vc); d = m.bezier_tangent(P, t); k = n - 1; w = [math.comb(k, i) * ((i * t ** (i - 1) if i else 0.0) * (1.0 - t) ** (k - i) - ((k - i) * (1.0 - t) ** (k - i - 1) if i < k else 0.0) * t ** i) for i in range(n)]
    vc.check("derivative", hull_eq(vc, d, w, P)); vc.check("a direction", len(d) == 4 and d[3] == 0)
@contract("C20.bezier_samples", [S + "bezier_curve", S + "sample_bezier"])
def bezier_samples(vc):
    """sampling gives the curve at equal parameter steps from the first to the last control point"""
    m = vc.mod(SP); n = vc.choice("n", [1, 2, 3, 4]); k = vc.choice("segments", [1, 2, 3, 5]); P = P3(vc, n); C = m.bezier_curve(P, k); vc.check("number", len(C) == k + 1); vc.check("ends", vc.and_(veq3(vc, C[0], P[0]), veq3(vc, C[-1], P[-1]))); vc.check("each", vc.and_(*[veq3(vc, c, m.bezier_point(P, i / k)) for i, c in enumerate(C)]))
    if n > 1: vc.check("definition", vc.and_(*[veq3(vc, c, d) for c, d in zip(C, m.sample_bezier(vc.mod(GE).bezier(P), segments=k))]))
    e, _ = vc.raises(m.bezier_curve, P, 0); vc.check("no segments", isinstance(e, ValueError)); e, _ = vc.raises(m.bezier_point, [], 0.5); vc.check("no points", isinstance(e, ValueError))

# ---------------------------------------------------------------- the basis functions, any degree, any knots
class Knots:
    """a knot vector of unknown length: knot(j) for any index, the last one for -1"""
    def __init__(self, vc): self.vc = vc; self.last = vc.real("last")
    def __getitem__(self, j): return self.last if type(j) is int and j == -1 else self.vc.uf("knot", j)
    def __len__(self): return 10 ** 9
BASES = {"bspline": (SP, "_bspline_basis", lambda f: f), "nurbs": (SP, "_nip", lambda f: f), "surface": (AN, "_bspline_basis", lambda f: lambda i, p, u, K: f(K, i, p, u))}
def setting(vc, off=(0,)):
    """(basis function, i, p >= 1, u, knots) with the function's recursive calls left to its contract: not negative, zero outside the (half open) support"""
    which = vc.choice("basis", sorted(BASES)); mod, nm, wrap = BASES[which]; m = vc.mod(mod); f = wrap(getattr(m, nm)); u = vc.real("u")
    if vc.symbolic:
        K = Knots(vc); i = vc.int("i", 0, 10 ** 6); p = vc.int("p", 1, 10 ** 6); base = {}
        js = [i + o for o in range(-1, 4)]; hi = [i + p + o for o in range(-1, 4)]
        def order(a, b): vc.assume(vc.le(K[a], K[b], tol=0, scale=0))
        for s in (js, hi):
            for a, b in zip(s, s[1:]): order(a, b)
        for a, b in zip(js, hi): order(a, b)
        for b in hi: vc.assume(vc.le(K[b], K.last, tol=0, scale=0))
        # p = 1 and p = 2 make the two runs of indices overlap
        for q in (1, 2, 3):
            if vc.case(p == q): p = q; break
        mi = lambda o: vc.uf("M", i + o)
        def N(o):
            """contract of the recursive call for function i + o of degree p - 1"""
            x = mi(o); a, b = K[i + o], K[i + o + p]; vc.assume(vc.ge(x, 0.0, tol=0, scale=0)); vc.assume(vc.or_(vc.eq(x, 0.0, tol=0, scale=0), vc.and_(vc.le(a, u, tol=0, scale=0), vc.or_(vc.lt(u, b, tol=0, scale=0), vc.and_(vc.eq(u, b, tol=0, scale=0), vc.eq(u, K.last, tol=0, scale=0))))))
            return x
        V = {o: N(o) for o in (-1, 0, 1, 2)}
        def rec(j, q, w, kn):
            vc.check("recursion: one degree less", vc.and_(vc.eq(q, p - 1), vc.eq(w, u))); vc.check("recursion: same knots", kn is K)
            for o in V:
                if vc.case(j == i + o): return V[o]
            vc.check("recursion: a neighbouring function", False); return 0.0
        vc.stub(mod, nm, rec if which != "surface" else (lambda kn, j, q, w: rec(j, q, w, kn)))
    else:
        K = [0.0]; n = 12
        for j in range(n): K.append(K[-1] + vc.choice("gap%d" % j, [0.0, 0.25, 1.0, 1.0]))
        i, p = vc.choice("i0", [1, 2, 4]), vc.choice("p0", [1, 2, 3]); u = vc.choice("at knot", [None, 3, 7, 12]); u = vc.real("u", K[0], K[-1]) if u is None else K[u]; V = {o: f(i + o, p - 1, u, K) for o in (-1, 0, 1, 2)}
    return f, i, p, u, K, V
def gap_ok(vc, K, i, p):
    """knots are equal or clearly apart (one implementation treats spans up to 1e-12 as empty)"""
    for o in (-1, 0, 1, 2):
        d = K[i + o + p] - K[i + o]; vc.assume(vc.or_(vc.eq(d, 0.0, tol=0, scale=0), vc.gt(d, 1e-12, tol=0, scale=0)))
@contract("C20.basis_step", [S + "_bspline_basis", S + "_nip", AN + ":_bspline_basis"])
def basis_step(vc):
    """any degree, any knots (the three implementations): if the functions of one degree less are not negative and vanish outside their support, so does this one; with an empty support it is zero"""
    f, i, p, u, K, V = setting(vc); gap_ok(vc, K, i, p); vc.assume(vc.and_(*[vc.or_(vc.gt(K[i + o + p] - K[i + o], 0.0, tol=0, scale=0), vc.eq(V[o], 0.0, tol=0, scale=0)) for o in (0, 1)]) if vc.symbolic or p > 1 else True)
    N = f(i, p, u, K); a, b = K[i], K[i + p + 1]; vc.check("not negative", vc.ge(N, 0.0, tol=1e-12, scale=0)); vc.check("support", vc.or_(vc.eq(N, 0.0, tol=1e-12, scale=0), vc.and_(vc.le(a, u), vc.or_(vc.lt(u, b, tol=0, scale=0), vc.and_(vc.eq(u, b), vc.eq(u, K[-1])))))); vc.check("empty support", vc.or_(vc.lt(a, b, tol=0, scale=0), vc.eq(N, 0.0)))
@contract("C20.basis_sum", [S + "_bspline_basis", S + "_nip", AN + ":_bspline_basis"])
def basis_sum(vc):
    """any degree, any knots: each function of one degree less enters its two successors with weights that add to one, so the sum over all functions stays one from degree to degree"""
    f, i, p, u, K, V = setting(vc); gap_ok(vc, K, i, p); vc.assume(vc.and_(*[vc.or_(vc.gt(K[i + o + p] - K[i + o], 0.0, tol=0, scale=0), vc.eq(V[o], 0.0, tol=0, scale=0)) for o in (-1, 0, 1)]) if vc.symbolic or p > 1 else True)
    A, B = f(i - 1, p, u, K), f(i, p, u, K); frac = lambda o: (u - K[i + o]) / (K[i + o + p] - K[i + o]) if vc.case(vc.gt(K[i + o + p] - K[i + o], 0.0, tol=0, scale=0)) else 0.0
    left, right = frac(-1) * V[-1], V[1] * (1.0 - frac(1)) if vc.case(vc.gt(K[i + 1 + p] - K[i + 1], 0.0, tol=0, scale=0)) else 0.0
    mid = V[0] if vc.case(vc.gt(K[i + p] - K[i], 0.0, tol=0, scale=0)) else 0.0; vc.check("weights add to one", vc.eq(A + B, left + mid + right))
@contract("C20.basis_base", [S + "_bspline_basis", S + "_nip", AN + ":_bspline_basis"])
def basis_base(vc):
    """degree zero, any knots: exactly one span contains the parameter, from its start to before its end, and the last non-empty one includes its end; spans elsewhere give zero"""
    which = vc.choice("basis", sorted(BASES)); mod, nm, wrap = BASES[which]; f = wrap(getattr(vc.mod(mod), nm)); n = vc.choice("spans", [1, 2, 3, 4, 5]); K = [vc.real("k0")]
    for j in range(n): K.append(K[-1] + (vc.real("gap%d" % j, 0.01, 3, strict=True) if vc.choice("empty%d" % j, [False, True]) is False else 0.0))
    if not vc.symbolic and vc.choice("end", [0, 1]): u = K[-1]
    else: u = vc.real("u")
    vc.assume(vc.and_(vc.ge(u, K[0], tol=0, scale=0), vc.le(u, K[-1], tol=0, scale=0))); vc.assume(vc.gt(K[-1], K[0], tol=0, scale=0)); V = [f(j, 0, u, K) for j in range(n)]
    vc.check("zero or one", all(bool(v == 0.0) or bool(v == 1.0) for v in V)); full = [j for j in range(n) if bool(K[j] < K[j + 1])]; vc.check("one span", vc.eq(vc._sum([V[j] for j in full]), 1.0)); vc.check("contains", vc.and_(*[vc.or_(vc.eq(V[j], 0.0), vc.and_(vc.le(K[j], u, tol=0, scale=0), vc.le(u, K[j + 1], tol=0, scale=0))) for j in range(n)])); vc.check("half open", vc.and_(*[vc.or_(vc.eq(V[j], 0.0), vc.lt(u, K[j + 1], tol=0, scale=0), vc.eq(u, K[-1])) for j in full]))

# ---------------------------------------------------------------- B-splines
@contract("C20.bspline_sum", [S + "bspline_point"])
def bspline_sum(vc):
    """any number of control points: the point is the sum over all (for closed curves, cyclically extended) control points of basis value times point"""
    m = vc.mod(SP); vc.cutused = True; closed = vc.choice("closed", [False, True]); d = vc.choice("degree", [1, 2, 3]); n = vc.choice("n", [4, 5, 7]); cut = vc.cut(S + "bspline_point", 0 if closed else 1); P = P3(vc, n); seen = []; w = vc.real("w"); i = vc.choice("i", [0, 3, 4]); vc.assume(i < n + (d if closed else 0)); t = par(vc); src = P + P[:d] if closed else P
    e = dict(cut.args(P, t, d, closed)); nd = m._uniform_knot_vector(n, d, closed); e.update(pts=[tuple(p[:3]) for p in P], extended_pts=[tuple(p[:3]) for p in src], n=n, x=vc.real("x"), y=vc.real("y"), z=vc.real("z"), knots=nd, u=t); x, y, z = e["x"], e["y"], e["z"]; e["_bspline_basis"] = lambda *a: (seen.append(a), w)[1]
    vc.check("over all", list(cut.over(e)) == list(range(len(src)))); k, v = cut.body(e, i); vc.check("adds", k == "next" and vc.and_(*[vc.eq(e[c], o + w * q) for c, o, q in zip("xyz", (x, y, z), src[i])])); vc.check("its basis", len(seen) == 1 and seen[0][:2] == (i, d) and seen[0][3] is nd and seen[0][2] is t)
@contract("C20.knots", [S + "_uniform_knot_vector", GE + ":_open_uniform_knot_vector"], mode="bounded", why="integers only: every number of control points up to 24 and degree up to 6")
def knots(vc):
    """knot vectors: right number, never decreasing, clamped ones start with degree+1 zeros and end with degree+1 ones, periodic ones are evenly spaced and cover [0, 1] between the knots degree and n + degree"""
    d = vc.choice("degree", range(1, 7)); n = vc.choice("n", range(2, 25)); vc.assume(n > d); m = vc.mod(SP); 
    for K in (m._uniform_knot_vector(n, d), vc.mod(GE)._open_uniform_knot_vector(n, d)): vc.check("clamped", len(K) == n + d + 1 and K[:d + 1] == [0.0] * (d + 1) and K[-d - 1:] == [1.0] * (d + 1) and all(a <= b for a, b in zip(K, K[1:]))); vc.check("inside", K[d + 1:-d - 1] == [j / (n - d) for j in range(1, n - d)])
    K = m._uniform_knot_vector(n, d, True); vc.check("periodic", len(K) == n + 2 * d + 1 and all(abs(b - a - 1.0 / n) < 1e-12 for a, b in zip(K, K[1:])) and K[d] == 0.0 and abs(K[n + d] - 1.0) < 1e-12)
@contract("C20.bspline", [S + "bspline_point", S + "evaluate_bspline", S + "_bspline_basis"], time_s=200)
def bspline(vc):
    """each size: the weights are not negative and add to one; a clamped curve starts and ends at its end points, a closed one joins up"""
    m = vc.mod(SP); d = vc.choice("degree", [1, 2, 3]); n = vc.choice("n", [2, 3, 4, 5, 6]); closed = vc.choice("closed", [False, True]); vc.assume(n > d); t = par(vc); one = [[0.0, 0.0, 0.0, 1.0] for _ in range(n)]; W = []
    for i in range(n):
        e = [[1.0, 0.0, 0.0, 1.0] if j == i else o for j, o in enumerate(one)]; W.append(m.bspline_point(e, t, d, closed)[0])
    vc.check("sum", near(vc, vc._sum(W), 1.0)); vc.check("not negative", vc.and_(*[vc.ge(w, -1e-9 if vc.symbolic else 0.0, tol=1e-9, scale=0) for w in W]))
@contract("C20.bspline_ends", [S + "bspline_point", S + "evaluate_bspline"])
def bspline_ends(vc):
    """clamped curves start at the first and end at the last control point, also beyond the parameter range; closed curves end where they start"""
    m = vc.mod(SP); d = vc.choice("degree", [1, 2, 3, 4]); n = vc.choice("n", [2, 3, 4, 5, 6, 7, 8]); vc.assume(n - d in (1, 2, 4) or n > d and not vc.symbolic); P = P3(vc, n); b = vc.mod(GE).bspline(P, degree=d); vc.check("starts", veq3(vc, m.evaluate_bspline(b, 0.0), P[0])); vc.check("ends", veq3(vc, m.evaluate_bspline(b, 1.0), P[-1])); o = beyond(vc); vc.check("before", veq3(vc, m.evaluate_bspline(b, 0.0 - o), P[0])); vc.check("after", veq3(vc, m.evaluate_bspline(b, 1.0 + o), P[-1]))
    c = vc.mod(GE).bspline(P, degree=d, closed=True); exact = not vc.symbolic or n in (2, 4, 8); vc.check("joins", not exact or veq3(vc, m.evaluate_bspline(c, 0.0), m.evaluate_bspline(c, 1.0))); e, _ = vc.raises(m.bspline_point, P[:d], 0.5, d); vc.check("too few points", isinstance(e, ValueError))
    k = vc.choice("segments", [1, 2, 3]); C = m.sample_bspline(b, segments=k); vc.check("samples", len(C) == k + 1 and vc.and_(*[veq3(vc, q, m.bspline_point(P, j / k, d)) for j, q in enumerate(C)])); C = m.sample_bspline(c, segments=k); vc.check("closed samples", not exact or len(C) == k + 1 and vc.and_(*[veq3(vc, q, m.bspline_point(P, j / k, d, True)) for j, q in enumerate(C)]))

# ---------------------------------------------------------------- NURBS
@contract("C20.nurbs_sum", [S + "_nurbs_point"])
def nurbs_sum(vc):
    """any number of control points: numerator and denominator collect weight times basis (times point), and the point is their quotient"""
    vc.cutused = True; m = vc.mod(SP); n = vc.choice("n", [2, 3, 5]); P = P3(vc, n); W = [vc.real("w%d" % i, 0.1, 5, strict=True) for i in range(n)]; cut = vc.cut(S + "_nurbs_point", 0); u = vc.real("u"); K = [0.0, 1.0]; k, v, e = cut.pre(P, W, K, 2, u); vc.check("starts at zero", k == "next" and list(e["numerator"]) == [0.0] * 3 and e["denominator"] == 0.0); vc.check("over all", list(cut.over(e)) == list(range(n)))
    N = [vc.real("x"), vc.real("y"), vc.real("z")]; D = vc.real("D"); B = vc.real("B"); i = vc.choice("i", [0, 1, n - 1]); seen = []; e.update(numerator=list(N), denominator=D, _nip=lambda *a: (seen.append(a), B)[1]); k, v = cut.body(e, i); vc.check("its basis", k == "next" and len(seen) == 1 and seen[0][:2] == (i, 2) and seen[0][2] is u and seen[0][3] is K)
    vc.check("adds", vc.and_(vc.eq(e["denominator"], D + W[i] * B), *[vc.eq(e["numerator"][c], N[c] + W[i] * B * P[i][c]) for c in range(3)])); D = vc.real("D2", 0.1, 5, strict=True); e.update(numerator=list(N), denominator=D); k, p = cut.post(e); vc.check("quotient", k == "return" and vc.veq([q * D for q in p[:3]], N))
    h = vc.vec3("h"); b = vc.real("b"); vc.assume(vc.le(vc.vdot(h, P[i]), b, tol=0, scale=0)); vc.assume(vc.ge(B, 0.0, tol=0, scale=0)); vc.assume(vc.le(vc.vdot(h, N), b * D, tol=0, scale=0)); e.update(numerator=list(N), denominator=D); cut.body(e, i); vc.check("stays in the hull", vc.le(vc.vdot(h, e["numerator"]), b * e["denominator"]))
KV = {"uniform": lambda n, d: [0.0] * (d + 1) + [j / (n - d) for j in range(1, n - d)] + [1.0] * (d + 1), "uneven": lambda n, d: [0.0] * (d + 1) + [j * j / float((n - d) ** 2) for j in range(1, n - d)] + [1.0] * (d + 1), "shifted": lambda n, d: [0.1] * (d + 1) + [0.1 + 0.6 * j / (n - d) for j in range(1, n - d)] + [0.7] * (d + 1), "repeated": lambda n, d: [2.0] * (d + 1) + [2.5] * (n - d - 1) + [3.0] * (d + 1), "unclamped": lambda n, d: [float(j) for j in range(n + d + 1)]}
@contract("C20.nurbs_ends", [S + "evaluate_nurbs", S + "sample_nurbs", S + "_nip", S + "_nurbs_point"])
def nurbs_ends(vc):
    """a NURBS curve with clamped knots starts at its first and ends at its last control point, for all weights; its samples run from one to the other"""
    m = vc.mod(SP); d = vc.choice("degree", [1, 2, 3]); n = vc.choice("n", [2, 3, 4, 5, 6]); vc.assume(n > d); kv = vc.choice("knots", ["uniform", "uneven", "shifted", "repeated"]); vc.assume(kv != "repeated" or n <= 2 * d + 1); P = P3(vc, n); W = [vc.real("w%d" % i, 0.1, 5, strict=True) for i in range(n)]; c = ["nurbs", P, dict(degree=d, weights=W, knots=KV[kv](n, d))]
    vc.check("starts", veq3(vc, m.evaluate_nurbs(c, 0.0), P[0])); vc.check("ends", veq3(vc, m.evaluate_nurbs(c, 1.0), P[-1])); S = m.sample_nurbs(c, samples=vc.choice("samples", [2, 3])); vc.check("samples", vc.and_(veq3(vc, S[0], P[0]), veq3(vc, S[-1], P[-1])))
@contract("C20.nurbs", [S + "evaluate_nurbs", S + "_nip", S + "_nurbs_point"], time_s=240)
def nurbs(vc):
    """each size: equal weights give the B-spline with the same knots, whose weights are not negative and add to one"""
    m = vc.mod(SP); d = vc.choice("degree", [1, 2, 3]); n = vc.choice("n", [2, 3, 4, 5, 6]); vc.assume(n > d); kv = vc.choice("knots", ["uniform", "uneven", "unclamped", "repeated"]); vc.assume(kv != "repeated" or n <= 2 * d + 1); K = KV[kv](n, d); t = par(vc); u = K[d] + (K[n] - K[d]) * t; N = [m._nip(i, d, u, K) for i in range(n)]; vc.check("sum", near(vc, vc._sum(N), 1.0)); vc.check("not negative", vc.and_(*[vc.ge(x, -1e-9 if vc.symbolic else 0.0, tol=1e-9, scale=0) for x in N]))
    if kv == "uniform": vc.check("same as the B-spline", vc.and_(*[near(vc, a, b) for a, b in zip(N, [m._bspline_basis(i, d, u, K) for i in range(n)])]))
@contract("C20.nurbs_equal_weights", [S + "_nurbs_point"])
def nurbs_equal_weights(vc):
    """equal weights of any size cancel: the point is the sum of basis times point over the sum of basis"""
    m = vc.mod(SP); n = vc.choice("n", [2, 3, 4]); w = vc.real("w", 0.1, 5, strict=True); P = P3(vc, n); B = [vc.real("b%d" % i, 0, 1, nonneg=True) for i in range(n)]; vc.assume(vc.gt(vc._sum(B), 0.0 if vc.symbolic else 0.05, tol=0, scale=0))
    if not vc.symbolic: m2 = m; old = m._nip
    try:
        if vc.symbolic: vc.stub(SP, "_nip", lambda i, p, u, K: B[i])
        else: m._nip = lambda i, p, u, K: B[i]
        q = m._nurbs_point(P, [w] * n, [], 2, 0.5); vc.check("cancels", vc.and_(*[vc.eq(q[k] * vc._sum(B), vc._sum([b * p[k] for b, p in zip(B, P)])) for k in range(3)]))
        W = [vc.real("w%d" % i, 0.1, 5, strict=True) for i in range(n)]; q = m._nurbs_point(P, W, [], 2, 0.5); D = vc._sum([b * x for b, x in zip(B, W)]); vc.check("weighted", vc.and_(*[vc.eq(q[k] * D, vc._sum([b * x * p[k] for b, x, p in zip(B, W, P)])) for k in range(3)]))
    finally:
        if not vc.symbolic: m._nip = old
@contract("C20.nurbs_parameter", [S + "evaluate_nurbs"])
def nurbs_parameter(vc):
    """parameters from 0 to 1 run over the domain of the knots from its first to exactly its last value, in order, and never leave it"""
    m = vc.mod(SP); a, b = vc.real("a"), vc.real("b"); vc.assume(vc.lt(a, b, tol=0, scale=0)); u, v = vc.real("u"), vc.real("v"); vc.assume(vc.le(u, v, tol=0, scale=0)); seen = []; old = m._nurbs_point; d = vc.choice("degree", [1, 2]); c = ["nurbs", [vc.point("p")] * (d + 1), dict(degree=d, weights=[1.0] * (d + 1), knots=[a] * (d + 1) + [b] * (d + 1))]; rec = lambda P, W, K, p, x: (seen.append(x), P[0])[1]
    if vc.symbolic: vc.stub(SP, "_nurbs_point", rec)
    else: m._nurbs_point = rec
    try: [m.evaluate_nurbs(c, x) for x in (0.0, 1.0, u, v)]
    finally:
        if not vc.symbolic: m._nurbs_point = old
    vc.check("ends", bool(seen[0] == a) and bool(seen[1] == b)); vc.check("inside", vc.and_(*[vc.and_(vc.ge(x, a, tol=0, scale=0), vc.le(x, b, tol=0, scale=0)) for x in seen])); vc.check("in order", vc.le(seen[2], seen[3])); vc.check("linear", vc.or_(vc.lt(u, 0.0), vc.gt(u, 1.0), vc.eq(seen[2], a + (b - a) * u)))

# ---------------------------------------------------------------- Catmull-Rom
@contract("C20.catmull_through", [S + "_catmullrom_point", S + "_catmull_blend"])
def catmull_through(vc):
    """one span, any parameterisation: it starts at its first and ends at its second point, whatever the neighbours, equal ones included"""
    m = vc.mod(SP); P = P3(vc, 4); same = vc.choice("neighbours", ["free", "first repeated", "last repeated", "both", "span"]); P[0] = P[1] if same in ("first repeated", "both") else P[0]; P[3] = P[2] if same in ("last repeated", "both") else P[3]; P[2] = P[1] if same == "span" else P[2]; al = vc.real("alpha", 0, 1)
    if vc.symbolic:
        D = {}
        def pw(d, a):
            r = vc.uf("pow", d, a); vc.assume(vc.ge(r, 0.0, tol=0, scale=0)); vc.assume(vc.or_(vc.gt(r, 1e-9, tol=0, scale=0), vc.eq(r, 0.0, tol=0, scale=0))); vc.assume(vc.or_(vc.eq(r, 0.0, tol=0, scale=0), vc.gt(d, 0.0, tol=0, scale=0), vc.eq(a, 0.0, tol=0, scale=0))); vc.assume(vc.implies(vc.gt(d, 0.0, tol=0, scale=0), vc.gt(r, 0.0, tol=0, scale=0))); return r
        vc.stub(SP, "pow", pw)
    for a, b in ((0, 1), (1, 2), (2, 3)): vc.assume(vc.or_(P[a] is P[b], vc.gt(vc.norm2(vc.vsub(P[a][:3], P[b][:3])), 0.0 if vc.symbolic else 1e-4, tol=0, scale=0)))
    vc.check("starts", veq3(vc, m._catmullrom_point(*P, al, 0.0), P[1])); vc.check("ends", veq3(vc, m._catmullrom_point(*P, al, 1.0), P[2]))
@contract("C20.catmull_spans", [S + "evaluate_catmullrom", S + "sample_catmullrom"], max_paths=6000)
def catmull_spans(vc):
    """the spans join consecutive control points in order (closed curves return to the first), the parameter runs over them evenly, and neighbours outside an open curve are its own ends"""
    m = vc.mod(SP); n = vc.choice("n", [2, 3, 4, 5]); closed = vc.choice("closed", [False, True]); P = P3(vc, n); al = vc.real("alpha", 0, 1); c = vc.mod(GE).catmullrom(P, closed=closed, alpha=al if not vc.symbolic else 0.5); seen = []; old = m._catmullrom_point
    def rec(*a): seen.append(a); return a[1]
    k = n if closed else n - 1; s = vc.choice("span", [0, 1, 2, 3, 4]); vc.assume(s < k); tau = par(vc, "tau"); u = (s + tau) / k; steps = vc.choice("steps", [1, 2, 3])
    if vc.symbolic: vc.stub(SP, "_catmullrom_point", rec)
    else: m._catmullrom_point = rec
    try:
        m.evaluate_catmullrom(c, u); a = seen.pop(); del seen[:]; m.evaluate_catmullrom(c, 0.0); m.evaluate_catmullrom(c, 1.0); ends = list(seen); del seen[:]; S = m.sample_catmullrom(c, segments_per_span=steps); smp = list(seen)
    finally:
        if not vc.symbolic: m._catmullrom_point = old
    at = lambda j: P[j % n] if closed else P[max(0, min(n - 1, j))]; is_span = lambda a, s: vc.and_(*[veq3(vc, a[q], at(s - 1 + q)) for q in range(4)])
    nxt = vc.and_(vc.eq(tau, 1.0, tol=1e-6), s + 1 < k, is_span(a, s + 1), vc.eq(a[5], 0.0, tol=1e-6)); prv = vc.and_(vc.eq(tau, 0.0, tol=1e-6), s > 0, is_span(a, s - 1), vc.eq(a[5], 1.0, tol=1e-6))
    vc.check("the span and the place in it", vc.or_(vc.and_(is_span(a, s), vc.eq(a[5], tau)), nxt, prv)); vc.check("starts", is_span(ends[0], 0)); vc.check("start place", vc.eq(ends[0][5], 0.0)); vc.check("ends", is_span(ends[1], k - 1)); vc.check("end place", vc.eq(ends[1][5], 1.0))
    vc.check("number of samples", len(S) == k * steps + 1 and veq3(vc, S[0], P[0])); vc.check("samples", len(smp) == k * steps and vc.and_(*[vc.and_(is_span(b, j // steps), vc.eq(b[5], (j % steps + 1) / steps)) for j, b in enumerate(smp)]))
@contract("C20.catmull_curve", [S + "evaluate_catmullrom", S + "sample_catmullrom"], mode="bounded", why="end to end on random curves; the proofs above cover the pieces")
def catmull_curve(vc):
    """end to end: the curve passes through every control point in order, and a closed one joins up"""
    m = vc.mod(SP); n = vc.choice("n", [2, 3, 4, 5, 6]); closed = vc.choice("closed", [False, True]); P = P3(vc, n); 
    if vc.choice("repeat", [0, 1, 2]) == 1: P[1] = list(P[0])
    c = vc.mod(GE).catmullrom(P, closed=closed, alpha=vc.choice("alpha", [0.0, 0.5, 1.0])); k = n if closed else n - 1; vc.check("through", all(math.dist(m.evaluate_catmullrom(c, j / k)[:3], P[j % n][:3]) < 1e-5 for j in range(k + 1))); S = m.sample_catmullrom(c, segments_per_span=3); vc.check("samples through", all(math.dist(S[3 * j][:3], P[j % n][:3]) < 1e-5 for j in range(k + 1)))
    vc.check("same by sample()", all(vc.mod(GE).sample(c, u) == m.evaluate_catmullrom(c, u) for u in (0.0, 0.3, 1.0)))

# ---------------------------------------------------------------- affine maps
@contract("C20.affine", [S + "bezier_point", S + "bspline_point", S + "evaluate_nurbs"], time_s=240, max_paths=4000)
def affine(vc):
    """moving all control points by an affine map moves the curve by the same map"""
    m = vc.mod(SP); kind = vc.choice("curve", ["bezier", "bspline", "closed", "nurbs"]); n = vc.choice("n", [3, 4, 5]); d = vc.choice("degree", [1, 2]); vc.assume(not vc.symbolic or n - d in (1, 2, 4) and (kind != "closed" or n == 4)); P = P3(vc, n); t = vc.choice("at", [0.0, 0.125, 0.5, 0.8125, 1.0]); W = [vc.real("w%d" % i, 0.1, 5, strict=True) for i in range(n)]; K = vc.mod(GE)._open_uniform_knot_vector(n, d)
    ev = {"bezier": lambda Q: m.bezier_point(Q, t), "bspline": lambda Q: m.bspline_point(Q, t, d), "closed": lambda Q: m.bspline_point(Q, t, d, True), "nurbs": lambda Q: m.evaluate_nurbs(["nurbs", Q, dict(degree=d, weights=W, knots=K)], t)}[kind]
    A = [vc.vec3("A%d" % r) for r in range(3)]; b = vc.vec3("b"); f = lambda q: [vc.vdot(r, q[:3]) + s for r, s in zip(A, b)] + [1.0]; vc.check("same map", vc.veq(ev([f(p) for p in P])[:3], f(ev(P))[:3]))

# ---------------------------------------------------------------- surfaces
@contract("C20.surface", [AN + ":evaluate_bspline_surface", AN + ":bspline_surface"], time_s=200, max_paths=6000)
def surface(vc):
    """a B-spline surface with clamped knots passes through its four corner control points, and every point is the combination of the control points with the products of the basis functions and weights"""
    m = vc.mod(AN); nu, nv = vc.choice("nu", [2, 3, 4]), vc.choice("nv", [2, 3]); p, q = vc.choice("p", [1, 2]), vc.choice("q", [1, 2]); vc.assume(nu > p and nv > q); C = [[vc.point("c%d%d" % (j, i)) for i in range(nu)] for j in range(nv)]; W = [[vc.real("w%d%d" % (j, i), 0.1, 5, strict=True) for i in range(nu)] for j in range(nv)] if vc.choice("weighted", [False, True]) else None; kn = vc.choice("knots", ["uniform", "shifted"]); U, V = KV[kn](nu, p), KV[kn](nv, q); s = m.bspline_surface(C, U, V, p, q, weights=W); ev = m.evaluate_bspline_surface
    for u, i in ((U[0], 0), (U[-1], -1)):
        for v, j in ((V[0], 0), (V[-1], -1)): vc.check("corner", veq3(vc, ev(s, u, v), C[j][i]))
    u, v = U[0] + (U[-1] - U[0]) * vc.choice("u", [0.0, 0.25, 0.5, 0.8, 1.0]), V[0] + (V[-1] - V[0]) * vc.choice("v", [0.3, 1.0]); sp = vc.mod(SP); B = [[sp._nip(i, p, u, U) * sp._nip(j, q, v, V) * (W[j][i] if W else 1.0) for i in range(nu)] for j in range(nv)]; D = vc._sum([b for r in B for b in r]); vc.check("combination", vc.and_(*[vc.eq(ev(s, u, v)[k] * D, vc._sum([b * c[k] for r, R in zip(B, C) for b, c in zip(r, R)])) for k in range(3)]))
