import json, math, os, types
from pathlib import Path
from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched, FakePath, Scratch
AN = "yapcad.package.analysis."; BA, NA, CX, FE, SC, CL, FN = AN + "base", AN + "yapcad_native", AN + "calculix", AN + "fenics", AN + "schema", AN + "cli", AN + "face_naming"
NAT, CAL, FEN = NA + ":YapCADNativeAdapter.", CX + ":CalculixAdapter.", FE + ":FenicsxAdapter."
ADAPTERS = {"native": (NA, "YapCADNativeAdapter"), "calculix": (CX, "CalculixAdapter"), "fenics": (FE, "FenicsxAdapter")}
UND = "undecided"
OPS = ["<=", ">=", "<", ">", "==", "~="]
def adapter(vc, which): m, c = ADAPTERS[which]; return getattr(vc.mod(m), c)()

# ---------------------------------------------------------------- acceptance
def holds(vc, x, lim, op, tol):
    return {"<=": lambda: vc.le(x, lim), ">=": lambda: vc.ge(x, lim), "<": lambda: vc.lt(x, lim), ">": lambda: vc.gt(x, lim)}.get(op, lambda: vc.and_(vc.le(x - lim, tol), vc.ge(x - lim, -tol)))()
def criterion(vc, which, i="", ops=None, absent=True):
    """one acceptance rule, its metric and the verdict it asks for: None (undecided), True (no limit), or whether it holds"""
    key = "bbox.x_mm" + i; op = vc.choice("op" + i, ops or OPS + ["", "=", "=<", "about"]); d = op == "" ; rule = {} if d else {"comparison": op}
    spell = vc.choice("limit" + i, (["limit", "none"] + (["limit_mm"] if which != "native" else [])) if absent else ["limit"]); lim = vc.real("limit value" + i, -3, 3)
    if spell != "none": rule[spell] = lim
    tol = 0.0
    if vc.choice("tolerance given" + i, [0, 1]): tol = rule["tolerance"] = vc.real("tolerance" + i, 0, 2); vc.assume(vc.ge(tol, 0))
    where = vc.choice("metric" + i, ["exact", "alias", "missing"] if absent else ["exact"]); x = vc.real("value" + i, -3, 3); metrics = {"other": 1.0}
    if where == "exact": metrics[key] = x
    if where == "alias": metrics[{"native": "bbox_x_mm" + i, "calculix": key + "_mm", "fenics": key + "_mm"}[which]] = x
    v = True if spell == "none" else UND if where == "missing" or (op not in OPS and not d) else holds(vc, x, lim, op or "<=", tol); return key, rule, metrics, v, x, lim, where
@contract("C22.criterion", [NAT + "_evaluate_acceptance", CAL + "_evaluate_acceptance", FEN + "_evaluate_acceptance"], max_paths=8000, time_s=200)
def one(vc):
    """one criterion, every operator, any limit, tolerance and value, in every backend: failed exactly when its limit is violated, passed exactly when it holds, pending when the metric or the operator is missing"""
    w = vc.choice("backend", list(ADAPTERS)); a = adapter(vc, w); key, rule, metrics, v, x, lim, where = criterion(vc, w); r = a._evaluate_acceptance(metrics, {key: rule})
    if v is UND: vc.check("undecided", r == "pending")
    else: vc.check("verdict", vc.and_(r in ("passed", "failed"), vc.iff(r == "passed", v)))
@contract("C22.criteria", [NAT + "_evaluate_acceptance", CAL + "_evaluate_acceptance", FEN + "_evaluate_acceptance"], max_paths=8000, time_s=200)
def many(vc):
    """two criteria, in either order: one violated limit fails the whole; otherwise one undecided criterion leaves it pending; passed only when both hold"""
    w = vc.choice("backend", list(ADAPTERS)); a = adapter(vc, w); R = []; M = {}
    for i in "12":
        s = vc.choice("kind" + i, ["limited", "missing", "unlimited"]); x, lim = vc.real("v" + i, -3, 3), vc.real("l" + i, -3, 3); op = vc.choice("op" + i, ["<=", ">", "=="]) if s == "limited" else "<="; R.append(("m" + i, {"comparison": op, **({"limit": lim} if s != "unlimited" else {})}, UND if s == "missing" else True if s == "unlimited" else holds(vc, x, lim, op, 0.0)))
        if s != "missing": M["m" + i] = x
    r = a._evaluate_acceptance(M, {k: d for k, d, _ in R}); bad = vc.or_(*[vc.not_(v) for _, _, v in R if v is not UND]); und = any(v is UND for _, _, v in R); vc.check("failed", vc.iff(r == "failed", bad)); vc.check("otherwise", r in (("failed", "pending") if und else ("failed", "passed")))
@contract("C22.criteria_loop", [NAT + "_evaluate_acceptance", CAL + "_evaluate_acceptance", FEN + "_evaluate_acceptance"], max_paths=8000, time_s=200)
def loop(vc):
    """any number of criteria: a step returns failed exactly on a violated limit, else keeps passed only if it was passed and the criterion holds"""
    w = vc.choice("backend", list(ADAPTERS)); a = adapter(vc, w); vc.cutused = True; cut = vc.cut((NAT, CAL, FEN)[list(ADAPTERS).index(w)] + "_evaluate_acceptance"); key, rule, metrics, v, x, lim, where = criterion(vc, w); acc = {key: rule, "b": {}, "c": {}}; k, _, env = cut.pre(a, metrics, acc); vc.check("starts", k == "next" and env["status"] == "passed" and [c for c, _ in cut.over(env)] == list(acc)); was = env["status"] = vc.choice("so far", ["passed", "pending"]); k, r = cut.body(env, (key, rule)); failed = k == "return"
    if v is UND: vc.check("undecided", not failed and env["status"] == "pending")
    else: vc.check("violated", vc.iff(failed, vc.not_(v))); vc.check("step", r == "failed" if failed else k in ("next", "continue") and env["status"] == was)
    if not failed: k, r = cut.post(env); vc.check("result", k == "return" and r == env["status"])
@contract("C22.no_criteria", [NAT + "_evaluate_acceptance", CAL + "_evaluate_acceptance", FEN + "_evaluate_acceptance"])
def none(vc):
    """without criteria the analysis passes only if it computed something"""
    w = vc.choice("backend", list(ADAPTERS)); m = vc.choice("metrics", [{}, {"a": 1.0}]); vc.check("status", adapter(vc, w)._evaluate_acceptance(m, {}) == ("passed" if m else "pending"))
@contract("C22.not_a_number", [NAT + "_evaluate_acceptance", CAL + "_evaluate_acceptance", FEN + "_evaluate_acceptance"])
def nan(vc):
    """a metric that is not a number, or infinite beyond the limit, never passes; limits and tolerances may be written as text"""
    w = vc.choice("backend", list(ADAPTERS)); a = adapter(vc, w); op = vc.choice("op", OPS); t = vc.choice("tolerance", [0.0, 1.0, "1e0"]); vc.check("nan", a._evaluate_acceptance({"m": float("nan")}, {"m": {"limit": vc.choice("limit", [1.0, "180e6"]), "comparison": op, "tolerance": t}}) == "failed"); vc.check("infinite", a._evaluate_acceptance({"m": float("inf") if op[0] in "<=~" else -float("inf")}, {"m": {"limit": 1.0, "comparison": op, "tolerance": t}}) == "failed"); vc.check("text", a._evaluate_acceptance({"m": 180e6 + (1 if op == ">" else -1 if op == "<" else 0)}, {"m": {"limit": "180e6", "comparison": op, "tolerance": t}}) == "passed")
@contract("C22.reported", [NAT + "_get_failed_criteria", NAT + "_build_acceptance_results"], max_paths=8000, time_s=200)
def reported(vc):
    """the failed criteria listed, and the verdict recorded for each criterion, are those of the acceptance rules, with the metric and limit they were judged on"""
    a = adapter(vc, "native"); key, rule, metrics, v, x, lim, where = criterion(vc, "native"); f = a._get_failed_criteria(metrics, {key: rule}); r = a._build_acceptance_results(metrics, {key: rule}); limited = "limit" in rule; got = where != "missing"
    vc.check("listed", vc.iff(bool(len(f)), vc.not_(v)) if v is not UND else not f); vc.check("recorded", set(r) == {key}); e = r[key]; vc.check("verdict", (e["passed"] is None) if v is UND or not limited else vc.iff(bool(e["passed"]), v)); vc.check("value", (vc.eq(e["value"], x) if got else e["value"] is None)); vc.check("limit", vc.eq(e["limit"], lim) if limited else e["limit"] is None); vc.check("operator", e["comparison"] == rule.get("comparison", "<="))
    for c in f: vc.check("criterion", vc.and_(c["criterion"] == key, vc.eq(c["value"], x), vc.eq(c["limit"], lim), c["comparison"] == rule.get("comparison", "<=")))
@contract("C22.reported_loop", [NAT + "_get_failed_criteria", NAT + "_build_acceptance_results"], max_paths=8000, time_s=200)
def reported_loop(vc):
    """any number of criteria: a step adds its own entry exactly when violated, and its own record, leaving the others"""
    a = adapter(vc, "native"); vc.cutused = True; key, rule, metrics, v, x, lim, where = criterion(vc, "native"); acc = {key: rule, "b": {}}; cut = vc.cut(NAT + "_get_failed_criteria"); k, _, env = cut.pre(a, metrics, acc); vc.check("all visited", k == "next" and [c for c, _ in cut.over(env)] == [key, "b"] and env["failed"] == []); env["failed"] = ["earlier"]; k, _ = cut.body(env, (key, rule)); f = env["failed"]; vc.check("kept", k in ("next", "continue") and f[0] == "earlier" and len(f) <= 2); vc.check("added", vc.iff(len(f) == 2, vc.not_(v)) if v is not UND else len(f) == 1); k, r = cut.post(env); vc.check("returned", k == "return" and r is f)
    cut = vc.cut(NAT + "_build_acceptance_results"); k, _, env = cut.pre(a, metrics, acc); vc.check("all recorded", k == "next" and [c for c, _ in cut.over(env)] == [key, "b"] and env["results"] == {}); env["results"] = {"z": 1}; k, _ = cut.body(env, (key, rule)); vc.check("own record", k == "next" and set(env["results"]) == {"z", key} and env["results"]["z"] == 1); k, r = cut.post(env); vc.check("records", k == "return" and r is env["results"])

# ---------------------------------------------------------------- metrics of several parts
G3 = "yapcad.geom3d"
def parts(vc, n):
    return ["solid"] + [[] for _ in range(0)], [["solid", i] for i in range(n)]
def many_parts(vc, n, lo=1): k = vc.choice("parts", list(range(lo, n + 1))); return [["solid", [], [], [], i] for i in range(k)]
@contract("C22.volume", [NAT + "_check_volume", NAT + "_check_mass"], time_s=120)
def volume(vc):
    """up to four parts: the volume is the sum of the parts' volumes, the mass the density times it (per cubic metre), each part listed; a part without volume is an error"""
    a = adapter(vc, "native"); S = many_parts(vc, 4); V = [vc.real("v%d" % i, 0, 9) for i in range(len(S))]; rho = vc.real("density", 1, 9000); lost = vc.choice("unknown", [None, 0, len(S) - 1]); asked = []
    def vol(s): asked.append(s); i = [k for k, t in enumerate(S) if t is s][0]; return None if i == lost else V[i]
    with patched(vc, G3, volumeof=vol, issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"):
        e, m = vc.raises(a._check_volume, S if len(S) > 1 else S[0], {"units": "u"}); e2, w = vc.raises(a._check_mass, S, {"density_kgm3": rho}); _, w0 = vc.raises(a._check_mass, S, {})
    if lost is not None: vc.check("unknown volume", isinstance(e, ValueError) and isinstance(e2, ValueError)); return
    tot = vc._sum([0.0] + V); vc.check("total", vc.and_(e is None, vc.eq(m["volume"], tot), vc.eq(m["volume_u"], tot), m["part_count"] == len(S))); vc.check("mass", vc.and_(vc.eq(w["mass_kg"], tot * rho * 1e-9, tol=1e-9), vc.eq(w["mass_g"], tot * rho * 1e-6, tol=1e-9), vc.eq(w["volume_mm3"], tot), vc.eq(w["volume_m3"], tot * 1e-9, tol=1e-12), vc.eq(w["density_kgm3"], rho), vc.eq(w0["mass_kg"], tot * 2700 * 1e-9, tol=1e-9)))
    if len(S) > 1: vc.check("each part", vc.and_(*[vc.and_(vc.eq(m["volume.part_%d" % i], v), vc.eq(w["mass_kg.part_%d" % i], v * rho * 1e-9, tol=1e-9)) for i, v in enumerate(V)]))
    vc.check("parts named", {k for k in m if ".part_" in k} == ({"volume.part_%d" % i for i in range(len(S))} if len(S) > 1 else set()))
@contract("C22.volume_loop", [NAT + "_check_volume", NAT + "_check_mass", NAT + "_check_area"])
def volume_loop(vc):
    """any number of parts: each step adds the part's own volume (or area) to the total and to the list"""
    a = adapter(vc, "native"); vc.cutused = True; f = vc.choice("of", ["_check_volume", "_check_mass", "_check_area"]); v, t = vc.real("part"), vc.real("so far"); L = [["solid", 0], ["solid", 1]]; tot, lst = ("total_area", "part_areas") if f == "_check_area" else ("total_volume", "part_volumes"); a._compute_solid_area = lambda s: v if s is L[1] else 0.0
    with patched(vc, G3, volumeof=lambda s: v if s is L[1] else 0.0, issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"):
        cut = vc.cut(NAT + f); k, _, env = cut.pre(a, L, {}); vc.check("from nothing", k == "next" and env[tot] == 0 and env[lst] == [] and list(cut.over(env)) == L); env[tot] = t; env[lst] = ["x"]; k, _ = cut.body(env, L[1])
    vc.check("step", vc.and_(k == "next", vc.eq(env[tot], t + v), len(env[lst]) == 2, env[lst][0] == "x", vc.eq(env[lst][1], v)))
@contract("C22.area", [NAT + "_check_area", NAT + "_compute_solid_area", NAT + "_mesh_surface_area"])
def area(vc):
    """the area is the sum over the parts and, in each, over its surfaces; nothing to measure is an error"""
    a = adapter(vc, "native"); n = vc.choice("parts", [1, 2, 3]); S = [["solid", [["surface", i, j] for j in range(vc.choice("surfaces%d" % min(i, 1), [0, 1, 2]))]] for i in range(n)]; A = {(i, j): vc.real("a%d%d" % (i, j), 0, 9) for i in range(n) for j in range(len(S[i][1]))}
    with patched(vc, G3, surfacearea=lambda s: A[s[1], s[2]], issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"): e, m = vc.raises(a._check_area, S, {"units": "q"})
    if any(not s[1] for s in S): vc.check("nothing", isinstance(e, ValueError)); return
    each = [vc._sum([A[k] for k in A if k[0] == i]) for i in range(n)]; vc.check("total", vc.and_(e is None, vc.eq(m["area"], vc._sum(each)), vc.eq(m["area_q"], m["area"]), m["part_count"] == n))
    if n > 1: vc.check("each", vc.and_(*[vc.eq(m["area.part_%d" % i], x) for i, x in enumerate(each)]))
def box(vc, n): lo = [vc.real("%s.lo%d" % (n, i)) for i in range(3)]; return [lo + [1.0], [l + vc.real("%s.d%d" % (n, i), 0, 5, nonneg=True) for i, l in enumerate(lo)] + [1.0]]
@contract("C22.bbox", [NAT + "_check_bbox"], time_s=200, max_paths=6000)
def bbox(vc):
    """up to two parts (some without extent): the box spans exactly the parts' boxes, and width, depth, height and diagonal are its own"""
    a = adapter(vc, "native"); n = vc.choice("parts", [1, 2]); S = [["solid", i] for i in range(n)]; B = [box(vc, "b%d" % i) if vc.choice("extent%d" % i, [1, 0]) else [] for i in range(n)]; K = [b for b in B if b]; ax = vc.choice("axis", ["all", "x", "y", "z", None])
    with patched(vc, G3, solidbbox=lambda s: B[s[1]], issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"): e, m = vc.raises(a._check_bbox, S, {"axis": ax} if ax else {})
    if not K: vc.check("nothing", isinstance(e, ValueError)); return
    lo = [vc.min(*[b[0][i] for b in K]) if len(K) > 1 else K[0][0][i] for i in range(3)]; hi = [vc.max(*[b[1][i] for b in K]) if len(K) > 1 else K[0][1][i] for i in range(3)]; vc.check("extent", vc.and_(e is None, *[vc.and_(vc.eq(m["bbox.%smin" % c], lo[i]), vc.eq(m["bbox.%smax" % c], hi[i])) for i, c in enumerate("xyz")])); D = [hi[i] - lo[i] for i in range(3)]; vc.check("sizes", vc.and_(*[vc.eq(m["bbox." + k], D[i]) for i, k in enumerate(("width", "depth", "height"))])); vc.check("diagonal", vc.and_(vc.ge(m["bbox.diagonal"], 0), vc.eq(m["bbox.diagonal"] ** 2, D[0] ** 2 + D[1] ** 2 + D[2] ** 2, tol=1e-6))); vc.check("axes", vc.and_({k for k in m if k.endswith("_mm")} == {"bbox.%s_mm" % c for c in "xyz" if ax in (None, "all", c)}, *[vc.eq(m["bbox.%s_mm" % c], D[i]) for i, c in enumerate("xyz") if ax in (None, "all", c)])); vc.check("count", m["part_count"] == n)
@contract("C22.bbox_loop", [NAT + "_check_bbox"], time_s=120)
def bbox_loop(vc):
    """any number of parts: a step extends the box exactly to the part's box"""
    a = adapter(vc, "native"); vc.cutused = True; first, empty = vc.choice("first", [0, 1]), vc.choice("empty", [0, 1]); old, new = box(vc, "old"), box(vc, "new"); L = [["solid", 0], ["solid", 1]]
    with patched(vc, G3, solidbbox=lambda s: ([] if empty else new) if s is L[1] else 1 / 0, issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"):
        cut = vc.cut(NAT + "_check_bbox"); k, _, env = cut.pre(a, L, {}); vc.check("from nothing", k == "next" and env["combined_bbox"] is None and list(cut.over(env)) == L); env["combined_bbox"] = None if first else old; k, _ = cut.body(env, L[1])
    b = env["combined_bbox"]
    if first and empty: vc.check("nothing", not b); return
    K = ([] if first else [old]) + ([] if empty else [new]); vc.check("step", vc.and_(*[vc.and_(vc.eq(b[0][i], vc.min(*[x[0][i] for x in K]) if len(K) > 1 else K[0][0][i]), vc.eq(b[1][i], vc.max(*[x[1][i] for x in K]) if len(K) > 1 else K[0][1][i])) for i in range(3)]))
@contract("C22.centroid", [NAT + "_check_centroid"], time_s=120)
def centroid(vc):
    """up to three parts: the centroid is the volume-weighted mean of the parts' centroids, which are listed"""
    a = adapter(vc, "native"); n = vc.choice("parts", [1, 2, 3]); S = [["solid", i] for i in range(n)]; V = [vc.real("v%d" % i, 1, 9, pos=True) for i in range(n)]; C = [[vc.real("c%d%d" % (i, j)) for j in range(3)] for i in range(n)]; lost = vc.choice("unknown", [None, n - 1]); a._compute_solid_centroid = lambda s: None if s[1] == lost else C[s[1]]; vc.assume(vc.ge(vc._sum(V), 1e-6))
    with patched(vc, G3, volumeof=lambda s: V[s[1]], issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"): e, m = vc.raises(a._check_centroid, S, {})
    if lost is not None: vc.check("unknown", isinstance(e, ValueError)); return
    vc.check("mean", vc.and_(e is None, *[vc.eq(m["centroid." + c] * vc._sum(V), vc._sum([v * x[j] for v, x in zip(V, C)]), tol=1e-6) for j, c in enumerate("xyz")])); vc.check("count", m["part_count"] == n)
    if n > 1: vc.check("each", vc.and_(*[vc.eq(m["centroid.part_%d.%s" % (i, c)], C[i][j]) for i in range(n) for j, c in enumerate("xyz")]))
@contract("C22.centroid_loop", [NAT + "_check_centroid"])
def centroid_loop(vc):
    """any number of parts: a step adds the part's volume, and its volume times its centroid, to the sums"""
    a = adapter(vc, "native"); vc.cutused = True; L = [["solid", 0], ["solid", 1]]; v = vc.real("volume"); known = vc.choice("volume known", [1, 0]); c = [vc.real("c%d" % i) for i in range(3)]; a._compute_solid_centroid = lambda s: c if s is L[1] else 1 / 0; names = ["total_volume", "weighted_cx", "weighted_cy", "weighted_cz"]; old = [vc.real("sum%d" % i) for i in range(4)]
    with patched(vc, G3, volumeof=lambda s: v if known else None, issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"):
        cut = vc.cut(NAT + "_check_centroid"); k, _, env = cut.pre(a, L, {}); vc.check("from nothing", k == "next" and all(env[x] == 0 for x in names) and list(cut.over(env)) == L); env.update(zip(names, old)); k, _ = cut.body(env, L[1]); w = v if known else 1.0; vc.check("step", vc.and_(k == "next", *[vc.eq(env[x], o + d) for x, o, d in zip(names, old, [w, w * c[0], w * c[1], w * c[2]])]))
def surf(P, F): return ["surface", P, [], F, [], []]
@contract("C22.mesh_centroid_step", [NAT + "_mesh_centroid"])
def mesh_step(vc):
    """any number of triangles: a step adds the signed volume of the tetrahedron over the triangle and that volume times its centroid"""
    a = adapter(vc, "native"); vc.cutused = True; P = [vc.point("p%d" % i) for i in range(3)]; s = surf(P, [[0, 1, 2]]); o = vc.cut(NAT + "_mesh_centroid"); k, _, env = o.pre(a, ["solid", [s]]); vc.check("from nothing", k == "next" and all(env[x] == 0 for x in ("total_volume", "cx", "cy", "cz")) and list(o.over(env)) == [s])
    old = [vc.real("sum%d" % i) for i in range(4)]; env.update(zip(("total_volume", "cx", "cy", "cz"), old)); k, _ = o.body(env, s); x = vc.vdot(P[0][:3], vc.vcross(P[1][:3], P[2][:3])) / 6; vc.check("step", vc.and_(k == "next", vc.eq(env["total_volume"], old[0] + x, tol=1e-6, scale=50), *[vc.eq(env[n], old[i + 1] + x * (P[0][i] + P[1][i] + P[2][i]) / 4, tol=1e-6, scale=500) for i, n in enumerate(("cx", "cy", "cz"))]))
@contract("C22.mesh_centroid", [NAT + "_mesh_centroid"], time_s=120)
def mesh_centroid(vc):
    """from any sums the centroid is the moments over the volume, and a body without volume has none; over the faces of any tetrahedron the sums are its volume and its volume times the mean of its corners"""
    a = adapter(vc, "native"); vc.cutused = True; cut = vc.cut(NAT + "_mesh_centroid"); k, _, env = cut.pre(a, ["solid", [1]]); S = [vc.real("sum%d" % i) for i in range(4)]; env.update(zip(("total_volume", "cx", "cy", "cz"), S)); k, c = cut.post(env); vc.check("none without volume", vc.iff(c is None, vc.lt(vc.abs(S[0]), 1e-10)) if k == "return" else False)
    if c is not None: vc.check("mean", vc.and_(*[vc.eq(c[i] * S[0], S[i + 1], tol=1e-6) for i in range(3)]))
    P = [[vc.real("p%d%d" % (i, j), -3, 3) for j in range(3)] for i in range(4)]; F = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]; x = [vc.vdot(P[f[0]], vc.vcross(P[f[1]], P[f[2]])) / 6 for f in F]; u = [vc.vsub(P[i], P[0]) for i in (1, 2, 3)]; vol = vc.vdot(u[0], vc.vcross(u[1], u[2])) / 6; vc.check("lemma: volume", vc.eq(vc._sum(x), vol, tol=1e-6, scale=100)); vc.check("lemma: moment", vc.and_(*[vc.eq(vc._sum([v * (P[f[0]][i] + P[f[1]][i] + P[f[2]][i]) / 4 for v, f in zip(x, F)]), vol * (P[0][i] + P[1][i] + P[2][i] + P[3][i]) / 4, tol=1e-6, scale=500) for i in range(3)]))
@contract("C22.mesh_centroid_box", [NAT + "_mesh_centroid"], time_s=120)
def mesh_centroid_box(vc):
    """every tetrahedron on a corner of any box placed anywhere, as one surface or four, either way round: the centroid is the mean of its corners; without surfaces, or folded flat, there is none"""
    a = adapter(vc, "native"); o = [vc.real("o%d" % i, -9, 9) for i in range(3)]; d = [vc.real("d%d" % i, 1, 9, pos=True) for i in range(3)]; [vc.assume(vc.ge(x, 0.1)) for x in d]; P = [o + [1.0]] + [[o[j] + (d[j] if i == j else 0.0) for j in range(3)] + [1.0] for i in range(3)]; F = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]; F = [f[::-1] for f in F] if vc.choice("inside out", [0, 1]) else F; S = [surf(P, [f]) for f in F] if vc.choice("split", [0, 1]) else [surf(P, F)]; c = a._mesh_centroid(["solid", S]); vc.check("has one", c is not None)
    if c is not None: vc.check("mean", vc.and_(*[vc.eq(c[i], o[i] + d[i] / 4, tol=1e-6, scale=1000) for i in range(3)]))
    vc.check("none", a._mesh_centroid(["solid", []]) is None and a._mesh_centroid(["solid"]) is None and a._mesh_centroid(["solid", [surf(P, [[0, 1, 2], [2, 1, 0]])]]) is None)
@contract("C22.geometry", [NAT + "_load_geometry", NAT + "_normalize_geometry"])
def geometry(vc):
    """every solid of the package is measured, whatever else it holds; without solids the check is an error"""
    a = adapter(vc, "native"); G = [vc.choice("entity%d" % i, ["solid", "sketch", "surface"]) for i in range(vc.choice("entities", [0, 1, 2, 3]))]; ents = [[k, i] for i, k in enumerate(G)]; plan = types.SimpleNamespace(geometry={"aggregate": True} if vc.choice("aggregate", [0, 1]) else {})
    with patched(vc, "yapcad.package.core", load_geometry=lambda m: ents), patched(vc, G3, issolid=lambda s, fast=True: isinstance(s, list) and bool(s) and s[0] == "solid"):
        e, g = vc.raises(a._load_geometry, "manifest", plan); n = a._normalize_geometry(g) if e is None else None
    want = [x for x in ents if x[0] == "solid"]; vc.check("all solids", isinstance(e, ValueError) if not want else len(n) == len(want) and all(x is y for x, y in zip(n, want)))
@contract("C22.run", [NAT + "run"], mode="bounded", why="files, run concretely: every property, status and error", samples=120)
def run(vc):
    """the result reports the status, metrics and criteria of the check asked for, writes them to a valid summary, and any error is reported as one, never as passed"""
    a = adapter(vc, "native"); b = vc.mod(BA); prop = vc.choice("property", ["volume", "area", "bbox", "mass", "centroid", "clearance", "nothing"]); x, lim = vc.choice("value", [1.0, 2.0]), vc.choice("limit", [1.0, 1.5, None, "x"]); key = vc.choice("key", ["m", "gone"]); acc = {key: {"limit": lim}} if vc.choice("criteria", [1, 0]) else {}; err = vc.choice("load", ["ok", "fails"])
    def check(n): return lambda g, spec: {"m": x, "of": n} if g == "G" else 1 / 0
    def load(m, p):
        if err == "fails": raise ValueError("no solid")
        return "G"
    for n in ("volume", "area", "bbox", "mass", "centroid"): setattr(a, "_check_" + n, check(n))
    a._load_geometry = load; plan = b.AnalysisPlan("id", "geometric", "yapcad", acceptance=acc, raw={"check": {"property": prop}})
    with Scratch() as t:
        w = Path(t) / "a" / "b"; r = a.run(None, plan, w); f = w / "summary.json"; d = json.loads(f.read_text()) if f.exists() else None
    bad = err == "fails" or prop in ("clearance", "nothing") or (acc and lim == "x" and key == "m"); want = "error" if bad else "passed" if not acc or lim is None else "pending" if key == "gone" else "failed" if x > lim else "passed"
    vc.check("status", r.status == want and r.plan_id == "id" and r.backend == "yapcad")
    if want == "error": vc.check("no metrics", not r.metrics and r.summary.get("error")); return
    vc.check("metrics", r.metrics == {"m": x, "of": prop}); vc.check("explained", bool(r.summary.get("statusDetail"))); vc.check("summary", d is not None and d["status"] == want and d["metrics"] == r.metrics and vc.mod(SC).validate_result(d).valid and set(d["acceptance_results"]) == set(acc)); vc.check("failed", (r.summary.get("failed_criteria") or []) == ([{"criterion": key, "value": x, "limit": lim, "comparison": "<="}] if want == "failed" else []))

# ---------------------------------------------------------------- documents
class Err:
    """collects what a validator reports"""
    def __init__(self, vc): self.e, self.w = [], []
    def paths(self): return sorted(x.path for x in self.e)
@contract("C22.schema_criterion", [SC + ":validate_acceptance_criterion"])
def s_criterion(vc):
    """a criterion is accepted exactly when it has a limit and, if any, a known operator; both defects are reported at their place; an approximate comparison without tolerance only warns"""
    m = vc.mod(SC); c = {}
    if vc.choice("limit", [1, 0]): c["limit"] = vc.real("l")
    op = vc.choice("op", [None] + OPS + ["=", "", 3, "<= ", ["<="], {}, True]); 
    if op is not None: c["comparison"] = op
    if vc.choice("tolerance", [1, 0]): c["tolerance"] = 1.0
    o = Err(vc); o.e.append("x"); r = m.validate_acceptance_criterion(c, "acceptance.k", o.e, o.w); want = ([] if "limit" in c else ["acceptance.k"]) + ([] if op is None or op in OPS else ["acceptance.k.comparison"]); vc.check("verdict", bool(r) == (not want)); vc.check("reported", o.e[0] == "x" and [x.path for x in o.e[1:]] == want and all(x.severity == "error" and x.message for x in o.e[1:])); vc.check("warned", [x.path for x in o.w] == (["acceptance.k"] if op == "~=" and "tolerance" not in c else []))
@contract("C22.schema_criteria", [SC + ":validate_acceptance_criteria"])
def s_criteria(vc):
    """any number of criteria: accepted exactly when each one is; a criterion that is no mapping is reported and the others still looked at"""
    m = vc.mod(SC); bad = vc.choice("section", [None, [], "x", 3, ()]); o = Err(vc); r = m.validate_acceptance_criteria(bad, "acceptance", o.e, o.w); vc.check("no mapping", r is False and o.paths() == ["acceptance"])
    K = ["ok", "bad", "none", "list"]; docs = {"ok": {"limit": 1}, "bad": {}, "none": None, "list": [1]}; k1, k2, k3 = vc.choice("first", K), vc.choice("second", K), vc.choice("third", K); o = Err(vc); r = m.validate_acceptance_criteria({"a": docs[k1], "b": docs[k2], "c": docs[k3]}, "acceptance", o.e, o.w); vc.check("all looked at", o.paths() == ["acceptance." + n for n, k in (("a", k1), ("b", k2), ("c", k3)) if k != "ok"]); vc.check("verdict", bool(r) == (k1 == k2 == k3 == "ok"))
@contract("C22.schema_criteria_loop", [SC + ":validate_acceptance_criteria"])
def s_criteria_loop(vc):
    """any number of criteria: a step reports its own defects and keeps the verdict only if it is good"""
    m = vc.mod(SC); docs = {"ok": {"limit": 1}, "bad": {}, "none": None, "list": [1]}; k1 = vc.choice("entry", list(docs))
    vc.cutused = True; o = Err(vc); cut = vc.cut(SC + ":validate_acceptance_criteria"); d = {"a": docs[k1], "z": {}}; k, _, env = cut.pre(d, "acceptance", o.e, o.w); vc.check("starts", k == "next" and env["valid"] is True and list(cut.over(env)) == list(d.items())); was = env["valid"] = vc.choice("so far", [True, False]); k, _ = cut.body(env, ("a", docs[k1])); vc.check("step", k in ("next", "continue") and bool(env["valid"]) == (was and k1 == "ok") and o.paths() == ([] if k1 == "ok" else ["acceptance.a"])); k, r = cut.post(env); vc.check("result", k == "return" and bool(r) == bool(env["valid"]))
LOADS = ["pressure", "force", "moment", "gravity", "thermal", "displacement"]; BCS = ["fixed", "pinned", "roller", "spring", "symmetry", "thermal"]
PROPS = dict(geometric=["volume", "area", "bbox", "centroid", "distance", "clearance"], measurement=["dimension", "mass", "centroid", "moment"], assembly=["interference", "fit", "alignment", "clearance"])
@contract("C22.schema_load", [SC + ":validate_load", SC + ":validate_boundary_condition"])
def s_load(vc):
    """a load or boundary condition is accepted exactly when it has one of the documented types; a missing name or region only warns"""
    m = vc.mod(SC); of = vc.choice("of", ["load", "boundary_condition"]); ok = LOADS if of == "load" else BCS; t = vc.choice("type", [None] + sorted(set(LOADS + BCS)) + ["", "Fixed", 1, ["fixed"], {}]); c = {} if t is None else {"type": t}
    for k in ("id", "surfaces", "strategy"):
        if vc.choice(k, [0, 1]): c[k] = "x"
    o = Err(vc); i = vc.choice("index", [0, 7]); r = getattr(m, "validate_" + of)(c, i, "where", o.e, o.w); want = ["where[%d]" % i] if t is None else [] if t in ok else ["where[%d].type" % i]; vc.check("verdict", bool(r) == (not want) and o.paths() == want); vc.check("warned", len(o.w) == ("id" not in c) + ("surfaces" not in c and "strategy" not in c))
@contract("C22.schema_check", [SC + ":validate_check_section", SC + ":validate_geometry_section"])
def s_check(vc):
    """the check section names a property of its kind; the geometry section is a mapping whose entities, if any, are a list"""
    m = vc.mod(SC); kind = vc.choice("kind", sorted(PROPS)); p = vc.choice("property", [None] + sorted({x for v in PROPS.values() for x in v}) + ["", 1, ["volume"], "Volume"]); o = Err(vc); r = m.validate_check_section({} if p is None else {"property": p}, kind, "check", o.e, o.w); want = ["check"] if p is None else [] if p in PROPS[kind] else ["check.property"]; vc.check("check", bool(r) == (not want) and o.paths() == want)
    o = Err(vc); r = m.validate_check_section(vc.choice("other", [None, [], "x"]), kind, "check", o.e, o.w); vc.check("no mapping", r is False and o.paths() == ["check"])
    g = vc.choice("geometry", [{}, {"source": "s"}, {"entities": []}, {"entities": ["a"], "source": "s"}, {"entities": "a"}, {"entities": None}, {"entities": {}, "source": "s"}, None, [], "x"]); o = Err(vc); r = m.validate_geometry_section(g, "geometry", o.e, o.w); want = ["geometry"] if not isinstance(g, dict) else ["geometry.entities"] if "entities" in g and not isinstance(g["entities"], list) else []; vc.check("geometry", bool(r) == (not want) and o.paths() == want)
KINDS = ["geometric", "measurement", "structural", "thermal", "cfd", "multiphysics", "assembly"]; CHECKED = ["geometric", "measurement", "assembly"]
SECTIONS = {"id": [("a", []), ("", ["id"]), ("  ", ["id"]), (3, ["id"]), (None, ["id"])], "backend": [("b", []), ("", ["backend"]), (" ", ["backend"]), ([], ["backend"])],
 "geometry": [({"source": "s"}, []), ("absent", []), (None, ["geometry"]), ({"entities": 1}, ["geometry.entities"])], "acceptance": [({"k": {"limit": 1}}, []), ("absent", []), ([], ["acceptance"]), ({"k": {"limit": 1, "comparison": "?"}, "l": {}}, ["acceptance.k.comparison", "acceptance.l"])],
 "check": [("good", []), ("absent", [""]), ("wrong", ["check.property"]), (None, ["check"])], "materials": [({}, []), ("absent", []), ([], ["materials"])],
 "loads": [([{"type": "force"}], []), ("absent", []), ({}, ["loads"]), ([{"type": "force"}, {"type": "?"}, 3, {}], ["loads[1].type", "loads[2]", "loads[3]"])],
 "boundaryConditions": [("absent", []), ([{"type": "fixed"}], []), (None, ["boundaryConditions"]), ([4, {"type": "force"}], ["boundaryConditions[0]", "boundaryConditions[1].type"])],
 "boundary_conditions": [("absent", []), ([{"type": "fixed"}], []), ("x", ["boundary_conditions"]), ([{"type": "pinned"}, {}], ["boundary_conditions[1]"])],
 "other": [("absent", []), (1, [])], 7: [("absent", []), (1, [])]}
def plan_doc(kind, states):
    d = {"kind": kind}; want = []
    for s, (v, errs) in states.items():
        if isinstance(v, str) and v == "absent": used = s in ("check",) and kind in CHECKED
        else: d[s] = {"property": PROPS.get(kind, ["volume"])[0]} if v == "good" else {"property": "nothing"} if v == "wrong" else v; used = s in ("id", "backend", "geometry", "acceptance") or (s == "check") == (kind in CHECKED)
        if used: want += errs
    return d, sorted(want)
@contract("C22.schema_plan", [SC + ":validate_plan", SC + ":_check_required_fields"], max_paths=20000, time_s=300, samples=400)
def s_plan(vc):
    """every kind of plan and every combination of two sections in all their states: accepted exactly when none is defective, and every defect is reported at its place"""
    m = vc.mod(SC); kind = vc.choice("kind", KINDS); N = list(SECTIONS); pair = vc.choice("sections", [(a, b) for i, a in enumerate(N) for b in N[i + 1:]]); st = {s: (SECTIONS[s][vc.choice("state %s" % s, list(range(len(SECTIONS[s]))))] if s in pair else SECTIONS[s][0]) for s in N}; d, want = plan_doc(kind, st); r = m.validate_plan(d); vc.check("reported", sorted(x.path for x in r.errors) == want); vc.check("verdict", bool(r.valid) == (not want)); vc.check("warnings warn", all(x.severity == "warning" for x in r.warnings) and all(x.severity == "error" for x in r.errors)); vc.check("unknown fields", {x.path for x in r.warnings if "Unknown field" in x.message} == {str(k) for k in d if k in ("other", 7) or (k in ("materials", "loads", "boundaryConditions", "boundary_conditions") and kind in CHECKED) or (k == "loads" and kind == "cfd") or (k == "check" and kind not in CHECKED)})
@contract("C22.schema_missing", [SC + ":validate_plan", SC + ":validate_result", SC + ":_check_required_fields"])
def s_missing(vc):
    """a plan or result lacking required fields is refused and all of them are named; so is an unknown kind or status"""
    m = vc.mod(SC); of = vc.choice("of", ["plan", "result"]); F = {"plan": {"id": "a", "kind": "cfd", "backend": "b"}, "result": {"plan_id": "p", "status": "passed"}}[of]; d = {k: v for k, v in F.items() if vc.choice("has %s" % k, [1, 0])}; r = getattr(m, "validate_" + of)(d); gone = [k for k in F if k not in d]; vc.check("verdict", bool(r.valid) == (not gone)); vc.check("named", len(r.errors) == bool(gone) and (not gone or sorted(r.errors[0].message.split(": ")[1].split(", ")) == sorted(gone)))
    k = "kind" if of == "plan" else "status"; bad = vc.choice("bad", ["", "FEA", "Passed", None, 1, ["passed"], {}]); r = getattr(m, "validate_" + of)({**F, k: bad}); vc.check("unknown", r.valid is False and [x.path for x in r.errors] == [k])
RESULT = {"plan_id": [("a", []), ("", ["plan_id"]), (4, ["plan_id"])], "status": [("passed", []), ("failed", []), ("error", []), ("skipped", []), ("pending", []), ("done", ["status"]), ([], ["status"])], "metrics": [("absent", []), ({}, []), ([], ["metrics"])], "acceptance_results": [("absent", []), ({"a": {"value": 1, "passed": True}}, []), ([], ["acceptance_results"]), ({"a": {}, "b": 1, "c": {"value": 1}, "d": None}, ["acceptance_results.b", "acceptance_results.d"])], "artifacts": [("absent", []), ([{"path": "p"}], []), ({}, ["artifacts"]), ([1, {}, "x"], ["artifacts[0]", "artifacts[2]"])], "z": [("absent", []), (1, [])]}
@contract("C22.schema_result", [SC + ":validate_result"], max_paths=20000, time_s=200, samples=400)
def s_result(vc):
    """every combination of the sections of a result: accepted exactly when none is defective, and every defect is reported"""
    m = vc.mod(SC); N = list(RESULT); d = {}; want = []
    for s in N:
        v, e = RESULT[s][vc.choice("state %s" % s, list(range(len(RESULT[s]))))]; want += e
        if not (isinstance(v, str) and v == "absent"): d[s] = v
    r = m.validate_result(d); vc.check("reported", sorted(x.path for x in r.errors) == sorted(want)); vc.check("verdict", bool(r.valid) == (not want)); vc.check("printed", ("validation passed" in str(r)) == bool(r.valid) and all(x.path in str(r) for x in r.errors))
@contract("C22.schema_lists", [SC + ":validate_plan", SC + ":validate_result"])
def s_lists(vc):
    """any number of loads, boundary conditions, acceptance results and artifacts: each step reports its own defects and keeps the earlier ones"""
    m = vc.mod(SC); vc.cutused = True; what = vc.choice("list", ["loads", "boundary_conditions", "artifacts", "acceptance_results"]); k = vc.choice("entry", ["good", "bad", "other"]); i = vc.choice("index", [0, 3, 100])
    entry = {"loads": [{"type": "force"}, {}, 3], "boundary_conditions": [{"type": "fixed"}, {}, None], "artifacts": [{"path": "p"}, 3, []], "acceptance_results": [{"value": 1}, 2, None]}[what][["good", "bad", "other"].index(k)]
    if what in ("loads", "boundary_conditions"): doc = {"id": "a", "backend": "b", "kind": "structural", what: [{"type": "?"}, entry]}; fn = SC + ":validate_plan"
    else: doc = {"plan_id": "a", "status": "passed", what: {"q": {}, "e": entry} if what == "acceptance_results" else [{}, entry]}; fn = SC + ":validate_result"
    r = getattr(m, fn.split(":")[1])(doc); w = "acceptance_results.e" if what == "acceptance_results" else what + "[1]"; vc.check("in its place", [x.path for x in r.errors if x.path.startswith(w)] == ([] if k == "good" else [w]))
@contract("C22.schema_file", [SC + ":validate_plan_file", SC + ":validate_result_file"], mode="bounded", why="real files and parsers, run concretely", samples=60)
def s_file(vc):
    """a file is judged by the document in it; a missing, empty, unparsable or non-mapping file is refused with the reason"""
    m = vc.mod(SC); of = vc.choice("of", ["plan", "result"]); good = json.dumps({"plan": {"id": "a", "kind": "cfd", "backend": "b"}, "result": {"plan_id": "a", "status": "error"}}[of]); k = vc.choice("file", ["good", "bad", "missing", "empty", "broken", "list"]); text = {"good": good, "bad": "{\"id\": \"\"}", "empty": "", "broken": "{\"a\": [", "list": "[1]"}.get(k)
    with Scratch() as t:
        p = Path(t) / "f"
        if text is not None: p.write_text(text)
        e, r = vc.raises(getattr(m, "validate_%s_file" % of), p if vc.choice("as", [0, 1]) else str(p))
    vc.check("verdict", e is None and bool(r.valid) == (k == "good") and bool(r.errors) == (k != "good"))

# ---------------------------------------------------------------- plans, results and the record
KNOWN = ["id", "kind", "backend", "name", "description", "geometry", "materials", "loads", "boundaryConditions", "boundary_conditions", "acceptance", "backendOptions", "execution", "attachments"]
@contract("C22.load_plan", [BA + ":load_plan", BA + ":_parse_execution_config"], max_paths=6000)
def load_plan(vc):
    """a plan is loaded only with its required fields, and every section is taken over as given; other fields become its metadata"""
    import yaml
    m = vc.mod(BA); S = {"geometry": {"source": "s"}, "materials": {"a": {}}, "loads": [{"type": "x"}], "acceptance": {"k": {"limit": 2}}, "backendOptions": {"n": 0}, "attachments": [{"p": 1}], "name": "n", "description": "d", "execution": {"mode": "Remote", "command": "c", "transport": "ssh", "host": "h", "workdir": "w", "env": {"A": "1"}, "options": {"q": 2}, "license": {"l": 3}}}; d = {k: v for k, v in (("id", "i"), ("kind", "k"), ("backend", "BE")) if vc.choice("has %s" % k, [1, 0])}; full = len(d) == 3; left = vc.choice("left out", list(S) + [None]) if full else None; d.update({k: v for k, v in S.items() if k != left}); bc = vc.choice("boundary conditions", ["both", "first", "second", "none"]) if full else "none"
    if bc in ("both", "first"): d["boundaryConditions"] = [1]
    if bc in ("both", "second"): d["boundary_conditions"] = [2]
    d["check"] = {"property": "volume"}; d["extra"] = 5; doc = vc.choice("document", ["plan", "list", "empty"]) if full else "plan"; there = vc.choice("exists", [1, 0]) if full else 1
    p = FakePath("plan.yaml", there); P = vc.mod(BA).Path
    with patched(vc, BA, Path=lambda x: x), patched(vc, "yaml", safe_load=lambda fp: {"plan": d, "list": [1], "empty": None}[doc]): e, r = vc.raises(m.load_plan, p)
    if not there: vc.check("missing", isinstance(e, FileNotFoundError)); return
    if doc != "plan" or not full: vc.check("refused", isinstance(e, ValueError)); vc.check("named", full or all(k in str(e).split(":")[1].replace(",", " ").split() for k in ("id", "kind", "backend") if k not in d)); return
    vc.check("loaded", e is None and (r.plan_id, r.kind, r.backend, r.normalized_backend) == ("i", "k", "BE", "be")); g = lambda k, empty: S[k] if k != left else empty
    vc.check("sections", r.geometry == g("geometry", {}) and r.materials == g("materials", {}) and r.loads == g("loads", []) and r.acceptance == g("acceptance", {}) and r.backend_options == g("backendOptions", {}) and r.attachments == g("attachments", []) and r.name == g("name", None) and r.description == g("description", None)); vc.check("boundary conditions", r.boundary_conditions == {"both": [1], "first": [1], "second": [2], "none": []}[bc]); x = r.execution; vc.check("execution", {k: getattr(x, k) for k in S["execution"]} == (S["execution"] if left != "execution" else dict(mode="local", command=None, transport=None, host=None, workdir=None, env={}, options={}, license={})) and x.is_remote == (left != "execution")); vc.check("rest", r.metadata == {"check": d["check"], "extra": 5} and r.raw == d)
@contract("C22.entry", [BA + ":AnalysisResult.to_manifest_entry"])
def entry(vc):
    """the manifest entry carries the plan, the status and everything the result has, with the path relative to the package where it can be"""
    m = vc.mod(BA); F = dict(metrics={"a": 1.0}, summary={"s": 1}, artifacts=[{"p": 1}], backend="b", timestamp="t", notes="n"); has = {k: v for k, v in F.items() if vc.choice(k, [1, 0])}; at = vc.choice("path", [None, "/pkg/validation/x.json", "/elsewhere/x.json"]); r = m.AnalysisResult("id", vc.choice("status", ["passed", "failed", "pending"]), summary_path=at and Path(at), **has); e = r.to_manifest_entry(Path("/pkg")); want = dict(has, plan="id", status=r.status)
    if at: want["path"] = "validation/x.json" if at.startswith("/pkg") else at
    vc.check("entry", e == want)
@contract("C22.backends", [BA + ":register_backend", BA + ":get_backend", BA + ":available_backends"])
def backends(vc):
    """a backend is found under the name it was registered with, in any letter case, and only adapters can be registered"""
    m = vc.mod(BA); vc.mod(NA), vc.mod(CX), vc.mod(FE); n = vc.choice("name", ["yapcad", "yapcad-native", "calculix", "fenics", "dolfinx", "fenics-dolfinx"]); cls = dict(y="YapCADNativeAdapter", c="CalculixAdapter", f="FenicsxAdapter", d="FenicsxAdapter")[n[0]]; c = vc.choice("case", [str.lower, str.upper, str.title]); vc.check("found", m.get_backend(c(n)).__name__ == cls and n in m.available_backends() and m.get_backend("other") is None); old = dict(m._BACKENDS)
    try:
        class A(m.AnalysisAdapter):
            def run(self, *a, **k): pass
        m.register_backend("My-One", A); vc.check("registered", m.get_backend("MY-one") is A and set(m._BACKENDS) == set(old) | {"my-one"}); e, _ = vc.raises(m.register_backend, "bad", dict); vc.check("adapters only", isinstance(e, TypeError) and "bad" not in m._BACKENDS)
    finally: m._BACKENDS.clear(); m._BACKENDS.update(old)
@contract("C22.record", [CL + ":analyze_package", CL + ":_ensure_plan_entry"], mode="bounded", why="writes a package, run concretely: statuses, reruns, missing backends", samples=60)
def record(vc):
    """the record of an analysis says what the backend reported, in a valid result file and in one manifest entry per plan, even after a rerun; without the backend nothing is reported as passed"""
    m = vc.mod(CL); b = vc.mod(BA); import yaml; runs = [(vc.choice("status%d" % i, ["passed", "failed", "error", "none"]), vc.choice("metrics%d" % i, [{"a": 1.0}, {}])) for i in range(vc.choice("runs", [1, 2]))]; at = vc.choice("id", ["p", "q"]); mode = vc.choice("mode", ["local", "remote"]); ex = {"mode": mode, **{k: "x" + k for k in ("transport", "host") if vc.choice(k, [0, 1])}}; old = dict(b._BACKENDS); todo = []
    class A(b.AnalysisAdapter):
        def run(self, manifest, plan, workspace, **k): s, mt = todo[0]; return b.AnalysisResult(plan.plan_id, s, metrics=dict(mt), summary={"plan": plan.plan_id})
    try:
        with Scratch() as t:
            root = Path(t) / "x.ycpkg"; (root / "plans").mkdir(parents=True); (root / "manifest.yaml").write_text(yaml.safe_dump({"schema": "ycpkg-spec-v0.1", "id": "i", "name": "n", "version": "1", "validation": {"results": [{"plan": "other", "status": "failed"}]}})); pl = root / "plans" / "p.yaml"; pl.write_text(yaml.safe_dump({"id": at, "kind": "cfd", "backend": "Made-Up", "execution": dict(ex)}))
            for s, mt in runs:
                todo[:] = [(s, mt)]; b._BACKENDS.clear(); b._BACKENDS.update(old)
                if s != "none": b.register_backend("made-up", A)
                sp = m.analyze_package(root, "plans/p.yaml"); d = json.loads(Path(sp).read_text()); man = yaml.safe_load((root / "manifest.yaml").read_text()); want = "pending" if s == "none" else s; E = [x for x in man["validation"]["results"] if x["plan"] == at]
                vc.check("file", d["status"] == want and d["plan_id"] == at and vc.mod(SC).validate_result(d).valid and d["execution"] == ex); vc.check("one entry", len(E) == 1 and E[0]["status"] == want and E[0].get("metrics", {}) == ({} if s == "none" else mt) and (root / E[0]["path"]).exists()); vc.check("others kept", man["validation"]["results"][0] == {"plan": "other", "status": "failed"}); vc.check("one plan", man["validation"]["plans"] == [{"id": at, "path": "plans/p.yaml", "kind": "cfd", "backend": "Made-Up", "execution": ex}])
    finally: b._BACKENDS.clear(); b._BACKENDS.update(old)

# ---------------------------------------------------------------- CalculiX model
@contract("C22.mesh_config", [CAL + "_mesh_config"])
def mesh_config(vc):
    """every number given in the plan, zero included, is the one used; the backend options go before the geometry, and only what is not given gets its default"""
    a = adapter(vc, "calculix"); opts, geom = {}, {}; v = {}
    def val(src, k): return vc.choice(src + k, [None, 0, 1]) 
    for k in ("inner_radius_mm", "outer_radius_mm", "thickness_mm"):
        for src, d in (("o ", opts), ("g ", geom)):
            c = vc.choice(src + k, ["absent", "zero", "set"]) if (src == "o " or k == "inner_radius_mm") else "set"
            if c != "absent": d[k] = 0 if c == "zero" else vc.real(src + "value " + k, 1, 9)
    th = vc.choice("thrust", ["absent", "zero", "first", "second", "both"]); t1, t2 = vc.real("t1", 1, 9), vc.real("t2", 1, 9); opts.update({"zero": {"thrust_n": 0.0}, "first": {"thrust_n": t1}, "second": {"thrust_force_n": t2}, "both": {"thrust_n": t1, "thrust_force_n": t2}}.get(th, {}))
    plan = types.SimpleNamespace(backend_options=opts, geometry=geom); c = a._mesh_config(plan); pick = lambda k, d: opts.get(k, geom.get(k, d)); inner = pick("inner_radius_mm", 0.0); vc.check("sizes", vc.and_(vc.eq(c.inner_radius, inner), vc.eq(c.outer_radius, pick("outer_radius_mm", inner + 1.0)), vc.eq(c.thickness, pick("thickness_mm", 10.0)))); vc.check("thrust", vc.eq(c.thrust_force, {"absent": 2224.0, "zero": 0.0, "first": t1, "second": t2, "both": t1}[th])); vc.check("defaults", (c.radial_divisions, c.thickness_divisions, c.youngs_modulus, c.poisson_ratio) == (24, 2, 68.9e3, 0.33)); plan = types.SimpleNamespace(backend_options={"radial_divisions": 3, "thickness_divisions": 4, "youngs_modulus_mpa": 5, "poisson_ratio": 0.1, "density_tonemm3": 6}, geometry={}); c = a._mesh_config(plan); vc.check("given", (c.radial_divisions, c.thickness_divisions, c.youngs_modulus, c.poisson_ratio, c.density) == (3, 4, 5.0, 0.1, 6.0))
@contract("C22.disk_mesh", [CAL + "_generate_mesh"])
def disk_mesh(vc):
    """the mesh covers the section with a regular grid from inner to outer radius and bottom to top, its elements run counter-clockwise, share corners with their neighbours and fill the area exactly, and the inner nodes are those on the inner radius (any radii and thickness, up to 4 by 3 divisions)"""
    m = vc.mod(CX); nr, nz = vc.choice("radial", [1, 2, 3, 4]), vc.choice("axial", [1, 2, 3]); r0, w, h = vc.real("inner", 0, 9, nonneg=True), vc.real("width", 1, 9, pos=True), vc.real("thickness", 1, 9, pos=True); N, E, I = adapter(vc, "calculix")._generate_mesh(m._MeshConfig(r0, r0 + w, h, nr, nz, 1.0, 0.3, 1.0, 1.0)); vc.check("nodes", vc.and_(len(N) == (nr + 1) * (nz + 1), *[vc.and_(vc.eq(r, r0 + w * (k % (nr + 1)) / nr, tol=1e-9), vc.eq(z, h * (k // (nr + 1)) / nz, tol=1e-9)) for k, (r, z) in enumerate(N)])); vc.check("elements", len(E) == nr * nz and len(set(E)) == len(E) and all(1 <= n <= len(N) for e in E for n in e))
    q = lambda e: vc._sum([(N[e[i] - 1][0] * N[e[(i + 1) % 4] - 1][1] - N[e[(i + 1) % 4] - 1][0] * N[e[i] - 1][1]) / 2 for i in range(4)]); vc.check("each its share, counter-clockwise", vc.and_(*[vc.eq(q(e) * nr * nz, w * h, tol=1e-6) for e in E])); cnt = {}
    for e in E:
        for i in range(4): s = (e[i], e[(i + 1) % 4]); cnt[s] = cnt.get(s, 0) + 1
    vc.check("joined", all(c == 1 for c in cnt.values()) and sum((b, a) not in cnt for a, b in cnt) == 2 * (nr + nz)); vc.check("inner nodes", I == [j * (nr + 1) + 1 for j in range(nz + 1)])
@contract("C22.solver_file", [CAL + "_write_input_file", CAL + "_parse_max_displacement", CAL + "run"], mode="bounded", why="text files and a solver process stand-in, run concretely", samples=60)
def solver_file(vc):
    """the input deck lists every node and element, fixes the outer nodes and spreads the thrust over the inner ones; the displacement read back is the largest in the file; a solver that is missing or fails never passes"""
    m = vc.mod(CX); a = adapter(vc, "calculix"); nr, nz = vc.choice("radial", [1, 3]), vc.choice("axial", [1, 2]); F = vc.choice("thrust", [0.0, 12.0, 2224.0]); c = m._MeshConfig(0.0 if vc.choice("hole", [0, 1]) else 2.0, 10.0, 4.0, nr, nz, 70.0, 0.3, 1e-6, F); code = vc.choice("exit", [0, 1, "missing"]); rows = [[vc.choice("d%d%d" % (i, j), [0.25, -3.5, 1.0]) for j in range(3)] for i in range(vc.choice("rows", [0, 1, 3]))]; nanrow = vc.choice("nan", [None, 0, 1])
    if nanrow is not None and nanrow < len(rows): rows[nanrow][1] = float("nan")
    lim = vc.choice("limit", [0.5, 3.5]); text = " displacements (vx,vy,vz) for set N and time 1.0\n\n" + "".join(" %d %e %e %e\n" % (i + 1, *r) for i, r in enumerate(rows))
    with Scratch() as t:
        w = Path(t) / "w"; w.mkdir(); a._write_input_file(w / "x.inp", c); L = (w / "x.inp").read_text().splitlines(); sec = {}; cur = None
        for s in L:
            if s.startswith("*"): cur = s; sec[cur] = []
            else: sec[cur].append(s)
        plan = vc.mod(BA).AnalysisPlan("j", "fea", "calculix", acceptance={"displacement.max_mm": {"limit": lim}}, backend_options={"inner_radius_mm": 1, "outer_radius_mm": 2})
        def go(cmd, cwd=None, **k): (Path(cwd) / "j.dat").write_text(text); return types.SimpleNamespace(returncode=code, stdout="", stderr="")
        sh, sp = m.shutil.which, m.subprocess.run
        try: m.shutil.which = lambda c: None if code == "missing" else "/nowhere/ccx"; m.subprocess.run = go; r = a.run(None, plan, w / "o")
        finally: m.shutil.which = sh; m.subprocess.run = sp
    N, E, I = a._generate_mesh(c); num = lambda s: [float(x) for x in s.split(",")]; vc.check("nodes", [num(s)[0] for s in sec["*NODE"]] == list(range(1, len(N) + 1)) and all(abs(num(s)[1] - p[0]) < 1e-4 and abs(num(s)[2] - p[1]) < 1e-4 for s, p in zip(sec["*NODE"], N))); vc.check("elements", [tuple(int(x) for x in s.split(",")) for s in sec["*ELEMENT, TYPE=CAX4"]] == [(i + 1, *e) for i, e in enumerate(E)]); vc.check("fixed", [int(x) for x in sec["*NSET, NSET=N_OUTER"][0].split(",")] == [i + 1 for i, p in enumerate(N) if abs(p[0] - 10.0) < 1e-6] and sec["*BOUNDARY"] == ["N_OUTER, 1, 2"]); ld = [s.split(",") for s in sec["*CLOAD"]]; vc.check("thrust", [int(x[0]) for x in ld] == I and all(int(x[1]) == 2 for x in ld) and abs(sum(float(x[2]) for x in ld) + F) < 1e-3 * max(1.0, F))
    d = max([abs(x[1]) for x in rows], default=None) if not any(x[1] != x[1] for x in rows) else float("nan"); want = "skipped" if code == "missing" else "error" if code else "pending" if d is None else "passed" if d <= lim else "failed"; vc.check("status", r.status == want)

# ---------------------------------------------------------------- naming faces
@contract("C22.triangle_sums", [FN + ":FaceNamer._triangle_sums"])
def triangle_sums(vc):
    """any number of triangles: each step adds the triangle's area, its area times its centroid, and its directed area"""
    m = vc.mod(FN); n = m.FaceNamer(None); vc.cutused = True; cut = vc.cut(FN + ":FaceNamer._triangle_sums"); P0, u = vc.point("p"), vc.unit3("u"); L, x, y = vc.real("L", 1, 4, pos=True), vc.real("x", -4, 4), vc.real("y", 1, 4, pos=True)
    v = vc.vcross(u, vc.unit3("t")) if False else None; A = [vc.real("a%d" % i, -4, 4) for i in range(3)]; B = [vc.real("b%d" % i, -4, 4) for i in range(3)]; P = [P0, [P0[i] + A[i] for i in range(3)] + [1.0], [P0[i] + B[i] for i in range(3)] + [1.0]]; s = surf(P, [[0, 1, 2], [2, 1, 0]]); k, _, env = cut.pre(n, s); vc.check("from nothing", k == "next" and env["area"] == 0 and env["moment"] == [0, 0, 0] and env["vector"] == [0, 0, 0] and list(cut.over(env)) == s[3]); a0 = env["area"] = vc.real("area"); mo = [vc.real("m%d" % i) for i in range(3)]; ve = [vc.real("v%d" % i) for i in range(3)]; env["moment"], env["vector"] = list(mo), list(ve); k, _ = cut.body(env, [0, 1, 2]); c = vc.vcross(A, B); da = env["area"] - a0; vc.check("area", vc.and_(k == "next", vc.ge(da, -1e-9), vc.eq(4 * da * da, vc.vdot(c, c), tol=1e-6, scale=2000))); vc.check("directed", vc.and_(*[vc.eq(env["vector"][i], ve[i] + c[i] / 2, tol=1e-6, scale=50) for i in range(3)])); vc.check("moment", vc.and_(*[vc.eq(env["moment"][i], mo[i] + da * (P[0][i] + P[1][i] + P[2][i]) / 3, tol=1e-6, scale=200) for i in range(3)]))
@contract("C22.face_info", [FN + ":FaceNamer._compute_centroid", FN + ":FaceNamer._compute_normal", FN + ":FaceNamer._compute_area", FN + ":FaceNamer._extract_faces"])
def face_info(vc):
    """each surface of a solid is a face with its own area, the centroid its moment over its area, and the unit direction of its directed area"""
    m = vc.mod(FN); A = vc.real("A", 1, 9, pos=True); M = [vc.real("m%d" % i) for i in range(3)]; u, L = vc.unit3("u"), vc.real("L", 1, 9, pos=True); vc.assume(vc.ge(L, 1e-3)); k = vc.choice("surfaces", [0, 1, 3]); S = [surf([], [i]) for i in range(k)]; n = m.FaceNamer(None); n._triangle_sums = lambda s: (A + s[3][0], M, [L * x for x in u]); n.solid = ["solid", S]
    with patched(vc, G3, issolid=lambda s, fast=True: True): n._extract_faces()
    vc.check("every surface", [f.index for f in n.faces] == list(range(k))); vc.check("faces", vc.and_(*[vc.and_(vc.eq(f.area, A + i), *[vc.eq(f.centroid[j] * (A + i), M[j], tol=1e-6) for j in range(3)], *[vc.eq(f.normal[j], u[j], tol=1e-9) for j in range(3)]) for i, f in enumerate(n.faces)]))
def faces(vc, n, what): m = vc.mod(FN); return [m.FaceInfo(i, *what(i)) for i in range(n)]
@contract("C22.by_position", [FN + ":ByPositionSelector.matches", FN + ":ByAreaSelector.matches"], max_paths=4000, time_s=120)
def by_position(vc):
    """up to three faces: exactly the faces at the least (or greatest) coordinate within the tolerance, or strictly beyond the bounds, are selected; by area likewise within its bounds, with the largest and the smallest"""
    m = vc.mod(FN); n = vc.choice("faces", [1, 2, 3]); ax = vc.choice("axis", ["x", "y", "z", "Z"]); j = "xyz".index(ax.lower()); mode = vc.choice("mode", ["min", "max", "above", "below", "between", "area", "largest", "smallest"]); X = [vc.real("x%d" % i, -3, 3) for i in range(n)]; lo, hi = vc.real("lo", -3, 3), vc.real("hi", -3, 3)
    F = [m.FaceInfo(i, tuple(X[i] if k == j else 0.5 for k in range(3)), (0.0, 0.0, 1.0), X[i]) for i in range(n)]; tol = vc.real("tol", 0, 1); vc.assume(vc.ge(tol, 0)); T = lambda f: vc.mod(FN).ByPositionSelector(axis=ax, tolerance=tol, **f)
    big = vc.max(*X) if n > 1 else X[0]; small = vc.min(*X) if n > 1 else X[0]
    if mode in ("largest", "smallest"): [vc.assume(vc.ge(x, 0)) for x in X]
    s = {"min": lambda: T({"at_min": True}), "max": lambda: T({"at_max": True}), "above": lambda: T({"above": lo}), "below": lambda: T({"below": hi}), "between": lambda: T({"above": lo, "below": hi}), "area": lambda: m.ByAreaSelector(min_area=lo, max_area=hi), "largest": lambda: m.ByAreaSelector(largest=True), "smallest": lambda: m.ByAreaSelector(smallest=True)}[mode](); s.set_context(F)
    for i, f in enumerate(F):
        x = X[i]; got = bool(s.matches(f)); want = {"min": lambda: vc.le(x - small, tol), "max": lambda: vc.le(big - x, tol), "above": lambda: vc.gt(x, lo), "below": lambda: vc.lt(x, hi), "between": lambda: vc.and_(vc.gt(x, lo), vc.lt(x, hi)), "area": lambda: vc.and_(vc.ge(x, lo), vc.le(x, hi)), "largest": lambda: vc.le(big - x, 1e-6 * big), "smallest": lambda: vc.le(x - small, 1e-6 * x)}[mode](); vc.check("selected", vc.iff(got, want))
@contract("C22.by_normal", [FN + ":ByNormalSelector.matches", FN + ":ByNormalSelector.__init__"])
def by_normal(vc):
    """exactly the faces whose normal is within the angle of the direction (or, if allowed, of its opposite) are selected, whatever the length of the direction given"""
    m = vc.mod(FN); u, n = vc.unit3("u"), vc.unit3("n"); L = vc.real("length", 1, 9, pos=True); vc.assume(vc.ge(L, 1e-3)); tol = vc.real("tolerance", 0, 180); vc.assume(vc.and_(vc.ge(tol, 0), vc.le(tol, 180))); rev = vc.choice("reversed", [False, True]); s = m.ByNormalSelector(tuple(L * x for x in u), tol, rev); vc.check("direction", vc.and_(*[vc.eq(a, b, tol=1e-9) for a, b in zip(s.direction, u)])); d = vc.vdot(u, n); ang = vc.acos(vc.abs(d) if rev else d); got = bool(s.matches(m.FaceInfo(0, (0.0,) * 3, tuple(n), 1.0)))
    rad = tol * vc.pi / 180; vc.check("selected", vc.implies(got, vc.le(ang, rad + 1e-7))); vc.check("not selected", vc.implies(not got, vc.ge(ang, rad - 1e-7))); vc.check("helpers", [(f().direction, f().allow_reversed) for f in (m.top_faces, m.bottom_faces, m.front_faces, m.back_faces, m.left_faces, m.right_faces)] == [((0, 0, 1), False), ((0, 0, -1), False), ((0, 1, 0), False), ((0, -1, 0), False), ((-1, 0, 0), False), ((1, 0, 0), False)] and m.largest_face().largest and m.smallest_face().smallest and m.faces_at_z_min().at_min and m.faces_at_z_max().at_max and m.faces_at_z_min().axis_idx == 2)
@contract("C22.naming", [FN + ":FaceNamer.name_faces", FN + ":FaceNamer.get_named_faces", FN + ":FaceNamer.to_metadata", FN + ":CombinedSelector.matches", FN + ":CombinedSelector.set_context"])
def naming(vc):
    """a name is given to exactly the faces its selector matches or its list names; combined selectors need all, or any, of theirs to match"""
    m = vc.mod(FN); k = vc.choice("faces", [0, 1, 3]); n = m.FaceNamer(None); n._faces = [m.FaceInfo(i, (0.0, 0.0, float(i)), (0.0, 0.0, 1.0), 1.0) for i in range(k)]; hit = [bool(vc.choice("a%d" % i, [0, 1])) for i in range(k)]; hit2 = [bool(vc.choice("b%d" % i, [0, 1])) for i in range(k)]; ctx = []
    class S(m.FaceSelector):
        def __init__(self, h): self.h = h
        def set_context(self, f): ctx.append(f)
        def matches(self, f): return self.h[f.index]
    mode = vc.choice("mode", ["and", "or", "AND", "one", "list"]); sel = S(hit) if mode == "one" else [i for i in range(k) if hit[i]] if mode == "list" else m.CombinedSelector([S(hit), S(hit2)], mode); r = n.name_faces({"q": sel}); want = [i for i in range(k) if (hit[i] if mode in ("one", "list") else (hit[i] or hit2[i]) if mode == "or" else (hit[i] and hit2[i]))]; vc.check("matched", r == {"q": want}); vc.check("named", [f.name for f in n.faces] == ["q" if i in want else None for i in range(k)]); vc.check("listed", n.get_named_faces() == ({"q": want} if want else {}) and n.to_metadata()["face_names"] == n.get_named_faces() and [f["index"] for f in n.to_metadata()["faces"]] == list(range(k))); vc.check("context", mode == "list" or all(c is n._faces for c in ctx) and len(ctx) == (1 if mode == "one" else 2))
