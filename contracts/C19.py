import copy, json, math, uuid as _uuid
from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched
GJ = "yapcad.io.geometry_json"; MD = "yapcad.metadata"; T = GJ + ":"; M = MD + ":"
METAS = [None, {}, {"schema": "metadata-namespace-v1.1", "entityId": "E1", "id": "E1", "tags": ["a", "b"], "layer": "skin", "material": {"name": "PLA", "d": [1, {"x": 2}]}, "name": "part"}, {"entityId": "E2", "tags": [], "layer": "", "custom": {"deep": [1, [2]]}}, {"layer": None, "id": "only-id"}]
OVER = [None, {}, {"layer": "red", "name": "N"}, {"entityId": "X9", "id": "X9", "tags": ["q"], "deep": {"k": [1]}}, {"layer": ""}]
def defaults(m, live):
    """the metadata of an entity once it has an identity: the explicit fields, plus defaults for what is absent"""
    m = copy.deepcopy(m or {}); m.setdefault("schema", "metadata-namespace-v1.1"); m.setdefault("tags", [])
    if not m.get("layer"): m["layer"] = "default"
    m.setdefault("entityId", live.get("entityId")); m.setdefault("id", live.get("id")); return m
def expected(m, live, over):
    e = defaults(m, live); e.update(copy.deepcopy(over or {}))
    if not e.get("layer"): e["layer"] = "default"
    return e
def surf(vc, name, n, faces, meta=None):
    s = ["surface", [vc.point("%s.v%d" % (name, i)) for i in range(n)], [vc.vec3("%s.n%d" % (name, i)) + [0.0] for i in range(n)], copy.deepcopy(faces), [], []]
    if meta is not None: s.append(copy.deepcopy(meta))
    return s
def little(vc, name, meta=None): return surf(vc, name, 1, [[0, 0, 0]], meta)
def nobox(vc): return patched(vc, GJ, surfacebbox=lambda s: None, solidbbox=lambda s: None)
def poke(x):
    """change every container in a document"""
    if isinstance(x, dict):
        for v in list(x.values()): poke(v)
        x["poked"] = True
    elif isinstance(x, list):
        for v in x: poke(v)
        x.append("poked")

# ---------------------------------------------------------------- surfaces
@contract("C19.numbers", [T + "_float_vec", T + "_int_vec", T + "_point_components", T + "_point_from_components", T + "_polyline_points", T + "_bbox_or_none"])
def numbers(vc):
    """coordinates, indices and boxes are written as they are; a coordinate that is not finite is refused; points come back with their own components"""
    m = vc.mod(GJ); n = vc.choice("n", [0, 1, 3, 4, 6]); v = [vc.real("c%d" % i) for i in range(n)]; vc.check("values", vc.same(m._float_vec(v), v)); vc.check("from any sequence", vc.same(m._float_vec(tuple(v)), v)); vc.check("indices", m._int_vec([3, 0, 7][:n]) == [3, 0, 7][:n]); p = vc.point("p"); w = vc.real("w", pos=True)
    vc.check("point", vc.same(m._point_components(p), p)); vc.check("short points", vc.same(m._point_components(p[:2]), [p[0], p[1], 0.0, 1.0]) and vc.same(m._point_components(p[:3]), [p[0], p[1], p[2], 1.0])); vc.check("and back", vc.same(m._point_from_components(p[:3] + [w]), p[:3] + [w])); vc.check("short ones", vc.and_(vc.same(m._point_from_components(p[:3]), p[:3] + [1]), vc.same(m._point_from_components(p[:2]), p[:2] + [0, 1]))); vc.check("planar", vc.same(m._polyline_points(p), p[:2])); q = vc.point("q"); vc.check("box", vc.same(m._bbox_or_none([p, q]), p[:3] + q[:3])); vc.check("no box", m._bbox_or_none(None) is None and m._bbox_or_none([]) is None)
    bad = vc.choice("bad", [float("inf"), float("-inf"), float("nan")]); i = vc.choice("where", [0, 1, 2]); z = [1.0, 2.0, 3.0]; z[i] = bad; x, r = vc.raises(m._float_vec, z); vc.check("not finite", isinstance(x, ValueError))
@contract("C19.numbers_any", [T + "_float_vec", T + "_int_vec", T + "_serialize_surface", T + "_rehydrate_surface"])
def numbers_any(vc):
    """however many vertices, normals, faces and coordinates: each is written and read on its own, all of them"""
    fv = vc.comp(T + "_float_vec", 0); v = [vc.real("a"), vc.real("b")]; vc.check("all coordinates", fv.over({"vec": v}) is v); k, r = fv.elt({"vec": v}, v[0]); vc.check("each coordinate", k and vc.eq(r, v[0])); iv = vc.comp(T + "_int_vec", 0); k, r = iv.elt({"vec": [4]}, 4); vc.check("each index", k and r == 4 and iv.over({"vec": [4]}) == [4]); w = vc.point("w"); E = {"verts": ["V"], "norms": ["N"], "faces": ["F"]}
    for i, s in enumerate(("verts", "norms", "faces")): c = vc.comp(T + "_serialize_surface", i); vc.check("all " + s, c.over(E) is E[s]); k, r = c.elt(E, w if i < 2 else [5, 6, 7]); vc.check("each of " + s, k and vc.same(r, w if i < 2 else [5, 6, 7]))
    D = {"entry": {"vertices": ["V"], "normals": ["N"], "faces": ["F"]}}
    for i, s in enumerate(("vertices", "normals", "faces")): c = vc.comp(T + "_rehydrate_surface", i); vc.check("all read " + s, c.over(D) == D["entry"][s]); k, r = c.elt(D, w if i < 2 else [5, 6, 7]); vc.check("each read of " + s, k and vc.same(r, w if i < 2 else [5, 6, 7]))
@contract("C19.surface", [T + "_serialize_surface", T + "_rehydrate_surface", T + "geometry_to_json", T + "geometry_from_json", M + "get_surface_metadata", M + "ensure_surface_id", M + "set_surface_metadata"], max_paths=6000, time_s=200)
def surface(vc):
    """a surface comes back with its vertices, normals, faces, metadata and identity (the given metadata on top); the model keeps its geometry and its metadata, and neither shares state with the document nor the document with what is loaded"""
    m = vc.mod(GJ); mi = vc.choice("metadata", [0, 1, 2, 3, 4]); oi = vc.choice("override", [0, 1, 2, 3, 4]); n, F = vc.choice("shape", [(0, []), (3, [[0, 1, 2]]), (4, [[0, 2, 1], [2, 3, 0], [1, 1, 1]])]) if mi == 2 and oi == 0 else (3, [[2, 0, 1]]); s = surf(vc, "s", n, F, METAS[mi]); over = copy.deepcopy(OVER[oi]); keep = vc.snapshot(s[1:6]); how = vc.choice("given", ["dict", "tuple"]); item = s if over is None else {"geometry": s, "metadata": over} if how == "dict" else (s, over)
    with nobox(vc): doc = m.geometry_to_json([item], units="mm", generator={"name": "g"}); x = doc["entities"]; vc.check("document", doc["schema"] == m.SCHEMA_ID and doc["units"] == "mm" and doc["generator"] == {"name": "g"} and len(x) == 1 and x[0]["type"] == "surface"); out = m.geometry_from_json(doc)
    vc.check("model unchanged", vc.same(s[1:6], keep)); live = s[6]; vc.check("model metadata", live == defaults(METAS[mi], live) and bool(live["entityId"]) and bool(live["id"])); want = expected(METAS[mi], live, OVER[oi]); vc.check("written metadata", x[0]["metadata"] == want and x[0]["id"] == want["entityId"] and x[0]["name"] == want.get("name")); vc.check("given metadata unchanged", over == OVER[oi]); vc.check("one back", len(out) == 1 and out[0][0] == "surface" and len(out[0]) == 7); t = out[0]
    vc.check("vertices", vc.same(t[1], keep[0])); vc.check("normals", vc.same(t[2], keep[1])); vc.check("faces", t[3] == F); vc.check("metadata", t[6] == want); vc.check("identity", vc.mod(MD).ensure_surface_id(t) == want["id"]); a = copy.deepcopy(t[6]); b = copy.deepcopy(live); poke(doc); vc.check("document is separate", t[6] == a and s[6] == b and over == OVER[oi] and vc.same(t[1], keep[0]) and vc.same(s[1:6], keep)); poke(t[6]); vc.check("loaded is separate", s[6] == b)
@contract("C19.box", [T + "_serialize_surface", T + "_serialize_solid"])
def box(vc):
    """the recorded bounding box is the model's; where there is none, null is recorded"""
    m = vc.mod(GJ); p, q = vc.point("p"), vc.point("q"); s = little(vc, "s"); sd = ["solid", [little(vc, "t")], [], []]; bad = vc.choice("fails", [None, ValueError, TypeError, ZeroDivisionError])
    def f(o):
        if bad: raise bad("x")
        return [p, q] if o is s else [q, p] if o is sd else None
    with patched(vc, GJ, surfacebbox=f, solidbbox=f): d = m.geometry_to_json([s, sd])
    E = {e["type"] + str(vc.same(e.get("vertices"), s[1]) is True): e for e in d["entities"]}; one = [e for e in d["entities"] if e["type"] == "solid"][0]; two = [e for e in d["entities"] if e["id"] == s[6]["entityId"]][0]; vc.check("solid", one["boundingBox"] is None if bad else vc.same(one["boundingBox"], q[:3] + p[:3])); vc.check("surface", two["boundingBox"] is None if bad else vc.same(two["boundingBox"], p[:3] + q[:3]))

# ---------------------------------------------------------------- solids
def shape(x): return [x[1], x[2], x[3]]
@contract("C19.solid", [T + "_serialize_solid", T + "geometry_to_json", T + "geometry_from_json", M + "get_solid_metadata", M + "ensure_solid_id", M + "set_solid_metadata"], max_paths=8000, time_s=200)
def solid(vc):
    """a solid comes back with its own surfaces in order, its voids, metadata and identity; every surface keeps its identity unless it is already taken, and inherits the layer of the solid if it has none; the model is left alone"""
    m = vc.mod(GJ); lay = vc.choice("lay", ["one", "two", "void", "voids", "none", "shared", "sameid"]); mi = vc.choice("metadata", [0, 2, 3]); oi = vc.choice("override", [0, 2, 3]); sl = vc.choice("surface layer", [None, "default", "own", ""]); sm = {"layer": sl, "entityId": "S0", "id": "S0", "note": [1]} if sl is not None else None; A = little(vc, "a", sm); B = little(vc, "b"); C = little(vc, "c", {"entityId": "S0"} if lay == "sameid" else None)
    outer, voids = {"one": ([A], []), "two": ([A, B], []), "void": ([A], [[B]]), "voids": ([B, A], [[C], []]), "none": ([], []), "shared": ([A, A], [[A]]), "sameid": ([A, C], [])}[lay]; sd = ["solid", list(outer), [list(v) for v in voids], []]
    if METAS[mi] is not None: sd.append(copy.deepcopy(METAS[mi]))
    over = copy.deepcopy(OVER[oi]); every = outer + [s for v in voids for s in v]; keep = [vc.snapshot(s[1:6]) for s in every]; olds = [copy.deepcopy(s[6]) if len(s) > 6 else None for s in every]
    with nobox(vc): doc = m.geometry_to_json([sd if over is None else {"geometry": sd, "metadata": over}]); out = m.geometry_from_json(doc)
    live = sd[4]; vc.check("model unchanged", live == defaults(METAS[mi], live) and sd[1] == outer and sd[2] == voids and sd[3] == [] and all(x is y for x, y in zip(sd[1], outer))); vc.check("its surfaces unchanged", vc.and_(True, *[vc.same(s[1:6], k) for s, k in zip(every, keep)]) if every else True); vc.check("their metadata unchanged", all(s[6] == defaults(o, s[6]) for s, o in zip(every, olds))); E = doc["entities"]; ids = [e["id"] for e in E]; vc.check("ids are unique", len(set(ids)) == len(ids) == 1 + len(every)); want = expected(METAS[mi], live, OVER[oi]); top = [e for e in E if e["type"] == "solid"]; vc.check("entry", len(top) == 1 and top[0]["metadata"] == want and top[0]["id"] == want["entityId"]); vc.check("references", len(top[0]["shell"]) == len(outer) and [len(v) for v in top[0]["voids"]] == [len(v) for v in voids] and all(i in ids for i in top[0]["shell"] + [j for v in top[0]["voids"] for j in v]))
    vc.check("one back", len(out) == 1 and out[0][0] == "solid" and len(out[0]) == 5); t = out[0]; vc.check("metadata", t[4] == want); vc.check("structure", len(t[1]) == len(outer) and [len(v) for v in t[2]] == [len(v) for v in voids]); got = t[1] + [s for v in t[2] for s in v]; vc.check("geometry", vc.and_(True, *[vc.same(g[1:4], k[:3]) for g, k in zip(got, keep)]) if every else True); seen = set()
    for g, s, o in zip(got, every, olds):
        e = defaults(o, s[6]); ov = {k: v for k, v in (OVER[oi] or {}).items() if k not in ("id", "entityId")}
        if ov.get("layer"): e["layer"] = ov["layer"]
        elif e["layer"] == "default": e["layer"] = want["layer"]
        e.update({k: v for k, v in ov.items() if k != "layer"}); fresh = e["entityId"] in seen; seen.add(e["entityId"])
        if fresh: vc.check("a taken id is replaced", g[6]["entityId"] not in ("S0",) and g[6]["id"] == g[6]["entityId"]); e["entityId"] = e["id"] = g[6]["entityId"]
        vc.check("surface metadata", g[6] == e)
    a = copy.deepcopy([t[4]] + [g[6] for g in got]); b = copy.deepcopy([live] + [s[6] for s in every]); poke(doc); vc.check("document is separate", [t[4]] + [g[6] for g in got] == a and [live] + [s[6] for s in every] == b and over == OVER[oi])
@contract("C19.solid_any", [T + "_serialize_solid", T + "geometry_from_json"])
def solid_any(vc):
    """any number of surfaces: each one written adds exactly one entry, under an id of its own, listed next; each one read is the entry with the listed id"""
    vc.cutused = True; which = vc.choice("which", ["shell", "void", "read", "read void"]); S = little(vc, "s", {"entityId": "S0", "id": "S0", "layer": vc.choice("layer", ["own", "default"])})
    if which in ("shell", "void"):
        taken = vc.choice("taken", [False, True]); cache = {"Z": {"z": 1}}; old = {"S0": {"old": 1}} if taken else {}; cache.update(old); over = vc.choice("over", [None, {"name": "q", "entityId": "P", "id": "P"}]); full = copy.deepcopy(cache); loop = vc.cut(T + "_serialize_solid", 0 if which == "shell" else 3, replace={0: lambda e: None, 2: lambda e: None} if which == "void" else {2: lambda e: None})
        with nobox(vc):
            p = vc.cut(T + "_serialize_solid", 0, replace={2: lambda e: None}); k, v, e = p.pre(["solid", [S], [[S]], [], {"layer": "L"}], cache, over); vc.check("all surfaces", k == "next" and p.over(e) == [S])
            if which == "void": e["void_ids"] = ["before"]; e["void"] = [S]; vc.check("all of the void", loop.over(e) == [S])
            else: e["shell_ids"] = ["before"]
            k, v = loop.body(e, S)
        L = e["shell_ids"] if which == "shell" else e["void_ids"]; vc.check("goes on", k == "next"); vc.check("listed next", len(L) == 2 and L[0] == "before"); i = L[1]; vc.check("one more entry", len(cache) == len(full) + 1 and i not in full and all(cache[j] == full[j] for j in full)); vc.check("its own id", (i == "S0") == (not taken) and cache[i]["id"] == i and cache[i]["metadata"]["entityId"] == i); vc.check("its geometry", vc.same(cache[i]["vertices"], S[1])); vc.check("model left alone", S[6]["entityId"] == "S0" and "name" not in S[6])
    else:
        sid = "k"; have = vc.choice("have", ["made", "entry", "neither"]); made = ["surface", [], [], [], [], []]; ent = {"id": "k", "type": "surface", "vertices": S[1], "normals": S[2], "faces": S[3], "metadata": {"entityId": "k"}}; lst = "shell_surfaces" if which == "read" else "void_surfaces"; loop = vc.cut(T + "geometry_from_json", 3 if which == "read" else 5); e = loop.args({}); e.update({"surfaces": {"k": made} if have == "made" else {}, "entries_by_id": {"k": ent} if have != "neither" else {}, lst: ["x"], "entry": {"shell": ["k"]}, "void_ids": ["k"]}); vc.check("all ids", list(loop.over(e)) == ["k"]); x, r = vc.raises(loop.body, e, "k"); vc.check("missing reference", (x is not None) == (have == "neither"))
        if x is None: L = e[lst]; vc.check("read next", len(L) == 2 and L[0] == "x" and (L[1] is made if have == "made" else vc.same(L[1][1], S[1]) and L[1][6] == {"entityId": "k"}))
@contract("C19.entities", [T + "geometry_to_json", T + "geometry_from_json"], max_paths=4000)
def entities(vc):
    """every entity of a document comes back: solids, sketches and surfaces that belong to no solid, whatever they stand next to; anything else is refused"""
    m = vc.mod(GJ); n = vc.choice("n", [0, 1, 2, 3]); kinds = [vc.choice("kind%d" % i, ["solid", "surface", "sketch", "again"]) for i in range(n)]; made = []; x = vc.real("x"); sk = 0
    for i, k in enumerate(kinds):
        if k == "again": k, g = made[0] if made else ("surface", little(vc, "g%d" % i))
        elif k == "solid": g = ["solid", [little(vc, "g%d" % i)], [], []]
        elif k == "surface": g = little(vc, "g%d" % i)
        else: g = [[[x, float(i), 0, 1], [x + 1.0, 0.0, 0, 1]]]
        made.append((k, g))
    with nobox(vc), patched(vc, GJ, bbox2d=lambda g: None): out = m.geometry_from_json(m.geometry_to_json([g for k, g in made]))
    vc.check("all come back", len(out) == n); got = {"solid": [], "surface": [], "sketch": []}
    for o in out: got["solid" if o[0] == "solid" else "surface" if o[0] == "surface" else "sketch"].append(o)
    for k in got:
        want = [g for q, g in made if q == k]; vc.check("each " + k, len(got[k]) == len(want)); body = {"solid": lambda g: [s[1:4] for s in g[1]], "surface": lambda g: g[1:4], "sketch": lambda g: g}[k]; vc.check("in order", vc.and_(True, *[vc.same(body(a), body(b)) for a, b in zip(got[k], want)]))
        if k != "sketch": ids = [o[-1]["entityId"] for o in got[k]]; vc.check("identities", all(i == g[-1]["entityId"] for i, (j, g) in zip(ids, enumerate(want)) if not any(g is h for h in want[:j])))
    odd = vc.choice("odd", [{}, 5, "text", [1, 2], None]); r, _ = vc.raises(m.geometry_to_json, [odd]); vc.check("anything else", r is not None)
@contract("C19.reject", [T + "geometry_from_json"])
def reject(vc):
    """a document of another schema, an entity without id or a reference to a missing surface is refused"""
    m = vc.mod(GJ); ok = {"id": "s", "type": "surface", "vertices": [], "normals": [], "faces": []}; D = vc.choice("document", [{}, {"schema": None}, {"schema": "yapcad-geometry-json-v0.2", "entities": []}, {"schema": "", "entities": []}, {"entities": [ok]}, {"schema": m.SCHEMA_ID, "entities": [dict(ok, id="")]}, {"schema": m.SCHEMA_ID, "entities": [ok, {"type": "surface"}]}, {"schema": m.SCHEMA_ID, "entities": [ok, {"id": "a", "type": "solid", "shell": ["s", "t"]}]}, {"schema": m.SCHEMA_ID, "entities": [{"id": "a", "type": "solid", "shell": [], "voids": [["t"]]}, ok]}]); x, r = vc.raises(m.geometry_from_json, D); vc.check("refused", isinstance(x, ValueError)); vc.check("accepted", m.geometry_from_json({"schema": m.SCHEMA_ID, "entities": [ok]}) == [["surface", [], [], [], [], []]] and m.geometry_from_json({"schema": m.SCHEMA_ID}) == [])

# ---------------------------------------------------------------- sketches
@contract("C19.sketch", [T + "_serialize_sketch", T + "geometry_from_json"], max_paths=4000)
def sketch(vc):
    """lines, circles, arcs (with their sampling direction and plane), ellipses, splines and polylines of a planar sketch come back as the same curves, in order"""
    m = vc.mod(GJ); g = vc.mod("yapcad.geom"); n = vc.choice("n", [1, 2]); E = []; W = []
    for i in range(n):
        k = vc.choice("kind%d" % i, ["line", "circle", "arc", "ellipse", "catmullrom", "nurbs", "polyline"] if i == 0 else ["line", "arc"]); p = [vc.pointxy("p%d.%d" % (i, j)) for j in range(4)]; q = [vc.point("q%d.%d" % (i, j)) for j in range(4)]; r = vc.real("r%d" % i, pos=True)
        if k == "line": e = [p[0], p[1]]; w = [e]
        elif k == "circle": e = [q[0], [r, 0, 360, vc.choice("direction%d" % i, [-1, -2])]] + vc.choice("plane%d" % i, [[], [[0.0, 0.0, 1.0, 1.0]], [[0.0, -1.0, 0.0, 1.0]]]); w = [e]
        elif k == "arc": e = [q[0], [r, vc.real("a%d" % i), vc.real("b%d" % i), vc.choice("direction%d" % i, [-1, -2])]] + vc.choice("plane%d" % i, [[], [[1.0, 0.0, 0.0, 1.0]]]); w = [e]
        elif k == "ellipse":
            r2 = vc.real("s%d" % i, pos=True); vc.assume(vc.le(r2, r, tol=0, scale=0)); e = ["ellipse", q[0], {"semi_major": r, "semi_minor": r2, "rotation": vc.real("rot%d" % i), "start": 0, "end": 360, "normal": [0.0, 0.0, 1.0, 0.0]}]
            if vc.choice("part%d" % i, [False, True]): e[2].update(start=vc.real("e%d" % i, pos=True), end=vc.real("f%d" % i), normal=[0.0, 1.0, 0.0, 0.0])
            w = [e]
        elif k == "catmullrom": e = ["catmullrom", q, {"closed": vc.choice("closed%d" % i, [False, True]), "alpha": vc.real("al%d" % i)}]; w = [e]
        elif k == "nurbs": e = ["nurbs", q, {"degree": vc.choice("degree%d" % i, [1, 2, 3]), "weights": [vc.real("w%d.%d" % (i, j), pos=True) for j in range(4)], "knots": []}]; e[2]["knots"] = [vc.real("k%d.%d" % (i, j)) for j in range(4 + e[2]["degree"] + 1)]; w = [e]
        else: e = p; w = [[p[j], p[j + 1]] for j in range(3)]
        E.append(e); W += w
    keep = vc.snapshot(E); over = vc.choice("metadata", [None, {"layer": "L", "deep": [1]}]) if n == 1 else None
    with patched(vc, GJ, bbox2d=lambda g: None, _sample_geometry_element=lambda e, **k: []): d = m.geometry_to_json([E if over is None else (E, over)]); out = m.geometry_from_json(d)
    vc.check("model unchanged", vc.same(E, keep)); vc.check("one sketch", len(out) == 1 and d["entities"][0]["type"] == "sketch"); vc.check("number of curves", len(out[0]) == len(W)); vc.check("same curves", vc.same(out[0], W)); md = d["entities"][0]["metadata"]; vc.check("metadata", bool(md["entityId"]) and d["entities"][0]["id"] == md["entityId"] and md["layer"] == ("L" if over else "default")); poke(d); vc.check("document is separate", vc.same(E, keep) and vc.same(out[0], W) and over in (None, {"layer": "L", "deep": [1]}))
@contract("C19.sketch_any", [T + "_serialize_sketch"])
def sketch_any(vc):
    """any number of curves: each adds one primitive of its own after those before it"""
    vc.cutused = True; cut = vc.cut(T + "_serialize_sketch", 0); p, q = vc.pointxy("p"), vc.pointxy("q"); r = vc.real("r", pos=True); e = vc.choice("kind", [0, 1, 2, 3]); el = [[p, q], [p, [r, 0, 360, -1]], [p, [r, 10.0, 20.0, -2]], ["catmullrom", [p, q], {"closed": False, "alpha": 0.5}]][e]
    with patched(vc, GJ, bbox2d=lambda g: None, _sample_geometry_element=lambda e, **k: ["samples"]): L = [el]; k, v, env = cut.pre(L); vc.check("all elements", k == "next" and cut.over(env) is L); env["primitives"] = ["P"]; env["poly_vectors"] = ["V"]; k, v = cut.body(env, el); vc.check("one more", k == "next" and len(env["primitives"]) == 2 and env["primitives"][0] == "P" and len(env["poly_vectors"]) == 2 and env["poly_vectors"][0] == "V"); vc.check("of its kind", env["primitives"][1]["kind"] == ["line", "circle", "arc", "catmullrom"][e]); k, v = cut.post(env)
    vc.check("document", k == "return" and v["primitives"] == env["primitives"] and v["polylines"] is env["poly_vectors"] and v["type"] == "sketch")
@contract("C19.samples", [T + "_sample_geometry_element"])
def samples(vc):
    """the drawn polyline of a curve consists of points of the curve, in order, from start to end, at least eight steps (thirty-two for splines)"""
    m = vc.mod(GJ); kind = vc.choice("kind", ["line", "arc", "nurbs", "catmullrom"]); p, q = vc.pointxy("p"), vc.pointxy("q"); asked = []; ln = vc.choice("length", [0.0, 0.5, 9.7, 12.2]); pts = vc.uf if False else None
    def smp(e, t): asked.append((e, t)); return [p[0] + t, p[1] - t, 0.0, 1.0]
    el = {"line": [p, q], "arc": [p, [1.0, 0.0, 90.0, -1]], "nurbs": ["nurbs", [p, q], {}], "catmullrom": ["catmullrom", [p, q], {}]}[kind]
    with patched(vc, GJ, sample=smp, length=lambda e: ln): r = m._sample_geometry_element(el)
    if kind == "line": vc.check("its ends", vc.same(r, [p[:2], q[:2]]))
    else: n = len(r) - 1; vc.check("enough", n >= (32 if kind != "arc" else 8) and n >= int(ln)); vc.check("of this curve in order", len(asked) == n + 1 and all(a is el and abs(t - i / n) < 1e-12 for i, (a, t) in enumerate(asked))); vc.check("its points", vc.and_(*[vc.same(r[i], [p[0] + i / n, p[1] - i / n]) for i in range(n + 1)]))

# ---------------------------------------------------------------- metadata helpers
def start(vc):
    mi = vc.choice("metadata", [1, 2, 3]); m = copy.deepcopy(METAS[mi])
    if mi == 2: m.update({"manufacturing": {"process": "old", "x": 1}, "designHistory": {"author": "old", "iterations": [{"revision": "0"}]}, "constraints": {"mass": {"max_kg": 1.0, "note": "n"}, "envelope": {"x_mm": 9.0}, "compliance": ["A"]}, "analysis": {"simulations": [{"s": 1}], "y": 2}, "assembly": {"joint_kind": "axial", "datums": [{"id": "d0"}], "bolt_patterns": [{"id": "b0"}]}, "operation": {"kind": "union", "priority": 1.0}})
    if mi == 3: m["material"] = "steel"      # not a section
    return m
def base(m):
    e = copy.deepcopy(m); e.setdefault("schema", "metadata-namespace-v1.1"); e.setdefault("tags", [])
    if not e.get("layer"): e["layer"] = "default"
    return e
def section(e, k):
    if not isinstance(e.get(k), dict): e[k] = {}
    return e[k]
@contract("C19.helpers", [M + f for f in ("set_material", "set_manufacturing", "add_design_history_entry", "set_mass_constraint", "set_envelope_constraint", "add_compliance", "add_analysis_record", "set_layer", "add_tags", "_ensure_root", "_ensure_namespace", "_append_tag")], max_paths=6000)
def helpers(vc):
    """each helper sets exactly the fields it is given, in its own section, and leaves every other field as it was"""
    mod = vc.mod(MD); m = start(vc); e = base(m); x = vc.real("x"); y = vc.real("y"); f = vc.choice("helper", ["material", "manufacturing", "history", "mass", "envelope", "compliance", "analysis", "layer", "tags"]); some = vc.choice("given", [0, 1, 2]); same = m
    if f == "material":
        kw = [{}, {"name": "n", "density_kg_m3": x}, {"standard": "s", "grade": "g", "source": "q", "name": "", "density_kg_m3": y}][some]; r = mod.set_material(m, **kw); section(e, "material").update(kw)
    elif f == "manufacturing":
        L = ["f1", "f2"]; D = {"a": 1}; kw = [{}, {"process": "p", "fixtures": L}, {"instructions": "i", "layers": D, "postprocessing": ("u", "v"), "fixtures": []}][some]; r = mod.set_manufacturing(m, **kw); section(e, "manufacturing").update({k: list(v) if isinstance(v, tuple) else copy.deepcopy(v) for k, v in kw.items()}); L.append("later"); D["b"] = 2
    elif f == "history":
        kw = [{}, {"author": "a", "revision": "r", "notes": "n"}, {"source": "s", "context": "c", "tools": ["t"], "timestamp": "now"}][some]; r = mod.add_design_history_entry(m, **kw); s = section(e, "designHistory"); s.update({k: v for k, v in kw.items() if k in ("author", "source", "context", "tools")}); it = s.setdefault("iterations", []); en = {k: v for k, v in kw.items() if k in ("revision", "timestamp", "notes")}; it += [en] if en else []
    elif f == "mass": kw = [{}, {"max_kg": x}, {"max_kg": x, "target_kg": y}][some]; r = mod.set_mass_constraint(m, **kw); section(e, "constraints").setdefault("mass", {}).update(kw)
    elif f == "envelope": kw = [{}, {"y_mm": x}, {"x_mm": x, "y_mm": y, "z_mm": 0}][some]; r = mod.set_envelope_constraint(m, **kw); section(e, "constraints").setdefault("envelope", {}).update(kw)
    elif f == "compliance": L = [[], ["A", "B", "B", ""], ["C", "A"]][some]; r = mod.add_compliance(m, L); q = section(e, "constraints").setdefault("compliance", []); q += [i for j, i in enumerate(L) if i and i not in q and i not in L[:j]]
    elif f == "analysis": R = [{}, {"solver": "s"}, {"v": x}][some]; r = mod.add_analysis_record(m, R); section(e, "analysis").setdefault("simulations", []).append(copy.deepcopy(R)); R["later"] = 1
    elif f == "layer": L = ["", "new", None][some]; r = mod.set_layer(m, L); e["layer"] = L or "default"
    else: L = [[], ["a", "z", "z", ""], ["b", "c", "c2", "a"]][some]; r = mod.add_tags(m, L); e["tags"] += [i for j, i in enumerate(L) if i and i not in e["tags"] and i not in L[:j]]
    vc.check("the same metadata", r is m and m is same); vc.check("only its fields", vc.same(m, e))
@contract("C19.tags_any", [M + "add_tags", M + "_append_tag"])
def tags_any(vc):
    """any number of tags: each one is appended only if it is not there yet, so tags never repeat and never get lost"""
    vc.cutused = True; cut = vc.cut(M + "add_tags", 0); old = ["a", "b"]; m = {"tags": list(old), "other": 1}; L = ["t"]; k, v, e = cut.pre(m, L); vc.check("all", k == "next" and cut.over(e) is L); t = vc.choice("tag", ["a", "b", "c", "", None]); cut.body(e, t); vc.check("kept and added once", m["tags"] == old + ([t] if t == "c" else [])); k, v = cut.post(e); vc.check("same metadata", k == "return" and v is m and m["other"] == 1)
@contract("C19.sections", [M + f for f in ("set_assembly", "add_bolt_pattern", "add_datum", "add_surface", "add_keepout", "set_operation", "get_assembly_metadata", "get_operation_metadata", "_build_fastener", "_validate_enum")], max_paths=6000, time_s=150)
def sections(vc):
    """assembly and operation helpers record exactly what they are given after the earlier entries; a value outside its vocabulary is refused and nothing that was recorded is changed"""
    mod = vc.mod(MD); m = start(vc); before = copy.deepcopy(m); e = base(m); x, y, z = vc.real("x"), vc.real("y"), vc.real("z"); f = vc.choice("helper", ["assembly", "bolts", "datum", "surface", "keepout", "operation"]); o = vc.choice("given", [0, 1, 2, 3]); bad = o == 3; sect = "operation" if f == "operation" else "assembly"; s = section(e, sect)
    if f == "assembly": kw = [{}, {"joint_kind": "radial"}, {"no_cut": 1, "joint_kind": "none"}, {"joint_kind": "sideways"}][o]; fn = mod.set_assembly; s.update({k: (bool(v) if k == "no_cut" else v) for k, v in kw.items()}); ret = s
    elif f == "bolts": kw = [dict(id="i", ring="axial", R_mm=x, z_mm=y, count=3), dict(id=7, ring="radial", R_mm=x, z_mm=y, count=4, theta0_deg=z, tolerance_mm=0, fastener={"designation": "M3", "thread": "tap", "junk": 1}), dict(id="i", ring="axial", R_mm=1, z_mm=y, count=1, fastener={}), vc.choice("wrong", [dict(id="i", ring="up", R_mm=x, z_mm=y, count=3), dict(id="", ring="axial", R_mm=x, z_mm=y, count=3), dict(id="i", ring="axial", R_mm=x, z_mm=y, count=3, fastener={"head": "none?"})])][o]; fn = mod.add_bolt_pattern; ret = dict(kw, id=str(kw["id"])); ret.pop("fastener", None) if o != 1 else ret.__setitem__("fastener", {"designation": "M3", "thread": "tap"}); ret.update({"fastener": {}} if o == 2 else {}); s.setdefault("bolt_patterns", []).append(ret)
    elif f == "datum": kw = [dict(id="i", kind="axis"), dict(id=1, kind="plane", ring="axial", R_mm=x, z_mm=y), dict(id="q", kind="point", origin_mm=(x, y, z), direction=[z, 0, x]), vc.choice("wrong", [dict(id="i", kind="line"), dict(id="", kind="axis"), dict(id="i", kind="axis", origin_mm=[1, 2]), dict(id="i", kind="axis", direction=[1, 2, 3, 4]), dict(id="i", kind="axis", ring="up")])][o]; fn = mod.add_datum; ret = dict(kw, id=str(kw["id"])); ret.update({k: list(v) for k, v in kw.items() if k in ("origin_mm", "direction")}); s.setdefault("datums", []).append(ret)
    elif f == "surface": kw = [dict(id="i", kind="mating"), dict(id=2, kind="wear", mate_to=5, finish="f", tolerance_mm=x), dict(id="i", kind="datum", tolerance_mm=0), vc.choice("wrong", [dict(id="i", kind="soft"), dict(id=None, kind="wear")])][o]; fn = mod.add_surface; ret = dict(kw, id=str(kw["id"])); ret.update({"mate_to": "5"} if o == 1 else {}); s.setdefault("surfaces", []).append(ret)
    elif f == "keepout": kw = [dict(id="i", kind="volume"), dict(id=2, kind="ring", shape={"r": x}, reason=3), dict(id="i", kind="axis", shape={}), vc.choice("wrong", [dict(id="i", kind="area"), dict(id="i", kind="axis", shape=[1]), dict(id="", kind="axis")])][o]; fn = mod.add_keepout; ret = dict(kw, id=str(kw["id"])); ret.update({"reason": "3"} if o == 1 else {}); s.setdefault("keepouts", []).append(ret)
    else: kw = [dict(kind="subtract"), dict(kind="union", target_filter=("a", 1), priority=x, through=1, consume=0), dict(kind="intersect", policy="warn", feature_id=4, feature_kind="vent", stage="s"), vc.choice("wrong", [dict(kind="add"), dict(kind="union", policy="x"), dict(kind="union", feature_kind="x")])][o]; fn = mod.set_operation; q = dict(kw); q.update({"target_filter": ["a", "1"], "through": True, "consume": False} if o == 1 else {"feature_id": "4"} if o == 2 else {}); s.update(q); ret = s
    ex, r = vc.raises(fn, m, **kw); vc.check("refused", isinstance(ex, ValueError) == bad)
    if not bad: vc.check("returns its entry", vc.same(r, ret)); vc.check("only its fields", vc.same(m, e))
    else: now = copy.deepcopy(m); vc.check("recorded values stay", all(now.get(k) == v for k, v in base(before).items() if k != sect or v) or now == before)
    k = vc.choice("kind of section", ["assembly", "operation"]); get = getattr(mod, "get_%s_metadata" % k); fresh = {"x": 1}; r = get(fresh); vc.check("not created", r == {} and fresh == {"x": 1}); r = get(fresh, create=True); vc.check("created", fresh[k] is r and r == {} and get(fresh) is r); vc.check("no metadata", get(None) == {} and get(5, create=True) == {})
@contract("C19.identity", [M + f for f in ("get_surface_metadata", "get_solid_metadata", "set_surface_metadata", "set_solid_metadata", "ensure_surface_id", "ensure_solid_id", "set_surface_units", "set_surface_origin", "set_solid_context", "_ensure_metadata", "_initial_root")])
def identity(vc):
    """an entity gets its identity once and keeps it; different entities get different ones; what is attached is what is read; layer and identity survive copying and every other helper"""
    mod = vc.mod(MD); k = vc.choice("kind", ["surface", "solid"]); mi = vc.choice("metadata", [0, 1, 2, 3, 4]); mk = lambda: ["surface", [], [], [], [], []] if k == "surface" else ["solid", [], [], []]; s, t = mk(), mk(); ens = getattr(mod, "ensure_%s_id" % k); get = getattr(mod, "get_%s_metadata" % k); put = getattr(mod, "set_%s_metadata" % k); M0 = copy.deepcopy(METAS[mi]); 
    if M0 is not None: vc.check("attached", put(s, M0) is s and s[-1] is M0)
    q = get(s); vc.check("explicit fields", all(q.get(a) == v for a, v in (METAS[mi] or {}).items() if v) and bool(q.get("schema", "x"))); i = ens(s); vc.check("kept", ens(s) == i == get(s)["id"] == get(s, create=True)["id"]); f = get(s); vc.check("identity and defaults", f == defaults(METAS[mi], f) and (METAS[mi] or {}).get("id", i) == i and f["entityId"] == (METAS[mi] or {}).get("entityId", f["entityId"])); vc.check("different", ens(t) != i); vc.check("live", get(s) is s[-1] and get(s, create=True) is s[-1] and len(s) == len(mk()) + 1); c = copy.deepcopy(s); vc.check("copying", ens(c) == i and get(c)["layer"] == f["layer"] and get(c) is not f); before = copy.deepcopy(f)
    if k == "surface": vc.check("units", mod.set_surface_units(s, "mm") is s and get(s) == dict(before, units="mm")); vc.check("origin", mod.set_surface_origin(s, "o") is s and get(s) == dict(before, units="mm", origin="o"))
    else: ctx = {"a": 1}; vc.check("context", mod.set_solid_context(s, ctx) is s and get(s) == dict(before, context={"a": 1})); x, r = vc.raises(mod.set_solid_context, s, [1]); vc.check("context type", isinstance(x, ValueError))
    bad = vc.choice("bad", [None, [], ["point"], {"surface": 1}, "surface"]); vc.check("only entities", all(isinstance(vc.raises(fn, *a)[0], ValueError) for fn, a in ((get, (bad,)), (put, (bad, {})), (put, (s, [1]))))); vc.check("the other kind", isinstance(vc.raises(get, ["solid", [], [], []] if k == "surface" else ["surface", [], [], [], [], []])[0], ValueError))

# ---------------------------------------------------------------- whole documents as text
@contract("C19.text", [T + "geometry_to_json", T + "geometry_from_json", "yapcad.geom3d:solid"], mode="bounded", why="random models written as JSON text and read back", samples=150)
def text(vc):
    """random models of primitives, surfaces and sketches come back from their JSON text with the same numbers, identities and metadata, and a second round changes nothing"""
    m = vc.mod(GJ); u = vc.mod("yapcad.geom3d_util"); md = vc.mod(MD); g = vc.mod("yapcad.geom"); R = vc.rng; E = []
    for i in range(R.randrange(1, 4)):
        k = R.choice(["prism", "sphere", "cone", "surface", "sketch"])
        if k == "sketch": e = [g.line(g.point(0, 0), g.point(R.random(), 1)), g.arc(g.point(R.random(), 2), R.random() + 0.1, 10.0, R.uniform(20, 300), samplereverse=R.random() < 0.5), g.ellipse(g.point(1, R.random()), 3, R.uniform(0.5, 2.5), rotation=R.uniform(0, 90)), g.nurbs([g.point(R.random(), j) for j in range(5)], degree=R.choice([2, 3])), g.catmullrom([g.point(R.random(), j) for j in range(3)], closed=R.random() < 0.5)]; E.append(e); continue
        e = u.prism(R.random() + 0.1, 1.0, 2.0) if k == "prism" else u.sphere(R.random() + 0.5, depth=1) if k == "sphere" else u.conic(1.0, R.random(), 2.0) if k == "cone" else u.prism(1.0, R.random() + 0.1, 1.0)[1][0]; q = (md.get_surface_metadata if k == "surface" else md.get_solid_metadata)(e, create=True); md.add_tags(q, R.sample(["a", "b", "c"], 2)); md.set_material(q, name="PLA", density_kg_m3=R.random()); md.set_layer(q, R.choice(["default", "x", "y"]))
        if k != "surface": vc.check("construction is recorded as such", e[2] == [] and e[3][:1] == ["procedure"])
        E.append(e)
    keep = copy.deepcopy(E); d = m.geometry_to_json(E); t = json.dumps(d, allow_nan=False); out = m.geometry_from_json(json.loads(t)); vc.check("same number", len(out) == len(E)); kind = lambda e: e[0] if e[0] in ("solid", "surface") else "sketch"; sig = lambda e: [sig(s) for s in e[1]] + [e[4]] if e[0] == "solid" else e[1:4] + [e[6]] if e[0] == "surface" else e; fix = lambda x: json.loads(json.dumps(x))
    for k in ("solid", "surface", "sketch"):
        a = [e for e in E if kind(e) == k]; b = [e for e in out if kind(e) == k]
        for x, y in zip(a, b):
            if k == "solid":
                p = x[4]["layer"]; want = fix(sig(x))
                for s in want[:-1]:
                    if s[3]["layer"] == "default": s[3]["layer"] = p
                vc.check("solid", want == fix(sig(y)))
            else: vc.check(k, fix(sig(x)) == fix(sig(y)) if k == "surface" else all(vc.same(fix(i), fix(j)) is not False and bool(vc.same(fix(i), fix(j))) for i, j in zip(x, y)) and len(x) == len(y))
    vc.check("model kept", all(x[1:4] == y[1:4] if kind(x) == "surface" else x == y if kind(x) == "sketch" else [s[1:4] for s in x[1]] == [s[1:4] for s in y[1]] for x, y in zip(E, keep))); sk = lambda D: [{k: v for k, v in e.items() if k not in ("id", "metadata", "polylines")} if e["type"] == "sketch" else e for e in D["entities"]]; D2 = m.geometry_to_json(out); srt = lambda L: sorted(L, key=lambda e: json.dumps(e, sort_keys=True)); vc.check("second round", srt(fix(sk(D2))) == srt(fix(sk(d))))
@contract("C19.polylines", [T + "geometry_from_json"])
def polylines(vc):
    """a sketch recorded only as polylines comes back as the lines between their consecutive points, in order; polylines of fewer than two points add nothing"""
    m = vc.mod(GJ); n = [vc.choice("points%d" % i, [0, 1, 2, 3]) for i in range(2)]; P = [[[vc.real("x%d.%d" % (i, j)), vc.real("y%d.%d" % (i, j))] for j in range(n[i])] for i in range(2)]; out = m.geometry_from_json({"schema": m.SCHEMA_ID, "entities": [{"id": "k", "type": "sketch", "primitives": vc.choice("primitives", [None, [], [{"kind": "unknown"}]]), "polylines": P}]}); L = [[a + [0, 1], b + [0, 1]] for p in P for a, b in zip(p, p[1:])]; vc.check("lines", vc.same(out, [L]) if L else out == [])
@contract("C19.construct", ["yapcad.geom3d:solid"])
def construct(vc):
    """a solid records its surfaces, its material, its construction and its metadata each in its place; an existing solid is copied; too many or wrong arguments are refused"""
    g = vc.mod("yapcad.geom3d"); S = [surf(vc, "s", 3, [[0, 1, 2]])]; mat = vc.choice("material", [[], ["steel"]]); con = vc.choice("construction", [None, [], ["procedure", "f()"]]); md = vc.choice("metadata", [None, {}, {"layer": "x"}]); A = [S, mat] + ([con] if con is not None else []); i = vc.choice("at", [1, 2, 3]); A[i:i] = [md] if md is not None else []; r = g.solid(*A); vc.check("in place", r[0] == "solid" and r[1] is S and r[2] == mat and r[3] == (con or []) and (len(r) == 4 if md is None else len(r) == 5 and r[4] is md)); c = g.solid(r); vc.check("copy", vc.same(c, r) and c is not r and c[1][0] is not S[0] and c[1] is not S)
    vc.check("empty", g.solid([]) == ["solid", [], [], []]); bad = vc.choice("bad", [(S, [1], [2], [3]), (S, {}, {}), (5,), ([5],), (S, 5), (S, [], [], ["x"])]); x, r = vc.raises(g.solid, *bad); vc.check("refused", isinstance(x, ValueError))
