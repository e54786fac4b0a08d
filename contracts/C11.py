import math, types
import numpy as np
from pyvc.vc import contract
from contracts.lib import *
DA = "yapcad.assembly.datum"; DR = "yapcad.assembly.datum_registry"; AS = "yapcad.assembly.assembly"; FR = "yapcad.kinematics.frame"
KINDS = ["POINT", "AXIS", "PLANE", "CIRCLE", "FRAME"]
OWN = {"POINT": [], "AXIS": ["direction"], "PLANE": ["normal"], "CIRCLE": ["normal"], "FRAME": ["x_axis", "y_axis"]}
ALL = ["direction", "normal", "x_axis", "y_axis"]
def length(vc, n): k = vc.real(n, 0.1, 5, pos=True); vc.assume(vc.ge(k, 0.1)); return k
def l3(v): return [v[i] for i in range(3)]
def weight(vc, v, w): return vc.eq(v[3], w) if len(v) == 4 else False

@contract("C11.accept", [DA + ":Datum.__post_init__"])
def accept(vc):
    """a datum of any kind with non-zero directions of any length is accepted and stored in homogeneous form, weight 1 for the origin and 0 for every direction it carries"""
    m = vc.mod(DA); kd = vc.choice("kind", KINDS); o = vc.vec3("o"); form = vc.choice("form", [3, 4]); extra = vc.choice("extra directions", [0, 1]); kw = {}; want = {}
    for a in (ALL if extra else OWN[kd]): u = vc.unit(a, 3); k = length(vc, a + " length"); want[a] = [k * q for q in u]; kw[a] = want[a] + ([0.0] if form == 4 else [])
    if kd == "CIRCLE": kw["radius"] = vc.real("r", 0.01, 9, pos=True); vc.assume(vc.gt(kw["radius"], 0))
    d = m.Datum("n", m.DatumType[kd], origin=o + ([1.0] if form == 4 else []), description="why", tags=["t"], **kw); vc.check("origin", vc.and_(vc.veq(l3(d.origin), o), weight(vc, d.origin, 1.0)))
    for a in ALL: v = getattr(d, a); vc.check(a, v is None if a not in want else vc.and_(vc.veq(l3(v), want[a]), weight(vc, v, 0.0)))
    vc.check("rest", d.name == "n" and d.description == "why" and d.tags == ["t"] and d.datum_type is m.DatumType[kd]); vc.check("radius", d.radius is None if kd != "CIRCLE" else vc.eq(d.radius, kw["radius"]))

@contract("C11.reject", [DA + ":Datum.__post_init__"])
def reject(vc):
    """a missing or zero direction, or a missing, zero or negative radius, is rejected"""
    m = vc.mod(DA); kd = vc.choice("kind", KINDS[1:]); bad = vc.choice("bad", ["missing", "zero", "tiny", "second", "radius none", "radius negative", "radius bool"]); kw = {}
    for a in OWN[kd]: kw[a] = [0.0, 0.0, vc.real(a, 0.1, 3, pos=True) + 0.1] if a != "x_axis" else [1.0, 0.0, 0.0]
    if kd == "CIRCLE": kw["radius"] = 2.0
    t = vc.real("tiny", -1e-6, 1e-6); vc.assume(vc.and_(vc.le(t, 1e-6), vc.ge(t, -1e-6))); a = OWN[kd][-1 if bad == "second" else 0]
    if bad in ("missing",): kw[a] = None
    elif bad in ("zero", "second"): kw[a] = [0.0, 0.0, 0.0]
    elif bad == "tiny": kw[a] = [t, 0.0, t]
    elif kd != "CIRCLE": vc.assume(False)
    else: r = vc.real("r", -5, 0); vc.assume(vc.le(r, 0)); kw["radius"] = {"radius none": None, "radius negative": r, "radius bool": True}[bad]
    e, d = vc.raises(lambda: m.Datum("n", m.DatumType[kd], **kw)); vc.check("rejected", isinstance(e, ValueError))

def datum(vc, m, kd, extra=False, tags=("t",)):
    """a datum with unit directions scaled by any length"""
    o = vc.vec3("o"); kw, us = {}, {}
    for a in (ALL if extra else OWN[kd]): us[a] = vc.unit(a, 3); k = length(vc, a + " length"); kw[a] = [k * q for q in us[a]]
    if kd == "CIRCLE": kw["radius"] = vc.real("r", 0.01, 9, pos=True); vc.assume(vc.gt(kw["radius"], 0))
    return m.Datum("n", m.DatumType[kd], origin=o + [1.0], description="why", tags=list(tags), **kw), o, us, kw
def as_given(vc, M, how):
    X = vc.mod("yapcad.xform")
    return {"rows": lambda: [list(r) for r in M], "array": lambda: vc.array(M), "Matrix": lambda: X.Matrix([list(r) for r in M]), "flat": lambda: [x for r in M for x in r]}[how]()
@contract("C11.move", [DA + ":Datum.transform", DA + ":Datum.__post_init__"], time_s=200)
def move(vc):
    """a rigid motion moves the origin as a point, turns the direction as a direction (unit length, untouched by the translation) and keeps the radius, name, description and tags, without changing the original"""
    m = vc.mod(DA); kd = vc.choice("kind", KINDS); how = vc.choice("given as", ["rows", "array", "Matrix", "flat"]) if kd in ("POINT", "AXIS") else "rows"
    d, o, us, kw = datum(vc, m, kd, vc.choice("further directions", [0, 1])); M = vc.rigid("M", as_array=False)
    w = d.transform(as_given(vc, M, how)); vc.check("origin moves", vc.and_(vc.veq(l3(w.origin), vc.apply(M, o)), weight(vc, w.origin, 1.0)))
    for b in ALL:
        v = getattr(w, b); vc.check(b, v is None if b not in us else vc.and_(vc.veq(l3(v), vc.applydir(M, us[b])), weight(vc, v, 0.0)))
        x = getattr(d, b); vc.check("original " + b, x is None if b not in us else vc.veq(l3(x), kw[b]))
    vc.check("kept", w is not d and w.name == "n" and w.datum_type is d.datum_type and w.description == "why" and w.tags == ["t"]); vc.check("size", w.radius is None if kd != "CIRCLE" else vc.eq(w.radius, kw["radius"])); w.tags.append("x"); vc.check("own tags", d.tags == ["t"]); vc.check("original origin", vc.veq(l3(d.origin), o))

@contract("C11.twice", [DA + ":Datum.transform"], time_s=300)
def twice(vc):
    """moving twice equals moving by the composed motion"""
    m = vc.mod(DA); kd = vc.choice("kind", KINDS); d, o, us, kw = datum(vc, m, kd, extra=vc.choice("extra", [0, 1])); A, B = vc.rigid("A", as_array=False), vc.rigid("B", as_array=False); C = vc.matmul(B, A); x = d.transform(A).transform(B); y = d.transform(C); vc.check("origin", vc.veq(x.origin, y.origin))
    for b in ALL:
        p, q = getattr(x, b), getattr(y, b); vc.check(b, p is None and q is None if b not in us else vc.veq(p, q))
        if b in us: vc.check("unit " + b, vc.eq(vc.norm2(l3(p)), 1.0)); vc.check("turned " + b, vc.veq(l3(p), vc.applydir(C, us[b])))

@contract("C11.placed", [AS + ":Assembly.get_transformed_datum"])
def placed(vc):
    """the world datum of a placed part is the part's datum moved by the part's pose"""
    m = vc.mod(DA); kd = vc.choice("kind", KINDS); d, o, us, kw = datum(vc, m, kd); a = vc.mod(AS).Assembly("x"); p = m.PartDefinition("P"); p.add_datum(d); M = vc.rigid("M", as_array=False); a.add_part(p, transform=vc.array(M)); w = a.get_transformed_datum("P", "n"); vc.check("origin", vc.veq(l3(w.origin), vc.apply(M, o)))
    for b in us: vc.check(b, vc.and_(vc.veq(l3(getattr(w, b)), vc.applydir(M, us[b])), weight(vc, getattr(w, b), 0.0)))

# ---------------------------------------------------------------- datums as frames
def col(T, j): return [T[i, j] for i in range(3)]
@contract("C11.frame_of", [DR + ":datum_to_transform_matrix"], time_s=200)
def frame_of(vc):
    """the frame of a datum is a rigid motion placed at its origin, its z axis along the datum's direction; a frame datum keeps its x axis and turns y towards its y axis; a point keeps the world axes"""
    m = vc.mod(DA); r = vc.mod(DR); kd = vc.choice("kind", KINDS); o = vc.vec3("o"); kw = {}
    if kd == "FRAME":
        Q = vc.rotation("Q"); x, n, up = ([Q[i][j] for i in range(3)] for j in range(3))
        k, g, s = length(vc, "k"), length(vc, "g"), vc.real("skew", -2, 2); kw = dict(x_axis=[k * q for q in x], y_axis=[g * a + s * b for a, b in zip(n, x)])
    elif kd != "POINT": u = vc.unit("u", 3); k = length(vc, "k"); kw[OWN[kd][0]] = [k * q for q in u]
    if kd == "CIRCLE": kw["radius"] = 3.0
    T = r.datum_to_transform_matrix(m.Datum("n", m.DatumType[kd], origin=o + [1.0], **kw)); vc.check("origin", vc.veq(col(T, 3), o)); vc.check("last row", [float(T[3, j]) for j in range(4)] == [0.0, 0.0, 0.0, 1.0]); X, Y, Z = col(T, 0), col(T, 1), col(T, 2)
    if kd == "POINT": vc.check("world axes", vc.and_(vc.veq(X, [1.0, 0.0, 0.0]), vc.veq(Y, [0.0, 1.0, 0.0]), vc.veq(Z, [0.0, 0.0, 1.0]))); return
    if kd == "FRAME": vc.check("x", vc.veq(X, x)); vc.check("y", vc.veq(Y, n)); vc.check("z", vc.veq(Z, up)); return
    vc.check("z", vc.veq(Z, u)); vc.check("unit x", vc.eq(vc.norm2(X), 1.0)); vc.check("x square to z", vc.eq(vc.vdot(X, u), 0.0)); vc.check("right handed", vc.veq(Y, vc.vcross(u, X)))
@contract("C11.frame_source", [FR + ":CoordinateFrame.get_transform", FR + ":CoordinateFrame._lookup_datum_transform", FR + ":CoordinateFrame.invalidate_cache"])
def frame_source(vc):
    """a coordinate frame taken from a registered datum is that datum's frame (looked up once until invalidated); an explicit transform wins; without a datum it is the identity"""
    m = vc.mod(DA); R = vc.mod(DR).DatumRegistry; F = vc.mod(FR); old = (R._instance, ); R._instance = None
    try:
        o, o2 = vc.vec3("o"), vc.vec3("o2"); R.register_datum("src", m.Datum("pt", m.DatumType.POINT, origin=o + [1.0])); f = F.CoordinateFrame("f", datum_source="src", datum_name="pt"); M = f.get_transform().matrix; vc.check("from the datum", vc.and_(vc.veq([M[i][3] for i in range(3)], o), *[vc.eq(M[i][j], float(i == j)) for i in range(4) for j in range(3)]))
        R.register_datum("src", m.Datum("pt", m.DatumType.POINT, origin=o2 + [1.0])); f.invalidate_cache(); M = f.get_transform().matrix; vc.check("looked up again", vc.veq([M[i][3] for i in range(3)], o2))
        t = vc.mod("yapcad.kinematics.transform").Transform.from_translation(1.0, 2.0, 3.0); vc.check("explicit", F.CoordinateFrame("f", transform=t, datum_source="src", datum_name="pt").get_transform() is t); M = F.CoordinateFrame("f", datum_source="src", datum_name="none").get_transform().matrix; vc.check("identity", [[float(x) for x in r] for r in M] == np.eye(4).tolist())
    finally: R._instance = old[0]

# ---------------------------------------------------------------- the registry
@contract("C11.registry", [DR + ":DatumRegistry." + n for n in ("get_datum", "get_datums_for_source", "register_source", "register_datum", "register_part", "list_sources", "list_datums", "clear")], samples=300)
def registry(vc):
    """any sequence of three registrations (a source, a single datum, a part, or clearing) followed by every lookup: a datum is found exactly under the source and name it was last registered with"""
    m = vc.mod(DA); R = vc.mod(DR).DatumRegistry; old = R._instance; R._instance = None; now = {}; mk = lambda n: m.Datum(n, m.DatumType.POINT)
    try:
        for step in range(3):
            op = vc.choice("step %d" % step, ["source", "datum a.x", "datum b.y", "part", "clear", "asked"])
            if op == "source": ds = {"x": mk("x"), "y": mk("y")}; R.register_source("a", ds); now["a"] = dict(ds); ds["z"] = mk("z")
            elif op.startswith("datum"): s, n = op[6:].split("."); d = mk(n); R.register_datum(s, d); now.setdefault(s, {})[n] = d
            elif op == "part": p = m.PartDefinition("b"); d = mk("x"); p.add_datum(d); R.register_part(p); now["b"] = {"x": d}
            elif op == "clear": R.clear(); now = {}
            else: vc.raises(R.get_datum, "b", "x"); now.setdefault("b", {})
        for s in ("a", "b"):
            for n in ("x", "y", "z"):
                e, d = vc.raises(R.get_datum, s, n); vc.check("lookup", d is now[s][n] if n in now.get(s, {}) else isinstance(e, KeyError))
            if s in now: got = R.get_datums_for_source(s); vc.check("all of a source", set(got) == set(now[s]) and all(got[k] is now[s][k] for k in got)); got.clear(); vc.check("its own copy", set(R.list_datums(s)) == set(now[s]))
        vc.check("sources", {s for s in R.list_sources() if R.list_datums(s)} == {s for s in now if now[s]})
    finally: R._instance = old
@contract("C11.read", [DR + ":DatumRegistry._datum_from_dict"])
def read(vc):
    """a datum description becomes exactly the datum it describes; a wrong kind is an error"""
    m = vc.mod(DA); R = vc.mod(DR).DatumRegistry(); kd = vc.choice("kind", KINDS); case = vc.choice("spelt", [str.upper, str.lower]); n = vc.choice("components", [3, 4]); d = {"type": case(kd), "origin": vc.vec3("o") + [1.0] * (n - 3), "description": "why"}
    for a in OWN[kd]: u = vc.unit(a, 3); k = length(vc, a + " length"); d[a] = [k * q for q in u] + [0.0] * (n - 3)
    if kd == "CIRCLE": d["radius"] = vc.real("r", 0.01, 9, pos=True); vc.assume(vc.gt(d["radius"], 0))
    x = R._datum_from_dict("nm", d); vc.check("kind", x.name == "nm" and x.datum_type is m.DatumType[kd] and x.description == "why"); vc.check("origin", vc.and_(vc.veq(l3(x.origin), d["origin"][:3]), weight(vc, x.origin, 1.0)))
    for a in ALL: vc.check(a, getattr(x, a) is None if a not in OWN[kd] else vc.and_(vc.veq(l3(getattr(x, a)), d[a][:3]), weight(vc, getattr(x, a), 0.0)))
    vc.check("radius", x.radius is None if kd != "CIRCLE" else vc.eq(x.radius, d["radius"])); vc.check("unknown kind", isinstance(vc.raises(R._datum_from_dict, "nm", {"type": "BLOB"})[0], (KeyError, ValueError)))
@contract("C11.issues", [DA + ":PartDefinition.validate_datums"])
def issues(vc):
    """two datums of one kind at one place are reported as a likely duplicate whichever way their names sort; datums apart are not"""
    m = vc.mod(DA); o = vc.vec3("o"); u = vc.unit("towards", 3); far = vc.choice("apart", [0, 1]); g = length(vc, "gap"); q = [a + g * b for a, b in zip(o, u)] if far else list(o); same = vc.choice("same kind", [1, 0]); p = m.PartDefinition("P"); n = vc.choice("names", [("a", "b"), ("b", "a")]); D = lambda nm, k, at: m.Datum(nm, m.DatumType[k], origin=at + [1.0], direction=[0.0, 0.0, 1.0])
    p.add_datum(D(n[0], "AXIS", o)); p.add_datum(D(n[1], "AXIS" if same else "POINT", q)); r = p.validate_datums(); vc.check("duplicates", any("identical" in i and "'a'" in i and "'b'" in i for i in r) == bool(same and not far)); vc.check("nothing else", bool(same and not far) or not r)
