import math, itertools
from pyvc.vc import contract
from contracts.lib import *
TG = "yapcad.threadgen"; CA = "yapcad.fasteners.catalog"; BL = "yapcad.fasteners.builders"; FA = "yapcad.fasteners"; FG = "yapcad.contrib.figgear"

# ---------------------------------------------------------------- thread profiles
def size(vc, n, lo=0.1): k = vc.real(n, lo, 30, pos=True); vc.assume(vc.ge(k, lo)); return k
@contract("C26.profiles", [TG + ":metric_profile", TG + ":unified_profile", TG + ":ThreadProfile.lead"])
def profiles(vc):
    """metric and unified profiles: nominal diameter and pitch in millimetres, depth a fixed part of the pitch, flats an eighth and a quarter (internal: an eighth) of it, lead pitch times starts"""
    m = vc.mod(TG); n, inside = vc.choice("starts", [1, 2, 4]), bool(vc.choice("internal", [0, 1])); d, p = size(vc, "d"), size(vc, "p")
    a = m.metric_profile(d, p, strts=n, internal=inside); u = m.unified_profile(d, p, strts=n, internal=inside)
    vc.check("metric", vc.and_(vc.eq(a.D_nominal, d), vc.eq(a.P_pitch, p), vc.eq(a.lead(), n * p), vc.eq(a.thread_depth_ratio, 0.57))); vc.check("unified", vc.and_(vc.eq(u.D_nominal, 25.4 * d), vc.eq(u.P_pitch * p, 25.4), vc.eq(u.lead() * p, n * 25.4), vc.eq(u.thread_depth_ratio, 0.64952)))
    for q in (a, u): vc.check("flats and side", vc.and_(q.crest_flat_ratio == 0.125, q.root_flat_ratio == (0.125 if inside else 0.25), q.internal is inside, q.starts == n, q.handedness == "right"))
    vc.check("at least one start", vc.eq(m.ThreadProfile(d, p, starts=0).lead(), p))
def thread(vc):
    inside = bool(vc.choice("internal", [0, 1])); d, p, r = size(vc, "d"), size(vc, "p", 0.2), vc.real("depth ratio", 0.3, 1, pos=True); c, t = vc.choice("flats", [(0.125, 0.25), (0.125, 0.125), (0.0, 0.0), (0.25, 0.5), (0.5, 0.125)])
    return vc.mod(TG).ThreadProfile(D_nominal=d, P_pitch=p, crest_flat_ratio=c, root_flat_ratio=t, thread_depth_ratio=r, internal=inside), d, p, r * p, c, t
@contract("C26.radius", [TG + ":_radius_at"], samples=600)
def radius(vc):
    """the radius is half the nominal diameter on the crest, the depth less at the root (not below the axis), straight in between, the same on both flanks, and the same one pitch on; a taper adds in proportion to the place"""
    m = vc.mod(TG); q, d, p, h, c, t = thread(vc); k = vc.int("turns", -5, 20); f = vc.real("part of the pitch", 0, 1, nonneg=True); vc.assume(vc.lt(f, 1.0)); r = m._radius_at(q, 0.0, (k + f) * p); top = d / 2.0; low = vc.max(top - h, 0.0) if not q.internal else top - h
    vc.check("the same every pitch", vc.eq(r, m._radius_at(q, 0.0, f * p), tol=1e-6)); g = vc.min(f, 1.0 - f)                     # distance from the middle of the crest, as part of the pitch
    w = (1.0 - c - t) / 2.0
    if vc.case(vc.le(g, c / 2.0 - 1e-6)): vc.check("crest", vc.eq(r, top, tol=1e-6)); return
    if vc.case(vc.ge(g, 0.5 - t / 2.0 + 1e-6)): vc.check("root", vc.eq(r, low, tol=1e-6)); return
    vc.check("between", vc.and_(vc.le(r, top, tol=1e-6), vc.ge(r, low, tol=1e-6)))
    if vc.case(vc.and_(vc.gt(g, c / 2.0 + 1e-6), vc.lt(g, 0.5 - t / 2.0 - 1e-6))): vc.check("flank", vc.le(vc.abs((top - r) * w - (g - c / 2.0) * (top - low)), 1e-5 * (1.0 + d + h)))
@contract("C26.taper", [TG + ":_radius_at"])
def taper(vc):
    """a tapered thread grows with the place along the axis, half the taper for each unit"""
    m = vc.mod(TG); d, p, s = size(vc, "d"), size(vc, "p", 0.2), vc.real("taper", 0, 1, nonneg=True); x = vc.real("x", 0, 50, nonneg=True); e = vc.choice("at", [0.0, 0.5, 0.3]); mk = lambda t: m.ThreadProfile(D_nominal=d, P_pitch=p, taper_ratio=t, internal=True); vc.check("grows", vc.eq(m._radius_at(mk(s), x, e * p) - m._radius_at(mk(0.0), x, e * p), s * x / 2.0, tol=1e-6))
@contract("C26.sampled", [TG + ":sample_thread_profile", TG + ":_collect_breakpoints", TG + ":_pitch_breakpoints"], mode="bounded", why="random right-handed profiles and ranges: the points are collected in sets and sorted", samples=600)
def sampled(vc):
    """a sampled profile runs in order within the range, has every corner of the profile, the same number of points at every angle, moves on by the lead over one turn, and one turn on continues the points one turn's worth along"""
    m = vc.mod(TG); q, d, p, h, c, t = thread(vc); import dataclasses
    q = dataclasses.replace(q, starts=vc.choice("starts", [1, 2, 3])); lead = q.lead(); a = vc.real("start", -5, 5); L = vc.real("length", 1, 40) + 0.5 * lead; k = vc.choice("per pitch", [1, 2, 6]); th = vc.real("angle", 0, 360); b = a + L
    P, wrap = m.sample_thread_profile(q, a, b, th, samples_per_pitch=k); P0, w0 = m.sample_thread_profile(q, a, b, 0.0, samples_per_pitch=k); P1, w1 = m.sample_thread_profile(q, a, b, 360.0, samples_per_pitch=k)
    vc.check("same count", len(P) == len(P0) == len(P1) and wrap == w0 == w1 > 0); z = [x[0] for x in P]; vc.check("in order", all(u <= v + 1e-9 for u, v in zip(z, z[1:]))); vc.check("within", all(a - 1e-9 <= x <= b + 1e-9 for x in z)); vc.check("both ends", abs(z[0] - a) < 1e-9 and abs(z[-1] - b) < 1e-9)
    off = th / 360.0 * lead; edge = 0.2 * lead + 1e-6
    vc.check("moved on", all(abs(x[0] - min(max(y + off, a), b)) < 1e-6 for x, y in zip(P, m._collect_breakpoints(q, a - lead, b, k)[0]))); far = [x for x in P if a + edge < x[0] < b - edge]
    vc.check("radius of the profile", all(abs(x[1] - m._radius_at(q, x[0], x[0] - off)) < 1e-6 for x in far))
    n = max(1, math.ceil((b - a) / p)); bad = False
    for i in range(math.floor((a - lead) / p), math.ceil(b / p) + 1):
        for g in (c / 2, 0.5 - t / 2, 0.5 + t / 2, 1 - c / 2):
            y = (i + g) * p + off; bad = bad or (a + edge < y < b - edge and not any(abs(x[0] - y) < 1e-6 for x in P))
    vc.check("every corner", not bad); e, _ = vc.raises(m.sample_thread_profile, q, b, a, th); e2, _ = vc.raises(m.sample_thread_profile, q, a, a, th); vc.check("empty range", isinstance(e, ValueError) and isinstance(e2, ValueError)); e, _ = vc.raises(m.sample_thread_profile, dataclasses.replace(q, P_pitch=0.0), a, b, th); vc.check("no pitch", isinstance(e, ValueError))

# ---------------------------------------------------------------- the catalogue
def record(vc):
    d, p = size(vc, "D"), size(vc, "P"); return {"nominal_diameter": d, "pitch": p, "basic_minor_diameter": vc.real("minor"), "basic_pitch_diameter": vc.real("pitch dia"), "tolerances": {"6g": {"es": vc.real("es")}, "6H": {"EI": vc.real("EI")}, "2A": {"allowance": vc.real("allowance", 0, 1, nonneg=True)}}, "hex_bolt": {"head_height": vc.real("k"), "width_across_flats": vc.real("s"), "washer_face_thickness": vc.real("w"), "washer_face_diameter": vc.real("dw")}, "hex_nut": {"width_across_flats": vc.real("sn"), "thickness": vc.real("t")}}
def shelf(vc, **more):
    r = record(vc); c = {"sizes": {"M8": r, "1/4-20a": {"nominal_diameter": 1.0, "pitch": 2.0, "tolerances": {}}, "m9": {"x": 1}}, "tolerance_classes": {"b": {}, "a": {}}}; asked = []; vc.hook(vc.mod(CA), "load_catalog", lambda s, p=None: asked.append((s, p)) or c); return r, c, asked
@contract("C26.lookup", [CA + ":get_thread_data", CA + ":get_bolt_data", CA + ":get_nut_data", CA + ":list_available_sizes", CA + ":list_tolerance_classes"])
def lookup(vc):
    """a lookup gives the record of the size asked for in the series asked for, in either case of letters; unknown sizes and classes and missing parts are refused"""
    m = vc.mod(CA); r, c, asked = shelf(vc); vc.check("record", m.get_thread_data("S", "M8", custom_path="cp") is r and m.get_thread_data("S", "m8") is r and m.get_thread_data("S", "M9") is c["sizes"]["m9"] and m.get_thread_data("S", "M8", "6g") is r and asked[0] == ("S", "cp"))
    b = m.get_bolt_data("S", "M8", "6g"); vc.check("bolt", vc.and_(*[b["thread"][k] is r[k] for k in ("nominal_diameter", "pitch", "basic_minor_diameter", "basic_pitch_diameter")], b["thread"]["tolerance_class"] == "6g", b["thread"]["tolerances"] is r["tolerances"]["6g"], b["head"] is r["hex_bolt"]))
    b = m.get_nut_data("S", "M8", "6H"); vc.check("nut", vc.and_(*[b["thread"][k] is r[k] for k in ("nominal_diameter", "pitch", "basic_minor_diameter", "basic_pitch_diameter")], b["thread"]["tolerance_class"] == "6H", b["thread"]["tolerances"] is r["tolerances"]["6H"], b["thread"]["internal"] is True, b["body"] is r["hex_nut"]))
    for f, a in ((m.get_thread_data, ("S", "M7")), (m.get_thread_data, ("S", "M8", "9z")), (m.get_bolt_data, ("S", "M7")), (m.get_bolt_data, ("S", "M8", "9z")), (m.get_nut_data, ("S", "M8", "9z")), (m.get_bolt_data, ("S", "1/4-20A", None)), (m.get_nut_data, ("S", "1/4-20a", None))): e, _ = vc.raises(f, *a); vc.check("refused", isinstance(e, KeyError))
    vc.check("lists", m.list_available_sizes("S") == sorted(c["sizes"]) and m.list_tolerance_classes("S") == ["a", "b"])
@contract("C26.load", [CA + ":load_catalog", CA + ":_load_catalog_cached", CA + ":_load_catalog_impl", CA + ":_load_yaml", CA + ":_get_data_dirs", CA + ":clear_cache"], mode="bounded", why="files in a scratch directory")
def load(vc):
    """a catalogue comes from the file named, else from the first directory that has it: the environment's in order, the user's, the bundled; wrong series, missing files, other schemas and files without sizes are refused"""
    from contracts.C17 import Scratch
    import os, pathlib; m = vc.mod(CA); S = "metric_coarse"; K = m.YAPCAD_FASTENER_DATA; was = {k: os.environ.get(k) for k in (K, "HOME")}
    with Scratch() as root:
        root = pathlib.Path(str(root)); W = lambda p, t: (p.parent.mkdir(parents=True, exist_ok=True), p.write_text(t), p)[2]; good = lambda n: 'schema_version: "1.2"\nname: %s\nsizes: {}\n' % n; has = [bool(vc.choice(n, [0, 1])) for n in ("first", "second", "user")]
        for k, d in zip(has, ("a", "b", "home/.config/yapcad/fasteners")):
            (root / d).mkdir(parents=True, exist_ok=True)
            if k: W(root / d / (S + ".yaml"), good(d[0]))
        try:
            os.environ["HOME"] = str(root / "home"); os.environ[K] = ":".join(map(str, (root / "none", root / "a", root / "b"))); m.clear_cache(); c = m.load_catalog(S); want = [n for k, n in zip(has, "abh") if k]
            vc.check("first that has it", c.get("name") == want[0] if want else len(c["sizes"]) >= 10); vc.check("bundled", len(m.load_catalog("unified_coarse")["sizes"]) >= 10); x = W(root / "x.yaml", good("x")); vc.check("named file", m.load_catalog(S, x)["name"] == "x" and m.load_catalog("unified_fine", x)["name"] == "x")
            for bad, err in (("other", ValueError),): e, _ = vc.raises(m.load_catalog, bad); vc.check("unknown series", isinstance(e, err))
            e, _ = vc.raises(m.load_catalog, S, root / "nothing.yaml"); vc.check("missing file", isinstance(e, FileNotFoundError)); e, _ = vc.raises(m.load_catalog, "metric_fine"); vc.check("series without a file", isinstance(e, FileNotFoundError))
            for i, t in enumerate(("- 1\n", 'schema_version: "2.0"\nsizes: {}\n', "schema_version: 1\nsizes: {}\n", 'schema_version: "1.0"\n')): e, _ = vc.raises(m.load_catalog, S, W(root / ("bad%d.yaml" % i), t)); vc.check("bad file %d" % i, isinstance(e, ValueError))
        finally:
            for k, v in was.items():
                if v is None: os.environ.pop(k, None)
                else: os.environ[k] = v
            m.clear_cache()
@contract("C26.tables", [CA + ":load_catalog", CA + ":get_thread_data", CA + ":get_bolt_data", CA + ":get_nut_data"], mode="bounded", why="the bundled tables are enumerated in full", samples=2)
def tables(vc):
    """every bundled size obeys the standard: pitch and minor diameter 0.6495 and 1.0825 pitches below the nominal one, pitch from the threads per inch, nuts and heads wider than the thread and corners 2/sqrt(3) of the flats"""
    m = vc.mod(CA); n = 0
    for s, out, inn in (("metric_coarse", "6g", "6H"), ("unified_coarse", "2A", "2B")):
        cl = m.list_tolerance_classes(s)
        for k in m.list_available_sizes(s):
            r = m.get_thread_data(s, k); D, p = r["nominal_diameter"], r["pitch"]; n += 1; vc.check("%s %s threads" % (s, k), abs(r["basic_pitch_diameter"] - (D - 0.6495 * p)) < 0.02 and abs(r["basic_minor_diameter"] - (D - 1.0825 * p)) < 0.02); vc.check("%s %s pitch" % (s, k), s == "metric_coarse" or (abs(p * r["tpi"] - 25.4) < 0.02 and k.endswith("-%d" % r["tpi"])))
            vc.check("%s %s size" % (s, k), s != "metric_coarse" or float(k[1:]) == D); vc.check("%s %s classes" % (s, k), set(r["tolerances"]) <= set(cl)); b, u = m.get_bolt_data(s, k, out)["head"], m.get_nut_data(s, k, inn)["body"]
            for w in (b, u): vc.check("%s %s hexagon" % (s, k), w["width_across_flats"] > 1.3 * D and abs(w["width_across_corners"] - w["width_across_flats"] * 2 / math.sqrt(3)) < 0.06 * w["width_across_flats"])
    vc.check("all of them", n >= 28)
@contract("C26.cut", [BL + ":_make_profile_from_catalog"])
def cut(vc):
    """the thread of a bolt is cut on the nominal diameter less its allowance, that of a nut on the nominal diameter plus its deviation, both at the tabulated pitch"""
    m = vc.mod(BL); D, p, e = size(vc, "D"), size(vc, "P"), vc.real("deviation", -1, 1); inside = bool(vc.choice("internal", [0, 1])); k = vc.choice("tolerance", ["none", "metric", "unified"]); n = vc.choice("starts", [1, 3]); t = {} if k == "none" else {"EI": e} if inside else {"es": e} if k == "metric" else {"allowance": e}
    q = m._make_profile_from_catalog({"nominal_diameter": D, "pitch": p, "tolerances": t}, internal=inside, handedness="left", starts=n); vc.check("diameter", vc.eq(q.D_nominal, D + (0.0 if not t else e if inside or k == "metric" else -e))); vc.check("rest", vc.and_(vc.eq(q.P_pitch, p), q.internal is inside, q.starts == n, q.handedness == "left", q.crest_flat_ratio == 0.125, q.root_flat_ratio == (0.125 if inside else 0.25), q.thread_depth_ratio == 0.57))
@contract("C26.thread_length", [BL + ":_default_thread_length"])
def thread_length(vc):
    """the standard thread length: twice the diameter and 6, 12 or 25 mm by the length of the shank, never more than the shank"""
    l, d = size(vc, "l"), size(vc, "d"); l = l * vc.choice("scale", [1.0, 10.0]); r = vc.mod(BL)._default_thread_length(l, d); w = 2.0 * d + (6.0 if vc.case(vc.le(l, 125.0)) else 12.0 if vc.case(vc.le(l, 200.0)) else 25.0); vc.check("length", vc.eq(r, vc.min(w, l)))
@contract("C26.built", [BL + ":build_hex_bolt_from_catalog", BL + ":build_hex_nut_from_catalog", FA + ":metric_hex_bolt", FA + ":unified_hex_bolt", FA + ":metric_hex_nut", FA + ":unified_hex_nut"])
def built(vc):
    """bolts and nuts are built with the tabulated dimensions of their size; the thread is as long as asked for (by default the standard length) but not longer than the shank, inches being 25.4 mm"""
    F, m, G = vc.mod(FA), vc.mod(BL), vc.mod("yapcad.fasteners_legacy"); r = record(vc); asked = []; made = []
    def data(what, part):
        def get(s, z, c=None, p=None): asked.append((what, s, z, c, p)); return {"thread": {"nominal_diameter": r["nominal_diameter"], "pitch": r["pitch"], "tolerance_class": c, "tolerances": {}}, part: r["hex_bolt" if part == "head" else "hex_nut"]}
        return get
    vc.hook(m, "get_bolt_data", data("bolt", "head")); vc.hook(m, "get_nut_data", data("nut", "body")); vc.hook(G, "build_hex_cap_screw", lambda p, s: made.append((p, s)) or "solid"); vc.hook(G, "build_hex_nut", lambda p, s: made.append((p, s)) or "solid")
    k = vc.choice("fastener", ["metric bolt", "unified bolt", "metric nut", "unified nut"]); D, P = r["nominal_diameter"], r["pitch"]; u = k.startswith("unified"); common = dict(starts=2, thread_arc_samples=90, thread_samples_per_pitch=3, catalog_path="cp")
    if k.endswith("bolt"):
        l = size(vc, "l"); tl = vc.choice("thread", ["default", "given"]); t = None if tl == "default" else size(vc, "tl"); s = 25.4 if u else 1.0; out = (F.unified_hex_bolt if u else F.metric_hex_bolt)("Z", l, thread_length=t, tolerance_class="TC", **common); (p, q), h = made[0], r["hex_bolt"]
        vc.check("asked", asked == [("bolt", "unified_coarse" if u else "metric_coarse", "Z", "TC", "cp")] and out == "solid"); L = s * l; T = vc.min(s * t, L) if t is not None else m._default_thread_length(L, D)
        vc.check("lengths", vc.and_(vc.eq(q.shank_length, L), vc.eq(q.thread_length, T))); vc.check("head", q.head_height is h["head_height"] and q.head_flat_diameter is h["width_across_flats"] and q.washer_thickness is h["washer_face_thickness"] and q.washer_diameter is h["washer_face_diameter"]); vc.check("shank", vc.and_(vc.eq(q.diameter, D), vc.eq(q.shank_diameter, D), not p.internal))
    else:
        out = (F.unified_hex_nut if u else F.metric_hex_nut)("Z", tolerance_class="TC", handedness="left", **common); (p, q), h = made[0], r["hex_nut"]; vc.check("asked", asked == [("nut", "unified_coarse" if u else "metric_coarse", "Z", "TC", "cp")] and out == "solid"); vc.check("body", vc.and_(vc.eq(q.diameter, D), vc.eq(q.pitch, P), q.width_flat is h["width_across_flats"], q.thickness is h["thickness"], q.handedness == "left", p.handedness == "left", p.internal))
    vc.check("thread", vc.and_(vc.eq(p.D_nominal, D), vc.eq(p.P_pitch, P), p.starts == 2, q.starts == 2, q.thread_arc_samples == 90, q.thread_samples_per_pitch == 3))

# ---------------------------------------------------------------- gears
def gear(vc):
    return round(vc.real("module", 0.2, 12), 3), vc.choice("teeth", [8, 12, 17, 41, 60]), vc.choice("pressure angle", [14.5, 20.0, 25.0])
def shape(vc, fig, sizes, m, z, al, bottom):
    """an outline with its declared sizes: per tooth the same points turned, roots, involute flanks and tips where they belong"""
    P = fig[:-1]; k = len(P) // z; vc.check("closed, the same for every tooth", fig[0] == fig[-1] and k * z == len(P)); rp, ra, rr, rb = z * m / 2, z * m / 2 + m, z * m / 2 - 1.25 * m, z * m / 2 * math.cos(math.radians(al))
    for n, w in (("pitch", rp), ("addendum", ra), ("dedendum", rr), ("base", rb)): vc.check(n, vc.and_(vc.eq(sizes["radius_" + n], w, tol=1e-9), vc.eq(sizes["diameter_" + n], 2 * w, tol=1e-9)))
    T = range(z); q = [2 * math.pi * i / z for i in range(z)]; off = lambda u, v: vc.le(vc.abs(u - v), 1e-9 * z * m)
    vc.check("turned by one tooth", vc.and_(*[vc.and_(off(P[i * k + j][0], P[j][0] * math.cos(q[i]) - P[j][1] * math.sin(q[i])), off(P[i * k + j][1], P[j][0] * math.sin(q[i]) + P[j][1] * math.cos(q[i]))) for i in T for j in range(k)]))
    return P[:k], rp, ra, rr, rb
@contract("C26.gear", [FG + ":make_gear_figure", FG + ":_inv", FG + ":_add_bottom_points_line", FG + ":_add_bottom_points_spline", FG + ":_catmull_rom", FG + ":_ensure_closed"], mode="bounded", why="random modules, enumerated tooth counts and pressure angles: the involute is transcendental", samples=300)
def gear_outline(vc):
    """a gear outline is closed and the same for every tooth; flanks are the involutes of the base circle from base to tip circle, teeth half a pitch wide on the pitch circle and gaps the rest; roots lie on the root circle"""
    m, z, al = gear(vc); bottom = vc.choice("bottom", ["line", "spline", "LINE"]); n = vc.choice("division", [1, 5, 50]); step = vc.choice("step", [0.05, 0.5, 3.0]); fig, sizes = vc.mod(FG).make_gear_figure(m, z, al, bottom, involute_step=step, spline_division_num=n); P, rp, ra, rr, rb = shape(vc, fig, sizes, m, z, al, bottom)
    inv = lambda r: math.sqrt(max(0.0, (r / rb) ** 2 - 1)) - math.acos(min(1.0, rb / r)); width = math.pi / z + 2 * inv(rp); c = max(2, math.ceil((ra - rb) / step - 1e-9)) + 1; F = P[-2 * c:] if len(P) >= 2 * c else P; vc.check("flanks", len(P) - len(F) == (2 if bottom.lower() == "line" or n == 1 else n - 1)); far = 1e-9 * z * m
    for i, (x, y) in enumerate(F):
        j = i if i < c else 2 * c - 1 - i; r = rb + (ra - rb) * j / (c - 1); a = inv(r) if i < c else width - inv(r); vc.check("on the involute", math.hypot(x - r * math.cos(a), y - r * math.sin(a)) < far)
    root = P[:-2 * c]
    if bottom.lower() == "line" or n == 1: gap = 2 * math.pi / z - width; vc.check("roots", all(math.hypot(x - rr * math.cos(a), y - rr * math.sin(a)) < far for (x, y), a in zip(root, (-gap, 0.0))))
    else:                                           # the spline through base, root, root, base point, halved by the middle of the gap
        gap = 2 * math.pi / z - width; A = (rb, 0.0), (rr, 0.0), (rr * math.cos(gap), -rr * math.sin(gap)), (rb * math.cos(gap), -rb * math.sin(gap)); mir = lambda x, y: (x * math.cos(gap) - y * math.sin(gap), -x * math.sin(gap) - y * math.cos(gap))
        vc.check("roots the same on both sides", all(math.dist(mir(*u), v) < far for u, v in zip(root, root[::-1])))
        for i, (x, y) in enumerate(root):
            t = 1 - (i + 1) / n; p0, p1, p2, p3 = A; w = [(-t + 2 * t * t - t ** 3) / 2, (2 - 5 * t * t + 3 * t ** 3) / 2, (t + 4 * t * t - 3 * t ** 3) / 2, (-t * t + t ** 3) / 2]; vc.check("root spline", math.dist((x, y), tuple(sum(k * q[c] for k, q in zip(w, A)) for c in (0, 1))) < far)
@contract("C26.gear_refused", [FG + ":make_gear_figure"])
def gear_refused(vc):
    """a gear without teeth, size or steps, or with another kind of bottom, is refused"""
    f = vc.mod(FG).make_gear_figure; x = vc.real("x", -3, 0); vc.assume(vc.le(x, 0.0))
    for what, a, k in (("no teeth", (1.0, 0, 20.0, "line"), {}), ("fewer", (1.0, -3, 20.0, "line"), {}), ("no size", (x, 12, 20.0, "line"), {}), ("bottom", (1.0, 12, 20.0, "round"), {}), ("step", (1.0, 12, 20.0, "line"), dict(involute_step=0.0)), ("division", (1.0, 12, 20.0, "spline"), dict(spline_division_num=0))): e, _ = vc.raises(f, *a, **k); vc.check(what, isinstance(e, ValueError))
