import hashlib, json, os, shutil, tempfile, copy, types
from pathlib import Path
from pyvc.vc import contract
from contracts.lib import *
VA = "yapcad.package.validator"; CO = "yapcad.package.core"; PK = "yapcad.package"
class patched:
    """stand-ins for the dependencies of a function, in proofs and in runs alike"""
    def __init__(self, vc, mod, **kw): self.vc, self.name, self.kw = vc, mod, kw
    def __enter__(self):
        m = self.vc.mod(self.name)
        if self.vc.symbolic:
            for k, f in self.kw.items(): self.vc.stub(self.name, k, f)
        else:
            self.old = {k: getattr(m, k) for k in self.kw}
            for k, f in self.kw.items(): setattr(m, k, f)
        return m
    def __exit__(self, *a):
        if not self.vc.symbolic:
            for k, f in self.old.items(): setattr(self.vc.mod(self.name), k, f)
class FakePath:
    """a path whose file exists or not, with a name; opening it gives the given text"""
    def __init__(self, name, exists=True, text=""): self.name, self.there, self.text = name, exists, text
    def __eq__(self, o): return isinstance(o, FakePath) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def exists(self): return bool(self.there)
    def is_file(self): return bool(self.there)
    def is_dir(self): return False
    def __str__(self): return self.name
    __repr__ = __fspath__ = __str__
    def open(self, *a, **k):
        import io
        if not self.there: raise FileNotFoundError(self.name)
        return io.StringIO(self.text)
    def read_text(self, *a, **k): return self.open().read()
    def __truediv__(self, o): return FakePath(self.name + "/" + str(o))

# ---------------------------------------------------------------- one file
HASHES = [None, "", "sha256:abc", "SHA256:ABC", "sha256:abd", "sha256:ab", "sha256:abcc", "abc", "md5:abc", "sha256:abc ", "x"]
@contract("C17.check_file", [VA + ":_check_file"])
def check_file(vc):
    """a file is accepted exactly when it exists and its hash, in the recorded algorithm, is the recorded one (letter case aside); a rejection names the file; a missing file is never accepted"""
    there = vc.bool("exists"); want = vc.choice("recorded", HASHES); got = vc.choice("actual", ["abc", "abd", "ab", "ABC"]); p = FakePath("pkg/a/file.bin", there); asked = []
    def h(path, algorithm="sha256"):
        asked.append((path, algorithm)); return "%s:%s" % (algorithm, got)
    with patched(vc, VA, _compute_hash=h) as m: ok, msgs = m._check_file(p, want)
    alg = want.split(":")[0].lower() if want and ":" in want else "sha256"; match = not want or want.lower() == "%s:%s" % (alg, got.lower()); vc.check("verdict", vc.iff(ok, vc.and_(there, match))); vc.check("names the file", bool(ok) or (any("ERROR" in s and "pkg/a/file.bin" in s for s in msgs))); vc.check("own file in the recorded algorithm", all(x == (p, alg) for x in asked)); vc.check("no complaint", not ok or not any("ERROR" in s for s in msgs))
@contract("C17.unreadable", [VA + ":_check_file"])
def unreadable(vc):
    """a file that cannot be read, or whose recorded algorithm does not exist, is never accepted"""
    e = vc.choice("fails with", [OSError, ValueError, PermissionError, IsADirectoryError]); p = FakePath("f"); want = vc.choice("recorded", ["sha256:abc", "none:abc", None])
    def h(path, *a, **k): raise e("no")
    with patched(vc, VA, _compute_hash=h) as m: x, r = vc.raises(m._check_file, p, want)
    vc.check("not accepted", x is not None or r[0] is False)
@contract("C17.hash", [CO + ":_compute_hash"])
def compute_hash(vc):
    """the recorded hash is the algorithm's digest of all the bytes of the file, in order, whatever its size"""
    k = vc.choice("chunks", [0, 1, 2, 5]); alg = vc.choice("algorithm", ["sha256", "sha512", "md5", None]); parts = [bytes([vc.choice("byte%d" % min(i, 1), [0, 255])]) * (i + 1) for i in range(k)]; data = list(parts)
    class F:
        def read(self, n=-1): return data.pop(0) if data else b""
        def __enter__(self): return self
        def __exit__(self, *a): pass
    class P:
        def open(self, mode="r", *a): assert "b" in mode; return F()
        def __fspath__(self): return "x"
    m = vc.mod(CO); r = m._compute_hash(P(), alg) if alg else m._compute_hash(P()); a = alg or "sha256"; vc.check("digest", r == "%s:%s" % (a, hashlib.new(a, b"".join(parts)).hexdigest()))

# ---------------------------------------------------------------- the whole package
def manifest(vc, data, fails=None):
    class M:
        root = FakePath("root")
        def __init__(s): s.data = data
        def geometry_primary_path(s):
            g = s.data.get("geometry", {}).get("primary")
            if not g: raise ValueError("manifest missing geometry.primary section")
            return FakePath("root/" + g["path"], True, "{}")
        @classmethod
        def load(c, p):
            if fails: raise fails("no manifest")
            return c()
    return M
def outcome(vc, ok, bad):
    def f(p, h):
        n = str(p)
        if n.startswith("root/"): n = n[5:]
        return (ok[n][0], ["OK?"]) if bool(ok[n][0]) and ok[n][1] == h else (False, ["ERROR: bad " + n])
    return f
@contract("C17.validate", [VA + ":validate_package"], max_paths=6000, time_s=200)
def validate(vc):
    """the package is accepted exactly when the manifest loads and has the schema, the primary geometry is listed, intact and loads, every derived, exported and attached file is intact and the materials are valid; every damaged file is named; strict mode never accepts more"""
    nd, ne, na = vc.choice("lists", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 2), (1, 2, 1)]); ok = {}; F = {"p.json": "h0"}
    def entry(s, i): n = "%s%d" % (s, i); F[n] = "h" + n; return {"id": n, "path": n, "hash": F[n]}
    D = {"schema": vc.choice("schema", ["ycpkg-spec-v0.1", "ycpkg-spec-v9", None]), "geometry": {"primary": {"path": "p.json", "hash": "h0"}, "derived": [entry("d", i) for i in range(nd)]}, "exports": [entry("e", i) for i in range(ne)], "attachments": [entry("a", i) for i in range(na)]}; few = nd + ne + na <= 1
    if nd + ne + na == 0: D["exports"] = vc.choice("empty", [None, []]); del D["attachments"]
    good = {n: vc.bool("intact." + n) for n in F}; load = vc.choice("geometry loads", [True, False]) if few else True; mats = vc.choice("materials", [None, True, False]); strict = vc.choice("strict", [False, True])
    if mats is not None: D["materials"] = {"m": {"source": {"type": "custom"}}}
    def geo(doc):
        if not load: raise ValueError("bad geometry")
        return []
    with patched(vc, VA, PackageManifest=manifest(vc, D), _check_file=outcome(vc, {n: (good[n], F[n]) for n in F}, None), geometry_from_json=geo, _validate_materials=lambda q, s: (bool(mats), ["material"])) as m: v, msgs = m.validate_package("root", strict=strict)
    want = vc.and_(D["schema"] == "ycpkg-spec-v0.1", load, mats is not False, *good.values()); vc.check("verdict", vc.iff(v, want))
    for n in F: vc.check("damaged files are named", vc.or_(good[n], any("ERROR" in s and n in s for s in msgs)))
@contract("C17.entries", [VA + ":validate_package"])
def entries(vc):
    """any number of listed files: each is checked at its own path with its own hash, and the verdict so far survives only if it is intact"""
    vc.cutused = True; w = vc.choice("list", ["derived", "others"]); before = vc.choice("so far", [True, False]); good = vc.bool("intact"); seen = []
    def chk(p, h): seen.append((str(p), h)); return (bool(good), ["ERROR: x"] if not good else [])
    e0 = {"id": "i", "path": "a/b.c"}; h = vc.choice("hash", [None, "sha256:1"]); 
    if h: e0["hash"] = h
    D = {"schema": "ycpkg-spec-v0.1", "geometry": {"primary": {"path": "p", "hash": "q"}, "derived": [1, 2, 3]}, "exports": [4, 5], "attachments": [6]}; strict = vc.choice("strict", [False, True])
    with patched(vc, VA, PackageManifest=manifest(vc, D), _check_file=lambda p, h: (True, []), geometry_from_json=lambda d: []):
        if w == "derived": cut = vc.cut(VA + ":validate_package", 0)
        else: cut = vc.cut(VA + ":validate_package", 2, replace={0: lambda env: None})
        k, v, e = cut.pre("root", strict=strict) if w == "derived" else (None, None, None)
        if w == "derived": vc.check("all derived files", k == "next" and list(cut.over(e)) == [1, 2, 3])
        else:
            o = vc.cut(VA + ":validate_package", 1, replace={0: lambda env: None}); k, v, e = o.pre("root", strict=strict); secs = list(o.over(e)); vc.check("both other lists", k == "next" and sorted(secs) == ["attachments", "exports"]); s = vc.choice("section", [0, 1]); e["section"] = secs[s]; vc.check("all of the list", list(cut.over(e)) == D[secs[s]])
    e["_check_file"] = chk; e["overall_ok"] = before; n = len(e["messages"]); k, v = cut.body(e, e0); vc.check("goes on", k == "next"); vc.check("its own file and hash", seen == [("root/a/b.c", h)]); vc.check("kept only if intact", vc.iff(e["overall_ok"], vc.and_(before, good))); vc.check("named", vc.or_(good, "ERROR: x" in e["messages"][n:]))
@contract("C17.listed_again", [VA + ":validate_package"])
def listed_again(vc):
    """a file listed more than once, in one list or in several: every listing counts, with its own hash, so the package is accepted exactly when each of them is right"""
    where = [vc.choice("where%d" % i, ["derived", "exports", "attachments"]) for i in range(2)]; path = [vc.choice("path%d" % i, ["a", "p.json"]) for i in range(2)]; right = [vc.bool("right%d" % i) for i in range(2)]; intact = vc.bool("intact")
    D = {"schema": "ycpkg-spec-v0.1", "geometry": {"primary": {"path": "p.json", "hash": "h"}, "derived": []}, "exports": [], "attachments": []}
    for i in range(2): (D["geometry"]["derived"] if where[i] == "derived" else D[where[i]]).append({"id": "i%d" % i, "path": path[i], "hash": i})
    def chk(p, h): g = intact if h == "h" else right[h]; return (bool(g), [] if g else ["ERROR: %s %s" % (p, h)])
    with patched(vc, VA, PackageManifest=manifest(vc, D), _check_file=chk, geometry_from_json=lambda d: []) as m: v, msgs = m.validate_package("root", strict=vc.choice("strict", [False, True]))
    vc.check("verdict", vc.iff(v, vc.and_(intact, *right)))
    for i in range(2): vc.check("each wrong listing is named", vc.or_(right[i], "ERROR: root/%s %d" % (path[i], i) in msgs))
@contract("C17.manifest_missing", [VA + ":validate_package", CO + ":PackageManifest.geometry_primary_path"])
def manifest_missing(vc):
    """a package without readable manifest or without primary geometry is rejected; the primary file is the listed one"""
    e = vc.choice("load", [FileNotFoundError, ValueError, KeyError]); 
    with patched(vc, VA, PackageManifest=manifest(vc, {}, e)) as m: v, msgs = m.validate_package("root"); vc.check("no manifest", v is False and any("ERROR" in s for s in msgs))
    D = vc.choice("geometry", [{}, {"geometry": {}}, {"geometry": {"primary": None}}, {"geometry": {"primary": {}}}]); D = dict(D, schema="ycpkg-spec-v0.1"); M = vc.mod(CO).PackageManifest(root=Path("r"), data=D); x, r = vc.raises(M.geometry_primary_path); vc.check("no primary", isinstance(x, ValueError)); M.data["geometry"] = {"primary": {"path": "a/b"}}; vc.check("its path", str(M.geometry_primary_path()) == "r/a/b"); M2 = manifest(vc, D)
    D["geometry"] = vc.choice("again", [{}, {"primary": None}])
    with patched(vc, VA, PackageManifest=M2) as m: v, msgs = m.validate_package("root"); vc.check("rejected", v is False)

# ---------------------------------------------------------------- materials
@contract("C17.material", [VA + ":_validate_material"], max_paths=4000)
def material(vc):
    """a material is rejected exactly when its source or source type is missing or unknown or its colour is not three numbers' list; values out of range are warned about; strict mode only adds warnings"""
    src = vc.choice("source", [None, {}, {"type": None}, {"type": ""}, {"type": "standard"}, {"type": "standard", "standard": {"body": "b", "designation": "d"}}, {"type": "vendor"}, {"type": "custom"}, {"type": "tested"}, {"type": "Custom"}, {"type": "other"}]); c = [vc.real("c%d" % i, -0.5, 1.5) for i in range(3)]; col = vc.choice("colour", ["none", "three", "two", "four", "tuple", "text"]); q = vc.real("metallic", -1, 2); r = vc.real("roughness", -1, 2); full = col == "three" and src is not None and src.get("type") == "custom"; D = {"visual": {"color": {"none": None, "three": c, "two": c[:2], "four": c + [0.5], "tuple": tuple(c), "text": "red"}[col]}}
    if full: D["visual"].update(metallic=q, roughness=r)
    if src is not None: D["source"] = src
    if vc.choice("properties", [False, True]): D["properties"] = {"density": 1.0}
    m = vc.mod(VA); ok, msgs = m._validate_material("MAT", D, False); t = (src or {}).get("type"); colok = col in ("none", "three") ; inside = lambda x: vc.and_(vc.ge(x, 0.0, tol=0, scale=0), vc.le(x, 1.0, tol=0, scale=0)); vc.check("verdict", bool(ok) == (t in ("standard", "vendor", "custom", "tested") and colok)); vc.check("named", bool(ok) or any("ERROR" in s and "MAT" in s for s in msgs)); vc.check("errors only when rejected", not ok or not any(s.startswith("ERROR") for s in msgs))
    if full:
        for what, good in (("color", vc.and_(*[inside(x) for x in c])), ("metallic", inside(q)), ("roughness", inside(r))): vc.check("range of " + what, vc.iff(not any(what in s for s in msgs), good))
    ok2, msgs2 = m._validate_material("MAT", D, True); vc.check("strict never accepts more", bool(ok2) == bool(ok) and [s for s in msgs2 if s.startswith("ERROR")] == [s for s in msgs if s.startswith("ERROR")] and set(msgs) <= set(msgs2))
@contract("C17.materials", [VA + ":_validate_materials"])
def materials(vc):
    """the materials are valid exactly when each definition is; anything but a table of tables is rejected"""
    n = vc.choice("n", [0, 1, 2, 3]); good = [vc.bool("ok%d" % i) for i in range(n)]; odd = vc.choice("not a table", [None, 0, 2]); D = {"m%d" % i: ("text" if odd == i else {"i": i}) for i in range(n)}; s = vc.choice("strict", [False, True]); seen = []
    def one(k, d, strict): seen.append((k, d["i"], strict)); return (good[d["i"]], ["about " + k])
    with patched(vc, VA, _validate_material=one) as m: ok, msgs = m._validate_materials(D, s); x, r = vc.raises(m._validate_materials, [1], s)
    vc.check("verdict", vc.iff(ok, vc.and_(True, *[good[i] for i in range(n) if i != odd], odd is None or odd >= n))); vc.check("each once with its mode", seen == [("m%d" % i, i, s) for i in range(n) if i != odd]); vc.check("all messages", all("about m%d" % i in msgs for i in range(n) if i != odd)); vc.check("odd one named", odd is None or odd >= n or any("m%d" % odd in q and "ERROR" in q for q in msgs)); vc.check("not a table", x is not None or r[0] is False)
    vc.cutused = True; cut = vc.cut(VA + ":_validate_materials", 0); k, v, e = cut.pre({"a": 1}, s); before = vc.choice("so far", [True, False]); g = vc.bool("good"); e["overall_ok"] = before; e["_validate_material"] = lambda k, d, z: (g, []); k, v = cut.body(e, ("q", {})); vc.check("any number", k == "next" and vc.iff(e["overall_ok"], vc.and_(before, g))); k, v = cut.post(e); vc.check("result", k == "return" and v[0] is e["overall_ok"])

# ---------------------------------------------------------------- making packages
@contract("C17.recompute", [CO + ":PackageManifest.recompute_hashes"])
def recompute(vc):
    """recomputing replaces the hash of every listed file that exists by its own digest and changes nothing else"""
    alg = vc.choice("algorithm", ["sha256", "sha512"]); n = vc.choice("each", [0, 1, 2]); there = {}; E = lambda s: [{"id": "%s%d" % (s, i), "path": "%s%d" % (s, i), "hash": "old", "x": i} for i in range(n)]; D = {"schema": "s", "geometry": {"primary": {"path": "p", "schema": "g"}, "derived": E("d")}, "exports": E("e"), "attachments": E("a"), "tags": ["t"]}
    if n == 0: D = vc.choice("sparse", [D, {"geometry": {}}, {}, {"exports": None, "attachments": None, "geometry": {"derived": None, "primary": None}}])
    gone = vc.choice("missing", [None, "p", "d0", "e1", "a0"])
    class R:
        def __truediv__(s, o): return FakePath(o, o != gone)
    before = copy.deepcopy(D)
    with patched(vc, CO, _compute_hash=lambda p, a="sha256": "%s:of %s" % (a, p)) as m: m.PackageManifest(root=R(), data=D).recompute_hashes(algorithm=alg)
    def exp(x):
        x = copy.deepcopy(x); g = x.get("geometry") or {}
        for q in [g.get("primary")] + list(g.get("derived") or []) + list(x.get("exports") or []) + list(x.get("attachments") or []):
            if q and q["path"] != gone: q["hash"] = "%s:of %s" % (alg, q["path"])
        return x
    vc.check("hashes", D == exp(before))
@contract("C17.recompute_any", [CO + ":PackageManifest.recompute_hashes"])
def recompute_any(vc):
    """any number of entries: each entry's hash becomes the digest of its own file"""
    vc.cutused = True; T = CO + ":PackageManifest.recompute_hashes"; there = vc.bool("exists"); w = vc.choice("loop", [2, 4]); cut = vc.cut(T, w, replace={0: lambda e: None, 1: lambda e: None} if w == 4 else {0: lambda e: None}); 
    class R:
        def __truediv__(s, o): return FakePath(o, there)
    D = {"geometry": {"derived": [1, 2]}, "exports": [3], "attachments": [4, 5]}; M = vc.mod(CO).PackageManifest(root=R(), data=D); o = vc.cut(T, 1 if w == 2 else 3, replace={0: lambda e: None} if w == 2 else {0: lambda e: None, 1: lambda e: None}); k, v, e = o.pre(M, algorithm="sha512"); keys = list(o.over(e)); vc.check("lists", sorted(keys) == (["derived"] if w == 2 else ["attachments", "exports"])); x = {"path": "q", "hash": "old"}; e["_compute_hash"] = lambda p, a: "%s of %s" % (a, p); k, v = cut.body(e, x); vc.check("own digest", vc.iff(x["hash"] == "sha512 of q", there)); vc.check("else untouched", x["path"] == "q" and len(x) == 2 and (x["hash"] == "old" or x["hash"] == "sha512 of q"))
class Scratch:
    def __enter__(s): s.d = tempfile.mkdtemp(prefix="c17"); return Path(s.d)
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)
def solids(vc, n):
    g = vc.mod("yapcad.geom3d_util"); md = vc.mod("yapcad.metadata"); out = []
    for i in range(n):
        s = g.prism(1.0 + i, 2.0, 3.0)
        if vc.rng.random() < 0.6: m = md.get_solid_metadata(s, create=True); m["tags"] = vc.rng.sample(["a", "b", "c"], vc.rng.randrange(0, 3)); m["material"] = vc.rng.choice(["steel", "brass", {"name": "pla", "density_kg_m3": 1200.0}, {"grade": "unnamed"}])
        out.append(s)
    return out
@contract("C17.fresh", [CO + ":create_package_from_entities", CO + ":PackageManifest.save", CO + ":PackageManifest.load", CO + ":load_geometry", CO + ":_serialize_geometry", CO + ":add_geometry_file", VA + ":validate_package", CO + ":_collect_tags", CO + ":_collect_material_refs"], mode="bounded", why="real files, YAML and hashing; random packages of up to 3 solids and 4 files", samples=60)
def fresh(vc):
    """histories on real files: fresh and extended packages validate, also strictly; changing a byte, truncating, extending, deleting or swapping any listed file is found and named; recomputing makes the package valid again"""
    core, val = vc.mod(CO), vc.mod(VA)
    with Scratch() as d:
        n = vc.choice("n", [1, 2, 3]); alg = vc.choice("algorithm", ["sha256", "sha512", "sha256"]); E = solids(vc, n); mats = vc.choice("materials", [None, {"m": {"source": {"type": "vendor"}, "visual": {"color": [0.1, 0.2, 1]}}}]); root = d / "p"; M = core.create_package_from_entities(E, root, name="n", version="1", author=vc.choice("author", [None, "me"]), units=vc.choice("units", [None, "in"]), materials=mats, description=vc.choice("about", [None, "x: y\n- z"]), hash_algorithm=alg)
        vc.check("fresh is valid", val.validate_package(root)[0] is True and val.validate_package(root, strict=True)[0] is True); L = core.PackageManifest.load(root); vc.check("loads back", L.data == M.data); vc.check("geometry", len(core.load_geometry(L)) == n); tags = []; refs = []; md = vc.mod("yapcad.metadata")
        for s in E:
            q = md.get_solid_metadata(s, create=False) or {}; tags += [t for t in q.get("tags", []) if t not in tags]; r = q.get("material"); r = r.get("name") if isinstance(r, dict) else r; refs += [r] if r and r not in refs else []
        vc.check("tags", M.data["tags"] == tags); vc.check("materials", M.data.get("materials") == mats if mats else sorted(M.data.get("materials", {})) == sorted(refs)); vc.check("description", M.data["units"] in ("mm", "in") and M.data["name"] == "n" and M.data["version"] == "1")
        files = ["geometry/primary.json"]
        for i in range(vc.rng.randrange(0, 4)):
            f = d / ("f%d.stl" % i); f.write_bytes(bytes(vc.rng.randrange(256) for _ in range(vc.rng.choice([0, 1, 100]))) if vc.rng.random() < 0.8 else b"z" * (1 << 20)); cat = vc.rng.choice(["derived", "attachments"]); dest = vc.rng.choice([None, "sub/x%d.bin" % i]); e = core.add_geometry_file(M, f, category=cat, dest_relative=dest, purpose=vc.rng.choice([None, "why"]), metadata=vc.rng.choice([None, {"k": 1}])); files.append(e["path"]); vc.check("copied", (root / e["path"]).read_bytes() == f.read_bytes() and f.exists()); M.save()
        x, r = vc.raises(core.add_geometry_file, M, d / "nowhere"); vc.check("missing source", isinstance(x, FileNotFoundError)); q = d / "q.stl"; q.write_bytes(b"1")
        for k in (dict(dest_relative="../out.stl"), dict(dest_relative="a/../../out.stl"), dict(dest_relative=str(d / "out.stl")), dict(category="exports")): x, r = vc.raises(core.add_geometry_file, M, q, **k); vc.check("stays inside", isinstance(x, ValueError) and not (d / "out.stl").exists() and not (root / "q.stl").exists())
        x, r = vc.raises(core.add_geometry_file, M, q, dest_relative=files[-1]); vc.check("no silent overwrite", isinstance(x, FileExistsError)); ex = root / "exports" / "m.step"; ex.write_bytes(b"step"); M.data["exports"] = [{"id": "e", "path": "exports/m.step", "hash": core._compute_hash(ex)}]; files.append("exports/m.step"); M.save(); vc.check("extended is valid", val.validate_package(root)[0] is True)
        f = vc.rng.choice(files); p = root / f; old = p.read_bytes(); how = vc.rng.choice(["flip", "cut", "grow", "delete", "directory"]); new = old
        if how == "flip" and old: i = vc.rng.randrange(len(old)); new = old[:i] + bytes([old[i] ^ (1 << vc.rng.randrange(8))]) + old[i + 1:]
        elif how == "cut" and old: new = old[:vc.rng.randrange(len(old))]
        else: new = old + b" "
        if how in ("delete", "directory"): p.unlink()
        else: p.write_bytes(new)
        if how == "directory": p.mkdir()
        x, r = vc.raises(val.validate_package, root); vc.check("damage is found", x is not None or r[0] is False); vc.check("and named", x is not None or any(f in s for s in r[1] if s.startswith("ERROR"))); x, r = vc.raises(val.validate_package, root, strict=True); vc.check("also strictly", x is not None or r[0] is False)
        if how in ("delete", "directory"):
            if how == "directory": p.rmdir()
        p.write_bytes(old); vc.check("restored", val.validate_package(root)[0] is True)
        if f != "geometry/primary.json": p.write_bytes(old + b"!"); M.recompute_hashes(); M.save(); vc.check("recomputed", val.validate_package(root)[0] is True)
        x, r = vc.raises(core.create_package_from_entities, E, root, name="n", version="1"); vc.check("no silent replacement", isinstance(x, FileExistsError)); x, r = vc.raises(core.create_package_from_entities, [], d / "z", name="n", version="1"); vc.check("nothing to package", isinstance(x, ValueError)); core.create_package_from_entities(E, root, name="n2", version="2", overwrite=True); vc.check("replaced on request", val.validate_package(root)[0] is True)
