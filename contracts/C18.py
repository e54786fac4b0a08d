import copy, datetime, hashlib, json, os, shutil, subprocess, tempfile, types
from pathlib import Path
from pyvc.vc import contract
from contracts.lib import *
from contracts.C17 import patched, Scratch
SI = "yapcad.package.signing"; T = SI + ":"
def status(vc, m, name): return vc.choice(name, list(m.VerificationStatus))
def sig(m, s): return m.SignatureInfo("a", m.SignatureMethod.SSH, "k", "t", "f", status=s)

# ---------------------------------------------------------------- the verdict
@contract("C18.verdict", [T + "VerificationResult.is_valid", T + "VerificationResult.overall_status", T + "VerificationResult.trusted_signers", T + "VerificationResult.untrusted_signers"])
def verdict(vc):
    """a package counts as verified exactly when nothing is wrong with it and at least one signature is valid by a trusted key; a package with errors, without signatures, or with only unknown, invalid or failed ones never does"""
    m = vc.mod(SI); n = vc.choice("n", [0, 1, 2, 3]); S = [status(vc, m, "s%d" % i) for i in range(n)]; e = vc.choice("errors", [[], ["x"]]); w = vc.choice("warnings", [[], ["y"]]); r = m.VerificationResult("p", "h", [sig(m, s) for s in S], list(e), list(w)); V = m.VerificationStatus; t, u = S.count(V.VALID), S.count(V.VALID_UNTRUSTED); vc.check("trusted", r.trusted_signers == t); vc.check("untrusted", r.untrusted_signers == u); vc.check("valid", bool(r.is_valid) == (not e and t > 0)); o = V.ERROR if e else V.VALID if t else V.VALID_UNTRUSTED if u else V.INVALID if V.INVALID in S else V.ERROR; vc.check("overall", r.overall_status is o); vc.check("same verdict", bool(r.is_valid) == (r.overall_status is V.VALID))

# ---------------------------------------------------------------- one signature
class Tools:
    """stands for the signature programs: what they are asked, with the files they see, and what they answer"""
    def __init__(self, answer): self.answer = answer; self.calls = []; self.CalledProcessError = subprocess.CalledProcessError; self.files = []
    def run(self, cmd, input=None, capture_output=False, check=False, **k):
        cmd = [str(x) for x in cmd]; seen = {}
        for x in cmd:
            if os.path.isfile(x) and not x.endswith("allowed"): seen[x] = open(x, "rb").read(); self.files.append(x)
        self.calls.append((cmd, input, seen)); r = self.answer(cmd)
        if r is None: raise FileNotFoundError(cmd[0])
        rc, out, err = r
        if check and rc: raise subprocess.CalledProcessError(rc, cmd, out.encode(), err.encode())
        return types.SimpleNamespace(returncode=rc, stdout=out.encode(), stderr=err.encode())
CONTENT = b"ycpkg-manifest-v1\nabc\n"
@contract("C18.gpg", [T + "_verify_gpg_signature"])
def gpg(vc):
    """a GPG signature is valid only if the program accepts this signature for this content as good and the key is trusted; a good one by a key without trust is untrusted; bad, revoked, expired and unknown keys are never valid"""
    rc = vc.choice("exit", [0, 1, 2]); good = vc.choice("signature", ["GOODSIG 77AB Al Al <al@x>", "REVKEYSIG 77AB Al", "EXPKEYSIG 77AB Al", "EXPSIG 77AB Al", "BADSIG 77AB Al", "ERRSIG 77AB", None]); trust = vc.choice("trust", ["TRUST_ULTIMATE 0", "TRUST_FULLY", "TRUST_MARGINAL", "TRUST_NEVER", "TRUST_UNDEFINED", None]); nokey = vc.choice("no key", [False, True]); missing = vc.choice("installed", [True, False])
    out = "".join("[GNUPG:] %s\n" % x for x in ["NEWSIG", good, trust, "NO_PUBKEY 77AB" if nokey else None] if x); err = "gpg: whatever\n" + ("gpg: Good signature from \"Al Al <al@x>\" [x]\n" if good and good.split()[0] in ("GOODSIG", "REVKEYSIG", "EXPKEYSIG") else "") + ("gpg: Can't check signature: No public key\n" if nokey else ""); tl = Tools((lambda c: (rc, out, err)) if missing else (lambda c: None)); key = vc.choice("keyring", [None, Path("/nowhere/k.gpg")])
    with patched(vc, SI, subprocess=tl) as m: s, who, msg = m._verify_gpg_signature(CONTENT, "SIG", key)
    V = m.VerificationStatus; vc.check("cleans up", not any(os.path.exists(f) for c in tl.calls for f in c[2])); g = good and good.startswith("GOODSIG") and rc == 0 and missing; tr = trust in ("TRUST_ULTIMATE 0", "TRUST_FULLY", "TRUST_MARGINAL"); vc.check("valid only when good and trusted", (s is V.VALID) == bool(g and tr)); vc.check("untrusted only when good", (s is V.VALID_UNTRUSTED) == bool(g and not tr))
    if not missing: vc.check("no program", s is V.ERROR); return
    vc.check("names the signer", not g or who == "Al Al <al@x>"); c = [x for x in tl.calls if "--verify" in x[0]]; vc.check("one question", len(c) == 1); cmd, inp, seen = c[0]; i = cmd.index("--verify"); vc.check("this signature of this content", len(cmd) == i + 3 and seen.get(cmd[i + 1]) == b"SIG" and seen.get(cmd[i + 2]) == CONTENT); vc.check("the given keyring", key is None or cmd[cmd.index("--keyring") + 1] == str(key) if key is None or "--keyring" in cmd else False)
@contract("C18.ssh", [T + "_verify_ssh_signature"])
def ssh(vc):
    """an SSH signature is valid only if the program verifies this signature over this content for a listed signer; one that only matches the content is untrusted, any other is invalid"""
    who = vc.choice("found", [None, ["al"], ["al", "bo"]]); ok = vc.choice("verifies for", [None, "al", "bo"]); match = vc.choice("matches", [False, True]); lst = vc.choice("list", ["given", "absent", None]); ins = vc.choice("installed", [True, False])
    def answer(c):
        if not ins: return None
        if "find-principals" in c: return (0, "".join(x + "\n" for x in who), "") if who else (255, "", "No principal matched.")
        if "verify" in c: return (0, "Good", "") if c[c.index("-I") + 1] == ok else (255, "", "Could not verify signature.")
        if "check-novalidate" in c: return (0, "Good", "") if match else (255, "", vc.choice("why", ["incorrect signature", "Couldn't parse signature"]))
        raise AssertionError(c)
    tl = Tools(answer); d = tempfile.mkdtemp(prefix="c18"); al = Path(d) / "allowed"
    try:
        if lst == "given": al.write_text("x")
        with patched(vc, SI, subprocess=tl) as m: s, name, msg = m._verify_ssh_signature(CONTENT, "SIG", al if lst else None)
    finally: shutil.rmtree(d)
    V = m.VerificationStatus; trusted = ins and lst == "given" and who is not None and ok in who; vc.check("valid only for a listed signer", (s is V.VALID) == bool(trusted)); vc.check("untrusted only when it matches", (s is V.VALID_UNTRUSTED) == bool(ins and not trusted and match)); vc.check("else failed", s in (V.VALID, V.VALID_UNTRUSTED, V.INVALID if ins else V.ERROR)); vc.check("names the signer", not trusted or name == ok); vc.check("cleans up", not any(os.path.exists(f) for f in tl.files))
    for cmd, inp, seen in tl.calls:
        vc.check("this signature", not ins or seen.get(cmd[cmd.index("-s") + 1]) == b"SIG")
        if "verify" in cmd or "check-novalidate" in cmd: vc.check("this content and purpose", inp == CONTENT and cmd[cmd.index("-n") + 1] == "ycpkg")
        if "-f" in cmd: vc.check("the given list", cmd[cmd.index("-f") + 1] == str(al))

# ---------------------------------------------------------------- what is signed
KEYS = ["schema", "id", "name", "version", "units", "tags", "created", "geometry", "exports", "attachments", "materials", "x"]
def doc(vc):
    def val(d):
        r = vc.rng.random()
        if d > 2 or r < 0.55: return vc.rng.choice(["a", "b", "", "signatures", 0, 1, -2.5, True, False, None, "1", "é", "x\ny", 1e300])
        if r < 0.78: return [val(d + 1) for _ in range(vc.rng.randrange(0, 4))]
        return {vc.rng.choice(KEYS + ["signatures", "path", "k%d" % i]): val(d + 1) for i in range(vc.rng.randrange(0, 4))}
    return {k: val(0) for k in vc.rng.sample(KEYS, vc.rng.randrange(1, 8))}
def places(x, at=()):
    out = []
    if isinstance(x, dict):
        for k, v in x.items(): out.append((at, k)); out += places(v, at + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): out.append((at, i)); out += places(v, at + (i,))
    return out
def shuffled(vc, x):
    if isinstance(x, dict): k = list(x); vc.rng.shuffle(k); return {q: shuffled(vc, x[q]) for q in k}
    return [shuffled(vc, v) for v in x] if isinstance(x, list) else x
@contract("C18.canonical", [T + "_compute_canonical_manifest_hash", T + "_create_signable_content"], mode="bounded", why="YAML, JSON and SHA-256 of random documents", samples=400)
def canonical(vc):
    """any change of any field anywhere in the manifest but its signature list changes the signed digest; field order, formatting and signatures do not; the digest is the documented one"""
    m = vc.mod(SI); import yaml
    with Scratch() as d:
        p = d / "manifest.yaml"; D = doc(vc); put = lambda x, **k: p.write_text(yaml.safe_dump(x, **k), encoding="utf-8"); put(D); h = m._compute_canonical_manifest_hash(p); vc.check("documented digest", h == hashlib.sha256(json.dumps(D, sort_keys=True, separators=(",", ":")).encode()).hexdigest())
        put(shuffled(vc, D), sort_keys=False, default_flow_style=vc.rng.random() < 0.5, width=vc.rng.choice([20, 200])); vc.check("order and format do not matter", m._compute_canonical_manifest_hash(p) == h); put(dict(D, signatures=vc.rng.choice([[], None, [{"method": "ssh"}], [{"method": "gpg", "x": 1}] * 3])), sort_keys=False); vc.check("signatures are left out", m._compute_canonical_manifest_hash(p) == h)
        E = copy.deepcopy(D); at, k = vc.rng.choice(places(E)); c = E
        for q in at: c = c[q]
        how = vc.rng.choice(["value", "drop", "add"])
        if how == "drop": del c[k]
        elif how == "add":
            if isinstance(c, list): c.insert(k, "new")
            else: c["new field"] = None
        else: old = c[k]; c[k] = vc.rng.choice([v for v in ["a", "b", "", 0, 1, 2.5, True, None, [], {}, "0", "None"] if json.dumps(v) != json.dumps(old)])
        put(E); vc.check("every change counts", m._compute_canonical_manifest_hash(p) != h); vc.check("signed text", m._create_signable_content(h) == ("ycpkg-manifest-v1\n%s\n" % h).encode()); 
        p.write_text("schema: s\ncreated:\n  timestamp: 2024-10-12T18:04:00Z\n  day: 2024-10-12\n"); a = m._compute_canonical_manifest_hash(p); p.write_text("schema: s\ncreated:\n  timestamp: 2024-10-12T18:04:01Z\n  day: 2024-10-12\n"); b = m._compute_canonical_manifest_hash(p); vc.check("dates", a != b)
@contract("C18.fields", [T + "_compute_canonical_manifest_hash"])
def fields(vc):
    """whatever the manifest's values are, everything but the top-level signature list reaches the serialiser, in sorted compact form, and its text is what is hashed"""
    import io; D = {"a": vc.real("x"), "signatures2": vc.real("y"), "n": {"signatures": vc.real("z")}, "signature": 1}; full = dict(D)
    if vc.choice("signed", [False, True]): full["signatures"] = ["s"]
    seen = []; text = vc.choice("text", ["q", "é", ""])
    class J:
        @staticmethod
        def dumps(x, **k): seen.append((x, k)); return text
    class Y:
        @staticmethod
        def safe_load(f): return full
    with Scratch() as d:
        p = d / "m"; p.write_text("x")
        with patched(vc, SI, json=J, yaml=Y) as m: h = m._compute_canonical_manifest_hash(p)
    vc.check("everything but the signatures", len(seen) == 1 and set(seen[0][0]) == set(D) and bool(vc.and_(*[seen[0][0][k] is D[k] for k in D]))); vc.check("sorted and compact", seen[0][1].get("sort_keys") is True and tuple(seen[0][1].get("separators")) == (",", ":")); vc.check("its digest", h == hashlib.sha256(text.encode("utf-8")).hexdigest())
@contract("C18.listed", [T + "_listed_files"])
def listed(vc):
    """every entry with a path and a hash, anywhere in the manifest, is a listed file, and nothing else"""
    m = vc.mod(SI); w = vc.choice("where", ["primary", "derived", "exports", "source", "deep", "none"]); e = {"path": "p", "hash": "h", "id": vc.real("x")}; odd = [{"path": "q"}, {"hash": "h"}, {"path": 1, "hash": 2}, "path", None, 3]; D = {"primary": {"geometry": {"primary": e}}, "derived": {"geometry": {"derived": odd[:2] + [e]}}, "exports": {"exports": [e], "attachments": odd[2:]}, "source": {"source": {"modules": [odd[0], e], "runtime": {"python": {}}}}, "deep": {"validation": {"results": [{"artifacts": [e]}]}}, "none": {"a": odd, "b": {"path": "x"}}}[w]; r = list(m._listed_files(D)); vc.check("listed", (len(r) == 1 and r[0] is e) if w != "none" else r == [])

# ---------------------------------------------------------------- verifying a package
def package(d, D):
    import yaml; p = d / "pkg"; p.mkdir(); (p / "manifest.yaml").write_text(yaml.safe_dump(D)); (p / "s").mkdir(); return p
@contract("C18.verify", [T + "verify_package"], time_s=200)
def verify(vc):
    """every listed signature is checked over the digest of the manifest as it is now, by its own method, with its own file; unknown methods and missing files never count as valid; altered files are errors; missing manifests and unsigned packages are not valid"""
    m = vc.mod(SI); V = m.VerificationStatus; n = vc.choice("n", [0, 1, 2]); meth = [vc.choice("method%d" % i, ["gpg", "ssh", "pgp", None] if i == 0 else ["ssh", "pgp"]) for i in range(n)]; there = [vc.choice("file%d" % i, [True, False, "nowhere"] if i == 0 else [True]) for i in range(n)]; res = [status(vc, m, "result0"), vc.choice("result1", [V.VALID, V.INVALID])][:n]; intact = vc.choice("files", [True, False]); seen = []; H = "digest-of-now"; opts = vc.choice("options", [False, True]) if n == 1 else False
    D = {"schema": "s", "exports": [{"path": "f", "hash": "sha256:1"}], "signatures": [dict(signer="w%d" % i, key_id="k%d" % i, timestamp="t", **({"method": meth[i]} if meth[i] else {}), **({} if there[i] == "nowhere" else {"signature_file": "s/%d" % i})) for i in range(n)]}
    if n == 0 and vc.choice("list", [True, False]): del D["signatures"]
    def one(kind):
        def f(content, signature, *a, **k): seen.append((kind, content, signature, a, k)); return res[int(signature)], "who", None
        return f
    with Scratch() as d:
        p = package(d, D)
        for i in range(n):
            if there[i] is True: (p / "s" / str(i)).write_text(str(i))
        with patched(vc, SI, _verify_gpg_signature=one("gpg"), _verify_ssh_signature=one("ssh"), _compute_canonical_manifest_hash=lambda q: H if Path(q) == p / "manifest.yaml" else "?", _check_file=lambda q, h: (intact and (str(q), h) == (str(p / "f"), "sha256:1"), ["ERROR: f altered"] if not intact else [])) as m: r = m.verify_package(p, **(dict(allowed_signers=d / "al", gpg_keyring=str(d / "kr")) if opts else {})); z = m.verify_package(d / "none")
    C = ("ycpkg-manifest-v1\n%s\n" % H).encode(); run = [i for i in range(n) if meth[i] != "pgp" and there[i] is True]; kinds = [meth[i] or "gpg" for i in run]; vc.check("each once, by its method", [(s[0], s[2]) for s in seen] == [(k, str(i)) for k, i in zip(kinds, run)]); vc.check("over the content now", all(s[1] == C for s in seen)); S = [s.status for s in r.signatures]; vc.check("outcomes", S == [res[i] if i in run else V.ERROR for i in range(n) if meth[i] != "pgp"]); vc.check("errors", len(r.errors) == meth.count("pgp") + (0 if intact or n == 0 else 1) or n == 0); vc.check("verified only if", bool(r.is_valid) == (intact and "pgp" not in meth and any(res[i] is V.VALID for i in run))); vc.check("digest reported", r.manifest_hash == "sha256:" + H and r.package_path == str(p)); vc.check("no package", not z.is_valid and z.overall_status is V.ERROR and bool(z.errors)); vc.check("who", [(s.signer, s.key_id, s.method.value) for s in r.signatures] == [("w%d" % i, "k%d" % i, meth[i] or "gpg") for i in range(n) if meth[i] != "pgp"])
    if opts: vc.check("keys", all((d / "kr" if s[0] == "gpg" else d / "al") in list(s[3]) + list(s[4].values()) for s in seen))
    else: vc.check("no keys", all(all(x is None for x in list(s[3]) + list(s[4].values())) for s in seen))
@contract("C18.each", [T + "verify_package"])
def each(vc):
    """any number of signatures: each adds its own outcome and leaves the others alone"""
    m = vc.mod(SI); V = m.VerificationStatus; vc.cutused = True; cut = vc.cut(T + "verify_package", 1, replace={0: lambda env: None}); s = status(vc, m, "result"); w = vc.choice("kind", ["gpg", "ssh", "lost", "other"])
    with Scratch() as d:
        D = {"a": 1, "signatures": [{"method": "x"}] * 4}; p = package(d, D); k, v, e = cut.pre(p); vc.check("all signatures", k == "next" and list(cut.over(e)) == D["signatures"]); (p / "s" / "f").write_text("SIG"); r = e["result"]; r.signatures.append("before"); r.errors.append("b4"); f = lambda *a, **k: (s, "who", "msg"); e["_verify_gpg_signature"] = f; e["_verify_ssh_signature"] = f; k, v = cut.body(e, {"method": {"lost": "ssh", "other": "zzz"}.get(w, w), "signature_file": "s/g" if w == "lost" else "s/f", "signer": "me"}); vc.check("goes on", k == "next"); vc.check("kept", r.signatures[0] == "before" and r.errors[0] == "b4")
        if w == "other": vc.check("unknown method", len(r.signatures) == 1 and len(r.errors) == 2)
        else: vc.check("its outcome", len(r.signatures) == 2 and len(r.errors) == 1 and r.signatures[1].status is (V.ERROR if w == "lost" else s))
        k, v = cut.post(e); vc.check("result", k == "return" and v is r)

# ---------------------------------------------------------------- signing
@contract("C18.sign", [T + "sign_package", T + "list_signatures", T + "_unused_signature_file"], time_s=200)
def sign(vc):
    """signing records the new signature and stores its text in its own file; nothing else in the manifest changes; added signatures keep the earlier entries and their files; a failed signing leaves the package as it was"""
    m = vc.mod(SI); import yaml; n = vc.choice("earlier", [0, 1, 2]); add = vc.choice("add", [True, False]); meth = vc.choice("method", ["gpg", "ssh", "GPG", "enum", "bad"]); old = vc.choice("names", ["same", "other"]); who = vc.choice("signer", ["al", "a/b c@d", "x" * 30]); fail = vc.choice("fails", [False, True]); D = {"schema": "s", "id": "i", "created": {"timestamp": "2024"}, "tags": ["b", "a"]}
    nm = {"gpg": "manifest.sig.asc", "ssh": "manifest.sig." + who.replace("@", "_").replace(" ", "_").replace("/", "_")[:20]}; kind = {"GPG": "gpg", "enum": "ssh"}.get(meth, meth); E = []
    with Scratch() as d:
        p = package(d, D); sd = p / "signatures"; sd.mkdir()
        for i in range(n):
            f = (nm.get(kind, "q") if i == 0 else nm.get(kind, "q") + ".2" if kind == "ssh" else "manifest.sig.2.asc") if old == "same" else "other%d" % i; (sd / f).write_text("old%d" % i); E.append({"signer": "o%d" % i, "method": "ssh", "key_id": "k", "timestamp": "t", "signature_file": "signatures/" + f})
        D2 = dict(D, **({"signatures": E} if n else {"signatures": []} if old == "same" else {})); (p / "manifest.yaml").write_text(yaml.safe_dump(D2)); before = m._compute_canonical_manifest_hash(p / "manifest.yaml"); got = []
        def tool(content, key=None, *a, **k):
            got.append((content, key))
            if fail: raise m.SigningError("no")
            return "NEW", who, "KEY"
        with patched(vc, SI, _sign_with_gpg=tool, _sign_with_ssh=tool) as m: x, r = vc.raises(m.sign_package, p, method=m.SignatureMethod.SSH if meth == "enum" else meth, key_id="K", key_path="/k", add=add, signer_name=vc.choice("name", [None, "me"]))
        now = yaml.safe_load((p / "manifest.yaml").read_text()); L = m.list_signatures(p)
        if meth == "bad" or fail: vc.check("refused", x is not None and now == D2 and all((sd / Path(e["signature_file"]).name).read_text() == "old%d" % i for i, e in enumerate(E))); return
        vc.check("signed the digest", x is None and len(got) == 1 and got[0][0] == m._create_signable_content(before)); vc.check("with the key", str(got[0][1]) == ("K" if kind == "gpg" else "/k")); S = now.pop("signatures"); vc.check("nothing else changes", now == D and m._compute_canonical_manifest_hash(p / "manifest.yaml") == before); vc.check("earlier ones stay", S[:-1] == (E if add else [])); s = S[-1]; vc.check("recorded", s["method"] == kind and s["key_id"] == "KEY" and s["signer"] in (who, "me") and s["signature_file"] == r.signature_file); vc.check("own file", (p / s["signature_file"]).read_text() == "NEW" and (p / s["signature_file"]).parent == sd); vc.check("earlier files stay", not add or all((p / e["signature_file"]).read_text() == "old%d" % i for i, e in enumerate(E))); vc.check("listed", [(q.signer, q.method.value, q.key_id, q.signature_file) for q in L] == [(q["signer"], q["method"], q["key_id"], q["signature_file"]) for q in S])
@contract("C18.sign_refuses", [T + "sign_package", T + "_sign_with_ssh", T + "_sign_with_gpg"])
def sign_refuses(vc):
    """no manifest, no key, a missing program or a failing one are signing errors; a tool's output is the signature only if it succeeded"""
    m = vc.mod(SI); kind = vc.choice("kind", ["gpg", "ssh"]); how = vc.choice("how", ["works", "fails", "missing", "no manifest", "no key"])
    def answer(c):
        if how == "missing": return None
        if how == "fails": return (2, "", "broken")
        if "sign" in c and c[0] == "ssh-keygen": open(c[-1] + ".sig", "w").write("SSHSIG"); return (0, "", "")
        if c[0] == "ssh-keygen": return (0, "256 SHA256:xyz bob (ED25519)", "")
        return (0, "uid:::::::::Al <a>:\npub::::ABCD:\n" if "--list-keys" in c else "GPGSIG", "")
    tl = Tools(answer)
    with Scratch() as d:
        p = package(d, {"a": 1}); k = d / "key"; k.write_text("k")
        if how == "no manifest": (p / "manifest.yaml").unlink()
        if how == "no key": k.unlink()
        with patched(vc, SI, subprocess=tl) as m: x, r = vc.raises(m.sign_package, p, kind, **({"key_path": k} if kind == "ssh" else {"key_id": "ABCD"})); y, _ = vc.raises(m.sign_package, p, "ssh")
        vc.check("needs a key", isinstance(y, m.SigningError))
        if how == "works" or (how == "no key" and kind == "gpg"): vc.check("signature", x is None and (p / r.signature_file).read_text() == ("SSHSIG" if kind == "ssh" else "GPGSIG")); vc.check("key", (r.signer, r.key_id) == (("bob", "SHA256:xyz") if kind == "ssh" else ("Al <a>", "ABCD"))); c = tl.calls[0]; vc.check("of the content", (c[1] or c[2].get(c[0][-1])) == m._create_signable_content(m._compute_canonical_manifest_hash(p / "manifest.yaml")))
        else: vc.check("refused", isinstance(x, m.SigningError) and m.list_signatures(p) == [])
    vc.check("cleans up", not any(os.path.exists(f) or os.path.exists(f + ".sig") for f in tl.files if "c17" not in f))
@contract("C18.keys", [T + "sign_package", T + "verify_package", T + "_verify_ssh_signature", T + "_sign_with_ssh", T + "list_signatures"], mode="bounded", why="real keys and files: histories of signing, changing and verifying with the ssh-keygen program", samples=12, sample_s=60)
def keys(vc):
    """real SSH keys: a signed package verifies for listed signers only; after any change of manifest or files, or with another signature, it does not; added signatures leave earlier ones valid; restoring makes it valid again"""
    m = vc.mod(SI); core = vc.mod("yapcad.package.core"); import yaml; V = m.VerificationStatus
    if not shutil.which("ssh-keygen"): return
    with Scratch() as d:
        for k, c in (("k1", "al@x"), ("k2", vc.choice("comment", ["al@x", "bo"]))): subprocess.run(["ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-C", c, "-f", str(d / k)], check=True)
        pub = lambda k: " ".join((d / k).with_suffix(".pub").read_text().split()[:2]); al = d / "al"; al.write_text("al@x %s\n" % pub("k1")); both = d / "both"; both.write_text("al@x %s\nbo@y %s\n" % (pub("k1"), pub("k2"))); none = d / "none"; none.write_text("bo@y %s\n" % pub("k2")); p = d / "pkg"; M = core.create_package_from_entities([vc.mod("yapcad.geom3d_util").prism(1, 2, 3)], p, name="n", version="1"); f = d / "x.stl"; f.write_bytes(b"solid"); core.add_geometry_file(M, f); M.save(); vc.check("unsigned", not m.verify_package(p, al).is_valid); m.sign_package(p, "ssh", key_path=d / "k1"); ok = lambda a=al: m.verify_package(p, a).is_valid; vc.check("signed", ok() and ok(both)); vc.check("not for others", not ok(none)); r = m.verify_package(p); vc.check("without a list", not r.is_valid and r.overall_status is V.VALID_UNTRUSTED); m.sign_package(p, "ssh", key_path=d / "k2", add=True); r = m.verify_package(p, both); vc.check("both", r.is_valid and r.trusted_signers == 2 and ok()); man = p / "manifest.yaml"; keep = man.read_bytes(); D = yaml.safe_load(keep)
        how = vc.rng.choice(["field", "new", "file", "geometry", "signature", "swap", "garbage"])
        if how == "field": D["name"] = "evil"
        if how == "new": D["geometry"]["extra"] = 1
        if how in ("field", "new"): man.write_text(yaml.safe_dump(D)); r = m.verify_package(p, both); vc.check("manifest changed", not r.is_valid and r.overall_status is V.INVALID and not ok() and m.verify_package(p).overall_status is V.INVALID); man.write_bytes(keep)
        if how in ("file", "geometry"): q = p / ("geometry/derived/x.stl" if how == "file" else "geometry/primary.json"); old = q.read_bytes(); q.write_bytes(old[:-1] + b"?"); r = m.verify_package(p, both); vc.check("file changed", not r.is_valid and r.overall_status is V.ERROR); q.write_bytes(old)
        if how in ("signature", "swap", "garbage"):
            S = [p / s["signature_file"] for s in D["signatures"]]; old = [s.read_text() for s in S]; vc.check("own files", S[0] != S[1])
            if how == "swap": S[0].write_text(old[1]); S[1].write_text(old[0]); vc.check("swapped", m.verify_package(p, al).trusted_signers == 1)
            else:
                for s, o in zip(S, old): s.write_text("garbage" if how == "garbage" else o.replace("A", "B"))
                r = m.verify_package(p, both); vc.check("signature changed", not r.is_valid and r.overall_status in (V.INVALID, V.ERROR)); r = m.verify_package(p); vc.check("nor without a list", r.overall_status in (V.INVALID, V.ERROR))
            for s, o in zip(S, old): s.write_text(o)
        vc.check("restored", ok() and ok(both))
