"""Runs the contracts of one property: proof mode, replay, cross-check; writes evidence; sets the verdict."""
import sys, os, json, time, random, traceback, importlib, glob, signal, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
import warnings
warnings.simplefilter("ignore")
import multiprocessing as mp
from . import term as T, poly, solver, sym, shim, vc as V
from .vc import CONTRACTS, SVC, CVC, Reject, TargetMissing, OutOfSubset, Infeasible, EndPath, Budget

def load_contracts(prop):
    sys.path.insert(0, VERIF)
    import yapcad
    assert os.path.realpath(yapcad.__file__).startswith(os.path.realpath(os.path.join(REPO, "src"))), yapcad.__file__
    importlib.import_module("contracts." + prop)
    cs = [c for c in CONTRACTS if c.prop == prop]
    for m in sorted({t.split(":")[0] for c in cs for t in c.targets}):
        try: importlib.import_module(m)
        except Exception: pass          # reported by the contract itself
    return cs

def seed_for(seed, name): return int(hashlib.sha256(("%s/%s" % (seed, name)).encode()).hexdigest()[:12], 16)

# ---------------------------------------------------------------- proof mode
def prove(c, tier):
    cfg = {"oblig_ms": c.opt.get("oblig_ms", 6000 if tier == "quick" else 30000), "cvc5": tier != "quick", "lazymin": c.opt.get("lazymin")}
    time_s = c.opt.get("time_s", 90 if tier == "quick" else 400)
    eng = sym.Engine(max_paths=c.opt.get("max_paths", 2000), time_s=time_s, feas_ms=c.opt.get("feas_ms", 400))
    obs = []; reason = None; inputs_by = []
    paths_checked = 0
    def body(path):
        nonlocal paths_checked
        v = SVC(path, cfg)
        with shim.Patched():
            try:
                try:
                    c.fn(v)
                except Infeasible: raise
                except EndPath: pass
                except OutOfSubset as e:
                    o = V.Obligation("subset", "unknown", detail="left the modelled subset: %s" % e, path=list(path.taken))
                    r = solver.solve(path.pc, 1500)
                    if r.status == "unsat": raise Infeasible()
                    o.model = r.model; v.obs.append(o)
                    o.detail += " @ " + where()
                except Exception as e:
                    r = v.discharge(T.FALSE)
                    if r.status == "unsat": raise Infeasible()
                    if v.cutused and r.status == "sat": raise TargetMissing("extracted code: %s: %s @ %s" % (type(e).__name__, e, where()))
                    o = V.Obligation("no-unexpected-exception", "sat" if r.status == "sat" else "unknown", r.backend, r.model,
                                     V.pure_formula(path.pc), list(path.taken), "%s: %s @ %s" % (type(e).__name__, e, where()))
                    v.obs.append(o)
            finally: v.unstub()
        if v.obs: paths_checked += 1
        return v
    try:
        for p, v in eng.run(body):
            if v is None: continue
            for o in v.obs:
                d = dict(name=o.name, status=o.status, backend=o.backend, detail=o.detail, pure=o.pure, ms=o.ms)
                if o.status != "unsat" and o.model is not None:
                    try: d["inputs"] = v.model_inputs(o.model)
                    except Exception as e: d["model_error"] = repr(e)
                if o.status == "unknown" and "inputs" not in d:
                    # a model of the path alone drives a directed concrete test
                    r = solver.solve(p.pc, 1500)
                    if r.status == "sat":
                        try: d["inputs"] = v.model_inputs(r.model)
                        except Exception: pass
                obs.append(d)
            if sum(1 for d in obs if d["status"] == "sat") >= 6: reason = "stopped after refutations"; break
    except Budget as e: reason = "budget: %s" % e
    except TargetMissing as e: reason = "target missing: %s" % e
    except OutOfSubset as e: reason = "subset: %s" % e
    except RecursionError: reason = "recursion"
    n = len(obs); ok = sum(1 for d in obs if d["status"] == "unsat")
    if reason is None and n == 0: reason = "vacuous: no obligation generated"
    status = "proved" if reason is None and n == ok else ("refuted" if any(d["status"] == "sat" for d in obs) else "undecided")
    return dict(status=status, reason=reason, obligations=n, discharged=ok, paths=eng.npaths, infeasible=eng.infeasible,
                bad=[d for d in obs if d["status"] != "unsat"][:20], backends=count(d["backend"] for d in obs if d["status"] == "unsat"),
                names=count(d["name"] for d in obs), missing=bool(reason and reason.startswith("target missing")),
                solver=dict(solver.STATS))

def where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    for f in reversed(tb):
        if "/yapcad/" in f.filename: return "%s:%d" % (f.filename.split("/src/")[-1], f.lineno)
    return "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"

def count(it):
    r = {}
    for x in it: r[str(x)] = r.get(str(x), 0) + 1
    return r

# ---------------------------------------------------------------- concrete mode
class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def run_once(c, rng, given=None, strict=False, limit=20):
    """-> ('ok'|'fail'|'reject'|'missing'|'timeout', detail, values, vc)"""
    v = CVC(rng, given, strict, special=c.opt.get("special", 0.35))
    old = signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        c.fn(v)
    except Reject: return "reject", None, v.values, v
    except TargetMissing as e: return "missing", str(e), v.values, v
    except Timeout: return "timeout", "no answer within %ds" % limit, v.values, v
    except EndPath: pass
    except RecursionError as e: return "fail", ["no-unexpected-exception: RecursionError"], v.values, v
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/yapcad/" in f.filename for f in tb)
        if v.cutused: return "missing", "extracted code: %r" % e, v.values, v
        if not inrepo and (isinstance(e, ImportError) or isinstance(e, AttributeError) and "NoneType" not in str(e) or isinstance(e, TypeError) and "argument" in str(e)):
            return "missing", "interface changed: %r" % e, v.values, v
        return "fail", v.fails + ["no-unexpected-exception: %s: %s" % (type(e).__name__, e)], v.values, v
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    if v.fails: return "fail", v.fails, v.values, v
    return "ok", None, v.values, v

def perturb(given, rng):
    g = {}
    for k, x in given.items():
        if isinstance(x, bool) or isinstance(x, int): g[k] = x
        elif isinstance(x, float):
            r = rng.random()
            g[k] = x if r < 0.4 else (round(x, 2) if r < 0.6 else x * (1 + rng.uniform(-1e-2, 1e-2)) if r < 0.8 else x + rng.uniform(-1, 1))
        elif isinstance(x, list): g[k] = x if rng.random() < 0.7 else [y + rng.gauss(0, 0.05) for y in x]
        else: g[k] = x
    return g

def concrete(c, tier, seed, bad):
    """replay counter-models, then search; returns dict"""
    rng = random.Random(seed_for(seed, c.name))
    res = dict(runs=0, checks=0, rejected=0, maybe=0, replayed=0, failure=None, missing=None, distinct=0, samples=[])
    seen = set()
    def rec(st, det, vals, v, origin):
        res["runs"] += 1; res["checks"] += v.nchecks; res["maybe"] += v.maybe
        if st == "reject": res["rejected"] += 1
        elif st == "missing": res["missing"] = det
        elif st == "fail":
            res["failure"] = dict(inputs=vals, failed=det, origin=origin, strict=v.strict, cut=v.cutused)
        elif st == "timeout": res["timeouts"] = res.get("timeouts", 0) + 1
        if st == "ok" and v.nchecks:
            k = repr(sorted(vals.items(), key=lambda t: t[0]))
            if k not in seen:
                seen.add(k)
                if len(res["samples"]) < 2: res["samples"].append({"contract": c.name, "inputs": json.loads(json.dumps(vals, default=str))})
        return st == "fail"
    for b in bad:
        if "inputs" not in b: continue
        res["replayed"] += 1
        st, det, vals, v = run_once(c, rng, b["inputs"])
        if rec(st, det, vals, v, "counter-model of " + b["name"]): return res
        if b["status"] == "sat" and b["pure"]:
            st, det, vals, v = run_once(c, rng, b["inputs"], strict=True)
            if st == "fail" and v.exact_inputs:
                rec(st, det, vals, v, "counter-model of %s (exact arithmetic)" % b["name"]); return res
        for _ in range(40 if b["status"] == "sat" else 10):
            st, det, vals, v = run_once(c, rng, perturb(b["inputs"], rng))
            if rec(st, det, vals, v, "neighbour of the counter-model of " + b["name"]): return res
    n = c.opt.get("samples", 200) * (1 if tier == "quick" else 10)
    if bad: n = max(n * 4, 800)
    t0 = time.time(); lim = c.opt.get("sample_s", 20) * (1 if tier == "quick" else 5) * (2 if bad else 1)
    ok = 0; tries = 0
    while ok < n and tries < 20 * n and time.time() - t0 < lim:
        tries += 1
        st, det, vals, v = run_once(c, rng)
        if rec(st, det, vals, v, "directed search"): return res
        if st == "ok": ok += 1
        if st == "missing": break
    res["distinct"] = len(seen)
    return res

def child(c, tier, seed, q):
    t0 = time.time()
    out = dict(name=c.name)
    try:
        if c.opt.get("mode") == "bounded":
            out["proof"] = dict(status="bounded", reason=c.opt.get("why", "outside the verifier's reach"), obligations=0, discharged=0, bad=[], paths=0)
        else:
            try: out["proof"] = prove(c, tier)
            except BaseException as e:
                out["proof"] = dict(status="undecided", reason="engine: %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:], obligations=0, discharged=0, bad=[], paths=0)
        out["partial"] = True
        q.put(dict(out))
        out["concrete"] = concrete(c, tier, seed, out["proof"]["bad"])
    except BaseException as e:
        out["error"] = "%s: %s" % (type(e).__name__, e); out["trace"] = traceback.format_exc()[-1500:]
    out["wall"] = time.time() - t0; out["partial"] = False
    q.put(out)

def run_all(cs, tier, seed, jobs=8, hard=None):
    ctx = mp.get_context("fork")
    results = {}
    pending = list(cs); running = {}
    q = ctx.Queue()
    if hard is None: hard = 400 if tier == "quick" else 2400
    pending.sort(key=lambda c: -c.opt.get("time_s", 90))
    while pending or running:
        while pending and len(running) < jobs:
            c = pending.pop(0)
            p = ctx.Process(target=child, args=(c, tier, seed, q)); p.start()
            running[c.name] = (p, time.time(), c)
        try:
            r = q.get(timeout=0.5)
            results[r["name"]] = r
            if not r.get("partial"):
                p = running.pop(r["name"], None)
                if p: p[0].join(10)
        except Exception: pass
        for name, (p, t, c) in list(running.items()):
            if time.time() - t > c.opt.get("hard_s", hard):
                p.kill(); p.join(); running.pop(name)
                results.setdefault(name, dict(name=name, proof=dict(status="undecided", reason="killed: time", obligations=0, discharged=0, bad=[], paths=0)))
            elif not p.is_alive():
                # drain
                t_end = time.time() + 2
                while time.time() < t_end and name in running:
                    try:
                        r = q.get(timeout=0.3); results[r["name"]] = r
                        if not r.get("partial"): running.pop(r["name"], None)
                    except Exception: pass
                if name in running:
                    running.pop(name)
                    results.setdefault(name, dict(name=name, proof=dict(status="undecided", reason="worker died", obligations=0, discharged=0, bad=[], paths=0)))
    return results

# ---------------------------------------------------------------- verdict
def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("kind") == "known"]

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cs = load_contracts(prop)
    only = os.environ.get("PYVC_ONLY")
    if only: cs = [c for c in cs if any(o in c.name for o in only.split(","))]
    assert cs, "no contracts"
    results = run_all(cs, tier, seed)
    violations = []; known = []
    kf = known_findings(prop)
    ob = di = 0; fns = {}; backends = {}; bounded = []; undec = []; st = {"z3_time": 0.0, "z3_calls": 0, "cvc5_calls": 0, "cvc5_time": 0.0}
    runs = distinct = 0; samples = []; paths = 0; assumptions = set(); proved_names = []
    for c in cs:
        r = results.get(c.name, {}); p = r.get("proof") or dict(status="undecided", reason="no result", obligations=0, discharged=0, bad=[]); k = r.get("concrete") or {}
        for t in c.targets: fns.setdefault(t, []).append(c.name)
        for a in c.opt.get("assumes", ()): assumptions.add(a)
        runs += k.get("runs", 0); distinct += k.get("distinct", 0); samples += k.get("samples", [])[:1]
        paths += p.get("paths", 0)
        for b, n in p.get("backends", {}).items(): backends[b] = backends.get(b, 0) + n
        for key in st: st[key] += p.get("solver", {}).get(key, 0)
        fail = k.get("failure")
        if p["status"] == "proved":
            ob += p["obligations"]; di += p["discharged"]; proved_names.append(c.name)
        elif p["status"] == "bounded": bounded.append(dict(contract=c.name, bound="%d concrete runs; %s" % (k.get("runs", 0), p["reason"])))
        else:
            undec.append(dict(contract=c.name, reason=p.get("reason"), discharged=p["discharged"], obligations=p["obligations"], first=[(b["name"], b["status"], b["detail"]) for b in p["bad"][:3]]))
            ob += p["discharged"]; di += p["discharged"]
        v = None
        if fail:
            # a failed loop invariant is a failed obligation, not yet a failing input of the function itself
            v = dict(contract=c.name, kind="no-failing-input-found" if fail.pop("cut", False) else "failing-input", **fail)
        elif p["status"] == "refuted" and not k.get("missing"):
            pure = [b for b in p["bad"] if b["status"] == "sat" and b["pure"]]
            if pure and c.opt.get("report_refuted", True):
                v = dict(contract=c.name, kind="no-failing-input-found", obligation=pure[0]["name"], detail=pure[0]["detail"], model=pure[0].get("inputs"), verifier=p)
        if v:
            v["targets"] = c.targets; v["doc"] = c.doc
            m = [f for f in kf if f["contract"] == c.name and (not f.get("failed") or any(f["failed"] in str(x) for x in v.get("failed", [v.get("obligation")])))]
            if m: known.append((m[0], v))
            else: violations.append(v)
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + ".*")): os.remove(f)
    for f, v in known: print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for v in violations:
        path = os.path.join(rdir, "%s.json" % v["contract"])
        json.dump(dict(property=prop, **v), open(path, "w"), indent=1, default=str)
        tail = " no-failing-input-found" if v["kind"] == "no-failing-input-found" else ""
        print("  contract %s on %s: %s" % (v["contract"], ", ".join(v["targets"]), v.get("failed") or v.get("obligation")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    level = os.environ.get("PYVC_LEVEL", "proof")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=sorted(assumptions | set(GENERIC_ASSUMPTIONS)),
              coverage=dict(obligations=ob, discharged=di,
                            checker_cmd="python3 -m pyvc %s (z3 %s, polynomial normal form; cvc5 in thorough)" % (prop, solver.z3.get_version_string()),
                            trusted_base=TRUSTED,
                            contracts=len(cs), contracts_proved=len(proved_names), functions_under_contract=sorted(fns),
                            paths=paths, backends=backends, solver_time_s=round(st["z3_time"] + st["cvc5_time"], 2), solver_calls=st["z3_calls"] + st["cvc5_calls"],
                            bounded=bounded, undecided=undec,
                            crosscheck_runs=runs, crosscheck_distinct=distinct, samples=samples[:12]))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d contracts, %d proved, %d obligations discharged, %d bounded, %d undecided, %d cross-check runs, %.1fs" % (prop, tier, len(cs), len(proved_names), di, len(bounded), len(undec), runs, time.time() - t0))
    for u in undec: print("  undecided", u["contract"], u["reason"], u["first"])
    if os.environ.get("PYVC_VERBOSE"):
        for c in cs:
            r = results.get(c.name, {}); p = r.get("proof", {}); k = r.get("concrete", {})
            print("  %-40s %-10s ob=%d/%d paths=%s runs=%s rej=%s maybe=%s %.1fs %s %s" % (c.name, p.get("status"), p.get("discharged", 0), p.get("obligations", 0), p.get("paths"), k.get("runs"), k.get("rejected"), k.get("maybe"), r.get("wall", 0), r.get("error", ""), k.get("missing") or ""))
            if p.get("trace"): print(p["trace"])
    return 1 if violations else 0

TRUSTED = ["pyvc: symbolic execution of the live functions by proxy values (term.py, sym.py, shim.py, vc.py)",
           "z3 unsat answers; polynomial normal form (poly.py)",
           "CPython executes the same bytecode for proxies as for numbers; numpy object arrays compute element-wise"]
GENERIC_ASSUMPTIONS = ["floats are treated as mathematical reals (no rounding, overflow or NaN); float literals that are within one ulp of a short fraction or rational multiple of pi stand for it",
                       "sin/cos/acos/atan2/sqrt are known through their algebraic laws only"]
