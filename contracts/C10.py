import copy, itertools, json, os, re, tempfile, types
import numpy as np
from pyvc.vc import contract
from contracts.lib import *
AS = "yapcad.assembly.assembly"; KI = "yapcad.assembly.kinematic_integration"; DA = "yapcad.assembly.datum"; AA = AS + ":Assembly."; KV = KI + ":AssemblyValidator."; MT = "yapcad.assembly.mate"; LC = "yapcad.assembly.load_case"; CO = "yapcad.assembly.constraint"
SEV = ["error", "warning", "info"]
class Con:
    """a constraint with a chosen outcome that records what it is given"""
    def __init__(s, name, severity, result, part="P", datum="d"): s.name, s.severity, s.result, s.part, s.datum, s.seen, s.constraint_type = name, severity, result, part, datum, [], types.SimpleNamespace(value="kind")
    def evaluate(s, x): s.seen.append(x); return s.result
def part(vc, name="P", *datums):
    m = vc.mod(DA); p = m.PartDefinition(name)
    for d in datums: p.add_datum(m.Datum(d, m.DatumType.POINT, origin=[0.0, 0.0, 0.0, 1.0]))
    return p
def outcomes(vc, nmax=3, kin=False):
    n = vc.choice("constraints", list(range(nmax + 1))); names = vc.choice("names", [0, 1, 2]) if n > 1 else 0; out = []
    for i in range(n):
        s = vc.choice("severity %d" % i, SEV); ok = vc.choice("passes %d" % i, [True, False]); nm = "c0" if (names == 1 and i == n - 1) or names == 2 else "c%d" % i
        r = vc.mod(KI).ConstraintEvaluationResult(satisfied=ok, error=1.5, error_message="why%d" % i) if kin else vc.mod(CO).ConstraintResult(passed=ok, error_value=1.5, error_message="why%d" % i); out.append((nm, s, ok, r))
    return out
def same_names(got, want): return sorted(got) == sorted(want)
def judged(vc, rep, spec, ok):
    """the verdict and the lists of a report against the outcomes"""
    bad = [q for q in spec if not q[2]]; vc.check("valid exactly when no error fails", (rep.is_valid is True) if not any(q[1] == "error" for q in bad) else (rep.is_valid is False))
    vc.check("failures are the failing errors", same_names(rep.failed_constraints, [q[0] for q in bad if q[1] == "error"])); vc.check("warnings are the failing warnings", len(rep.warnings) == len([q for q in bad if q[1] == "warning"]) and all(any(q[0] in w and q[3].error_message in w for w in rep.warnings) for q in bad if q[1] == "warning"))
    vc.check("a result for every name", set(rep.constraint_results) == {q[0] for q in spec}); by = {}
    for q in spec: by.setdefault(q[0], []).append(q)
    for n, qs in by.items(): r = rep.constraint_results.get(n); vc.check("a reported result", any(q[3] is r for q in qs)); vc.check("no failure hidden", all(q[2] for q in qs) or not ok(r))

@contract("C10.validate", [AA + "validate"], max_paths=4000)
def validate(vc):
    """up to three constraints of any severity and outcome, distinct or shared names: the verdict, the failures, the warnings and the results follow, each constraint is evaluated once on the datum of its own part where that part is placed, and nothing changes"""
    a = vc.mod(AS).Assembly("x"); spec = outcomes(vc); T = [np.eye(4), np.eye(4)]; T[1][:3, 3] = [10.0, 20.0, 30.0]; a.add_part(part(vc, "P", "d", "e"), transform=T[0]); a.add_part(part(vc, "P", "d"), name="Q", transform=T[1]); cs = []
    for i, (n, s, ok, r) in enumerate(spec): c = Con(n, s, r, part=["P", "Q"][i % 2], datum="e" if i == 2 else "d"); a.add_constraint(c); cs.append(c)
    before = (list(a.parts), {k: v.tolist() for k, v in a.transforms.items()}, list(a.mates)); rep = a.validate(); judged(vc, rep, spec, lambda r: r.passed)
    vc.check("each evaluated once", all(len(c.seen) == 1 for c in cs)); vc.check("where the part is placed", all(c.seen[0].name == c.datum and [float(q) for q in c.seen[0].origin[:3]] == ([10.0, 20.0, 30.0] if c.part == "Q" else [0.0, 0.0, 0.0]) for c in cs if c.seen))
    vc.check("nothing changed", before == (list(a.parts), {k: v.tolist() for k, v in a.transforms.items()}, list(a.mates)) and len(a.constraints) == len(cs) and all(x is y for x, y in zip(a.constraints, cs)))

@contract("C10.validate_loop", [AA + "validate"])
def validate_loop(vc):
    """any number of constraints: a step evaluates its constraint once and adds exactly its own failure or warning, the loop runs over all constraints, and after it the verdict is valid exactly when the failures are empty"""
    m = vc.mod(AS); a = m.Assembly("x"); a.add_part(part(vc, "P", "d")); vc.cutused = True; cut = vc.cut(AA + "validate"); a.constraints = [1, 2, 3]; k, v, env = cut.pre(a); vc.check("starts empty", k == "next" and not env["failed_constraints"] and not env["warnings"] and not env["constraint_results"]); vc.check("over all", list(cut.over(env)) == [1, 2, 3])
    F = vc.choice("failed before", [[], ["c0"], ["c0", "z"]]); R = {n: vc.mod(CO).ConstraintResult(passed=False) for n in F}; s = vc.choice("severity", SEV + ["other"]); ok = vc.choice("passes", [True, False]); n = vc.choice("name", ["c0", "new"]); r = vc.mod(CO).ConstraintResult(passed=ok, error_message="why"); c = Con(n, s, r); W = ["z: old"]
    env["failed_constraints"] = list(F); env["warnings"] = list(W); env["constraint_results"] = dict(R); k, v = cut.body(env, c); vc.check("goes on", k == "next"); vc.check("evaluated once", len(c.seen) == 1)
    vc.check("failures", env["failed_constraints"] == F + ([n] if s == "error" and not ok else [])); vc.check("warnings", len(env["warnings"]) == 1 + (s == "warning" and not ok) and env["warnings"][0] == W[0]); vc.check("results", set(env["constraint_results"]) == set(R) | {n} and (env["constraint_results"][n] is r or (n in R and ok and env["constraint_results"][n] is R[n])))
    G = vc.choice("failed at the end", [[], ["c0"], ["c0", "c1"]]); env["failed_constraints"] = list(G); k, rep = cut.post(env); vc.check("verdict", k == "return" and rep.is_valid is (not G) and rep.failed_constraints == G and rep.warnings == env["warnings"] and rep.constraint_results == env["constraint_results"])

@contract("C10.raise", [AA + "validate_and_raise"], max_paths=4000)
def raising(vc):
    """the raising form raises AssemblyError, naming every failing error, exactly when the verdict is invalid"""
    m = vc.mod(AS); a = m.Assembly("x"); a.add_part(part(vc, "P", "d")); spec = outcomes(vc, 2)
    for n, s, ok, r in spec: a.add_constraint(Con(n, s, r))
    e, _ = vc.raises(a.validate_and_raise); bad = [q for q in spec if q[1] == "error" and not q[2]]; vc.check("raises exactly when invalid", isinstance(e, m.AssemblyError) if bad else e is None); vc.check("names every failure", e is None or all(q[0] in str(e) for q in bad))
    t = a.report(); vc.check("report verdict", ("STATUS: INVALID" in t) == bool(bad) and ("STATUS: VALID" in t) == (not bad)); vc.check("report names", all(re.search(r"FAILED.*%s\b" % q[0], t) for q in bad))

@contract("C10.report_text", [AS + ":AssemblyValidationResult.report", AS + ":AssemblyValidationResult.__str__", KI + ":ValidationReport.detailed_report"], max_paths=4000)
def report_text(vc):
    """the printed report shows as passed exactly what passed and lists every failure"""
    which = vc.choice("report", ["assembly", "kinematic"])
    if which == "assembly":
        m = vc.mod(AS); a = m.Assembly("x"); a.add_part(part(vc, "P", "d")); spec = outcomes(vc, 2)
        for n, s, ok, r in spec: a.add_constraint(Con(n, s, r))
        rep = a.validate(); t = rep.report(); vc.check("short form", ("invalid" in str(rep)) == (not rep.is_valid))
    else:
        v = vc.mod(KI).AssemblyValidator(); spec = outcomes(vc, 2, True)
        for n, s, ok, r in spec: v.add_constraint(Con(n, s, r))
        rep = v.validate({}); t = rep.detailed_report(); vc.check("short form", ("INVALID" in str(rep)) == (not rep.is_valid))
    names = {q[0] for q in spec}; good = {n for n in names if all(q[2] for q in spec if q[0] == n)}; shown = set(re.findall(r"\[OK\] (\S+)", t)); vc.check("passed shown", shown == good)
    head, _, tail = t.partition("FAILED CONSTRAINTS:"); vc.check("failed shown", all(re.search(r"\[%s\]" % q[0], tail) for q in spec if q[1] == "error" and not q[2])); vc.check("warnings shown", all("%s: %s" % (q[0], q[3].error_message) in t for q in spec if q[1] == "warning" and not q[2]))
    vc.check("status", ("INVALID" in head) == any(q[1] == "error" and not q[2] for q in spec))

@contract("C10.kinematic", [KV + "validate", KV + "validate_and_raise", KV + "add_constraint", KV + "add_constraints", KV + "clear_constraints", KI + ":validate_assembly"], max_paths=4000)
def kinematic(vc):
    """the validator of kinematic constraints: verdict, counts and lists follow from the outcomes, and the raising form raises ValueError exactly when invalid"""
    m = vc.mod(KI); spec = outcomes(vc, 3, True); cs = [Con(n, s, r) for n, s, ok, r in spec]; how = vc.choice("through", ["one by one", "list", "function"]); W = {"A": 1}; v = m.AssemblyValidator("v")
    if how == "function": rep = m.validate_assembly(cs, W)
    else:
        if how == "list": v.add_constraints(cs)
        else:
            for c in cs: v.add_constraint(c)
        rep = v.validate(W)
    judged(vc, rep, spec, lambda r: r.satisfied); vc.check("each evaluated once", all(len(c.seen) == 1 and c.seen[0] is W for c in cs)); n = lambda s: len([q for q in spec if not q[2] and q[1] == s])
    vc.check("counts", (rep.total_constraints, rep.passed_count, rep.failed_count, rep.warning_count) == (len(spec), len([q for q in spec if q[2]]), n("error"), n("warning"))); vc.check("notices", len(rep.info) == n("info"))
    if how == "list":
        e, _ = vc.raises(v.validate_and_raise, W); vc.check("raises exactly when invalid", (type(e) is ValueError and all(q[0] in str(e) for q in spec if not q[2] and q[1] == "error")) if n("error") else e is None)
        v.clear_constraints(); rep = v.validate(W); vc.check("cleared", rep.is_valid and rep.total_constraints == 0 and not rep.constraint_results)

@contract("C10.kinematic_loop", [KV + "validate"])
def kinematic_loop(vc):
    """any number of kinematic constraints: a step changes exactly its own counter and list"""
    m = vc.mod(KI); vc.cutused = True; cut = vc.cut(KV + "validate"); v = m.AssemblyValidator("v"); v.constraints = [1, 2]; k, _, env = cut.pre(v, {}); vc.check("over all", k == "next" and list(cut.over(env)) == [1, 2] and (env["passed_count"], env["failed_count"], env["warning_count"]) == (0, 0, 0))
    P, F, W = vc.int("p", 0, 1000), vc.int("f", 0, 1000), vc.int("w", 0, 1000); s = vc.choice("severity", SEV); ok = vc.choice("passes", [True, False]); env.update(passed_count=P, failed_count=F, warning_count=W); r = m.ConstraintEvaluationResult(satisfied=ok, error_message="why"); c = Con("n", s, r); k, _ = cut.body(env, c)
    vc.check("goes on", k == "next" and len(c.seen) == 1); vc.check("counts", vc.and_(vc.eq(env["passed_count"], P + int(ok)), vc.eq(env["failed_count"], F + int(not ok and s == "error")), vc.eq(env["warning_count"], W + int(not ok and s == "warning"))))
    vc.check("lists", env["failed"] == (["n"] if s == "error" and not ok else []) and len(env["warnings"]) == int(s == "warning" and not ok) and len(env["info"]) == int(s == "info" and not ok) and env["results"] == {"n": r}); k, rep = cut.post(env)
    vc.check("verdict", vc.and_(k == "return", vc.iff(bool(rep.is_valid), vc.eq(env["failed_count"], 0)), vc.eq(rep.failed_count, env["failed_count"]), rep.total_constraints == 2))

# ---------------------------------------------------------------- what is let in
def some_assembly(vc):
    """an assembly with two parts (and the datums d, e), a mate, a constraint, a load case and a bolt pattern"""
    m = vc.mod(AS); a = m.Assembly("x"); pd = vc.mod(DA); a.add_part(part(vc, "P", "d", "e")); a.add_part(part(vc, "Q", "d")); return m, a
def picture(a): return (dict(a.parts), {k: v.tolist() for k, v in a.transforms.items()}, list(a.mates), list(a.constraints), dict(a.load_cases), dict(a.bolt_patterns))
def unchanged(vc, a, p, what):
    q = picture(a); vc.check("unchanged by a rejected " + what, q[1] == p[1] and all(list(x) == list(y) for x, y in zip(q, p)) and all(q[i][k] is p[i][k] for i in (0, 4, 5) for k in p[i]))
@contract("C10.add_part", [AA + "add_part", AA + "__init__"])
def add_part(vc):
    """a part is added under its own or the given name with its own copy of the pose; a name already taken is rejected"""
    m, a = some_assembly(vc); own = vc.choice("own name", ["P", "N"]); given = vc.choice("given", [None, "P", "Q", "N", "M"]); T = np.eye(4); T[0, 3] = 7.0; tr = vc.choice("pose", [None, 1]) and T; p = part(vc, own); before = picture(a); name = own if given is None else given; e, _ = vc.raises(lambda: a.add_part(p, name=given, transform=tr))
    if name in ("P", "Q"): vc.check("taken", isinstance(e, m.AssemblyError)); unchanged(vc, a, before, "part")
    else:
        vc.check("added", e is None and a.parts.get(name) is p and list(a.parts) == ["P", "Q", name]); T[0, 3] = 8.0; vc.check("own pose", a.transforms[name].tolist() == (np.eye(4).tolist() if tr is None else [[1, 0, 0, 7], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])); q = picture(a); vc.check("others kept", all(q[0][k] is before[0][k] and q[1][k] == before[1][k] for k in ("P", "Q")))
@contract("C10.add_mate", [AA + "add_mate"])
def add_mate(vc):
    """a mate is added exactly when both parts and datums exist and it suits the datums; otherwise it is rejected and nothing changes"""
    m, a = some_assembly(vc); p1, p2 = vc.choice("part 1", ["P", "Q", "Z"]), vc.choice("part 2", ["P", "Q", "Z"]); d1, d2 = vc.choice("datum 1", ["d", "e", "z"]), vc.choice("datum 2", ["d", "e", "z"]); issue = vc.choice("suits", [0, 1]); before = picture(a); has = lambda p, d: (p, d) in (("P", "d"), ("P", "e"), ("Q", "d")); asked = []
    mt = vc.mod(MT); mate = mt.Mate("m", mt.MateType.CONCENTRIC if issue else mt.MateType.COINCIDENT, p1, d1, p2, d2); e, _ = vc.raises(a.add_mate, mate); ok = has(p1, d1) and has(p2, d2) and not issue
    if ok: q = picture(a); vc.check("added", e is None and len(q[2]) == 1 and q[2][0] is mate and q[:2] == before[:2])
    else: vc.check("rejected", isinstance(e, m.AssemblyError)); unchanged(vc, a, before, "mate")
@contract("C10.add_constraint", [AA + "add_constraint"])
def add_constraint(vc):
    """a constraint is added exactly when its part and datum exist"""
    m, a = some_assembly(vc); p, d = vc.choice("part", ["P", "Q", "Z"]), vc.choice("datum", ["d", "e", "z"]); before = picture(a); c = vc.mod(CO).Constraint("c", vc.mod(CO).ConstraintType.FACING, p, d); e, _ = vc.raises(a.add_constraint, c)
    if (p, d) in (("P", "d"), ("P", "e"), ("Q", "d")): q = picture(a); vc.check("added", e is None and len(q[3]) == 1 and q[3][0] is c and q[:3] == before[:3])
    else: vc.check("rejected", isinstance(e, m.AssemblyError)); unchanged(vc, a, before, "constraint")
@contract("C10.add_others", [AA + "add_load_case", AA + "get_load_case", AA + "add_bolt_pattern", AA + "get_bolt_pattern"])
def add_others(vc):
    """load cases and bolt patterns are added once each, on parts that exist, and found again under the same key only"""
    m, a = some_assembly(vc); what = vc.choice("what", ["load", "bolts"])
    if what == "load":
        L = lambda i, p: types.SimpleNamespace(id=i, attach=types.SimpleNamespace(part=p)); old = L("l1", "P"); a.add_load_case(old); i, p = vc.choice("id", ["l1", "l2"]), vc.choice("part", ["P", "Q", "Z", "_assembly"]); before = picture(a); n = L(i, p); e, _ = vc.raises(a.add_load_case, n)
        if i == "l2" and p != "Z": vc.check("added", e is None and a.get_load_case("l2") is n)
        else: vc.check("rejected", isinstance(e, m.AssemblyError)); unchanged(vc, a, before, "load case")
        vc.check("found", a.get_load_case("l1") is old and a.get_load_case("l9") is None)
    else:
        old, n = object(), object(); a.add_bolt_pattern("P", "Q", old); x, y = vc.choice("parent", ["P", "Q", "Z"]), vc.choice("child", ["P", "Q", "Z"]); before = picture(a); e, _ = vc.raises(a.add_bolt_pattern, x, y, n)
        if "Z" in (x, y) or (x, y) == ("P", "Q"): vc.check("rejected", isinstance(e, m.AssemblyError)); unchanged(vc, a, before, "bolt pattern")
        else: vc.check("added", e is None and a.get_bolt_pattern(x, y) is n)
        vc.check("found", a.get_bolt_pattern("P", "Q") is old and all(a.get_bolt_pattern(u, w) is None for u, w in itertools.product("PQ", "PQ") if (u, w) not in (("P", "Q"), (x, y))))
@contract("C10.add_datum", [DA + ":PartDefinition.add_datum", DA + ":PartDefinition.get_datum"])
def add_datum(vc):
    """a datum is added once per name; names are looked up exactly"""
    m = vc.mod(DA); p = part(vc, "P", "d", "e"); old = dict(p.datums); n = vc.choice("name", ["d", "e", "n"]); d = m.Datum(n, m.DatumType.POINT); e, r = vc.raises(p.add_datum, d)
    if n == "n": vc.check("added", e is None and r is p and p.get_datum("n") is d)
    else: vc.check("rejected", isinstance(e, ValueError) and list(p.datums) == ["d", "e"])
    vc.check("kept", all(p.get_datum(k) is old[k] for k in old)); vc.check("unknown", isinstance(vc.raises(p.get_datum, "zz")[0], KeyError))
@contract("C10.transformed", [AA + "get_transformed_datum"])
def transformed(vc):
    """asking for a datum of an unknown part or an unknown datum is an error; otherwise it is that datum where its part is placed (any rigid pose)"""
    m = vc.mod(AS); pd = vc.mod(DA); a = m.Assembly("x"); M = vc.rigid("M", as_array=False); o = vc.vec3("o"); p = pd.PartDefinition("P"); p.add_datum(pd.Datum("d", pd.DatumType.POINT, origin=o + [1.0])); a.add_part(p, transform=vc.array(M)); a.add_part(part(vc, "P", "d"), name="Q"); d = a.get_transformed_datum("P", "d"); vc.check("placed", vc.and_(d.name == "d", vc.veq(d.origin[:3], vc.apply(M, o))))
    vc.check("the part's own datum is kept", vc.veq(p.get_datum("d").origin[:3], o)); vc.check("other part", vc.veq(a.get_transformed_datum("Q", "d").origin[:3], [0.0, 0.0, 0.0]))
    for x in (("Z", "d"), ("P", "z")): vc.check("unknown", isinstance(vc.raises(a.get_transformed_datum, *x)[0], m.AssemblyError))
@contract("C10.import_poses", [AA + "import_transforms_from_kinematic_chain"], samples=150)
def import_poses(vc):
    """poses read from a chain file (flat or nested) replace those of the parts named; a file that cannot be read or holds a bad pose is rejected and moves nothing"""
    m, a = some_assembly(vc); before = {k: v.tolist() for k, v in a.transforms.items()}; kind = vc.choice("file", ["flat", "nested", "other part", "no parts", "no transform", "short", "ragged", "not a list", "not json", "absent"]); n = iter(range(1000)); P = [[float(next(n)) for _ in range(4)] for _ in range(4)]; Q = [[float(next(n)) for _ in range(4)] for _ in range(4)]
    flat = lambda t: [x for r in t for x in r]; doc = {"parts": {"P": {"transform": P}, "Q": {"transform": Q}, "other": {}}}; q = doc["parts"]["Q"]
    if kind == "flat": q["transform"] = flat(Q)
    if kind == "other part": del doc["parts"]["Q"]
    if kind == "no parts": doc = {"part": doc["parts"]}
    if kind == "no transform": doc["parts"]["Q"] = {"T": Q}
    if kind == "short": q["transform"] = flat(Q)[:15]
    if kind == "ragged": q["transform"] = Q[:3] + [Q[3][:3]]
    if kind == "not a list": q["transform"] = "I"
    d = tempfile.mkdtemp(); f = os.path.join(d, "t.json")
    if kind != "absent": open(f, "w").write("{" if kind == "not json" else json.dumps(doc))
    e, _ = vc.raises(a.import_transforms_from_kinematic_chain, f)
    if os.path.exists(f): os.remove(f)
    os.rmdir(d); got = {k: np.array(v).tolist() for k, v in a.transforms.items()}
    if kind in ("flat", "nested"): vc.check("read", e is None and got == {"P": P, "Q": Q})
    elif kind == "other part": vc.check("read", e is None and got == {"P": P, "Q": before["Q"]})
    else: vc.check("rejected", isinstance(e, m.AssemblyError)); vc.check("nothing moved", got == before)
