"""Mutation probe: changes one expression of a function under contract in a scratch clone and reports the changes the check does not see.
usage: mutate.py PROP [N] [SEED] [JOBS] [only-substring-of-target]   (prints survivors; not part of any check)"""
import ast, copy, importlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
RP = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}
def muts(fn):
    """(description, function that applies the change in place) for every change of fn"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in CMP.get(type(o), []): out.append((n, "cmp%d %s" % (i, r.__name__), lambda n=n, i=i, r=r: n.ops.__setitem__(i, r())))
        elif isinstance(n, ast.BinOp):
            for r in BIN.get(type(n.op), []): out.append((n, "op %s" % r.__name__, lambda n=n, r=r: setattr(n, "op", r())))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "and/or", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for i in range(len(n.values)): out.append((n, "drop operand %d" % i, lambda n=n, i=i: n.values.pop(i) if len(n.values) > 1 else None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): out.append((n, "drop minus", lambda n=n: setattr(n, "op", ast.UAdd())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): out.append((n, "drop not", lambda n=n: (setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float): out.append((n, "const %r" % n.value, lambda n=n: setattr(n, "value", n.value + 1 if n.value in (0, 1, 2, 3) else n.value * 1.01 if isinstance(n.value, float) else n.value + 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool: out.append((n, "bool %r" % n.value, lambda n=n: setattr(n, "value", not n.value)))
        elif isinstance(n, ast.If): out.append((n, "never", lambda n=n: setattr(n, "test", ast.Constant(False)))); out.append((n, "always", lambda n=n: setattr(n, "test", ast.Constant(True))))
        elif isinstance(n, ast.IfExp): out.append((n, "first", lambda n=n: setattr(n, "test", ast.Constant(True)))); out.append((n, "second", lambda n=n: setattr(n, "test", ast.Constant(False))))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"): out.append((n, "min/max", lambda n=n: setattr(n.func, "id", "max" if n.func.id == "min" else "min")))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("abs", "deepcopy", "sorted", "list", "float", "dict", "set", "bool") and len(n.args) == 1: out.append((n, "unwrap " + n.func.id, ("wrap", n)))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)): out.append((s, "drop statement", lambda b=b, i=i: b.__setitem__(i, ast.Pass())))
                    if isinstance(s, ast.Return) and s is not fn.body[-1]: out.append((s, "drop return", lambda b=b, i=i: b.__setitem__(i, ast.Pass())))
    return out
class Unwrap(ast.NodeTransformer):
    def __init__(s, t): s.t = t
    def visit_Call(s, n):
        s.generic_visit(n); return n.args[0] if n is s.t else n
def find(tree, q):
    cur = tree
    for p in q.split("."): cur = [n for n in cur.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p][-1]
    return cur
def main():
    prop = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 40; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0; jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 4; only = sys.argv[5] if len(sys.argv) > 5 else ""
    src = open(V + "/contracts/%s.py" % prop).read(); code = "import sys; sys.path.insert(0,%r); sys.path.insert(0,'/repo/src')\nimport warnings; warnings.simplefilter('ignore')\nimport contracts.%s\nfrom pyvc.vc import CONTRACTS\nimport json; print('@@'+json.dumps([[c.name,c.targets] for c in CONTRACTS]))" % (V, prop)
    cs = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", code], capture_output=True, text=True, cwd=V).stdout.split("@@")[1])
    by = {}
    for n, ts in cs:
        for t in ts:
            if only in t: by.setdefault(t, []).append(n)
    todo = []
    for t, names in sorted(by.items()):
        m, q = t.split(":"); f = "src/" + m.replace(".", "/") + ".py"
        if not os.path.exists(RP + "/" + f): f = "src/" + m.replace(".", "/") + "/__init__.py"
        try: tree = ast.parse(open(RP + "/" + f).read()); fn = find(tree, q)
        except Exception as e: print("skip", t, e); continue
        if not isinstance(fn, ast.FunctionDef): continue
        for k in range(len(muts(fn))): todo.append((t, names, f, q, k))
    random.Random(seed).shuffle(todo); print(prop, len(by), "targets", len(todo), "changes", flush=True); todo = todo[:N]
    dirs = []
    for i in range(jobs):
        d = tempfile.mkdtemp(prefix="mut%s_" % prop); subprocess.run(["git", "clone", "-q", RP, d + "/r"]); shutil.copytree(V + "/pyvc", d + "/v/pyvc"); shutil.copytree(V + "/contracts", d + "/v/contracts"); [shutil.copy(V + "/" + f, d + "/v/") for f in ("check", "properties.jsonl", "known_findings.json") if os.path.exists(V + "/" + f)]; dirs.append(d)
    free = list(dirs); kill = surv = 0
    def one(job):
        t, names, f, q, k = job; d = free.pop()
        try:
            s = open(RP + "/" + f).read(); tree = ast.parse(s); fn = find(tree, q); node, desc, ap = muts(fn)[k]; line = node.lineno; old = ast.unparse(node)[:110]
            if isinstance(ap, tuple): tree = Unwrap(node).visit(tree)
            else: ap()
            ast.fix_missing_locations(tree); new = ast.unparse(tree)
            open(d + "/r/" + f, "w").write(new); rc = None; out = ""
            for which in (",".join(names), ""):
                env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_SEED="1"); env.pop("PYVC_ONLY", None)
                if which: env["PYVC_ONLY"] = which
                try: r = subprocess.run(["./check", prop, "quick"], cwd=d + "/v", env=env, capture_output=True, text=True, timeout=600); rc = r.returncode; out = r.stdout
                except subprocess.TimeoutExpired: rc = "timeout"
                if rc == 1: break
            open(d + "/r/" + f, "w").write(s); return (rc, "%s:%d %s [%s] %s%s" % (f, line, q, desc, old.replace("\n", " "), " (NFI)" if "VIOLATION" in out and all("no-failing-input-found" in l for l in out.splitlines() if l.startswith("VIOLATION")) else ""))
        except Exception as e: return ("err", repr(e)[:200] + " " + t)
        finally: free.append(d)
    with ThreadPoolExecutor(jobs) as ex:
        for rc, m in ex.map(one, todo):
            if rc == 1: kill += 1; print("killed  ", m, flush=True) if "(NFI)" in m else None
            else: surv += 1; print("SURVIVES", rc, m, flush=True)
    print(prop, "killed", kill, "survived", surv); [shutil.rmtree(d) for d in dirs]
main()
