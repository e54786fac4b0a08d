"""Discharging: polynomial normal form, then z3, then cvc5.  unsat is the only 'proved'."""
import sys, time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from fractions import Fraction
from . import term as T, poly

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "nf_proved": 0}

DEFS = {}      # var node -> list of defining constraints (terms)
_zsort = {}
def zsort(s):
    if s == "R": return z3.RealSort()
    if s == "I": return z3.IntSort()
    if s == "B": return z3.BoolSort()
    if s not in _zsort: _zsort[s] = z3.DeclareSort(s)
    return _zsort[s]

def z(n):
    if n.z is not None: return n.z
    st = [n]
    while st:
        x = st[-1]
        if x.z is not None: st.pop(); continue
        todo = [a for a in x.args if isinstance(a, T.N) and a.z is None]
        if todo: st.extend(todo); continue
        a = [y.z if isinstance(y, T.N) else y for y in x.args]
        o = x.op
        if o == "c":
            v = a[0]
            if x.sort == "B": r = z3.BoolVal(v)
            elif x.sort == "I": r = z3.IntVal(int(v))
            elif x.sort == "R": r = z3.Q(v.numerator, v.denominator)
            else: r = z3.Const("const!%s!%s" % (x.sort, v), zsort(x.sort))
        elif o == "v": r = z3.Const(a[0], zsort(x.sort))
        elif o == "add":
            r = a[0]
            for y in a[1:]: r = r + y
        elif o == "mul":
            r = a[0]
            for y in a[1:]: r = r * y
        elif o == "div": r = a[0] / a[1]
        elif o == "idiv": r = z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))   # floor
        elif o == "imod": r = z3.If(a[1] > 0, a[0] % a[1], -((-a[0]) % (-a[1])))
        elif o == "toR": r = z3.ToReal(a[0])
        elif o == "abs": r = z3.If(a[0] >= 0, a[0], -a[0])
        elif o == "ite": r = z3.If(*a)
        elif o == "le": r = a[0] <= a[1]
        elif o == "lt": r = a[0] < a[1]
        elif o == "eq": r = a[0] == a[1]
        elif o == "not": r = z3.Not(a[0])
        elif o == "and": r = z3.And(*a)
        elif o == "or": r = z3.Or(*a)
        elif o == "uf":
            f = z3.Function(a[0], *([zsort(y.sort) for y in x.args[1:]] + [zsort(x.sort)]))
            r = f(*a[1:])
        else: raise NotImplementedError(o)
        x.z = r; st.pop()
    return n.z

def with_defs(cs):
    """constraints plus the definitions of every auxiliary variable they mention"""
    seen = set(); out = list(cs); work = list(cs)
    while work:
        c = work.pop()
        for v in T.free_vars(c):
            if v in seen: continue
            seen.add(v)
            for d in DEFS.get(v, ()):
                if d not in out: out.append(d); work.append(d)
    consts = {}
    for c in out:
        _collect_consts(c, consts)
    return out, consts

def _collect_consts(n, acc, seen=None):
    # opaque constants must be pairwise distinct
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "c" and x.sort.startswith("U"): acc.setdefault(x.sort, set()).add(x)
        st.extend(a for a in x.args if isinstance(a, T.N))

_nonlin = {}
def nonlinear(n):
    r = _nonlin.get(n)
    if r is None:
        r = False
        if n.op == "mul" and sum(1 for a in n.args if not T.isc(a)) > 1: r = True
        elif n.op == "div" and not T.isc(n.args[1]): r = True
        else: r = any(nonlinear(a) for a in n.args if isinstance(a, T.N))
        _nonlin[n] = r
    return r

def has_int(cs):
    st = list(cs); seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.sort == "I" or x.sort.startswith("U") or x.op == "uf": return True
        st.extend(a for a in x.args if isinstance(a, T.N))
    return False

class Result:
    def __init__(self, status, model=None, backend=None):
        self.status = status; self.model = model; self.backend = backend

def _mval(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(24); return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return str(v)

def solve_plain(cs, timeout_ms):
    t0 = time.time()
    try:
        s = z3.Solver(); s.set("timeout", int(timeout_ms)); s.add(*[z(c) for c in cs])
        r = s.check(); STATS["z3_calls"] += 1
        if r == z3.unsat: return Result("unsat", backend="z3-relaxed")
    except z3.Z3Exception: pass
    finally: STATS["z3_time"] += time.time() - t0
    return None

def solve(cs, timeout_ms=2000, want_model=True, use_cvc5=False, relax=True, defs=True):
    """satisfiability of the conjunction of cs (terms)."""
    if any(c is T.FALSE for c in cs): return Result("unsat", backend="const")
    full, consts = with_defs(cs)
    if not defs: full = list(cs)
    full = [c for c in full if c is not T.TRUE]
    nl = any(nonlinear(c) for c in full)
    if nl and relax and len(full) > len(cs):
        # sound weakening first: forget the defining equations of auxiliary roots (keep their signs)
        weak = [c for c in full if c in cs or not nonlinear(c)]
        if len(weak) < len(full):
            r = solve_plain(weak, min(600, timeout_ms))
            if r: return r
    zs = [z(c) for c in full]
    for s, cc in consts.items():
        if len(cc) > 1: zs.append(z3.Distinct(*[z(c) for c in cc]))
    tried = []
    plans = []
    if not nl: plans = [("z3", None, timeout_ms)]
    else:
        mixed = has_int(full)
        plans = [("z3", None, max(300, timeout_ms // 3))]
        if not mixed: plans.append(("nlsat", None, timeout_ms))
        elif timeout_ms > 1000: plans.append(("z3b", None, timeout_ms))
        if timeout_ms >= 4000: plans.append(("z3s", None, timeout_ms))
    for kind, _, to in plans:
        t0 = time.time()
        try:
            if kind == "nlsat":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            else:
                s = z3.Solver()
                if kind == "z3b": s.set("smt.arith.solver", 2)
                if kind == "z3s": s.set("smt.random_seed", 11)
            s.set("timeout", int(to))
            s.add(*zs)
            r = s.check()
            STATS["z3_calls"] += 1
            if r == z3.unsat: return Result("unsat", backend="z3-" + kind)
            if r == z3.sat:
                m = None
                if want_model:
                    zm = s.model(); m = {}
                    allv = set()
                    for c in full: allv |= T.free_vars(c)
                    for v in allv:
                        try: m[v.args[0]] = _mval(zm.eval(v.z, model_completion=True))
                        except Exception: pass
                return Result("sat", m, "z3-" + kind)
        except z3.Z3Exception as e:
            pass
        finally:
            STATS["z3_time"] += time.time() - t0
    if use_cvc5:
        t0 = time.time()
        r = cvc5_check(zs, timeout_ms)
        STATS["cvc5_calls"] += 1; STATS["cvc5_time"] += time.time() - t0
        if r == "unsat": return Result("unsat", backend="cvc5")
    return Result("unknown")

def cvc5_check(zs, timeout_ms):
    import subprocess
    s = z3.Solver(); s.add(*zs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "-"], input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except Exception:
        return "unknown"
