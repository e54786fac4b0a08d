"""Harness API shared by proof mode (symbolic) and concrete mode (replay / cross-check)."""
import importlib, itertools, math, random, time, traceback, copy
from fractions import Fraction
import numpy as np
from . import term as T, poly, solver, sym, shim
from .sym import (SymBase, wrap, node, OutOfSubset, Infeasible, EndPath, Budget)

class TargetMissing(BaseException): pass
class Reject(BaseException): pass
class Failed(BaseException):
    def __init__(self, name, detail): self.name = name; self.detail = detail

CONTRACTS = []

class Contract:
    def __init__(self, fn, name, prop, targets, **opt):
        self.fn = fn; self.name = name; self.prop = prop; self.targets = targets; self.opt = opt
        self.doc = (fn.__doc__ or "").strip()

def contract(name, targets, **opt):
    """register a contract: `name` is '<PROP>.<what>', targets the functions of /repo it constrains"""
    def deco(fn):
        CONTRACTS.append(Contract(fn, name, name.split(".")[0], targets if isinstance(targets, (list, tuple)) else [targets], **opt))
        return fn
    return deco

# ------------------------------------------------------------------ common helpers
class Base:
    symbolic = False
    def mod(self, name):
        try: return importlib.import_module(name)
        except ImportError as e: raise TargetMissing(str(e))
    def fn(self, spec):
        m, q = spec.split(":")
        o = self.mod(m)
        for p in q.split("."):
            if not hasattr(o, p): raise TargetMissing(spec)
            o = getattr(o, p)
        return o
    cutused = False
    def cut(self, spec, n=0, replace=None):
        """the pieces of the function around its n-th loop, extracted from its current source"""
        from .cut import Cut
        self.cutused = True
        f = spec if callable(spec) else self.fn(spec)
        return Cut(f, n, replace, TargetMissing)
    def comp(self, spec, n=0):
        """the n-th comprehension of the function, extracted from its current source"""
        from .cut import Comp
        self.cutused = True
        return Comp(spec if callable(spec) else self.fn(spec), n, TargetMissing)
    def hook(self, obj, name, fn):
        """replace an attribute of one object (a callee summarised by its contract); it must exist"""
        if not hasattr(obj, name): raise TargetMissing("%s has no %s" % (type(obj).__name__, name))
        setattr(obj, name, fn)
    def inner(self, spec, name, env):
        """a nested function of the function, extracted from its current source"""
        from .cut import inner
        self.cutused = True
        return inner(self.fn(spec), name, env, TargetMissing)
    # vector helpers (work on any sequence of numbers)
    def vadd(self, a, b): return [x + y for x, y in zip(a, b)]
    def vsub(self, a, b): return [x - y for x, y in zip(a, b)]
    def vscale(self, a, k): return [x * k for x in a]
    def vdot(self, a, b):
        r = a[0] * b[0]
        for x, y in list(zip(a, b))[1:]: r = r + x * y
        return r
    def vcross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    def norm2(self, a): return self.vdot(a, a)
    def norm(self, a): return self.sqrt(self.norm2(a))
    def veq(self, a, b, **k):
        if len(a) != len(b): return False
        return self.and_(*[self.eq(x, y, **k) for x, y in zip(a, b)])
    def matmul(self, A, B):
        return [[self._sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]
    def matvec(self, A, v):
        return [self._sum(A[i][k] * v[k] for k in range(len(v))) for i in range(len(A))]
    def _sum(self, it):
        it = list(it); r = it[0]
        for x in it[1:]: r = r + x
        return r
    def meq(self, A, B, **k):
        return self.and_(*[self.eq(A[i][j], B[i][j], **k) for i in range(len(A)) for j in range(len(A[0]))])
    def transpose(self, A): return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]
    def ident(self, n): return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    def vec3(self, name, lo=-10.0, hi=10.0): return [self.real("%s.%s" % (name, c), lo, hi) for c in "xyz"]
    def vec2(self, name, lo=-10.0, hi=10.0): return [self.real("%s.%s" % (name, c), lo, hi) for c in "xy"]
    def point(self, name, lo=-10.0, hi=10.0): return self.vec3(name, lo, hi) + [1.0]
    def pointxy(self, name, lo=-10.0, hi=10.0): return self.vec2(name, lo, hi) + [0.0, 1.0]
    def quat_matrix(self, q):
        w, x, y, z = q
        return [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
                [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
                [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]
    def rotation(self, name):
        """an arbitrary 3x3 rotation matrix (every rotation is that of a unit quaternion)"""
        return self.quat_matrix(self.unit(name, 4))
    def rigid(self, name, as_array=True, lo=-10.0, hi=10.0):
        R = self.rotation(name + ".q"); t = self.vec3(name + ".t", lo, hi)
        M = [R[i] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
        if not as_array: return M
        return self.array(M)
    def array(self, M):
        return np.array(M, dtype=object) if self.symbolic else np.array(M, dtype=float)
    def unit3(self, name): return self.unit(name, 3)
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def ge(self, a, b, **k): return self.le(b, a, **k)
    def gt(self, a, b, **k): return self.lt(b, a, **k)
    def ne(self, a, b, **k): return self.not_(self.eq(a, b, **k))
    def raises(self, fn, *a, **k):
        """(exception or None, result)"""
        try: return None, fn(*a, **k)
        except Exception as e: return e, None
    def inv_rigid(self, M):
        R = [[M[j][i] for j in range(3)] for i in range(3)]
        t = [M[i][3] for i in range(3)]
        ti = [-x for x in self.matvec(R, t)]
        return [R[i] + [ti[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    def apply(self, M, p):
        return [self._sum([M[i][0] * p[0], M[i][1] * p[1], M[i][2] * p[2], M[i][3]]) for i in range(3)]
    def applydir(self, M, p):
        return [self._sum([M[i][0] * p[0], M[i][1] * p[1], M[i][2] * p[2]]) for i in range(3)]
    def is_rigid(self, M):
        R = [[M[i][j] for j in range(3)] for i in range(3)]
        c = [self.meq(self.matmul(R, self.transpose(R)), self.ident(3))]
        c.append(self.veq(self.vcross(R[0], R[1]), R[2]))
        c.append(self.veq([M[3][j] for j in range(4)], [0.0, 0.0, 0.0, 1.0]))
        return self.and_(*c)
    def same(self, a, b):
        """structural equality of nested values (numbers compared with eq, sequences and dicts element-wise)"""
        if isinstance(a, np.ndarray): a = a.tolist()
        if isinstance(b, np.ndarray): b = b.tolist()
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): return False
            return self.and_(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if list(sorted(map(str, a))) != list(sorted(map(str, b))): return False
            return self.and_(*[self.same(a[k], b[k]) for k in a])
        if isinstance(a, bool) or isinstance(b, bool): return self.iff(a, b) if isinstance(a, bool) and isinstance(b, bool) else False
        if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)): return self.eq(a, b)
        if isinstance(a, SymBase) or isinstance(b, SymBase): return self.eq(a, b)
        if a is b: return True
        try: return bool(a == b)
        except Exception: return False
    def snapshot(self, x): return copy.deepcopy(x)
    def numeric(self, fn):
        """run fn on plain numbers, with the library's own mathematics (for examples a contract compares with)"""
        p = shim.Patched.cur
        if p is None: return fn()
        p.__exit__()
        try: return fn()
        finally: p.__enter__()

# ------------------------------------------------------------------ symbolic mode
class Obligation:
    __slots__ = ("name", "status", "backend", "model", "pure", "path", "detail", "ms")
    def __init__(self, name, status, backend=None, model=None, pure=True, path=None, detail="", ms=0):
        self.name = name; self.status = status; self.backend = backend; self.model = model; self.pure = pure
        self.path = path; self.detail = detail; self.ms = ms

class SVC(Base):
    symbolic = True
    def __init__(self, path, cfg):
        shim.LAZY = bool(cfg.get("lazymin")); self.path = path; self.cfg = cfg; self.obs = []; self.inputs = {}; self.stubs_undo = []
        self.checks = 0; self.spec_depth = 0
    # inputs
    def real(self, name, lo=None, hi=None, **k):
        v = T.var("in." + name, "R"); self.inputs[name] = ("real", v, lo, hi, k)
        if k.get("pos"): self.path.assume(T.lt(T.ZERO, v)); sym._nonneg.add(v)
        elif k.get("nonneg"): self.path.assume(T.le(T.ZERO, v)); sym._nonneg.add(v)
        if k.get("strict"):       # the range is part of the precondition
            if lo is not None: self.path.assume(T.le(node(float(lo)), v))
            if hi is not None: self.path.assume(T.le(v, node(float(hi))))
        return wrap(v)
    def int(self, name, lo=None, hi=None, strict=True, **k):
        v = T.var("in." + name, "I"); self.inputs[name] = ("int", v, lo, hi, k)
        if strict:
            if lo is not None: self.path.assume(T.le(T.const(lo), v))
            if hi is not None: self.path.assume(T.le(v, T.const(hi)))
        return wrap(v)
    def bool(self, name):
        v = T.var("in." + name, "B"); self.inputs[name] = ("bool", v, None, None, {})
        return wrap(v)
    def str(self, name, pool=None):
        v = T.var("in." + name, "Ustr"); self.inputs[name] = ("str", v, None, None, {"pool": pool})
        return wrap(v)
    def choice(self, name, options):
        options = list(options)
        i = self.path.choose(len(options))
        self.inputs[name] = ("choice", i, None, None, {})
        return options[i]
    def unit(self, name, k):
        vs = [T.var("in.%s.%d" % (name, i), "R") for i in range(k)]
        tail = {(): Fraction(1)}
        for v in vs[:-1]: tail[((v.id, 2),)] = Fraction(-1)
        poly.set_rule(vs[-1], tail); sym.bounded1.update(vs)
        d = [T.eq(T.add(*[T.mul(v, v) for v in vs]), T.ONE)]
        for v in vs: solver.DEFS[v] = d
        self.inputs[name] = ("unit", vs, None, None, {})
        return [wrap(v) for v in vs]
    def angle(self, name, unit="deg", lo=-360.0, hi=360.0):
        v = T.var("in." + name, "R"); self.inputs[name] = ("angle_" + unit, v, lo, hi, {})
        return wrap(v)
    # logic
    def eq(self, a, b, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): raise TypeError("eq of arrays")
        na, nb = node(a, False), node(b, False)
        if na is None or nb is None:
            r = (a == b); return r
        try: return wrap(T.eq(na, nb))
        except OutOfSubset: return False
    def le(self, a, b, **k): return wrap(T.le(node(a), node(b)))
    def lt(self, a, b, **k): return wrap(T.lt(node(a), node(b)))
    def and_(self, *xs): return wrap(T.and_(*[node(x) for x in xs]))
    def or_(self, *xs): return wrap(T.or_(*[node(x) for x in xs]))
    def not_(self, x): return wrap(T.not_(node(x)))
    def iff(self, a, b): return wrap(T.iff(node(a), node(b)))
    def ite(self, c, a, b): return wrap(T.ite(node(c), *T.unify(node(a), node(b))))
    def sqrt(self, x): return wrap(sym.sqrt_raw(T.toR(T.b2i(node(x)))))
    def abs(self, x): return abs(x)
    def sin(self, x): return shim.m_sin(x)
    def cos(self, x): return shim.m_cos(x)
    def cosh(self, x): return shim.m_cosh(x)
    def sinh(self, x): return shim.m_sinh(x)
    def sind(self, x): return shim.m_sin(shim.m_radians(x)) if isinstance(x, SymBase) else shim.m_sin(math.radians(x))
    def cosd(self, x): return shim.m_cos(shim.m_radians(x)) if isinstance(x, SymBase) else shim.m_cos(math.radians(x))
    def acos(self, x): return wrap(sym.acos_raw(T.toR(node(x))))
    def asin(self, x): return wrap(sym.asin_node(T.toR(node(x))))
    def atan2(self, y, x): return shim.m_atan2(y, x)
    def max(self, *xs): return sym.sym_max(*xs)
    def min(self, *xs): return sym.sym_min(*xs)
    def floor(self, x): return sym.sym_floor(x)
    @property
    def pi(self): return wrap(T.PI)
    def uf(self, name, *args, sort="R"):
        return wrap(T.uf(name, [node(a) for a in args], sort))
    def havoc(self, name, sort="R"):
        k = self.cfg.setdefault("_hv", {}); 
        v = T.var("hv.%s" % name, sort)
        return wrap(v)
    def quadrants(self, *items):
        """mathematical facts about sine and cosine: for angles (in degrees) known to lie in [90 i, 90 (i+1)] their
        signs, and their order within a common quadrant (assumed, listed in the trusted base)"""
        sc = []
        for a, i in items:
            s, c = node(self.sind(a)), node(self.cosd(a)); s = T.toR(s); c = T.toR(c); k = i % 4
            f = [T.le(T.ZERO, s) if k in (0, 1) else T.le(s, T.ZERO), T.le(T.ZERO, c) if k in (0, 3) else T.le(c, T.ZERO)]
            for x in f: self.path.assume(sym.simplify_cond(x))
            sc.append((T.toR(node(a)), i, s, c))
        for n, (a, i, s, c) in enumerate(sc):
            for b, j, s2, c2 in sc[:n]:
                if i != j: continue
                k = i % 4
                up_s = k in (0, 3); up_c = k in (2, 3)
                for x, y, up in ((s, s2, up_s), (c, c2, up_c)):
                    f = T.implies(T.le(a, b), T.le(x, y) if up else T.le(y, x)); g = T.implies(T.le(b, a), T.le(y, x) if up else T.le(x, y))
                    self.path.assume(sym.simplify_cond(f)); self.path.assume(sym.simplify_cond(g))
    def case(self, c):
        """fork the path on a condition of the specification"""
        n = node(c)
        return self.path.decide(n)
    # obligations
    def assume(self, c):
        n = node(c)
        n2 = sym.simplify_cond(n)
        if n2 is T.FALSE: raise Infeasible()
        self.path.assume(n2)
    def feasible_now(self):
        r = solver.solve(self.path.pc, 1500, want_model=False)
        if r.status == "unsat": raise Infeasible()
    def require(self, c): self.assume(c); 
    def check(self, name, c, **k):
        self.checks += 1
        t0 = time.time()
        st = self.discharge(node(c))
        o = Obligation(name, st.status, st.backend, st.model, getattr(st, "pure", True), list(self.path.taken), T.show(node(c))[:160], int(1000 * (time.time() - t0)))
        self.obs.append(o)
        return o.status == "unsat"
    def lemma(self, name, c):
        """prove c, then use it"""
        if self.check(name, c): self.path.assume(node(c))
    def discharge(self, g):
        g = sym.simplify_cond(g)
        if g is T.TRUE: return solver.Result("unsat", backend="nf")
        if g.op == "and":
            last = solver.Result("unsat", backend="nf")
            unk = None
            for c in g.args:
                r = self.discharge(c)
                if r.status == "sat": return r
                if r.status == "unknown": unk = r
                elif r.backend != "nf": last = r
            return unk or last
        if self.path.implied(g): return solver.Result("unsat", backend="nf")
        if g.op == "eq" and g.args[0].sort in ("R", "I"):
            if poly.is_zero(T.sub(*g.args)): return solver.Result("unsat", backend="nf")
            if split_zero(self.path, T.sub(*g.args)): return solver.Result("unsat", backend="nf-split")
        to = self.cfg.get("oblig_ms", 6000)
        ng = T.not_(g)
        rel = sym.relevant(self.path.pc, ng) if ng is not T.TRUE else list(self.path.pc)
        raw = alt = None
        for stage, lim in (("quick", min(1500, to)), ("full", to)):
            r = solver.solve(rel + [ng], lim, use_cvc5=False)
            if r.status != "unknown": break
            if raw is None:
                raw = solver.with_defs(rel + [ng])[0]; alt = [nf_term(c) for c in raw]
            if alt != raw:
                r = solver.solve(alt, lim, use_cvc5=False, defs=False, want_model=False)
                if r.status == "unsat": break
                r = solver.Result("unknown")       # denominators were multiplied out: a model of this form proves nothing
            if stage == "quick":
                if small_core(rel, ng): r = solver.Result("unsat", backend="z3-core"); break
                if split_unsat(alt, 0, time.time() + 2 * to / 1000): r = solver.Result("unsat", backend="z3-split"); break
            if to <= lim: break
        if r.status == "unknown" and self.cfg.get("cvc5"):
            r = solver.solve(rel + [ng], to, use_cvc5=True)
        if r.status == "sat":
            r.pure = pure_formula(self.path.pc + [ng])
            if len(rel) != len(self.path.pc):
                r2 = solver.solve(self.path.pc + [ng], to)
                if r2.status == "unsat": return r2
                if r2.status == "sat": r.model = r2.model
                else:
                    r3 = solver.solve([c for c in self.path.pc if c not in rel], to)
                    if r3.status == "unsat": return r3
                    if r3.status != "sat":       # the path itself may be infeasible
                        u = solver.Result("unknown"); u.model = r.model; u.pure = False; return u
                    m = dict(r3.model or {}); m.update(r.model or {}); r.model = m
        return r
    def model_inputs(self, model):
        return model_to_inputs(self.inputs, model or {})
    # modularity
    def stub(self, modname, attr, fn):
        """replace a callee by its contract for this path (restored afterwards)"""
        o = self.mod(modname)
        *pre, last = attr.split(".")
        for p in pre: o = getattr(o, p)
        if not hasattr(o, last): raise TargetMissing(modname + ":" + attr)
        self.stubs_undo.append((o, last, o.__dict__.get(last, getattr(o, last))))
        setattr(o, last, fn)
    def unstub(self):
        for o, k, v in reversed(self.stubs_undo): setattr(o, k, v)
        self.stubs_undo = []

def split_unsat(L, depth, deadline):
    """refute a set of constraints by cases on the conditions of the ite terms (and signs of abs terms) in them"""
    x = None
    for c in reversed(L):
        x = find_split(c)
        if x is not None: break
    if x is None:
        if depth == 0: return False
        if any(sym.simplify_cond(c) is T.FALSE for c in L): return True
        return solver.solve(L, 1200, want_model=False, defs=False).status == "unsat"
    if depth > 7 or time.time() > deadline: return False
    z = T.ZERO if x.args[0].sort == "R" else T.const(0)
    cases = [(x.args[0], x.args[1]), (T.not_(x.args[0]), x.args[2])] if x.op == "ite" else [(T.le(z, x.args[0]), x.args[0]), (T.lt(x.args[0], z), T.neg(x.args[0]))]
    for c, v in cases:
        try: M = [nf_term(subst(k, {x: v})) for k in L] + [nf_term(c)]
        except ZeroDivisionError: return False
        M = [sym.simplify_cond(k) for k in M]
        if any(k is T.FALSE for k in M): continue
        if not split_unsat([k for k in M if k is not T.TRUE], depth + 1, deadline): return False
    return True

def small_core(pc, ng, to=700, tries=12):
    """look for a contradiction within few constraints: one seed (the negated goal, then the latest path conditions),
    the constraints over the same variables and the definitions of those variables.  Dropping constraints is sound for unsat."""
    alls = [nf_term(c) for c in pc]

    if ng is not T.TRUE: seeds = [nf_term(ng)]; alls = alls + seeds
    else: seeds = []
    seeds += [c for c in reversed(alls) if c not in seeds][:tries]
    for s in seeds:
        vs = set(T.free_vars(s))
        for rounds in (0, 1):
            cs = [c for c in alls if set(T.free_vars(c)) <= vs]
            for v in vs:
                for d in solver.DEFS.get(v, ()):
                    d = nf_term(d)
                    if d not in cs: cs.append(d)
            if len(cs) >= len(alls) + 3 and rounds: break
            if solver.solve_plain(cs, to): return True
            # second round: variables of the definitions too
            for c in cs: vs |= set(T.free_vars(c))
    return False

def pure_formula(cs):
    for c in cs:
        for v in sym._allv(c):
            nm = v.args[0]
            if nm.startswith(("sin!", "cos!", "acos", "atan2", "hv.", "floor", "round", "PI!")): return False
        if _has_uf(c): return False
    return True
def _has_uf(n):
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "uf": return True
        st.extend(a for a in x.args if isinstance(a, T.N))
    return False

_nft = {}
def nf_real(n):
    """the same real term, its parts (also inside ite, abs and applications) in normal form"""
    try:
        r = poly.nf(deep(n))
        if len(r.num) <= 400: return poly.to_term(r)
    except (poly.Blowup, ZeroDivisionError): pass
    return n
_deep = {}
def deep(n):
    """rebuild a term with normalised conditions and arguments below ite, abs and uf"""
    st = [n]
    while st:
        x = st[-1]
        if x in _deep: st.pop(); continue
        todo = [a for a in x.args if isinstance(a, T.N) and a not in _deep]
        if todo: st.extend(todo); continue
        a = [_deep[y] if isinstance(y, T.N) else y for y in x.args]; o = x.op
        try:
            if o in ("c", "v"): r = x
            elif o == "add": r = T.add(*a)
            elif o == "mul": r = T.mul(*a)
            elif o == "div": r = T.div(*a)
            elif o == "abs" and x.sort == "R":
                b = nf_real(a[0]); r = b if sym._is_nonneg(b) else T.absn(b)
            elif o == "ite": r = T.ite(nf_term(a[0]), nf_real(a[1]), nf_real(a[2])) if x.sort == "R" else T.ite(nf_term(a[0]), a[1], a[2])
            else: r = x
        except ZeroDivisionError: r = x
        _deep[x] = r; st.pop()
    return _deep[n]

def nf_term(n):
    """an equivalent constraint over normal forms (denominators, non-zero on the path, multiplied out)"""
    r = _nft.get(n)
    if r is not None: return r
    r = n
    if n.op in ("le", "lt", "eq") and n.args[0].sort == "R":
        try:
            d = poly.radd(poly.nf(deep(n.args[0])), poly.nf(deep(n.args[1])), -1)
            if len(d.num) <= 400:
                num = d.num
                if d.den and n.op != "eq":
                    for i, e in d.den:
                        f = poly._denp[i]
                        if e % 2 and not sym.sign_of_poly(f) in ("pos", "nonneg"): num = poly.pmul(num, f)
                t = poly.to_term(poly.Rat(num)); r = T.mk(n.op, (t, T.ZERO), "B") if not T.isc(t) else n
        except (poly.Blowup, ZeroDivisionError): pass
    elif n.op in ("and", "or"):
        a = [nf_term(x) for x in n.args]; r = T.and_(*a) if n.op == "and" else T.or_(*a)
    elif n.op == "not": r = T.not_(nf_term(n.args[0]))
    _nft[n] = r
    return r

def subst(n, m, memo=None):
    if memo is None: memo = {}
    if n in m: return m[n]
    r = memo.get(n)
    if r is not None: return r
    a = [subst(x, m, memo) if isinstance(x, T.N) else x for x in n.args]
    o = n.op
    if o in ("c", "v"): r = n
    elif o == "add": r = T.add(*a)
    elif o == "mul": r = T.mul(*a)
    elif o == "div": r = T.div(*a)
    elif o == "toR": r = T.toR(a[0])
    elif o == "abs": r = T.absn(a[0])
    elif o == "ite": r = T.ite(*a)
    elif o == "le": r = T.le(*a)
    elif o == "lt": r = T.lt(*a)
    elif o == "eq": r = T.eq(*a)
    elif o == "not": r = T.not_(a[0])
    elif o == "and": r = T.and_(*a)
    elif o == "or": r = T.or_(*a)
    elif o == "idiv": r = T.floordiv(*a)
    elif o == "imod": r = T.imod(*a)
    else: r = T.mk(o, a, n.sort)
    memo[n] = r
    return r

def find_split(n):
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": return x
        if x.op == "abs": return x
        st.extend(a for a in x.args if isinstance(a, T.N))
    return None

def split_zero(path, d, depth=0):
    """prove d = 0 by case-splitting on ite conditions / signs of absolute values"""
    x = find_split(d)
    if x is None or depth > 6: return False
    if x.op == "ite": cases = [(x.args[0], {x: x.args[1]}), (T.not_(x.args[0]), {x: x.args[2]})]
    else: cases = [(T.le(T.ZERO if x.sort == "R" else T.const(0), x.args[0]), {x: x.args[0]}), (T.lt(x.args[0], T.ZERO if x.sort == "R" else T.const(0)), {x: T.neg(x.args[0])})]
    for c, m in cases:
        c = sym.simplify_cond(c)
        if c is T.FALSE: continue
        try: d2 = subst(d, m)
        except ZeroDivisionError: return False
        if poly.is_zero(d2): continue
        p2 = _PC(path, c)
        if find_split(d2) is not None and split_zero(p2, d2, depth + 1): continue
        rel = sym.relevant(path.pc, c)
        if solver.solve(rel + [c], 800, want_model=False).status == "unsat": continue
        return False
    return True
class _PC:
    def __init__(self, p, c): self.pc = p.pc + [c]

def model_to_inputs(inputs, m):
    out = {}
    for name, (kind, v, lo, hi, k) in inputs.items():
        if kind == "real":
            out[name] = float(m.get(v.args[0], 0))
        elif kind == "int": out[name] = int(m.get(v.args[0], lo if lo is not None else 0))
        elif kind == "bool": out[name] = bool(m.get(v.args[0], False))
        elif kind == "choice": out[name] = v
        elif kind == "str": out[name] = str(m.get(v.args[0], "s0"))
        elif kind == "unit":
            out[name] = [float(m.get(x.args[0], 0)) for x in v]
        elif kind.startswith("angle_"):
            th = m.get(v.args[0])
            th = float(th) if th is not None else None
            full = 360.0 if kind == "angle_deg" else 2 * math.pi
            best = None
            for (mono, b), (s, c) in sym._trig.items():
                if not isinstance(mono, tuple) or not mono: continue
                ids = [a for a, _ in mono if a != T.PI.id]
                if ids == [v.id] and s.args[0] in m and c.args[0] in m:
                    a = math.atan2(float(m[s.args[0]]), float(m[c.args[0]]))
                    coef = float(b) * math.pi ** sum(e for x, e in mono if x == T.PI.id)
                    per = 2 * math.pi / coef
                    val = a / coef
                    if best is None or per > best[1]: best = (val, per)
            if best is not None:
                val, per = best
                if th is not None: val += per * round((th - val) / per)
                out[name] = val
            else: out[name] = th if th is not None else 0.0
    # pool strings: map distinct symbolic strings to distinct names
    return out

# ------------------------------------------------------------------ concrete mode
class CVC(Base):
    """runs the same contract on the unmodified code with ordinary numbers"""
    symbolic = False
    def __init__(self, rng, given=None, strict=False, special=0.35):
        self.rng = rng; self.given = given or {}; self.strict = strict; self.values = {}; self.fails = []
        self.maybe = 0; self.nchecks = 0; self.mag = 1.0; self.special = special; self.pool = []; self.exact_inputs = True
        self.passed = 0
    def _note(self, x):
        if abs(x) > self.mag: self.mag = min(abs(x), 1e9)
        f = Fraction(x)
        if f.denominator > 2**20 or abs(f.numerator) > 2**30: self.exact_inputs = False
        return x
    def real(self, name, lo=None, hi=None, **k):
        if name in self.values: return self.values[name]          # the same name is the same value, as in a proof
        if name in self.given: x = float(self.given[name])
        else:
            lo2 = -10.0 if lo is None else float(lo); hi2 = 10.0 if hi is None else float(hi)
            if k.get("pos") or k.get("nonneg"): lo2 = max(lo2, 0.0)
            r = self.rng.random()
            if r < self.special * 0.5:
                c = [v for v in (0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -2.0, lo2, hi2, 0.25, 4.0, 5.0, (lo2 + hi2) / 2) if lo2 <= v <= hi2]
                x = self.rng.choice(c) if c else self.rng.uniform(lo2, hi2)
            elif r < self.special * 0.7 and self.pool:
                x = self.rng.choice(self.pool)
                if not lo2 <= x <= hi2: x = self.rng.uniform(lo2, hi2)
            elif r < self.special: x = float(self.rng.randint(math.ceil(lo2), math.floor(hi2))) if math.ceil(lo2) <= math.floor(hi2) else self.rng.uniform(lo2, hi2)
            else: x = self.rng.uniform(lo2, hi2)
            if k.get("pos") and x <= 0: x = self.rng.uniform(max(lo2, 1e-3), max(hi2, 1e-2))
        if k.get("pos") and x <= 0: raise Reject()
        if k.get("nonneg") and x < 0: raise Reject()
        if k.get("strict") and ((lo is not None and x < lo) or (hi is not None and x > hi)): raise Reject()
        self.values[name] = x; self.pool.append(x)
        return self._note(x)
    def int(self, name, lo=None, hi=None, strict=True, **k):
        if name in self.values: return self.values[name]
        if name in self.given: x = int(self.given[name])
        else:
            lo2 = -10 if lo is None else lo; hi2 = 10 if hi is None else hi
            if self.rng.random() < 0.2: lo2, hi2 = (max(lo2, -2), min(hi2, 2)) if max(lo2, -2) <= min(hi2, 2) else (lo2, hi2)
            x = self.rng.randint(lo2, hi2)
        if strict and ((lo is not None and x < lo) or (hi is not None and x > hi)): raise Reject()
        self.values[name] = x
        return x
    def bool(self, name):
        x = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.values[name] = x; return x
    def str(self, name, pool=None):
        if name in self.given: x = str(self.given[name])
        else: x = self.rng.choice(pool or ["a", "b", "c"])
        self.values[name] = x; return x
    def choice(self, name, options):
        options = list(options)
        i = self.given[name] if name in self.given else self.rng.randrange(len(options))
        if not isinstance(i, int) or i >= len(options): raise Reject()
        self.values[name] = i
        return options[i]
    def unit(self, name, k):
        if name in self.values: return list(self.values[name])
        if name in self.given: v = list(self.given[name])
        else:
            r = self.rng.random()
            if r < 0.25:
                v = [0.0] * k; v[self.rng.randrange(k)] = self.rng.choice([1.0, -1.0])
            elif r < 0.35:
                v = [float(self.rng.choice([-1, 0, 1])) for _ in range(k)]
            else: v = [self.rng.gauss(0, 1) for _ in range(k)]
        n = math.sqrt(sum(x * x for x in v))
        if n < 1e-9: raise Reject()
        if abs(n - 1) > 1e-15: v = [x / n for x in v]
        self.values[name] = v
        for x in v: self._note(x)
        return v
    def angle(self, name, unit="deg", lo=-360.0, hi=360.0):
        if name in self.values: return self.values[name]
        if name in self.given: x = float(self.given[name])
        else:
            full = 1.0 if unit == "deg" else math.pi / 180
            r = self.rng.random()
            if r < 0.3: x = self.rng.choice([0, 90, 180, 270, -90, -180, 45, 30, 60, 120, 360, -360]) * full
            else: x = self.rng.uniform(lo, hi) if unit == "deg" else self.rng.uniform(-2 * math.pi, 2 * math.pi)
            x = float(x)
        self.values[name] = x; return self._note(x)
    # three-valued logic: None = too close to the threshold to tell in floating point
    def _m(self, a, b, k):
        if self.strict: return 0.0
        return k.get("tol", 1e-6) * (1.0 + max(abs(a), abs(b)) + k.get("scale", self.mag))
    def eq(self, a, b, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): raise TypeError("eq of arrays")
        if isinstance(a, (bool, np.bool_, str)) or isinstance(b, (bool, np.bool_, str)) or a is None or b is None: return bool(a == b)
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)): return int(a) == int(b)
        if not isinstance(a, (int, float, np.number)) or not isinstance(b, (int, float, np.number)): return bool(a == b)
        a = float(a); b = float(b)
        if a != a or b != b: return False
        if a == b: return True
        if math.isinf(a) or math.isinf(b): return False
        d = abs(a - b); m = k.get("tol", 1e-6) * (1.0 + max(abs(a), abs(b)) + k.get("scale", self.mag))
        if d <= 0.1 * m: return True
        if d > m: return False
        return None
    def le(self, a, b, **k):
        if isinstance(a, int) and isinstance(b, int): return a <= b
        a = float(a); b = float(b)
        if a != a or b != b: return False
        if math.isinf(a) or math.isinf(b): return a <= b
        m = self._m(a, b, k)
        if self.strict: return a <= b
        if a <= b - m: return True
        if a > b + m: return False
        return None
    def lt(self, a, b, **k):
        if isinstance(a, int) and isinstance(b, int): return a < b
        a = float(a); b = float(b)
        if a != a or b != b: return False
        if math.isinf(a) or math.isinf(b): return a < b
        m = self._m(a, b, k)
        if self.strict: return a < b
        if a < b - m: return True
        if a >= b + m: return False
        return None
    def and_(self, *xs):
        r = True
        for x in xs:
            if x is None: r = None if r is not False else r
            elif not x: return False
        return r
    def or_(self, *xs):
        r = False
        for x in xs:
            if x is None: r = None
            elif x: return True
        return r
    def not_(self, x): return None if x is None else (not x)
    def iff(self, a, b):
        if a is None or b is None: return None
        return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def sqrt(self, x): return math.sqrt(x) if x > 0 else 0.0
    def abs(self, x): return abs(x)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def cosh(self, x): return math.cosh(x)
    def sinh(self, x): return math.sinh(x)
    def sind(self, x): return math.sin(math.radians(x))
    def cosd(self, x): return math.cos(math.radians(x))
    def acos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    def asin(self, x): return math.asin(max(-1.0, min(1.0, x)))
    def atan2(self, y, x): return math.atan2(y, x)
    def max(self, *xs): return max(xs)
    def min(self, *xs): return min(xs)
    def floor(self, x): return math.floor(x)
    pi = math.pi
    def quadrants(self, *items): pass
    def case(self, c):
        if c is None: raise Reject()
        return bool(c)
    def assume(self, c):
        if c is None or not c: raise Reject()
    def require(self, c): self.assume(c)
    def feasible_now(self): pass
    def check(self, name, c, **k):
        self.nchecks += 1
        if c is None: self.maybe += 1; return True
        if not bool(c): self.fails.append(name); return False
        self.passed += 1
        return True
    def lemma(self, name, c): self.check(name, c)
    def stub(self, *a): pass
    def havoc(self, *a): return None
