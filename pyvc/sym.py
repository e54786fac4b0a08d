"""Symbolic values that flow through the real code, and the path engine that drives it."""
from fractions import Fraction
import math, numbers, time
import numpy as np
from . import term as T, poly, solver
from .term import OutOfSubset

class EndPath(BaseException): pass          # this path is finished
class Infeasible(BaseException): pass       # path condition contradictory
class Budget(BaseException): pass           # time / path budget exhausted

CUR = None                                   # current Path

def node(x, strict=True):
    """term of a Python value (symbolic or concrete)"""
    if isinstance(x, SymBase): return x.n
    t = type(x)
    if t is bool or t is np.bool_: return T.TRUE if x else T.FALSE
    if t is int: return T.const(x)
    if t is float: return T.ideal(x)
    if isinstance(x, np.integer): return T.const(int(x))
    if isinstance(x, np.floating): return T.ideal(float(x))
    if t is Fraction: return T.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0: return node(x.item())
    if isinstance(x, str): return T.mk("c", (x,), "Ustr")
    if strict: raise OutOfSubset("no term for %s" % t.__name__)
    return None

def isnum(x):
    t = type(x)
    return t in (int, float, bool, Fraction) or isinstance(x, (np.integer, np.floating, np.bool_))

def wrap(n):
    if n.op == "c":
        v = n.args[0]
        if n.sort == "B": return bool(v)
        if n.sort == "I": return int(v)
        if n.sort == "Ustr": return v
        if n.sort == "R": return SymReal(n)
        return SymU(n)
    s = n.sort
    if s == "R": return SymReal(n)
    if s == "I": return SymInt(n)
    if s == "B": return SymBool(n)
    if s == "Ustr": return SymStr(n)
    return SymU(n)

class SymBase:
    __slots__ = ("n",)
    __array_ufunc__ = None if False else None
    def __init__(self, n): self.n = n
    def __repr__(self): return "<sym>"
    def __str__(self): return "<sym>"
    def __format__(self, spec): return "<sym>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): raise OutOfSubset("pickling a symbolic value")

def _arr(o): return isinstance(o, np.ndarray)

def _elem(o, f):
    """elementwise on arrays (object dtype)"""
    r = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(*o.shape): r[idx] = f(o[idx])
    return r

def _num(fn, refl=False):
    def m(self, o):
        if _arr(o): return _elem(o, lambda e: (fn(node(e), self.n) if refl else fn(self.n, node(e))) and wrap(fn(node(e), self.n) if refl else fn(self.n, node(e))))
        if isinstance(o, SymBase) or isnum(o):
            if isinstance(o, (SymStr, SymU)): return NotImplemented
            on = _n(o)
            return wrap(fn(on, self.n) if refl else fn(self.n, on))
        return NotImplemented
    return m

def _n(o):
    n = node(o)
    if n.sort == "B": n = T.b2i(n)
    return n

def _cmp(fn):
    def m(self, o):
        if _arr(o): return _elem(o, lambda e: wrap(fn(self.n, _n(e))))
        if isinstance(o, (SymReal, SymInt, SymBool)) : return wrap(fn(T.b2i(self.n), _n(o)))
        if isinstance(o, float) and (o in (math.inf, -math.inf)):
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[fn.__name__]
        if isnum(o): return wrap(fn(T.b2i(self.n), _n(o)))
        return NotImplemented
    return m

def lt(a, b): return T.lt(a, b)
def le(a, b): return T.le(a, b)
def gt(a, b): return T.lt(b, a)
def ge(a, b): return T.le(b, a)
def eq(a, b): return T.eq(a, b)
def ne(a, b): return T.not_(T.eq(a, b))

def div_nodes(a, b):
    """a / b with Python's ZeroDivisionError"""
    b = T.toR(T.b2i(b)); a = T.toR(T.b2i(a))
    if not T.isc(b):
        if CUR is None: return T.div(a, b)
        if CUR.decide(T.eq(b, T.ZERO)): raise ZeroDivisionError("division by zero")
    return T.div(a, b)

def pow_nodes(a, b):
    if T.isc(b):
        v = T.cval(b)
        if v.denominator == 1:
            k = int(v)
            if k >= 0:
                if k > 64: raise OutOfSubset("large power")
                r = T.pow_int(a, k)
                return r if b.sort == "I" else T.toR(r)
            return div_nodes(T.ONE, T.pow_int(T.toR(a), -k))
        if v == Fraction(1, 2): return sqrt_node(T.toR(a))
    raise OutOfSubset("symbolic power")

class SymNum(SymBase):
    __slots__ = ()
    __add__ = _num(T.add); __radd__ = _num(T.add, True)
    __sub__ = _num(T.sub); __rsub__ = _num(T.sub, True)
    __mul__ = _num(T.mul); __rmul__ = _num(T.mul, True)
    __truediv__ = _num(div_nodes); __rtruediv__ = _num(div_nodes, True)
    __pow__ = _num(pow_nodes); __rpow__ = _num(pow_nodes, True)
    def __neg__(self): return wrap(T.neg(self.n))
    def __pos__(self): return wrap(T.b2i(self.n))
    def __abs__(self): return wrap(self.n if _is_nonneg(self.n) else T.absn(self.n))
    __lt__ = _cmp(lt); __le__ = _cmp(le); __gt__ = _cmp(gt); __ge__ = _cmp(ge)
    __eq__ = _cmp(eq); __ne__ = _cmp(ne)
    def __bool__(self):
        return CUR.decide(T.not_(T.eq(T.b2i(self.n), T.const(0))))
    def __hash__(self):
        raise OutOfSubset("hash of a symbolic number")
    # numpy object-array ufunc hooks
    def sqrt(self): return wrap(sqrt_node(T.toR(self.n)))
    def sin(self): return wrap(trig_node(T.toR(self.n))[0])
    def cos(self): return wrap(trig_node(T.toR(self.n))[1])
    def arccos(self): return wrap(acos_node(T.toR(self.n)))
    def arcsin(self): return wrap(asin_node(T.toR(self.n)))
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def __float__(self): raise OutOfSubset("float() of a symbolic value")
    def __round__(self, nd=None): return sym_round(self, nd)
    def __trunc__(self): return sym_int(self)
    def __floor__(self): return sym_floor(self)
    def __ceil__(self): return sym_ceil(self)
    def item(self): return self
    def is_integer(self):
        f = sym_floor(self)
        return self == f

class SymReal(SymNum):
    __slots__ = ()
    @property
    def __class__(self): return float
    def __floordiv__(self, o):
        return sym_floor(self / o) * 1.0
    def __mod__(self, o):
        return real_mod(self, o)
    def __rmod__(self, o): return real_mod(o, self)
    def __int__(self): raise OutOfSubset("int() of a symbolic value")

class SymInt(SymNum):
    __slots__ = ()
    @property
    def __class__(self): return int
    def __floordiv__(self, o):
        if isinstance(o, SymReal) or isinstance(o, float): return sym_floor(self / o) * 1.0
        if not (isinstance(o, SymBase) or isnum(o)): return NotImplemented
        _nz(o); return wrap(T.floordiv(self.n, _n(o)))
    def __rfloordiv__(self, o):
        if not (isinstance(o, SymBase) or isnum(o)): return NotImplemented
        _nz(self); return wrap(T.floordiv(_n(o), self.n))
    def __mod__(self, o):
        if isinstance(o, SymReal) or isinstance(o, float): return real_mod(self, o)
        if not (isinstance(o, SymBase) or isnum(o)): return NotImplemented
        _nz(o); return wrap(T.imod(self.n, _n(o)))
    def __rmod__(self, o):
        if not (isinstance(o, SymBase) or isnum(o)): return NotImplemented
        _nz(self); return wrap(T.imod(_n(o), self.n))
    def __index__(self):
        return CUR.concretise(self.n)
    def __int__(self): return CUR.concretise(self.n)
    def bit_length(self): raise OutOfSubset("bit_length")

def _nz(o):
    if isinstance(o, SymBase):
        if CUR.decide(T.eq(_n(o), T.const(0))): raise ZeroDivisionError("integer modulo by zero")
    elif o == 0: raise ZeroDivisionError("integer modulo by zero")

class SymBool(SymNum):
    __slots__ = ()
    @property
    def __class__(self): return bool
    def __bool__(self): return CUR.decide(self.n)
    def __and__(self, o): return wrap(T.and_(self.n, node(o)))
    __rand__ = __and__
    def __or__(self, o): return wrap(T.or_(self.n, node(o)))
    __ror__ = __or__
    def __invert__(self): return wrap(T.not_(self.n))
    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)) or type(o) is SymBool: return wrap(T.iff(self.n, node(o)))
        if isnum(o) or isinstance(o, SymBase): return wrap(T.eq(T.b2i(self.n), _n(o)))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else wrap(T.not_(r.n))
    def __hash__(self): raise OutOfSubset("hash of symbolic bool")
    def __index__(self): return 1 if bool(self) else 0
    def __int__(self): return 1 if bool(self) else 0

class SymU(SymBase):
    """opaque value of an uninterpreted sort: supports equality only"""
    __slots__ = ()
    def __eq__(self, o):
        if isinstance(o, SymU) or type(o) is str:
            on = node(o)
            if on.sort != self.n.sort: return False
            return wrap(T.eq(self.n, on))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else wrap(T.not_(r.n))
    def __hash__(self): return 7            # all symbolic keys collide: dict/set fall back to __eq__
    def __bool__(self): return True

class SymStr(SymU):
    __slots__ = ()
    @property
    def __class__(self): return str
    def __hash__(self): raise OutOfSubset("hash of a symbolic string")
    def _no(self, *a, **k): raise OutOfSubset("string operation on a symbolic string")
    __add__ = __radd__ = __len__ = __getitem__ = __iter__ = __contains__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    split = strip = lower = upper = startswith = endswith = encode = format = replace = join = _no
    def __bool__(self):
        return CUR.decide(T.not_(T.eq(self.n, node(""))))

# ---------------------------------------------------------------- real functions

_fresh = {}
def fresh(prefix, sort="R"):
    """deterministic per-path fresh variable names are taken from the global counter keyed by use"""
    k = _fresh.get(prefix, 0) + 1; _fresh[prefix] = k
    return T.var("%s!%d" % (prefix, k), sort)

_sqrt = {}
def sqrt_node(t, check=True):
    """sqrt with ValueError on a negative argument"""
    if check and CUR is not None and not _is_nonneg(t):
        if CUR.decide(T.lt(t, T.ZERO)): raise ValueError("math domain error")
    return sqrt_raw(t)

def _is_nonneg(t):
    if T.isc(t): return T.cval(t) >= 0
    if t.op == "add": return all(_is_nonneg(a) for a in t.args)
    if t.op in ("abs",): return True
    if t in _nonneg: return True
    if t.op == "mul":
        from collections import Counter
        c = Counter(t.args)
        return all(k in _nonneg or (T.isc(k) and T.cval(k) >= 0) or v % 2 == 0 or k.op == "abs" for k, v in c.items())
    if t.op == "div": return _is_nonneg(t.args[0]) and _is_nonneg(t.args[1])
    return False
_nonneg = set()

def isqrt_frac(q):
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None

def sqrt_raw(t):
    try: r = poly.nf(t)
    except (poly.Blowup, ZeroDivisionError): r = None
    if r is None:
        key = ("n", t.id)
    else:
        if r.is_const():
            q = isqrt_frac(r.cval()) if r.cval() >= 0 else None
            if q is not None: return T.const(q, "R")
        if len(r.num) == 1:
            # c * prod a^even / den^even ?  -> product of abs
            (m, c), = r.num.items()
            q = isqrt_frac(c) if c > 0 else None
            if q is not None and all(e % 2 == 0 for _, e in m) and all(e % 2 == 0 for _, e in r.den):
                out = T.const(q, "R")
                for a, e in m:
                    at = T.toR(T._nodes[a])
                    if not _is_nonneg(at): at = T.absn(at)
                    for _ in range(e // 2): out = T.mul(out, at)
                for i, e in r.den:
                    for _ in range(e // 2): out = T.div(out, _absp(poly._denp[i]))
                return out
        if all(e % 2 == 0 for _, e in r.den):
            sq = perfect_square(poly.Rat(r.num))
            if sq is not None:
                out = sq if _is_nonneg(sq) else T.absn(sq)
                for i, e in r.den:
                    for _ in range(e // 2): out = T.div(out, _absp(poly._denp[i]))
                return out
        key = r.key()
    v = _sqrt.get(key)
    if v is None:
        v = T.var("sqrt!%d" % len(_sqrt), "R"); _sqrt[key] = v
        _nonneg.add(v)
        body = poly.to_term(r) if r is not None and len(r.num) <= 300 else t
        solver.DEFS[v] = [T.le(T.ZERO, v), T.eq(T.mul(v, v), body)]
        if r is not None and not r.den: poly.set_rule(v, r.num)
        elif r is not None:
            SQRT_OF[v] = t
    return v
SQRT_OF = {}

def _absp(p):
    t = poly.to_term(poly.Rat(p))
    return t if _is_nonneg(t) or sign_of_poly(p) in ("pos", "nonneg") else T.absn(t)
def perfect_square(r):
    """if r is the square of a small linear-ish polynomial, return that polynomial as a term"""
    if r.den or not (3 <= len(r.num) <= 160): return None
    p = r.num
    # polynomial long-division square root under a lexicographic order of the atoms
    atoms = sorted({a for m in p for a, _ in m})
    ix = {a: i for i, a in enumerate(atoms)}
    def vec(m):
        v = [0] * len(atoms)
        for a, e in m: v[ix[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    lead = max(P)
    c0 = isqrt_frac(P[lead]) if P[lead] > 0 else None
    if c0 is None or any(e % 2 for e in lead): return None
    l0 = tuple(e // 2 for e in lead)
    q = {l0: c0}; rem = dict(P); del rem[lead]
    for _ in range(24):
        if not rem: break
        m = max(rem); c = rem[m]
        t = tuple(x - y for x, y in zip(m, l0))
        if any(e < 0 for e in t) or t in q or t > l0: return None
        tc = c / (2 * c0)
        for qm, qc in q.items():
            k = tuple(x + y for x, y in zip(qm, t)); v = rem.get(k, 0) - 2 * qc * tc
            if v: rem[k] = v
            else: rem.pop(k, None)
        k = tuple(2 * x for x in t); v = rem.get(k, 0) - tc * tc
        if v: rem[k] = v
        else: rem.pop(k, None)
        q[t] = tc
    if rem: return None
    return poly.to_term(poly.Rat({tuple((atoms[i], e) for i, e in enumerate(t) if e): c for t, c in q.items()}))

# trigonometry: angle atoms -> (sin, cos) terms
_trig = {}          # (mono, base coef) -> (s, c)
_trigbase = {}      # mono -> list of base coefs
_angle_val = {}     # angle var node -> (s term, c term)   (values of acos/asin/atan2 atoms)

def set_angle(v, s, c): _angle_val[v] = (s, c)

def _new_sc(tag):
    k = len(_trig)
    s = T.var("sin!%d" % k, "R"); c = T.var("cos!%d" % k, "R")
    solver.DEFS[s] = [T.eq(T.add(T.mul(s, s), T.mul(c, c)), T.ONE)]
    solver.DEFS[c] = solver.DEFS[s]
    poly.set_rule(c, {(): Fraction(1), ((s.id, 2),): Fraction(-1)}); bounded1.update((s, c))
    return s, c
TRIG_ARG = {}       # sin var node -> argument term, for model concretisation
_ATOM_ARG = {}

def _mul_angle(s, c, k):
    """sin, cos of k times the angle with (s, c)"""
    if k < 0:
        a, b = _mul_angle(s, c, -k); return T.neg(a), b
    rs, rc = T.ZERO, T.ONE
    for _ in range(k):
        rs, rc = T.add(T.mul(rs, c), T.mul(rc, s)), T.sub(T.mul(rc, c), T.mul(rs, s))
    return rs, rc

SQ = {}
def _special(q):
    """sin, cos of q*pi for q multiple of 1/12"""
    q = q % 2
    def sq(n): return sqrt_raw(T.const(Fraction(n)))
    h = T.const(Fraction(1, 2))
    tab = {Fraction(0): (T.ZERO, T.ONE), Fraction(1, 2): (T.ONE, T.ZERO), Fraction(1): (T.ZERO, T.const(Fraction(-1))), Fraction(3, 2): (T.const(Fraction(-1)), T.ZERO)}
    if q in tab: return tab[q]
    quad = int(q / Fraction(1, 2)); r = q - quad * Fraction(1, 2)
    if r == Fraction(1, 6): s, c = h, T.mul(h, sq(3))
    elif r == Fraction(1, 3): s, c = T.mul(h, sq(3)), h
    elif r == Fraction(1, 4): s = c = T.mul(h, sq(2))
    else: return None
    for _ in range(quad): s, c = c, T.neg(s)
    return s, c

_seen_angles = {}
def trig_node(x):
    """(sin x, cos x) as terms"""
    if x in _angle_val: return _angle_val[x]
    r = _trig_node(x)
    _seen_angles[x] = r
    return r
def _atan2_of_known(y, x):
    """y = R sin t, x = R cos t with R > 0 for an angle t already seen: atan2 is t reduced by whole turns"""
    if CUR is None: return None
    for t, (S, C) in list(_seen_angles.items())[-40:]:
        try:
            if not poly.is_zero(T.sub(T.mul(y, C), T.mul(x, S))): continue
            R = T.add(T.mul(x, C), T.mul(y, S))
            rn = poly.to_term(poly.nf(R))
        except (poly.Blowup, ZeroDivisionError): continue
        g = simplify_cond(T.lt(T.ZERO, rn))
        if g is not T.TRUE and not CUR.implied(g):
            if solver.solve(relevant(CUR.pc, g) + [T.not_(g)], 500, want_model=False).status != "unsat": continue
        # value = t - 2 pi k in (-pi, pi]:  k = ceil(t/2pi - 1/2)
        q = T.div(t, T.mul(T.const(Fraction(2)), T.PI))
        k = T.neg(floor_node(T.neg(T.sub(q, T.const(Fraction(1, 2))))))
        v = T.sub(t, T.mul(T.mul(T.const(Fraction(2)), T.PI), T.toR(k)))
        set_angle(v, S, C)
        return v
    return None
def _trig_node(x):
    try: r = poly.nf(x)
    except poly.Blowup: raise OutOfSubset("trig of a huge term")
    if r.den:
        # divide numerator by denominator (unique quotient and remainder): quotient terms are ordinary
        # angle monomials, every remainder monomial over the denominator is an angle atom of its own
        parts = []
        try: D = r.denpoly(); q_, rem = poly.divmod_poly(r.num, D)
        except poly.Blowup: q_, rem = {}, None
        if rem is None: parts = [(("rat", r.key()), Fraction(1), x)]
        else:
            for m, c in sorted(q_.items()): parts.append((m, c, None))
            for m, c in sorted(rem.items()):
                a = poly.Rat(*poly._cancel({m: Fraction(1)}, r.den))
                if not a.den and len(a.num) == 1:
                    (m2, c2), = a.num.items(); parts.append((m2, c * c2, None))
                else: parts.append((("rat", a.key()), c, a))
    else:
        parts = []
        for m, c in sorted(r.num.items()):
            parts.append((m, c, None))
    S, C = T.ZERO, T.ONE
    for m, q, tx in parts:
        if m and m[0] == "rat": s, c = _base(m, q, tx)
        elif m == ((T.PI.id, 1),):
            sp = _special(q)
            if sp is None: s, c = _base(m, q)
            else: s, c = sp
        elif q.denominator == 1 and q % 2 == 0 and isinstance(m, tuple) and len(m) == 2 and all(e == 1 for _, e in m) and T.PI.id in (m[0][0], m[1][0]) and all(a == T.PI.id or T._nodes[a].sort == "I" for a, _ in m):
            continue      # whole turns
        elif isinstance(m, tuple) and len(m) == 1 and m[0][1] == 1 and T._nodes[m[0][0]] in _angle_val and q.denominator == 1 and abs(q) <= 4:
            s0, c0 = _angle_val[T._nodes[m[0][0]]]
            s, c = _mul_angle(s0, c0, int(q))
        elif isinstance(m, tuple) and len(m) == 1 and m[0][1] == 1 and T._nodes[m[0][0]] in _angle_val and q in (Fraction(1,2), Fraction(-1,2)):
            s0, c0 = _angle_val[T._nodes[m[0][0]]]
            # half angle of an angle in [-pi, pi]: cos half >= 0
            ch = sqrt_raw(T.div(T.add(T.ONE, c0), T.const(Fraction(2))))
            sh = sqrt_raw(T.div(T.sub(T.ONE, c0), T.const(Fraction(2))))
            sh = T.ite(T.lt(T._nodes[m[0][0]], T.ZERO), T.neg(sh), sh)
            s, c = (sh, ch) if q > 0 else (T.neg(sh), ch)
        else:
            s, c = _base(m, q, tx)
        S, C = T.add(T.mul(S, c), T.mul(C, s)), T.sub(T.mul(C, c), T.mul(S, s))
    return S, C

def _base(m, q, tx=None):
    bases = _trigbase.setdefault(m, [])
    for b in bases:
        k = q / b
        if k.denominator == 1 and abs(k) <= 8:
            s, c = _trig[(m, b)]
            return _mul_angle(s, c, int(k))
    b = abs(q)
    if m == (): 
        pass
    s, c = _new_sc(m)
    _trig[(m, b)] = (s, c); bases.append(b)
    if isinstance(tx, poly.Rat): arg = T.mul(T.const(b, "R"), poly.to_term(tx))
    else: arg = tx if tx is not None else poly.to_term(poly.Rat({m: b}))
    _ATOM_ARG[s] = arg
    # finer base created later than coarser one: relate them so that both stay usable
    for b2 in bases[:-1]:
        k = b2 / b
        if k.denominator == 1 and k <= 8:
            s2, c2 = _trig[(m, b2)]
            ks, kc = _mul_angle(s, c, int(k))
            solver.DEFS[s2] = solver.DEFS[s2] + [T.eq(s2, ks), T.eq(c2, kc)]
    return (s, c) if q > 0 else (T.neg(s), c)

_inv = {}
def _inv_atom(kind, key):
    v = _inv.get((kind, key))
    if v is None:
        v = T.var("%s!%d" % (kind, len(_inv)), "R"); _inv[(kind, key)] = v
        return v, True
    return v, False

def _key(t):
    try: return poly.nf(t).key()
    except poly.Blowup: return t.id

def exp_node(x):
    """e**x as a product of positive atoms, one per monomial of x (so exp(a+b) = exp(a) exp(b), exp(-a) = 1/exp(a), exp(0) = 1)"""
    try: r = poly.nf(x)
    except poly.Blowup: raise OutOfSubset("exp of a huge term")
    parts = [(("rat", r.key()), Fraction(1), x)] if r.den else [(m, c, None) for m, c in sorted(r.num.items())]
    out = T.ONE
    for m, q, tx in parts:
        v, new = _inv_atom("exp", (m, abs(q)))
        if new:
            _nonneg.add(v); solver.DEFS[v] = [T.lt(T.ZERO, v)]
            _ATOM_ARG[v] = tx if tx is not None else poly.to_term(poly.Rat({m: abs(q)}))
        out = T.mul(out, v) if q > 0 else T.div(out, v)
    return out

HALFPI = T.mul(T.const(Fraction(1, 2)), T.PI)
solver.DEFS[T.PI] = [T.lt(T.const(Fraction(314159265, 10**8)), T.PI), T.lt(T.PI, T.const(Fraction(314159266, 10**8)))]

ACOS = {}
def acos_node(x, nan_ok=False):
    if T.isc(x):
        v = T.cval(x)
        if v == 1: return T.ZERO
        if v == -1: return T.PI
        if v == 0: return HALFPI
    if CUR is not None and not _in_unit(x):
        if CUR.decide(T.or_(T.lt(T.ONE, x), T.lt(x, T.const(Fraction(-1))))):
            if nan_ok: raise OutOfSubset("arccos outside [-1,1]")
            raise ValueError("math domain error")
    return acos_raw(x)

_unit = set()
def _in_unit(x): return x in _unit

def acos_raw(x):
    v, new = _inv_atom("acos", _key(x))
    if new:
        s = sqrt_raw(T.sub(T.ONE, T.mul(x, x)))
        set_angle(v, s, x)
        m1 = T.const(Fraction(-1))
        d = [T.le(T.ZERO, v), T.le(v, T.PI),
             T.iff(T.eq(v, T.ZERO), T.eq(x, T.ONE)), T.iff(T.eq(v, T.PI), T.eq(x, m1)),
             T.iff(T.lt(v, HALFPI), T.lt(T.ZERO, x)), T.iff(T.eq(v, HALFPI), T.eq(x, T.ZERO)),
             T.le(T.mul(x, x), T.ONE)]
        for v2, x2 in list(ACOS.items()):
            d.append(T.iff(T.lt(v, v2), T.lt(x2, x)))
            d.append(T.iff(T.eq(v, v2), T.eq(x2, x)))
        solver.DEFS[v] = d
        ACOS[v] = x
    return v

ASIN = {}
def asin_node(x):
    if T.isc(x):
        v = T.cval(x)
        if v == 1: return HALFPI
        if v == -1: return T.neg(HALFPI)
        if v == 0: return T.ZERO
    if CUR is not None and not _in_unit(x):
        if CUR.decide(T.or_(T.lt(T.ONE, x), T.lt(x, T.const(Fraction(-1))))): raise ValueError("math domain error")
    return T.sub(HALFPI, acos_raw(x))

def atan2_node(y, x):
    if T.isc(y) and T.cval(y) == 0 and T.isc(x): return T.ZERO if T.cval(x) >= 0 else T.PI
    v, new = _inv_atom("atan2", (_key(y), _key(x)))
    if v not in solver.DEFS:
        kn = _atan2_of_known(y, x)
        if kn is not None: return kn
    if v not in solver.DEFS:
        r2 = T.add(T.mul(x, x), T.mul(y, y))
        r = sqrt_raw(r2)
        z = T.eq(r2, T.ZERO)
        s = T.var(v.args[0] + ".s", "R"); c = T.var(v.args[0] + ".c", "R")
        set_angle(v, s, c)
        poly.set_rule(c, {(): Fraction(1), ((s.id, 2),): Fraction(-1)}); bounded1.update((s, c))
        dd = [T.eq(T.add(T.mul(s, s), T.mul(c, c)), T.ONE), T.eq(T.mul(r, s), y), T.or_(z, T.eq(T.mul(r, c), x)), T.implies(z, T.eq(c, T.ONE))]
        solver.DEFS[s] = dd; solver.DEFS[c] = dd
        solver.DEFS[v] = [T.lt(T.neg(T.PI), v), T.le(v, T.PI),
            T.iff(T.lt(T.ZERO, v), T.or_(T.lt(T.ZERO, y), T.and_(T.eq(y, T.ZERO), T.lt(x, T.ZERO)))),
            T.iff(T.lt(v, T.ZERO), T.lt(y, T.ZERO)),
            T.iff(T.lt(T.absn(v), HALFPI), T.or_(T.lt(T.ZERO, x), z)),
            T.iff(T.eq(v, HALFPI), T.and_(T.eq(x, T.ZERO), T.lt(T.ZERO, y))),
            T.iff(T.eq(v, T.neg(HALFPI)), T.and_(T.eq(x, T.ZERO), T.lt(y, T.ZERO))),
            T.iff(T.eq(v, T.ZERO), T.and_(T.eq(y, T.ZERO), T.le(T.ZERO, x))),
            T.iff(T.eq(v, T.PI), T.and_(T.eq(y, T.ZERO), T.lt(x, T.ZERO)))]
    return v

def _split_int(x):
    """x = rest + whole with whole an integer-sorted term (sum of integer atoms with integer coefficients)"""
    try: r = poly.nf(x)
    except poly.Blowup: return x, None
    if r.den: return x, None
    whole = []; rest = {}
    for m, q in r.num.items():
        if q.denominator == 1 and all(T._nodes[a].sort == "I" for a, _ in m):
            t = T.const(int(q))
            for a, e in m:
                for _ in range(e): t = T.mul(t, T._nodes[a])
            whole.append(t)
        else: rest[m] = q
    if not whole: return x, None
    w = whole[0]
    for t in whole[1:]: w = T.add(w, t)
    return poly.to_term(poly.Rat(rest)), w
def floor_node(x):
    x = T.b2i(x)
    if x.sort == "I": return x
    if T.isc(x): return T.const(math.floor(T.cval(x)))
    x2, w = _split_int(x)
    if w is not None and w.sort == "I": return T.add(floor_node(x2), w) if not (T.isc(x2) and T.cval(x2) == 0) else w
    v, new = _inv_atom("floor", _key(x))
    if new:
        k = T.var(v.args[0] + ".k", "I")
        _floor[v] = k
        solver.DEFS[k] = [T.le(T.toR(k), x), T.lt(x, T.add(T.toR(k), T.ONE))]
    return _floor[v]
_floor = {}

def sym_floor(a): return wrap(floor_node(a.n)) if isinstance(a, SymBase) else math.floor(a)
def sym_ceil(a):
    if not isinstance(a, SymBase): return math.ceil(a)
    return wrap(T.neg(floor_node(T.neg(a.n))))
def sym_int(a):
    if not isinstance(a, SymBase): return int(a)
    n = T.b2i(a.n)
    if n.sort == "I": return wrap(n)
    if n.sort != "R": raise OutOfSubset("int()")
    if _is_nonneg(n): return wrap(floor_node(n))
    return wrap(T.ite(T.le(T.ZERO, n), floor_node(n), T.neg(floor_node(T.neg(n)))))
def sym_round(a, nd=None):
    n = T.b2i(a.n)
    if n.sort == "I": return a
    if nd is not None: raise OutOfSubset("round(x, digits)")
    if T.isc(n): return round(T.cval(n))
    v, new = _inv_atom("round", _key(n))
    if new:
        k = T.var(v.args[0] + ".k", "I"); _floor[v] = k
        h = T.const(Fraction(1, 2))
        e = T.imod(k, T.const(2))
        lo = T.sub(T.toR(k), h); hi = T.add(T.toR(k), h)
        even = T.eq(e, T.const(0))
        solver.DEFS[k] = [T.or_(T.lt(lo, n), T.and_(even, T.eq(lo, n))), T.or_(T.lt(n, hi), T.and_(even, T.eq(hi, n)))]
    return wrap(_floor[v])
def real_mod(a, b):
    an, bn = T.toR(_n(a)), T.toR(_n(b))
    q = div_nodes(an, bn)
    return wrap(T.sub(an, T.mul(bn, T.toR(floor_node(q)))))

def sym_min(*xs): return _minmax(xs, lambda a, b: T.lt(b, a), math.inf)
def sym_max(*xs): return _minmax(xs, lambda a, b: T.lt(a, b), -math.inf)
def _minmax(xs, better, neutral):
    it = list(xs)
    if any(isinstance(x, SymBase) for x in it):      # symbolic numbers are finite
        if any(isinstance(x, float) and x == -neutral for x in it): return -neutral
        it = [x for x in it if not (isinstance(x, float) and x == neutral)]
    r = it[0]
    for y in it[1:]:
        if isinstance(r, SymBase) or isinstance(y, SymBase):
            rn, yn = _n(r), _n(y)
            if rn.sort != yn.sort: rn, yn = T.toR(rn), T.toR(yn)
            c = better(rn, yn)
            try: c = simplify_cond(c); w = simplify_cond(better(yn, rn))
            except poly.Blowup: w = None
            if c is T.TRUE or w is T.FALSE: r = wrap(yn)
            elif c is T.FALSE: r = wrap(rn)
            elif CUR is not None and CUR.implied(c): r = wrap(yn)
            elif CUR is not None and CUR.implied(T.not_(c)): r = wrap(rn)
            else: r = wrap(T.ite(c, yn, rn))
        else:
            c = better(node(r), node(y))
            if c is T.TRUE: r = y
            elif c is not T.FALSE: raise OutOfSubset("min/max")
    return r

# ---------------------------------------------------------------- path engine

FEAS_CACHE = {}

class Path:
    """one execution: a prefix of decisions, then fresh decisions"""
    def __init__(self, eng, prefix):
        self.eng = eng; self.prefix = prefix; self.taken = []; self.pc = []; self.pcset = set()
        self.nforks = 0
        self.known = {}
    def assume(self, n):
        """add to the path condition; raises Infeasible when contradictory"""
        if n is T.TRUE: return
        if n is T.FALSE: raise Infeasible()
        if n in self.pcset: return
        for c in (n.args if n.op == "and" else (n,)):
            if c not in self.pcset: self.pc.append(c); self.pcset.add(c)
    def decide(self, n):
        if n is T.TRUE: return True
        if n is T.FALSE: return False
        n2 = simplify_cond(n)
        if n2 is T.TRUE: return True
        if n2 is T.FALSE: return False
        if self.implied(n2): return True
        if self.implied(T.not_(n2)): return False
        i = len(self.taken)
        if i < len(self.prefix): b = self.prefix[i]
        else:
            self.eng.tick()
            self.nforks += 1
            if self.nforks > self.eng.max_depth: raise Budget("path depth")
            ft = self.eng.feasible(self.pc, n2)
            ff = self.eng.feasible(self.pc, T.not_(n2))
            if ft and ff:
                b = True
                self.eng.push(self.taken + [False])
            elif ft: b = True
            elif ff: b = False
            else: raise Infeasible()
        self.taken.append(b)
        self.assume(n2 if b else T.not_(n2))
        return b
    def implied(self, n):
        if n in self.pcset: return True
        if n.op == "and": return all(self.implied(x) for x in n.args)
        if n.op == "or": return any(self.implied(x) for x in n.args)
        if n.op == "le":
            if T.mk("lt", n.args, "B") in self.pcset: return True
        return False
    def choose(self, k):
        """nondeterministic choice 0..k-1 (all explored)"""
        for j in range(k - 1):
            i = len(self.taken)
            if i < len(self.prefix): b = self.prefix[i]
            else:
                b = True; self.eng.push(self.taken + [False])
            self.taken.append(b)
            if b: return j
        return k - 1
    def concretise(self, n, limit=12):
        """case-split an integer term over its feasible values"""
        if T.isc(n): return int(T.cval(n))
        for _ in range(limit):
            # deterministic replay: values tried are recorded in the decision list
            i = len(self.taken)
            if i < len(self.prefix):
                v, b = self.prefix[i]
            else:
                r = solver.solve(self.pc + [_touch(n)], 1500)
                if r.status == "unsat": raise Infeasible()
                if r.status != "sat": raise OutOfSubset("cannot concretise")
                v = eval_model(n, r.model)
                b = True
                if self.eng.feasible(self.pc, T.not_(T.eq(n, T.const(v)))):
                    self.eng.push(self.taken + [(v, False)])
            self.taken.append((v, b))
            if b:
                self.assume(T.eq(n, T.const(v))); return v
            self.assume(T.not_(T.eq(n, T.const(v))))
        raise OutOfSubset("integer with too many values used as an index")

def _touch(n): return T.le(n, n) if False else T.or_(T.le(n, T.const(10**9)), T.lt(T.const(10**9), n))

def eval_model(n, m):
    o = n.op
    if o == "c": return int(T.cval(n)) if n.sort == "I" else T.cval(n)
    if o == "v":
        return m.get(n.args[0], 0)
    a = [eval_model(x, m) if isinstance(x, T.N) else x for x in n.args]
    if o == "add": return sum(a)
    if o == "mul":
        r = 1
        for x in a: r *= x
        return r
    if o == "div": return Fraction(a[0]) / Fraction(a[1]) if a[1] != 0 else Fraction(0)
    if o == "toR": return a[0]
    if o == "abs": return abs(a[0])
    if o == "ite": return a[1] if a[0] else a[2]
    if o == "le": return a[0] <= a[1]
    if o == "lt": return a[0] < a[1]
    if o == "eq": return a[0] == a[1]
    if o == "not": return not a[0]
    if o == "and": return all(a)
    if o == "or": return any(a)
    if o == "idiv": return a[0] // a[1] if a[1] else 0
    if o == "imod": return a[0] % a[1] if a[1] else 0
    raise OutOfSubset("model evaluation of " + o)

_simp = {}
def simplify_cond(n):
    """use the polynomial normal form to decide trivially true/false comparisons"""
    r = _simp.get(n)
    if r is not None: return r
    r = n
    if n.op in ("le", "lt", "eq") and n.args[0].sort in ("R", "I"):
        try:
            d = poly.radd(poly.nf(n.args[0]), poly.nf(n.args[1]), -1)
            if d.is_const():
                v = d.cval()
                r = T.TRUE if (v <= 0 if n.op == "le" else v < 0 if n.op == "lt" else v == 0) else T.FALSE
            elif not d.den and n.op in ("le", "lt") and len(d.num) <= 12:
                sg = sign_of_poly(d.num) or sign_bounded(d.num)
                if sg is not None:
                    if n.op == "lt":
                        if sg == "neg": r = T.TRUE
                        elif sg in ("nonneg", "pos"): r = T.FALSE
                    else:
                        if sg in ("nonpos", "neg"): r = T.TRUE
                        elif sg == "pos": r = T.FALSE
        except (poly.Blowup, ZeroDivisionError): pass
    elif n.op in ("and", "or", "not"):
        a = [simplify_cond(x) for x in n.args]
        r = T.and_(*a) if n.op == "and" else T.or_(*a) if n.op == "or" else T.not_(a[0])
    _simp[n] = r
    return r

def sign_of_poly(p):
    """sign of a polynomial whose monomials are all even / nonneg atoms"""
    s = None; strict = False
    for m, c in p.items():
        ok = all(e % 2 == 0 or T._nodes[a] in _nonneg or T._nodes[a].op == "abs" or T._nodes[a] is T.PI for a, e in m)
        if not ok: return None
        t = 1 if c > 0 else -1
        if s is None: s = t
        elif s != t: return None
        if not m: strict = True
    if s is None: return None
    return ("pos" if strict else "nonneg") if s > 0 else ("neg" if strict else "nonpos")

bounded1 = set()          # atoms known to lie in [-1, 1]: components of unit vectors, sines and cosines
def sign_bounded(p):
    c = p.get((), 0); t = 0
    for m, k in p.items():
        if m:
            if not all(T._nodes[a] in bounded1 for a, e in m): return None
            t += abs(k)
    if c > t: return "pos"
    if -c > t: return "neg"
    if c == t: return "nonneg"
    if -c == t: return "nonpos"

class Engine:
    """explores all paths of a harness by re-execution"""
    def __init__(self, max_paths=400, time_s=60, feas_ms=400, max_depth=400):
        self.max_paths = max_paths; self.deadline = time.time() + time_s
        self.feas_ms = feas_ms; self.max_depth = max_depth
        self.work = []; self.npaths = 0; self.infeasible = 0; self.feas_unknown = 0
    def tick(self):
        if time.time() > self.deadline: raise Budget("time")
    def push(self, prefix): self.work.append(prefix)
    def feasible(self, pc, n):
        k = (frozenset(pc), n)
        r = FEAS_CACHE.get(k)
        if r is None:
            if T.not_(n) in pc: r = False
            else:
                rel = relevant(pc, n)
                res = solver.solve(rel + [n], self.feas_ms, want_model=False)
                if res.status == "unknown": self.feas_unknown += 1
                r = res.status != "unsat"
            FEAS_CACHE[k] = r
        return r
    def run(self, body):
        """body(path) is executed once per path; yields (path, outcome)"""
        global CUR
        self.work = [[]]
        while self.work:
            if self.npaths >= self.max_paths: raise Budget("paths")
            self.tick()
            prefix = self.work.pop()
            p = Path(self, prefix)
            CUR = p
            try:
                out = body(p)
            except Infeasible:
                self.infeasible += 1
                continue
            except EndPath:
                out = None
            finally:
                CUR = None
            self.npaths += 1
            yield p, out

def relevant(pc, n):
    """cone of influence: constraints sharing variables (transitively) with n"""
    vs = set(_allv(n)); rest = list(pc); out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for c in rest:
            cv = _allv(c)
            if not cv or cv & vs: out.append(c); vs |= cv; changed = True
            else: keep.append(c)
        rest = keep
    return out

_av = {}
def _allv(n):
    r = _av.get(n)
    if r is None:
        r = set(T.free_vars(n)); work = list(r)
        while work:
            v = work.pop()
            for d in solver.DEFS.get(v, ()):
                for w in T.free_vars(d):
                    if w not in r and w is not T.PI: r.add(w); work.append(w)
        r.discard(T.PI)
        _av[n] = frozenset(r); r = _av[n]
    return r
