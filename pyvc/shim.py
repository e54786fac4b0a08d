"""Module shims injected (in memory only) into the loaded yapcad modules while a contract is being
verified: math, numpy, and the builtins float/int/round/min/max/range/sum see symbolic values.
On concrete arguments every shim delegates to the original."""
import builtins, math, sys, types
import numpy as np
from . import term as T, sym
from .sym import SymBase, SymReal, SymInt, SymBool, wrap, node, OutOfSubset

def issym(x): return isinstance(x, SymBase)

def has_sym(x):
    if issym(x): return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)): return any(has_sym(e) for e in x)
    return False

def R(x): return T.toR(T.b2i(node(x)))

# ---- exact constants: sin(pi/2) etc on idealised floats would be floats; keep delegating
def _m1(name, f):
    orig = getattr(math, name)
    def g(x):
        if issym(x): return f(x)
        return orig(x)
    g.__name__ = name
    return g

def m_sqrt(x):
    if issym(x): return wrap(sym.sqrt_node(R(x)))
    if type(x) in (int, float) and x >= 0 and x == x and x != math.inf:
        # exact: sqrt of an idealised constant (keeps sqrt(2)^2 = 2)
        r = math.sqrt(x)
        if r * r == x: return r
        return wrap(sym.sqrt_raw(T.toR(node(x))))
    return math.sqrt(x)
def _const_trig(x, k):
    n = T.toR(node(x))
    s = sym.trig_node(n)[k]
    return float(T.cval(s)) if T.isc(s) else wrap(s)
def m_sin(x):
    if issym(x): return wrap(sym.trig_node(R(x))[0])
    return _const_trig(x, 0) if _ispi(x) else math.sin(x)
def m_cos(x):
    if issym(x): return wrap(sym.trig_node(R(x))[1])
    return _const_trig(x, 1) if _ispi(x) else math.cos(x)
def _ispi(x):
    if type(x) not in (int, float) or x != x or abs(x) == math.inf: return False
    n = T.ideal(float(x))
    from . import poly
    r = poly.nf(n)
    return bool(r.num) and not r.den and all(m == ((T.PI.id, 1),) for m in r.num) and all((c * 12).denominator == 1 for c in r.num.values())
def m_tan(x):
    if issym(x):
        s, c = sym.trig_node(R(x)); return wrap(sym.div_nodes(s, c))
    return math.tan(x)
def m_acos(x): return wrap(sym.acos_node(R(x))) if issym(x) else math.acos(x)
def m_asin(x): return wrap(sym.asin_node(R(x))) if issym(x) else math.asin(x)
def m_atan2(y, x):
    if issym(y) or issym(x): return wrap(sym.atan2_node(R(y), R(x)))
    return math.atan2(y, x)
def m_atan(x): return wrap(sym.atan2_node(R(x), T.ONE)) if issym(x) else math.atan(x)
def m_radians(x): return wrap(T.mul(R(x), T.div(T.PI, T.const(180)))) if issym(x) else math.radians(x)
def m_degrees(x): return wrap(T.div(T.mul(R(x), T.const(180)), T.PI)) if issym(x) else math.degrees(x)
def m_hypot(*a):
    if any(issym(x) for x in a):
        t = T.ZERO
        for x in a: t = T.add(t, T.mul(R(x), R(x)))
        return wrap(sym.sqrt_node(t, check=False))
    return math.hypot(*a)
def m_floor(x): return sym.sym_floor(x)
def m_ceil(x): return sym.sym_ceil(x)
def m_fabs(x): return abs(x) if issym(x) else math.fabs(x)
def m_copysign(x, y):
    if issym(x) or issym(y):
        a = R(abs(x)); return wrap(T.neg(a) if bool(y < 0) else a)
    return math.copysign(x, y)
def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if any(issym(v) for v in (a, b, rel_tol, abs_tol)):
        d = T.absn(T.sub(R(a), R(b)))
        mx = R(sym.sym_max(abs(a), abs(b)))
        return wrap(T.or_(T.le(d, T.mul(R(rel_tol), mx)), T.le(d, R(abs_tol))))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
def m_exp(x): return wrap(sym.exp_node(R(x))) if issym(x) else math.exp(x)
def m_cosh(x):
    if not issym(x): return math.cosh(x)
    e = sym.exp_node(R(x)); return wrap(T.div(T.add(e, T.div(T.ONE, e)), T.const(2)))
def m_sinh(x):
    if not issym(x): return math.sinh(x)
    e = sym.exp_node(R(x)); return wrap(T.div(T.sub(e, T.div(T.ONE, e)), T.const(2)))
def m_isnan(x): return False if issym(x) else math.isnan(x)
def m_isinf(x): return False if issym(x) else math.isinf(x)
def m_isfinite(x): return True if issym(x) else math.isfinite(x)
def m_pow(a, b): return (a * 1.0) ** b if issym(a) or issym(b) else math.pow(a, b)
def m_fsum(xs):
    xs = list(xs)
    return b_sum(xs) * 1.0 if has_sym(xs) else math.fsum(xs)
def m_dist(p, q):
    if has_sym(list(p)) or has_sym(list(q)): return m_hypot(*[a - b for a, b in zip(p, q)])
    return math.dist(p, q)
def m_fmod(a, b):
    if issym(a) or issym(b):
        q = sym.sym_int(a / b); return a - q * b
    return math.fmod(a, b)

MATH = {"sqrt": m_sqrt, "sin": m_sin, "cos": m_cos, "tan": m_tan, "acos": m_acos, "asin": m_asin, "atan2": m_atan2,
        "atan": m_atan, "radians": m_radians, "degrees": m_degrees, "hypot": m_hypot, "floor": m_floor,
        "ceil": m_ceil, "fabs": m_fabs, "copysign": m_copysign, "isclose": m_isclose, "isnan": m_isnan,
        "isinf": m_isinf, "isfinite": m_isfinite, "pow": m_pow, "fsum": m_fsum, "dist": m_dist, "fmod": m_fmod,
        "exp": m_exp, "cosh": m_cosh, "sinh": m_sinh}
class MathShim(types.ModuleType):
    def __getattr__(self, k):
        return getattr(math, k)
math_shim = MathShim("math")
for k, v in MATH.items(): setattr(math_shim, k, v)
_ORIG = {id(getattr(math, k)): getattr(math, k) for k in MATH}
MATH_BY_ORIG = {id(getattr(math, k)): v for k, v in MATH.items()}

# ---- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.float)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.float) or c is b_float
    def __eq__(cls, o): return o is builtins.float or o is cls_float()
    def __hash__(cls): return hash(builtins.float)
class b_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if issym(x):
            n = T.b2i(x.n)
            if n.sort in ("R", "I"): return wrap(T.toR(n))
            raise OutOfSubset("float() of opaque value")
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1: return b_float(x.flat[0])
        return builtins.float(x)
    fromhex = builtins.float.fromhex
def cls_float(): return b_float
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.int)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.int) or c is b_int
    def __eq__(cls, o): return o is builtins.int or o is b_int
    def __hash__(cls): return hash(builtins.int)
class b_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if issym(x): return sym.sym_int(x)
        return builtins.int(x, *a)
class _BoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.bool)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.bool) or c is b_bool
    def __eq__(cls, o): return o is builtins.bool or o is b_bool
    def __hash__(cls): return hash(builtins.bool)
class b_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool): return x
        if isinstance(x, (SymReal, SymInt)): return wrap(T.not_(T.eq(x.n, T.const(0))))
        return builtins.bool(x)
def b_round(x, nd=None):
    if issym(x): return sym.sym_round(x, nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)
def _mm(orig, f):
    def g(*a, **k):
        if k: 
            return orig(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if len(xs) and any(issym(x) for x in xs): return f(*xs)
        return orig(xs) if len(a) == 1 else orig(*a)
    return g
b_min = _mm(builtins.min, sym.sym_min); b_max = _mm(builtins.max, sym.sym_max)
def b_sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r
def b_range(*a):
    if any(issym(x) for x in a):
        return SymRange(*a)
    return builtins.range(*a)
class SymRange:
    """range with symbolic bounds: iterated by case-splitting on the trip count (bounded unless a loop contract cuts it)"""
    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if issym(self.step): self.step = sym.CUR.concretise(self.step.n)
        if self.step == 0: raise ValueError("range() arg 3 must not be zero")
    def __iter__(self):
        i = self.start
        k = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            k += 1
            if k > 40: raise OutOfSubset("symbolic range: too many iterations")
    def __len__(self): raise OutOfSubset("len of symbolic range")
def b_abs(x): return builtins.abs(x)
def b_isinstance(x, c): return builtins.isinstance(x, c)
def b_len(x):
    f = getattr(type(x), "__symlen__", None)
    if f is not None: return f(x)
    return builtins.len(x)
def b_type(*a):
    if len(a) == 1 and issym(a[0]): return a[0].__class__
    return builtins.type(*a)
BUILTINS = {"float": b_float, "int": b_int, "round": b_round, "min": b_min, "max": b_max, "sum": b_sum, "range": b_range, "bool": b_bool, "len": b_len}

# ---- numpy
def _obj(a): return np.asarray(a, dtype=object)
def _unobj(a, kw):
    """keep arrays that may later receive symbolic entries as object arrays"""
    return a
def _is_numdt(dt):
    return dt in (None, float, np.float64, np.float32, builtins.float, b_float, int, b_int, np.int64) or dt == "float" or dt == "float64"
def n_array(x, dtype=None, **k):
    if isinstance(x, SymBase): return wrap_scalar(x)
    if _is_numdt(dtype):
        if dtype is None:
            try:
                probe = np.array(x, dtype=object)
            except Exception: return np.array(x, **k)
            if probe.size and all(isinstance(e, (builtins.int, builtins.float, np.number, SymBase)) and not isinstance(e, (builtins.bool, np.bool_)) for e in probe.flat):
                return _lazy(np.array(x, dtype=object))
            return np.array(x, **k)
        return _floats(np.array(x, dtype=object))
    return np.array(x, dtype=dtype, **k)
def _floats(a):
    for i in np.ndindex(*a.shape):
        e = a[i]
        if issym(e): a[i] = wrap(T.toR(T.b2i(e.n)))
        else: a[i] = builtins.float(e)
    return a
def wrap_scalar(x):
    a = np.empty((), dtype=object); a[()] = x; return a
def n_asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and _is_numdt(dtype): return x
    return n_array(x, dtype, **k)
def _objz(a): return a.astype(object)
def n_zeros(shape, dtype=None, **k): return _objz(np.zeros(shape)) if _is_numdt(dtype) else np.zeros(shape, dtype, **k)
def n_ones(shape, dtype=None, **k): return _objz(np.ones(shape)) if _is_numdt(dtype) else np.ones(shape, dtype, **k)
def n_eye(n, dtype=None, **k): return _objz(np.eye(n)) if _is_numdt(dtype) else np.eye(n, dtype=dtype, **k)
def n_identity(n, dtype=None): return n_eye(n)
def n_empty(shape, dtype=None, **k): return n_zeros(shape)
def _ew(f):
    def g(x, *a, **k):
        if issym(x): return f(x)
        if isinstance(x, (list, tuple)): x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            if x.ndim == 0: return f(x.item())
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape): r[i] = f(x[i])
            return r
        return f(x)
    return g
def _c(x): return builtins.float(x) if isinstance(x, (np.floating, np.integer)) else x
n_sqrt = _ew(lambda x: m_sqrt(_c(x))); n_sin = _ew(lambda x: m_sin(_c(x))); n_cos = _ew(lambda x: m_cos(_c(x)))
n_tan = _ew(lambda x: m_tan(_c(x)))
def _np_acos(x):
    x = _c(x)
    return wrap(sym.acos_node(R(x), nan_ok=True)) if issym(x) else (math.acos(x) if -1 <= x <= 1 else math.nan)
n_arccos = _ew(_np_acos); n_arcsin = _ew(lambda x: m_asin(_c(x)))
n_radians = _ew(lambda x: m_radians(_c(x))); n_degrees = _ew(lambda x: m_degrees(_c(x)))
n_abs = _ew(lambda x: builtins.abs(x))
n_floor = _ew(lambda x: m_floor(x) * 1.0)
n_isnan = _ew(lambda x: m_isnan(x)); n_isfinite = _ew(lambda x: m_isfinite(x))
def n_arctan2(y, x): return m_atan2(_c(y), _c(x))
def _pair(a, b):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
    return a, b
def n_dot(a, b):
    a, b = _pair(a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape: raise ValueError("shapes not aligned")
        r = a[0] * b[0]
        for i in builtins.range(1, len(a)): r = r + a[i] * b[i]
        return r
    return a @ b
def n_cross(a, b, **k):
    a, b = _pair(a, b)
    if a.shape != (3,) or b.shape != (3,): return np.cross(a, b, **k)
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)
def n_norm(a, ord=None, axis=None, **k):
    if ord is not None or axis is not None or k:
        if has_sym(a): raise OutOfSubset("np.linalg.norm options")
        return np.linalg.norm(np.asarray(a, dtype=builtins.float), ord, axis, **k)
    a = np.asarray(a, dtype=object)
    t = 0
    for e in a.flat: t = t + e * e
    return m_sqrt(_c(t)) if not issym(t) else wrap(sym.sqrt_node(R(t), check=False))
def n_det(a):
    a = np.asarray(a, dtype=object); n = a.shape[0]
    if n == 1: return a[0, 0]
    if n == 2: return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0
    for j in builtins.range(n):
        mi = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * n_det(mi)
        r = r + t if j % 2 == 0 else r - t
    return r
def n_inv(a):
    a = np.asarray(a, dtype=object); n = a.shape[0]
    if not has_sym(a): return np.linalg.inv(a.astype(builtins.float)).astype(object)
    d = n_det(a)
    if d == 0: raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    for i in builtins.range(n):
        for j in builtins.range(n):
            mi = np.delete(np.delete(a, j, 0), i, 1)
            c = n_det(mi) if n > 1 else 1.0
            r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return r
def n_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a = np.asarray(a, dtype=object); b = np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    c = T.TRUE
    for i in np.ndindex(*a.shape):
        x, y = R(a[i]), R(b[i])
        c = T.and_(c, T.le(T.absn(T.sub(x, y)), T.add(R(atol), T.mul(R(rtol), T.absn(y)))))
    return wrap(c)
def n_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if isinstance(a, np.ndarray) and a.ndim: return _ew(lambda e: n_allclose(e, b, rtol, atol))(a)
    return n_allclose(a, b, rtol, atol)
def n_clip(x, lo, hi, **k):
    return _ew(lambda e: sym.sym_max(sym.sym_min(e, hi), lo) if (issym(e) or issym(lo) or issym(hi)) else builtins.min(builtins.max(e, lo), hi))(x)
def n_minimum(a, b): return sym.sym_min(a, b) if not isinstance(a, np.ndarray) else _ew2(sym.sym_min)(a, b)
def n_maximum(a, b): return sym.sym_max(a, b) if not isinstance(a, np.ndarray) else _ew2(sym.sym_max)(a, b)
def _ew2(f):
    def g(a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape): r[i] = f(a[i], b[i])
        return r
    return g
def n_sum(a, axis=None, **k):
    a = np.asarray(a, dtype=object)
    if axis is None:
        t = 0
        for e in a.flat: t = t + e
        return t
    return np.sum(a, axis=axis, **k)
def n_mean(a, axis=None, **k):
    a = np.asarray(a, dtype=object)
    if axis is None: return n_sum(a) / a.size
    return n_sum(a, axis) / a.shape[axis]
def _red(f):
    def g(a, axis=None, **k):
        a = np.asarray(a, dtype=object)
        if axis is None: return f(*list(a.flat))
        m = np.moveaxis(a, axis, 0)
        r = np.empty(m.shape[1:], dtype=object)
        for i in np.ndindex(*r.shape): r[i] = f(*[m[(j,) + i] for j in builtins.range(m.shape[0])])
        return r
    return g
n_min = _red(sym.sym_min); n_max = _red(sym.sym_max)
LAZY = False                      # option of a contract: the min and max methods of arrays build one term instead of forking
class LazyArray(np.ndarray):
    def min(self, axis=None, **k): return n_min(self.view(np.ndarray), axis)
    def max(self, axis=None, **k): return n_max(self.view(np.ndarray), axis)
def _lazy(a): return a.view(LazyArray) if LAZY else a
def n_all(a, *r, **k):
    if isinstance(a, SymBase): return a
    if isinstance(a, np.ndarray) and a.dtype == object:
        c = T.TRUE
        for e in a.flat: c = T.and_(c, node(e))
        return wrap(c)
    return np.all(a, *r, **k)
def n_any(a, *r, **k):
    if isinstance(a, SymBase): return a
    if isinstance(a, np.ndarray) and a.dtype == object:
        c = T.FALSE
        for e in a.flat: c = T.or_(c, node(e))
        return wrap(c)
    return np.any(a, *r, **k)
def n_sign(x):
    return _ew(lambda e: wrap(T.ite(T.lt(R(e), T.ZERO), T.const(-1, "R") if False else T.neg(T.ONE), T.ite(T.lt(T.ZERO, R(e)), T.ONE, T.ZERO))))(x)
def n_float64(x=0.0): return b_float(x)
class LinalgShim(types.ModuleType):
    def __getattr__(self, k): return getattr(np.linalg, k)
linalg_shim = LinalgShim("numpy.linalg")
linalg_shim.norm = n_norm; linalg_shim.inv = n_inv; linalg_shim.det = n_det
class MpShim(types.ModuleType):
    """mpmath on symbolic values is real arithmetic"""
    def __getattr__(self, k):
        import mpmath
        return getattr(mpmath, k)
mp_shim = MpShim("mpmath")
def _mp(x): return builtins.float(x) if not issym(x) else x
mp_shim.mpf = lambda x: x if issym(x) else builtins.float(x)
mp_shim.sqrt = lambda x: m_sqrt(_mp(x)); mp_shim.fabs = lambda x: builtins.abs(_mp(x))
mp_shim.sin = lambda x: m_sin(_mp(x)); mp_shim.cos = lambda x: m_cos(_mp(x)); mp_shim.atan2 = lambda y, x: m_atan2(_mp(y), _mp(x))
class NpShim(types.ModuleType):
    def __getattr__(self, k): return getattr(np, k)
np_shim = NpShim("numpy")
NP = dict(array=n_array, asarray=n_asarray, zeros=n_zeros, ones=n_ones, eye=n_eye, identity=n_identity, empty=n_empty,
          sqrt=n_sqrt, sin=n_sin, cos=n_cos, tan=n_tan, arccos=n_arccos, arcsin=n_arcsin, arctan2=n_arctan2,
          radians=n_radians, deg2rad=n_radians, degrees=n_degrees, rad2deg=n_degrees, abs=n_abs, absolute=n_abs,
          floor=n_floor, isnan=n_isnan, isfinite=n_isfinite, dot=n_dot, cross=n_cross, allclose=n_allclose,
          isclose=n_isclose, clip=n_clip, minimum=n_minimum, maximum=n_maximum, sum=n_sum, mean=n_mean, min=n_min,
          max=n_max, amin=n_min, amax=n_max, all=n_all, any=n_any, sign=n_sign, linalg=linalg_shim,
          float64=np.float64)
for k, v in NP.items(): setattr(np_shim, k, v)

# ---- injection
_SCANNED = set()
def preload(prefixes=("yapcad",)):
    """import what functions of the loaded modules import when they run, so that it is executed symbolically from the first path on"""
    import ast, importlib, importlib.util
    while True:
        new = [n for n, m in list(sys.modules.items()) if m is not None and n not in _SCANNED and any(n == p or n.startswith(p + ".") for p in prefixes)]
        if not new: return
        for n in new:
            _SCANNED.add(n); f = getattr(sys.modules[n], "__file__", None)
            if not f or not f.endswith(".py"): continue
            try: tree = ast.parse(open(f, encoding="utf-8").read())
            except (OSError, SyntaxError): continue
            pkg = n if f.endswith("__init__.py") else n.rpartition(".")[0]; want = set()
            for d in ast.walk(tree):
                if not isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
                for s in ast.walk(d):
                    if isinstance(s, ast.Import): want |= {a.name for a in s.names}
                    elif isinstance(s, ast.ImportFrom):
                        b = s.module or ""
                        if s.level:
                            try: b = importlib.util.resolve_name("." * s.level + b, pkg)
                            except ImportError: continue
                        want.add(b); want |= {b + "." + a.name for a in s.names}
            for w in sorted(want):
                if w in sys.modules or not any(w == p or w.startswith(p + ".") for p in prefixes): continue
                try:
                    if importlib.util.find_spec(w) is not None: importlib.import_module(w)
                except (Exception, SystemExit): pass
class Patched:
    """context manager: shims visible in every loaded yapcad module, contract stubs installed"""
    cur = None
    def __init__(self, prefixes=("yapcad",), stubs=None):
        self.prefixes = prefixes; self.undo = []; self.stubs = stubs or {}
    def setg(self, d, k, v):
        self.undo.append((d, k, d.get(k, _MISSING))); d[k] = v
    def __enter__(self):
        preload(self.prefixes); self.known = set(sys.modules)
        for name, mod in list(sys.modules.items()):
            if mod is None or not any(name == p or name.startswith(p + ".") for p in self.prefixes): continue
            d = mod.__dict__
            for k, v in list(d.items()):
                if v is math: self.setg(d, k, math_shim)
                elif v is np: self.setg(d, k, np_shim)
                elif isinstance(v, types.ModuleType) and v.__name__ == 'mpmath': self.setg(d, k, mp_shim)
                elif isinstance(v, types.BuiltinFunctionType) and id(v) in MATH_BY_ORIG: self.setg(d, k, MATH_BY_ORIG[id(v)])
                elif id(v) in self.stubs: self.setg(d, k, self.stubs[id(v)])
            for k, v in BUILTINS.items():
                if k not in d: self.setg(d, k, v)
        self.setg(sys.modules, "math", math_shim)
        self.setg(sys.modules, "numpy", np_shim)
        Patched.cur = self
        return self
    def __exit__(self, *e):
        Patched.cur = None
        for d, k, old in reversed(self.undo):
            if old is _MISSING: d.pop(k, None)
            else: d[k] = old
        self.undo = []
        # modules first imported while patched picked up the shims: give them the originals
        back = {id(math_shim): math, id(np_shim): np}
        for o, v in MATH_BY_ORIG.items():
            if o in _ORIG: back[id(v)] = _ORIG[o]
        for name, mod in list(sys.modules.items()):
            if mod is None or name in self.known or not any(name == p or name.startswith(p + ".") for p in self.prefixes): continue
            for k, v in list(mod.__dict__.items()):
                if id(v) in back: mod.__dict__[k] = back[id(v)]
_MISSING = object()
