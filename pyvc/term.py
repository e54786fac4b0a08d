"""Hash-consed first-order terms over mathematical reals / integers / booleans / opaque sorts.

These are what the verified code computes with.  No z3 object is built until an
obligation is discharged.  Floats read from the program are idealised (see `ideal`)."""
from fractions import Fraction
import math

class N:
    __slots__ = ("op", "args", "sort", "id", "z", "nf", "vars_")
    def __init__(self, op, args, sort, id):
        self.op = op; self.args = args; self.sort = sort; self.id = id
        self.z = None; self.nf = None; self.vars_ = None
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_tab = {}
_nodes = []

def mk(op, args, sort):
    k = (op, sort, tuple(a.id if isinstance(a, N) else (type(a).__name__, a) for a in args))
    n = _tab.get(k)
    if n is None:
        n = N(op, tuple(args), sort, len(_nodes)); _tab[k] = n; _nodes.append(n)
    return n

TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")

def const(v, sort=None):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, int): return mk("c", (Fraction(v),), sort or "I")
    if isinstance(v, Fraction): return mk("c", (v,), sort or "R")
    raise TypeError(v)

def isc(n): return n.op == "c"
def cval(n): return n.args[0]
def var(name, sort): return mk("v", (name,), sort)

PI = var("PI!", "R")
ZERO = const(Fraction(0)); ONE = const(Fraction(1)); IZERO = const(0); IONE = const(1)

_ideal = {}
def ideal(f):
    """Map a float to the real number it stands for: a small rational multiple of pi, a short
    decimal, or a fraction with a small denominator; otherwise its exact binary value."""
    n = _ideal.get(f)
    if n is not None: return n
    if f != f or f in (math.inf, -math.inf):
        raise OutOfSubset("non-finite float constant")
    ex = Fraction(f)
    if ex == 0: n = ZERO
    elif ex.denominator <= 4096: n = const(ex)
    else:
        r = repr(f)
        digits = len(r.replace("-", "").replace(".", "").split("e")[0].strip("0"))
        if digits <= 12: n = const(Fraction(r))
        else:
            q = Fraction(f / math.pi).limit_denominator(4000)
            ok = q != 0 and abs(q.numerator) <= 4000 and abs(float(q) * math.pi - f) <= 4e-16 * abs(f)
            if ok: n = mul(const(q), PI)
            else:
                # inverse multiples of pi (e.g. 180/pi)
                q2 = Fraction(f * math.pi).limit_denominator(4000)
                if q2 != 0 and abs(q2.numerator) <= 4000 and abs(float(q2) / math.pi - f) <= 4e-16 * abs(f):
                    n = div(const(q2), PI)
                else:
                    q3 = ex.limit_denominator(20000)
                    if abs(q3 - ex) <= abs(ex) * Fraction(1, 2**52) and q3 != 0: n = const(q3)
                    else: n = const(ex)
    _ideal[f] = n
    return n

class OutOfSubset(BaseException):
    """The code did something the symbolic domain does not model."""

def toR(a):
    if a.sort == "R": return a
    if a.sort == "I":
        if isc(a): return const(cval(a), "R")
        return mk("toR", (a,), "R")
    if a.sort == "B":
        if isc(a): return ONE if cval(a) else ZERO
        return ite(a, ONE, ZERO)
    raise OutOfSubset("numeric use of sort " + a.sort)

def b2i(a):
    if a.sort == "B":
        if isc(a): return IONE if cval(a) else IZERO
        return ite(a, IONE, IZERO)
    return a

def unify(a, b):
    a = b2i(a); b = b2i(b)
    if a.sort == b.sort: return a, b
    if {a.sort, b.sort} == {"I", "R"}: return toR(a), toR(b)
    raise OutOfSubset("sort mismatch %s %s" % (a.sort, b.sort))

def add(*xs):
    if len(xs) == 2: xs = list(unify(*xs))
    s = xs[0].sort
    c = Fraction(0); out = []
    for x in xs:
        if x.op == "add":
            for y in x.args:
                if isc(y): c += cval(y)
                else: out.append(y)
        elif isc(x): c += cval(x)
        else: out.append(x)
    if not out: return const(c, s)
    if c != 0: out.append(const(c, s))
    if len(out) == 1: return out[0]
    if len(out) == 2 and neg_of(out[0]) is out[1]: return const(Fraction(0), s)
    return mk("add", out, s)

def neg_of(x):
    if isc(x): return const(-cval(x), x.sort)
    if x.op == "mul" and isc(x.args[0]):
        c = -cval(x.args[0])
        rest = x.args[1:]
        if c == 1: return rest[0] if len(rest) == 1 else mk("mul", rest, x.sort)
        return mk("mul", (const(c, x.sort),) + rest, x.sort)
    return mk("mul", (const(Fraction(-1), x.sort), x) if x.op != "mul" else (const(Fraction(-1), x.sort),) + x.args, x.sort)

def neg(x):
    x = b2i(x)
    return neg_of(x)

def sub(a, b):
    a, b = unify(a, b)
    if a is b: return const(Fraction(0), a.sort)
    return add(a, neg_of(b))

def mul(*xs):
    if len(xs) == 2: xs = list(unify(*xs))
    s = xs[0].sort
    c = Fraction(1); out = []
    for x in xs:
        if x.op == "mul":
            for y in x.args:
                if isc(y): c *= cval(y)
                else: out.append(y)
        elif isc(x): c *= cval(x)
        else: out.append(x)
    if c == 0 or not out: return const(c, s)
    out.sort(key=lambda n: n.id)
    if c != 1: out.insert(0, const(c, s))
    if len(out) == 1: return out[0]
    return mk("mul", out, s)

def div(a, b):
    a = toR(b2i(a)); b = toR(b2i(b))
    if isc(b):
        if cval(b) == 0: raise ZeroDivisionError("division by zero")
        return mul(const(1 / cval(b), "R"), a)
    if isc(a) and cval(a) == 0: return ZERO
    if a is b: return ONE
    return mk("div", (a, b), "R")

def pow_int(a, n):
    r = const(Fraction(1), a.sort)
    for _ in range(n): r = mul(r, a)
    return r

def absn(a):
    a = b2i(a)
    if isc(a): return const(abs(cval(a)), a.sort)
    if a.op == "abs": return a
    if a.op == "mul" and isc(a.args[0]):
        c = cval(a.args[0]); rest = a.args[1:]
        body = rest[0] if len(rest) == 1 else mk("mul", rest, a.sort)
        if abs(c) != 1: return mul(const(abs(c), a.sort), absn(body))
        return absn(body) if c < 0 else mk("abs", (a,), a.sort)
    return mk("abs", (a,), a.sort)

def ite(c, a, b):
    if isc(c): return a if cval(c) else b
    if a is b: return a
    if a.sort != b.sort: a, b = unify(a, b)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), a.sort)

def not_(a):
    if isc(a): return FALSE if cval(a) else TRUE
    if a.op == "not": return a.args[0]
    if a.op == "le": return mk("lt", (a.args[1], a.args[0]), "B")
    if a.op == "lt": return mk("le", (a.args[1], a.args[0]), "B")
    if a.op == "and": return or_(*[not_(x) for x in a.args])
    if a.op == "or": return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")

def and_(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not cval(x): return FALSE
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    s = set(out)
    for x in out:
        if not_leaf(x) in s: return FALSE
    return mk("and", out, "B")

def not_leaf(x):
    if x.op in ("and", "or"): return None
    return not_(x)

def or_(*xs):
    out = []
    for x in xs:
        if isc(x):
            if cval(x): return TRUE
            continue
        if x.op == "or":
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    s = set(out)
    for x in out:
        if not_leaf(x) in s: return TRUE
    return mk("or", out, "B")

def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if isc(a): return b if cval(a) else not_(b)
    if isc(b): return a if cval(b) else not_(a)
    return and_(implies(a, b), implies(b, a))

def le(a, b):
    a, b = unify(a, b)
    if a is b: return TRUE
    if isc(a) and isc(b): return TRUE if cval(a) <= cval(b) else FALSE
    if a.op == "abs":
        x = a.args[0]
        return and_(le(x, b), le(neg_of(b), x))
    if b.op == "abs":
        if isc(a) and cval(a) <= 0: return TRUE
        x = b.args[0]
        return or_(le(a, x), le(x, neg_of(a)))
    d = sub(a, b)
    if isc(d): return TRUE if cval(d) <= 0 else FALSE
    return mk("le", (a, b), "B")

def lt(a, b):
    a, b = unify(a, b)
    if a is b: return FALSE
    if isc(a) and isc(b): return TRUE if cval(a) < cval(b) else FALSE
    if a.op == "abs":
        x = a.args[0]
        return and_(lt(x, b), lt(neg_of(b), x))
    if b.op == "abs":
        if isc(a) and cval(a) < 0: return TRUE
        x = b.args[0]
        return or_(lt(a, x), lt(x, neg_of(a)))
    d = sub(a, b)
    if isc(d): return TRUE if cval(d) < 0 else FALSE
    return mk("lt", (a, b), "B")

def eq(a, b):
    if a.sort == "B" and b.sort == "B": return iff(a, b)
    if a.sort.startswith("U") or b.sort.startswith("U"):
        if a.sort != b.sort: return FALSE
        if a is b: return TRUE
        if isc(a) and isc(b): return FALSE
        if a.id > b.id: a, b = b, a
        return mk("eq", (a, b), "B")
    a, b = unify(a, b)
    if a is b: return TRUE
    if isc(a) and isc(b): return TRUE if cval(a) == cval(b) else FALSE
    d = sub(a, b)
    if isc(d): return TRUE if cval(d) == 0 else FALSE
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), "B")

def uf(name, args, sort):
    return mk("uf", (name,) + tuple(args), sort)

def floordiv(a, b):
    a, b = unify(a, b)
    if a.sort != "I": raise OutOfSubset("real floor division")
    if isc(a) and isc(b):
        if cval(b) == 0: raise ZeroDivisionError
        return const(int(cval(a)) // int(cval(b)))
    return mk("idiv", (a, b), "I")

def imod(a, b):
    a, b = unify(a, b)
    if isc(a) and isc(b):
        if cval(b) == 0: raise ZeroDivisionError
        return const(int(cval(a)) % int(cval(b)))
    return mk("imod", (a, b), "I")

def free_vars(n):
    if n.vars_ is not None: return n.vars_
    # iterative post-order
    st = [n]
    while st:
        x = st[-1]
        if x.vars_ is not None: st.pop(); continue
        if x.op == "v": x.vars_ = frozenset((x,)); st.pop(); continue
        todo = [a for a in x.args if isinstance(a, N) and a.vars_ is None]
        if todo: st.extend(todo); continue
        s = frozenset()
        for a in x.args:
            if isinstance(a, N): s = s | a.vars_
        x.vars_ = s; st.pop()
    return n.vars_

def show(n, d=0):
    if d > 6: return "…"
    o = n.op
    if o == "c": return str(n.args[0])
    if o == "v": return n.args[0]
    a = [show(x, d + 1) if isinstance(x, N) else str(x) for x in n.args]
    sym = {"add": " + ", "mul": "*", "and": " ∧ ", "or": " ∨ "}
    if o in sym: return "(" + sym[o].join(a) + ")"
    if o == "le": return "%s ≤ %s" % tuple(a)
    if o == "lt": return "%s < %s" % tuple(a)
    if o == "eq": return "%s = %s" % tuple(a)
    if o == "div": return "%s/(%s)" % tuple(a)
    if o == "not": return "¬(" + a[0] + ")"
    if o == "toR": return a[0]
    return o + "(" + ", ".join(a) + ")"
