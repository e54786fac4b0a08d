"""Canonical rational-function normal form of real terms, modulo square rules  atom^2 -> tail.

Square rules have pairwise coprime leading monomials (pure powers of distinct atoms) and tails
built only from earlier atoms, so they form a Groebner basis: an identity that follows from the
rules has normal form 0 (decision procedure for equations, used before any SMT call)."""
from fractions import Fraction
from . import term as T

MAXTERMS = 6000
class Blowup(Exception): pass

# atom ids are term node ids (vars, uf, ite, abs, opaque terms)
RULES = {}          # atom id -> Poly dict (tail of atom^2)
def set_rule(node, tail_poly): RULES[node.id] = tail_poly

# monomial: tuple of (atomid, exp) sorted; poly: dict mono->Fraction
UNIT = ()
def pconst(c): return {UNIT: c} if c != 0 else {}
def patom(aid): return {((aid, 1),): Fraction(1)}

def padd(a, b, sign=1):
    if len(a) < len(b) and sign == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sign * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r

def pscale(a, c):
    if c == 0: return {}
    return {m: v * c for m, v in a.items()}

_red_cache = {}
def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0; out = []
    while i < len(m1) and j < len(m2):
        a, b = m1[i], m2[j]
        if a[0] == b[0]: out.append((a[0], a[1] + b[1])); i += 1; j += 1
        elif a[0] < b[0]: out.append(a); i += 1
        else: out.append(b); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)

def reducible(m):
    for a, e in m:
        if e >= 2 and a in RULES: return a
    return None

def preduce(p):
    """Apply square rules until no ruled atom has exponent >= 2."""
    work = None
    for m in p:
        if reducible(m) is not None: work = True; break
    if not work: return p
    out = {}
    stack = list(p.items())
    n = 0
    while stack:
        m, c = stack.pop()
        n += 1
        if n > 400000: raise Blowup()
        # reduce latest-created ruled atom first
        best = None
        for a, e in m:
            if e >= 2 and a in RULES and (best is None or a > best[0]): best = (a, e)
        if best is None:
            v = out.get(m, 0) + c
            if v == 0: out.pop(m, None)
            else: out[m] = v
            if len(out) > MAXTERMS: raise Blowup()
            continue
        a, e = best
        rest = tuple((x, (y if x != a else y - 2)) for x, y in m if not (x == a and y == 2))
        for tm, tc in RULES[a].items():
            stack.append((mono_mul(rest, tm), c * tc))
    return out

def pmul(a, b):
    if not a or not b: return {}
    if len(a) * len(b) > 60000: raise Blowup()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0: r.pop(m, None)
            else: r[m] = v
    if len(r) > MAXTERMS * 4: raise Blowup()
    return preduce(r)

def ppow(a, n):
    r = pconst(Fraction(1))
    for _ in range(n): r = pmul(r, a)
    return r

def pkey(p): return tuple(sorted(p.items()))

# denominators: tuple of (key-id, exp) over a table of monic polynomials
_den = {}; _denp = []
def den_id(p):
    k = pkey(p)
    i = _den.get(k)
    if i is None: i = len(_denp); _den[k] = i; _denp.append(p)
    return i

def lead_norm(p):
    """scale so that the coefficient of the largest monomial is 1; return (coef, monic)"""
    m = max(p)
    c = p[m]
    if c == 1: return Fraction(1), p
    return c, pscale(p, 1 / c)

class Rat:
    __slots__ = ("num", "den", "_key")
    def __init__(self, num, den=()):
        self.num = num; self.den = den if num else (); self._key = None
    def key(self):
        if self._key is None: self._key = (pkey(self.num), self.den)
        return self._key
    def is_const(self): return not self.den and (not self.num or (len(self.num) == 1 and UNIT in self.num))
    def cval(self): return self.num.get(UNIT, Fraction(0))
    def denpoly(self):
        p = pconst(Fraction(1))
        for i, e in self.den: p = pmul(p, ppow(_denp[i], e))
        return p

def _dmerge(d1, d2):
    """merge denominators; r^2 of a ruled atom r becomes its tail (constant tails handled by caller
    through DCONST)"""
    r = dict(d1)
    for i, e in d2: r[i] = r.get(i, 0) + e
    again = True
    while again:
        again = False
        for i, e in list(r.items()):
            f = _denp[i]
            if e >= 2 and len(f) == 1:
                (m, c), = f.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in RULES:
                    t = RULES[m[0][0]]
                    if not t: continue
                    c2, monic = lead_norm(t)
                    if c2 != 1: continue
                    if e == 2: del r[i]
                    else: r[i] = e - 2
                    if monic != {UNIT: Fraction(1)}:
                        j = den_id(monic); r[j] = r.get(j, 0) + 1
                    again = True
                    break
    return tuple(sorted(r.items()))

def _cancel(num, den):
    """cheap cancellation: den factors that equal num, single-atom den factors dividing all monomials"""
    if not num or not den: return num, (() if not num else den)
    out = []
    for i, e in den:
        f = _denp[i]
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                k = e
                for mm in num:
                    k = min(k, dict(mm).get(a, 0))
                    if k == 0: break
                if k:
                    num = {tuple((x, y - k if x == a else y) for x, y in mm if not (x == a and y == k)): cc for mm, cc in num.items()}
                    e -= k
        elif e and len(num) >= 1:
            while e:
                q = exact_div(num, f)
                if q is None: break
                num = q; e -= 1
        if e: out.append((i, e))
    return num, tuple(out)

def exact_div(p, f):
    """polynomial exact division if cheap (lex order), else None"""
    if len(f) > 12 or len(p) > 300 or len(p) < 1: return None
    if len(p) < len(f) and len(f) > 1 and len(p) == 1: return None
    lf = _lexmax(f); cf = f[lf]; q = {}
    r = dict(p); steps = 0
    while r:
        steps += 1
        if steps > 60: return None
        lm = _lexmax(r)
        d = mono_div(lm, lf)
        if d is None: return None
        c = r[lm] / cf
        q[d] = q.get(d, 0) + c
        for m, v in f.items():
            mm = mono_mul(m, d)
            x = r.get(mm, 0) - c * v
            if x == 0: r.pop(mm, None)
            else: r[mm] = x
    return q

def divmod_poly(p, f, limit=400):
    """quotient and remainder of p by f: no monomial of the remainder is divisible by the leading monomial of f"""
    lf = _lexmax(f); cf = f[lf]; q = {}; rem = {}; r = dict(p); n = 0
    while r:
        n += 1
        if n > limit: raise Blowup()
        lm = _lexmax(r); d = mono_div(lm, lf)
        if d is None: rem[lm] = r.pop(lm); continue
        c = r[lm] / cf; q[d] = q.get(d, 0) + c
        for m, v in f.items():
            mm = mono_mul(m, d); x = r.get(mm, 0) - c * v
            if x == 0: r.pop(mm, None)
            else: r[mm] = x
    return q, rem

def _lexkey(m): return tuple((-a, e) for a, e in m)
def _lexmax(p):
    # graded lex
    return max(p, key=lambda m: (sum(e for _, e in m), _lexkey(m)))
def mono_div(a, b):
    d = dict(a)
    for x, e in b:
        if d.get(x, 0) < e: return None
        d[x] -= e
    return tuple(sorted((x, e) for x, e in d.items() if e))

def radd(a, b, sign=1):
    if a.den == b.den:
        n = padd(a.num, b.num, sign)
        if a.den: return Rat(*_cancel(n, a.den))
        return Rat(n, ())
    da, db = dict(a.den), dict(b.den)
    L = {i: max(da.get(i, 0), db.get(i, 0)) for i in set(da) | set(db)}
    na, nb = a.num, b.num
    for i, e in L.items():
        ea = e - da.get(i, 0); eb = e - db.get(i, 0)
        if ea: na = pmul(na, ppow(_denp[i], ea))
        if eb: nb = pmul(nb, ppow(_denp[i], eb))
    return Rat(*_cancel(padd(na, nb, sign), tuple(sorted(L.items()))))

def rmul(a, b):
    if not a.num or not b.num: return Rat({})
    na, d1 = a.num, b.den
    if b.den or a.den:
        na, d1 = _cancel(a.num, b.den)
        nb, d2 = _cancel(b.num, a.den)
        return Rat(*_cancel(pmul(na, nb), _dmerge(d1, d2)))
    return Rat(pmul(a.num, b.num), ())

def rinv(a):
    if not a.num: raise ZeroDivisionError
    num = pconst(Fraction(1))
    for i, e in a.den: num = pmul(num, ppow(_denp[i], e))
    c, monic = lead_norm(a.num)
    num = pscale(num, 1 / c)
    if len(monic) == 1:
        (m, _), = monic.items()
        den = ()
        for at, e in m: den = _dmerge(den, ((den_id(patom(at)), e),))
        # rationalise square-rooted atoms: 1/r = r / tail  is NOT applied (keeps forms small)
    elif monic == {UNIT: Fraction(1)}: den = ()
    else:
        # common monomial content
        common = None
        for m in monic:
            d = dict(m)
            if common is None: common = d
            else: common = {x: min(e, d.get(x, 0)) for x, e in common.items() if d.get(x, 0)}
            if not common: break
        den = ()
        if common:
            cm = tuple(sorted(common.items()))
            monic = {mono_div(m, cm): v for m, v in monic.items()}
            for at, e in cm: den = _dmerge(den, ((den_id(patom(at)), e),))
        den = _dmerge(den, ((den_id(monic), 1),))
    return Rat(*_cancel(num, den))

def nf(n):
    """normal form of a real/int term"""
    if n.nf is not None: return n.nf
    st = [n]
    while st:
        x = st[-1]
        if x.nf is not None: st.pop(); continue
        if x.op in ("add", "mul", "div", "toR"):
            todo = [a for a in x.args if a.nf is None]
            if todo: st.extend(todo); continue
            if x.op == "add":
                r = x.args[0].nf
                for a in x.args[1:]: r = radd(r, a.nf)
            elif x.op == "mul":
                r = x.args[0].nf
                for a in x.args[1:]: r = rmul(r, a.nf)
            elif x.op == "div": r = rmul(x.args[0].nf, rinv(x.args[1].nf))
            else: r = x.args[0].nf
            x.nf = r
        elif x.op == "c": x.nf = Rat(pconst(T.cval(x)))
        else: x.nf = Rat(patom(x.id))
        st.pop()
    return n.nf

def clear_nf():
    for x in T._nodes: x.nf = None

def to_term(r):
    """term from a normal form"""
    def pt(p):
        if not p: return T.ZERO
        ts = []
        for m, c in sorted(p.items()):
            fs = [T.const(c, "R")]
            for a, e in m:
                fs += [T.toR(T._nodes[a])] * e
            ts.append(fs[0] if len(fs) == 1 else T.mul(*fs))
        return ts[0] if len(ts) == 1 else T.add(*ts)
    t = pt(r.num)
    if r.den:
        ds = []
        for i, e in r.den: ds += [pt(_denp[i])] * e
        t = T.div(t, ds[0] if len(ds) == 1 else T.mul(*ds))
    return t

def is_zero(n):
    try: return not nf(n).num
    except (Blowup, ZeroDivisionError): return False
