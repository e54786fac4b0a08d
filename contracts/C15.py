import itertools
from pyvc.vc import contract
from contracts.lib import *
TY = "yapcad.dsl.types"; CK = "yapcad.dsl.checker"; SY = "yapcad.dsl.symbols"
CHK = CK + ":TypeChecker."
REL = [TY + ":" + c + ".is_assignable_from" for c in ("Type", "PrimitiveType", "GeometricPrimitiveType", "CompoundCurveType", "ListType", "OptionalTypeWrapper", "UnknownType", "ErrorType")]
# the declared promotions: target -> sources other than itself
PROMO = {"float": {"int"}, "region2d": {"profile2d"}, "point": {"point2d", "point3d"}, "vector": {"vector2d", "vector3d"}, "point2d": {"point"}, "point3d": {"point"}, "vector2d": {"vector"}, "vector3d": {"vector"}}
POLY = ("point", "vector")
def base(t): return sorted(t.BUILTIN_TYPES.items()) + [("none", t.NONE)]
def unres(t): return [("<unknown>", t.UNKNOWN), ("<error>", t.ERROR)]
def none_bad(vc, name, bad): vc.check("%s%s" % (name, "" if not bad else ": " + "; ".join(bad[:3])), not bad)

@contract("C15.base_types", REL[:4] + REL[6:] + [TY + ":resolve_type_name"])
def base_types(vc):
    """over every declared type: a type accepts itself and exactly its declared promotions; the relation is transitive whenever the middle type is not the dimension-polymorphic point or vector; types of unknown or erroneous kind accept and are accepted everywhere; names resolve to the type of that name"""
    t = vc.mod(TY); B = base(t); bad = []
    for (n, a), (m, b) in itertools.product(B, B):
        if bool(a.is_assignable_from(b)) != (n == m or m in PROMO.get(n, ())): bad.append("%s <- %s" % (n, m))
    none_bad(vc, "exactly the declared promotions", bad)
    none_bad(vc, "transitive", ["%s<-%s<-%s" % (n, m, o) for (n, a), (m, b) in itertools.product(B, B) if m not in POLY and a.is_assignable_from(b) for o, c in B if b.is_assignable_from(c) and not a.is_assignable_from(c)])
    none_bad(vc, "unresolved types are accepted and accept", ["%s, %s" % (n, u) for n, a in B + unres(t) for u, b in unres(t) if not (a.is_assignable_from(b) and b.is_assignable_from(a))])
    none_bad(vc, "names", [n for n, a in B[:-1] if a.name != n and n != "none" or t.resolve_type_name(n) is not a]); vc.check("undeclared name", t.resolve_type_name("no such type") is None)

class Rel:
    """an uninterpreted relation on type terms: what the induction hypothesis speaks about"""
    def __init__(self, vc): self.vc, self.d = vc, {}
    def __call__(self, a, b):
        if (a, b) not in self.d: self.d[a, b] = True if a == b else self.vc.bool("R[%s,%s]" % (a, b))
        return self.d[a, b]

def elements(vc, t, n):
    """n arbitrary types: all that is known of them is how they relate, and that is arbitrary"""
    R = Rel(vc)
    def key(x): return x.k if isinstance(x, Any) else ("L", key(x.element_type)) if isinstance(x, t.ListType) else ("O", key(x.inner_type)) if isinstance(x, t.OptionalTypeWrapper) else x.name
    class Any(t.Type):
        def __init__(self, k): object.__setattr__(self, "k", k)
        name = property(lambda s: "t%s" % s.k); tier = property(lambda s: t.TypeTier.PRIMITIVE)
        def __eq__(self, o): return isinstance(o, Any) and o.k == self.k
        def __hash__(self): return hash(self.k)
        def is_assignable_from(self, o): return R(self.k, key(o))
    return [Any(str(i)) for i in range(n)]
def wrap_in(t, kind, e): return e if kind == "plain" else t.make_list_type(e) if kind == "list" else t.make_optional_type(e)

@contract("C15.compound", REL[4:6] + [TY + ":make_list_type", TY + ":make_optional_type"])
def compound(vc):
    """induction step over arbitrary element types: a list accepts exactly the lists whose elements its elements accept, an optional exactly what its inner type accepts (and optionals of it); reflexive; never a list for a plain type"""
    t = vc.mod(TY); a, b = elements(vc, t, 2); L, O = t.make_list_type, t.make_optional_type; ok = lambda x, y: x.is_assignable_from(y)
    vc.check("list", vc.iff(ok(L(a), L(b)), ok(a, b))); vc.check("optional of optional", vc.iff(ok(O(a), O(b)), ok(a, b))); vc.check("optional of plain", vc.iff(ok(O(a), b), ok(a, b)))
    vc.check("optional of list", vc.iff(ok(O(L(a)), L(b)), ok(a, b))); vc.check("nested list", vc.iff(ok(L(L(a)), L(L(b))), ok(a, b)))
    for k in ("list", "optional"): vc.check("reflexive " + k, ok(wrap_in(t, k, a), wrap_in(t, k, a)))
    bad = []
    for n, x in base(t):
        if ok(x, L(a)): bad.append("%s <- list" % n)
        if ok(x, O(a)): bad.append("%s <- optional" % n)
        if ok(L(a), x): bad.append("list <- %s" % n)
    none_bad(vc, "lists and optionals are apart from plain types", bad); vc.check("list of optional", not ok(L(a), O(L(a))))
    for n, f in (("list", L), ("optional", O)):
        vc.check("list of %s" % n, vc.iff(ok(L(a), L(f(b))), ok(a, f(b)))); vc.check("optional of %s" % n, vc.iff(ok(O(a), O(f(b))), ok(a, f(b))))
    vc.check("optional takes list", vc.iff(ok(O(a), L(b)), ok(a, L(b))))
    for n, u in unres(t): vc.check("unresolved", ok(L(a), u) and ok(u, L(a)) and ok(u, O(a)) and vc.iff(ok(O(a), u), ok(a, u)))

@contract("C15.nested", REL + [TY + ":make_list_type", TY + ":make_optional_type"])
def nested(vc):
    """over every declared type and lists and optionals of them, two deep: the relation is the declared one, element by element"""
    t = vc.mod(TY); L, O = t.make_list_type, t.make_optional_type; B = [(("b", n), x) for n, x in base(t)]; one = [((k, n), f(x)) for n, x in B for k, f in (("L", L), ("O", O))]; few = [b for b in one if b[0][1][1] in ("int", "float", "point", "point2d", "profile2d", "region2d", "bool")]; two = [((k, n), f(x)) for n, x in few for k, f in (("L", L), ("O", O))]
    def ref(p, q):
        if p[0] == "O": return ref(p[1], q[1] if q[0] == "O" else q)
        if q[0] == "O": return False
        if p[0] == "L" or q[0] == "L": return p[0] == q[0] and ref(p[1], q[1])
        return p[1] == q[1] or q[1] in PROMO.get(p[1], ())
    none_bad(vc, "declared", ["%s <- %s" % (x, y) for (n, x), (m, y) in itertools.chain(itertools.product(B + one, B + one), itertools.product(two + few, two + few)) if bool(x.is_assignable_from(y)) != ref(n, m)])

@contract("C15.transitive_step", REL[4:6])
def transitive_step(vc):
    """induction step of transitivity: for lists and optionals of arbitrary types, if every smaller triple of types is transitive (and a type that is no optional accepts no optional), so is this one"""
    t = vc.mod(TY); E = elements(vc, t, 3); ks = [vc.choice("kind%d" % i, ["list", "optional", "plain"]) for i in range(3)]; T = [wrap_in(t, k, e) for k, e in zip(ks, E)]
    ok = lambda x, y: x.is_assignable_from(y)
    if ks == ["plain"] * 3: return                # three declared types: C15.base_types
    sub = [[e] + ([x] if x is not e else []) for e, x in zip(E, T)]
    for tr in itertools.product(*sub):
        if list(tr) != T: vc.assume(vc.implies(vc.and_(ok(tr[0], tr[1]), ok(tr[1], tr[2])), ok(tr[0], tr[2])))
    for i in range(3):
        if ks[i] == "plain":                       # a plain type stands for a declared one: C15.compound shows those accept neither lists nor optionals
            for j in range(3):
                if ks[j] != "plain": vc.assume(vc.not_(ok(E[i], T[j])))
    vc.check("transitive", vc.implies(vc.and_(ok(T[0], T[1]), ok(T[1], T[2])), ok(T[0], T[2])))

@contract("C15.common_type", [TY + ":common_type", TY + ":is_numeric"])
def common(vc):
    """the common type, when reported, accepts values of both types; asked in the other order there is one exactly when there was, and the two accept each other; a type has itself in common with itself; for declared types, lists and optionals of them, and arbitrary types"""
    t = vc.mod(TY); B = base(t) + unres(t); a, b = elements(vc, t, 2); bad, un, sy, se = [], [], [], []
    B += [(n, f(x)) for n, x in B for f in (t.make_list_type, t.make_optional_type)]
    for (n, x), (m, y) in itertools.product(B, B):
        c, d = t.common_type(x, y), t.common_type(y, x)
        if c is not None and not (c.is_assignable_from(x) and c.is_assignable_from(y)): bad.append("%s, %s -> %s" % (x, y, c))
        if (c is None) != (d is None): un.append("%s, %s" % (x, y))
        elif c is not None and not (c.is_assignable_from(d) and d.is_assignable_from(c)): sy.append("%s, %s -> %s / %s" % (x, y, c, d))
        if n == m and x == y and c != x: se.append(str(x))
        if c is None and (x.is_assignable_from(y) or y.is_assignable_from(x)): un.append("%s, %s have none" % (x, y))
    none_bad(vc, "accepts both", bad); none_bad(vc, "reported in both orders", un); none_bad(vc, "orders agree", sy); none_bad(vc, "of a type with itself", se)
    k1, k2 = vc.choice("k1", ["plain", "list", "optional"]), vc.choice("k2", ["plain", "list", "optional"]); x, y = wrap_in(t, k1, a), wrap_in(t, k2, b); c, d = t.common_type(x, y), t.common_type(y, x)
    vc.check("arbitrary types: both orders", (c is None) == (d is None))
    if c is not None: vc.check("arbitrary types: accepts both", vc.and_(c.is_assignable_from(x), c.is_assignable_from(y)))
    if c is not None and d is not None: vc.check("arbitrary types: orders agree", vc.and_(c.is_assignable_from(d), d.is_assignable_from(c)))
    for (n, x), (m, y) in [((n, x), (m, y)) for n, x in base(t)[:-1] for m, y in base(t)[:-1] if n[:4] == m[:4] and (n.startswith("point") or n.startswith("vector"))]: vc.check("points and vectors of any dimension have one", t.common_type(x, y) is not None)

# ---------------------------------------------------------------- the checker
class Env:
    """a TypeChecker whose subexpressions have given types (the contract of _check_expression: some type, no diagnostics of its own)"""
    def __init__(self, vc, types):
        m = vc.mod(CK); self.c = m.TypeChecker(max_errors=1000); A = vc.mod("yapcad.dsl.ast"); k = vc.mod("yapcad.dsl.tokens")
        self.sp = None; self.A, self.K = A, k.TokenType; self.E = [A.Identifier(None, "$%d" % i) for i in range(len(types))]; tab = {id(e): x for e, x in zip(self.E, types)}
        orig = self.c._check_expression
        vc.hook(self.c, "_check_expression", lambda e: tab[id(e)] if id(e) in tab else orig(e))
    def errors(self): return [d for d in self.c.diagnostics.diagnostics if d.severity.value == "error"]

def forms(vc):
    """every node kind with operands: (name, number of operands, run it)"""
    A = vc.mod("yapcad.dsl.ast"); K = vc.mod("yapcad.dsl.tokens").TokenType; F = []
    def add(name, n, fn): F.append((name, n, fn))
    S = lambda n: A.SimpleType(None, n)
    for op in ("PLUS", "MINUS", "STAR", "SLASH", "PERCENT", "DOUBLE_SLASH", "DOUBLE_STAR", "LT", "GT", "LE", "GE", "EQ", "NE", "AND", "OR"): add("binary " + op, 2, lambda e, op=op: e.c._check_binary_op(A.BinaryOp(None, e.E[0], getattr(K, op), e.E[1])))
    for op in ("NOT", "MINUS"): add("unary " + op, 1, lambda e, op=op: e.c._check_unary_op(A.UnaryOp(None, getattr(K, op), e.E[0])))
    for ty in ("int", "float", "point2d", "region2d", "solid", "dict"): add("variable of type " + ty, 1, lambda e, ty=ty: e.c._check_let_statement(A.LetStatement(None, "v", S(ty), e.E[0])))
    add("variable of list type", 1, lambda e: e.c._check_let_statement(A.LetStatement(None, "v", A.GenericType(None, "list", [S("int")]), e.E[0])))
    add("variable of optional type", 1, lambda e: e.c._check_let_statement(A.LetStatement(None, "v", A.OptionalType(None, S("int")), e.E[0])))
    add("assignment", 2, lambda e: e.c._check_assignment_statement(A.AssignmentStatement(None, e.E[0], e.E[1])))
    add("require", 2, lambda e: e.c._check_require_statement(A.RequireStatement(None, e.E[0], e.E[1])))
    def emit(e, ty):
        e.c._current_command = A.Command(None, "c", [], S(ty), A.Block(None, [])); e.c._check_emit_statement(A.EmitStatement(None, e.E[0]))
    for ty in ("float", "solid"): add("emit " + ty, 1, lambda e, ty=ty: emit(e, ty))
    blk = lambda *st: A.Block(None, list(st))
    add("if", 2, lambda e: e.c._check_if_statement(A.IfStatement(None, e.E[0], blk(), [A.ElifBranch(None, e.E[1], blk())], blk())))
    add("for", 1, lambda e: e.c._check_for_statement(A.ForStatement(None, "i", e.E[0], blk())))
    add("builtin", 1, lambda e: e.c._check_expression(A.FunctionCall(None, A.Identifier(None, "sin"), [e.E[0]])))
    add("list builtin", 1, lambda e: e.c._check_expression(A.FunctionCall(None, A.Identifier(None, "sum"), [e.E[0]])))
    def user(e):
        t = vc.mod(TY); s = vc.mod(SY); e.c.symbols.define(s.Symbol("user", s.SymbolKind.COMMAND, t.FunctionType((t.FLOAT, t.UNKNOWN), t.FLOAT))); e.c._check_expression(A.FunctionCall(None, A.Identifier(None, "user"), [e.E[0], e.E[1]]))
    add("command call", 2, user)
    add("method call", 2, lambda e: e.c._check_method_call(A.MethodCall(None, e.E[0], "at", [e.E[1]])))
    add("member", 1, lambda e: e.c._check_member_access(A.MemberAccess(None, e.E[0], "x")))
    add("index", 2, lambda e: e.c._check_index_access(A.IndexAccess(None, e.E[0], e.E[1])))
    add("list", 3, lambda e: e.c._check_list_literal(A.ListLiteral(None, e.E)))
    add("comprehension", 3, lambda e: e.c._check_list_comprehension(A.ListComprehension(None, e.E[0], [A.ComprehensionClause(None, "q", e.E[1], [e.E[2]])])))
    add("range", 2, lambda e: e.c._check_range_expr(A.RangeExpr(None, e.E[0], e.E[1])))
    add("conditional", 3, lambda e: e.c._check_conditional_expr(A.ConditionalExpr(None, e.E[0], e.E[1], e.E[2])))
    add("if expression", 3, lambda e: e.c._check_if_expr(A.IfExpr(None, e.E[0], A.Block(None, [], e.E[1]), [], A.Block(None, [], e.E[2]))))
    add("default value", 1, lambda e: e.c._check_command(A.Command(None, "c", [A.Parameter(None, "p", S("int"), e.E[0])], S("int"), A.Block(None, []))))
    return F
FORMS = ["_check_binary_op", "_check_unary_op", "_check_let_statement", "_check_assignment_statement", "_check_require_statement", "_check_emit_statement", "_check_if_statement", "_check_for_statement", "_check_function_call", "_check_builtin_call", "_check_method_call", "_check_member_access", "_check_index_access", "_check_list_literal", "_check_list_comprehension", "_check_range_expr", "_check_conditional_expr", "_check_if_expr", "_check_command"]

@contract("C15.no_second_error", [CHK + f for f in FORMS], mode="bounded", why="operand types: every declared type, lists of them and lists of lists of some; deeper nesting is not enumerated")
def no_second_error(vc):
    """an operand of unknown or erroneous type never causes an error that some type in its place would not: whatever the other operands are, if a type exists that is accepted there, the unresolved ones are accepted too"""
    t = vc.mod(TY); L = t.make_list_type; small = [t.INT, t.FLOAT, t.BOOL, t.STRING, t.POINT, t.POINT2D, t.SOLID, t.CIRCLE, t.DICT, L(t.INT), L(t.BOOL), L(L(t.FLOAT)), t.UNKNOWN, t.ERROR]
    full = [x for n, x in base(t)] + [L(x) for n, x in base(t)] + small
    bad = []
    for name, n, run in forms(vc):
        pool = full if n == 1 else small
        def errs(ts):
            e = Env(vc, ts); run(e); return len(e.errors())
        memo = {ts: errs(ts) for ts in itertools.product(pool, repeat=n)}
        for ts, k in memo.items():
            for i in range(n):
                if ts[i] is t.UNKNOWN or ts[i] is t.ERROR:
                    if k > min(memo[ts[:i] + (x,) + ts[i + 1:]] for x in pool): bad.append("%s of %s" % (name, ", ".join(map(str, ts))))
    none_bad(vc, "no second error", bad)

@contract("C15.types_reported", [CHK + f for f in ("_check_binary_op", "_check_index_access", "_check_list_literal", "_check_conditional_expr", "_check_literal", "_check_identifier")])
def types_reported(vc):
    """the type reported for an expression: integer operators give int except true division, a float operand gives float, comparisons and logic give bool, indexing a list its element type, a list or conditional a type accepting every element or branch"""
    t = vc.mod(TY); A = vc.mod("yapcad.dsl.ast"); K = vc.mod("yapcad.dsl.tokens").TokenType
    def typ(run, *ts):
        e = Env(vc, ts); r = run(e); return r, len(e.errors())
    for x, y in itertools.product([t.INT, t.FLOAT], repeat=2):
        for op in ("PLUS", "MINUS", "STAR", "SLASH", "PERCENT", "DOUBLE_SLASH", "DOUBLE_STAR", "LT", "GT", "LE", "GE", "EQ", "NE"):
            r = typ(lambda e: e.c._check_binary_op(A.BinaryOp(None, e.E[0], getattr(K, op), e.E[1])), x, y)
            want = t.BOOL if op in ("LT", "GT", "LE", "GE", "EQ", "NE") else t.INT if op == "DOUBLE_SLASH" else t.FLOAT if op == "SLASH" or t.FLOAT in (x, y) else t.INT
            vc.check("%s %s %s" % (x, op, y), r == (want, 0))
    B = [x for n, x in base(t)]; bad = []
    for x, y in itertools.product(B, B):
        r, k = typ(lambda e: e.c._check_list_literal(A.ListLiteral(None, e.E)), x, y)
        if k == 0 and not (r.element_type.is_assignable_from(x) and r.element_type.is_assignable_from(y)): bad.append("[%s, %s]" % (x, y))
        if k > 0 and t.common_type(x, y) is not None: bad.append("[%s, %s] rejected" % (x, y))
        r, k = typ(lambda e: e.c._check_conditional_expr(A.ConditionalExpr(None, e.E[0], e.E[1], e.E[2])), t.BOOL, x, y)
        if (k == 0) != (t.common_type(x, y) is not None) or k == 0 and not (r.is_assignable_from(x) and r.is_assignable_from(y)): bad.append("%s if .. else %s" % (x, y))
    none_bad(vc, "lists and conditionals", bad)
    none_bad(vc, "indexing", [str(x) for x in B + [t.make_list_type(t.INT)] if typ(lambda e: e.c._check_index_access(A.IndexAccess(None, e.E[0], e.E[1])), t.make_list_type(x), t.INT) != (x, 0)])
    for x in B:
        if x != t.BOOL:
            for op in ("AND", "OR"): vc.check("logic needs booleans", typ(lambda e: e.c._check_binary_op(A.BinaryOp(None, e.E[0], getattr(K, op), e.E[1])), x, t.BOOL)[1] == 1 and typ(lambda e: e.c._check_binary_op(A.BinaryOp(None, e.E[0], getattr(K, op), e.E[1])), t.BOOL, x)[1] == 1)
    c = Env(vc, ()).c
    for tt, w in ((K.INT_LITERAL, t.INT), (K.FLOAT_LITERAL, t.FLOAT), (K.STRING_LITERAL, t.STRING), (K.BOOL_LITERAL, t.BOOL)): vc.check("literal", c._check_literal(A.Literal(None, 1, tt)) == w)

@contract("C15.type_nodes", [CHK + "_resolve_type_node"])
def type_nodes(vc):
    """written types resolve to the type they name, lists and optionals around what their argument resolves to; an unknown name is one error and the error type"""
    t = vc.mod(TY); A = vc.mod("yapcad.dsl.ast"); e = Env(vc, ()); c = e.c; S = lambda n: A.SimpleType(None, n); bad = []
    for n, x in base(t)[:-1]:
        if c._resolve_type_node(S(n)) != x or c._resolve_type_node(A.GenericType(None, "list", [S(n)])) != t.ListType(x) or c._resolve_type_node(A.OptionalType(None, S(n))) != t.OptionalTypeWrapper(x) or c._resolve_type_node(A.GenericType(None, "list", [A.OptionalType(None, S(n))])) != t.ListType(t.OptionalTypeWrapper(x)): bad.append(n)
    none_bad(vc, "types", bad); vc.check("no errors", not e.errors()); vc.check("none written", c._resolve_type_node(None) == t.UNKNOWN)
    vc.check("unknown name", c._resolve_type_node(S("no such type")) == t.ERROR and len(e.errors()) == 1)
    vc.check("list of an unknown name", c._resolve_type_node(A.GenericType(None, "list", [S("no such type")])) == t.ListType(t.ERROR) and len(e.errors()) == 2)
