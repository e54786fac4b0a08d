import copy, itertools, types
from pyvc.vc import contract
from contracts.lib import *
IN = "yapcad.dsl.runtime.interpreter"; I = IN + ":Interpreter."; CX = "yapcad.dsl.runtime.context"; VA = "yapcad.dsl.runtime.values"; PA = "yapcad.dsl.parser"; P = PA + ":Parser."; LX = "yapcad.dsl.lexer"
CACHE = {}
def load(vc, src):
    src = "module m\n\n" + src
    if src not in CACHE: CACHE[src] = vc.mod(PA).parse(vc.mod(LX).tokenize(src), source=src)
    return CACHE[src]
def new(vc, **k): return vc.mod(IN).Interpreter(**k)
def run(vc, src, params, cmd="C", it=None): return (it or new(vc)).execute(load(vc, src), cmd, params)
def expr(vc, text, **vals):
    """value of an expression whose identifiers have the given values (python numbers, symbolic or not)"""
    m = vc.mod(IN); key = "expr:" + text
    if key not in CACHE: CACHE[key] = vc.mod(PA).Parser(vc.mod(LX).tokenize(text))._parse_expression()
    ctx = vc.mod(CX).ExecutionContext(); [ctx.set_variable(k, v) for k, v in vals.items()]; return new(vc)._evaluate(CACHE[key], ctx)
def V(vc, data, ty): return vc.mod(VA).Value(data, getattr(vc.mod("yapcad.dsl.types"), ty))
def L(vc, items, ty="INT"): return vc.mod(VA).Value(list(items), vc.mod("yapcad.dsl.types").ListType(getattr(vc.mod("yapcad.dsl.types"), ty)))
def num(vc, name, ty, **k): return V(vc, vc.int(name, -50, 50) if ty == "INT" else vc.real(name), ty)
def fails(vc, r, what): vc.check(what + " fails", r.success is False); vc.check(what + " says why", bool(r.error_message) or bool(r.require_failures))

@contract("C16.arithmetic", [I + "_eval_binary_op", I + "_evaluate", I + "_eval_identifier"], oblig_ms=15000)
def arithmetic(vc):
    """each arithmetic operator gives its standard value for every pair of numbers; two integers give an integer except under true division, anything else a float"""
    op = vc.choice("op", ["+", "-", "*", "/", "//", "%"]); ta, tb = vc.choice("types", [("INT", "INT"), ("INT", "FLOAT"), ("FLOAT", "INT"), ("FLOAT", "FLOAT")])
    if op in ("//", "%") and "FLOAT" in (ta, tb): tb = "INT" if op == "//" else tb; b = vc.choice("divisor", [2, -3]) if tb == "INT" else vc.choice("fdivisor", [2.0, -0.5]); B = V(vc, b, tb)
    else: B = num(vc, "b" + tb, tb); b = B.data
    A = num(vc, "a" + ta, ta); a = A.data
    if op in "/ // %" : vc.assume(vc.ne(b, 0) if hasattr(vc, "ne") else vc.not_(b == 0))
    r = expr(vc, "a %s b" % op, a=A, b=B); want = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b}[op]()
    vc.check("value", vc.eq(r.data, want, tol=1e-9) if "FLOAT" in (ta, tb) or op == "/" else r.data == want)
    i = op == "//" or (op != "/" and ta == tb == "INT"); vc.check("type", str(r.type) == ("int" if i else "float")); vc.check("python type", isinstance(r.data, int) if i else isinstance(r.data, float))
    vc.check("operands untouched", A.data is a and B.data is b)

@contract("C16.power", [I + "_eval_binary_op"])
def power(vc):
    """powers with small exponents: repeated product, an integer for an integer base and exponent >= 0"""
    ta = vc.choice("base type", ["INT", "FLOAT"]); n = vc.choice("exponent", [0, 1, 2, 3, -1]); A = num(vc, "a" + ta, ta); a = A.data
    if n < 0: vc.assume(vc.not_(a == 0))
    r = expr(vc, "a ** b", a=A, b=V(vc, n, "INT")); want = [1, a, a * a, a * a * a, None][n] if n >= 0 else 1 / a
    vc.check("value", vc.eq(r.data, want, tol=1e-9)); vc.check("type", str(r.type) == ("int" if ta == "INT" and n >= 0 else "float"))

@contract("C16.compare", [I + "_eval_binary_op"])
def compare(vc):
    """each comparison is true exactly when it holds of the two numbers"""
    op = vc.choice("op", ["==", "!=", "<", ">", "<=", ">="]); ta, tb = vc.choice("types", [("INT", "INT"), ("INT", "FLOAT"), ("FLOAT", "FLOAT")]); A, B = num(vc, "a" + ta, ta), num(vc, "b" + tb, tb); a, b = A.data, B.data
    if vc.choice("equal", [False, True]): b = a; B = V(vc, a, ta)
    r = expr(vc, "a %s b" % op, a=A, b=B); vc.check("bool", str(r.type) == "bool"); vc.check("value", vc.iff(r.data, {"==": lambda: a == b, "!=": lambda: vc.not_(a == b), "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: vc.not_(a > b), ">=": lambda: vc.not_(a < b)}[op]()))

@contract("C16.unary", [I + "_eval_unary_op"])
def unary(vc):
    """minus negates and keeps the kind of number, not negates"""
    t = vc.choice("type", ["INT", "FLOAT", "BOOL"])
    if t == "BOOL": p = vc.bool("p"); r = expr(vc, "not p", p=V(vc, p, "BOOL")); vc.check("not", vc.iff(r.data, vc.not_(p))); vc.check("bool", str(r.type) == "bool")
    else: A = num(vc, "a" + t, t); r = expr(vc, "-a", a=A); vc.check("negated", r.data == -A.data); vc.check("type", str(r.type) == t.lower()); q = expr(vc, "- -a", a=A); vc.check("twice", q.data == A.data)

@contract("C16.logic", [I + "_eval_binary_op", VA + ":Value.is_truthy", VA + ":bool_val"])
def logic(vc):
    """and, or and their combinations follow their truth tables, and the right operand is evaluated only where the left one does not decide"""
    p, q, s = vc.bool("p"), vc.bool("q"), vc.bool("s"); v = dict(p=V(vc, p, "BOOL"), q=V(vc, q, "BOOL"), s=V(vc, s, "BOOL"))
    for t, w in [("p and q", vc.and_(p, q)), ("p or q", vc.or_(p, q)), ("p and q or s", vc.or_(vc.and_(p, q), s)), ("p or q and s", vc.or_(p, vc.and_(q, s))), ("not p or q", vc.or_(vc.not_(p), q)), ("not (p or q)", vc.not_(vc.or_(p, q))), ("p == q", vc.iff(p, q)), ("p != q", vc.not_(vc.iff(p, q)))]:
        r = expr(vc, t, **v); vc.check(t, vc.iff(r.data, w)); vc.check("bool", str(r.type) == "bool")
    e, r = vc.raises(expr, vc, "p and 1 // 0 > 0", **v); vc.check("and short", vc.iff(p, e is not None)); vc.check("and false", e is not None or r.data is False or vc.not_(r.data))
    e, r = vc.raises(expr, vc, "p or 1 // 0 > 0", **v); vc.check("or short", vc.iff(p, e is None)); vc.check("or true", e is not None or r.data)

@contract("C16.truth", [VA + ":Value.is_truthy"])
def truth(vc):
    """a boolean is what it says, a list is true when not empty, an optional when present"""
    b = vc.bool("b"); vc.check("bool", vc.iff(V(vc, b, "BOOL").is_truthy(), b)); n = vc.choice("length", [0, 1, 2]); vc.check("list", L(vc, [0] * n).is_truthy() is (n > 0)); T = vc.mod("yapcad.dsl.types"); m = vc.mod(VA)
    vc.check("absent", m.none_val(T.INT).is_truthy() is False); vc.check("present", m.Value(0, T.OptionalTypeWrapper(T.INT)).is_truthy() is True)

@contract("C16.text", [I + "_eval_binary_op", I + "_eval_list_literal"])
def text(vc):
    """strings and lists join in order"""
    a, b = vc.choice("a", ["", "x", "ab"]), vc.choice("b", ["", "y", "cd"]); r = expr(vc, "a + b", a=V(vc, a, "STRING"), b=V(vc, b, "STRING")); vc.check("joined", r.data == a + b and str(r.type) == "string"); r = expr(vc, "a + 3", a=V(vc, a, "STRING")); vc.check("number appended", r.data == a + "3")
    n, k = vc.choice("n", [0, 1, 2, 3]), vc.choice("k", [0, 1, 2]); X, Y = [vc.int("x%d" % i) for i in range(n)], [vc.int("y%d" % i) for i in range(k)]; A, B = L(vc, X), L(vc, Y); r = expr(vc, "a + b", a=A, b=B); vc.check("lists", len(r.data) == n + k and all(u is w for u, w in zip(r.data, X + Y))); vc.check("not changed", len(A.data) == n and len(B.data) == k and r.data is not A.data)
    z = [vc.int("z%d" % i) for i in range(3)]; r = expr(vc, "[a, b, c]", **{n: V(vc, d, "INT") for n, d in zip("abc", z)}); vc.check("literal", len(r.data) == 3 and all(u is w for u, w in zip(r.data, z)))

LITS = [("0", 0, "int"), ("7", 7, "int"), ("42", 42, "int"), ("007", 7, "int"), ("1.5", 1.5, "float"), ("2e3", 2000.0, "float"), ("1e-3", 0.001, "float"), ("1.25E+2", 125.0, "float"), ("0.5", 0.5, "float"), ("0x1F", 31, "int"), ("0b101", 5, "int"), ("true", True, "bool"), ("false", False, "bool"), ("True", True, "bool"), ("False", False, "bool"), ('"a b"', "a b", "string"), ('"a\\n"', "a\n", "string")]
@contract("C16.literals", [I + "_eval_literal", LX + ":Lexer._scan_number", LX + ":Lexer._scan_hex_number", LX + ":Lexer._scan_binary_number"], mode="bounded", why="literal texts are enumerated, with random decimal digits")
def literals(vc):
    """literals have the value they are written with"""
    t, w, ty = vc.choice("literal", LITS); r = expr(vc, t); vc.check("value", r.data == w and type(r.data) is type(w)); vc.check("type", str(r.type) == ty)
    n = vc.choice("n", [0, 3, 19, 100, 12345678901234567890]); f = vc.choice("f", [0, 5, 25, 125, 333]); CACHE.pop("expr:%d.%d" % (n, f), None); r = expr(vc, "%d.%d" % (n, f)); vc.check("decimal", r.data == float("%d.%d" % (n, f))); CACHE.pop("expr:%d" % n, None); vc.check("integer", expr(vc, "%d" % n).data == n)

PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "//": 6, "%": 6, "**": 7}
def shape(e):
    n = type(e).__name__
    if n == "BinaryOp": return [shape(e.left), e.operator, shape(e.right)]
    if n == "UnaryOp": return [e.operator, shape(e.operand)]
    if n == "Identifier": return e.name
    if n == "ConditionalExpr": return ["if", shape(e.condition), shape(e.true_branch), shape(e.false_branch)]
    if n == "IndexAccess": return ["index", shape(e.object), shape(e.index)]
    return n
def grouped(items, ops):
    """independent reading: split at the loosest operator, rightmost for left-associative ones, leftmost for powers"""
    if not ops: return items[0]
    lo = min(PREC[o] for o in ops); ks = [i for i, o in enumerate(ops) if PREC[o] == lo]; k = ks[0] if lo == 7 else ks[-1]
    return [grouped(items[:k + 1], ops[:k]), ops[k], grouped(items[k + 1:], ops[k + 1:])]
def parsed(vc, t): return shape(vc.mod(PA).Parser(vc.mod(LX).tokenize(t))._parse_expression())
def named(vc, s):
    if isinstance(s, list): return [named(vc, x) for x in s]
    T = vc.mod("yapcad.dsl.tokens").TokenType; m = {"or": "OR", "and": "AND", "==": "EQ", "!=": "NE", "<": "LT", ">": "GT", "<=": "LE", ">=": "GE", "+": "PLUS", "-": "MINUS", "*": "STAR", "/": "SLASH", "//": "DOUBLE_SLASH", "%": "PERCENT", "**": "DOUBLE_STAR", "not": "NOT"}
    return getattr(T, m[s]) if s in m else s
@contract("C16.precedence", [P + "_parse_binary_expr", P + "_parse_unary_expr", P + "_parse_conditional_expr", P + "_parse_grouped_or_lambda", P + "_parse_expression"], max_paths=6000)
def precedence(vc):
    """every chain of up to four operands groups by the documented precedence (or < and < equality < order < sum < product < power < not and minus), left to right except for powers; parentheses and conditionals override"""
    ops = list(PREC); a = vc.choice("first", ops); b = vc.choice("second", ops + [None]); c = vc.choice("third", ["or", "and", "==", "<", "+", "*", "**", None]) if b else None; o = [x for x in (a, b, c) if x]; names = list("wxyz")[:len(o) + 1]
    t = names[0] + "".join(" %s %s" % (p, n) for p, n in zip(o, names[1:])); vc.check("chain", parsed(vc, t) == named(vc, grouped(names, o)))
    if c is None and b:
        vc.check("left group", parsed(vc, "(w %s x) %s y" % (a, b)) == named(vc, [["w", a, "x"], b, "y"])); vc.check("right group", parsed(vc, "w %s (x %s y)" % (a, b)) == named(vc, ["w", a, ["x", b, "y"]]))
        for u in ("-", "not"): vc.check("unary first", parsed(vc, "%s w %s x %s y" % (u, a, b)) == named(vc, grouped([[u, "w"], "x", "y"], [a, b]))); vc.check("unary second", parsed(vc, "w %s %s x %s y" % (a, u, b)) == named(vc, grouped(["w", [u, "x"], "y"], [a, b])))
        vc.check("conditional", parsed(vc, "w %s x if y %s z else x if w else z %s y" % (a, b, a)) == named(vc, ["if", ["y", b, "z"], ["w", a, "x"], ["if", "w", "x", ["z", a, "y"]]])); vc.check("index", parsed(vc, "w %s x[y %s z]" % (a, b)) == named(vc, ["w", a, ["index", "x", ["y", b, "z"]]]))

@contract("C16.branches", [I + "_execute_if_statement", I + "_eval_conditional_expr", I + "_execute_statement"])
def branches(vc):
    """exactly the first branch whose condition holds runs, and a conditional expression takes exactly one side"""
    a, b, c = vc.bool("a"), vc.bool("b"), vc.bool("c"); x = vc.int("x"); els = vc.choice("else", [True, False])
    r = run(vc, "command C(a: bool, b: bool, c: bool, x: int) -> int:\n    emit 0\n    if a:\n        emit 1\n    elif b:\n        emit x\n    elif c:\n        emit 3\n" + ("    else:\n        emit 4\n" if els else ""), dict(a=a, b=b, c=c, x=x)); vc.check("ran", r.success is True); vc.check("branch", r.geometry == vc.ite(a, 1, vc.ite(b, x, vc.ite(c, 3, 4 if els else 0))))
    r = run(vc, "command C(a: bool, b: bool, x: int) -> int:\n    emit x if a else x + 1 if b else 1 // 0\n", dict(a=a, b=b, x=x)); ok = bool(a) or bool(b); vc.check("one side only", r.success is ok); vc.check("side", not ok or r.geometry == vc.ite(a, x, x + 1))
    r = run(vc, "command C(a: bool, b: bool) -> int:\n    if a:\n        if b:\n            emit 1\n        else:\n            emit 2\n    else:\n        if b:\n            emit 3\n        else:\n            emit 4\n", dict(a=a, b=b)); vc.check("nested", r.geometry == vc.ite(a, vc.ite(b, 1, 2), vc.ite(b, 3, 4)))

@contract("C16.loops", [I + "_execute_for", I + "_execute_block", I + "_execute_return"])
def loops(vc):
    """a loop runs its body once for each item in order with the variable bound to it, stops at a return, and a range counts from its start up to but not including its end"""
    n = vc.choice("n", [0, 1, 2, 3]); xs = [vc.int("x%d" % i) for i in range(n)]
    r = run(vc, "command C(xs: list<int>) -> list<int>:\n    emit [0]\n    acc: list<int> = [0]\n    for x in xs:\n        acc = acc + [x]\n        emit acc\n", dict(xs=list(xs))); vc.check("ran", r.success is True); vc.check("every item in order", len(r.geometry) == n + 1 and all(u is w for u, w in zip(r.geometry[1:], xs)))
    r = run(vc, "command C(xs: list<int>) -> int:\n    emit 0\n    for x in xs:\n        emit x\n        if x > 0:\n            return x\n    emit 0 - 7\n", dict(xs=list(xs))); w = -7
    for x in reversed(xs): w = vc.ite(x > 0, x, w)
    vc.check("stops at a return", r.geometry == w)
    k = vc.choice("k", [0, 1, 2]); r = run(vc, "command C(k: int) -> list<int>:\n    emit [0]\n    acc: list<int> = [0]\n    for i in range(k):\n        for j in range(i):\n            emit [i, j]\n", dict(k=k)); vc.check("nested ranges", r.geometry == [0] if k < 2 else r.geometry == [1, 0])
    s, e = vc.choice("from", [-1, 0, 2]), vc.choice("to", [-1, 1, 3]); vc.check("range", expr(vc, "[s..e]", s=V(vc, s, "INT"), e=V(vc, e, "INT")).data == list(range(s, e)))

@contract("C16.loop_step", [I + "_execute_for"])
def loop_step(vc):
    """any number of items: one turn of a loop binds the item, runs the statements of the body in order until a return, and the loop is over all items"""
    m = vc.mod(IN); vc.cutused = True; cut = vc.cut(I + "_execute_for"); ctx = vc.mod(CX).ExecutionContext(); it = new(vc); ast = vc.mod("yapcad.dsl.ast"); n = vc.choice("statements", [0, 1, 2]); stop = vc.choice("return at", [None, 0, 1]); seen = []; x = vc.int("x")
    def st(self, s, c):
        seen.append((s, c.get_variable("v").data))
        if s == stop: c.signal_return(None)
    it._execute_statement = types.MethodType(st, it); body = list(range(n)); S = types.SimpleNamespace(variable="v", iterable=None, body=types.SimpleNamespace(statements=body)); env = dict(self=it, stmt=S, ctx=ctx, elem_type=V(vc, 0, "INT").type, items=[x]); vc.check("over all", list(cut.over(env)) == [x]); k, v = cut.body(env, x)
    done = body if stop is None or stop >= n else body[:stop + 1]; vc.check("body", [s for s, _ in seen] == done); vc.check("bound", all(u is x for _, u in seen)); vc.check("stops", (k == "return") == (done != body or stop in body)); vc.check("variable", ctx.get_variable("v").data is x)

@contract("C16.comprehension", [I + "_eval_list_comprehension", I + "_eval_comprehension_clauses"], max_paths=4000)
def comprehension(vc):
    """a comprehension lists its element for every combination that passes the conditions, first clause outermost"""
    n, k = vc.choice("n", [0, 1, 2, 3]), vc.choice("k", [0, 1, 2]); X, Y = [vc.int("x%d" % i) for i in range(n)], [vc.int("y%d" % i) for i in range(k)]; v = dict(xs=L(vc, X), ys=L(vc, Y)); same = lambda r, w: len(r.data) == len(w) and vc.and_(*[p == q for p, q in zip(r.data, w)]) if w or r.data else True
    r = expr(vc, "[x + 1 for x in xs]", **v); vc.check("map", same(r, [x + 1 for x in X])); r = expr(vc, "[x for x in xs if x > 0]", **v); vc.check("filter", same(r, [x for x in X if x > 0]))
    if n <= 2:
        r = expr(vc, "[x - y for x in xs for y in ys]", **v); vc.check("nested", same(r, [x - y for x in X for y in Y])); r = expr(vc, "[y for x in xs if x > 0 for y in ys if y > x if y > 2]", **v); vc.check("conditions", same(r, [y for x in X if x > 0 for y in Y if y > x if y > 2]))
        r = expr(vc, "[[x, y] for y in ys for x in xs]", **v); vc.check("lists", len(r.data) == n * k and all(u[0] is w[0] and u[1] is w[1] for u, w in zip(r.data, [(x, y) for y in Y for x in X])))
    r = expr(vc, "[[u for u in [x, x]] for x in xs]", **v); vc.check("inner list", [len(u) for u in r.data] == [2] * n and all(u[0] is x and u[1] is x for u, x in zip(r.data, X)))

@contract("C16.index", [I + "_eval_index_access", I + "_eval_list_literal"])
def index(vc):
    """list[i] is the i-th item counted from zero, and an index past the end fails the command"""
    n = vc.choice("n", [1, 2, 3]); i = vc.choice("i", [0, 1, 2, 3, 7]); X = [vc.int("x%d" % k) for k in range(n)]; r = run(vc, "command C(xs: list<int>, i: int) -> int:\n    emit xs[i]\n", dict(xs=list(X), i=i))
    if i < n: vc.check("item", r.success is True and r.geometry is X[i])
    else: fails(vc, r, "past the end")
    r = expr(vc, "xs[a][b]", xs=L(vc, [X, [5, 6, 7]]), a=V(vc, 0, "INT"), b=V(vc, n - 1, "INT")); vc.check("nested", r.data is X[n - 1])

INNER = {"for": "    for i in range(2):\n        x = y + i\n        z = x\n", "if": "    if true:\n        x = y\n        z = x\n", "else": "    if false:\n        pass\n    else:\n        x = y\n        z = x\n", "elif": "    if false:\n        pass\n    elif true:\n        x = y\n        z = x\n", "variable": "    for x in [y, y]:\n        z = x\n", "comprehension": "    w = [x for x in [y, y]]\n", "clause": "    w = [x for i in [1, 2] for x in [y]]\n", "deep": "    if true:\n        for i in range(1):\n            if true:\n                x = y\n                z = x\n", "call": "    w = D(y)\n"}
@contract("C16.scopes", [CX + ":ExecutionContext.new_scope", CX + ":ExecutionContext.set_variable", I + "_execute_let", I + "_execute_for", I + "_execute_if_statement", I + "_eval_list_comprehension", I + "_call_command"])
def scopes(vc):
    """an assignment in an inner block or called command neither changes the outer variable of that name nor is visible after it"""
    k = vc.choice("block", sorted(INNER)); x, y = vc.int("x"), vc.int("y"); head = "command D(q: int) -> int:\n    x = q\n    z = q\n    emit x\n\ncommand C(a: int, y: int) -> int:\n    x = a\n"
    r = run(vc, head + INNER[k] + "    emit x\n", dict(a=x, y=y)); vc.check("ran", r.success is True); vc.check("outer kept", r.geometry is x or r.geometry == x)
    r = run(vc, head + INNER[k] + "    emit z\n", dict(a=x, y=y)); fails(vc, r, "inner name outside")
    r = run(vc, "command D(q: int) -> int:\n    emit q + x\n\ncommand C(x: int) -> int:\n    emit D(1)\n", dict(x=x)); fails(vc, r, "caller's variable in a called command")
    r = run(vc, head + "    if true:\n        if true:\n            x = y\n            emit x\n", dict(a=x, y=y)); vc.check("inner seen inside", r.geometry is y)

@contract("C16.match", [I + "_eval_match_expr", I + "_pattern_matches", I + "_eval_if_expr"])
def match(vc):
    """the first arm whose pattern matches decides, and a name bound by a pattern is seen in its arm only"""
    A = vc.mod("yapcad.dsl.ast"); T = vc.mod("yapcad.dsl.tokens").TokenType; sp = None; m = vc.mod(IN); ctx = vc.mod(CX).ExecutionContext(); x, s = vc.int("x"), vc.int("subject"); ctx.set_variable("x", V(vc, x, "INT")); ctx.set_variable("s", V(vc, s, "INT")); lit = lambda v: A.Literal(span=sp, value=v, literal_type=T.INT_LITERAL); idn = lambda n: A.Identifier(span=sp, name=n)
    last = vc.choice("last", ["name", "wild", "none"]); arms = [A.MatchArm(span=sp, pattern=A.LiteralPattern(span=sp, value=lit(3)), body=lit(30)), A.MatchArm(span=sp, pattern=A.LiteralPattern(span=sp, value=lit(4)), body=idn("x"))]
    if last == "name": arms.append(A.MatchArm(span=sp, pattern=A.IdentifierPattern(span=sp, name="x"), body=idn("x")))
    if last == "wild": arms.append(A.MatchArm(span=sp, pattern=A.WildcardPattern(span=sp), body=lit(99)))
    e, r = vc.raises(new(vc)._evaluate, A.MatchExpr(span=sp, subject=idn("s"), arms=arms), ctx); vc.check("outer kept", ctx.get_variable("x").data is x)
    if e is not None: vc.check("no arm", last == "none" and vc.and_(vc.not_(s == 3), vc.not_(s == 4))); return
    vc.check("arm", r.data == vc.ite(s == 3, 30, vc.ite(s == 4, x, s if last == "name" else 99)))

@contract("C16.scope_chain", [CX + ":Scope.get", CX + ":Scope.set", CX + ":Scope.update", CX + ":Scope.contains"])
def scope_chain(vc):
    """a lookup finds the innermost binding at any depth (the outer scopes standing for any chain), a definition binds here only, an update changes exactly the innermost binding"""
    m = vc.mod(CX); V1, V2 = object(), object(); known = vc.choice("known outside", [True, False]); here = vc.choice("bound here", [True, False]); top = vc.choice("outermost", [False, True]); calls = []
    class Outer:
        def get(s, n): calls.append(("get", n)); return V1 if known and n == "v" else None
        def update(s, n, v): calls.append(("update", n, v)); return known and n == "v"
        def contains(s, n): return known and n == "v"
        def set(s, *a): calls.append(("set",) + a)
        variables = {"v": V1} if known else {}; parent = None
    known = known and not top; Outer.variables = {"v": V1} if known else {}; sc = m.Scope(parent=None if top else Outer(), name="n"); sc.set("other", 1)
    if here: sc.set("v", V2)
    vc.check("found", sc.get("v") is (V2 if here else V1 if known else None)); vc.check("contains", bool(sc.contains("v")) is (here or known)); N = object(); ok = sc.update("v", N); vc.check("updated", bool(ok) is (here or known)); vc.check("where", (sc.variables.get("v") is N) is here and ([c for c in calls if c[0] == "update"] == ([] if here or top else [("update", "v", N)])))
    W = object(); sc.set("v", W); vc.check("defined here", sc.get("v") is W and sc.variables["v"] is W and not any(c[0] == "set" for c in calls)); vc.check("others kept", sc.get("other") == 1)

@contract("C16.new_scope", [CX + ":ExecutionContext.new_scope", CX + ":ExecutionContext.get_variable", CX + ":ExecutionContext.set_variable", CX + ":ExecutionContext.update_variable", CX + ":create_context"])
def new_scope(vc):
    """leaving a block restores the scope that was current before it, also when the block fails, and a fresh context holds exactly the parameters"""
    m = vc.mod(CX); x, y = vc.int("x"), vc.int("y"); c = m.create_context("m", "C", {"p": V(vc, x, "INT")}, ""); vc.check("parameters", c.get_variable("p").data is x and set(c.current_scope.variables) == {"p"} and c.current_scope.parent is None and c.emit_result is None and not c.require_failures)
    old = c.current_scope; how = vc.choice("ends", ["normally", "with an error"]); depth = vc.choice("depth", [1, 2])
    def block(d):
        with c.new_scope("b"):
            c.set_variable("p", V(vc, y, "INT")); c.set_variable("q", V(vc, y, "INT")); vc.check("inner", c.get_variable("p").data is y)
            if d > 1: block(d - 1)
            if how != "normally": raise KeyError("x")
    e, _ = vc.raises(block, depth); vc.check("error passes", (e is not None) == (how != "normally")); vc.check("restored", c.current_scope is old); vc.check("outer value", c.get_variable("p").data is x); vc.check("not leaked", c.get_variable("q") is None)
    with c.new_scope("u"): c.update_variable("p", V(vc, y, "INT"))
    vc.check("an update reaches out", c.get_variable("p").data is y)

BAD = {"division": "1 // a", "true division": "1 / a", "modulo": "5 % a", "index": "[1, 2][a + 5]", "no such name": "nosuch", "no such function": "nosuch(1)", "type": '1 + [2]', "complex": "to_float(0.0 - 1.0) ** 0.5" , "arity": "D(1, 2, 3)", "callee fails": "E(a)", "callee require": "D(0 - 1)", "nested callee": "F(0 - 1)", "builtin argument": "cylinder(0.0 - 1.0, 0.0 - 2.0)"}
LIB = "command D(q: int) -> int:\n    require q >= 0, \"q\"\n    emit q\n\ncommand E(q: int) -> int:\n    emit 1 // q\n\ncommand F(q: int) -> int:\n    emit D(q) + 1\n\n"
@contract("C16.failures", [IN + ":Interpreter.execute", I + "_call_command", I + "_execute_require", I + "_eval_function_call"], max_paths=3000)
def failures(vc):
    """any runtime error or failed requirement, anywhere in the command, its branches, loops, comprehensions or called commands, makes the result a failure that says why"""
    b = vc.choice("error", sorted(set(BAD) - {"complex", "builtin argument"})); where = vc.choice("where", ["emit", "let", "if", "for", "list", "after", "condition", "argument", "metadata"]); x = BAD[b]
    body = {"emit": "    emit %s\n", "let": "    t = %s\n    emit 1\n", "if": "    if true:\n        t = %s\n    emit 1\n", "for": "    for i in range(2):\n        t = %s\n    emit 1\n", "list": "    t = [%s for i in [1]]\n    emit 1\n", "after": "    emit 1\n    t = %s\n", "condition": "    emit 1\n    require %s == 77, \"c\"\n", "argument": "    emit D(%s)\n", "metadata": "    emit 1, name=%s\n"}[where] % x
    e, r = vc.raises(run, vc, LIB + "command C(a: int) -> int:\n" + body, dict(a=0)); vc.check("reported, not raised", e is None)
    if e is None: fails(vc, r, "the command")

@contract("C16.require", [I + "_execute_require", IN + ":Interpreter.execute", CX + ":ExecutionContext.add_require_failure"], max_paths=3000)
def require(vc):
    """a command succeeds exactly when every requirement it reaches, in itself and in the commands it calls, evaluates true, and every failed one is reported with its message"""
    p, q, s, g = [vc.bool(n) for n in ("p", "q", "s", "g")]; kw = vc.choice("keyword", ["require", "assert"])
    src = "command D(s: bool) -> int:\n    %s s, \"third\"\n    emit 2\n\ncommand C(p: bool, q: bool, s: bool, g: bool) -> int:\n    %s p, \"first\"\n    if g:\n        %s q, \"second\"\n    for i in range(2):\n        t = D(s)\n    emit 1\n" % (kw, kw, kw); r = run(vc, src, dict(p=p, q=q, s=s, g=g)); bad = (["first"] if not p else []) + (["second"] if g and not q else []) + (["third"] * 2 if not s else [])
    vc.check("verdict", r.success is (not bad)); vc.check("messages", [f.message for f in r.require_failures] == bad); vc.check("result", bool(bad) or r.geometry == 1)
    x = vc.int("x"); r = run(vc, "command C(x: int) -> int:\n    require x > 0 and x < 10\n    emit x\n", dict(x=x)); vc.check("condition", r.success is bool(vc.and_(x > 0, x < 10))); vc.check("none dropped", r.success or len(r.require_failures) == 1)

@contract("C16.verdict", [IN + ":Interpreter.execute"], max_paths=3000)
def verdict(vc):
    """for whatever the body of the command does (fail with any error, record any number of failed requirements, emit or not), the result is a success exactly when there was no error, no failed requirement and something emitted"""
    m = vc.mod(IN); it = new(vc); kind = vc.choice("body raises", [None, RuntimeError, ZeroDivisionError, ValueError, KeyError, IndexError, TypeError, AttributeError, RecursionError, OverflowError, AssertionError, NotImplementedError, MemoryError, StopIteration]); n = vc.choice("failed requirements", [0, 1, 3]); em = vc.choice("emitted", [True, False]); diag = vc.choice("meta fails", [False, True]); val = V(vc, vc.int("x"), "INT")
    def body(self, command, ctx):
        for i in range(n): ctx.add_require_failure("r%d" % i)
        if em: ctx.set_emit(val, {"k": 1})
        if kind: raise kind("why")
    def meta(self, command, ctx):
        if diag: raise ValueError("meta")
    it._execute_command = types.MethodType(body, it); it._apply_command_meta_hint = types.MethodType(meta, it); e, r = vc.raises(it.execute, load(vc, "command C() -> int:\n    emit 1\n"), "C", {}); vc.check("reported, not raised", e is None)
    if e is not None: return
    good = kind is None and n == 0 and em and not diag; vc.check("verdict", r.success is good); vc.check("requirements", [f.message for f in r.require_failures] == ["r%d" % i for i in range(n)]); vc.check("emitted value", not good or (r.geometry is val.data and r.metadata == {"k": 1})); vc.check("says why", good or bool(r.error_message) or n > 0)
    r = new(vc).execute(load(vc, "command C() -> int:\n    emit 1\n"), "X", {}); fails(vc, r, "an unknown command")

@contract("C16.called", [I + "_call_command"], max_paths=3000)
def called(vc):
    """for whatever a called command does, the call returns what it emitted or fails, passes on its failed requirements and leaves the call depth as it was"""
    it = new(vc); m = vc.mod(IN); ctx = vc.mod(CX).create_context("m", "P", {"w": V(vc, 1, "INT")}, ""); kind = vc.choice("body raises", [None, RuntimeError, ZeroDivisionError, KeyError]); n = vc.choice("failed requirements", [0, 1, 2]); em = vc.choice("emitted", [True, False]); d = vc.choice("depth", [0, 3]); it.call_depth = d; x = V(vc, vc.int("x"), "INT"); a, b = V(vc, vc.int("a"), "INT"), V(vc, vc.int("b"), "INT"); seen = []
    def body(self, command, c):
        seen.append((dict(c.current_scope.variables), c.current_scope.parent, c is ctx, self.call_depth))
        for i in range(n): c.add_require_failure("r%d" % i)
        if em: c.set_emit(x, {})
        if kind: raise kind("why")
    mod = load(vc, "command D(p: int, q: int) -> int:\n    emit p\n"); it.current_module = mod; it._execute_command = types.MethodType(body, it); ctx.add_require_failure("own"); e, r = vc.raises(it._call_command, mod.commands[0], [a, b], ctx)
    vc.check("returns what was emitted", (e is None) == (kind is None and em)); vc.check("the value", e is not None or (r.data is x.data and r.type is x.type)); vc.check("requirements passed on", [f.message for f in ctx.require_failures] == ["own"] + ["r%d" % i for i in range(n)]); vc.check("depth restored", it.call_depth == d); vc.check("depth counted", seen[0][3] == d + 1)
    vc.check("its own scope", set(seen[0][0]) == {"p", "q"} and seen[0][0]["p"] is a and seen[0][0]["q"] is b and seen[0][1] is None and not seen[0][2]); vc.check("caller untouched", ctx.emit_result is None and set(ctx.current_scope.variables) == {"w"})

@contract("C16.arguments", [I + "_call_command", I + "_eval_function_call", I + "_wrap_parameters"], max_paths=3000)
def arguments(vc):
    """arguments reach the parameters by position and by name in any split, missing ones take their default, which sees the parameters before it and nothing else; anything else fails"""
    D = "command D(p: int, q: int = p + 1, s: int = 7) -> list<int>:\n    emit [p, q, s]\n\n"; x, y, z, p = vc.int("x"), vc.int("y"), vc.int("z"), vc.int("p")
    calls = {"D(x)": [x, x + 1, 7], "D(x, y)": [x, y, 7], "D(x, y, z)": [x, y, z], "D(p=x)": [x, x + 1, 7], "D(x, s=z)": [x, x + 1, z], "D(x, q=y)": [x, y, 7], "D(s=z, p=x)": [x, x + 1, z], "D(x, s=z, q=y)": [x, y, z], "D(q=y, s=z)": None, "D()": None, "D(x, p=y)": None, "D(x, t=y)": None, "D(x, y, z, x)": None}
    c = vc.choice("call", sorted(calls)); w = calls[c]; r = run(vc, D + "command C(x: int, y: int, z: int, p: int) -> list<int>:\n    q = y\n    emit %s\n" % c, dict(x=x, y=y, z=z, p=p))
    if w is None: fails(vc, r, "the call")
    else: vc.check("bound", r.success is True and len(r.geometry) == 3 and vc.and_(*[a == b for a, b in zip(r.geometry, w)]))
    k = vc.choice("given", [(), ("q",), ("s",), ("q", "s")]); v = dict(q=y, s=z); pr = dict(p=x, **{n: v[n] for n in k}); r = run(vc, D, pr, cmd="D"); vc.check("top level", r.success is True and vc.and_(*[a == b for a, b in zip(r.geometry, [x, y if "q" in k else x + 1, z if "s" in k else 7])])); vc.check("parameters kept", set(pr) == {"p", *k})
    r = run(vc, D, dict(q=y), cmd="D"); fails(vc, r, "a missing parameter")

@contract("C16.limits", [I + "_call_command", I + "_eval_list_comprehension", I + "_eval_comprehension_clauses", I + "__init__"], mode="bounded", why="limits are checked around small concrete values")
def limits(vc):
    """calls nested deeper than the limit, comprehensions with too many clauses and too large results fail the command; anything within the limits runs"""
    lim = vc.choice("limit", [1, 2, 5]); n = vc.choice("depth", [0, 1, 2, 3, 5, 6, 9]); it = new(vc, recursion_limit=lim); src = "command R(n: int) -> int:\n    emit 0 if n == 0 else R(n - 1) + 1\n"; r = run(vc, src, dict(n=n), cmd="R", it=it)
    if n <= lim: vc.check("within", r.success is True and r.geometry == n)
    else: fails(vc, r, "too deep")
    vc.check("depth restored", it.call_depth == 0); r = run(vc, src, dict(n=0), cmd="R", it=it); vc.check("usable again", r.success is True)
    k = vc.choice("clauses", [3, 4, 5, 6]); r = run(vc, "command C() -> list<int>:\n    emit [1 %s]\n" % " ".join("for a%d in [1]" % i for i in range(k)), {})
    if k <= 4: vc.check("clauses within", r.success is True and r.geometry == [1])
    else: fails(vc, r, "too many clauses")
    m = vc.mod(IN); old = m.DEFAULT_COMPREHENSION_MAX_SIZE; m.DEFAULT_COMPREHENSION_MAX_SIZE = 6
    try:
        a, b = vc.choice("a", [0, 2, 3, 7]), vc.choice("b", [1, 2, 3]); r = run(vc, "command C(a: int, b: int) -> int:\n    t = [i for i in range(a) for j in range(b)]\n    emit 1\n", dict(a=a, b=b))
        if a * b <= 6: vc.check("size within", r.success is True)
        else: fails(vc, r, "too large")
    finally: m.DEFAULT_COMPREHENSION_MAX_SIZE = old
    vc.check("documented limits", old == 100000 and m.DEFAULT_COMPREHENSION_MAX_DEPTH == 4 and m.DEFAULT_RECURSION_LIMIT == 100)

@contract("C16.independent", [IN + ":Interpreter.execute", I + "_wrap_parameters", IN + ":execute"], max_paths=3000)
def independent(vc):
    """running any command, successful or not, changes neither what another one gives afterwards nor its arguments"""
    src = LIB + "command A(x: int, xs: list<int>) -> list<int>:\n    y = x\n    xs = xs + [9] if x > 90 else xs\n    require x > 0, \"x\"\n    emit xs + [y]\n\ncommand B(x: int) -> int:\n    emit x + 1\n\ncommand Z(x: int) -> int:\n    emit x + y\n".replace("    xs = xs + [9] if x > 90 else xs\n", ""); x = vc.int("x"); it = new(vc); first = vc.choice("first", ["A", "B", "E", "F", "Z", "missing"]); xs = [1, 2]; p = {"A": dict(x=x, xs=xs), "B": dict(x=x), "E": dict(q=0), "F": dict(q=-1), "Z": dict(x=x), "missing": {}}[first]; before = dict(p)
    run(vc, src, p, cmd=first, it=it); vc.check("arguments kept", set(p) == set(before) and all(p[k] is before[k] for k in p) and xs == [1, 2]); mod = load(vc, src)
    r = run(vc, src, dict(x=x), cmd="B", it=it); vc.check("another command", r.success is True and r.geometry == x + 1 and not r.require_failures); r = run(vc, src, dict(x=x), cmd="Z", it=it); fails(vc, r, "a variable of the earlier run")
    r = run(vc, src, dict(x=x, xs=xs), cmd="A", it=it); vc.check("the same again", r.success is bool(x > 0)); vc.check("list kept", xs == [1, 2] and (not r.success or (len(r.geometry) == 3 and r.geometry[2] is x)))
NATIVE = 'native python {\n    def twice(x):\n        return 2 * x\n    def good(x):\n        return x > 0\n    def boom(x):\n        raise KeyError("x")\n} exports {\n    fn twice(x: float) -> float;\n    fn good(x: float) -> bool;\n    fn boom(x: float) -> float;\n}\n\n'
@contract("C16.native", [I + "_call_native_function", I + "_execute_native_block", IN + ":Interpreter.execute"], mode="bounded", why="native python text is executed by exec on concrete values")
def native(vc):
    """a native function's result reaches the program unchanged (a boolean stays one), its error fails the command, and it is gone when another module runs"""
    x = vc.real("x", -9, 9); it = new(vc); src = NATIVE + "command C(x: float) -> float:\n    require good(x), \"good\"\n    emit twice(x)\n\ncommand D(x: float) -> float:\n    emit boom(x)\n"; r = run(vc, src, dict(x=x), it=it); vc.check("verdict", r.success is (x > 0)); vc.check("value", not r.success or r.geometry == 2 * x); r = run(vc, src, dict(x=x), cmd="D", it=it); fails(vc, r, "its error")
    r = run(vc, "command C(x: float) -> float:\n    emit twice(x)\n", dict(x=x), it=it); fails(vc, r, "another module")

# ---------------------------------------------------------------- the functions every program may call
BU = "yapcad.dsl.runtime.builtins"; B = BU + ":BuiltinRegistry."
@contract("C16.math", [B + "_register_math_functions", I + "_eval_function_call"], oblig_ms=15000)
def math_functions(vc):
    """the mathematical functions have their standard values and result types"""
    import math as M
    f = vc.choice("function", ["sin cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "abs", "floor", "ceil", "round", "min", "max", "pow", "angles", "constants", "exp", "log"])
    fl = lambda what, r, w, **k: (vc.check(what, vc.eq(r.data, w, tol=1e-9)), vc.check(what + " is a float", str(r.type) == "float"))
    if f == "sin cos": x = vc.real("x"); fl("sin", expr(vc, "sin(x)", x=V(vc, x, "FLOAT")), vc.sin(x)); fl("cos", expr(vc, "cos(x)", x=V(vc, x, "FLOAT")), vc.cos(x))
    elif f in ("tan", "asin", "acos", "atan", "exp", "log"):
        for x in (0.25, 0.5, 0.9, 1.0) + ((-0.5,) if f != "log" else (3.0, 1000.0)): fl(f, expr(vc, f + "(x)", x=V(vc, x, "FLOAT")), getattr(M, f)(x))
        if f == "log": fl("log10", expr(vc, "log10(x)", x=V(vc, 1000.0, "FLOAT")), 3.0)
        if f in ("asin", "acos", "log"): e, r = vc.raises(expr, vc, f + "(x)", x=V(vc, -2.0, "FLOAT")); vc.check("no such value", e is not None)
    elif f == "atan2":
        c, s = vc.unit("u", 2); k = vc.real("k", 0.1, 5, pos=True); r = expr(vc, "atan2(y, x)", x=V(vc, k * c, "FLOAT"), y=V(vc, k * s, "FLOAT")); vc.check("angle", vc.and_(vc.eq(vc.cos(r.data), c, tol=1e-9), vc.eq(vc.sin(r.data), s, tol=1e-9))); vc.check("range", vc.and_(vc.le(r.data, M.pi, tol=1e-9), vc.ge(r.data, -M.pi, tol=1e-9)))
    elif f == "sqrt": x = vc.real("x", 0, 9, nonneg=True); r = expr(vc, "sqrt(x)", x=V(vc, x, "FLOAT")); vc.check("square", vc.and_(vc.eq(r.data * r.data, x, tol=1e-9), vc.ge(r.data, 0.0))); e, r = vc.raises(expr, vc, "sqrt(x)", x=V(vc, -1.0, "FLOAT")); vc.check("no root", e is not None)
    elif f == "abs":
        t = vc.choice("type", ["INT", "FLOAT"]); A = num(vc, "a", t); r = expr(vc, "abs(a)", a=A); vc.check("abs", vc.and_(r.data >= 0, vc.or_(r.data == A.data, r.data == -A.data))); vc.check("type", str(r.type) == t.lower())
    elif f in ("floor", "ceil", "round"):
        x = vc.real("x", -5, 5) if f != "round" else vc.choice("x", [-2.3, -0.7, 0.0, 0.4, 1.6, 7.0]); r = expr(vc, f + "(x)", x=V(vc, x, "FLOAT")); n = r.data; vc.check("an integer", str(r.type) == "int" and isinstance(n, int))
        if f == "floor": vc.check("floor", vc.and_(n <= x, x < n + 1))
        elif f == "ceil": vc.check("ceil", vc.and_(n >= x, x > n - 1))
        else: vc.check("round", abs(n - x) <= 0.5)
    elif f in ("min", "max"):
        ts = vc.choice("types", [("INT", "INT"), ("FLOAT", "FLOAT", "FLOAT"), ("INT", "FLOAT")]); A = [num(vc, "a%d" % i, t) for i, t in enumerate(ts)]; n = ["a", "b", "c"][:len(A)]; r = expr(vc, "%s(%s)" % (f, ", ".join(n)), **dict(zip(n, A))); vc.check("bound", vc.and_(*[(r.data <= a.data if f == "min" else r.data >= a.data) for a in A])); vc.check("attained", vc.or_(*[vc.eq(r.data, a.data) for a in A])); vc.check("type", str(r.type) == ("int" if set(ts) == {"INT"} else "float"))
    elif f == "pow": a = vc.real("a"); fl("pow", expr(vc, "pow(a, n)", a=V(vc, a, "FLOAT"), n=V(vc, 2.0, "FLOAT")), a * a)
    elif f == "angles": x = vc.real("x"); fl("radians", expr(vc, "radians(x)", x=V(vc, x, "FLOAT")), x * (M.pi / 180)); fl("degrees", expr(vc, "degrees(radians(x))", x=V(vc, x, "FLOAT")), x)
    else: fl("pi", expr(vc, "pi()"), M.pi); fl("tau", expr(vc, "tau()"), M.tau)
@contract("C16.list_functions", [B + "_register_utility_functions", I + "_eval_function_call"])
def list_functions(vc):
    """length, ranges, joining, turning round and flattening give the items in order; sums, products, extremes and quantifiers are over all items; the lists given are left alone"""
    n, k = vc.choice("n", [0, 1, 3]), vc.choice("k", [0, 2]); X, Y = [vc.real("x%d" % i) for i in range(n)], [vc.real("y%d" % i) for i in range(k)]; v = dict(xs=L(vc, X, "FLOAT"), ys=L(vc, Y, "FLOAT")); D = vc.mod("yapcad.dsl.types"); same = lambda r, w: len(r.data) == len(w) and all(p is q for p, q in zip(r.data, w))
    r = expr(vc, "len(xs)", **v); vc.check("length", r.data == n and str(r.type) == "int"); r = expr(vc, "concat(xs, ys)", **v); vc.check("joined", same(r, X + Y) and str(r.type) == "list<float>"); r = expr(vc, "reverse(xs)", **v); vc.check("reversed", same(r, X[::-1]) and str(r.type) == "list<float>")
    r = expr(vc, "flatten([xs, ys, xs])", **v); vc.check("flat", same(r, X + Y + X)); vc.check("left alone", same(v["xs"], X) and same(v["ys"], Y))
    a, b, s = vc.choice("range", [(0, 3, 1), (2, 2, 1), (5, 1, -2), (-1, 4, 3), (3, 0, 1)]); V3 = dict(a=V(vc, a, "INT"), b=V(vc, b, "INT"), s=V(vc, s, "INT")); vc.check("range", expr(vc, "range(a, b, s)", **V3).data == list(range(a, b, s)) and expr(vc, "range(a, b)", **V3).data == list(range(a, b)) and expr(vc, "range(b)", **V3).data == list(range(b)))
    r = expr(vc, "sum(xs)", **v); t = 0.0; p = 1.0
    for x in X: t = t + x; p = p * x
    vc.check("sum", vc.and_(vc.eq(r.data, t, tol=1e-9), str(r.type) == "float")); r = expr(vc, "product(xs)", **v); vc.check("product", vc.eq(r.data, p, tol=1e-9))
    for f in ("min_of", "max_of"):
        e, r = vc.raises(expr, vc, f + "(xs)", **v)
        if n == 0: vc.check("no extreme of nothing", e is not None)
        else: vc.check(f, vc.and_(e is None, *[(r.data <= x if f == "min_of" else r.data >= x) for x in X])); vc.check(f + " attained", vc.or_(*[vc.eq(r.data, x) for x in X]))
    P = [vc.bool("p%d" % i) for i in range(n)]; v = dict(ps=L(vc, P, "BOOL")); vc.check("any", vc.iff(expr(vc, "any_true(ps)", **v).data, vc.or_(False, *P))); vc.check("all", vc.iff(expr(vc, "all_true(ps)", **v).data, vc.and_(True, *P)))

# ---------------------------------------------------------------- how a program is laid out
def grow(R, depth, n=None):
    """a random block: a list of statements"""
    out = []
    for _ in range(n or R.randint(1, 3)):
        k = R.choice(["let", "let", "emit", "if", "if", "for"] if depth else ["let", "emit"]); v = R.choice("abcd")
        if k in ("let", "emit"): out.append([k, v])
        elif k == "if": out.append(["if", v, grow(R, depth - 1), [[R.choice("abcd"), grow(R, depth - 1)] for _ in range(R.choice([0, 0, 1, 2]))], grow(R, depth - 1) if R.random() < 0.5 else None])
        else: out.append([k, v, grow(R, depth - 1)])
    return out
def write(R, block, at):
    """the block as lines of source, indented somehow, with comments and empty lines anywhere"""
    def line(t):
        pre = R.choice(["", "", "", "# note\n", "\n", "   \n", "/* a note */\n", "\t# x\n", " " * R.randint(0, 9) + "/* over\n two */\n", "\n\n"]); front = R.choice([at] * 9 + [at + "/* n */ "]); return pre + front + t + R.choice(["", "", "", " ", " # why", "  /* so */", "# ; x", " /* over\n   two lines */"]) + "\n"
    inner = at + R.choice(["    ", "  ", " ", "\t", "        "]) if not at.strip(" ") else at + R.choice(["    ", "\t"]); o = []; sub = lambda b: write(R, b, inner)
    for s in block:
        if s[0] == "let": o.append(line("%s%s= %s" % (s[1], R.choice(["", " "]), R.choice(["1", "(1 +\n2)", "[1,\n      2]", "[\n1,\n# c\n2]", "( 1 )", "/* v */ 1", "1 /* over\n lines */ + 2", '"""a\n  b""" + "c"']))))
        elif s[0] == "emit": o.append(line("emit " + s[1]))
        elif s[0] == "if":
            o.append(line("if %s:" % s[1]) + sub(s[2])); o += [line("elif %s:" % c) + sub(b) for c, b in s[3]]
            if s[4] is not None: o.append(line("else:") + sub(s[4]))
        else: o.append(line("for %s in range(2):" % s[1]) + sub(s[2]))
    return "".join(o)
def outline(b):
    o = []
    for s in b.statements:
        n = type(s).__name__; i = lambda e: getattr(e, "name", e)
        if n == "VarDecl": o.append(["let", s.name])
        elif n == "AssignmentStatement": o.append(["let", i(s.target)])
        elif n == "EmitStatement": o.append(["emit", i(s.value)])
        elif n == "IfStatement": o.append(["if", i(s.condition), outline(s.then_branch), [[i(e.condition), outline(e.body)] for e in s.elif_branches], None if s.else_branch is None else outline(s.else_branch)])
        elif n == "ForStatement": o.append(["for", s.variable, outline(s.body)])
        else: o.append([n])
    return o + ([["expression"]] if b.final_expression is not None else [])
@contract("C16.layout", [LX + ":Lexer." + n for n in ("_handle_line_start", "_skip_comment", "_skip_multiline_comment", "_skip_whitespace_within_line", "_scan_token", "_scan_identifier_or_keyword")] + [P + n for n in ("_parse_block", "_parse_statement", "_parse_if_statement", "_parse_for_statement", "_parse_emit_statement")] + [PA + ":parse", LX + ":tokenize"], mode="bounded", why="random programs up to three blocks deep, written with random indentation, comments and empty lines", samples=1500)
def layout(vc):
    """a statement belongs to exactly the block its indentation puts it in, whatever comments, empty lines and line breaks within brackets there are"""
    import random
    R = random.Random(vc.choice("program", list(range(100000)))); t = grow(R, R.randint(0, 3)); u = grow(R, R.randint(0, 1)); src = R.choice(["", "# head\n", "\n\n", "/* head\n */\n"]) + "module m\n\n" + "".join(R.choice(["", "# c\n", "\n"]) + "command %s(a: int) -> int:\n" % n + write(R, b, R.choice(["    ", "  ", "\t"])) + R.choice(["", "\n", "\n\n"]) for n, b in (("C", t), ("D", u)))
    if R.random() < 0.3: src = src.rstrip()
    try: m = vc.mod(PA).parse(vc.mod(LX).tokenize(src), source=src); got = [(c.name, outline(c.body)) for c in m.commands]
    except Exception as e: got = "%s: %s in %r" % (type(e).__name__, e, src)
    vc.check("blocks", got == [("C", t), ("D", u)])
STR = [('"%s"', "a'b"), ("'%s'", 'a"b'), ('"%s"', "a\\nb\\t\\\\\\\"c"), ('"""%s"""', "a\nb \"c\" # d"), ("'%s'", "\\x41\\u00e9 // # /* x */"), ('"%s"', "")]
@contract("C16.strings", [LX + ":Lexer._scan_string", LX + ":Lexer._scan_multiline_string", LX + ":Lexer._scan_escape_sequence", I + "_eval_literal"], mode="bounded", why="literal texts are enumerated")
def strings(vc):
    """a string literal is the text between its quotes with escapes replaced, and an unfinished one is an error"""
    import ast
    q, t = vc.choice("string", STR); r = expr(vc, q % t); vc.check("text", r.data == ast.literal_eval(q % t)); vc.check("type", str(r.type) == "string"); r = expr(vc, "%s + %s" % (q % t, q % "z")); vc.check("joined", r.data == ast.literal_eval(q % t) + "z")
    for bad in ('"abc', "'abc\n'", '"""abc"', '"\\q"', '"\\x4"'): e, _ = vc.raises(lambda: vc.mod(LX).tokenize(bad)); vc.check("unfinished", e is not None)
