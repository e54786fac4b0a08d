"""Mechanical extraction of loops from the current source of a function, for invariant reasoning.

`Cut(fn, n)` splits the function around its n-th loop (source order).  The pieces run the function's own
statements, recompiled from its current source file; the only changes are: local variables live in a
namespace, `return`/`break`/`continue` that belong to the cut loop (or the function) become exceptions, and
loops listed in `replace` are replaced by a summary call.  If the function has no such loop any more
(it was rewritten), TargetMissing is raised: the obligation is then undecided, never refuted."""
import ast, inspect, textwrap, types

class Ctl(BaseException): pass
class Return(Ctl):
    def __init__(self, v=None): self.v = v
class Break(Ctl): pass
class Continue(Ctl): pass

class _Flow(ast.NodeTransformer):
    def __init__(self, replace): self.depth = 0; self.replace = replace
    def visit_FunctionDef(self, n): return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    def _raise(self, n, name, arg=None):
        c = ast.Call(ast.Name(name, ast.Load()), [arg] if arg is not None else [], [])
        return ast.copy_location(ast.Raise(c, None), n)
    def visit_Return(self, n): return self._raise(n, "__Return", n.value or ast.Constant(None))
    def visit_Break(self, n): return n if self.depth else self._raise(n, "__Break")
    def visit_Continue(self, n): return n if self.depth else self._raise(n, "__Continue")
    def _loop(self, n):
        if n in self.replace:
            k = self.replace[n]
            return ast.copy_location(ast.Expr(ast.Call(ast.Name("__sum_%d" % k, ast.Load()), [ast.Call(ast.Name("globals", ast.Load()), [], [])], [])), n)
        self.depth += 1; r = self.generic_visit(n); self.depth -= 1
        return r
    visit_For = visit_While = _loop

class Env(dict):
    """the locals of an extracted piece; asking for one the code does not have means the code was restructured"""
    missing = RuntimeError
    def __missing__(self, k): raise self.missing("no local variable %r in the extracted code" % k)

class Cut:
    def __init__(self, fn, n=0, replace=None, missing=RuntimeError):
        fn = inspect.unwrap(getattr(fn, "__func__", fn))
        self.fn = fn; self.missing = missing
        try: src = textwrap.dedent(inspect.getsource(fn))
        except (OSError, TypeError) as e: raise missing("no source: %s" % e)
        self.tree = ast.parse(src).body[0]
        self.loops = []
        def walk(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): continue
                if isinstance(s, (ast.For, ast.While)): self.loops.append(s)
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if b: walk(b)
                for h in getattr(s, "handlers", []): walk(h.body)
        walk(self.tree.body)
        if n >= len(self.loops): raise missing("%s has no loop %d" % (fn.__qualname__, n))
        self.loop = self.loops[n]; self.n = n
        self.sums = replace or {}
        self.repl = {}
        for k in self.sums:
            if k >= len(self.loops): raise missing("%s has no loop %d" % (fn.__qualname__, k))
            self.repl[self.loops[k]] = k
        self.top = self.tree.body.index(self.loop) if self.loop in self.tree.body else None
    def _env(self, env):
        g = dict(self.fn.__globals__)
        if self.fn.__closure__:
            for k, c in zip(self.fn.__code__.co_freevars, self.fn.__closure__):
                try: g[k] = c.cell_contents
                except ValueError: pass
        g.update(env)
        g.update({"__Return": Return, "__Break": Break, "__Continue": Continue})
        for k, f in self.sums.items(): g["__sum_%d" % k] = f
        return g
    def _run(self, stmts, env):
        import copy
        mod = ast.Module([], [])
        fl = _Flow(self.repl)
        # transform copies, keeping the identity of loops to be replaced
        memo = {id(l): l for l in self.repl}
        for s in stmts:
            s = copy.deepcopy(s, memo) if s not in self.repl else s
            mod.body.append(fl.visit(s))
        ast.fix_missing_locations(mod)
        g = self._env(env)
        code = compile(mod, inspect.getsourcefile(self.fn) or "<cut>", "exec")
        kind, val = "next", None
        try: exec(code, g)
        except (NameError, KeyError) as e:
            nm = getattr(e, "name", None)
            if isinstance(e, NameError) and nm is not None and nm in self.fn.__code__.co_varnames:
                raise self.missing("the extracted code needs a local %r the contract does not give" % nm)
            raise
        except Return as r: kind, val = "return", r.v
        except Break: kind = "break"
        except Continue: kind = "next"
        for k, v in g.items():
            if k.startswith("__"): continue
            env[k] = v
        return kind, val
    def args(self, *a, **k):
        """the parameters bound as a call would"""
        b = inspect.signature(self.fn).bind(*a, **k); b.apply_defaults()
        E = type("Env", (Env,), {"missing": self.missing})
        return E(b.arguments)
    def pre(self, *a, **k):
        """run the statements before the loop -> (kind, value, locals)"""
        if self.top is None: raise self.missing("the loop is nested")
        env = self.args(*a, **k)
        kind, v = self._run(self.tree.body[:self.top], env)
        return kind, v, env
    def body(self, env, item=None):
        """run one iteration -> (kind, value); env is updated"""
        st = list(self.loop.body)
        if isinstance(self.loop, ast.For):
            env = env; env["__item"] = item
            st = [ast.copy_location(ast.Assign([self.loop.target], ast.copy_location(ast.Name("__item", ast.Load()), self.loop.target)), self.loop.target)] + st
        return self._run(st, env)
    def test(self, env):
        g = self._env(env)
        return eval(compile(ast.fix_missing_locations(ast.Expression(self.loop.test)), "<cut>", "eval"), g)
    def over(self, env):
        """the value of the iterated expression"""
        g = self._env(env)
        return eval(compile(ast.fix_missing_locations(ast.Expression(self.loop.iter)), "<cut>", "eval"), g)
    def post(self, env):
        """run the statements after the loop -> (kind, value)"""
        if self.top is None: raise self.missing("the loop is nested")
        return self._run(list(self.loop.orelse) + self.tree.body[self.top + 1:], env)

def _find(tree, name):
    for s in ast.walk(tree):
        if isinstance(s, ast.FunctionDef) and s.name == name and s is not tree: return s
    return None

def inner(fn, name, env, missing=RuntimeError):
    """the nested function `name` of fn, recompiled from the current source; the names it takes from the enclosing
    function (itself included, for recursion) are given by env"""
    fn = inspect.unwrap(getattr(fn, "__func__", fn))
    try: tree = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    except (OSError, TypeError) as e: raise missing("no source: %s" % e)
    f = _find(tree, name)
    if f is None: raise missing("%s has no nested function %s" % (fn.__qualname__, name))
    import copy
    f = copy.deepcopy(f); f.name = "inner_0"
    mk = ast.FunctionDef("mk_0", ast.arguments([], [ast.arg(k) for k in env], None, [], [], None, []), [f, ast.Return(ast.Name("inner_0", ast.Load()))], [])
    q = fn.__qualname__.split("."); cls = q[-2] if len(q) > 1 and q[-2] != "<locals>" else "Outer"
    mod = ast.Module([ast.ClassDef(cls, [], [], [mk], [])], [])
    for n in ast.walk(mod):
        if hasattr(n, "type_params") is False and isinstance(n, (ast.FunctionDef, ast.ClassDef)): n.type_params = []
    ast.fix_missing_locations(mod)
    loc = {}
    exec(compile(mod, inspect.getsourcefile(fn) or "<inner>", "exec"), fn.__globals__, loc)
    free = set(f.args.args and [a.arg for a in f.args.args]) | set(env)
    g = loc[cls].__dict__["mk_0"](**env)
    for nm in g.__code__.co_names:      # a name of the enclosing function that the contract does not supply
        if nm not in fn.__globals__ and not hasattr(__builtins__ if not isinstance(__builtins__, dict) else types.SimpleNamespace(**__builtins__), nm) and nm in set(fn.__code__.co_varnames) | set(fn.__code__.co_cellvars):
            raise missing("%s uses %r, which the contract does not give" % (name, nm))
    return g

class Comp:
    """one comprehension of a function, extracted from its current source: what it ranges over and what it makes of
    one element.  A comprehension with one `for` treats every element on its own, so a fact about elt() for an
    arbitrary element is a fact about all elements, whatever their number."""
    def __init__(self, fn, n=0, missing=RuntimeError):
        self.c = Cut.__new__(Cut); fn = inspect.unwrap(getattr(fn, "__func__", fn)); self.c.fn = fn; self.c.sums = {}; self.missing = missing
        try: tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
        except (OSError, TypeError) as e: raise missing("no source: %s" % e)
        cs = sorted([x for x in ast.walk(tree) if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp))], key=lambda x: (x.lineno, x.col_offset))
        if n >= len(cs): raise missing("%s has no comprehension %d" % (fn.__qualname__, n))
        self.node = cs[n]
        if len(self.node.generators) != 1: raise missing("nested comprehension")
        for x in ast.walk(self.node):
            if isinstance(x, ast.NamedExpr): raise missing("the comprehension has effects")
    def _eval(self, e, g):
        try: return eval(compile(ast.fix_missing_locations(ast.Expression(e)), "<comp>", "eval"), g)
        except NameError as ex: raise self.missing("the extracted code needs %r" % getattr(ex, "name", None))
    def over(self, env): return self._eval(self.node.generators[0].iter, self.c._env(env))
    def elt(self, env, item):
        """-> (kept, value)"""
        gen = self.node.generators[0]; g = self.c._env(env); g["__item"] = item
        exec(compile(ast.fix_missing_locations(ast.Module([ast.copy_location(ast.Assign([gen.target], ast.copy_location(ast.Name("__item", ast.Load()), gen.target)), gen.target)], [])), "<comp>", "exec"), g)
        for t in gen.ifs:
            if not self._eval(t, g): return False, None
        if isinstance(self.node, ast.DictComp): return True, (self._eval(self.node.key, g), self._eval(self.node.value, g))
        return True, self._eval(self.node.elt, g)
