"""Loads /repo/histbook from its current source, mechanically instrumented.

What the instrumentation does (and all it does):
  * f(args)            -> _vc_call(f, args)       so that builtins can take symbolic arguments
  * comprehensions     -> _vc_comp(kind, iterable, lambda it: <the same comprehension over it>)
  * for x in it: body  -> the same loop when `it` is concrete; the loop rule (_vc_loop) when it is symbolic
  * while c: body      -> the same loop, counted; where a contract gives a rule for it, the test is passed to the rule as a lambda
  * {}                 -> _vc_emptydict(), an empty dict unless a contract watches new dicts
  * def f              -> decorated with _vc_def(qualified name), where contracts of callees are looked up
  * x in y, x not in y -> _vc_in(x, y) so that containers can answer symbolically
  * f"..", "..." % x   -> _vc_text, _vc_percent: the same text, also where a part is a symbolic text
  * docstrings are kept, comments are lost (as in every Python compilation)
Nothing is rewritten by hand: the text that is verified is the text that runs.
"""
import ast, builtins, os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
NOCALL = {"globals", "locals", "super", "vars"}

STANDINS = {}        # modules that contracts put in place of packages that are not installed

def names_assigned(body):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith("_vc"):
                out.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in out: out.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for b in body:
        V().visit(b)
    return out

class Instr(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.loops = {}
        self.n = 0
        self.glob = [set()]

    def qual(self):
        return ".".join([self.module] + self.stack)

    def uid(self):
        self.n += 1
        return self.n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and (n.func.id in NOCALL or n.func.id.startswith("_vc")):
            return n
        return ast.copy_location(ast.Call(ast.Name("_vc_call", ast.Load()), [n.func] + n.args, n.keywords), n)

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.FormattedValue) and (x.conversion not in (-1, 115) or x.format_spec is not None) for x in n.values):
            return n
        parts = [x.value if isinstance(x, ast.FormattedValue) else x for x in n.values]
        return ast.copy_location(ast.Call(ast.Name("_vc_text", ast.Load()), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("_vc_percent", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "_vc_in" if isinstance(n.ops[0], ast.In) else "_vc_notin"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    def comp(self, n, kind):
        first = n.generators[0].iter
        it = self.visit(first)
        n.generators[0].iter = ast.Name("_vc_it", ast.Load())
        self.generic_visit(n)
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg("_vc_it")], kwonlyargs=[], kw_defaults=[], defaults=[]), n)
        return ast.copy_location(ast.Call(ast.Name("_vc_comp", ast.Load()), [ast.Constant(kind), it, lam], []), n)
    def visit_ListComp(self, n): return self.comp(n, "list")
    def visit_SetComp(self, n): return self.comp(n, "set")
    def visit_DictComp(self, n): return self.comp(n, "dict")
    def visit_GeneratorExp(self, n): return self.comp(n, "gen")

    def fun(self, n):
        outer = self.stack
        self.stack = self.stack + [n.name]
        decl = set()
        for b in ast.walk(n):
            if isinstance(b, (ast.Nonlocal, ast.Global)):
                decl.update(b.names)
        self.glob.append(decl)
        q = self.qual()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.block(n.body)
        self.glob.pop()
        self.stack = outer
        n.decorator_list = n.decorator_list + [ast.copy_location(ast.Call(ast.Name("_vc_def", ast.Load()), [ast.Constant(q)], []), n)]
        return n
    visit_FunctionDef = fun

    def visit_ClassDef(self, n):
        outer = self.stack
        self.stack = self.stack + [n.name]
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        n.body = self.block(n.body)
        self.stack = outer
        return n

    def block(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, n):
        u = self.uid()
        q = self.qual()
        k = self.loops[q] = self.loops.get(q, 0) + 1
        key = "{0}#{1}".format(q, k)
        itn, ln = "_vc_it{0}".format(u), "_vc_L{0}".format(u)
        infunc = len(self.glob) > 1
        assigned = names_assigned(n.body) + [x for x in names_assigned([ast.Assign([n.target], ast.Constant(0))])]
        it = self.visit(n.iter)
        import copy
        snap = dict(self.loops)
        body = self.block([copy.deepcopy(b) for b in n.body])
        orelse = self.block([copy.deepcopy(b) for b in n.orelse])
        self.loops = snap
        body2 = self.block(n.body)
        orelse2 = self.block(n.orelse)
        def name(x): return ast.Name(x, ast.Load())
        def assign(x, meth):
            return ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Attribute(name(ln), meth, ast.Load()), [ast.Constant(x), ast.Call(name("locals"), [], [])], []))
        state = [x for x in names_assigned(n.body)]
        symb = [ast.Assign([ast.Name(ln, ast.Store())], ast.Call(name("_vc_loop"), [name(itn), ast.Constant(key), ast.Constant(tuple(assigned))], []))]
        symb += [assign(x, "enter") for x in state]
        symb += [ast.For(n.target, name(ln), body, [assign(x, "exit") for x in state] + orelse, None)]
        conc = [ast.For(n.target, name(itn), body2, orelse2, None)]
        out = [ast.Assign([ast.Name(itn, ast.Store())], it),
               ast.If(ast.Call(name("_vc_issym"), [name(itn)], []), symb, conc)]
        for x in out:
            ast.copy_location(x, n)
            for y in ast.walk(x):
                if not hasattr(y, "lineno") and isinstance(y, (ast.stmt, ast.expr)):
                    ast.copy_location(y, n)
            ast.fix_missing_locations(x)
        return out

    def testfn(self, test, state):
        """the loop's condition as a function of the loop's variables (for invariants)"""
        import copy
        used = [x for x in state if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(test))]
        if any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for y in ast.walk(test)):
            return ast.Constant(None)
        return ast.Lambda(ast.arguments([], [ast.arg(x) for x in used], None, [], [], None, []), copy.deepcopy(test))

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys:
            return n
        return ast.copy_location(ast.Call(ast.Name("_vc_emptydict", ast.Load()), [], []), n)

    def visit_While(self, n):
        u = self.uid()
        q = self.qual()
        k = self.loops[q] = self.loops.get(q, 0) + 1
        key = "{0}#{1}".format(q, k)
        wn = "_vc_W{0}".format(u)
        state = names_assigned(n.body)
        def name(x): return ast.Name(x, ast.Load())
        def assign(x, meth):
            return ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Attribute(name(wn), meth, ast.Load()), [ast.Constant(x), ast.Call(name("locals"), [], [])], []))
        test = self.visit(n.test)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        pre = [ast.Assign([ast.Name(wn, ast.Store())], ast.Call(name("_vc_while"), [ast.Constant(key), ast.Constant(tuple(state)), self.testfn(test, state)], []))]
        pre += [assign(x, "enter") for x in state]
        loop = ast.While(ast.BoolOp(ast.And(), [ast.Call(ast.Attribute(name(wn), "tick", ast.Load()), [ast.Call(name("locals"), [], [])], []), test]), body, orelse)
        out = pre + [loop]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    # statement lists live in these fields: go through block() so that loops can expand
    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(node, field, self.block(old))
            elif isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(node, field)
                else:
                    setattr(node, field, new)
        return node

def load(runtime, numpy_facade, modules=None):
    """returns the loaded package; `runtime` supplies the _vc_* names"""
    import collections, collections.abc
    for n in ("MutableMapping", "Mapping", "Sequence"):
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))
    for n in list(sys.modules):
        if n == "histbook" or n.startswith("histbook."):
            del sys.modules[n]
    realimport = builtins.__import__
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == "numpy" or name.startswith("numpy."):
            return numpy_facade
        if name in STANDINS:
            return STANDINS[name]
        if name.split(".")[0] in ("pandas", "ROOT", "pyspark", "scipy", "uproot"):
            raise ImportError(name)
        return realimport(name, globals, locals, fromlist, level)
    bi = types.ModuleType("builtins")
    bi.__dict__.update(builtins.__dict__)
    bi.__dict__["__import__"] = imp
    for n in dir(runtime):
        if n.startswith("_vc"):
            bi.__dict__[n] = getattr(runtime, n)
    for n, x in getattr(runtime, "OVERRIDES", {}).items():
        bi.__dict__[n] = x

    class Finder(object):
        def find_spec(self, name, path=None, target=None):
            if name != "histbook" and not name.startswith("histbook."):
                return None
            import importlib.machinery
            rel = name.split(".")
            d = os.path.join(REPO, *rel)
            if os.path.isdir(d):
                f, pkg = os.path.join(d, "__init__.py"), True
            else:
                f, pkg = d + ".py", False
            if not os.path.exists(f):
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pkg)
            if pkg:
                spec.submodule_search_locations = [d]
            return spec
        def create_module(self, spec):
            return None
        def exec_module(self, mod):
            f = mod.__spec__.origin
            mod.__file__ = f
            with open(f) as h:
                text = h.read()
            tree = ast.parse(text, f)
            short = mod.__name__.replace("histbook.", "", 1)
            if short not in ("util.astunparse", "calc.spark", "version"):
                tree = Instr(short).visit(tree)
                ast.fix_missing_locations(tree)
            mod.__dict__["__builtins__"] = bi.__dict__
            exec(compile(tree, f, "exec"), mod.__dict__)
    finder = Finder()
    sys.meta_path.insert(0, finder)
    try:
        import importlib
        pkg = importlib.import_module("histbook")
        for m in ("expr", "instr", "calc", "axis", "fill", "hist", "proj", "book"):
            importlib.import_module("histbook." + m)
    finally:
        sys.meta_path.remove(finder)
    return pkg
