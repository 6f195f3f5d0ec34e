"""Source-to-source instrumentation of /repo/mau (done at import, from the current source).

The transformation keeps the meaning on ordinary values; it only routes the operations that C code
would perform on symbolic values through the runtime in rt.py.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

SKIP_NAMES = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


CMP_OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
AUG_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}


def _plain_target(t):
    while isinstance(t, ast.Attribute):
        t = t.value
    return isinstance(t, ast.Name)


def _stores(t):
    if isinstance(t, ast.Subscript):
        return not isinstance(t.slice, ast.Slice)
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(map(_stores, t.elts))
    return isinstance(t, ast.Starred) and _stores(t.value)


class Tr(ast.NodeTransformer):
    def _body(self, node):
        node.body = self._stmts(node.body)

    def _stmts(self, body):
        out = []
        for x in map(self.visit, body):
            out.extend(x if isinstance(x, list) else [x])
        return out

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        self._body(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._body(node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            return node
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_NAMES:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            return node
        self.generic_visit(node)
        return ast.Call(func=_name("_X_call"), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return _call("_X_in", node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=_call("_X_in", node.left, node.comparators[0]))
            name = CMP_OPS.get(type(op))
            if name:
                return _call("_X_cmp", ast.Constant(value=name), node.left, node.comparators[0])
        elif any(isinstance(op, (ast.In, ast.NotIn)) for op in node.ops) and not any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            pairs = []
            for op, c in zip(node.ops, node.comparators):
                name = {ast.In: "in", ast.NotIn: "not in"}.get(type(op)) or CMP_OPS.get(type(op))
                if name is None:
                    return node
                fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                body=c)
                pairs.append(ast.Tuple(elts=[ast.Constant(value=name), fn], ctx=ast.Load()))
            return _call("_X_chain", node.left, *pairs)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = v.conversion
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value=None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=conv), spec], ctx=ast.Load()))
        return _call("_X_fmt", ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return _call("_X_get", node.value, node.slice)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        t = node.targets
        if len(t) == 1 and isinstance(t[0], ast.Subscript) and not isinstance(t[0].slice, ast.Slice):
            sub = t[0]
            return ast.Expr(value=_call("_X_set", self.visit(sub.value), self.visit(sub.slice), node.value))
        if not any(_stores(x) for x in t):
            node.targets = [self.visit(x) for x in t]
            return node
        # several targets, or subscripts within a tuple: through temporaries, in order
        out = []
        value = node.value
        if len(t) > 1:
            out.append(ast.Assign(targets=[ast.Name(id="_X_v", ctx=ast.Store())], value=node.value))
            value = _name("_X_v")
        for x in t:
            late = []
            x = self._target(x, late)
            if isinstance(x, ast.Name) and late and x.id == late[0].args[2].id:
                late[0].args[2] = value
            else:
                out.append(ast.Assign(targets=[x], value=value))
            out.extend(ast.Expr(value=c) for c in late)
        return out

    def _target(self, x, late):
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
            n = "_X_t%d" % len(late)
            late.append(_call("_X_set", self.visit(x.value), self.visit(x.slice), _name(n)))
            return ast.Name(id=n, ctx=ast.Store())
        if isinstance(x, (ast.Tuple, ast.List)):
            x.elts = [self._target(y, late) for y in x.elts]
            return x
        if isinstance(x, ast.Starred):
            x.value = self._target(x.value, late)
            return x
        return self.visit(x)


    def visit_AugAssign(self, node):
        op = ast.Constant(value=AUG_OPS[type(node.op)])
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice):
            return ast.Expr(value=_call("_X_aug", self.visit(node.target.value), self.visit(node.target.slice),
                                        self.visit(node.value), op))
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub, ast.Mod)) and _plain_target(node.target):
            load = ast.parse(ast.unparse(node.target), mode="eval").body
            return ast.Assign(targets=[node.target], value=_call("_X_iop", op, load, self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(value=_call("_X_del", self.visit(t.value), self.visit(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out if len(out) > 1 else out[0]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        names = {ast.Mod: "%", ast.Sub: "-", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}
        op = names.get(type(node.op))
        if op:
            return _call("_X_bin", ast.Constant(value=op), node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return _call("_X_dict", ast.Tuple(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return _call("_X_dict", lc)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return _call("_X_mkset", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("_X_mkset", ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = _call("_X_iter", node.iter)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = _call("_X_iter", node.value)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = _call("_X_iter", node.iter)
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = self._stmts(c.body)
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, package, rt):
        self.root, self.package, self.rt = root, package, rt
        self.sources = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *fullname.split("."))
        for fn, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(fn):
                spec = importlib.machinery.ModuleSpec(fullname, self, origin=fn, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [base]
                spec.has_location = True
                return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, self, origin=None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        if fn is None:
            return
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        self.sources[module.__name__] = src
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        g = module.__dict__
        g.update(self.rt.namespace(self))
        exec(compile(tree, fn, "exec"), g)


def load_worlds(repo, package="mau", extra_paths=()):
    """Import the package twice: natively and instrumented.  Returns (native, instrumented, sources)."""
    from . import rt
    for p in extra_paths:
        if p not in sys.path:
            sys.path.append(p)
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import importlib

    def names():
        out = []
        for d, dirs, files in os.walk(os.path.join(repo, package)):
            dirs.sort()
            rel = os.path.relpath(d, repo).replace(os.sep, ".")
            if "__pycache__" in rel:
                continue
            if "__init__.py" in files:
                out.append(rel)
            for f in sorted(files):
                if f.endswith(".py") and f not in ("__init__.py", "__main__.py", "test_helpers.py"):
                    out.append(rel + "." + f[:-3])
        return out

    def grab():
        mods = {k: sys.modules.pop(k) for k in list(sys.modules) if k == package or k.startswith(package + ".")}
        return mods

    def load():
        for n in names():
            try:
                importlib.import_module(n)
            except ImportError:
                # optional plugin dependencies of a module that nothing else needs
                if n in sys.modules:
                    del sys.modules[n]
        return grab()

    for k in list(sys.modules):
        if k == package or k.startswith(package + "."):
            del sys.modules[k]
    finder = Finder(repo, package, rt)
    sys.meta_path.insert(0, finder)
    try:
        inst = load()
    finally:
        sys.meta_path.remove(finder)
    finder.modules = inst
    native = load()
    for m, mod in native.items():
        sys.modules[m] = mod
    return native, inst, finder.sources
