"""Source transformation and loading of the code under test.

The source of /repo is read, parsed and rewritten on every run: calls,
subscripts, membership tests, % and f-strings go through hooks that give them
their meaning on symbolic values; everything else runs as ordinary Python.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


def _simple(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return _simple(n.value)
    if isinstance(n, ast.Tuple):
        return all(_simple(e) for e in n.elts)
    if isinstance(n, ast.Subscript):
        # may raise: evaluated ahead of the condition only in a try
        return _simple(n.value) and not isinstance(n.slice, ast.Slice) and _simple(n.slice)
    return False


def _keyed(t):
    """A subscript whose key may be symbolic."""
    if not isinstance(t, ast.Subscript):
        return False
    s = t.slice
    return not isinstance(s, (ast.Slice, ast.Constant)) and not (
        isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts))


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0

    def hook(self, name, args, node):
        return ast.copy_location(ast.Call(func=_name(name), args=args, keywords=[]), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_name("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords), node
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        key = self._key(node.slice)
        return self.hook("__sx_getitem__", [node.value, key], node)

    def visit_Assign(self, node):
        if not any(_keyed(t) for t in node.targets):
            self.generic_visit(node)
            return node
        value = self.visit(node.value)
        out = []
        if len(node.targets) > 1:
            self.tmp += 1
            name = "__sx_v%d" % self.tmp
            out.append(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=value))
            value = _name(name)
        for t in node.targets:
            if _keyed(t):
                out.append(ast.Expr(value=self.hook("__sx_setitem__", [value, self.visit(t.value), self.visit(t.slice)], node)))
            else:
                out.append(ast.Assign(targets=[self.visit(t)], value=value))
        return [ast.copy_location(x, node) for x in out]

    def visit_AugAssign(self, node):
        t = node.target
        if not _keyed(t):
            self.generic_visit(node)
            return node
        self.tmp += 1
        o, k, v = ("__sx_%s%d" % (x, self.tmp) for x in "okv")
        store = lambda n, x: ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=x)
        out = [
            store(o, self.visit(t.value)), store(k, self.visit(t.slice)),
            store(v, self.hook("__sx_getitem__", [_name(o), _name(k)], node)),
            ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=node.op, value=self.visit(node.value)),
            ast.Expr(value=self.hook("__sx_setitem__", [_name(v), _name(o), _name(k)], node)),
        ]
        return [ast.copy_location(x, node) for x in out]

    def _key(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(
                func=_name("__sx_slice__"),
                args=[s.lower or none, s.upper or none, s.step or none],
                keywords=[],
            )
        if isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts):
            return ast.Tuple(elts=[self._key(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return self.hook("__sx_in__", [l, r], node)
        if isinstance(op, ast.NotIn):
            return self.hook("__sx_notin__", [l, r], node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            return self.hook("__sx_is__" if isinstance(op, ast.Is) else "__sx_isnot__", [l, r], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(
                    ast.Tuple(elts=[val, spec, ast.Constant(value=v.conversion)], ctx=ast.Load())
                )
        return self.hook("__sx_fstr__", parts, node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not node.elts:
            return self.hook("__sx_list__", [], node)
        return node

    def visit_ListComp(self, node):
        g = node.generators
        if len(g) == 1 and g[0].ifs and not g[0].is_async and _simple(node.elt):
            self.generic_visit(node)
            gen = node.generators[0]
            cond = gen.ifs[0] if len(gen.ifs) == 1 else ast.BoolOp(op=ast.And(), values=gen.ifs)

            def lam(e):
                inner = ast.ListComp(
                    elt=e,
                    generators=[
                        ast.comprehension(
                            target=gen.target,
                            iter=ast.Tuple(elts=[_name("__sx_x")], ctx=ast.Load()),
                            ifs=[],
                            is_async=0,
                        )
                    ],
                )
                return ast.Lambda(
                    args=ast.arguments(
                        posonlyargs=[], args=[ast.arg(arg="__sx_x")], kwonlyargs=[], kw_defaults=[], defaults=[]
                    ),
                    body=ast.Subscript(value=inner, slice=ast.Constant(value=0), ctx=ast.Load()),
                )

            return self.hook("__sx_listcomp__", [gen.iter, lam(cond), lam(node.elt)], node)
        self.generic_visit(node)
        return node

    def _ticked(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(value=ast.Call(func=_name("__sx_tick__"), args=[], keywords=[])), node))
        return node

    visit_While = _ticked
    visit_For = _ticked

    def visit_If(self, node):
        mergeable = (
            not node.orelse
            and len(node.body) == 1
            and isinstance(node.body[0], ast.Expr)
            and isinstance(node.body[0].value, ast.Call)
            and isinstance(node.body[0].value.func, ast.Attribute)
            and node.body[0].value.func.attr == "append"
            and _simple(node.body[0].value.func.value)
            and len(node.body[0].value.args) == 1
            and not node.body[0].value.keywords
            and _simple(node.body[0].value.args[0])
        )
        if not mergeable:
            self.generic_visit(node)
            return node
        call = node.body[0].value
        lst, arg = call.func.value, call.args[0]
        test = self.visit(node.test)
        arg = self.visit(arg)
        lst = self.visit(lst)
        plain = ast.Call(func=ast.Attribute(value=lst, attr="append", ctx=ast.Load()), args=[arg], keywords=[])
        late = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=arg)
        self.tmp += 1
        nm = "__sx_t%d" % self.tmp
        out = [
            ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=test),
            ast.If(
                test=ast.Call(func=_name("__sx_mergeable__"), args=[_name(nm), lst], keywords=[]),
                body=[
                    ast.Expr(
                        value=ast.Call(func=_name("__sx_gappend__"), args=[lst, _name(nm), late], keywords=[])
                    )
                ],
                orelse=[ast.If(test=_name(nm), body=[ast.Expr(value=plain)], orelse=[])],
            ),
        ]
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(x, node)), node) for x in out]

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        wide = node.type is None
        for n in ast.walk(node.type) if node.type is not None else ():
            if isinstance(n, ast.Name) and n.id == "BaseException":
                wide = True
        if wide:
            node.body.insert(
                0,
                ast.copy_location(
                    ast.Expr(value=ast.Call(func=_name("__sx_reraise__"), args=[], keywords=[])), node
                ),
            )
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def hooks():
    from sx import rt

    return rt.HOOKS


def load_source(name, path):
    """Load one instrumented module from a file."""
    import types

    with open(path) as f:
        src = f.read()
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__dict__.update(hooks())
    sys.modules[name] = mod
    exec(transform(src, path), mod.__dict__)
    return mod


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads package `pkg` from root, instrumented."""

    def __init__(self, pkg, root):
        self.pkg = pkg
        self.root = root
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        if name != self.pkg and not name.startswith(self.pkg + "."):
            return None
        rel = os.path.join(self.root, *name.split("."))
        if os.path.isdir(rel):
            fn, ispkg = os.path.join(rel, "__init__.py"), True
        else:
            fn, ispkg = rel + ".py", False
        if not os.path.exists(fn):
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=ispkg)
        spec.has_location = True
        if ispkg:
            spec.submodule_search_locations = [rel]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, "rb") as f:
            src = f.read().decode("utf-8")
        module.__dict__.update(hooks())
        module.__file__ = fn
        self.loaded.append(fn)
        exec(transform(src, fn), module.__dict__)


def install(pkg, root):
    for m in [m for m in sys.modules if m == pkg or m.startswith(pkg + ".")]:
        del sys.modules[m]
    f = Finder(pkg, root)
    sys.meta_path.insert(0, f)
    return f
