"""Load the repository's current source into the symbolic world."""
import ast
import builtins
import os
import sys
import types

from . import core, shims

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "openptv_python"
PURE_CALLS = {"abs", "len", "float", "int", "bool", "isinstance", "min", "max", "all", "any", "sqrt", "fabs",
              "isnan", "dot", "norm", "array_equal", "allclose", "hasattr", "isfinite", "sum"}
REAL_OK = {"typing", "dataclasses", "collections", "copy", "enum", "functools", "itertools", "abc", "warnings",
           "__future__", "re", "string", "operator", "contextlib", "types", "logging", "time", "io", "json",
           "numbers", "sys", "heapq", "bisect", "queue", "datetime", "textwrap", "random", "typing_extensions",
           "collections.abc"}


class Pure(ast.NodeVisitor):
    """Can this expression be evaluated speculatively?"""

    def __init__(self):
        self.ok = True

    def visit_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name not in PURE_CALLS:
            self.ok = False
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.ok = False

    visit_Await = visit_Yield = visit_YieldFrom = visit_Lambda = visit_NamedExpr
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_NamedExpr


def pure(n):
    v = Pure()
    v.visit(n)
    return v.ok


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.in_class = 0

    # annotations are left alone
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        c, self.in_class = self.in_class, 0
        n.body = [self.visit(s) for s in n.body]
        n.args = self.visit(n.args)
        self.in_class = c
        return n

    def visit_ClassDef(self, n):
        c, self.in_class = self.in_class, 1
        self.generic_visit(n)
        self.in_class = c
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("_sx_mod", n.left, n.right), n)
        return n

    def visit_BoolOp(self, n):
        p = all(pure(v) for v in n.values[1:])
        self.generic_visit(n)
        if not p or self.in_class:
            return n
        f = "_sx_and" if isinstance(n.op, ast.And) else "_sx_or"
        return ast.copy_location(_call(f, *[_lam(v) for v in n.values]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_call("_sx_not", n.operand), n)
        return n

    def visit_Compare(self, n):
        p = all(pure(v) for v in n.comparators) and pure(n.left)
        self.generic_visit(n)
        if len(n.ops) == 1 or not p or self.in_class:
            return n
        # pure operands: a < b < c  ==  a < b and b < c
        left = n.left
        parts = []
        for op, c in zip(n.ops, n.comparators):
            parts.append(ast.Compare(left=left, ops=[op], comparators=[c]))
            left = c
        return ast.copy_location(_call("_sx_and", *[_lam(v) for v in parts]), n)

    def visit_IfExp(self, n):
        p = pure(n.body) and pure(n.orelse)
        self.generic_visit(n)
        if not p or self.in_class:
            return n
        return ast.copy_location(_call("_sx_ifexp", n.test, _lam(n.body), _lam(n.orelse)), n)


class MergeIfs(ast.NodeTransformer):
    """if c: x = e1 [else: x = e2]  ->  x = ite(c, e1, e2) for side-effect-free e1, e2."""

    def visit_If(self, n):
        self.generic_visit(n)

        def simple(body):
            if len(body) != 1:
                return None
            s = body[0]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.value):
                t = s.targets[0]
                # names, and places a[i], a[i, j]
                if isinstance(t, ast.Name) or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and pure(t.slice):
                    return ast.unparse(t), s.value
            return None

        def target(ctx):
            t = ast.parse(b[0], mode="eval").body
            t.ctx = ctx
            return t

        if not pure(n.test):
            return n
        b = simple(n.body)
        if b is None:
            return n
        if n.orelse:
            o = simple(n.orelse)
            if o is None or o[0] != b[0]:
                return n
            alt = o[1]
        else:
            alt = target(ast.Load())
        return ast.copy_location(ast.Assign(targets=[target(ast.Store())],
                                            value=ast.IfExp(test=n.test, body=b[1], orelse=alt)), n)


class World:
    """One loaded copy of the package."""

    def __init__(self, overrides=None, merge=()):
        self.overrides = overrides or {}   # {module: {name: value}} applied to assignments of constants
        self.merge = set(merge)
        self.mods = {}
        self.sources = {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            if level > 1:
                base = base.rsplit(".", level - 1)[0]
            name = f"{base}.{name}" if name else base
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == PKG:
                        try:
                            setattr(m, f, self.load(f"{PKG}.{f}"))
                        except FileNotFoundError:
                            pass
                return m
            return self.load(PKG)
        if name in shims.MODULES:
            if not fromlist and "." in name:
                return shims.MODULES[name.split(".")[0]]
            return shims.MODULES[name]
        if name.split(".")[0] in ("scipy", "PIL", "imageio", "skimage", "cv2", "matplotlib"):
            return shims.Missing(name if fromlist else name.split(".")[0])
        if name.split(".")[0] == "numba":
            return shims.NUMBA
        if name in REAL_OK or name.split(".")[0] in REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise core.Unsupported("import " + name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")[1:]
        path = os.path.join(REPO, PKG, *rel)
        is_pkg = os.path.isdir(path)
        fn = os.path.join(path, "__init__.py") if is_pkg else path + ".py"
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        self.sources[name] = fn
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [path]
        b = dict(shims.BUILTINS)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        self.mods[name] = m
        key = name
        sys.modules[key] = m  # dataclasses look the module up
        tree = ast.parse(src, fn)
        short = name.split(".")[-1]
        if short in self.merge or "*" in self.merge:
            tree = MergeIfs().visit(tree)
        tree = Rewrite().visit(tree)
        ov = self.overrides.get(short)
        if ov:
            tree.body = [n for n in (self._const(s, ov) for s in tree.body)]
        ast.fix_missing_locations(tree)
        exec(compile(tree, fn, "exec"), m.__dict__)
        return m

    @staticmethod
    def _const(stmt, ov):
        if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name):
            n = stmt.targets[0].id
            if n in ov:
                stmt.value = ast.Constant(ov[n])
        return stmt
