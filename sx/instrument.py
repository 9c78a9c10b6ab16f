"""Import hook: compiles the modules of the code under test from /repo's current
source with every call, subscript, membership test, % and f-string routed
through sx.models.  Control flow and all statements are those of the source."""
import ast
import sys
import os
import importlib.abc
import importlib.machinery
from . import models

KEEP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "breakpoint"}


def hook(name):
    return ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load())


class T(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    def _fn(self, node):
        self.stack.append(node.name)
        name = self.module + "." + ".".join(self.stack)
        # defaults / decorators are evaluated outside, transform everything alike
        self.generic_visit(node)
        self.stack.pop()
        stmt = ast.Expr(ast.Call(hook("enter"), [ast.Constant(name)], []))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, stmt)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in KEEP_CALLS:
            return node
        return ast.Call(hook("call"), [node.func] + node.args, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(hook("getitem"), [node.value, self._slice(node.slice)], [])
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name(id="slice", ctx=ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(ast.Call(hook("setitem"), [t.value, self._slice(t.slice), node.value], []))
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            # a = d[k] = value  ->  evaluate once, then store left to right
            tmp = ast.Name(id="__sx_tmp__", ctx=ast.Store())
            out = [ast.Assign([tmp], node.value)]
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.Expr(ast.Call(hook("setitem"), [t.value, self._slice(t.slice), ast.Name(id="__sx_tmp__", ctx=ast.Load())], [])))
                else:
                    out.append(ast.Assign([t], ast.Name(id="__sx_tmp__", ctx=ast.Load())))
            return out
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            c = ast.Call(hook("contains"), [node.left, node.comparators[0]], [])
            return ast.UnaryOp(ast.Not(), c) if isinstance(node.ops[0], ast.NotIn) else c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(hook("mod"), [node.left, node.right], [])
        return node

    def visit_JoinedStr(self, node):
        pieces = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                pieces.append(v)
                continue
            value = self.visit(v.value)
            conv = {115: "s", 114: "r", 97: "a"}.get(v.conversion)
            if v.format_spec is None:
                spec = ast.Constant("")
            else:
                spec = self.visit(v.format_spec)
            pieces.append(ast.Tuple([value, ast.Constant(conv), spec], ast.Load()))
        return ast.Call(hook("fstr"), pieces, [])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException") or isinstance(node.type, ast.Tuple)
        if broad:
            node.body.insert(0, ast.Expr(ast.Call(hook("reraise_control"), [], [])))
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            source = f.read()
        tree = ast.parse(source, path)
        tree = T(fullname).visit(tree)
        # bind the hook object
        i = 0
        body = tree.body
        while i < len(body) and ((isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant)) or (
                isinstance(body[i], ast.ImportFrom) and body[i].module == "__future__")):
            i += 1
        body[i:i] = ast.parse("import sx.models as __sx__").body
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root, self.package = root, package

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        if ".tests" in fullname:
            return None
        rel = fullname.replace(".", os.sep)
        base = os.path.join(self.root, rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.machinery.ModuleSpec(fullname, Loader(fullname, fn), origin=fn, is_package=True) if False else \
                _spec(fullname, fn, [base])
        fn = base + ".py"
        if os.path.exists(fn):
            return _spec(fullname, fn, None)
        return None


def _spec(fullname, fn, search):
    import importlib.util
    return importlib.util.spec_from_file_location(fullname, fn, loader=Loader(fullname, fn), submodule_search_locations=search)


def install(root="/repo", package="hickle"):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root, package))
