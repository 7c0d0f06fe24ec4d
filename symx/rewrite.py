"""Source-to-source instrumentation of the real code.

A meta-path finder re-reads the *current* source of every module in SCOPE, rewrites its AST so
that each operation CPython would perform in C on the raw representation of a string or a hash
table goes through a hook of symx.rt, and lets CPython run the result.  Nothing else of the
code is changed, so control flow, exceptions, classes and closures keep their real semantics.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SCOPE = ("oidcrp", "oidcmsg", "harness", "cryptojwt.key_jar", "cryptojwt.jws.jws",
         "cryptojwt.simple_jwt", "cryptojwt.jwx", "cryptojwt.jwt", "cryptojwt.utils",
         "cryptojwt.key_issuer", "cryptojwt.jwe.jwe", "cryptojwt.jwe.jwenc", "cryptojwt.jwe.utils",
         "cryptojwt.key_bundle", "cryptojwt.jwk")
ENCODED_FILES = {}

_SKIP_CALL = {"super", "locals", "globals", "eval", "exec"}


_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.LtE: "<=", ast.GtE: ">=", ast.Lt: "<", ast.Gt: ">"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def _tmp(self):
        self.n += 1
        return "_sx_t%d" % self.n

    # -- calls -----------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALL:
            self.generic_visit(node)
            return node
        q = self._quantifier(node)
        if q is not None:
            return q
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_name("_sx_call"), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def _quantifier(self, node):
        """any(... for x in xs) and all(...): the condition as a function of x."""
        if not (isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and
                len(node.args) == 1 and not node.keywords and
                isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp))):
            return None
        g = node.args[0]
        if len(g.generators) != 1 or not isinstance(g.generators[0].target, ast.Name) or \
                g.generators[0].is_async or any(
                    isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
                    for n in ast.walk(g)):
            return None
        c = g.generators[0]
        body = g.elt
        if c.ifs and node.func.id == "any":
            body = ast.BoolOp(op=ast.And(), values=c.ifs + [body])
        elif c.ifs:
            body = ast.BoolOp(op=ast.Or(), values=[
                ast.UnaryOp(op=ast.Not(), operand=x) for x in c.ifs] + [body])
        f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=c.target.id)],
                                          kwonlyargs=[], kw_defaults=[], defaults=[]),
                       body=self.visit(body))
        return ast.copy_location(ast.Call(func=_name("_sx_quant"), args=[
            _name(node.func.id), self.visit(c.iter), f], keywords=[]), node)

    # -- subscripts ------------------------------------------------------
    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=_name("_sx_slice"), args=[
                    x if x is not None else ast.Constant(None)
                    for x in (sl.lower, sl.upper, sl.step)], keywords=[])
            return ast.copy_location(
                ast.Call(func=_name("_sx_getitem"), args=[node.value, sl], keywords=[]), node)
        # store / delete: canonicalise the key
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice):
            return node
        t = self._tmp()
        val = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=node.value)
        key = ast.Call(func=_name("_sx_key"), args=[_name(t), node.slice], keywords=[])
        return ast.copy_location(ast.Subscript(value=val, slice=key, ctx=node.ctx), node)

    def visit_AugAssign(self, node):
        # target of an augmented assignment keeps Store ctx; handled as a store
        op = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^",
              ast.Mod: "%"}.get(type(node.op))
        t = node.target
        base = t.value if isinstance(t, ast.Attribute) else t
        if op is not None and isinstance(base, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load()) if base is t else ast.Attribute(
                value=_name(base.id), attr=t.attr, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[t], value=ast.Call(
                func=_name("_sx_iop"), args=[ast.Constant(op), load, self.visit(node.value)],
                keywords=[])), node)
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    # -- comparison ------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in _CMP and not (
                isinstance(node.left, ast.Constant) or
                isinstance(node.comparators[0], ast.Constant)):
            return ast.copy_location(ast.Call(func=_name("_sx_cmp"), args=[
                ast.Constant(_CMP[type(node.ops[0])]), node.left, node.comparators[0]],
                keywords=[]), node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            c = ast.Call(func=_name("_sx_in"), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        # a op b op c  ->  lambda-free expansion with temporaries
        parts, left = [], node.left
        for op, right in zip(node.ops, node.comparators):
            t = self._tmp()
            r = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=right)
            if isinstance(op, (ast.In, ast.NotIn)):
                c = ast.Call(func=_name("_sx_in"), args=[left, r], keywords=[])
                if isinstance(op, ast.NotIn):
                    c = ast.UnaryOp(op=ast.Not(), operand=c)
            else:
                c = ast.Compare(left=left, ops=[op], comparators=[r])
            parts.append(c)
            left = _name(t)
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    # -- operators -------------------------------------------------------
    def visit_BinOp(self, node):
        self.generic_visit(node)
        h = {ast.Mod: "_sx_mod", ast.Sub: "_sx_sub", ast.BitAnd: "_sx_and", ast.BitOr: "_sx_or",
             ast.BitXor: "_sx_xor"}.get(type(node.op))
        if h is None:
            return node
        return ast.copy_location(ast.Call(func=_name(h), args=[node.left, node.right],
                                          keywords=[]), node)

    # -- displays --------------------------------------------------------
    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple(elts=[_name("_sx_star") if k is None else k, v],
                                   ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("_sx_dict"), args=[
            ast.List(elts=items, ctx=ast.Load())], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                         generators=node.generators)
        return ast.copy_location(ast.Call(func=_name("_sx_dict"), args=[g], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name("_sx_set"), args=[
            ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=_name("_sx_set"), args=[g], keywords=[]), node)

    # -- strings ---------------------------------------------------------
    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                args.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec],
                                      ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("_sx_fstr"), args=args, keywords=[]), node)

    # -- exceptions ------------------------------------------------------
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(_name("_sx_Exception"), node)
        elif isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = ast.copy_location(_name("_sx_Exception"), node.type)
        return node

    def visit_Match(self, node):
        # patterns must stay as they are: only subject, guards and bodies are rewritten
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


def rewrite_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = rewrite_source(src, path)
        ENCODED_FILES[path] = len(src)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from symx import rt
        module.__dict__.update(rt.HOOKS)
        module.__dict__["_sx_instrumented"] = True
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not any(name == s or name.startswith(s + ".") for s in SCOPE):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
