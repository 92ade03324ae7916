"""AST instrumentation: routes calls, membership/identity tests, subscripts, f-strings and
decorators of the loaded code through symx.models, so that symbolic values survive them."""

import ast

SKIP_CALLS = {"super", "locals", "vars", "globals", "eval", "exec", "dir", "__sx_call__"}


class Instrument(ast.NodeTransformer):
    def _name(self, n, node):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

    def _mk(self, fn, args, node):
        return ast.copy_location(ast.Call(func=self._name(fn, node), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(func=self._name("__sx_call__", node), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            fn = {ast.In: "__sx_in__", ast.NotIn: "__sx_notin__", ast.Is: "__sx_is__",
                  ast.IsNot: "__sx_isnot__"}.get(type(node.ops[0]))
            if fn:
                return self._mk(fn, [node.left, node.comparators[0]], node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._mk("__sx_not__", [node.operand], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return self._mk("__sx_getitem__", [node.value, node.slice], node)
        return node

    def visit_Assign(self, node):
        # d[k] = v with a symbolic key
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Constant)):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._mk("__sx_setitem__",
                                                       [node.value, t.value, t.slice], node)), node)
        return node

    def visit_AugAssign(self, node):
        # d[k] += v: evaluate through getitem/setitem when the key is not a constant
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Constant)):
            op = type(node.op).__name__
            return ast.copy_location(ast.Expr(self._mk(
                "__sx_augitem__", [t.value, t.slice, ast.copy_location(ast.Constant(op), node),
                                   node.value], node)), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for part in node.values:
            if isinstance(part, ast.Constant):
                args.append(part)
            else:
                value = self.visit(part.value)
                conv = ast.copy_location(ast.Constant(part.conversion), part)
                if part.format_spec is None:
                    spec = ast.copy_location(ast.Constant(""), part)
                else:
                    spec = self.visit(part.format_spec)
                args.append(self._mk("__sx_fmt__", [value, conv, spec], part))
        return self._mk("__sx_fstr__", args, node)

    def _deco(self, node):
        node.decorator_list = [
            d if isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod")
            else self._mk("__sx_deco__", [self.visit(d)], d) for d in node.decorator_list]

    def visit_FunctionDef(self, node):
        decos = node.decorator_list
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decos
        self._deco(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        decos = node.decorator_list
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decos
        self._deco(node)
        return node

    def visit_AnnAssign(self, node):
        # leave annotations alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_MatchValue(self, node):
        return node

    visit_MatchMapping = visit_MatchClass = visit_MatchValue


def compile_source(source, path, optimize=0):
    tree = ast.parse(source, path)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True, optimize=optimize)
