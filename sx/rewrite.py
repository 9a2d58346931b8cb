"""Source-to-source rewriting of the code under test so that symbolic values flow through it.

Nothing is modelled here: the statements and expressions of /repo are kept; calls,
containment tests, and/or/not, f-strings, %, subscripts, dict/set displays and the
builtin bases int/float are routed through sx.ops, which falls back to the plain Python
operation for concrete values.
"""
import ast

NOCALL = {"super", "locals", "globals", "dir", "eval", "exec"}


def _sx(name):
    return ast.Attribute(ast.Name("__sx__", ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_sx(name), list(args), [])


PURE_NODES = (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Not, ast.Name, ast.Constant, ast.Attribute,
              ast.Tuple, ast.List, ast.And, ast.Or, ast.Load, ast.cmpop, ast.USub)


def is_pure(n):
    for x in ast.walk(n):
        if not isinstance(x, PURE_NODES):
            return False
    return isinstance(n, (ast.Compare, ast.BoolOp, ast.UnaryOp))


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant)) or (isinstance(n, ast.Attribute) and simple(n.value))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track=True):
        self.mod = modname
        self.track = track
        self.stack = []
        self.scope = ["module"]

    # names
    def visit_Import(self, node):
        out = []
        for a in node.names:
            root = a.name.split(".")[0]
            if root == "fluent":
                new = "sx" + a.name
                if a.asname:
                    out.append(ast.Import([ast.alias(new, a.asname)]))
                else:
                    out.append(ast.Import([ast.alias(new, None)]))
                    out.append(ast.Assign([ast.Name("fluent", ast.Store())], ast.Name("sxfluent", ast.Load())))
            elif root in SHIMS:
                new = SHIMS[root] + a.name[len(root):]
                if a.asname or a.name == root:
                    out.append(ast.Import([ast.alias(new, a.asname or root)]))
                else:
                    out.append(ast.Import([ast.alias(new, "__sx_tmp__")]))
                    out.append(ast.Import([ast.alias(SHIMS[root], root)]))
            else:
                out.append(ast.Import([a]))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            root = node.module.split(".")[0]
            if root in ("fluent",):
                node.module = "sx" + node.module
            elif root in ("spec", "props", "tools"):
                node.module = "sx" + node.module
            elif root in SHIMS:
                node.module = SHIMS[root] + node.module[len(root):]
        return node

    # definitions
    def _def(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        self.scope.append("function")
        node = self.generic_visit(node)
        self.scope.pop()
        self.stack.pop()
        if self.track:
            stmt = ast.Expr(_call("enter", ast.Constant(self.mod + ":" + qual)))
            pos = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                    and isinstance(node.body[0].value.value, str):
                pos = 1
            node.body.insert(pos, stmt)
            ast.copy_location(stmt, node)
            ast.fix_missing_locations(stmt)
        return node

    visit_FunctionDef = _def
    visit_AsyncFunctionDef = _def

    def visit_arguments(self, node):
        # leave annotations alone; rewrite defaults
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ("int", "float"):
                b = ast.copy_location(_sx("IntBase" if b.id == "int" else "FloatBase"), b)
                ast.fix_missing_locations(b)
            bases.append(b)
        node.bases = bases
        self.scope.append("class")
        node.body = self._body(node.body)
        self.scope.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _loop(self, node):
        node = self.generic_visit(node)
        if self.track:
            t = ast.Expr(_call("tick"))
            ast.copy_location(t, node)
            ast.fix_missing_locations(t)
            node.body.insert(0, t)
        return node

    visit_While = _loop
    visit_For = _loop

    # expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ("vars",) and not node.args:
            return node
        node = self.generic_visit(node)
        for k in node.keywords:
            if k.arg is None:
                k.value = _call("kw", k.value)
        new = ast.Call(_sx("call"), [node.func] + node.args, node.keywords)
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                new = _call("contains" if isinstance(op, ast.In) else "notin", node.comparators[0], node.left)
                ast.copy_location(new, node)
                return ast.fix_missing_locations(new)
            return node
        mids = node.comparators[:-1]
        if all(simple(m) for m in mids):
            parts = []
            left = node.left
            for op, c in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left, [op], [c]))
                left = c
            out = []
            for p in parts:
                if isinstance(p.ops[0], (ast.In, ast.NotIn)):
                    p = _call("contains" if isinstance(p.ops[0], ast.In) else "notin", p.comparators[0], p.left)
                out.append(p)
            expr = out[-1]
            for p in reversed(out[:-1]):
                expr = _call("and_", p, _lam(expr), ast.Constant(True))
            ast.copy_location(expr, node)
            return ast.fix_missing_locations(expr)
        return node

    def visit_BoolOp(self, node):
        # operands move into lambdas: not where that changes what a name means
        if self.scope[-1] == "class":
            return self.generic_visit(node)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
               or isinstance(x, ast.Name) and x.id in ("super", "locals", "vars", "dir", "eval")
               for v in node.values for x in ast.walk(v)):
            return self.generic_visit(node)
        name = "and_" if isinstance(node.op, ast.And) else "or_"
        pures = [is_pure(v) for v in node.values]
        vals = [self.visit(v) for v in node.values]
        expr = vals[-1]
        pure = pures[-1]
        for v, p in zip(reversed(vals[:-1]), reversed(pures[:-1])):
            expr = _call(name, v, _lam(expr), ast.Constant(pure))
            pure = pure and p
        ast.copy_location(expr, node)
        return ast.fix_missing_locations(expr)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            new = _call("not_", node.operand)
            ast.copy_location(new, node)
            return ast.fix_missing_locations(new)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            new = _call("mod", node.left, node.right)
            ast.copy_location(new, node)
            return ast.fix_missing_locations(new)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        new = _call("fstr", *parts)
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Constant) or (isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant)):
            return node
        if isinstance(sl, ast.Slice):
            parts = [sl.lower, sl.upper, sl.step]
            if all(p is None or isinstance(p, ast.Constant) for p in parts):
                return node
            sl = ast.Call(ast.Name("__sx_slice__", ast.Load()),
                          [p if p is not None else ast.Constant(None) for p in parts], [])
        elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            return node
        new = _call("getitem", node.value, sl)
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple([_sx("_UNPACK") if k is None else k, v], ast.Load()))
        new = _call("mkdict", ast.Tuple(pairs, ast.Load()))
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        new = _call("mkset", ast.Tuple(node.elts, ast.Load()))
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        new = _call("mkdict", gen)
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        new = _call("mkset", ast.GeneratorExp(node.elt, node.generators))
        ast.copy_location(new, node)
        return ast.fix_missing_locations(new)


def _lam(expr):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), expr)


# Library modules replaced, in rewritten code only, by symbolic-aware equivalents.
SHIMS = {"re": "sx.shim_re", "functools": "sx.shim_functools", "json": "sx.shim_json",
         "copy": "sx.shim_copy", "collections": "sx.shim_collections", "babel": "sx.babel_shim",
         "bisect": "sx.shim_bisect",
         "attr": "sx.shim_attr", "datetime": "sx.shim_datetime",
         "decimal": "sx.shim_decimal"}


def transform(src, filename, modname, track=True):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
