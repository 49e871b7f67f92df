"""AST rewriting that makes shared-memory accesses of the code under test observable.

Every rewritten construct keeps its meaning; it only calls a probe (``_mc_*``) just before the
access.  The probes are no-ops unless a controlled run is active.
"""
import ast

SITES = [None]  # site id -> (file, line, col, text)

BUILTIN_READERS = {
    "list", "tuple", "dict", "set", "frozenset", "sorted", "sum", "any", "all", "max", "min",
    "enumerate", "zip", "map", "filter", "reversed", "iter", "next", "len", "bool", "str", "repr",
    "copy", "deepcopy",
}


def site(node, fname, text):
    SITES.append((fname, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), text))
    return len(SITES) - 1


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _const(v):
    return ast.Constant(value=v)


class _GlobalsFinder(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Global(self, node):
        self.names.update(node.names)


class Rewriter(ast.NodeTransformer):
    def __init__(self, fname, modname, tree):
        self.fname, self.modname = fname, modname
        f = _GlobalsFinder()
        f.visit(tree)
        self.globals_ = f.names
        self.scopes = []  # per function: (declared_global, locals)
        self.classes = []
        self.tmp = 0

    # -- helpers
    def call(self, fn, node, *args, text=""):
        c = ast.Call(func=_name(fn), args=[*args, _const(site(node, self.fname, text))], keywords=[])
        return ast.copy_location(c, node)

    def mangle(self, name):
        if self.classes and name.startswith("__") and not name.endswith("__"):
            c = self.classes[-1].lstrip("_")
            if c:
                return f"_{c}{name}"
        return name

    def tmpname(self):
        self.tmp += 1
        return f"_mc_t{self.tmp}"

    def container(self, expr):
        """expr used as a container/iterable/condition: probe a content read (post-visit)."""
        if isinstance(expr, (ast.Constant, ast.Compare, ast.JoinedStr, ast.Lambda, ast.List, ast.Tuple,
                             ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return expr
        if isinstance(expr, ast.UnaryOp) or isinstance(expr, ast.BoolOp):
            return expr
        return self.call("_mc_rd", expr, expr, text="content")

    # -- scopes
    def _visit_function(self, node):
        decl, loc = set(), set()
        args = node.args
        for a in [*args.posonlyargs, *args.args, *args.kwonlyargs, args.vararg, args.kwarg]:
            if a is not None:
                loc.add(a.arg)
        for sub in ast.walk(node):
            if isinstance(sub, ast.Global):
                decl.update(sub.names)
            elif isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                loc.add(sub.id)
        self.scopes.append((decl, loc - decl))
        # decorators/annotations/defaults are left alone except defaults/decorators
        node.body = self.body(node.body) if isinstance(node.body, list) else self.visit(node.body)
        self.scopes.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._visit_function(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        return self._visit_function(node)

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        saved, self.scopes = self.scopes, []
        node.body = self.body(node.body)
        self.scopes = saved
        self.classes.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
            if isinstance(node.target, ast.Name):
                node.value = self.gstore(node.target, node.value)
        return node

    # -- globals
    def is_global(self, name):
        if name not in self.globals_ or not self.scopes:
            return False
        for decl, loc in reversed(self.scopes):
            if name in decl:
                return True
            if name in loc:
                return False
        return True

    def gstore(self, target, value):
        if isinstance(target, ast.Name) and self.is_global(target.id):
            return self.call("_mc_gst", target, value, _const(self.modname), _const(target.id), text=f"global {target.id} =")
        return value

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and self.is_global(node.id):
            test = self.call("_mc_gld", node, _const(self.modname), _const(node.id), text=f"global {node.id}")
            return ast.copy_location(ast.IfExp(test=test, body=node, orelse=ast.Name(id=node.id, ctx=ast.Load())), node)
        return node

    # -- attributes & subscripts
    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        fn = "_mc_ld" if isinstance(node.ctx, ast.Load) else "_mc_st"
        node.value = self.call(fn, node, node.value, _const(self.mangle(node.attr)), text=f".{node.attr}" + ("" if fn == "_mc_ld" else " ="))
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        fn = "_mc_rd" if isinstance(node.ctx, ast.Load) else "_mc_wr"
        node.value = self.call(fn, node, node.value, text="[...]" + ("" if fn == "_mc_rd" else " ="))
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        for t in node.targets:
            if isinstance(t, ast.Name):
                node.value = self.gstore(t, node.value)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Name):
            if self.is_global(t.id):
                v = self.tmpname()
                load = self.visit(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t))
                stmts = [
                    ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=load),
                    ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=node.op, value=self.visit(node.value)),
                    ast.Assign(targets=[t], value=self.gstore(t, _name(v))),
                ]
                return [ast.copy_location(s, node) for s in stmts]
            node.value = self.visit(node.value)
            # in-place operators on containers (x |= y, x += y) mutate
            return node
        o, v = self.tmpname(), self.tmpname()
        stmts = [ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(t.value))]
        if isinstance(t, ast.Attribute):
            m = _const(self.mangle(t.attr))
            load = ast.Attribute(value=self.call("_mc_ld", t, _name(o), m, text=f".{t.attr}"), attr=t.attr, ctx=ast.Load())
            store = ast.Attribute(value=self.call("_mc_st", t, _name(o), m, text=f".{t.attr} ="), attr=t.attr, ctx=ast.Store())
        else:
            k = self.tmpname()
            stmts.append(ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=self.visit(t.slice)))
            load = ast.Subscript(value=self.call("_mc_rd", t, _name(o), text="[...]"), slice=_name(k), ctx=ast.Load())
            store = ast.Subscript(value=self.call("_mc_wr", t, _name(o), text="[...] ="), slice=_name(k), ctx=ast.Store())
        stmts += [
            ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=load),
            ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=node.op, value=self.visit(node.value)),
            ast.Assign(targets=[store], value=_name(v)),
        ]
        return [ast.copy_location(s, node) for s in stmts]

    # -- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            complex_args = any(
                isinstance(sub, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom))
                for a in [*node.args, *[k.value for k in node.keywords]]
                for sub in ast.walk(a)
            ) and not any(isinstance(sub, (ast.Await, ast.Yield, ast.YieldFrom)) for sub in ast.walk(node))
            is_super = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"
            obj = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [self.visit(k) for k in node.keywords]
            mname = _const(self.mangle(f.attr))
            if complex_args and not is_super:
                c = ast.Call(
                    func=_name("_mc_call"),
                    args=[_const(site(node, self.fname, f".{f.attr}()")), obj, mname, *args],
                    keywords=kws,
                )
                return ast.copy_location(c, node)
            f.value = self.call("_mc_cl", node, obj, mname, text=f".{f.attr}()")
            node.args, node.keywords = args, kws
            return node
        if isinstance(f, ast.Name) and f.id in BUILTIN_READERS:
            # iterators are read step by step later on
            lazy = f.id in ("iter", "enumerate", "zip", "map", "filter") and not any(isinstance(a, ast.Starred) for a in node.args)
            node.args = [self.iterable(a) if lazy else self.container(self.visit(a)) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        return self.generic_visit(node)

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            node.value = self.container(node.value)
        return node

    def visit_keyword(self, node):
        node.value = self.visit(node.value)
        if node.arg is None:
            node.value = self.container(node.value)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit_dict(node)
        return node

    def generic_visit_dict(self, node):
        keys, vals = [], []
        for k, v in zip(node.keys, node.values):
            if k is None:
                keys.append(None)
                vals.append(self.container(self.visit(v)))
            else:
                keys.append(self.visit(k))
                vals.append(self.visit(v))
        node.keys, node.values = keys, vals
        return node

    def visit_Compare(self, node):
        node.left = self.visit(node.left)
        comps = []
        for op, c in zip(node.ops, node.comparators):
            c = self.visit(c)
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.container(c)
            comps.append(c)
        node.comparators = comps
        return node

    # -- truth tests
    def visit_If(self, node):
        node.test = self.container(self.visit(node.test))
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    visit_While = visit_If

    def visit_IfExp(self, node):
        node.test = self.container(self.visit(node.test))
        node.body = self.visit(node.body)
        node.orelse = self.visit(node.orelse)
        return node

    def visit_BoolOp(self, node):
        node.values = [self.container(self.visit(v)) for v in node.values]
        return node

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            node.operand = self.container(node.operand)
        return node

    # -- iteration
    def iterable(self, it):
        if (
            isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args and not it.keywords
            and it.func.attr in ("items", "values", "keys")
        ):
            obj = self.visit(it.func.value)
            return self.call("_mc_itv", it, obj, _const(it.func.attr), text=f".{it.func.attr}() iteration")
        v = self.visit(it)
        if isinstance(v, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.GeneratorExp, ast.ListComp)):
            return v
        return self.call("_mc_it", it, v, text="iteration")

    def visit_For(self, node):
        node.target = self.visit(node.target)
        node.iter = self.iterable(node.iter)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    def visit_comprehension(self, node):
        node.target = self.visit(node.target)
        if not node.is_async:
            node.iter = self.iterable(node.iter)
        else:
            node.iter = self.visit(node.iter)
        node.ifs = [self.container(self.visit(i)) for i in node.ifs]
        return node

    def visit_Delete(self, node):
        node.targets = [self.visit(t) for t in node.targets]
        return node


def rewrite(source, fname, modname):
    tree = ast.parse(source, fname)
    future, rest = [], []
    body = tree.body
    tree2 = Rewriter(fname, modname, tree)
    tree.body = tree2.body(body)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec", dont_inherit=True)
