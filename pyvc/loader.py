"""Loads the real source of /repo with a mechanical AST transformation.

What the transformation does (and nothing else):
  * `for` loops and comprehensions go through a hook, so that loops over symbolic
    sequences can be cut by an invariant (native loops are left as they are);
  * list displays, `x in y`, `y[i]` (load), `s.join(y)` and `a if c else b` with trivial arms go
    through a hook that behaves natively for ordinary python values;
  * an explicit call x.__eq__(y), x.__add__(y) ... of an operator method goes through a hook;
  * the builtins len/int/bytes/... are replaced by versions that also accept
    symbolic values.
Docstrings/comments/annotations are kept.  No statement is dropped.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "mediagrains"


DUNDERS = ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__mul__", "__floordiv__",
           "__mod__")


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return v.names


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def lam(body, args=()):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


def has(node, types):
    return any(isinstance(n, types) for n in ast.walk(node))


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.func = []
        self.n = 0
        self.declared = [set()]

    # --- scopes
    def visit_FunctionDef(self, node):
        g = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                g.update(n.names)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit_args(node.args)
        self.func.append(node.name)
        self.declared.append(g)
        node.body = self.body(node.body)
        self.func.pop()
        self.declared.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.func.append(None)
        node.body = self.body(node.body)
        self.func.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def infunc(self):
        return bool(self.func) and self.func[-1] is not None

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and self.func and self.func[-1] == "__bool__":
            node.value = call("_vc_truth", node.value)
        return node

    # --- loops
    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        if not self.infunc():
            return node
        self.n += 1
        i = self.n
        targets = assigned([node.target])
        vars_ = [v for v in assigned(node.body) if v not in targets and v not in self.declared[-1]
                 and not v.startswith("_vc")]
        it, seg, lp = "_vc_it%d" % i, "_vc_seg%d" % i, "_vc_lp%d" % i

        def tup(ctx):
            return ast.Tuple(elts=[ast.Name(id=v, ctx=ctx()) for v in vars_], ctx=ctx())

        def getters():
            return ast.Tuple(elts=[call("_vc_try", lam(ast.Name(id=v, ctx=ast.Load()))) for v in vars_],
                             ctx=ast.Load())
        fname = ".".join([self.modname] + [f for f in self.func if f]) + ":for%d" % i
        native = ast.For(target=copy.deepcopy(node.target), iter=ast.Name(id=it, ctx=ast.Load()),
                         body=copy.deepcopy(node.body), orelse=copy.deepcopy(node.orelse))
        enter = ast.Call(func=ast.Attribute(value=ast.Name(id=lp, ctx=ast.Load()), attr="enter", ctx=ast.Load()),
                         args=[getters()], keywords=[])
        if vars_:
            st_enter = ast.Assign(targets=[tup(ast.Store)], value=enter)
        else:
            st_enter = ast.Expr(enter)
        leave = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=lp, ctx=ast.Load()), attr="leave",
                                                     ctx=ast.Load()), args=[getters()], keywords=[]))
        inner = ast.For(target=node.target,
                        iter=ast.Call(func=ast.Attribute(value=ast.Name(id=lp, ctx=ast.Load()), attr="items",
                                                         ctx=ast.Load()), args=[], keywords=[]),
                        body=node.body, orelse=[leave, ast.Continue()])
        symloop = ast.For(
            target=ast.Name(id=seg, ctx=ast.Store()),
            iter=call("_vc_segments", ast.Name(id=it, ctx=ast.Load())),
            body=[ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())],
                             value=call("_vc_loop", ast.Name(id=seg, ctx=ast.Load()), ast.Constant(fname),
                                        ast.Constant(tuple(vars_)))),
                  st_enter, inner, ast.Break()],
            orelse=node.orelse)
        res = [ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=call("_vc_iter", node.iter)),
               ast.If(test=call("_vc_issym", ast.Name(id=it, ctx=ast.Load())), body=[symloop], orelse=[native])]
        return res

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        if not self.infunc():
            return node
        self.n += 1
        i = self.n
        vars_ = [v for v in assigned(node.body) if v not in self.declared[-1] and not v.startswith("_vc")]
        lp = "_vc_wl%d" % i
        fname = ".".join([self.modname] + [f for f in self.func if f]) + ":while%d" % i

        def getters():
            return ast.Tuple(elts=[call("_vc_try", lam(ast.Name(id=v, ctx=ast.Load()))) for v in vars_],
                             ctx=ast.Load())
        head = ast.Call(func=ast.Attribute(value=ast.Name(id=lp, ctx=ast.Load()), attr="head", ctx=ast.Load()),
                        args=[getters()], keywords=[])
        if vars_:
            head = ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in vars_],
                                                 ctx=ast.Store())], value=head)
        else:
            head = ast.Expr(head)
        # the hook runs before every evaluation of the loop test
        is_true = isinstance(node.test, ast.Constant) and node.test.value is True
        if not is_true and node.orelse:
            return node
        body = [head]
        if not is_true:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[]))
        w = ast.While(test=ast.Constant(True), body=body + node.body, orelse=[])
        return [ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())],
                           value=call("_vc_while", ast.Constant(fname), ast.Constant(tuple(vars_)))), w]

    # --- comprehensions
    def _comp(self, node, kind):
        if (len(node.generators) == 1 and not node.generators[0].is_async and self.infunc()
                and not has(node, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))):
            g = node.generators[0]
            t = g.target
            if isinstance(t, ast.Name):
                names, star = [t.id], False
            elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                names, star = [e.id for e in t.elts], True
            else:
                shape = self._shape(t)
                if shape is None:
                    return self.generic_visit(node)
                flat = [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
                names = [e for e in self._flat(t)]
                assert sorted(flat) == sorted(names)
                it = self.visit(g.iter)

                def nested(body):
                    return lam(ast.Call(func=lam(body, names), args=[ast.Starred(
                        value=call("_vc_flat", ast.Name(id="_vc_x", ctx=ast.Load()), ast.Constant(shape)),
                        ctx=ast.Load())], keywords=[]), ["_vc_x"])
                elt = nested(self.visit(node.elt))
                cond = ast.Constant(None)
                if g.ifs:
                    test = [self.visit(x) for x in g.ifs]
                    cond = nested(test[0] if len(test) == 1 else ast.BoolOp(op=ast.And(), values=test))
                return call("_vc_comp", ast.Constant(kind), it, elt, cond, ast.Constant(False))
            it = self.visit(g.iter)
            elt = lam(self.visit(node.elt), names)
            cond = ast.Constant(None)
            if g.ifs:
                test = [self.visit(x) for x in g.ifs]
                cond = lam(test[0] if len(test) == 1 else ast.BoolOp(op=ast.And(), values=test), names)
            return call("_vc_comp", ast.Constant(kind), it, elt, cond, ast.Constant(star))
        return self.generic_visit(node)

    def _shape(self, t):
        if isinstance(t, ast.Name):
            return 1
        if isinstance(t, ast.Tuple):
            s = tuple(self._shape(e) for e in t.elts)
            return None if None in s else s
        return None

    def _flat(self, t):
        return [t.id] if isinstance(t, ast.Name) else [n for e in t.elts for n in self._flat(e)]

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    # --- expressions
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc():
            return call("_vc_list", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.infunc() and all(k is not None for k in node.keys):
            return call("_vc_dict", ast.Tuple(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                                    for k, v in zip(node.keys, node.values)], ctx=ast.Load()))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = call("_vc_in", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = call("_vc_not", r)
            return r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunc():
            return call("_vc_getitem", node.value, self._slice(node.slice))
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return call("_vc_slice", s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                        s.step or ast.Constant(None))
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 \
                and not node.keywords and self.infunc():
            return call("_vc_join", node.func.value, node.args[0])
        if isinstance(node.func, ast.Attribute) and node.func.attr in DUNDERS and len(node.args) == 1 \
                and not node.keywords and self.infunc() and not has(node.func.value, ast.Call) \
                and not isinstance(node.args[0], ast.Starred):
            return call("_vc_dunder", ast.Constant(node.func.attr), node.func.value, node.args[0])
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)

        def simple(e):
            return isinstance(e, ast.Constant) or isinstance(e, ast.Name)
        if self.infunc() and simple(node.body) and simple(node.orelse):
            return call("_vc_ifexp", node.test, lam(node.body), lam(node.orelse))
        return node


def transform_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Transform(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, ispkg, owner):
        self.name, self.path, self.ispkg, self.owner = name, path, ispkg, owner

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = self.owner.overrides.get(self.name)
        if src is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
        code = transform_source(src, self.path, self.name)
        self.owner.prepare(module)
        exec(code, module.__dict__)
        self.owner.finish(module)


class Hook(importlib.abc.MetaPathFinder):
    """Import hook: the package `mediagrains` is loaded (transformed) from REPO."""

    def __init__(self, builtins_dict, hooks, substitutions, overrides=None, enum_meta=None):
        self.builtins_dict, self.hooks, self.subst = builtins_dict, hooks, substitutions
        self.overrides = overrides or {}
        self.loaded = []
        self.enum_meta = enum_meta

    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p, ispkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            p, ispkg = base + ".py", False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, ispkg, self), origin=p, is_package=ispkg)
        spec.has_location = True
        if ispkg:
            spec.submodule_search_locations = [base]
        return spec

    def prepare(self, module):
        module.__dict__["__builtins__"] = self.builtins_dict
        module.__dict__.update(self.hooks)

    def finish(self, module):
        self.loaded.append(module.__name__)
        if self.enum_meta is not None:
            import enum
            for v in list(module.__dict__.values()):
                if isinstance(v, enum.EnumType) and type(v) is enum.EnumType and issubclass(v, enum.IntEnum) \
                        and v.__module__ == module.__name__:
                    type.__setattr__(v, "__class__", self.enum_meta)
        for k, v in list(module.__dict__.items()):
            if k.startswith("__"):
                continue
            try:
                r = self.subst.get(id(v))
            except Exception:
                r = None
            if r is not None:
                module.__dict__[k] = r


def load_dep(fullname):
    """A module of a dependency, from its installed source, through the same transformation."""
    import importlib
    import types
    real = importlib.import_module(fullname)
    path = real.__file__
    m = types.ModuleType(fullname)
    m.__package__, m.__file__ = fullname.rpartition(".")[0], path
    with open(path, encoding="utf-8") as f:
        code = transform_source(f.read(), path, fullname)
    _current.prepare(m)
    exec(code, m.__dict__)
    _current.finish(m)
    for k, v in m.__dict__.items():
        if isinstance(v, type) and v.__module__ == fullname and isinstance(getattr(real, k, None), type):
            _current.subst[id(getattr(real, k))] = v
    return m


_current = None


def install(builtins_dict, hooks, substitutions, overrides=None, enum_meta=None):
    global _current
    uninstall()
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    _current = Hook(builtins_dict, hooks, substitutions, overrides, enum_meta)
    sys.meta_path.insert(0, _current)
    return _current


def uninstall():
    global _current
    if _current is not None:
        sys.meta_path.remove(_current)
        for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
            del sys.modules[m]
        _current = None
