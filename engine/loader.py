"""Compiles the modules of /repo/pykalman from their current source for execution on symbolic
values.

The only change made to the source text's AST is mechanical: every `for` loop becomes an
explicit drive of a loop controller around the unchanged body, every list comprehension /
generator argument becomes a call of a comprehension helper around the unchanged element
expression, and list displays build a journaled list.  numpy, scipy and skbase are bound to
the models of `npmodel`; len/range/zip/... are bound to versions that accept symbolic values.
"""
import ast
import builtins
import os
import sys
import types

from . import loops, npmodel
from .vals import ST, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")

MODULES = ["pykalman", "pykalman.standard", "pykalman.unscented", "pykalman.utils", "pykalman.utils._sklearn",
           "pykalman.utils._numpy", "pykalman.utils_numpy", "pykalman.sqrt", "pykalman.sqrt.cholesky",
           "pykalman.sqrt.bierman", "pykalman.sqrt.unscented"]


def path_of(mod):
    p = os.path.join(REPO, *mod.split("."))
    return os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"


def _stores(nodes):
    """names assigned in a list of statements (not inside nested functions)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import
    v = V()
    for s in nodes:
        v.visit(s)
    return out


def _loads(nodes):
    out = {}
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                out[x.id] = out.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for k in x.names:
                    out[k] = out.get(k, 0) + 1000
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out[x.target.id] = out.get(x.target.id, 0) + 1
    return out


class Transform(ast.NodeTransformer):
    def __init__(self, mod):
        self.n = 0
        self.mod = mod
        self.func = []
        self.loads = []

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        self.loads.append(_loads(n.body))
        self.generic_visit(n)
        self.loads.pop()
        self.func.pop()
        return n

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        self.generic_visit(n)
        self.func.pop()
        return n

    def _is_gen(self, fn):
        return False

    def visit_For(self, n):
        names = _stores([n])
        own = _loads([n])
        tot = self.loads[-1] if self.loads else {}
        # names never read outside of this loop are dead after it
        dead = [x for x in names if self.loads and tot.get(x, 0) == own.get(x, 0)]
        self.generic_visit(n)
        self.n += 1
        L = "__vf_L%d" % self.n
        where = "%s.%s:loop%d@%d" % (self.mod, ".".join(self.func), self.n, n.lineno)
        caps = ", ".join("lambda: %s" % x for x in names)
        tmpl = ("%(L)s = __vf__.Loop(None, %(where)r, %(names)r, %(dead)r)\n"
                "while %(L)s.next((%(caps)s)):\n"
                "    %(unpack)s\n"
                "    __vf_T = %(L)s.item\n"
                "    for __vf_once in (0,):\n"
                "        pass\n"
                "    else:\n"
                "        %(L)s.ok()\n"
                "%(unpack)s\n") % dict(
            L=L, where=where, names=names, dead=dead, caps=caps + ("," if caps else ""),
            unpack=("(%s,) = %s.vals" % (", ".join(names), L)) if names else "pass")
        mod = ast.parse(tmpl)
        init, wh, post = mod.body
        init.value.args[0] = n.iter
        # target assignment and body
        wh.body[1] = ast.Assign(targets=[n.target], value=wh.body[1].value)
        wh.body[2].body = n.body
        out = [init, wh, post]
        if n.orelse:
            out.append(ast.If(test=ast.parse("%s.completed" % L, mode="eval").body, body=n.orelse, orelse=[]))
        for s in out:
            ast.copy_location(s, n)
            for c in ast.walk(s):
                if not hasattr(c, "lineno"):
                    ast.copy_location(c, n)
        return [ast.fix_missing_locations(s) for s in out]

    def visit_If(self, n):
        # a conditional warning: both branches end in the same state, so the path is not split
        names = _stores(n.body)
        tot, own = (self.loads[-1] if self.loads else {}), _loads([n])

        def pure(x):
            return not any(isinstance(y, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Subscript)) and not
                           (isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("len", "str", "repr"))
                           and not (isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "format")
                           and not isinstance(y, ast.Subscript) for y in ast.walk(x))

        def inert(s):
            if isinstance(s, ast.Pass):
                return True
            if isinstance(s, ast.Assign):
                return all(isinstance(t, ast.Name) and tot.get(t.id, 0) == own.get(t.id, 0) for t in s.targets) and pure(s.value)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                return isinstance(f, ast.Attribute) and f.attr == "warn" and isinstance(f.value, ast.Name) and \
                    f.value.id == "warnings"
            return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
        j = bool(self.loads) and not n.orelse and bool(n.body) and all(inert(s) for s in n.body)
        self.generic_visit(n)
        if j:
            call = ast.parse("__vf__.both(None)", mode="eval").body
            call.args[0] = n.test
            out = ast.For(target=ast.Name(id="__vf_b", ctx=ast.Store()), iter=call, body=n.body, orelse=[])
            ast.copy_location(out, n)
            return ast.fix_missing_locations(out)
        return n

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        tgt = g.target
        arg = "__vf_x"

        def lam(body):
            # lambda item: (lambda <target names>: body)(*unpacked)
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=tgt.id)], kwonlyargs=[],
                                                     kw_defaults=[], defaults=[]), body=body)
            names = [x.id for x in ast.walk(tgt) if isinstance(x, ast.Name)]
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names],
                                                  kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            spec = ast.unparse(tgt)
            call = ast.parse("__vf__.unpack(%r, __vf_x)" % spec, mode="eval").body
            outer = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]),
                               body=ast.Call(func=inner, args=[ast.Starred(value=call, ctx=ast.Load())], keywords=[]))
            return outer
        if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n
        elts = lam(n.elt)
        conds = [lam(c) for c in g.ifs]
        call = ast.parse("__vf__.%s(None, None, [])" % kind, mode="eval").body
        call.args[0], call.args[1] = g.iter, elts
        call.args[2] = ast.List(elts=conds, ctx=ast.Load())
        ast.copy_location(call, n)
        return ast.fix_missing_locations(call)

    def visit_ListComp(self, n):
        return self._comp(n, "listcomp")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "genexp")

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.copy_location(ast.parse("__vf__.VList()", mode="eval").body, n)
        return n


class Loaded:
    def __init__(self, mods, src):
        self.mods, self.src = mods, src

    def __getitem__(self, k):
        return self.mods[k]


def load(repo=None):
    """fresh module objects for /repo's current source"""
    fakes = npmodel.build()
    mods = {}
    src = {}
    bi = dict(vars(builtins))
    bi.update(len=npmodel.sym_len, range=npmodel.sym_range, reversed=npmodel.sym_reversed,
              enumerate=npmodel.sym_enumerate, zip=npmodel.sym_zip, sum=npmodel.sym_sum, list=_ListT,
              tuple=_TupleT, set=npmodel.SetT, frozenset=npmodel.SetT, int=npmodel.IntT, float=npmodel.FloatP, min=npmodel.sym_minmax("min"),
              max=npmodel.sym_minmax("max"), __vf__=loops)
    NATIVE = {"warnings", "inspect", "collections", "functools", "itertools", "math", "typing", "__future__",
              "os", "abc", "copy", "contextlib", "dataclasses", "numbers", "operator"}

    class Warn(types.ModuleType):
        def warn(self, *a, **k):
            return None

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return lambda *a, **kw: None

    warn = Warn("warnings")
    warn.warn = lambda *a, **k: None

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full = base + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if full in fakes:
            m = fakes[full]
            return m if fromlist else fakes[top]
        if top == "pykalman":
            m = load_mod(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and os.path.exists(path_of(full + "." + f)):
                        load_mod(full + "." + f)
                return m
            return mods["pykalman"]
        if top == "warnings":
            return warn
        if top in NATIVE:
            return __import__(name, globals, locals, fromlist, level)
        if top in ("numpy", "scipy", "skbase"):
            raise Unsupported("import of %s" % full)
        return __import__(name, globals, locals, fromlist, level)
    bi["__import__"] = imp

    def load_mod(name):
        if name in mods:
            return mods[name]
        if "." in name:
            load_mod(name.rsplit(".", 1)[0])
            if name in mods:
                return mods[name]
        p = path_of(name)
        if not os.path.exists(p):
            raise ImportError("No module named %r" % name)
        text = open(p).read()
        src[name] = text
        m = types.ModuleType(name)
        m.__file__ = p
        m.__builtins__ = bi
        if p.endswith("__init__.py"):
            m.__package__ = name
            m.__path__ = [os.path.dirname(p)]
        else:
            m.__package__ = name.rsplit(".", 1)[0]
        mods[name] = m
        tree = ast.parse(text, p)
        tree = ast.fix_missing_locations(Transform(name).visit(tree))
        code = compile(tree, p, "exec")
        exec(code, m.__dict__)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in mods:
                setattr(mods[par], leaf, m)
        return m
    for name in MODULES:
        if os.path.exists(path_of(name)):
            load_mod(name)
    for m in mods.values():
        for v in vars(m).values():
            if isinstance(v, type) and v.__module__ == m.__name__ and not issubclass(v, (builtins.tuple, BaseException)):
                journal_attributes(v)
    return Loaded(mods, src)


def journal_attributes(cls):
    """attribute assignments inside symbolic loops are recorded (part of the loop's state)"""
    if "__setattr__" in cls.__dict__:
        return
    if any("__setattr__" in b.__dict__ for b in cls.__mro__[1:-1]):
        return

    def setattr_(self, k, v):
        if ST.loops:
            ST.journal.append(("attr", self, k, self.__dict__.get(k, loops.MISSING)))
        object.__setattr__(self, k, v)
    setattr_.__vf__ = True
    cls.__setattr__ = setattr_


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, loops.SymListT))

    def __call__(cls, x=()):
        return npmodel.sym_list(x)


class _ListT(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.tuple, npmodel.FlexShapeT))

    def __call__(cls, x=()):
        return npmodel.sym_tuple(x)


class _TupleT(metaclass=_TupleMeta):
    pass
