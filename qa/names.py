"""Name and attribute resolution over the whole package (no execution)."""
import ast
import builtins
import importlib

from .model import Class, Func, Module, BUILTIN_NAMES, own_nodes


class Scope:
    """A function, class or module scope with the names bound in it."""

    def __init__(self, node, outer, kind):
        self.node = node
        self.outer = outer
        self.kind = kind
        self.bound = {}         # name -> list of binding nodes
        self.globals = set()
        self.nonlocals = set()
        self.children = []

    def bind(self, name, node):
        if name in self.globals:
            s = self
            while s.outer is not None:
                s = s.outer
            s.bound.setdefault(name, []).append(node)
        elif name in self.nonlocals:
            s = self.outer
            while s is not None and (s.kind == 'class' or name not in s.bound):
                s = s.outer
            if s is not None:
                s.bound.setdefault(name, []).append(node)
        else:
            self.bound.setdefault(name, []).append(node)

    def find(self, name):
        s = self
        first = True
        while s is not None:
            if (s.kind != 'class' or first) and name in s.bound and name not in s.globals:
                return s
            first = False
            s = s.outer
        return None


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scopes(ast.NodeVisitor):
    """Scopes of a module and all name uses and attribute chains with their scope."""

    def __init__(self, tree):
        self.module = self.cur = Scope(tree, None, 'module')
        self.uses = []          # (Name node, Scope)
        self.attrs = []         # (Attribute node, Scope)
        self.calls = []         # (Call node, Scope)
        self.deleted = {}
        for s in tree.body:
            self.visit(s)

    def scoped(self, node, kind, fn):
        s = Scope(node, self.cur, kind)
        self.cur.children.append(s)
        old, self.cur = self.cur, s
        fn()
        self.cur = old
        return s

    def function(self, node):
        for d in getattr(node, 'decorator_list', ()):
            self.visit(d)
        a = node.args
        for x in a.defaults + [d for d in a.kw_defaults if d]:
            self.visit(x)
        if not isinstance(node, ast.Lambda):
            self.cur.bind(node.name, node)

        def inner():
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.cur.bind(x.arg, x)
            if isinstance(node, ast.Lambda):
                self.visit(node.body)
            else:
                for n in own_nodes(node):
                    if isinstance(n, ast.Global):
                        self.cur.globals |= set(n.names)
                    elif isinstance(n, ast.Nonlocal):
                        self.cur.nonlocals |= set(n.names)
                for s in node.body:
                    self.visit(s)
        self.scoped(node, 'function', inner)

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = function

    def visit_ClassDef(self, node):
        for d in node.decorator_list + node.bases:
            self.visit(d)
        for k in node.keywords:
            self.visit(k.value)
        self.cur.bind(node.name, node)

        def inner():
            for s in node.body:
                self.visit(s)
        self.scoped(node, 'class', inner)

    def comp(self, node):
        g = node.generators
        self.visit(g[0].iter)

        def inner():
            for i, x in enumerate(g):
                if i:
                    self.visit(x.iter)
                self.visit(x.target)
                for c in x.ifs:
                    self.visit(c)
            if isinstance(node, ast.DictComp):
                self.visit(node.key)
                self.visit(node.value)
            else:
                self.visit(node.elt)
        self.scoped(node, 'comp', inner)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_NamedExpr(self, node):
        self.visit(node.value)
        s, self.cur = self.cur, self.cur
        while self.cur.kind == 'comp':
            self.cur = self.cur.outer
        self.visit(node.target)
        self.cur = s

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.cur.bind(node.id, node)
        elif isinstance(node.ctx, ast.Load):
            self.uses.append((node, self.cur))
        else:
            self.uses.append((node, self.cur))
            if self.cur.kind == 'module':
                self.deleted[node.id] = node

    def visit_Import(self, node):
        for a in node.names:
            self.cur.bind(a.asname or a.name.split('.')[0], (node, a))

    def visit_ImportFrom(self, node):
        for a in node.names:
            if a.name != '*':
                self.cur.bind(a.asname or a.name, (node, a))

    def visit_ExceptHandler(self, node):
        if node.type:
            self.visit(node.type)
        if node.name:
            self.cur.bind(node.name, node)
        for s in node.body:
            self.visit(s)

    def visit_MatchAs(self, node):
        if node.name:
            self.cur.bind(node.name, node)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.cur.bind(node.name, node)

    def visit_Attribute(self, node):
        self.attrs.append((node, self.cur))
        self.visit(node.value)

    def visit_Call(self, node):
        self.calls.append((node, self.cur))
        self.generic_visit(node)


class Names:
    """Resolution of expressions to modules, classes, functions in their scope."""

    def __init__(self, model):
        self.m = model
        self.scopes = {mo: Scopes(mo.tree) for mo in model.own_modules}
        self._inst = {}
        self._readonly = {}

    def resolve(self, mo, e, scope):
        """What e is for certain: Module, Class, Func, ('external', dotted) or None."""
        if isinstance(e, ast.Name):
            s = scope.find(e.id)
            if s is None:
                r = self.m.resolve_name(mo, e.id)
                return self.plain(r)
            if s.kind == 'module':
                b = s.bound[e.id]
                if len(b) == 1 or e.id in mo.classes and len(b) == 1:
                    return self.plain(self.m.resolve_name(mo, e.id))
                return None
            b = s.bound[e.id]
            if len(b) == 1 and isinstance(b[0], tuple):
                return self.imported(mo, *b[0])
            if len(b) == 1 and isinstance(b[0], ast.arg) and s.kind == 'function':
                return None
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve(mo, e.value, scope)
            if b is None:
                return None
            return self.plain(self.m.resolve_attr(b, e.attr)) if isinstance(b, (Module, Class)) else (
                ('external', b[1] + '.' + e.attr) if b[0] == 'external' else None)
        return None

    @staticmethod
    def plain(r):
        if isinstance(r, (Module, Class, Func)):
            return r
        if isinstance(r, tuple) and r[0] in ('external', 'builtin'):
            return r
        return None

    def imported(self, mo, stmt, alias):
        if isinstance(stmt, ast.Import):
            name = alias.name if alias.asname else alias.name.split('.')[0]
            r = self.m.module(name)
            return r if r is not None else ('external', name)
        base = mo._from_base(stmt)
        b = self.m.module(base)
        if b is not None:
            r = self.m.resolve_name(b, alias.name)
            if r is None or isinstance(r, tuple) and r[0] == 'builtin':
                r = self.m.module(base + '.' + alias.name)
            return self.plain(r)
        return ('external', '{}.{}'.format(base, alias.name))

    # ---- attributes of instances
    def instance_attrs(self, cls):
        """Attributes that a method of this class itself sets on instances."""
        if cls in self._inst:
            return self._inst[cls]
        out = {}
        self._inst[cls] = out
        for f in cls.funcs:
            node = f.node
            names = set()
            ps = f.params()
            if f.kind in ('function', 'property', 'classmethod') and ps:
                names.add(ps[0])
            for n in ast.walk(node):
                # objects made with __new__ of the own class
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and n.value.func.attr == '__new__':
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id in names:
                    out.setdefault(n.attr, []).append((f, n))
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id in names:
                    out.setdefault('*dynamic*', []).append((f, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                    if not isinstance(n.args[0], ast.Name) or n.args[0].id not in names:
                        continue
                    if isinstance(n.args[1], ast.Constant):
                        out.setdefault(n.args[1].value, []).append((f, n))
                    else:
                        out.setdefault('*dynamic*', []).append((f, n))
        return out

    def has_attr(self, cls, name, sub=False):
        """True, False, or None when it cannot be known (bases outside)."""
        unknown = False
        for c in cls.mro():
            if isinstance(c, Class):
                if name in c.methods or name in c.assigns or name in c.classes or name in c.setters or name in c.deleters:
                    return True
                if name in (c.slots() or ()) or name in self.instance_attrs(c):
                    return True
                if '*dynamic*' in self.instance_attrs(c):
                    unknown = True
                if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                    return None
                if c.node.decorator_list:
                    unknown = True
            elif c.startswith('unknown:'):
                unknown = True
            elif hasattr(getattr(builtins, c, None), name):
                return True
        if unknown:
            return None
        if sub:
            for d in self.m.subclasses(cls):
                if self.has_attr(d, name):
                    return True
        return False


TYPE_ATTRS = frozenset(dir(type)) | {'__dict__', '__weakref__', '__annotations__', '__orig_bases__'}


def external_has(dotted):
    """Whether a name of the standard library exists; None when not importable."""
    parts = dotted.split('.')
    if parts[0] not in __import__('sys').stdlib_module_names:
        return None
    obj = None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            if not hasattr(obj, p):
                return False
            obj = getattr(obj, p)
        return True
    return None


def signature(func, drop=0):
    """(names of positional parameters, number required, vararg, keyword-only, required keyword-only, kwarg)."""
    a = func.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    nreq = max(0, len(a.posonlyargs + a.args) - len(a.defaults) - drop)
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, nreq, bool(a.vararg), kwo, kreq, bool(a.kwarg)


def misfit(sig, npos, kws, star, starkw):
    """Why a call with these arguments fails, or None."""
    pos, nreq, vararg, kwo, kreq, kwarg = sig
    if not vararg and npos > len(pos):
        return 'takes at most {} positional arguments, got {}'.format(len(pos), npos)
    for k in kws:
        if k in pos:
            if pos.index(k) < npos:
                return 'argument {} is given twice'.format(k)
        elif k not in kwo and not kwarg:
            return 'has no parameter {}'.format(k)
    if not star and not starkw:
        missing = [p for i, p in enumerate(pos[:nreq]) if i >= npos and p not in kws]
        if missing:
            return 'lacks argument {}'.format(', '.join(missing))
    if not starkw:
        missing = [p for p in kreq if p not in kws]
        if missing:
            return 'lacks keyword argument {}'.format(', '.join(missing))
    return None
