"""Program model: modules, classes, functions and their resolution, from source.

Nothing is imported or executed; everything comes from ``ast``.
"""
import ast
import glob
import os
import sys
import warnings

REPO = os.environ.get('QA_REPO', '/repo')
BUILTIN_TYPES = {
    'object': (), 'type': ('object',), 'list': ('object',), 'tuple': ('object',),
    'dict': ('object',), 'str': ('object',), 'int': ('object',), 'bool': ('int',),
    'float': ('object',), 'set': ('object',), 'frozenset': ('object',),
    'bytes': ('object',), 'complex': ('object',), 'slice': ('object',),
    'BaseException': ('object',), 'Exception': ('BaseException',),
    'ValueError': ('Exception',), 'TypeError': ('Exception',),
    'LookupError': ('Exception',), 'KeyError': ('LookupError',),
    'IndexError': ('LookupError',), 'AttributeError': ('Exception',),
    'NameError': ('Exception',), 'StopIteration': ('Exception',),
    'RuntimeError': ('Exception',), 'NotImplementedError': ('RuntimeError',),
    'RecursionError': ('RuntimeError',),
    'ArithmeticError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError',),
    'OverflowError': ('ArithmeticError',),
    'OSError': ('Exception',), 'IOError': ('OSError',), 'FileNotFoundError': ('OSError',),
    'PermissionError': ('OSError',), 'IsADirectoryError': ('OSError',),
    'UnicodeError': ('ValueError',), 'UnicodeDecodeError': ('UnicodeError',),
    'AssertionError': ('Exception',), 'GeneratorExit': ('BaseException',),
    'KeyboardInterrupt': ('BaseException',),
}


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone, or the source cannot be parsed."""


def _site_packages():
    for p in ('/opt/venv/lib/python3*/site-packages',):
        for d in sorted(glob.glob(p)):
            if os.path.isdir(os.path.join(d, 'parce')):
                return d
    for d in sys.path:
        if d and os.path.isdir(os.path.join(d, 'parce')):
            return d
    return None


class Func:
    """A function, method or lambda."""

    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = 'function'
        self.contextmanager = False
        self.cached = False
        self.registrations = []      # decorator call/name nodes that are not known
        self.prop_role = None
        for d in getattr(node, 'decorator_list', ()):
            n = d.func if isinstance(d, ast.Call) else d
            last = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', None)
            if isinstance(n, ast.Name) and n.id in ('property', 'staticmethod', 'classmethod'):
                self.kind = n.id
                if n.id == 'property':
                    self.prop_role = 'getter'
            elif isinstance(n, ast.Attribute) and n.attr in ('setter', 'deleter', 'getter') \
                    and isinstance(n.value, ast.Name):
                self.kind = 'property'
                self.prop_role = n.attr
            elif last == 'contextmanager':
                self.contextmanager = True
            elif last in ('cached_method', 'cached_property', 'lru_cache', 'cache', 'cached_func'):
                self.cached = True
                if last == 'cached_property':
                    self.kind = 'property'
                    self.prop_role = 'getter'
            elif last in ('wraps', 'abstractmethod', 'override'):
                pass
            else:
                self.registrations.append(d)
        if self.kind == 'function' and cls is not None and outer is None \
                and self.name in ('__new__',):
            self.kind = 'staticmethod'
        if self.kind == 'function' and cls is not None and outer is None \
                and self.name in ('__init_subclass__', '__class_getitem__'):
            self.kind = 'classmethod'
        self._gen = None

    @property
    def qualname(self):
        parts = [self.module.name]
        if self.outer is not None:
            return self.outer.qualname + '.' + self.name
        if self.cls is not None:
            parts.append(self.cls.name)
        parts.append(self.name)
        return '.'.join(parts)

    @property
    def where(self):
        return '{}:{}'.format(self.module.relpath, getattr(self.node, 'lineno', 0))

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body), self.node.body)]
        return self.node.body

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))
        return self._gen

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func {}>'.format(self.qualname)


def own_nodes(fnode):
    """All nodes in a function body, not descending in nested functions/classes."""
    body = [fnode.body] if isinstance(fnode, ast.Lambda) else fnode.body
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            # decorators and defaults belong to the enclosing scope
            if not isinstance(n, ast.ClassDef):
                stack.extend(d for d in n.args.defaults)
                stack.extend(d for d in n.args.kw_defaults if d)
            stack.extend(getattr(n, 'decorator_list', ()))
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.outer = outer
        self.name = node.name
        self.qualname = '{}.{}{}'.format(module.name, outer.name + '.' if outer else '', node.name)
        self.methods = {}       # name -> Func (last definition; for properties the getter)
        self.setters = {}       # name -> Func
        self.deleters = {}
        self.assigns = {}       # name -> expr (last)
        self.assign_order = []
        self.classes = {}
        self.funcs = []         # every function defined, in order
        self.registered = []    # functions with unknown decorators
        self._mro = None
        self._collect(node.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, self.module, self)
                self.funcs.append(f)
                if f.registrations:
                    self.registered.append(f)
                if f.prop_role == 'setter':
                    self.setters[s.name] = f
                elif f.prop_role == 'deleter':
                    self.deleters[s.name] = f
                else:
                    self.methods[s.name] = f
                    self.assigns.pop(s.name, None)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self.module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._assign(t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self._assign(s.target, s.value)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(s, fld, None) or [])
                for h in getattr(s, 'handlers', ()):
                    self._collect(h.body)

    def _assign(self, target, value):
        if isinstance(target, ast.Name):
            self.assigns[target.id] = value
            if target.id in self.methods:
                del self.methods[target.id]
        elif isinstance(target, (ast.Tuple, ast.List)):
            elts = value.elts if isinstance(value, (ast.Tuple, ast.List)) else None
            for i, t in enumerate(target.elts):
                self._assign(t, elts[i] if elts and i < len(elts) else value)

    @property
    def where(self):
        return '{}:{}'.format(self.module.relpath, self.node.lineno)

    def bases(self):
        r = []
        for b in self.node.bases:
            c = self.module.model.resolve_expr(self.module, b, self)
            r.append(c)
        return r

    def mro(self):
        """C3 linearisation; unresolved bases are represented by strings."""
        if self._mro is None:
            self._mro = [self]       # guards recursion
            bases = self.bases()
            seqs = []
            blist = []
            for b in bases:
                if isinstance(b, Class):
                    seqs.append(list(b.mro()))
                    blist.append(b)
                elif isinstance(b, tuple) and b[0] == 'builtin' and b[1] in BUILTIN_TYPES:
                    seqs.append(builtin_mro(b[1]))
                    blist.append(b[1])
                else:
                    n = 'unknown:' + ast.dump(self.node) [:0] + ast.unparse(
                        self.node.bases[len(blist)])
                    seqs.append([n, 'object'])
                    blist.append(n)
            if not blist:
                seqs.append(['object'])
                blist.append('object')
            seqs.append(list(blist))
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken('no consistent MRO for {}'.format(self.qualname))
                out.append(cand)
                for s in seqs:
                    if s[0] == cand:
                        del s[0]
            self._mro = out
        return self._mro

    def lookup(self, name, after=None, kinds=('methods', 'assigns', 'classes')):
        """Return (owner, kind, member) in MRO order; owner may be a builtin name."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if isinstance(c, Class):
                if name in c.methods:
                    return c, 'method', c.methods[name]
                if name in c.assigns:
                    return c, 'assign', c.assigns[name]
                if name in c.classes:
                    return c, 'class', c.classes[name]
            elif name in BUILTIN_METHODS.get(c, ()):
                return c, 'builtin', name
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.setters:
                    return c.setters[name]
                if name in c.methods and c.methods[name].kind == 'property':
                    return None
        return None

    def lookup_deleter(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.deleters:
                return c.deleters[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def slots(self):
        """Declared slots of this class only; None if not declared."""
        e = self.assigns.get('__slots__')
        if e is None:
            return None
        try:
            v = ast.literal_eval(e)
        except Exception:
            return None
        return (v,) if isinstance(v, str) else tuple(v)

    def __repr__(self):
        return '<Class {}>'.format(self.qualname)


BUILTIN_METHODS = {t: frozenset(n for n in dir(getattr(__import__('builtins'), t)))
                   for t in BUILTIN_TYPES}
# object's default hooks are not interesting as "definitions"
BUILTIN_NAMES = frozenset(dir(__import__('builtins'))) | {'__file__', '__name__', '__doc__', '__path__', '__package__'}


def builtin_mro(name):
    out = [name]
    while BUILTIN_TYPES.get(name):
        name = BUILTIN_TYPES[name][0]
        out.append(name)
    return out


class Module:
    def __init__(self, model, name, path, tree, is_pkg):
        self.model = model
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.own = path.startswith(model.repo + os.sep)
        self.relpath = os.path.relpath(path, model.repo) if self.own else path
        self.classes = {}
        self.funcs = {}
        self.assigns = {}       # name -> list of (expr, stmt)
        self.imports = {}       # name -> ('module', dotted) | ('from', module, name)
        self.star = []
        self.other = set()      # names bound in some other way (loops, with, except)
        self.all_bound = set()
        self._collect(tree.body)

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('module', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(s)
                for a in s.names:
                    if a.name == '*':
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    self._bind(t, s.value, s)
            else:
                for fld in ('target', 'optional_vars'):
                    t = getattr(s, fld, None)
                    if t is not None:
                        self._bind(t, None, s)
                for it in getattr(s, 'items', ()):
                    if isinstance(it, ast.withitem) and it.optional_vars is not None:
                        self._bind(it.optional_vars, None, s)
                for fld in ('body', 'orelse', 'finalbody'):
                    v = getattr(s, fld, None)
                    if isinstance(v, list):
                        self._collect(v)
                for h in getattr(s, 'handlers', ()):
                    self._collect(h.body)

    def _bind(self, t, value, stmt):
        if isinstance(t, ast.Name):
            self.assigns.setdefault(t.id, []).append((value, stmt))
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = value.elts if isinstance(value, (ast.Tuple, ast.List)) \
                and len(value.elts) == len(t.elts) else None
            for i, e in enumerate(t.elts):
                self._bind(e, elts[i] if elts else None, stmt)
        elif isinstance(t, ast.Starred):
            self._bind(t.value, None, stmt)

    def _from_base(self, s):
        if not s.level:
            return s.module
        pkg = self.package().split('.')
        pkg = pkg[:len(pkg) - (s.level - 1)]
        return '.'.join(pkg + ([s.module] if s.module else []))

    def has_name(self, name):
        if name in self.classes or name in self.funcs or name in self.assigns or name in self.imports:
            return True
        for b in self.star:
            m = self.model.module(b)
            if m is None or m.has_name(name):
                return True
        return False

    def __repr__(self):
        return '<Module {}>'.format(self.name)


class Model:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.site = _site_packages()
        self.modules = {}
        self.own_modules = []
        root = os.path.join(self.repo, 'quickly')
        if not os.path.isdir(root):
            raise AnalysisBroken('no package quickly in {}'.format(self.repo))
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, self.repo)[:-3].split(os.sep)
                    pkg = rel[-1] == '__init__'
                    if pkg:
                        rel = rel[:-1]
                    m = self._load('.'.join(rel), path, pkg)
                    self.own_modules.append(m)

    def _load(self, name, path, pkg):
        try:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        except (SyntaxError, OSError, ValueError) as e:
            raise AnalysisBroken('cannot parse {}: {}'.format(path, e))
        m = Module(self, name, path, tree, pkg)
        m.source = src
        self.modules[name] = m
        return m

    def module(self, name):
        """Return a Module, loading parce modules on demand; None when outside."""
        if name in self.modules:
            return self.modules[name]
        if name is None or not (name == 'parce' or name.startswith('parce.')):
            return None
        if not self.site:
            return None
        p = os.path.join(self.site, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return self._load(name, os.path.join(p, '__init__.py'), True)
        if os.path.isfile(p + '.py'):
            return self._load(name, p + '.py', False)
        self.modules[name] = None
        return None

    # ---- resolution: results are Class, Func, Module, ('expr', module, expr),
    # ('builtin', name), ('external', dotted) or None
    def resolve_name(self, module, name, seen=None):
        seen = seen or set()
        key = (module.name, name)
        if key in seen:
            return None
        seen.add(key)
        if name in module.classes:
            return module.classes[name]
        if name in module.funcs:
            return module.funcs[name]
        if name in module.assigns:
            expr = module.assigns[name][-1][0]
            if isinstance(expr, ast.Name) and expr.id != name:
                r = self.resolve_name(module, expr.id, seen)
                if r is not None:
                    return r
            if isinstance(expr, ast.Attribute):
                r = self.resolve_expr(module, expr)
                if r is not None:
                    return r
            return ('expr', module, expr, name)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'module':
                m = self.module(imp[1])
                return m if m is not None else ('external', imp[1])
            sub = self.module('{}.{}'.format(imp[1], imp[2]))
            base = self.module(imp[1])
            if base is not None:
                r = self.resolve_name(base, imp[2], seen)
                if r is not None and not (isinstance(r, tuple) and r[0] == 'builtin'):
                    return r
            if sub is not None:
                return sub
            return ('external', '{}.{}'.format(imp[1], imp[2]))
        for b in module.star:
            m = self.module(b)
            if m is not None:
                r = self.resolve_name(m, name, seen)
                if r is not None and not (isinstance(r, tuple) and r[0] == 'builtin'):
                    return r
        if name in BUILTIN_NAMES:
            return ('builtin', name)
        return None

    def resolve_attr(self, base, name):
        if isinstance(base, Module):
            r = self.resolve_name(base, name)
            if isinstance(r, tuple) and r[0] == 'builtin':
                r = None
            if r is None:
                r = self.module('{}.{}'.format(base.name, name))
            return r
        if isinstance(base, Class):
            m = base.lookup(name)
            if m is None:
                return None
            owner, kind, member = m
            if kind in ('method', 'class'):
                return member
            if kind == 'assign':
                return ('expr', owner.module, member, name)
            return ('builtin', '{}.{}'.format(owner, name))
        if isinstance(base, tuple) and base[0] == 'external':
            return ('external', '{}.{}'.format(base[1], name))
        if isinstance(base, tuple) and base[0] == 'builtin':
            return ('builtin', '{}.{}'.format(base[1], name))
        return None

    def resolve_expr(self, module, expr, cls=None):
        if isinstance(expr, ast.Name):
            if cls is not None and cls.outer is not None and expr.id in cls.outer.classes:
                return cls.outer.classes[expr.id]
            return self.resolve_name(module, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(module, expr.value, cls)
            if b is None:
                return None
            return self.resolve_attr(b, expr.attr)
        return None

    # ---- enumeration
    def all_classes(self, own=True):
        for m in (self.own_modules if own else [x for x in self.modules.values() if x]):
            yield from self._classes(m.classes.values())

    def _classes(self, it):
        for c in it:
            yield c
            yield from self._classes(c.classes.values())

    def cls(self, dotted):
        """Class by 'module.Class' (module relative to quickly allowed)."""
        mod, _, name = dotted.rpartition('.')
        for cand in (mod, 'quickly.' + mod):
            m = self.modules.get(cand) or (self.module(cand) if cand.startswith('parce') else None)
            if m is not None:
                r = self.resolve_name(m, name)
                if isinstance(r, Class):
                    return r
        raise AnalysisBroken('class {} not found'.format(dotted))

    def func(self, dotted):
        mod, _, name = dotted.rpartition('.')
        for cand in (mod, 'quickly.' + mod):
            m = self.modules.get(cand) or (self.module(cand) if cand.startswith('parce') else None)
            if m is not None:
                r = self.resolve_name(m, name)
                if isinstance(r, Func):
                    return r
        c = None
        try:
            c = self.cls(mod)
        except AnalysisBroken:
            pass
        if c is not None:
            r = c.lookup(name)
            if r and r[1] == 'method':
                return r[2]
        raise AnalysisBroken('function {} not found'.format(dotted))

    def subclasses(self, cls, own=True):
        return [c for c in self.all_classes(own) if c is not cls and cls in c.mro()]

    def all_funcs(self):
        """Every function in the quickly package, including methods and nested ones."""
        for m in self.own_modules:
            for f in m.funcs.values():
                yield f
            for c in self._classes(m.classes.values()):
                for f in c.funcs:
                    yield f

    # ---- literal evaluation of table expressions
    def literal(self, module, expr, cls=None, depth=0):
        """Evaluate a table expression made of literals, names and simple operators.

        Classes and functions evaluate to their model objects. Raises ValueError
        when something else is met.
        """
        if depth > 30:
            raise ValueError('too deep')
        ev = lambda e: self.literal(module, e, cls, depth + 1)
        if isinstance(expr, ast.Constant):
            return expr.value
        if isinstance(expr, ast.Tuple):
            return tuple(self._elts(expr.elts, ev))
        if isinstance(expr, ast.List):
            return list(self._elts(expr.elts, ev))
        if isinstance(expr, ast.Set):
            return set(self._elts(expr.elts, ev))
        if isinstance(expr, ast.Dict):
            d = {}
            for k, v in zip(expr.keys, expr.values):
                if k is None:
                    d.update(ev(v))
                else:
                    d[ev(k)] = ev(v)
            return d
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, (ast.USub, ast.UAdd, ast.Not)):
            v = ev(expr.operand)
            return -v if isinstance(expr.op, ast.USub) else (not v if isinstance(expr.op, ast.Not) else +v)
        if isinstance(expr, ast.BinOp):
            a, b = ev(expr.left), ev(expr.right)
            import operator as o
            from fractions import Fraction
            ops = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv,
                   ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_,
                   ast.LShift: o.lshift}
            if type(expr.op) in ops:
                try:
                    return ops[type(expr.op)](a, b)
                except Exception as e:
                    raise ValueError(str(e))
        if isinstance(expr, (ast.Name, ast.Attribute)):
            if cls is not None and isinstance(expr, ast.Name) and expr.id in cls.assigns:
                return ev(cls.assigns[expr.id])
            if cls is not None and isinstance(expr, ast.Name) and expr.id in cls.methods:
                return cls.methods[expr.id]
            r = self.resolve_expr(module, expr, cls)
            if isinstance(r, (Class, Func, Module)):
                return r
            if isinstance(r, tuple) and r[0] == 'expr' and r[2] is not None:
                return self.literal(r[1], r[2], None, depth + 1)
            if isinstance(r, tuple) and r[0] in ('builtin', 'external'):
                return r
        if isinstance(expr, ast.Call):
            f = self.resolve_expr(module, expr.func, cls)
            args = list(self._elts(expr.args, ev))
            if isinstance(f, tuple) and f[0] == 'external' and f[1].endswith('Fraction'):
                from fractions import Fraction
                return Fraction(*args)
            if isinstance(f, tuple) and f[0] == 'builtin':
                import builtins
                if f[1] in ('dict', 'tuple', 'list', 'set', 'frozenset', 'range', 'zip',
                            'enumerate', 'len', 'reversed', 'sorted', 'str', 'int'):
                    kw = {k.arg: ev(k.value) for k in expr.keywords if k.arg}
                    return getattr(builtins, f[1])(*args, **kw)
            if isinstance(expr.func, ast.Attribute) and expr.func.attr == 'split':
                s = ev(expr.func.value)
                if isinstance(s, str):
                    return s.split(*args)
            if isinstance(expr.func, ast.Attribute) and expr.func.attr in ('items', 'keys', 'values'):
                d = ev(expr.func.value)
                if isinstance(d, dict):
                    return list(getattr(d, expr.func.attr)())
            if isinstance(expr.func, ast.Attribute) and expr.func.attr in ('format', 'join', 'upper', 'lower', 'capitalize',
                                                                          'title', 'strip', 'replace', 'rstrip', 'lstrip'):
                s = ev(expr.func.value)
                if isinstance(s, str):
                    kw = {k.arg: ev(k.value) for k in expr.keywords if k.arg}
                    try:
                        return getattr(s, expr.func.attr)(*args, **kw)
                    except Exception as e:
                        raise ValueError(str(e))
        if isinstance(expr, ast.JoinedStr):
            out = []
            for v in expr.values:
                if isinstance(v, ast.Constant):
                    out.append(v.value)
                elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                    x = ev(v.value)
                    if not isinstance(x, (str, int, float)):
                        raise ValueError('not a literal text')
                    out.append(format(x))
                else:
                    raise ValueError('not a literal text')
            return ''.join(out)
        if isinstance(expr, ast.Subscript):
            v = ev(expr.value)
            try:
                if isinstance(expr.slice, ast.Slice):
                    sl = expr.slice
                    return v[slice(*(None if x is None else ev(x) for x in (sl.lower, sl.upper, sl.step)))]
                return v[ev(expr.slice)]
            except ValueError:
                raise
            except Exception as e:
                raise ValueError(str(e))
        if isinstance(expr, ast.IfExp):
            return ev(expr.body if ev(expr.test) else expr.orelse)
        if isinstance(expr, ast.Compare) and len(expr.ops) == 1:
            import operator as o
            a, b = ev(expr.left), ev(expr.comparators[0])
            ops = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge,
                   ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
                   ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b}
            try:
                return ops[type(expr.ops[0])](a, b)
            except ValueError:
                raise
            except Exception as e:
                raise ValueError(str(e))
        if isinstance(expr, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            rows = [{}]
            for g in expr.generators:
                if g.is_async:
                    raise ValueError('not a literal table')
                nxt = []
                for env in rows:
                    for x in ev(subst(g.iter, env)):
                        e2 = dict(env)
                        e2.update(bind(g.target, x))
                        if all(ev(subst(t, e2)) for t in g.ifs):
                            nxt.append(e2)
                rows = nxt
            if isinstance(expr, ast.DictComp):
                return {ev(subst(expr.key, e)): ev(subst(expr.value, e)) for e in rows}
            vals = [ev(subst(expr.elt, e)) for e in rows]
            return set(vals) if isinstance(expr, ast.SetComp) else vals
        raise ValueError('not a literal table: ' + ast.unparse(expr)[:60])

    def class_table(self, cls, name, pairs=False):
        """The value of a class level table, filled by statements of the class body.

        With pairs, the (key, value) pairs in the order they are written, repeated
        keys included. Raises ValueError when a statement is not understood.
        """
        env = {}
        log = {}

        def ev(e):
            return self.literal(cls.module, subst(e, env), cls)

        def assign(t, v):
            if isinstance(t, ast.Name):
                env[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                for k, x in bind(t, v).items():
                    env[k] = x
            elif isinstance(t, ast.Subscript):
                d, k = ev(t.value), ev(t.slice)
                d[k] = v
                log.setdefault(id(d), []).append((k, v))
            else:
                raise ValueError('not a table statement')

        def run(body):
            for s in body:
                if isinstance(s, ast.Assign):
                    if isinstance(s.value, ast.Dict) and all(k is not None for k in s.value.keys):
                        ps = [(ev(k), ev(v)) for k, v in zip(s.value.keys, s.value.values)]
                        v = dict(ps)
                        log[id(v)] = ps
                    else:
                        v = ev(s.value)
                        if isinstance(v, dict):
                            v = dict(v)
                            log[id(v)] = list(v.items())
                    for t in s.targets:
                        assign(t, v)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    assign(s.target, ev(s.value))
                elif isinstance(s, ast.For):
                    for x in ev(s.iter):
                        assign(s.target, x)
                        run(s.body)
                elif isinstance(s, ast.If):
                    run(s.body if ev(s.test) else s.orelse)
                elif isinstance(s, ast.Delete):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            env.pop(t.id, None)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                        and s.value.func.attr in ('update', 'setdefault') and not s.value.keywords:
                    d = ev(s.value.func.value)
                    a = [ev(x) for x in s.value.args]
                    ps = [tuple(a)] if s.value.func.attr == 'setdefault' else list(a[0].items() if isinstance(a[0], dict) else a[0])
                    getattr(d, s.value.func.attr)(*a)
                    log.setdefault(id(d), []).extend(ps)
                else:
                    raise ValueError('not a table statement')

        def written(s):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    yield n.id
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    yield n.value.id
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    yield n.func.value.id
        names = {name}
        stmts = [s for s in cls.node.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))]
        while True:     # backward slice of the class body
            n0 = len(names)
            for s in stmts:
                if not names.isdisjoint(written(s)) and not isinstance(s, ast.Delete):
                    names |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
            if len(names) == n0:
                break
        sl = [s for s in stmts if not names.isdisjoint(written(s))]
        try:
            run(sl)
        except ValueError:
            raise
        except Exception as e:
            raise ValueError(str(e))
        if name not in env:
            raise ValueError('no such table')
        v = env[name]
        return log.get(id(v), list(v.items()) if isinstance(v, dict) else None) if pairs else v

    def _elts(self, elts, ev):
        for e in elts:
            if isinstance(e, ast.Starred):
                yield from ev(e.value)
            else:
                yield ev(e)


def bind(target, x):
    """The names a loop target binds to a value."""
    if isinstance(target, ast.Name):
        return {target.id: x}
    out = {}
    for t, y in zip(target.elts, x):
        out.update(bind(t, y))
    return out


class _Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return ast.copy_location(ast.Constant(self.env[n.id]), n)
        return n


def subst(e, env):
    """The expression with names replaced by their values."""
    if not env or not any(isinstance(n, ast.Name) and n.id in env for n in ast.walk(e)):
        return e
    import copy
    memo = {}
    for n in ast.walk(e):   # values stay the same object
        if isinstance(n, ast.Constant):
            memo[id(n.value)] = n.value
    return _Subst(env).visit(copy.deepcopy(e, memo))
