"""No public operation trips over its own internals.

Rules, over every module, class, function and call site of the package:
names       each name used in any scope is bound in an enclosing scope, the module
            or the builtins, and not deleted at the end of the module;
modules     each attribute of a module (own, parce or standard library) exists,
            as does each imported name;
classes     each attribute taken from a class exists in its mro;
self        each attribute taken from self or super() exists in every instantiable
            subclass that inherits the method;
narrowed    an attribute of a value known (by isinstance tests on the path) to be of
            own classes exists in these classes;
calls       each call of a function, class, method of self, super() or of an object of
            known type has arguments that fit the signature, also of all overriding
            methods;
methods     a call of a method whose name only own classes define fits at least one
            definition;
locals      no path reads a local variable before it is assigned;
creation    each way of creating an instance sets every attribute that is read without
            precaution.
"""
import ast
import warnings

from ..lib import *
from ..names import *
from ..gvf import UNBOUND, leaves

TECHNIQUE = 'scope and attribute resolution over the syntax tree, call signature checking with class hierarchy, definite assignment by path-sensitive value flow'
NOTE = ('All name uses, attribute accesses on modules, classes, self and narrowed values, and all call sites with a resolvable '
        'callee. Attributes of values of unknown type are only checked by method name.')


def check(c):
    m = c.model
    N = Names(m)
    for mo in m.own_modules:
        names(c, N, mo)
    selfs(c, N)
    calls(c, N)
    flow(c, N)
    creation(c, N)
    c.floor('names', 1000)
    c.floor('self', 500)
    c.floor('calls', 300)


def where(mo, n):
    return '{}:{}'.format(mo.relpath, n.lineno)


def label(mo, s):
    parts = []
    while s is not None and s.kind != 'module':
        if s.kind != 'comp':
            parts.append(getattr(s.node, 'name', '<lambda>'))
        s = s.outer
    return '.'.join([mo.name] + parts[::-1])


def names(c, N, mo):
    sc = N.scopes[mo]
    star = bool(mo.star)
    for n, s in sc.uses:
        b = s.find(n.id)
        ok = b is not None or n.id in BUILTIN_NAMES or star and mo.has_name(n.id)
        msg = 'name {} is not defined'.format(n.id)
        if b is None and n.id in ('__class__', 'super', '__module__', '__qualname__'):
            ok = True
        if ok and b is sc.module and n.id in sc.deleted and s.kind == 'function' and not rebound(sc, n.id) \
                and not used_at_import(sc, n, s):
            ok, msg = False, 'name {} is deleted from the module'.format(n.id)
        c.ob('names', '{} {}'.format(label(mo, s), n.id), ok, msg, where(mo, n))
    # imports
    for n in ast.walk(mo.tree):
        if isinstance(n, ast.ImportFrom):
            base = mo._from_base(n)
            b = N.m.module(base)
            for a in n.names:
                if a.name == '*':
                    continue
                if b is not None:
                    ok = N.m.resolve_name(b, a.name) is not None and not is_builtin(N.m.resolve_name(b, a.name)) \
                        or N.m.module(base + '.' + a.name) is not None
                elif base.split('.')[0] in ('quickly', 'parce'):
                    ok = False
                else:
                    ok = external_has(base + '.' + a.name)
                c.ob('modules', '{} from {} import {}'.format(mo.name, base, a.name), ok is not False,
                     '{} has no {}'.format(base, a.name), where(mo, n))
        elif isinstance(n, ast.Import):
            for a in n.names:
                ok = N.m.module(a.name) is not None or (
                    external_has(a.name) is not False and a.name.split('.')[0] not in ('quickly', 'parce'))
                c.ob('modules', '{} import {}'.format(mo.name, a.name), ok, 'no module {}'.format(a.name), where(mo, n))
    for n, s in sc.attrs:
        b = N.resolve(mo, n.value, s)
        if isinstance(b, Module):
            ok = N.m.resolve_attr(b, n.attr) is not None or n.attr in ('__file__', '__name__', '__doc__', '__path__', '__dict__', '__spec__') \
                or b.has_name(n.attr) or isinstance(n.ctx, ast.Store) or dynamic(b)
            c.ob('modules', '{} {}.{}'.format(label(mo, s), b.name, n.attr), ok,
                 'module {} has no {}'.format(b.name, n.attr), where(mo, n))
        elif isinstance(b, Class) and isinstance(n.ctx, ast.Load):
            h = N.has_attr(b, n.attr)
            if h is False and n.attr in TYPE_ATTRS:
                h = True
            c.ob('classes', '{} {}.{}'.format(label(mo, s), b.name, n.attr), h is not False,
                 'class {} has no {}'.format(b.name, n.attr), where(mo, n))
        elif isinstance(b, tuple) and b[0] == 'external':
            ok = external_has('{}.{}'.format(b[1], n.attr))
            c.ob('modules', '{} {}.{}'.format(label(mo, s), b[1], n.attr), ok is not False,
                 '{} has no {}'.format(b[1], n.attr), where(mo, n))


def is_builtin(r):
    return isinstance(r, tuple) and r[0] == 'builtin'


def dynamic(mo):
    """Module that adds names to its globals at import time."""
    return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call)
               and isinstance(n.value.func, ast.Name) and n.value.func.id == 'globals' for n in ast.walk(mo.tree)) \
        or any(isinstance(n, ast.FunctionDef) and n.name == '__getattr__' for n in mo.tree.body)


def rebound(sc, name):
    d = sc.deleted[name]
    return any(getattr(b if not isinstance(b, tuple) else b[0], 'lineno', 0) > d.lineno for b in sc.module.bound.get(name, ()))


def used_at_import(sc, n, s):
    """A use inside a function that is itself deleted too (an import time helper)."""
    while s.outer is not None and s.outer.kind != 'module':
        s = s.outer
    return getattr(s.node, 'name', None) in sc.deleted


# ------------------------------------------------------------------ self

def guarded(fnode, target):
    """Access inside try/except AttributeError, or after hasattr of that name."""
    for n in ast.walk(fnode):
        if isinstance(n, ast.Try):
            names = set()
            for h in n.handlers:
                for x in ast.walk(h.type) if h.type else ():
                    if isinstance(x, ast.Name):
                        names.add(x.id)
                if h.type is None:
                    names.add('AttributeError')
            if names & {'AttributeError', 'Exception', 'BaseException'}:
                for s in n.body:
                    if any(x is target for x in ast.walk(s)):
                        return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and len(n.args) == 2 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value == target.attr:
            return True
    return False


def self_names(f):
    """Names in f (and its nested functions) that are the instance or the class."""
    ps = f.params()
    if not ps or f.kind == 'staticmethod':
        return None, None
    return ps[0], f.kind == 'classmethod'


def helper(cls, f):
    """Function of the class body that is called there and not kept under its name."""
    return f.prop_role is None and cls.methods.get(f.name) is not f and f.name in cls.assigns


def concrete(m, cls):
    """The classes through which a method of cls can be called."""
    subs = [d for d in m.subclasses(cls)]
    return [cls] + subs


def abstract_for(N, cls, name):
    """A mixin or base class that leaves name to its subclasses."""
    subs = N.m.subclasses(cls)
    return bool(subs) and any(N.has_attr(d, name) for d in subs)


def instantiated(N):
    """Classes that some code creates, or that nobody derives from."""
    if not hasattr(N, '_inst_classes'):
        out = set()
        for mo, sc in N.scopes.items():
            for n, s in sc.calls:
                r = N.resolve(mo, n.func, s)
                if isinstance(r, Class):
                    out.add(r)
            for n, s in sc.attrs:
                r = N.resolve(mo, n, s)
                if isinstance(r, Class):
                    # handed over as a value (factories)
                    out.add(r)
        N._inst_classes = out
    return N._inst_classes


def selfs(c, N):
    m = N.m
    for cls in m.all_classes():
        for f in cls.funcs:
            me, isclass = self_names(f)
            if me is None or helper(cls, f):
                continue
            bound = {me}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == me:
                    bound = set()
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node and any(
                        a.arg == me for a in n.args.args):
                    bound = set()
                    break
            if not bound:
                continue
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Attribute):
                    continue
                if isinstance(n.value, ast.Name) and n.value.id in bound:
                    if isinstance(n.ctx, ast.Load):
                        self_load(c, N, cls, f, n)
                    elif isinstance(n.ctx, ast.Store) and not isclass and not guarded(f.node, n):
                        self_store(c, N, cls, f, n)
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' \
                        and not n.value.args:
                    bad = None
                    r = cls.lookup(n.attr, after=cls)
                    if r is None and not any(isinstance(x, str) and x.startswith('unknown:') for x in cls.mro()):
                        # a mixin: every subclass must provide it after cls
                        subs = [d for d in m.subclasses(cls)]
                        bad = [d for d in subs if d.lookup(n.attr, after=cls) is None] if subs else [cls]
                    c.ob('self', '{} super().{}'.format(f.qualname, n.attr), not bad,
                         'no base class of {} has {}'.format(bad[0].name if bad else '', n.attr), where(f.module, n))


def self_load(c, N, cls, f, n):
    if n.attr == '__class__' or guarded(f.node, n):
        return
    h = N.has_attr(cls, n.attr)
    msg = '{} has no attribute {}'.format(cls.name, n.attr)
    if h is False and n.attr in TYPE_ATTRS and f.kind == 'classmethod':
        h = True
    if h is False:
        subs = N.m.subclasses(cls)
        users = [d for d in subs if d.lookup(f.name) and d.lookup(f.name)[2] is f]
        leafs = [d for d in users if not any(d in e.mro() and e is not d for e in users)]
        bad = [d for d in leafs if N.has_attr(d, n.attr) is False]
        if leafs and not bad:
            h = True
        elif leafs and len(bad) < len(leafs):
            msg = '{} has no attribute {}'.format(bad[0].name, n.attr)
    c.ob('self', '{} self.{}'.format(f.qualname, n.attr), h is not False, msg, where(f.module, n))


def dictless(cls):
    for k in cls.mro():
        if isinstance(k, Class):
            if k.slots() is None:
                return False
        elif k not in ('object', 'list', 'tuple', 'dict', 'str', 'int'):
            return False
    return True


def self_store(c, N, cls, f, n):
    # properties without setter
    for k in cls.mro():
        if isinstance(k, Class):
            if n.attr in k.setters:
                break
            if n.attr in k.methods and k.methods[n.attr].kind == 'property':
                if cls.lookup_setter(n.attr) is None:
                    c.ob('self', '{} self.{} ='.format(f.qualname, n.attr), False,
                         'property {} of {} cannot be set'.format(n.attr, k.name), where(f.module, n))
                return
            if n.attr in k.assigns:
                break
    subs = [cls] + N.m.subclasses(cls)
    bad = []
    for d in subs:
        if dictless(d) and not any(isinstance(k, Class) and (
                n.attr in (k.slots() or ()) or n.attr in k.setters or n.attr in k.assigns) for k in d.mro()):
            bad.append(d)
    ok = not bad or len(bad) < len(subs) and cls in bad and False
    c.ob('self', '{} self.{} ='.format(f.qualname, n.attr), ok,
         '{} has no slot {}'.format(bad[0].name if bad else '', n.attr), where(f.module, n))


# ------------------------------------------------------------------ calls

def call_shape(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    npos = sum(1 for a in n.args if not isinstance(a, ast.Starred))
    kws = [k.arg for k in n.keywords if k.arg]
    return npos, kws, star, any(k.arg is None for k in n.keywords)


def constructor(N, cls):
    """Signature of creating an instance, or None when unknown."""
    for k in cls.mro():
        if isinstance(k, Class):
            if not k.module.own and k.node.decorator_list:
                return None
            if k.node.keywords:
                return None
            if '__init__' in k.methods:
                f = k.methods['__init__']
                return f, signature(f, 1)
            if '__new__' in k.methods:
                f = k.methods['__new__']
                return f, signature(f, 1)
            if '__init__' in k.assigns or '__new__' in k.assigns:
                return None
        elif k.startswith('unknown:') or k in ('list', 'tuple', 'dict', 'str', 'int', 'set', 'BaseException', 'Exception', 'type', 'float', 'bytes', 'frozenset'):
            return None
    return None, ([], 0, False, [], [], False)


def fit(c, N, con, what, sig, n, mo):
    why = misfit(sig, *call_shape(n))
    c.ob('calls', '{} calls {}'.format(con, what), why is None, '{} {}'.format(what, why), where(mo, n))


def plain_func(f):
    return not f.registrations


def method_targets(N, cls, name):
    """Definitions a method call on an instance of cls can reach."""
    out = []
    r = cls.lookup(name)
    if r and r[1] == 'method':
        out.append((r[0], r[2]))
    elif r:
        return []
    for d in N.m.subclasses(cls):
        if name in d.methods:
            out.append((d, d.methods[name]))
        elif name in d.assigns:
            return []
    return out


def calls(c, N):
    m = N.m
    byname = {}
    for k in m.all_classes():
        for f in k.funcs:
            byname.setdefault(f.name, []).append(f)
    for mo, sc in N.scopes.items():
        for n, s in sc.calls:
            con = label(mo, s)
            callbacks(c, n, mo, con)
            r = N.resolve(mo, n.func, s)
            if isinstance(r, Func):
                if not plain_func(r):
                    continue
                drop = 1 if r.kind == 'classmethod' else 0
                fit(c, N, con, r.qualname, signature(r, drop), n, mo)
            elif isinstance(r, Class):
                k = constructor(N, r)
                if k is not None:
                    fit(c, N, con, r.qualname, k[1], n, mo)
            elif isinstance(n.func, ast.Name):
                t = namedtuple_fields(N, mo, n.func, s)
                if t is not None:
                    fit(c, N, con, n.func.id, t, n, mo)
                else:
                    local_call(c, N, mo, n, s, con)
            elif self_type(n.func):
                f, fs = enclosing_method(N, mo, s)
                if f is not None and f.kind != 'staticmethod' and f.params()[:1] == [self_type(n.func)]:
                    for d in [f.cls] + [x for x in N.m.subclasses(f.cls) if x.lookup(f.name) and x.lookup(f.name)[2] is f]:
                        k = constructor(N, d)
                        if k is not None:
                            fit(c, N, con, 'type of self, ' + d.name, k[1], n, mo)
            elif isinstance(n.func, ast.Attribute):
                meth_call(c, N, mo, n, s, con, byname)


def self_type(e):
    """Name x for the expressions type(x) and x.__class__."""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 \
            and isinstance(e.args[0], ast.Name):
        return e.args[0].id
    if isinstance(e, ast.Attribute) and e.attr == '__class__' and isinstance(e.value, ast.Name):
        return e.value.id


def namedtuple_fields(N, mo, e, s):
    """Signature of a named tuple type."""
    b = s.find(e.id)
    if b is None or b.kind != 'module':
        return None
    for n in mo.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) \
                and isinstance(n.value, ast.Call) and len(n.value.args) == 2:
            r = N.resolve(mo, n.value.func, b)
            if r == ('external', 'collections.namedtuple'):
                try:
                    v = ast.literal_eval(n.value.args[1])
                except ValueError:
                    return None
                v = v.replace(',', ' ').split() if isinstance(v, str) else list(v)
                opt = 0
                for k in n.value.keywords:
                    if k.arg != 'defaults' or not isinstance(k.value, (ast.Tuple, ast.List)):
                        return None
                    opt = len(k.value.elts)
                return v, len(v) - opt, False, [], [], False
    return None


def callbacks(c, n, mo, con):
    """Lambdas given to the functions of the standard library that call them with known arguments."""
    if not isinstance(n.func, (ast.Name, ast.Attribute)):
        return
    name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
    if isinstance(n.func, ast.Attribute) and name != 'sort' and not (
            isinstance(n.func.value, ast.Name) and n.func.value.id in ('itertools', 'functools', 'collections', 'builtins')):
        return
    found = []
    if name in ('sorted', 'min', 'max', 'sort'):
        found = [(k.value, 1) for k in n.keywords if k.arg == 'key']
    elif name in ('filter', 'map', 'takewhile', 'dropwhile', 'filterfalse') and n.args:
        found = [(n.args[0], len(n.args) - 1)]
    elif name == 'reduce' and n.args:
        found = [(n.args[0], 2)]
    elif name == 'defaultdict' and n.args:
        found = [(n.args[0], 0)]
    for e, k in found:
        if isinstance(e, ast.Lambda) and not any(isinstance(a, ast.Starred) for a in n.args):
            a = e.args
            ok = k >= len(a.args) + len(a.posonlyargs) - len(a.defaults) and (
                a.vararg is not None or k <= len(a.args) + len(a.posonlyargs)) and not [
                d for d in a.kw_defaults if d is None]
            c.ob('calls', '{} callback of {}'.format(con, name), ok, 'the function given to {} is called with {} argument(s)'.format(name, k),
                 where(mo, n))


def local_call(c, N, mo, n, s, con):
    """Call of a nested function or of the class argument of a class method."""
    b = s.find(n.func.id)
    if b is None or b.kind != 'function':
        return
    defs = b.bound[n.func.id]
    if all(isinstance(d, (ast.FunctionDef,)) for d in defs) and len(defs) == 1 and not defs[0].decorator_list:
        f = Func(defs[0], mo)
        fit(c, N, con, n.func.id, signature(f), n, mo)
        return
    if len(defs) == 1 and isinstance(defs[0], ast.arg):
        f = method_of(N, mo, b.node)
        if f is not None and f.kind == 'classmethod' and f.params()[:1] == [n.func.id]:
            for d in [f.cls] + [x for x in N.m.subclasses(f.cls) if x.lookup(f.name) and x.lookup(f.name)[2] is f]:
                k = constructor(N, d)
                if k is not None:
                    fit(c, N, con, 'cls ' + d.name, k[1], n, mo)


def method_of(N, mo, fnode):
    if not hasattr(N, '_fmap'):
        N._fmap = {f.node: f for k in N.m.all_classes() for f in k.funcs}
    return N._fmap.get(fnode)


def enclosing_method(N, mo, s):
    """The method whose self a scope sees."""
    while s is not None:
        if s.kind == 'function':
            f = method_of(N, mo, s.node)
            if f is not None:
                return f, s
        s = s.outer
    return None, None


def meth_call(c, N, mo, n, s, con, byname):
    name, base = n.func.attr, n.func.value
    f, fs = enclosing_method(N, mo, s)
    if f is not None:
        ps = f.params()
        if isinstance(base, ast.Name) and ps and base.id == ps[0] and f.kind != 'staticmethod' and s.find(base.id) is fs \
                and len(fs.bound[base.id]) == 1:
            for owner, g in method_targets(N, f.cls, name):
                if g.kind == 'property' or not plain_func(g) or g.outer is not None:
                    continue
                if f.kind == 'classmethod' and g.kind == 'function':
                    continue
                fit(c, N, con, g.qualname, signature(g, 0 if g.kind == 'staticmethod' else 1), n, mo)
            return
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super' and not base.args:
            seen = set()
            for d in [f.cls] + N.m.subclasses(f.cls):
                r = d.lookup(name, after=f.cls)
                if r and r[1] == 'method' and r[2] not in seen:
                    seen.add(r[2])
                    g = r[2]
                    if g.kind == 'property' or not plain_func(g):
                        continue
                    drop = 0 if g.kind == 'staticmethod' and g.name != '__new__' else (0 if g.name == '__new__' else 1)
                    fit(c, N, con, g.qualname, signature(g, drop), n, mo)
            return
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'type' and len(base.args) == 1:
            pass
    # type(self)(...) is a Call of a Call: handled by constructor_call
    if name in byname and not external_method(N, name):
        gs = [g for g in byname[name] if plain_func(g) and g.kind != 'property']
        if not gs or any(name in k.assigns for k in N.m.all_classes()):
            return
        if any(name in N.instance_attrs(k) for k in N.m.all_classes()):
            return
        whys = [misfit(signature(g, 0 if g.kind == 'staticmethod' else 1), *call_shape(n)) for g in gs]
        # unbound call through a class or module function of the same name
        mods = [x.funcs[name] for x in N.m.own_modules if name in x.funcs]
        whys += [misfit(signature(g), *call_shape(n)) for g in mods]
        ok = any(w is None for w in whys)
        c.ob('methods', '{} calls .{}'.format(con, name), ok, 'no method {} takes these arguments: {}'.format(name, whys[0]),
             where(mo, n))


def external_method(N, name):
    """A method of that name exists on other than own classes."""
    if not hasattr(N, '_ext'):
        out = set()
        for t in (list, dict, set, str, tuple, int, float, type, object, frozenset, bytes):
            out |= set(dir(t))
        import re
        import fractions
        import collections
        import weakref
        for t in (fractions.Fraction, collections.deque, re.Pattern, re.Match, weakref.ref):
            out |= set(dir(t))
        import os
        base = os.path.join(N.m.site or '', 'parce')
        for d, _, files in os.walk(base):
            for x in files:
                if x.endswith('.py'):
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            tree = ast.parse(open(os.path.join(d, x), encoding='utf-8').read())
                    except (SyntaxError, OSError):
                        continue
                    for n in ast.walk(tree):
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                            out.add(n.name)
                        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            out.add(n.attr)
                        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
        N._ext = out
    return name in N._ext


# ------------------------------------------------------------------ value flow

def flow(c, N):
    m = N.m
    for f in m.all_funcs():
        if f.outer is not None:
            continue

        def run(f=f):
            seen = {}
            log = []

            class Log(dict):
                pass
            I = node_interp(m, max_depth=1)
            I.getattr_hook = lambda base, name, st, node: log.append((base, name, dict(st.facts), node))
            I.inline = lambda g: False
            r = I.run(f)
            for e in r.events:
                if e.kind == 'maybe_unbound':
                    name, v = e.args[:2]
                    bad = [conds for x, conds in leaves(v) if x is UNBOUND and feasible(conds, e)]
                    c.ob('locals', '{} {}'.format(f.qualname, name), not bad,
                         'local variable {} may be read before it is assigned'.format(name), e.where)
                elif e.kind == 'loop_var':
                    name, v = e.args[:2]
                    bad = [1 for x, conds in leaves(v) if x in I.mu and any(
                        y is UNBOUND and feasible(tuple(conds) + tuple(cs), e) for y, cs in leaves(I.mu[x][0]))]
                    c.ob('locals', '{} {}'.format(f.qualname, name), not bad,
                         'local variable {} may be read before it is assigned in a loop'.format(name), e.where)
                elif e.kind in ('bad_arity', 'missing_arg', 'bad_keyword'):
                    c.ob('calls', '{} {}'.format(f.qualname, e.args[0]), False, '{} {}'.format(e.kind, e.args[1]), e.where)
            narrowed(c, N, f, log)
            local_types(c, N, f, I, r)
            c.unit('functions interpreted')
        c.guard('locals', f.qualname, run)


def feasible(conds, e):
    return consistent(dict(e.facts) if e.facts else {}, tuple(conds))


def narrowed(c, N, f, log):
    done = set()
    for base, name, facts, node in log:
        classes = None
        for q, v in facts.items():
            if v and q.op == 'isinstance' and q.args[0] is base and isinstance(q.args[1], tuple) \
                    and all(isinstance(k, Class) for k in q.args[1]):
                classes = q.args[1] if classes is None or len(q.args[1]) < len(classes) else classes
        if not classes or node is None:
            continue
        key = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), name)
        if key in done:
            continue
        done.add(key)
        attr = node.func if isinstance(node, ast.Call) else node
        if isinstance(attr, ast.Attribute) and guarded(f.node, attr):
            continue
        excluded = [k for q, v in facts.items() if v is False and q.op == 'isinstance' and q.args[0] is base
                    and isinstance(q.args[1], tuple) for k in q.args[1] if isinstance(k, Class)]
        bad = [k for k in classes if N.has_attr(k, name, sub=True) is False and not any(x in k.mro() for x in excluded)]
        c.ob('narrowed', '{} .{}'.format(f.qualname, name), not bad,
             '{} has no attribute {}'.format(bad[0].name if bad else '', name),
             '{}:{}'.format(f.module.relpath, getattr(node, 'lineno', 0)))


def local_types(c, N, f, I, r):
    """Method calls on objects whose class is known by construction or tests."""
    for e in r.events:
        if e.kind != 'call' or e.args[0].op != 'bound':
            continue
        g, obj = e.args[0].args[:2]
        if not isinstance(g, Func) or not plain_func(g) or g.kind == 'property' or obj.op == 'param':
            continue
        args, kws = e.args[1], e.args[2]
        star = any(x.op in ('star', 'seq') for x in args)
        sig = signature(g, 0 if g.kind == 'staticmethod' else 1)
        if any(x.op == 'star' for x in args):
            npos = sum(1 for x in args if x.op != 'star')
        else:
            npos = len(args)
        why = misfit(sig, npos, [k for k, _ in kws if k != '**'], star, any(k == '**' for k, _ in kws))
        c.ob('calls', '{} calls {}'.format(f.qualname, g.qualname), why is None, '{} {}'.format(g.qualname, why), e.where)


# ------------------------------------------------------------------ creation

def creation(c, N):
    """Every way of creating an instance sets the attributes its methods read."""
    m = N.m
    for cls in m.all_classes():
        if any(isinstance(k, str) and k.startswith('unknown:') for k in cls.mro()):
            continue
        needed = {}
        for k in [cls] + [x for x in cls.mro() if isinstance(x, Class)]:
            for f in k.funcs:
                me, isclass = self_names(f)
                if me is None or isclass:
                    continue
                r = cls.lookup(f.name)
                if f.prop_role not in ('setter', 'deleter') and (r is None or r[2] is not f) and f.name == '__init__':
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                            and n.value.id == me and f.name not in ('__init__', '__new__') and not guarded(f.node, n):
                        a = n.attr
                        if a in needed or class_level(cls, a):
                            continue
                        if not any(a in N.instance_attrs(x) or a in (x.slots() or ()) for x in cls.mro() if isinstance(x, Class)):
                            continue
                        needed[a] = (f, n)
        if not needed:
            continue
        made = []
        init = cls.lookup('__init__')
        if init and init[1] == 'method':
            got = definite(m, cls, init[2])
            hook = cls.lookup('__set_name__')
            if hook and hook[1] == 'method' and got is not None:
                got = got | (definite(m, cls, hook[2]) or set())
            made.append(('__init__', got))
        for k in [x for x in cls.mro() if isinstance(x, Class)]:
            for f in k.funcs:
                for var, got in new_sites(m, cls, f):
                    made.append(('{} ({})'.format(f.qualname, var), got))
        for how, got in made:
            if got is None:
                continue
            if '*dynamic*' in got:
                continue
            for a, (f, n) in sorted(needed.items()):
                c.ob('creation', '{} by {}: {}'.format(cls.qualname, how, a), a in got,
                     'attribute {} is not set by {} but read by {}'.format(a, how, f.qualname), where(f.module, n))


def class_level(cls, a):
    for k in cls.mro():
        if isinstance(k, Class):
            if a in k.methods or a in k.assigns or a in k.classes or a in k.setters:
                return True
            h = k.methods.get('__init_subclass__')
            if h is not None and a in (assigned(k.module.model, k, h, h.body, h.params()[0], 0)):
                return True
        elif hasattr(getattr(builtins, k, None), a):
            return True
    return False


def definite(m, cls, f, depth=0):
    """Attributes of self assigned on every normal path through f; None if unknown."""
    if depth > 6:
        return set()
    me = (f.params() or [None])[0]
    return assigned(m, cls, f, f.body, me, depth)


def assigned(m, cls, f, body, me, depth, ret=None):
    """Attributes of me assigned on every normal path; with ret, on the paths that return it."""
    exits = []
    end = paths(m, cls, f, body, me, depth, frozenset(), exits, ret)
    if end is not None and ret is None:
        exits.append(end)
    if not exits:
        return set()
    return set(frozenset.intersection(*exits))


def paths(m, cls, f, body, me, depth, got, exits, ret):
    """Assigned at the end of body, or None when its end is not reached."""
    def expr(e):
        return in_expr(m, cls, f, e, me, depth) if e is not None else set()

    def walk(b, g):
        return paths(m, cls, f, b, me, depth, frozenset(g), exits, ret)

    for s in body:
        if isinstance(s, ast.Return):
            got |= expr(s)
            if ret is None or s.value is not None and any(isinstance(x, ast.Name) and x.id == ret for x in ast.walk(s.value)):
                exits.append(got)
            return None
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return None
        if isinstance(s, ast.If):
            got |= expr(s.test)
            outs = [x for x in (walk(s.body, got), walk(s.orelse, got)) if x is not None]
        elif isinstance(s, ast.With):
            for i in s.items:
                got |= expr(i.context_expr)
            outs = [x for x in (walk(s.body, got),) if x is not None]
        elif isinstance(s, ast.Try):
            outs = [x for x in [walk(s.body + s.orelse, got)] + [walk(h.body, got) for h in s.handlers] if x is not None]
            if outs:
                x = walk(s.finalbody, frozenset.intersection(*outs))
                outs = [x] if x is not None else []
        elif isinstance(s, (ast.For, ast.While)):
            got |= expr(s.iter if isinstance(s, ast.For) else s.test)
            end = walk(s.body, got)
            if end is not None and isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts \
                    and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
                got |= end
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value \
                and not any(isinstance(x, ast.Break) for x in ast.walk(s))
            outs = [] if forever else [x for x in (walk(s.orelse, got),) if x is not None]
        elif isinstance(s, ast.Match):
            got |= expr(s.subject)
            outs = [x for x in [walk(k.body, got) for k in s.cases] + [got] if x is not None]
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            got |= expr(s)
            continue
        if not outs:
            return None
        got = frozenset.intersection(*outs)
    return got


def in_expr(m, cls, f, s, me, depth):
    got = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 \
                and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
            got.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else '*dynamic*')
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr == '__dict__':
            got.add('*dynamic*')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
            got.add(n.attr)
            g = cls.lookup_setter(n.attr)
            if g is not None:
                got |= definite(m, cls, g, depth + 1)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            b = n.func.value
            if isinstance(b, ast.Name) and b.id == me:
                r = cls.lookup(n.func.attr)
                if r and r[1] == 'method' and r[2].kind == 'function':
                    got |= definite(m, cls, r[2], depth + 1)
            elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and f.cls is not None:
                r = cls.lookup(n.func.attr, after=f.cls)
                if r and r[1] == 'method' and r[2].kind == 'function':
                    got |= definite(m, cls, r[2], depth + 1)
            elif isinstance(b, (ast.Name, ast.Attribute)) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                r = m.resolve_expr(f.module, b)
                if isinstance(r, Class):
                    x = r.lookup(n.func.attr)
                    if x and x[1] == 'method':
                        got |= definite(m, cls, x[2], depth + 1)
    return got


def new_sites(m, cls, f):
    """Objects made with __new__ in f and the attributes set on them on every path."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr == '__new__' and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if f.name == '__new__':
                continue
            var = n.targets[0].id
            # initialised by a call of __init__?
            calls_init = False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '__init__':
                    calls_init = True
            if calls_init:
                continue
            got = assigned(m, cls, f, f.body, var, 0, var)
            yield var, got
