"""L01: a lookup without an answer never breaks its caller.

The functions that may answer None are computed from the values they return. Every call
of such a function (and of dict.get, next(..., None), a regular expression match, and the
transform of a document that is not waited for) is then analysed with None for an
answer: whatever its caller does with the answer on the paths that remain may not fail.

Everything that was asked not to wait passes that request on, and the answers with two
values are used in the order they are given.
"""
from ..lib import *

TECHNIQUE = ('Value flow: functions that may return None are found by their returned values, each call site is then interpreted with None '
             'as the answer (nullness per call site, path sensitive, helpers followed); the wait request is followed to every call '
             'that accepts one.')
NOTE = ('Lookups that fail by documented precondition (siblings and replacement of a node without parent) are exempt; a pitch name for '
        'every pitch is decided by M06.')

LIMIT = 3
# without a parent, by documentation, these fail; a pitch is always named or fails with a KeyError (M06)
PRECONDITION = ('parent',)
# attributes of the tokens and documents of the parser library
FOREIGN = {'pos', 'end', 'text', 'action', 'group', 'context', 'name', 'url', 'obj', 'is_token', 'revision', 'head', 'tail', 'node', 'index'}
TOTAL = ('name_octave',)


def check(c):
    m = c.model
    opt = Optional(m)
    for name in ('find_assignment', 'find_child', 'get_value_with_scope', 'get_variable', 'include_scope', 'get_document', 'common_ancestor'):
        if not any(f.name == name for f in opt.funcs):
            # the answer was made total, or the name changed: no obligations from it
            c.unit('lookup not optional')
    c.unit('optional function', len(opt.funcs))
    for f in m.all_funcs():
        for site in opt.sites(f):
            c.guard('absent', f.qualname, lambda: absent(c, m, opt, f, site))
    c.guard('present', 'truth', lambda: present(c, m))
    c.guard('wait', 'wait', lambda: waits(c, m))
    c.guard('order', 'answers', lambda: ordered(c, m))
    c.floor('absent', 40)
    c.floor('wait', 8)
    c.floor('order', 4)
    c.floor('present', 2)


def own(f):
    return param('self') if f.cls and f.kind not in ('staticmethod',) else None


class Optional:
    """The functions that may answer None as well as something else."""
    def __init__(self, m):
        self.m = m
        self.rets = {}
        self.names = {}
        for f in m.all_funcs():
            if f.is_generator or f.kind not in ('function', 'staticmethod', 'classmethod', 'property'):
                continue
            if f.prop_role in ('setter', 'deleter'):
                continue
            try:
                r = node_interp(m, max_depth=0).run(f, self_term=own(f), cls=f.cls)
            except (Budget, RecursionError):
                continue
            self.rets[f] = [x for st, v in r.returns for x, _ in leaves(v)]
            self.names.setdefault(f.name, []).append(f)
        self.funcs = set()
        for f, mine in self.rets.items():
            if f.name in TOTAL or f.name.startswith('__') and f.name not in ('__get__',):
                continue
            fam = [f]
            if f.cls:
                fam = [g for g in self.names[f.name] if g.cls and (g.cls.issub(f.cls) or f.cls.issub(g.cls))]
            every = [x for g in fam for x in self.rets[g]]
            if any(x is NONE for x in every) or f.cls and f.kind == 'function' and any(unset(f.cls, x) for x in every):
                self.funcs.add(f)
        # names that are something else too: attributes of instances and of classes
        self.other = set(FOREIGN)
        for f in m.all_funcs():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and f.cls and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    got = f.cls.lookup(x.attr)
                    if not (got and got[1] == 'method' and got[2].kind == 'property'):
                        self.other.add(x.attr)
        for k in m.all_classes():
            for x in k.node.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Name):
                            self.other.add(t.id)
        grow = True
        while grow:
            grow = False
            for f, rs in self.rets.items():
                if f in self.funcs or f.name in TOTAL or f.name.startswith('__'):
                    continue
                if any(x.op == 'call' and self.callee(x.args[0], count(x.args[1], x.args[2])) for x in rs):
                    self.funcs.add(f)
                    grow = True

    def fits(self, f, nargs):
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if f.cls and f.kind != 'staticmethod' and ps:
            ps = ps[1:]
        return nargs is None or a.vararg is not None and nargs >= len(ps) - len(a.defaults) or len(ps) - len(a.defaults) <= nargs <= len(ps)

    def callee(self, fn, nargs=None):
        """Whether calling fn may answer None."""
        if fn.op in ('bound', 'func', 'closure'):
            return fn.args[0] in self.funcs
        if fn.op == 'attr':
            fs = [f for f in self.names.get(fn.args[1], ()) if f.cls and f.kind != 'property' and self.fits(f, nargs)]
            return bool(fs) and all(f in self.funcs for f in fs)
        return False

    def prop(self, base, name, ty):
        if isinstance(ty, Class):
            got = ty.lookup(name)
            return bool(got and got[1] == 'method' and got[2].kind == 'property' and got[2] in self.funcs)
        fs = [f for f in self.names.get(name, ()) if f.cls and f.kind == 'property']
        return bool(fs) and all(f in self.funcs for f in fs) and name not in self.other

    def sites(self, g):
        """The places in g that may ask for an answer (decided when interpreted)."""
        out = []
        unused = {x.value for x in ast.walk(g.node) if isinstance(x, ast.Expr)}
        unused |= {x.func for x in ast.walk(g.node) if isinstance(x, ast.Call)}
        for x in ast.walk(g.node):
            if x in unused:
                continue
            if isinstance(x, ast.Call):
                fn = x.func
                n = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
                if any(f in self.funcs for f in self.names.get(n, ())) or n in ('get_transform', 'match', 'search', 'fullmatch', 'next', 'get'):
                    out.append(x)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in self.names \
                    and any(f.kind == 'property' and f in self.funcs for f in self.names[x.attr]):
                out.append(x)
        return out

    def answers(self, I, st, fn, args, kws, nd):
        """Whether this call may answer None."""
        if fn.op in ('bound', 'func', 'closure', 'attr') and self.callee(fn, count(args, kws)):
            return True
        n = callee_name(fn)
        if n == 'get_transform' and fn.op == 'attr':
            w = args[0] if args else dict(kws).get('wait')
            return w is not TRUE
        if n in ('match', 'search', 'fullmatch') and fn.op in ('attr', 'ext', 'bound_builtin', 'global'):
            return True
        if n == 'get' and fn.op in ('attr', 'bound_builtin'):
            return len(args) == 1 and not kws
        if n == 'next' and fn.op == 'builtin':
            return len(args) == 2 and args[1] is NONE
        return False


def unset(k, x):
    """Whether x is an attribute that is None as long as it is not set."""
    if x.op != 'attr' or x.args[0] is not param('self'):
        return False
    got = k.lookup(x.args[1])
    return bool(got and got[1] == 'assign' and isinstance(got[2], ast.AST) and isinstance(got[2], ast.Constant) and got[2].value is None)


def count(args, kws):
    """The number of arguments, None if not known."""
    if any(a.op == 'star' for a in args) or any(not k for k, _ in kws):
        return None
    return len(args) + len(kws)


def crashes(r):
    return {e.node for e in r.events if e.kind == 'crash'}


def absent(c, m, opt, g, site):
    what = ast.unparse(site)

    def given(answer):
        """The places that fail when this is the answer, None if not asked."""
        asked = []

        def on_call(I, st, fn, args, kws, nd):
            if nd is site and opt.answers(I, st, fn, args, kws, nd):
                asked.append(1)
                return answer

        def on_attr(I, st, base, name, nd):
            if nd is site and isinstance(site, ast.Attribute) and opt.prop(base, name, I.typeof(base, st)):
                if name in PRECONDITION:
                    return None
                asked.append(1)
                return answer
        I = node_interp(m, on_call=on_call, max_depth=LIMIT)
        I.strict_none = True
        I.on_attr = on_attr
        if g.cls and own(g) is not None:
            I.types[own(g)] = g.cls
        r = I.run(g, self_term=own(g), cls=g.cls, facts=[(is_none(answer), False)] if answer is not NONE else ())
        return crashes(r) if asked else None
    bad = given(NONE)
    if bad is None:
        return
    c.unit('lookup followed')
    if bad:
        bad = bad - (given(mk('sym', 'answer')) or set())
    name = '{}: {}'.format(g.qualname.replace('quickly.', ''), what[:80])
    lines = sorted({getattr(n, 'lineno', 0) for n in bad})
    c.ob('absent', name, not bad, 'when {} has no answer, what is done with it fails (line {})'.format(
        what[:80], ', '.join(map(str, lines))), '{}:{}'.format(g.where.split(':')[0], lines[0] if lines else site.lineno))


# --------------------------------------------------------------------- present

def present(c, m):
    """An answer is told from no answer by its truth, so what is found is always true."""
    node = m.cls('node.Node')
    for k in [x for x in m.all_classes() if x.issub(node) or x.issub(m.cls('dom.scope.Scope')) or x.name == 'Result']:
        b, ln = k.lookup('__bool__'), k.lookup('__len__')
        if k.issub(node) and k is not node and b and b[0] is node and '__bool__' not in k.methods:
            continue        # inherits from the node
        c.unit('class')
        ok = True
        if b and b[1] == 'method':
            r = node_interp(m).run(b[2], self_term=param('self'), cls=k)
            ok = r.value is TRUE
        elif ln and ln[1] == 'method' or k.issub(node):
            ok = False
        c.ob('present', k.qualname.replace('quickly.', ''), ok, 'a {} that was found may count as nothing found'.format(k.name), k.where)


# ------------------------------------------------------------------------ wait

def waiting(m):
    """The functions and classes that accept a request (not) to wait."""
    fs = [f for f in m.all_funcs() if 'wait' in f.params()]
    ks = [f.cls for f in fs if f.name == '__init__' and f.cls]
    return fs, ks


def waits(c, m):
    fs, ks = waiting(m)
    names = {f.name for f in fs if f.name != '__init__'} | {'get_transform'}
    every = [k for k in m.all_classes() if any(k.issub(x) for x in ks)]
    ctx = m.cls('time.TimeContext')
    # the request is kept
    for k in ks:
        f = k.lookup('__init__')[2]
        r = node_interp(m).run(f, self_term=param('self'), cls=k)
        kept = r.state.heap.get((param('self'), 'wait')) if r.state else None
        c.ob('wait', '{} keeps the request'.format(k.name), kept is param('wait'),
             'the request not to wait given to {} is not kept in its attribute'.format(k.name), f.where)
    done = set()
    for g in m.all_funcs():
        if g.name == '__init__' and g.cls in ks or g.node in done:
            continue
        mine = 'wait' in g.params()
        if not (mine or g.cls and (g.cls in every or g.cls.issub(ctx))):
            continue
        types = {}
        calls = []

        def on_call(I, st, fn, args, kws, nd):
            n = callee_name(fn)
            kind = None
            if fn.op == 'cls':
                kind = fn.args[0]
            elif fn.op == 'type':
                kind = g.cls if fn.args[0] is own(g) else I.typeof(fn.args[0], st)
            if kind in every or n in names and fn.op in ('attr', 'bound', 'func'):
                target = None
                if kind in every:
                    target = kind.lookup('__init__')[2]
                elif fn.op in ('bound', 'func'):
                    target = fn.args[0]
                else:
                    target = next((f for f in fs if f.name == n), None)
                pos = 0
                if target is not None:
                    if 'wait' not in target.params():
                        return None
                    ps = [p for p in target.params() if p not in ('self', 'cls')]
                    pos = ps.index('wait')
                w = dict(kws).get('wait')
                if w is None and pos < len(args) and not any(a.op == 'star' for a in args):
                    w = args[pos]
                calls.append((n, w, nd))
                if fn.op == 'cls':
                    return mk('waiter', nd)
                return None
            return None
        I = node_interp(m, on_call=on_call)
        I.opaque = set(getattr(I, 'opaque', ()) or ()) | names
        if g.cls and g.cls.issub(ctx):
            I.types[mk('attr', param('self'), 'time')] = m.cls('time.Time')
        I.run(g, self_term=own(g), cls=g.cls)
        for n, w, nd in {id(x[2]): x for x in sorted(calls, key=lambda x: good(x[1], mine), reverse=True)}.values():
            ok = good(w, mine)
            c.ob('wait', '{}: {}'.format(g.qualname.replace('quickly.', ''), ast.unparse(nd)[:80]), ok,
                 'the request not to wait is not passed on in {}'.format(ast.unparse(nd)[:80]),
                 '{}:{}'.format(g.where.split(':')[0], nd.lineno))


def good(w, mine):
    return w is not None and all(passes(x, mine) for x, _ in leaves(w))


def passes(w, mine):
    if w is param('wait'):
        return mine
    return w.op == 'attr' and w.args[1] == 'wait'


# ----------------------------------------------------------------------- order

def ordered(c, m):
    node = m.cls('dom.element.Element')
    scope = m.cls('dom.scope.Scope')
    two = ('get_value_with_scope', 'find_assignment')
    # the answer itself: the value of the assignment, and the scope it was found in
    lk = m.cls('dom.lily.Lookup')
    f = lk.lookup('find_assignment')[2]
    r = node_interp(m, opaque={'preceding_nodes', 'get_value', 'get_name'}).run(f, self_term=param('self'), cls=lk)
    got = [x for st, v in r.returns for x, _ in leaves(v) if x is not NONE]
    ok = bool(got) and all(x.op == 'tuple' and len(x.args) == 2 and first_of(x.args[0], 0, 'get_value') and first_of(x.args[1], 1) for x in got)
    c.ob('order', 'Lookup.find_assignment', ok, 'the answer is not the value of the assignment and the scope it was found in: {}'.format(
        '; '.join(show(x) for x in got)[:200]), f.where)
    for g in m.all_funcs():
        if not any(isinstance(x, ast.Attribute) and x.attr == 'get_value_with_scope' for x in ast.walk(g.node)):
            continue
        V, S = mk('sym', 'value'), mk('sym', 'scope')
        asked = []

        def on_call(I, st, fn, args, kws, nd):
            if callee_name(fn) == 'get_value_with_scope' and fn.op in ('attr', 'bound'):
                asked.append((callee_base(fn), args, kws))
                return mk('tuple', V, S)
        I = node_interp(m, on_call=on_call)
        r = I.run(g, self_term=own(g), cls=g.cls)
        if not asked:
            continue
        bad = []
        vals, scopes = carried(I, V), carried(I, S)
        looked = False
        facts = [f for st, _ in r.returns for f in st.facts]
        for e in r.events:
            facts += [f for f in e.facts]
            if e.kind == 'call':
                b, n = callee_base(e.args[0]), callee_name(e.args[0])
                if b in vals:
                    looked = True
                elif b in scopes and not scope.lookup(n):
                    bad.append('{} is asked of the scope'.format(n))
                for k, x in scoped(m, e.args[0], e.args[1], e.args[2]):
                    if x in vals:
                        bad.append('the value is given as scope')
        for b, args, kws in asked:
            if b in scopes:
                bad.append('the value is asked of the scope')
            if args and args[0] in vals or dict(kws).get('scope') in vals:
                bad.append('the value is given as scope')
        for f in facts:
            for x in subterms(f):
                if x.op == 'isinstance':
                    if x.args[0] in scopes:
                        bad.append('the type of the scope is looked at')
                    looked = looked or x.args[0] in vals
        for st, v in r.returns:
            for x, _ in leaves(v):
                if x in scopes:
                    bad.append('the scope is returned for the value')
                looked = looked or x in vals
        if not looked:
            bad.append('the value is not looked at')
        c.ob('order', g.qualname.replace('quickly.', ''), not bad, '; '.join(sorted(set(bad))), g.where)


def carried(I, t):
    """The terms that can be t, loop variables included."""
    out = {t}
    grow = True
    while grow:
        grow = False
        for k, v in I.mu.items():
            if k not in out and any(x in out for y in v[:2] if isinstance(y, T) for x, _ in leaves(y)):
                out.add(k)
                grow = True
    return out


def scoped(m, fn, args, kws):
    """The arguments of a call that are scopes."""
    if fn.op == 'cls':
        f = fn.args[0].lookup('__init__')
        f = f[2] if f and f[1] == 'method' else None
    else:
        f = fn.args[0] if fn.op in ('bound', 'func') else None
    if f is not None and 'scope' in f.params():
        ps = [p for p in f.params() if p not in ('self', 'cls')]
        i = ps.index('scope')
        if i < len(args):
            yield 'scope', args[i]
    for k, x in kws:
        if k == 'scope':
            yield k, x


def first_of(t, i, method=None):
    """Whether t is item i (or the result of a method of it) of a loop variable or pair."""
    if method:
        if t.op != 'call' or callee_name(t.args[0]) != method:
            return False
        t = callee_base(t.args[0])
    return t.op in ('item', 'getitem', 'sub', 'unpack') and t.args[-1] in (i, mk('const', i)) or show(t).endswith('[{}]'.format(i))
