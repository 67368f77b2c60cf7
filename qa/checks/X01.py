"""Elements made from source text know where they came from.

Every construction of an element in the transformation modules is found by
value flow over all their functions: constructions through the factory get the
tokens of the head (and of the tail, for types with a closing text), direct
constructions are only made of types without text of their own or take over the
origin of another element.  The two variants of each transformation differ only
in which constructor their factory uses; the constructors are checked as well.
"""
from ..lib import *
from ..handlers import Handlers

TECHNIQUE = 'value flow from source tokens to element constructions in all transformation functions; method resolution order of the variants'
NOTE = 'All construction sites in the four language modules, the element constructors, and conversions of arguments. Which tokens are used is decided by X02.'


def check(c):
    m = c.model
    H = Handlers(m)
    E = H.E
    made = {}
    for f, cls in H.functions():
        def one():
            I, r = H.run(f, cls)
            for x in H.made(r):
                where = x.where.split('(')[-1].rstrip(')')
                made.setdefault((x.event.where, show(x.cls)), []).append((x, I, r, where))
            c.unit('functions')
        c.guard('head', f.qualname, one)
    sites(c, m, H, made)
    direct(c, m, H, made)
    bypass(c, m, H)
    variants(c, m, H)
    constructors(c, m, E)
    arguments(c, m, H)
    reader(c, m, H)
    c.floor('head', 90)
    c.floor('tail', 20)
    c.floor('variant', 8)


def site(m, e):
    """Function name of an event."""
    return e.where.split('(')[-1].rstrip(')').replace('quickly.lang.', '')


def tokens(t, I, r, depth=0):
    """Whether a term is a collection of at least one token; None if not decided.

    Returns False when it is known to be empty."""
    if t is None:
        return False
    if depth > 12:
        return None
    if t.op == 'tuple':
        if not t.args:
            return False
        return True
    if t.op == 'const':
        return False
    if t.op == 'slice':
        lo, hi = t.args[1], t.args[2]
        a = lo.args[0] if is_const(lo) else None
        b = hi.args[0] if is_const(hi) else None
        if is_const(lo) and is_const(hi) and isinstance(b, int) and (a or 0) >= 0 and 0 <= b <= (a or 0):
            return False
        return True
    if t.op == 'ite':
        a, b = tokens(t.args[1], I, r, depth + 1), tokens(t.args[2], I, r, depth + 1)
        return a if a == b else (True if True in (a, b) else None)
    if t.op == 'new':
        return True     # a list made by the function
    if t.op in ('param', 'attr', 'item', 'each', 'mu', 'call', 'next', 'tupleof', 'elem', 'popped'):
        return True
    return None


def needs_head(E, k):
    return k is not None and k.issub(E.headed)


def has_head_text(E, k):
    return k.issub(E.text) or k.lookup('head')[1] != 'assign' or bool(E.head(k))


def sites(c, m, H, made):
    E = H.E
    groups = {}
    for key, lst in sorted(made.items(), key=lambda x: x[0]):
        for x, I, r, where in lst[:1]:
            if x.how != 'factory':
                continue
            fn = site(m, x.event)
            for k, conds in (x.classes() if x.cls is not None else [(None, ())]):
                name = k.name if k else show(x.cls)[:40]
                con = '{}: {}'.format(fn, name)
                if k is not None and not k.issub(E.base):
                    c.ob('head', con, False, 'not an element type', x.where)
                    continue
                t = tokens(x.head, I, r)
                if t is None:
                    c.unknown('head', con, 'origin not understood: {}'.format(show(x.head)[:60]))
                else:
                    c.ob('head', con, t, 'the element gets no tokens as its origin', x.where)
                if k is not None:
                    c.ob('head', con + ': type', k.issub(E.headed), 'a type without text is given tokens', x.where)
                    if k.issub(E.block):
                        groups.setdefault((fn, k), []).append((x, tokens(x.tail, I, r)))
    for (fn, k), lst in sorted(groups.items(), key=lambda x: (x[0][0], x[0][1].qualname)):
        some = any(t for x, t in lst)
        c.ob('tail', '{}: {}'.format(fn, k.name), some or any(t is None for x, t in lst),
             'the element never gets the tokens of its closing text', lst[0][0].where)


def direct(c, m, H, made):
    E = H.E
    for key, lst in sorted(made.items(), key=lambda x: x[0]):
        for x, I, r, where in lst[:1]:
            if x.how != 'new':
                continue
            k = x.classes()[0][0]
            con = '{}: {}'.format(site(m, x.event), k.name)
            ok = not k.issub(E.headed) or follows(I, r, x.event.args[0])
            c.ob('direct', con, ok, 'an element with text of its own is made without origin', x.where)


def follows(I, r, obj):
    """Whether the origin of another element is taken over by obj."""
    obj = I.became.get(obj, obj)
    return any(e.kind == 'call' and callee_name(e.args[0]) == 'copy_origin_from' and callee_base(e.args[0]) is obj
               for e in r.events)


def bypass(c, m, H):
    """Only the factory chooses between keeping and forgetting the origin."""
    for f in m.all_funcs():
        if f.module not in H.modules:
            continue
        own = f.name == 'factory' and f.cls is not None
        bad = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ('with_origin', 'from_origin', '_factory') and isinstance(n.ctx, ast.Load) and not own:
                bad.append(n)
            elif isinstance(n, ast.Attribute) and n.attr in ('head_origin', 'tail_origin') and isinstance(n.ctx, ast.Store):
                bad.append(n)
        c.ob('bypass', f.qualname.replace('quickly.lang.', ''), not bad,
             'the origin is set without asking the factory: {}'.format(ast.unparse(bad[0]) if bad else ''), f.where)


def factory_of(c, m, f, cls, want):
    """The factory hands the tokens and children on to the constructor called want."""
    I = node_interp(m, opaque={'with_origin', 'from_origin'})
    r = I.run(f, cls=cls)
    ps = f.params()
    v = r.value
    if v is None:
        return 'returns nothing'
    for t, conds in leaves(v):
        if t.op != 'call' or callee_name(t.args[0]) not in ('with_origin', 'from_origin'):
            return 'returns something else than a new element'
        if callee_name(t.args[0]) != want:
            return 'uses {}'.format(callee_name(t.args[0]))
        if callee_base(t.args[0]) is not param(ps[1]):
            return 'makes another type'
        a = list(t.args[1])
        kw = dict((x.args[0], x.args[1]) if hasattr(x, 'op') else x for x in (t.args[2] or ()))
        got = [a[i] if i < len(a) else kw.get(('head_origin', 'tail_origin')[i]) for i in range(2)]
        for i in range(2):
            if got[i] is None or param(ps[2 + i]) not in set(subterms(got[i])) or got[i].op == 'slice':
                return 'does not pass on the {} tokens'.format(('head', 'tail')[i])
        star = f.node.args.vararg.arg if f.node.args.vararg else None
        rest = a[2:]
        if not (star and len(rest) == 1 and rest[0].op == 'star' and rest[0].args[0] is param('*' + star)):
            return 'does not pass on the children'
    return None


def variants(c, m, H):
    base = H.base
    names = {}
    for k in H.transforms:
        names.setdefault(k.module, []).append(k)
        adhoc = k.issub(H.adhoc)
        r = k.lookup('factory')
        if not r or r[1] != 'method':
            c.ob('variant', k.name + ': factory', False, 'no factory', k.where)
            continue
        want = 'from_origin' if adhoc else 'with_origin'
        c.guard('variant', k.name + ': factory', lambda: (lambda w: c.ob(
            'variant', k.name + ': factory', w is None, 'the factory {}'.format(w), r[2].where))(factory_of(c, m, r[2], k, want)))
    for mo, ks in sorted(names.items(), key=lambda x: x[0].name):
        plain = [k for k in ks if not k.issub(H.adhoc)]
        for k in plain:
            other = [x for x in ks if x.issub(k) and x.issub(H.adhoc)]
            c.ob('variant', k.name + ': both', len(other) >= 1, 'the transformation has no variant that forgets the origin', k.where)
            for x in other:
                c.ob('variant', '{}: name'.format(x.name), x.name == k.name.replace('Transform', 'AdHocTransform'),
                     'the variant is not found under the name the reader expects', x.where)
                extra = [n for n in list(x.methods) + list(x.assigns) if n not in ('factory', '__doc__') and not n.startswith('__')]
                c.ob('variant', '{}: same'.format(x.name), not extra,
                     'the variant transforms differently: {}'.format(', '.join(extra)), x.where)


def constructors(c, m, E):
    owners = {}
    for k in E.all:
        if not k.issub(E.headed):
            continue
        for n in ('with_origin', 'from_origin'):
            r = k.lookup(n)
            if r and r[1] == 'method':
                owners.setdefault((n, r[2]), []).append(k)
    for (n, f), ks in sorted(owners.items(), key=lambda x: (x[0][0], x[0][1].qualname)):
        k = f.cls if f.cls in ks else ks[0]

        def one():
            con = f.qualname
            I = node_interp(m, opaque={'from_origin', 'read_head', '_factory'} if n == 'with_origin' else {'read_head', '_factory'})
            r = I.run(f, cls=k)
            ps = f.params()
            star = f.node.args.vararg and param('*' + f.node.args.vararg.arg)
            kws = f.node.args.kwarg and param('**' + f.node.args.kwarg.arg)
            node = r.value
            stores = {(e.args[1]): e for e in r.events if e.kind == 'store' and e.args[0] is node}
            if n == 'with_origin':
                ok = node is not None and node.op == 'call' and callee_name(node.args[0]) == 'from_origin' \
                    and list(node.args[1][:2]) == [param(ps[1]), param(ps[2])] and len(node.args[1]) == 3 \
                    and node.args[1][2].op == 'star' and node.args[1][2].args[0] is star and kws in set(subterms(node))
                if not ok and node is not None and node.op == 'call' and callee_name(node.args[0]) == 'with_origin':
                    ok = True       # extends another one
                c.ob('keep', con + ': same', ok, 'not the element that the other variant makes', f.where)
                need = ['head_origin'] + (['tail_origin'] if all(x.issub(E.block) for x in ks) else [])
                sup = node is not None and node.op == 'call' and callee_name(node.args[0]) == 'with_origin'
                for a, p in zip(need, (ps[1], ps[2])):
                    e = stores.get(a)
                    if e is None and sup and a == 'head_origin':
                        continue
                    c.ob('keep', '{}: {}'.format(con, a), e is not None and e.args[2] is param(p) and not real_facts(e.facts),
                         'the tokens are not remembered', f.where)
            else:
                origin = [e for e in r.events if e.kind == 'store' and e.args[1] in ('head_origin', 'tail_origin')]
                c.ob('forget', con, not origin, 'the tokens are remembered', f.where)
                calls = [e for e in r.events if e.kind in ('call', 'new') and (e.kind == 'new' or callee_name(e.args[0]) == '_factory')]
                good = [e for e in calls if e.args[1] and e.args[1][-1].op == 'star' and e.args[1][-1].args[0] is star]
                c.ob('forget', con + ': children', bool(good), 'the children are not passed on', f.where)
                if all(x.issub(E.text) for x in ks):
                    reads = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'read_head']
                    okr = reads and all(e.args[1] and e.args[1][0] is param(ps[1]) for e in reads)
                    c.ob('forget', con + ': head', bool(okr), 'the head value is not read from the tokens', f.where)
        c.guard('keep', f.qualname, one)


def arguments(c, m, H):
    """Nodes converted while arguments are collected keep their origin."""
    E = H.E
    done = set()
    for k in E.all:
        f = k.methods.get('add_argument')
        if f is None or f in done:
            continue
        done.add(f)

        def one():
            I = node_interp(m, opaque={'with_origin', 'from_origin', 'copy_origin_from', 'copy_with_origin'})
            r = I.run(f, cls=k)
            for e in r.events:
                if e.kind == 'new':
                    x = H.newclass(e.args[0])
                    if x is not None and x.issub(E.headed):
                        missing = any(fa.op in ('has', 'ok') and 'origin' in show(fa) and v is False for fa, v in e.facts.items())
                        c.ob('argument', '{}: {}'.format(f.qualname, x.name), missing or follows(I, r, e.args[0]),
                             'the converted node forgets where it came from', e.where)
            c.ob('argument', f.qualname, True, '', f.where)
        c.guard('argument', f.qualname, one)


def reader(c, m, H):
    """The fragment reader uses the variant that forgets, the other the plain one."""
    try:
        mo = m.module('quickly.dom.read')
    except Exception:
        return
    for s in ast.walk(mo.tree):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and t.attr == 'transform_name_template':
                    v = s.value.value if isinstance(s.value, ast.Constant) else None
                    names = [k.name for k in H.transforms if k.issub(H.adhoc)]
                    langs = [n[:-len('AdHocTransform')] for n in names if n.endswith('AdHocTransform')]
                    c.ob('reader', 'template', isinstance(v, str) and all(v.format(x) in names for x in langs),
                         'the name template does not lead to the variants', 'quickly/dom/read.py:{}'.format(s.lineno))
                    if isinstance(t.value, ast.Subscript) and isinstance(t.value.slice, ast.Constant):
                        c.ob('reader', 'choice', not t.value.slice.value, 'the variants are exchanged',
                             'quickly/dom/read.py:{}'.format(s.lineno))
    for f in mo.funcs.values() if hasattr(mo, 'funcs') else ():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'transform_text' and isinstance(n.func.value, ast.Subscript):
                s = n.func.value.slice
                c.ob('reader', f.qualname, isinstance(s, ast.Name) and s.id in f.params(), 'the choice of the caller is not used', f.where)
