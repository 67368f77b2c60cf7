"""Value flow of every node that enters a child list into a parent link.

For every list-adding operation of the node classes (and every other place that
uses the raw list primitives on a node) the guarded value flow of the method is
computed; each primitive that adds nodes must be matched by a store of a weak
reference to the very container in the parent link of exactly those nodes,
whenever the primitive runs, and a possibly one-shot iterable may be consumed
only once.  The primitive must receive the requested place and node.
"""
from ..lib import *

TECHNIQUE = 'guarded value flow (gated SSA) from every list primitive on a node to the parent store that must match it'
NOTE = ('Every list-adding operation of every node class, with helpers inlined; each added node must be linked to the '
        'very container under the same conditions, one-shot iterables may be consumed once only.')

ADDERS = ('append', 'extend', 'insert')


def added(e):
    """[(kind, term)] added by a primitive event; kind 'one' or 'each'."""
    if e.kind == 'mutate':
        obj, name, args = e.args
        if name == 'append' and args:
            return [('one', args[0])]
        if name == 'insert' and len(args) > 1:
            return [('one', args[1])]
        if name == 'extend' and args:
            return [('each', args[0])]
        return []
    if e.kind == 'setitem':
        obj, k, v = e.args
        sl = isinst(k, 'slice')
        q = True if k.op == 'sl' else e.known(sl)
        v1 = under(v, e.facts)
        if q is True:
            return [('each', v1)]
        if q is False:
            return [('one', v1)]
        st = State(); st.facts = dict(e.facts); st.know(sl, True)
        st2 = State(); st2.facts = dict(e.facts); st2.know(sl, False)
        if k.op == 'param':
            return [('each', under(v, st), (sl, True)), ('one', under(v, st2), (sl, False))]
        return [('one', v1)]
    return []


def one_shot(t):
    return t.op in ('param', 'gen', 'lazy', 'chain', 'iter', 'reversed', 'attr', 'item', 'elem') \
        and not (t.op == 'param' and t.args[0].startswith('*'))


def a_list(t, facts):
    """Is t known to be an instance of a list type?"""
    return any(v and f.op == 'isinstance' and f.args[0] is t
               and all(isinstance(k, Class) and 'list' in k.mro() or k in ('list', 'tuple') for k in f.args[1])
               for f, v in facts.items())


def check_entry(c, f, cls, facts=()):
    m = c.model
    I = node_interp(m, inline=lambda g: g.module.own)
    r = I.run(f, cls=cls, facts=facts)
    c.unit('functions')
    con = f.qualname
    if r.state is None:
        c.ob('parent', con, False, 'the operation never returns', f.where)
        return r, I
    link = link_name(m)
    prim = [e for e in r.events if (e.kind == 'mutate' and e.args[1] in ADDERS) or e.kind == 'setitem']
    stores = [e for e in r.events if e.kind == 'store' and e.args[1] == link]
    consumed = {}
    for e in r.events:
        if e.kind == 'consume' and one_shot(e.args[0]) and not a_list(e.args[0], e.facts):
            consumed.setdefault(e.args[0], []).append(e)
    for e in prim:
        if e.kind == 'setitem':
            for x in added(e):
                if x[0] == 'each' and one_shot(x[1]):
                    consumed.setdefault(x[1], []).append(e)
    for t, es in consumed.items():
        # consumptions under contradictory conditions are alternatives
        for i, a in enumerate(es):
            for b in es[i + 1:]:
                if not contradict(a.facts, b.facts):
                    c.ob('one-shot', con, False,
                         'the given iterable {} is consumed twice; an iterator is exhausted the second time'
                         .format(show(t)), b.where)
    for e in prim:
        box = e.args[0]
        ty = I.typeof(box)
        if not (isinstance(ty, Class) and 'list' in ty.mro()) and box.op == 'new':
            continue
        if box.op == 'new' and not isinstance(ty, Class):
            continue
        for x in added(e):
            st = State()
            st.facts = dict(e.facts)
            if len(x) > 2:
                st.know(*x[2])
            kind, t = x[0], x[1]
            label = e.args[1] if e.kind == 'mutate' else 'setitem'
            segs = [('one', t, ())] if kind == 'one' else contents(t, r.state.heap, 0, st.facts)
            for k, y, lits in segs:
                s2 = st.fork()
                for cnd, pol in lits:
                    s2.know(cnd, pol)
                if k == 'some':
                    cands = [y]
                    if y.op == 'ite':
                        y = under(y, s2)
                    cands = []
                    for s in stores:
                        tt = s.args[0]
                        if tt.op == 'elem' and covers(tt.args[0], y, box, e, r, t):
                            cands.append(tt)
                        elif tt.op == 'item' and tt.args[0] is box and walks(I, tt, s, box, e):
                            cands.append(tt)
                    good = any(linked(I, r, z, box, s2, link) for z in cands)
                else:
                    good = linked(I, r, y, box, s2, link) or kind == 'each' and any(
                        s.args[0].op == 'elem' and covers(s.args[0].args[0], t, box, e, r, t)
                        and linked(I, r, s.args[0], box, s2, link) for s in stores)
                c.ob('parent', '{}: {}'.format(con, label), good,
                     '{} of {} is added to {} without its parent being set to that node'.format(
                         'each node' if k != 'one' else 'node', show(y), show(box)), e.where)
    return r, I


def contradict(f, g):
    for t, v in f.items():
        if t in g and g[t] is not v:
            return True
    s = State(); s.facts = f
    return any(s.query(t) is not None and s.query(t) is not v for t, v in g.items())


def covers(y, x, box, e, r, whole=None):
    """Do the elements of y include all elements of x just added to box?"""
    if y is x or y is whole or y is box:
        return True
    if any(k == 'some' and z is x and not lits for k, z, lits in contents(y, r.state.heap)):
        return True
    if y.op == 'slice' and y.args[0] is box and y.args[2] is NONE and y.args[3] in (NONE, const(1)):
        lo = y.args[1]
        if lo is NONE or lo is ZERO:
            return True
        if before(lo, box, e):
            return True
        return lo.op == 'neg' and lo.args[0].op == 'len' and lo.args[0].args[0] in (x, whole)
    return False


def before(lo, box, e):
    """lo is the length of box before the adding event e."""
    return lo.op == 'len' and lo.args[0] is box and lo.args[1] == e.ver


def walks(I, t, store, box, e):
    """t is box[i] for an index running from the old length up to the new one."""
    i = t.args[1]
    if i.op == 'elem' and i.args[0].op == 'call' and i.args[0].args[0] is mk('builtin', 'range'):
        a = i.args[0].args[1]
        return len(a) == 2 and before(a[0], box, e) and a[1].op == 'len' and a[1].args[0] is box and a[1].args[1] != e.ver
    if i.op != 'mu' or i not in I.mu:
        return False
    init, nxt = I.mu[i]
    return (before(init, box, e) or init is ZERO) and nxt in (mk('bin', '+', i, const(1)), mk('bin', '+', const(1), i)) \
        and any(f.op == 'cmp' and f.args[0] == '<' and v and f.args[1] is i and f.args[2].op == 'len'
                and f.args[2].args[0] is box for f, v in store.facts.items())


def linked(I, r, t, box, st, link):
    v = r.state.heap.get((t, link))
    if v is None:
        return False
    v = under(v, st)
    for x, lits in leaves(v):
        x = mu_next(I, x)
        if not (x.op == 'weakref' and x.args[0] is box):
            return False
    return True


def check(c):
    m = c.model
    node = m.cls('node.Node')
    link = link_name(m)
    # 1. all list operations that add are intercepted
    for op in ('__init__', 'append', 'extend', 'insert', '__setitem__', '__iadd__'):
        hit = node.lookup(op)
        c.ob('intercepted', op, hit is not None and hit[1] in ('method', 'assign') and isinstance(hit[0], Class),
             'the inherited list.{} adds nodes without setting their parent'.format(op), node.where)
    # 2. every implementation links what it adds
    seen = set()
    classes = [node] + m.subclasses(node)
    for cls in classes:
        for op in ('append', 'extend', 'insert', '__setitem__', '__iadd__', 'replace_with', '__init__',
                   'add_argument', 'add'):
            f = cls.methods.get(op)
            if f is None or f in seen:
                continue
            seen.add(f)

            def go():
                r, I = check_entry(c, f, cls)
                place(c, f, cls, op, r, I)
            c.guard('parent', f.qualname, go)
    # 3. raw list primitives elsewhere
    for f in m.all_funcs():
        if f in seen:
            continue
        raw = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
               and n.func.attr in ADDERS + ('__setitem__', '__iadd__') and isinstance(n.func.value, ast.Name)
               and n.func.value.id == 'list']
        if raw:
            # a helper: judged where it is inlined if it is called by an operation above
            if f.cls is node or f.cls is None:
                callers = [g for g in seen if any(isinstance(n, (ast.Attribute, ast.Name)) and
                           (getattr(n, 'attr', None) == f.name or getattr(n, 'id', None) == f.name)
                           for n in ast.walk(g.node))]
                if callers and f.name.startswith('_'):
                    continue
            c.guard('parent', f.qualname, lambda: check_entry(c, f, f.cls))
    # 4. parent setter agrees with the reader
    s = node.lookup_setter('parent')
    if s is not None:
        def go():
            I = Interp(m)
            r = I.run(s, cls=node)
            p = I_param(s, 1)
            v = r.state.heap.get((I_param(s, 0), link))
            st = State(); st.know(mk('cmp', 'is', p, NONE), False); st.know(truth(p), True)
            x = under(v, st) if v is not None else None
            c.ob('setter', 'Node.parent', x is not None and x.op == 'weakref' and x.args[0] is p,
                 'assigning a parent does not store a reference to that node', s.where)
            st = State(); st.know(mk('cmp', 'is', p, NONE), True)
            x = under(v, st) if v is not None else None
            c.ob('setter', 'Node.parent None', x is None or not mentions(x, mk('weakref', p)),
                 'assigning None does not clear the parent', s.where)
        c.guard('setter', s.qualname, go)
    c.floor('parent', 7)
    c.floor('intercepted', 6)
    c.floor('place', 6)


def I_param(f, i):
    return param(f.params()[i])


def prims(r, box):
    return [e for e in r.events if ((e.kind == 'mutate' and e.args[1] in ADDERS) or e.kind == 'setitem')
            and e.args[0] is box]


def place(c, f, cls, op, r, I):
    """The operation adds the given nodes, unconditionally and where requested."""
    if r.state is None:
        return
    names = f.params()
    self_t = param(names[0])
    ps = prims(r, self_t)
    con = f.qualname
    uncond = lambda e: not {k: v for k, v in real_facts(e.facts).items()}
    if op == 'append':
        n = param(names[1])
        ok = len(ps) == 1 and uncond(ps[0]) and (
            ps[0].kind == 'mutate' and (ps[0].args[1] == 'append' and ps[0].args[2] == (n,)
            or ps[0].args[1] == 'insert' and ps[0].args[2][1] is n and ps[0].args[2][0].op == 'len'
            or ps[0].args[1] == 'extend' and ps[0].args[2][0] is mk('tuple', n)))
        if len(ps) == 1 and ps[0].kind == 'setitem':
            ok = mentions(ps[0].args[2], n)
        c.ob('place', con, ok, 'append does not add exactly the given node at the end', f.where)
    elif op in ('extend', '__iadd__'):
        n = param(names[1])
        ok = bool(ps) and all(any(is_all(x[1], n, r, e) or x[1] is mk('elem', n, '') for x in added(e)) for e in ps) and any(set(real_facts(e.facts)) <= {truth(n)} for e in ps)
        c.ob('place', con, ok, '{} does not add all the given nodes'.format(op), f.where)
        if op == '__iadd__':
            c.ob('place', con + ' result', r.value is self_t, 'augmented assignment must give the node itself', f.where)
    elif op == 'insert':
        i, n = param(names[1]), param(names[2])
        ok = len(ps) == 1 and uncond(ps[0]) and (
            (ps[0].kind == 'mutate' and ps[0].args[1] == 'insert' and ps[0].args[2] == (i, n))
            or (ps[0].kind == 'setitem' and ps[0].args[1].op == 'sl' and ps[0].args[1].args[0] is i
                and ps[0].args[1].args[1] is i))
        c.ob('place', con, ok, 'insert does not put the given node at the given index', f.where)
    elif op == '__setitem__':
        k, n = param(names[1]), param(names[2])
        ok = bool(ps) and all(e.kind == 'setitem' and e.args[1] is k for e in ps) \
            and all(all((is_all(x[1], n, r, e) if x[0] == 'each' else x[1] is n) for x in added(e)) for e in ps)
        c.ob('place', con, ok, 'item assignment does not replace the given index by the given nodes', f.where)
    elif op == 'replace_with':
        n = param(names[1])
        es = [e for e in r.events if e.kind == 'setitem' and under(e.args[2], e.facts) is n]
        good = [e for e in es if index_of(e.args[1], e.args[0], self_t)]
        c.ob('place', con, bool(good) and all(uncond(e) for e in good),
             'replace_with does not put the node at the place of the replaced one', f.where)
    elif op == '__init__':
        a = f.node.args
        if a.vararg:
            ch = param('*' + a.vararg.arg)
            es = [e for e in ps if any(is_all(x[1], ch, r, e) for x in added(e))]
            ok = bool(es)
            for e in es:
                extra = [k for k in real_facts(e.facts) if not mentions(k, ch)]
                if extra:
                    ok = False
            c.ob('place', con, ok, 'the constructor does not add all the given children', f.where)


def is_all(t, src, r, e=None):
    return contents(t, r.state.heap, 0, e.facts if e is not None else None) == [('some', src, ())]


def arg(e):
    if e.kind == 'mutate':
        return mk('tuple', *e.args[2])
    return e.args[2]


def index_of(t, box, node):
    """t is box.index(node), possibly in an equivalent spelling."""
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'index' and t.args[1] and t.args[1][0] is node:
        return True
    if t.op == 'sl':
        return index_of(t.args[0], box, node)
    return mentions(t, node) and t.op in ('call', 'index', 'item', 'mu', 'ite')
