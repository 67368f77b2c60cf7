"""Skip protocol, order and direction of tree walks.

For every generator of the tree classes that hands out nodes, the value sent
back by the consumer must decide, alone with the emptiness of the node, whether
the walk goes below the node just yielded; the walk below must go over exactly
that node and in the direction of the walk, and the search operators must be
built on the walk they name.
"""
from ..lib import *

TECHNIQUE = 'generator protocol analysis (sent value to descent dependence) over guarded value flow'
NOTE = ('Descendant, forward and backward walks of nodes and ranges, the sibling walks, level iteration, the filtering '
        'search and the operators; the loop exit of range walks is checked by its exit condition only.')

WALKS = ('descendants', 'forward', 'backward', 'nodes')


def direction(t, facts, I, depth=0):
    """Set of directions ('f', 'b', '?') in which t is iterated."""
    t = under(t, facts)
    if depth > 6:
        return {'?'}
    if t.op == 'ite':
        return direction(t.args[1], facts, I, depth + 1) | direction(t.args[2], facts, I, depth + 1)
    if t.op == 'reversed':
        return {{'f': 'b', 'b': 'f'}.get(x, x) for x in direction(t.args[0], facts, I, depth + 1)}
    if t.op in ('iter', 'slice', 'tupleof'):
        return direction(t.args[0], facts, I, depth + 1)
    if t.op == 'from':
        return direction(t.args[0], facts, I, depth + 1)
    if t.op == 'mu':
        out = set()
        if t in I.mu:
            for v in I.mu[t]:
                for x, _ in leaves(v) if v is not None else ():
                    if x is not t and x.op not in ('popped', 'unbound'):
                        out |= direction(x, facts, I, depth + 1)
        return out or {'?'}
    if t.op == 'gen':
        f = t.args[0]
        return {'b'} if f.name in ('left_siblings', 'backward', 'reversed') else \
            walkdir(f, I.genenv.get(t.args[1], {}), facts)
    if t.op == 'call':
        nm = callee_name(t.args[0])
        if nm == 'reversed' or nm == 'left_siblings' or nm == 'backward':
            return {'b'}
        if nm in ('descendants', 'children'):
            rev = t.args[1][0] if t.args[1] else dict(t.args[2]).get('reverse', FALSE)
            return revdir(rev, facts)
        return {'f'}
    return {'f'}


def revdir(rev, facts):
    st = State()
    st.facts = dict(facts.facts if isinstance(facts, State) else facts)
    q = st.query(truth(rev))
    return {'?'} if q is None else {'b' if q else 'f'}


def walkdir(f, env, facts):
    if f.name in ('descendants', 'children'):
        return revdir(env.get('reverse', FALSE), facts)
    return {'f'}


def is_walk(e):
    return e.kind == 'call' and callee_name(e.args[0]) in WALKS + ('enter', 'children', 'filter_descendants')


def check(c):
    m = c.model
    common, node, rng = m.cls('node.Common'), m.cls('node.Node'), m.cls('node.Range')
    for cls in (node, rng):
        for name in WALKS:
            k = cls.lookup(name)
            if cls is node and name == 'nodes':
                continue
            if not k or k[1] != 'method':
                raise AnalysisBroken('walk {} not found'.format(name))
            f = k[2]
            pols = (True, False) if 'reverse' in f.params() else (None,)
            for pol in pols:
                c.guard('skip', '{}.{}'.format(cls.name, name), lambda: walk(c, m, cls, f, name, pol))
    siblings(c, m, node)
    level(c, m, rng)
    search(c, m, common, node, rng)
    c.floor('skip', 9)
    c.floor('direction', 9)
    c.floor('operators', 9)


def walk(c, m, cls, f, name, pol):
    label = '{}.{}{}'.format(cls.name, name, '' if pol is None else ' reverse' if pol else ' not reverse')
    base = [(truth(param('reverse')), pol)] if pol is not None else []
    I = node_interp(m, max_depth=4)
    r = I.run(f, cls=cls, facts=base)
    c.unit('walks')
    want = {'b'} if name == 'backward' or pol else {'f'}
    fs = State()
    fs.facts = dict(base)
    ys = [e for e in r.events if e.kind == 'yield' and isinstance(e.args[0], T) and e.args[0].op != 'from'
          and (e.func is f or not e.func.is_generator)]
    # yields of inlined own helper generators count as well, unless they belong to another walk
    ys += [e for e in r.events if e.kind == 'yield' and e.func is not f and e.func.is_generator
           and e.func.name not in WALKS and e.args[0].op != 'from' and not siblings_of(e)]
    # a walk that leaves it all to a walk in one fixed direction, which is looked at itself
    other = {e.func.name for e in r.events if e.kind == 'yield' and e.func is not f and e.func.name in ('forward', 'backward')} - {name}
    if not ys and other:
        c.ob('skip', label + ' yields')
        c.ob('direction', label + ' level', other == ({'forward'} if want == {'f'} else {'backward'}),
             'nodes are taken in the wrong direction', f.where)
        return
    c.ob('skip', label + ' yields', bool(ys), 'the walk yields nothing', f.where)
    for y in ys:
        X = y.args[0]
        sents = {x for e in r.events for fct in e.facts for x in subterms(fct) if x.op == 'sent' and x.args[0] is X}
        D = descents(I, r, f, y, X, cls)
        if name == 'nodes' and not D:
            pass
        c.ob('skip', label + ' goes below', bool(D), 'the walk never goes below a node', y.where)
        for d, t in D:
            st = State()
            st.facts = dict(d.facts)
            no = any(st.query(mk('cmp', op, s, FALSE)) is False for s in sents for op in ('is', '=='))
            c.ob('skip', '{}: {}'.format(label, d.kind), no,
                 'the walk goes below a node although False was sent back', d.where)
            if not no:
                continue
            # nothing else than the emptiness of the node may prevent it
            allowed = {truth(X)} | {x for fct in d.facts for x in subterms(fct) if x.op == 'len' and x.args[0] is X}
            for fct, v in real_facts(d.facts, y.facts).items():
                if fct.op in ('and', 'or', 'ite', 'not'):
                    continue
                ok = any(mentions(fct, s) for s in sents) and st.query(fct) is not None and harmless(fct, v, sents) \
                    or any(mentions(fct, a) for a in allowed) and nonempty(fct, v, X) or fct in y.facts \
                    or stateful(fct) and not mentions(fct, X)
                c.ob('skip', '{} condition'.format(label), ok,
                     'whether the walk goes below a node also depends on {}'.format(show(fct)), d.where)
            # direction below
            for x in t:
                got = direction(x, fs, I)
                if '?' in got:
                    c.unknown('direction', label, 'direction of ' + show(x))
                else:
                    c.ob('direction', '{} below'.format(label), got == want,
                         'the nodes below are taken in the wrong direction', d.where)
    # the direction on the own level
    for e in r.events:
        if e.kind == 'consume' and e.func is f and any(
                y.args[0].op == 'elem' and y.args[0].args[0] is e.args[0] for y in ys):
            got = direction(e.args[0], fs, I)
            if '?' in got:
                c.unknown('direction', label, 'direction of ' + show(e.args[0]))
            else:
                c.ob('direction', label + ' level', got == want, 'nodes are taken in the wrong direction', e.where)
    # what is walked
    if name == 'descendants' and cls.name == 'Node':
        roots = [x for y in ys for x in sources(I, y.args[0])]
        c.ob('source', label, any(x is param('self') for x in roots), 'does not walk the children of the node itself', f.where)
    if name in ('forward', 'backward') and cls.name == 'Node':
        climb(c, I, r, f, ys, label)
    if cls.name == 'Range' and name in ('forward', 'backward', 'descendants'):
        enters = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'leave']
        c.ob('source', label + ' leaves', bool(enters), 'the walk never returns to an outer level', f.where)
    if cls.name == 'Range' and name == 'nodes':
        fw = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'forward' and e.func is f]
        dn = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'descendants' and e.func is f]
        gt = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) in ('_goto_trail', 'goto', 'reset') and e.func is f]
        c.ob('source', label + ' continues', bool(fw) and all(nonempty_range(real_facts(e.facts)) for e in fw),
             'does not continue behind the start node in all cases', f.where)
        c.ob('source', label + ' starts', bool(gt) and gt[0].seq < min([e.seq for e in ys + fw] or [0]),
             'does not start from the start of the range', f.where)


def nonempty_range(facts):
    """The facts say no more than that the end is not before the start."""
    S = param('self')
    start, end = mk('attr', S, 'start_trail'), mk('attr', S, 'end_trail')
    free = [(x, v) for x, v in ((mk('cmp', '<', end, start), False), (mk('cmp', '>', start, end), False),
                                (mk('cmp', '<=', start, end), True), (mk('cmp', '>=', end, start), True))]
    return all(not consistent([(k, not v)], free) for k, v in facts.items())


def siblings_of(e):
    return e.func.name in ('left_siblings', 'right_siblings', 'reversed', '__next__', 'children')


def stateful(fct):
    """A condition on the iteration state itself (position on the stack)."""
    return any(x.op == 'attr' and x.args[1] in ('index', '_stack') or x.op == 'mu' for x in subterms(fct)) \
        and not any(x.op in ('sent',) for x in subterms(fct))


def harmless(fct, v, sents):
    return fct.op == 'cmp' and fct.args[0] in ('is', '==') and FALSE in fct.args[1:] and v is False


def nonempty(fct, v, X):
    if fct.op == 'truth' and fct.args[0] is X:
        return v is True
    if fct.op == 'cmp':
        op, a, b = fct.args
        if op == '<' and a is ZERO and b.op == 'len':
            return v is True
        if op == '==' and ZERO in (a, b):
            return v is False
        if op == '<' and a.op == 'len' and b is const(1):
            return v is False
    return False


def sources(I, X, depth=0):
    """The iterables an element comes from."""
    out = []
    while X.op in ('elem', 'iter', 'reversed', 'from', 'slice') and depth < 9:
        X = X.args[0]
        depth += 1
    if X.op == 'mu' and X in I.mu and depth < 9:
        for v in I.mu[X]:
            if v is None:
                continue
            for x, _ in leaves(v):
                if x is not X and x.op != 'popped':
                    out += sources(I, x, depth + 1)
        return out
    return [X]


def descents(I, r, f, y, X, cls):
    """[(event, [iterables])] where the walk goes below X."""
    out = []
    pushed = False
    for e in r.events:
        if e.seq < y.seq:
            continue
        if e.kind == 'yield_from' and e.args[0].op in ('call', 'gen') and base_of(I, e.args[0]) is X:
            out.append((e, [e.args[0]]))
        elif e.kind == 'call' and e.args[0].op in ('bound', 'attr') and callee_base(e.args[0]) is param('self') \
                and X is not param('self'):
            nm = callee_name(e.args[0])
            if nm == 'enter' and e.func is f:
                out.append((e, []))
            elif nm == 'descendants' and e.func is f:
                out.append((e, []))
        elif e.kind == 'mutate' and e.args[1] in ('append', 'push', 'appendleft', 'insert') and X.op == 'elem' \
                and e.args[2] and e.args[2][-1] is not X:
            g = X.args[0]
            if e.args[2][-1] is g and g in I.mu:
                nxt = [x for v in I.mu[g] if v is not None for x, _ in leaves(v)
                       if x is not g and mentions(x, X)]
                if nxt:
                    out.append((e, nxt))
    return out


def base_of(I, t):
    if t.op == 'call':
        return callee_base(t.args[0])
    env = I.genenv.get(t.args[1])
    return env.get('self') if isinstance(env, dict) else None


def climb(c, I, r, f, ys, label):
    """Node.forward and backward: siblings of the node, then of each ancestor, up to `upto`."""
    for y in ys:
        X = y.args[0]
        src = X.args[0] if X.op == 'elem' else None
        n = callee_base(src.args[0]) if src is not None and src.op == 'call' else base_of(I, src) \
            if src is not None and src.op == 'gen' else None
        if n is None or n not in I.mu:
            c.unknown('climb', label, 'siblings of ' + show(X))
            continue
        init, nxt = I.mu[n][:2]
        c.ob('climb', label + ' starts', init is param('self'), 'does not start at the node itself', y.where)
        want = 'right_siblings' if f.name == 'forward' else 'left_siblings'
        nm = callee_name(src.args[0]) if src.op == 'call' else src.args[0].name
        c.ob('climb', label + ' siblings', nm == want, 'walks over {} instead of {}'.format(nm, want), y.where)
        up = [x for x, _ in leaves(nxt)]
        ok = all(parent_of(x, n) for x in up)
        c.ob('climb', label + ' parent', ok, 'does not continue with the siblings of the parent', y.where)
        st = State()
        st.facts = dict(y.facts)
        st.know(truth(nxt), True)
        c.ob('climb', label + ' upto', st.query(mk('cmp', 'is', *sorted_is(n, param('upto')))) is False
             or any(v is False and fct.op == 'cmp' and fct.args[0] in ('is', '==') and set(fct.args[1:]) == {n, param('upto')}
                    for fct, v in expand(y.facts).items()),
             'the walk goes outside the given ancestor', y.where)


def sorted_is(a, b):
    x = mk('cmp', 'is', a, b)
    return x.args[1:]


def expand(facts):
    """Facts with the parts of true conjunctions (also gates) spelled out."""
    out = dict(facts)
    todo = list(facts.items())
    while todo:
        t, v = todo.pop()
        if t.op == 'not':
            new = [(t.args[0], not v)]
        elif t.op == 'and' and v:
            new = [(t.args[0], True), (t.args[1], True)]
        elif t.op == 'or' and not v:
            new = [(t.args[0], False), (t.args[1], False)]
        elif t.op == 'ite' and v and (t.args[2] is t.args[0] or t.args[2] is FALSE):
            new = [(t.args[0], True), (t.args[1], True)]
        else:
            continue
        for a, b in new:
            if a not in out:
                out[a] = b
                todo.append((a, b))
    return out


def parent_of(x, n):
    if x.op == 'attr' and x.args[1] == 'parent' and x.args[0] is n:
        return True
    return x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0] is n and not x.args[1]


def siblings(c, m, node):
    def idx(t, p):
        return t.op == 'call' and callee_name(t.args[0]) == 'index' and callee_base(t.args[0]) is p

    for name, off in (('right_sibling', 1), ('left_sibling', -1)):
        f = node.lookup(name)[2]

        def go():
            r = node_interp(m).run(f, cls=node)
            c.unit('functions')
            for v, lits in leaves(r.value):
                if v is NONE:
                    continue
                p = v.args[0] if v.op == 'item' else None
                i = v.args[1] if v.op == 'item' else None
                ok = i is not None and i.op == 'bin' and mentions_index(i) and shift(i) == off
                c.ob('siblings', name, ok, 'is not the node right next to it', f.where)
                st = State()
                for a, b in lits:
                    st.know(a, b)
                facts = expand(st.facts)
                edge = ZERO if off < 0 else const(-1)
                guard = any(fct.op == 'cmp' and v2 is False and fct.args[0] in ('is', '==') and param('self') in fct.args[1:]
                            and any(x.op == 'item' and x.args[1] is edge for x in fct.args[1:])
                            for fct, v2 in facts.items()) or any(
                                mentions_index(x) for fct in facts for x in subterms(fct))
                c.ob('siblings', name + ' edge', guard, 'the {} node is not treated separately'.format(
                    'first' if off < 0 else 'last'), f.where)
        c.guard('siblings', name, go)
    for name in ('right_siblings', 'left_siblings'):
        f = node.lookup(name)[2]

        def go2():
            I = node_interp(m)
            r = I.run(f, cls=node)
            for e in r.events:
                if e.kind != 'yield':
                    continue
                src = e.args[0]
                while src.op in ('from', 'elem') and src.op != 'slice':
                    src = src.args[0]
                cs = [x for x in r.events if x.kind == 'consume' and mentions(x.args[0], src) and x.seq <= e.seq + 1]
                if cs and e.args[0].op == 'elem':
                    src = cs[-1].args[0]
                d = direction(src, State(), I)
                sl = src
                while sl.op in ('reversed', 'iter', 'tupleof'):
                    sl = sl.args[0]
                if sl.op != 'slice':
                    c.unknown('siblings', name, 'source ' + show(src))
                    continue
                lo, hi, stp = sl.args[1:4]
                if stp is const(-1):
                    d = {'b' if x == 'f' else 'f' for x in d}
                    c.unknown('siblings', name, 'step')
                    continue
                if name[0] == 'r':
                    ok = hi is NONE and lo.op == 'bin' and mentions_index(lo) and shift(lo) == 1
                else:
                    ok = lo in (NONE, ZERO) and mentions_index(hi) and shift(hi) == 0
                c.ob('siblings', name, ok, 'does not yield exactly the siblings on that side', e.where)
                c.ob('siblings', name + ' direction', d == ({'f'} if name[0] == 'r' else {'b'}),
                     'yields the siblings in the wrong direction', e.where)
        c.guard('siblings', name, go2)


def mentions_index(t):
    return any(x.op == 'call' and callee_name(x.args[0]) == 'index' for x in subterms(t))


def shift(t):
    """n for index + n."""
    if t.op == 'call':
        return 0
    if t.op == 'bin' and t.args[0] in '+-':
        a, b = t.args[1:]
        if b.op == 'const':
            return b.args[0] if t.args[0] == '+' else -b.args[0]
        if a.op == 'const' and t.args[0] == '+':
            return a.args[0]
    return None


def level(c, m, rng):
    L = None
    r0 = Interp(m).run(rng.lookup('__init__')[2], cls=rng)
    for e in r0.events:
        if e.kind == 'new' and e.args[0].args[0].op == 'cls':
            L = e.args[0].args[0].args[0]
    if L is None or not L.lookup('__next__'):
        c.unknown('level', 'level iteration', 'level class not found')
        return
    me = param('self')
    A = lambda n: mk('attr', me, n)
    f = L.lookup('__next__')[2]

    def nxt():
        r = Interp(m).run(f, cls=L)
        c.unit('functions')
        for pol in (True, False):
            st = State()
            st.know(mk('cmp', '==', A('index'), const(-1)), pol)
            st.know(mk('cmp', '<', A('index'), ZERO), pol)
            st.know(mk('cmp', '<', const(-1), A('index')), not pol)
            v = under(r.value, st)
            i = under(v.args[1], st) if v.op == 'item' else v
            want = i is A('start') if pol else shift(i) == 1 and mentions(i, A('index'))
            c.ob('level', '__next__ ' + ('first' if pol else 'following'), v.op == 'item' and v.args[0] is A('node') and want,
                 'does not give the {} node of the level'.format('first' if pol else 'next'), f.where)
            s = r.state.heap.get((me, 'index'))
            c.ob('level', '__next__ position', s is not None and under(s, st) is i, 'does not remember the position', f.where)
        st = State()
        st.facts = dict(r.state.facts)
        ok = any(fct.op == 'cmp' and A('end') in subterms(fct) for e in r.events if e.kind == 'store' for fct in e.facts)
        c.ob('level', '__next__ end', ok and any(x[1].args[0] == 'StopIteration' for x in r.raises),
             'does not stop at the end of the range', f.where)
        for e in r.events:
            if e.kind == 'store' and e.args[1] == 'index':
                bound(c, '__next__', e, e.args[2], A('end'), 'up')
    c.guard('level', '__next__', nxt)
    k = L.lookup('reversed')
    if not k:
        return
    g = k[2]

    def rev():
        I = Interp(m)
        r = I.run(g, cls=L)
        for e in r.events:
            if e.kind == 'yield':
                v = e.args[0]
                i = v.args[1] if v.op == 'item' else None
                ok = i is not None and v.args[0] is A('node')
                c.ob('level', 'reversed node', ok, 'does not yield nodes of the level', e.where)
                if not ok:
                    continue
                if i.op == 'mu' and i in I.mu:
                    init, nx = I.mu[i][:2]
                    for pol in (True, False):
                        st = State()
                        st.know(mk('cmp', '==', A('index'), const(-1)), pol)
                        x = under(init, st)
                        c.ob('level', 'reversed ' + ('first' if pol else 'following'),
                             x is A('end') if pol else shift(x) == -1 and mentions(x, A('index')),
                             'does not start at the {}'.format('end' if pol else 'previous node'), e.where)
                    c.ob('level', 'reversed step', all(shift(x) == -1 for x, _ in leaves(nx)), 'does not step backward', e.where)
                    bound(c, 'reversed', e, i, A('start'), 'down')
                    s = [x for x in r.events if x.kind == 'store' and x.args[1] == 'index' and x.seq < e.seq]
                    c.ob('level', 'reversed position', bool(s) and s[-1].args[2] is i, 'does not remember the position', e.where)
                else:
                    c.unknown('level', 'reversed', 'index ' + show(i))
    c.guard('level', 'reversed', rev)


def bound(c, label, e, i, lim, d):
    """The index i used at e is within lim."""
    st = State()
    st.facts = dict(e.facts)
    a = (lim, i) if d == 'up' else (i, lim)
    q = st.query(mk('cmp', '<', *a))
    strict = st.query(mk('cmp', '<', a[1], a[0]))
    c.ob('level', label + ' limit', q is False and strict is not True, 'the last node of the range is left out or exceeded', e.where)


def search(c, m, common, node, rng):
    f = common.lookup('filter_descendants')[2]

    def filt():
        I = Interp(m)
        r = I.run(f, cls=common)
        c.unit('functions')
        names = f.params()
        pred, gen = param(names[0]), param(names[1])
        ys = [e for e in r.events if e.kind == 'yield']
        c.ob('filter', 'filter_descendants yields', bool(ys), 'yields nothing', f.where)
        for e in ys:
            X = e.args[0]
            tr = [fct for fct, v in e.facts.items() if v and fct.op == 'truth' and fct.args[0].op == 'call'
                  and fct.args[0].args[0] is pred]
            c.ob('filter', 'filter_descendants predicate', any(t.args[0].args[1] == (X,) for t in tr),
                 'yields nodes for which the predicate was not true', e.where)
        sends = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'send' and callee_base(e.args[0]) is gen]
        c.ob('filter', 'filter_descendants skip', bool(sends) and all(e.args[1] == (FALSE,) for e in sends),
             'does not skip what is below a matching node', f.where)
        for e in sends:
            tr = [fct for fct, v in e.facts.items() if fct.op == 'truth' and fct.args[0].op == 'call' and fct.args[0].args[0] is pred]
            c.ob('filter', 'filter_descendants only matches', any(e.facts[t] for t in tr),
                 'skips what is below a node that does not match', e.where)
            c.ob('filter', 'filter_descendants order', any(y.seq < e.seq for y in ys), 'skips before yielding', e.where)
    c.guard('filter', 'filter_descendants', filt)

    ops = dict(__floordiv__='descendants', __gt__='forward', __lt__='backward', __lshift__='ancestors',
               __truediv__='children', __xor__='children')
    for cls in (node, rng):
        for op, walkname in ops.items():
            k = cls.lookup(op)
            if not k or k[1] != 'method':
                raise AnalysisBroken('operator {} missing'.format(op))
            g = k[2]

            def go():
                I = Interp(m)
                r = I.run(g, cls=cls)
                c.unit('functions')
                found = 0
                for v in alts(r.value):
                    if v.op == 'lazy' and v.args[0] in ('filter', 'filterfalse'):
                        found += 1
                        src = v.args[2]
                        ok = src is param('self') if walkname == 'children' and cls is node else \
                            src.op == 'gen' and src.args[0].name == walkname or \
                            src.op == 'call' and callee_name(src.args[0]) == walkname
                        c.ob('operators', '{}.{}'.format(cls.name, op), ok, 'does not search the {}'.format(walkname), g.where)
                        c.ob('operators', '{}.{} sense'.format(cls.name, op),
                             (v.args[0] == 'filterfalse') == (op == '__xor__'), 'selects the wrong nodes', g.where)
                    elif v.op == 'lazy' and v.args[0] == 'genexp':
                        found += 1
                if not found:
                    c.unknown('operators', '{}.{}'.format(cls.name, op), 'value ' + show(r.value))
            c.guard('operators', '{}.{}'.format(cls.name, op), go)
    # the predicates of _get_predicate_iterator, filter and instances_of
    for cls in (node, rng):
        for name in ('filter', 'instances_of'):
            g = cls.lookup(name)[2]

            def go3():
                I = Interp(m, max_depth=5)
                r = I.run(g, cls=cls)
                for v in alts(r.value):
                    if v.op != 'gen':
                        c.unknown('operators', '{}.{}'.format(cls.name, name), 'value ' + show(v))
                        continue
                    env = I.genenv[v.args[1]]
                    names = v.args[0].params()
                    p, s = env.get(names[0]), env.get(names[1])
                    c.ob('operators', '{}.{} walk'.format(cls.name, name), v.args[0].name == 'filter_descendants'
                         and s is not None and s.op == 'gen' and s.args[0].name == 'descendants'
                         and env_ok(I, s), 'does not search the descendants forward', g.where)
                    if name == 'filter':
                        c.ob('operators', '{}.{} predicate'.format(cls.name, name), p is param(g.params()[-1]),
                             'does not use the given predicate', g.where)
            c.guard('operators', '{}.{}'.format(cls.name, name), go3)


def env_ok(I, s):
    env = I.genenv[s.args[1]]
    return env.get('reverse', FALSE) is FALSE


def alts(t):
    if t is None:
        return []
    if t.op == 'phi':
        out = []
        for x in t.args[0] if isinstance(t.args[0], tuple) else t.args:
            out += alts(x)
        return out
    return [x for x, _ in leaves(t)]
