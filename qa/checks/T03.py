"""Ownership of the boundary trails of ranges.

Every construction of a Range in the package is found by value flow; the start
and end trails handed to it must be lists that no other range can reach (newly
built, sliced or None).  `copy` and `from_here` must in addition describe the
same fragment: same ancestor, the matching trail cut at the depth of the very
level whose node becomes the ancestor, a missing end boundary only when there is
none, and an iteration that starts afresh.
"""
from ..lib import *

TECHNIQUE = 'ownership analysis of the mutable boundary lists over guarded value flow'
NOTE = ('All Range constructions in the package; per construction the origin of both trails, plus the source of '
        'ancestor, trail and depth for copy() and from_here().')


def fresh(t, lits, depth=0):
    st = State()
    for a, b in lits:
        st.know(a, b)
    if st.query(truth(t)) is False:
        return True
    while t.op in ('item', 'elem') and depth < 9:
        t = t.args[0]
        depth += 1
    return t.op not in ('attr', 'param', 'mu')


def exempt(f):
    return f.name == '__init__'


def check(c):
    m = c.model
    rng = m.cls('node.Range')
    init = rng.lookup('__init__')[2]
    names = init.params()
    # which attributes hold the boundaries, and the iteration state
    I = Interp(m)
    r0 = I.run(init, cls=rng)
    me = param(names[0])
    trails = [param(n) for n in names[2:4]]
    attrs = {}
    for (b, n), v in r0.state.heap.items():
        if b is me and v in trails:
            attrs[n] = trails.index(v)
    c.ob('own', 'Range.__init__', len(set(attrs.values())) == 2, 'the boundaries are not kept by the range', init.where)
    # fresh iteration
    stk = [(n, v) for (b, n), v in r0.state.heap.items() if b is me and v.op == 'new']
    ok = False
    for n, v in stk:
        segs = r0.state.heap.get((v, '[]'), ())
        if len(segs) == 1 and segs[0][0] == 'one':
            L = segs[0][1]
            h = lambda a: r0.state.heap.get((L, a))
            vals = {k[1]: x for k, x in r0.state.heap.items() if k[0] is L}
            ok = param(names[1]) in vals.values() and h('index') is const(-1) and h('depth') is ZERO
            c.ob('afresh', 'Range.__init__ boundaries', all(t in vals.values() for t in trails),
                 'iteration does not use the boundaries of the range itself', init.where)
    c.ob('afresh', 'Range.__init__', ok, 'a new range does not start at its ancestor', init.where)

    classes = [rng] + m.subclasses(rng)
    n = 0
    for f in m.all_funcs():
        src = any(isinstance(x, ast.Call) for x in ast.walk(f.node))
        if not src or exempt(f) and f.cls in classes:
            continue
        inrange = f.cls in classes
        text = ast.unparse(f.node)
        if not inrange and 'Range' not in text:
            continue

        def go():
            nonlocal n
            I = node_interp(m, max_depth=4)
            r = I.run(f, cls=f.cls)
            c.unit('functions')
            for e in r.events:
                if e.kind == 'new' and I.typeof(e.args[0]) in classes and e.func is f:
                    n += 1
                    a = list(e.args[1]) + [NONE] * 3
                    kw = dict(e.args[2])
                    args = [a[0], kw.get(names[2], a[1]), kw.get(names[3], a[2])]
                    for t, label in zip(args[1:], ('start', 'end')):
                        bad = [x for x, lits in leaves(t) if not fresh(x, lits)]
                        c.ob('own', '{}: {} boundary'.format(f.qualname, label), not bad,
                             'the new range shares the {} boundary {} with another object'.format(label, show(bad[0]) if bad else ''),
                             e.where)
                    if inrange and f.name == 'copy':
                        same(c, m, f, e, args, attrs, rng, r)
                    if inrange and f.name == 'from_here':
                        here(c, m, f, e, args, names, r)
            if inrange and f.name in ('copy', 'from_here'):
                for v, l in leaves(r.value) if r.value is not None else [(NONE, ())]:
                    c.ob('own', f.qualname + ' result', v.op == 'new' and I.typeof(v) in classes,
                         '{} does not give a new range'.format(f.name), f.where)
        c.guard('own', f.qualname, go)
    c.floor('own', 8)
    c.floor('same', 3)


def same(c, m, f, e, args, attrs, rng, r):
    anc = rng.lookup('ancestor')
    a = Interp(m).run(anc[2], cls=rng).value
    c.ob('same', 'copy ancestor', args[0] is a, 'the copy has another ancestor', e.where)
    me = param(f.params()[0])
    byidx = {i: n for n, i in attrs.items()}
    for i, t in enumerate(args[1:]):
        src = mk('attr', me, byidx[i])
        label = ('start', 'end')[i]
        st = State()
        st.facts = dict(e.facts)
        st.know(is_none(src), True)
        st.know(truth(src), False)
        x = under(t, st)
        c.ob('same', 'copy {} none'.format(label), x is NONE, 'a missing {} boundary is not kept missing'.format(label), e.where)
        for full in (True, False):
            st = State()
            st.facts = dict(e.facts)
            st.know(is_none(src), False)
            st.know(truth(src), full)
            x = under(t, st)
            segs = contents(x, r.state.heap, 0, st.facts)
            if not full and i == 0 and x in (NONE, src):
                continue
            if x.op == 'call' and x.args[0].op == 'closure' or x.op in ('mu', 'opaque'):
                c.unknown('same', 'copy {}'.format(label), 'value not understood: ' + show(x))
                continue
            good = x is not NONE and (segs == [('some', src, ())] or x.op == 'slice' and x.args[0] is src
                                      and x.args[1:4] == (NONE, NONE, NONE)
                                      or x.op == 'call' and callee_name(x.args[0]) == 'copy' and callee_base(x.args[0]) is src)
            if x.op == 'ite':
                c.unknown('same', 'copy {}'.format(label), 'conditions not understood: ' + show(x))
                continue
            c.ob('same', 'copy {} {}'.format(label, 'full' if full else 'empty'), good,
                 'the {} boundary of the copy is not that of the original'.format(label), e.where)


def here(c, m, f, e, args, names, r):
    node = args[0]
    if node.op != 'attr':
        c.unknown('same', 'from_here ancestor', 'ancestor is ' + show(node))
        return
    L = node.args[0]
    top = [x for x, _ in leaves(L)]
    for x in top:
        c.ob('same', 'from_here level', 'stack' in show(x) or x.op in ('item', 'call', 'elem'),
             'does not start at the current level', e.where)
    # the child level exactly when a child is current
    if L.op == 'ite':
        lv = [x for x in top if x.op != 'call']
        ch = [x for x in top if x.op == 'call']
        if len(lv) == 1 and len(ch) == 1:
            idx = mk('attr', lv[0], 'index')
            for cur in (True, False):
                st = State()
                st.know(mk('cmp', '<', const(-1), idx), cur)
                st.know(mk('cmp', '==', idx, const(-1)), not cur)
                st.know(mk('cmp', '<', idx, ZERO), not cur)
                x = under(L, st)
                c.ob('same', 'from_here current' if cur else 'from_here top', x.op != 'ite' and (x in ch) is cur,
                     'the new range does not start at the current node', e.where)
    for i, t in enumerate(args[1:]):
        label = ('start', 'end')[i]
        src = mk('attr', L, names[2 + i])
        other = mk('attr', L, names[3 - i])
        for full in (True, False):
            st = State()
            st.facts = dict(e.facts)
            st.know(is_none(src), False)
            st.know(truth(src), True)
            for x in subterms(t):
                if x.op == 'slice':
                    st.know(truth(x), full)
            x = under(t, st)
            if x.op == 'ite':
                c.unknown('same', 'from_here ' + label, 'conditions not understood')
                continue
            if mentions(x, other) and not mentions(x, src):
                c.ob('same', 'from_here ' + label, False, 'the {} boundary comes from the other one'.format(label), e.where)
                continue
            good = x.op == 'slice' and x.args[0] is src and x.args[1] is mk('attr', L, 'depth') and x.args[2] is NONE
            if not full and i == 0:
                good = good or x is NONE
            c.ob('same', 'from_here {} {}'.format(label, 'full' if full else 'rest empty'), good,
                 'the {} boundary is not cut at the level that becomes the ancestor'.format(label), e.where)
        st = State()
        st.facts = dict(e.facts)
        st.know(is_none(src), True)
        st.know(truth(src), False)
        c.ob('same', 'from_here {} none'.format(label), under(t, st) is NONE,
             'a missing {} boundary is not kept missing'.format(label), e.where)
