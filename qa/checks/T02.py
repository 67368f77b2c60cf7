"""Field flow of the copying methods.

For every way a node class implements copying (grouped by the methods and slots
it inherits) the guarded value flow of `copy` and `copy_with_origin` is computed
with the constructors inlined.  Every field of the new object is compared with
the field of the original it must come from: type, head, spacing, children
(copied recursively by the same method, in order, only when asked), origin and
modified state.
"""
from ..lib import *

TECHNIQUE = 'guarded value flow (gated SSA) of the copy methods with inlined constructors; per-field source obligations'
NOTE = ('Field-by-field source of every new object made by copy/copy_with_origin for each combination of inherited '
        'implementation and slots; contents of head values are taken as immutable.')

KNOWN_SLOTS = {'_parent', '__weakref__', '_space', 'head_origin', 'tail_origin', '_head', '_modified'}
RELEVANT = ('copy', 'copy_with_origin', 'copy_origin_from', '__init__', '__new__', '_factory', '_spacing', 'append',
            'extend', 'head')


def all_slots(cls):
    out = set()
    for k in cls.mro():
        if isinstance(k, Class) and k.slots():
            out |= set(k.slots())
    return out


def space_attr(m):
    """Name of the attribute that stores the individually set spacing."""
    p = m.cls('dom.element._SpaceProperty')
    f = p.methods.get('__get__')
    if f is None:
        raise AnalysisBroken('_SpaceProperty.__get__ not found')
    I = Interp(m)
    I.run(f, cls=p)
    obj = param(f.params()[1])
    for e in I.events:
        if e.kind == 'getitem' and e.args[0].op == 'attr' and e.args[0].args[0] is obj:
            return e.args[0].args[1]
    raise AnalysisBroken('storage of the spacing not found')


def groups(m):
    node = m.cls('node.Node')
    out = {}
    for cls in [node] + m.subclasses(node):
        key = []
        for n in RELEVANT:
            hit = cls.lookup(n)
            key.append(hit[2].qualname if hit and hit[1] == 'method' else None)
        key.append(tuple(sorted(all_slots(cls))))
        out.setdefault(tuple(key), cls)
    return out


def kids(r, v):
    """[(kind, term, facts, event)] of the nodes put into v."""
    out = []
    for e in r.events:
        if e.kind == 'mutate' and e.args[0] is v:
            name, a = e.args[1], e.args[2]
            if name == 'append' and a:
                out.append(('each' if e.loops else 'one', a[0], (), e))
            elif name == 'extend' and a:
                for k, t, l in contents(a[0], r.state.heap):
                    out.append((k, t, l, e))
            else:
                out.append(('other', mk('tuple', *[x for x in a if isinstance(x, T)]), (), e))
        elif e.kind == 'setitem' and e.args[0] is v:
            out.append(('other', e.args[2], (), e))
    return out


def child_copy(t, self_t, how, st):
    """t is a full copy, by the method named how, of the generic child."""
    if t.op != 'call':
        return False
    f, args, kw = t.args[0], t.args[1], t.args[2]
    return f.op == 'attr' and f.args[1] == how and f.args[0].op == 'elem' and f.args[0].args[1] == '' \
        and root_iter(f.args[0].args[0]) is self_t \
        and all(st.query(truth(a)) is True for a in args) and all(st.query(truth(v)) is True for k, v in kw)


def root_iter(t):
    while t.op in ('iter', 'tupleof', 'slice') and (t.op != 'slice' or (t.args[1] is NONE and t.args[2] is NONE and t.args[3] is NONE)):
        t = t.args[0]
    return t


def check_copy(c, cls, how, f, space):
    m = c.model
    I = node_interp(m, max_steps=200000)
    r = I.run(f, cls=cls)
    c.unit('functions')
    con = '{}.{}'.format(cls.name, how)
    names = f.params()
    self_t = param(names[0])
    wc = param(names[1]) if len(names) > 1 else None
    slots = all_slots(cls)
    if r.value is None:
        c.ob('type', con, False, 'never returns a copy', f.where)
        return
    for v, lits in leaves(r.value):
        st = r.state.fork()
        for a, b in lits:
            st.know(a, b)
        ok = v.op == 'new' and v is not self_t and (v.args[0] is mk('cls', cls))
        c.ob('type', con, ok, 'the copy is not a new node of the same type', f.where)
        if not ok:
            continue

        def field(name, **know):
            x = r.state.heap.get((v, name))
            if x is None:
                return None
            s2 = st.fork()
            for a, b in know.items():
                s2.know(mk('has', self_t, a), b)
            return under(x, s2)
        # head
        if '_head' in slots:
            h = field('_head')
            src = mk('attr', self_t, '_head')
            hl = [x for x, _ in leaves(h)] if h is not None else []
            # a constructor may convert heads of other types; heads of nodes already have the type
            c.ob('head', con, src in hl and all(x is src or x.op == 'call' and mentions(x, src) for x in hl),
                 'the head value of the copy does not come from the original', f.where)
        # spacing
        if '_space' in slots or space in slots:
            check_space(c, con, f, r, v, self_t, space, st)
        # children
        ks = kids(r, v)
        for on in (True, False):
            s2 = st.fork()
            if wc is not None:
                s2.know(truth(wc), on)
                s2.know(wc, on)
                s2.know(mk('cmp', 'is', wc, NONE), not on and None) if False else None
            elif not on:
                continue
            live = []
            for k, t, l, e in ks:
                s3 = s2.fork()
                if any(s3.query(x) is (not p) for x, p in l):
                    continue
                if any(s3.query(x) is (not p) for x, p in real_facts(e.facts).items() if x.op != 'truth' or x.args[0].op == 'param'):
                    continue
                live.append((k, t, l, e))
            if on:
                good = [x for x in live if x[0] == 'each' and child_copy(under(x[1], s2), self_t, how, s2)
                        and all(s2.query(a) is b for a, b in x[2])]
                c.ob('children', con, len(good) == 1 and len(live) == 1,
                     'with children: the copy does not get exactly the copies (by {}) of all children in order'.format(how), f.where)
            else:
                c.ob('children', con + ' shallow', not live or all(x[0] != 'one' and contents_empty(x, s2) for x in live),
                     'without children: the copy still gets children', f.where)
        # origin
        for o in ('head_origin', 'tail_origin'):
            if o not in slots:
                continue
            if how == 'copy':
                x = field(o)
                c.ob('origin', con + ' ' + o, x is None or x is UNBOUND,
                     'the plain copy carries a source position', f.where)
            else:
                x = field(o, head_origin=True, tail_origin=True)
                c.ob('origin', con + ' ' + o, x is mk('attr', self_t, o),
                     'the {} is not taken over from the original'.format(o), f.where)
                if o == 'head_origin':
                    x = field(o, head_origin=True, tail_origin=False)
                    c.ob('origin', con + ' ' + o + ' alone', x is mk('attr', self_t, o),
                         'the head origin is lost when there is no tail origin', f.where)
        if '_modified' in slots:
            x = field('_modified')
            if how == 'copy':
                c.ob('modified', con, x is not None and x is ZERO, 'the plain copy does not start unmodified', f.where)
            else:
                c.ob('modified', con, x is mk('attr', self_t, '_modified'),
                     'the modified state is not that of the original', f.where)
        # other state
        for s in sorted(slots - KNOWN_SLOTS - {space}):
            x = field(s)
            c.ob('slot', '{} {}'.format(con, s), x is not None and mentions(x, mk('attr', self_t, s)),
                 'the attribute {} is not copied'.format(s), f.where)
        # the original is not touched
        for e in r.events:
            if e.kind in ('store', 'setattr_dyn', 'mutate', 'setitem', 'delitem', 'delattr') and e.args[0] is self_t:
                c.ob('pure', con, False, 'copying changes the original', e.where)
        c.ob('pure', con)


def contents_empty(x, st):
    """Segment x can not contribute when the children are not wanted."""
    k, t, l, e = x
    return any(st.query(a) is (not p) for a, p in l)


def check_space(c, con, f, r, v, self_t, space, st):
    src = mk('attr', self_t, space)
    names = {n for k in c.model.cls('dom.element.Element').mro() if isinstance(k, Class)
             for n in k.assigns if n.startswith('space_')}
    ok = shared = wrongkey = False
    direct = set()
    for e in r.events:
        if e.args and e.args[0] is v:
            if e.kind == 'setattr_dyn':
                k, val = e.args[1], e.args[2]
                got = pair_source(k, val, r, src)
                if got is True:
                    ok = True
                elif got is False:
                    wrongkey = True
            elif e.kind == 'store' and e.args[1] == space:
                val = e.args[2]
                vals = [x for x, _ in leaves(val)]
                if any(x is src for x in vals):
                    shared = True
                elif any(mentions(x, src) or any(mentions(s[1], src) for s in r.state.heap.get((x, '[]'), ())) for x in vals):
                    ok = True
            elif e.kind == 'store' and e.args[1] in names:
                if under(e.args[2], e.facts) is mk('attr', self_t, e.args[1]):
                    direct.add(e.args[1])
    if names and direct >= names:
        ok = True
    c.ob('space', con, ok and not shared and not wrongkey,
         'the individually set spacing is shared with the original' if shared else
         'the individually set spacing of the original ({}) does not reach the copy'.format(space), f.where)


def pair_source(k, val, r, src):
    """k, val: name and value terms of a dynamic attribute store.

    True when they run over the original's spacing with the attribute names,
    False when they do so with wrong names, None when unrelated.
    """
    if k.op == 'elem' and k.args[1] == 'key':
        got = None
        for d, lits in leaves(k.args[0]):
            segs = r.state.heap.get((d, '[]'))
            if segs is None:
                if mentions(d, src):
                    return False
                continue
            for s in segs:
                if s[0] in ('each', 'one') and s[1].op == 'tuple':
                    if mentions(s[1].args[1], src):
                        got = named(s[1].args[0], src)
                        if not got:
                            return False
                if s[0] == 'some' and mentions(s[1], src):
                    return False
        return got
    if mentions(val, src):
        return named(k, src)
    return None


def named(k, src):
    texts = [x.args[0] for x in subterms(k) if is_const(x) and isinstance(x.args[0], str)]
    keyed = any(x.op == 'elem' and mentions(x, src) for x in subterms(k))
    return keyed and any(t.startswith('space_') for t in texts)


def check_origin_from(c):
    """copy_origin_from takes all parts and sets the modified state as asked."""
    m = c.model
    el = m.cls('dom.element.Element')
    seen = set()
    for cls in [m.cls('dom.element.TextElement')] + m.subclasses(el):
        hit = cls.lookup('copy_origin_from')
        if not hit or hit[1] != 'method' or hit[2] in seen:
            continue
        f = hit[2]
        seen.add(f)
        names = f.params()
        me, other, mod = [param(n) for n in names[:3]]
        for label, val in (('None', NONE), ('True', TRUE), ('False', FALSE)):
            I = node_interp(m)
            facts = [(mk('has', other, 'head_origin'), True), (mk('has', other, 'tail_origin'), True),
                     (mk('has', other, '_modified'), True)]
            r = I.run(f, cls=cls, args=(other, val), facts=facts)
            if r.state is None:
                c.ob('origin-from', f.qualname + ' ' + label, False, 'fails', f.where)
                continue
            for o in ('head_origin', 'tail_origin'):
                x = r.state.heap.get((me, o))
                x = under(x, r.state) if x is not None else None
                c.ob('origin-from', '{} {} {}'.format(f.qualname, o, label), x is mk('attr', other, o),
                     'the {} is not taken over'.format(o), f.where)
            x = r.state.heap.get((me, '_modified'))
            x = under(x, r.state) if x is not None else None
            want = {'None': mk('attr', other, '_modified'), 'True': const(3), 'False': ZERO}[label]
            c.ob('origin-from', '{} modified={}'.format(f.qualname, label), x is want,
                 'the modified state is not set as asked', f.where)


def check(c):
    m = c.model
    space = space_attr(m)
    gs = groups(m)
    c.unit('copy implementations', len(gs))
    for cls in gs.values():
        for how in ('copy', 'copy_with_origin'):
            hit = cls.lookup(how)
            if not hit or hit[1] != 'method':
                continue
            c.guard('type', '{}.{}'.format(cls.name, how), lambda: check_copy(c, cls, how, hit[2], space))
    c.guard('origin-from', 'copy_origin_from', lambda: check_origin_from(c))
    c.floor('type', 8)
    c.floor('children', 8)
    c.floor('space', 6)
    c.floor('head', 2)
    c.floor('origin', 6)
