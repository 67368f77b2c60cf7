"""M01: relative and absolute conversion undo each other.

The new octave that the two methods of Pitch store is brought into a
polynomial normal form (integer division included) over the attributes of the
two pitches. Decided on the normal forms: only the octave changes; the two
changes are each other's negation and do not depend on the octave that is
changed; a name without octave marks becomes the pitch at most three steps away
from the previous one.
"""
from ..lib import *
from ..algebra import *

TECHNIQUE = ('Value-flow of the conversion methods to polynomial normal forms with integer division; '
             'the two octave changes are compared as normal forms.')
NOTE = ('All notes and scales at once: the formulas are compared as normal forms over the attributes of the pitches, '
        'assuming that octave, note and scale length are integers. How edits walk over music is the subject of M04.')


def check(c):
    m = c.model
    k = m.cls('pitch.Pitch')
    change = {}
    for name in ('make_absolute', 'make_relative'):
        f = k.lookup(name)
        if not f or f[1] != 'method':
            raise AnalysisBroken('Pitch.{} not found'.format(name))
        f = f[2]
        c.unit('function')
        c.guard('convert', name, lambda: convert(c, m, k, f, name, change))
    a, r = change.get('make_absolute'), change.get('make_relative')
    if a and r:
        where = a[1].where
        c.ob('undo', 'octave', a[0] == scale(r[0], -1), 'the octave changes by {} and back by {}'.format(
            show_poly(a[0], show), show_poly(r[0], show)), where)
    c.floor('only', 6)
    c.floor('undo', 1)
    c.floor('near', 1)


def convert(c, m, k, f, name, change):
    I = node_interp(m)
    ps = [p for p in f.params() if not p.startswith('*')]
    r = I.run(f, cls=k)
    me, prev = param(ps[0]), param(ps[1])
    pos = {param(x): atom(('p', i)) for i, x in enumerate(ps)}
    A = Algebra(rewrite=lambda al, t: pos.get(t))
    mine = ('attr', ('p', 0), 'octave')
    new = {}
    for n in ('octave', 'note', 'alter'):
        new[n] = r.state.heap.get((me, n))
    for e in r.events:
        if e.kind == 'store' and e.args[0] is not me:
            c.ob('only', '{} {}'.format(name, e.args[1]), False, 'also changes {}'.format(show(e.args[0])), e.where)
    for n in ('note', 'alter'):
        ok = new[n] is None or A.poly(new[n]) == atom(('attr', ('p', 0), n))
        c.ob('only', '{} {}'.format(name, n), ok, 'changes the {} of the pitch to {}'.format(n, show(new[n]) if new[n] is not None else ''), f.where)
    if new['octave'] is None:
        c.ob('only', name + ' octave', False, 'does not change the octave', f.where)
        return
    p = A.poly(new['octave'])
    delta = add(p, atom(mine), -1)
    ok = not mentions(delta, mine)
    c.ob('only', name + ' octave', ok, 'the octave becomes {}'.format(show_poly(p, show)), f.where)
    change[name] = delta, f
    if name == 'make_absolute' and len(ps) >= 3:
        # 7 * octave + note stays within three steps, for a name without marks
        def rw(al, t):
            if t.op == 'attr' and t.args[0].op == 'param':
                d = {(me, 'note'): 'n', (prev, 'note'): 'pn', (prev, 'octave'): 'po', (me, 'octave'): 'dflt'}.get((t.args[0], t.args[1]))
                if d:
                    return atom((d,))
            if t is param(ps[2]):
                return atom(('dflt',))
            if t.op == 'len':
                return num(7)
            return None
        B = Algebra(rewrite=rw)
        q = B.poly(new['octave'])
        n, pn, po = atom(('n',)), atom(('pn',)), atom(('po',))
        d = add(n, pn, -1)
        want = add(po, floordiv(add(d, num(3)), num(7)), -1)
        c.ob('near', name, q == want, 'a name without octave marks becomes octave {} and not {}'.format(show_poly(q, show), show_poly(want, show)), f.where)
        # the number of steps is the length of the scale
        for t in subterms(new['octave']):
            if t.op == 'len':
                for v, conds in leaves(t.args[0]):
                    if v.op == 'tuple':
                        c.ob('near', '{} steps'.format(name), len(v.args) == 7, 'counts {} steps in an octave'.format(len(v.args)), f.where)


def mentions(p, key):
    """Whether an atom occurs anywhere in p."""
    def walk(a):
        return a == key or isinstance(a, tuple) and any(walk(x) for x in a)
    return any(walk(a) for mm in p for a in mm)
