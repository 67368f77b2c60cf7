"""M02: transposing keeps the interval.

The methods of Transposer are run by value flow; their results are brought into
polynomial normal form. With S = 6 * octave + scale[note] + alter (the sounding
height in whole tones) and P = 7 * octave + note (the position on the staff):
transposing changes S by the same expression for every pitch, P by the same
expression before respelling, and respelling (the loops) leaves S as it is.
Addition and subtraction of transposers combine these two expressions, and the
transposer built from two pitches has their difference in S and P.
"""
from ..lib import *
from ..algebra import *
from .M01 import mentions

TECHNIQUE = ('Value-flow of the Transposer methods to polynomial normal forms; invariants of sounding height and staff '
             'position as identities of normal forms, inductive over the respelling loops.')
NOTE = ('Holds for all pitches, transposers and scales of seven steps at once. Floating point rounding is left out of '
        'account; how the Transpose edit walks over music is the subject of M04.')

FIELDS = ('octave', 'note', 'alter')


class Heap:
    """Reads the height and position of an object from its fields."""
    def __init__(self, al, scale_key):
        self.al = al
        self.scale = scale_key

    def height(self, octave, note, alter):
        n = self.al.key(note) if isinstance(note, T) else note
        return add(add(scale(self.p(octave), 6), self.p(alter)), atom(('idx', self.scale, n)))

    def position(self, octave, note):
        return add(scale(self.p(octave), 7), self.p(note))

    def p(self, t):
        return self.al.poly(t) if isinstance(t, T) else atom(t)


def algebra(params, defs=None):
    pos = {param(x): atom(('p', i)) for i, x in enumerate(params)}

    def rw(al, t):
        if t in pos:
            return pos[t]
        if t.op == 'len':
            return num(7)       # a scale has seven steps
        return None
    return Algebra(defs, rewrite=rw)


def fields(r, t, names):
    return [r.state.heap.get((t, n)) for n in names]


def check(c):
    m = c.model
    k = m.cls('transpose.Transposer')

    def method(name):
        f = k.lookup(name)
        if not f or f[1] != 'method':
            raise AnalysisBroken('Transposer.{} not found'.format(name))
        c.unit('function')
        return f[2]
    shift = {}
    c.guard('interval', 'transpose', lambda: transpose(c, m, k, method('transpose'), shift))
    c.guard('made', '__init__', lambda: made(c, m, k, method('__init__'), shift))
    for name, sign in (('__add__', 1), ('__sub__', -1)):
        c.guard('combined', name, lambda: combined(c, m, k, method(name), name, sign, shift))
    c.guard('scale', 'default', lambda: scales(c, m))
    c.guard('midi', 'midi', lambda: midi(c, m))
    c.floor('interval', 3)
    c.floor('respelled', 2)
    c.floor('made', 2)
    c.floor('combined', 4)


def attr(base, name):
    return ('attr', base, name)


def transpose(c, m, k, f, shift):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=k)
    A = algebra(ps)
    me, pitch = ('p', 0), param(ps[1])
    H = Heap(A, attr(me, 'scale'))
    loops = [e for e in r.events if e.kind == 'store' and e.loops]
    stores = [e for e in r.events if e.kind == 'store' and not e.loops]
    for e in r.events:
        if e.kind == 'store':
            ok = e.args[0] is pitch and e.args[1] in FIELDS
            if not ok:
                c.ob('interval', 'changes ' + str(e.args[1]), False, 'changes the {} of {}'.format(e.args[1], show(e.args[0])), e.where)
    now = {n: atom(attr(('p', 1), n)) for n in FIELDS}
    old = dict(now)
    # before respelling: the state in which the first loop starts
    final = fields(r, pitch, FIELDS)
    chain = []
    cur = dict(zip(FIELDS, final))
    for n in FIELDS:
        if cur[n] is None:
            c.ob('interval', n, False, 'leaves the {} of the pitch alone'.format(n), f.where)
            return
    # unfold the loops from the last to the first
    for _ in range(6):
        mus = [cur[n] for n in FIELDS if cur[n].op == 'mu']
        if not mus:
            break
        if any(x not in I.mu for x in mus):
            c.unknown('respelled', 'loop', 'loop not understood')
            return
        last = max(x.args[0] for x in mus)
        inside = {n: cur[n].op == 'mu' and cur[n].args[0] == last for n in FIELDS}
        chain.append((dict(cur), {n: I.mu[cur[n]] if inside[n] else (cur[n], cur[n]) for n in FIELDS}))
        cur = {n: I.mu[cur[n]][0] if inside[n] else cur[n] for n in FIELDS}
    s0 = add(add(scale(old['octave'], 6), old['alter']), atom(('idx', attr(me, 'scale'), attr(('p', 1), 'note'))))
    p0 = add(scale(old['octave'], 7), old['note'])
    s1 = H.height(cur['octave'], cur['note'], cur['alter'])
    p1 = H.position(cur['octave'], cur['note'])
    ds, dp = add(s1, s0, -1), add(p1, p0, -1)
    for what, d in (('sounding height', ds), ('staff position', dp)):
        c.ob('interval', what, bool(d) and not mentions(d, ('p', 1)), 'the {} changes by {}'.format(what, show_poly(d, show)), f.where)
    c.ob('interval', 'step range', in_range(A, cur['note']), 'the new step is {}'.format(show(cur['note'])), f.where)
    shift['S'], shift['P'] = ds, dp
    for i, (here, mus) in enumerate(reversed(chain)):
        bad = step = None
        for lits, ts in split([mus[n][1] for n in FIELDS]):
            eq = equalities(lits)
            B = algebra(ps, eq)
            G = Heap(B, attr(me, 'scale'))
            s, t = G.height(*(here[n] for n in FIELDS)), G.height(*ts)
            if s != t:
                bad = add(t, s, -1)
            if not (in_range(B, ts[1]) or stays(B, here['note'], ts[1], lits)):
                step = ts[1]
        c.ob('respelled', 'loop {} height'.format(i), bad is None, 'respelling changes the sounding height by {}'.format(bad and show_poly(bad, show)), f.where)
        c.ob('respelled', 'loop {} step'.format(i), step is None, 'the new step is {}'.format(step and show(step)), f.where)
        alter = here['alter']
        guards = [e.facts for e in loops if e.args[1] == 'alter' and any(x is alter for x in subterms(e.args[2]))]
        for g in guards[:1]:
            ok = any(beyond(fact, v, alter) for fact, v in g.items())
            c.ob('respelled', 'loop {} when'.format(i), ok, 'respells pitches whose alteration can be written', f.where)


def beyond(fact, v, alter):
    """Whether the fact says that alter is above 1 or below -1."""
    if fact.op != 'cmp' or fact.args[0] not in ('<', '<='):
        if fact.op == 'not':
            return beyond(fact.args[0], not v, alter)
        return False
    op, a, b = fact.args
    if not v:
        a, b = b, a
        op = '<=' if op == '<' else '<'
    if op != '<':
        return False

    def is_alter(t):
        return t is alter or t.op == 'call' and callee_name(t.args[0]) == 'abs' and t.args[1] == (alter,)
    if is_const(a) and is_alter(b):
        return a.args[0] == 1
    if is_const(b) and a is alter:
        return b.args[0] == -1
    return False


def stays(A, old, new, lits):
    """Whether a step in range leads to a step in range under the literals."""
    k = const_of(A.poly(new))
    if k is not None:
        return k.denominator == 1 and 0 <= k <= 6
    d = const_of(add(A.poly(new), A.poly(old), -1))
    if d not in (1, -1):
        return d == 0
    edge = 6 if d == 1 else 0
    for g, v in lits.items():
        if g.op == 'cmp' and old in g.args[1:] and any(is_const(x) for x in g.args[1:]):
            op, a, b = g.args
            x = b if is_const(b) else a
            if op == '==' and not v and x.args[0] == edge:
                return True
            if op == '<' and is_const(b) and (d == 1 and v and x.args[0] <= 6):
                return True
            if op == '<' and is_const(a) and (d == -1 and v and x.args[0] >= 0):
                return True
    return False


def in_range(A, t):
    """Whether t is a remainder of a division by seven."""
    p = A.poly(t)
    inner = [(mm, k) for mm, k in p.items() if len(mm) == 1 and isinstance(mm[0], tuple) and mm[0][0] == '//' and k == -7]
    if not inner:
        return False
    # p == x - 7 * (x // 7): the rest differs from the inner part by a multiple of seven
    for mm, k in inner:
        rest = {a: b for a, b in p.items() if a != mm}
        x = thaw(mm[0][1])
        if const_of(thaw(mm[0][2])) != 7:
            continue
        d = add(rest, x, -1)
        if not d:
            return True
    return False


def made(c, m, k, f, shift):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=k)
    A = algebra(ps)
    me = param(ps[0])
    octave, steps, alter, sc = fields(r, me, ('octave', 'steps', 'alter', 'scale'))
    if None in (octave, steps, alter, sc) or 'S' not in shift:
        c.unknown('made', 'fields', 'not all fields are set')
        return
    key = A.key(sc)
    val = {attr(('p', 0), 'octave'): A.poly(octave), attr(('p', 0), 'steps'): A.poly(steps), attr(('p', 0), 'alter'): A.poly(alter)}

    def h(i):
        return add(add(scale(atom(attr(('p', i), 'octave')), 6), atom(attr(('p', i), 'alter'))), atom(('idx', key, attr(('p', i), 'note'))))

    def pos(i):
        return add(scale(atom(attr(('p', i), 'octave')), 7), atom(attr(('p', i), 'note')))
    for what, q, want in (('sounding height', shift['S'], add(h(2), h(1), -1)), ('staff position', shift['P'], add(pos(2), pos(1), -1))):
        got = put(q, val)
        c.ob('made', what, got == want, 'a transposer changes the {} by {}'.format(what, show_poly(got, show) if got is not None else 'something else'), f.where)
    for v, conds in leaves(sc):
        if v is param(ps[3]) or v.op == 'tuple':
            continue
        c.ob('made', 'scale', False, 'the scale is ' + show(v), f.where)


def put(p, val):
    """Substitute single atoms by polynomials."""
    out = {}
    for mm, k in p.items():
        q = num(k)
        for a in mm:
            if a in val:
                q = mul(q, val[a])
            elif isinstance(a, tuple) and any(mentions(atom(a), x) for x in val):
                return None
            else:
                q = mul(q, atom(a))
        out = add(out, q)
    return out


def combined(c, m, k, f, name, sign, shift):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=k)
    A = algebra(ps)
    if 'S' not in shift:
        c.unknown('combined', name, 'interval unknown')
        return
    for v, conds in leaves(r.value):
        if v.op != 'new':
            if v.op in ('global', 'ext', 'builtin'):
                continue
            c.ob('combined', name + ' result', False, 'gives {}'.format(show(v)), f.where)
            continue
        octave, steps, alter, sc = fields(r, v, ('octave', 'steps', 'alter', 'scale'))
        if octave is None:
            # the class attribute
            octave = const(0)
        miss = [n for n, x in (('steps', steps), ('alter', alter), ('scale', sc)) if x is None]
        if miss:
            c.ob('combined', name + ' fields', False, 'leaves {} unset'.format(', '.join(miss)), f.where)
            continue
        val = {attr(('p', 0), n): A.poly(t) for n, t in (('octave', octave), ('steps', steps), ('alter', alter))}
        for what, q in (('sounding height', shift['S']), ('staff position', shift['P'])):
            got = put(q, val)
            other = put(q, {attr(('p', 0), n): atom(attr(('p', 1), n)) for n in ('octave', 'steps', 'alter')})
            want = add(q, other, sign) if other is not None else None
            c.ob('combined', '{} {}'.format(name, what), got is not None and got == want, 'the combination changes the {} by {}'.format(
                what, show_poly(got, show) if got is not None else 'something else'), f.where)
        c.ob('combined', name + ' scale', A.key(sc) in (attr(('p', 0), 'scale'), attr(('p', 1), 'scale')), 'the scale is ' + show(sc), f.where)


def scales(c, m):
    """The default scale: seven ascending steps below six whole tones."""
    mod = m.module('quickly.pitch')
    v = mod.assigns.get('MAJOR_SCALE')
    t = m.literal(mod, v[0][0])
    ok = len(t) == 7 and t[0] == 0 and all(a < b for a, b in zip(t, t[1:])) and t[-1] < 6
    c.ob('scale', 'default', ok, 'the scale is {}'.format(t), mod.name)
    semis = [2 * x for x in t]
    c.ob('scale', 'major', semis == [0, 2, 4, 5, 7, 9, 11], 'the default scale is not c d e f g a b', mod.name)


def midi(c, m):
    """Twice the sounding height, middle C being 60."""
    k = m.cls('pitch.Pitch')
    to, fr = k.lookup('to_midi')[2], k.lookup('from_midi')[2]
    I = node_interp(m)
    r = I.run(to, cls=k)
    A = algebra(to.params())
    out = {}
    for v, conds in leaves(r.value):
        if v.op == 'call' and callee_name(v.args[0]) in ('int', 'round'):
            v = v.args[1][0]
        p = A.poly(v)
        idx = [a for mm in p for a in mm if isinstance(a, tuple) and a[0] == 'idx' and a[2] == attr(('p', 0), 'note')]
        if not idx:
            c.ob('midi', 'to_midi', False, 'the key number is ' + show_poly(p, show), to.where)
            return
        o, al, st = atom(attr(('p', 0), 'octave')), atom(attr(('p', 0), 'alter')), atom(idx[0])
        want = add(scale(add(add(scale(o, 6), al), st), 2), num(60))
        c.ob('midi', 'to_midi', p == want, 'the key number is ' + show_poly(p, show), to.where)
    J = node_interp(m)
    r = J.run(fr, cls=k)
    ps = fr.params()
    for v, conds in leaves(r.value):
        if v.op != 'new':
            c.unknown('midi', 'from_midi', 'gives ' + show(v))
            continue
        octave, note, alter = fields(r, v, FIELDS)
        if None in (octave, note, alter):
            c.unknown('midi', 'from_midi', 'fields not set')
            continue

        def rw(al, t):
            # the integer form of a number that equals it
            if t.op == 'ite' and t.args[0].op == 'cmp' and t.args[0].args[0] == '==':
                for a, b in ((1, 2), (2, 1)):
                    x, y = t.args[a], t.args[b]
                    if is_int_of(x, y) and {x, y} == set(t.args[0].args[1:]):
                        return al.poly(y)
            return None
        B = Algebra(rewrite=rw)
        key = B.poly(param(ps[1]))
        h = add(scale(B.poly(octave), 6), B.poly(alter))
        d = add(add(scale(h, 2), num(60)), key, -1)
        # what is left is minus twice the height of the step
        ok = len(d) == 1 and list(d.values()) == [-2] and len(list(d)[0]) == 1 and idx_of(list(d)[0][0], B.key(note))
        c.ob('midi', 'from_midi', ok, 'the key number of the pitch differs by ' + show_poly(d, show), fr.where)


def is_int_of(x, y):
    return x.op == 'call' and callee_name(x.args[0]) == 'int' and x.args[1] == (y,)


def idx_of(a, key):
    return isinstance(a, tuple) and a[0] == 'idx' and a[2] == key
