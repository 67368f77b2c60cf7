"""K01: key signatures, tonics and chromatic scales agree with the scale.

The height of note number n is scale[n % l] + 6 * (n // l), with l the number
of notes. All formulas of the key module are brought into a normal form with
these heights. Decided on it: alterations are differences of heights,
accidentals are the alterations that give every note of the key the height of
the mode above the tonic, chromatic scales contain every semitone, a tonic is a
number of fifths away, and a pitch read from a key number has that height.
"""
from fractions import Fraction

from ..lib import *
from ..gvf import T, mk
from ..algebra import *

TECHNIQUE = ('Value-flow of the functions in the key module to polynomials over an uninterpreted height function '
             'that is periodic in octaves; table checks on the modes; loop invariants of the circle of fifths.')
NOTE = ('Decided for all notes, alterations, modes and scales at once. The octave rule of the key number reader is '
        'checked on the table of notes and alterations up to three sharps or flats.')

MODES = {'major': 0, 'ionian': 0, 'dorian': 1, 'phrygian': 2, 'lydian': 3, 'mixolydian': 4, 'minor': 5, 'aeolian': 5, 'locrian': 6}
SCALE = (0, 1, 2, Fraction(5, 2), Fraction(7, 2), Fraction(9, 2), Fraction(11, 2))
L = atom(('l',))
I_ = ('i',)


def check(c):
    m = c.model
    mod = m.module('quickly.key')
    K = Keys(c, m, mod)
    c.guard('table', 'scale', lambda: tables(c, m, mod))
    c.guard('alterations', 'alterations', lambda: K.alterations())
    c.guard('accidentals', 'accidentals', lambda: K.accidentals())
    c.guard('chromatic', 'chromatic_scale', lambda: K.chromatic())
    c.guard('tonic', 'tonic', lambda: K.tonic())
    c.guard('signature', 'KeySignature', lambda: K.signature())
    c.guard('reader', 'KeySignature', lambda: K.reader())
    c.guard('midi', 'Pitch', lambda: K.midi())
    c.guard('command', 'Key', lambda: K.command())
    c.floor('table', 5)
    c.floor('alterations', 1)
    c.floor('accidentals', 2)
    c.floor('chromatic', 3)
    c.floor('tonic', 3)
    c.floor('signature', 3)
    c.floor('reader', 5)
    c.floor('midi', 2)
    c.floor('command', 1)


def tables(c, m, mod):
    pm = m.module('quickly.pitch')
    a = pm.assigns.get('MAJOR_SCALE')
    b = pm.assigns.get('MAJOR_FLATS')
    d = mod.assigns.get('mode_offset')
    if not (a and b and d):
        raise AnalysisBroken('the tables of the key module were not found')
    s = tuple(Fraction(x) for x in m.literal(pm, a[0][0]))
    c.ob('table', 'MAJOR_SCALE', s == SCALE, 'the steps of the major scale are ' + ', '.join(map(str, s)), pm.name)
    fl = m.literal(pm, b[0][0])
    c.ob('table', 'MAJOR_FLATS', all(Fraction(x) not in SCALE and 0 < x < 6 for x in fl), 'a natural note counts as altered', pm.name)
    got = m.literal(mod, d[0][0])
    for k, v in MODES.items():
        c.ob('table', k, got.get(k) == v, 'the mode {} starts at step {}'.format(k, got.get(k)), mod.name)
    c.ob('table', 'modes', set(got) == set(MODES), 'the modes are ' + ', '.join(sorted(got)), mod.name)


class Keys:
    def __init__(self, c, m, mod):
        self.c, self.m, self.mod = c, m, mod
        pm = m.module('quickly.pitch')
        self.default = tuple(m.literal(pm, pm.assigns['MAJOR_SCALE'][0][0])) if 'MAJOR_SCALE' in pm.assigns else SCALE

    def run(self, name, opaque=()):
        f = self.mod.funcs.get(name)
        if f is None:
            raise AnalysisBroken('key.{} not found'.format(name))
        self.c.unit('function')
        I = node_interp(self.m, opaque=set(opaque))
        r = I.run(f)
        self.heap = r.state.heap if r.state else {}
        return f, I, r

    # terms

    def is_scale(self, t):
        """A term for the scale: the argument, or the default."""
        if t.op == 'ite':
            return any(x.op == 'param' for g in [t.args[0]] for x in subterms(g)) and all(self.is_scale(x) for x in t.args[1:])
        if t.op == 'tuple':
            return all(is_const(x) for x in t.args) and tuple(x.args[0] for x in t.args) == self.default
        return t.op == 'param' and t.args[0] == 'scale' or t.op == 'attr' and t.args[1] == 'scale'

    def height(self, p):
        """The height of a note number, with whole octaves taken out."""
        rest, octs = {}, {}
        for mm, k in p.items():
            if ('l',) in mm:
                left = list(mm)
                left.remove(('l',))
                octs[tuple(left)] = octs.get(tuple(left), 0) + k
            else:
                rest[mm] = k
        k = const_of(rest)
        if k is not None and 0 <= k < len(SCALE) and k == 0:
            h = atom(('S', ()))
        else:
            h = atom(('S', freeze(rest)))
        return add(h, octs, 6)

    def algebra(self, index=None, defs=None, alts=True):
        """index: the polynomial for the position in a comprehension."""
        index = atom(I_) if index is None else index

        def element(al, t, i):
            """Element i of list t."""
            if self.is_scale(t):
                return self.height(i)
            if t.op == 'call' and callee_name(t.args[0]) == 'alterations' and t.args[1]:
                o = al.poly(t.args[1][0])
                return self.altered(i, o)
            if t.op == 'call' and callee_name(t.args[0]) == 'range' and all(isinstance(x, T) for x in t.args[1]):
                return i if len(t.args[1]) == 1 else add(al.poly(t.args[1][0]), i)
            if t.op == 'ite':
                a, b = element(al, t.args[1], i), element(al, t.args[2], i)
                return a if a == b else None
            if t.op == 'param' or t.op == 'attr':
                return atom(('elem', t, freeze(i)))
            return None

        def rw(al, t):
            if t.op == 'len' and self.is_scale(t.args[0]):
                return L
            if t.op == 'elem' and not t.args[1]:
                return element(al, t.args[0], index)
            if t.op == 'index':
                # the position in an enumeration
                p = al.poly(t.args[1]) if len(t.args) > 1 and isinstance(t.args[1], T) else num(0)
                return add(index, p)
            if t.op == 'item' and self.is_scale(t.args[0]):
                return self.height(al.poly(t.args[1]))
            if t.op == 'ite':
                # x as integer, if it is an integer
                g = t.args[0]
                if g.op == 'cmp' and g.args[0] == '==':
                    for a, b in (t.args[1:], t.args[:0:-1]):
                        if {a, b} == set(g.args[1:]):
                            return al.poly(b if is_int(a) else a)
            return None
        return Algebra(dict(defs or {}), rewrite=rw)

    def altered(self, i, o):
        """The alteration on step i of the scale that starts at offset o."""
        h = self.height
        return add(add(add(h(add(i, o)), h(i), -1), h(o), -1), h({}))

    def unknown_parts(self, p):
        """Terms that are not understood, in a polynomial."""
        out = []

        def walk(x):
            if isinstance(x, T):
                if x.op not in ('param', 'mu', 'attr', 'item', 'elem'):
                    out.append(x)
            elif isinstance(x, tuple) and x[:1] == ('ite',):
                for y in x[2:]:
                    walk(y)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    walk(y)
        for mm in p:
            walk(mm)
        return out

    def equal(self, rule, what, p, want, text, where):
        d = add(p, want, -1)
        ok = not d
        if not ok and self.unknown_parts(d):
            self.c.unknown(rule, what, text + ' (' + show(self.unknown_parts(d)[0]) + ')')
        else:
            self.c.ob(rule, what, ok, text, where)

    def elements(self, I, t):
        """The elements put in a list, on all gates."""
        out = []
        for x in I.made.get(t, ()) or self.appended(t):
            if x not in out:
                out.append(x)
        return out

    def appended(self, t):
        """The elements a list gets in one loop."""
        segs = self.heap.get((t, '[]'), ()) if t.op == 'new' else ()
        segs = [s for s in segs if s[0] != 'some']
        return [s[1] for s in segs] if len(segs) == 1 and segs[0][0] == 'each' and not segs[0][2] else []

    # alterations

    def alterations(self):
        f, I, r = self.run('alterations')
        off = param(f.params()[0])
        for v, conds in leaves(r.value):
            els = self.elements(I, v)
            if not els:
                self.c.unknown('alterations', 'alterations', 'gives ' + show(v))
            for x in els:
                A = self.algebra(defs={off: atom(('offset',))})
                self.equal('alterations', 'difference', A.poly(x), self.altered(atom(I_), atom(('offset',))),
                           'an alteration is not the difference between the two notes and the two first notes', f.where)
                for t in subterms(x):
                    if t.op == 'elem' and t.args[0].op == 'call' and callee_name(t.args[0].args[0]) == 'range':
                        a = t.args[0].args[1]
                        n = A.poly(a[0]) if len(a) == 1 else add(A.poly(a[1]), A.poly(a[0]), -1)
                        self.c.ob('alterations', 'all notes', n == L, 'the number of alterations is ' + show_poly(n, show), f.where)

    # accidentals

    def rotation(self, rule, I, t, f):
        """(the list, the number of places it is moved to the right)."""
        A = self.algebra()
        if t.op == 'bin' and t.args[0] == '+' and all(x.op == 'slice' for x in t.args[1:]):
            a, b = t.args[1:]
            if a.args[0] is b.args[0] and all(is_const(x.args[3]) and x.args[3].args[0] in (None, 1) for x in (a, b)):
                if none(a.args[2]) and none(b.args[1]) and a.args[1] is b.args[2]:
                    return a.args[0], a.args[1]
                self.c.ob(rule, 'rotation', False, 'the parts of the list are {} and {}'.format(show(a), show(b)), f.where)
                return a.args[0], None
        els = self.elements(I, t)
        if len(els) == 1 and els[0].op == 'item' and els[0].args[0].op == 'new':
            p = A.poly(els[0].args[1])
            return els[0].args[0], p
        return None, None

    def accidentals(self):
        c = self.c
        f, I, r = self.run('accidentals', {'alterations'})
        ps = f.params()
        note, alter, mode = (param(x) for x in ps[:3])
        NOTE_, ALTER = atom(('note',)), atom(('alter',))
        defs = {note: NOTE_, alter: ALTER}
        for v, conds in leaves(r.value):
            lst, by = self.rotation('accidentals', I, v, f)
            if lst is None:
                c.unknown('accidentals', 'rotation', 'gives ' + show(v))
                continue
            if by is not None:
                A = self.algebra(defs=defs)
                if isinstance(by, T):
                    # moved right by note: sliced at -note
                    p = scale(A.poly(by), -1)
                    c.ob('accidentals', 'rotation', not residue(add(p, NOTE_, -1)), 'the list is moved by ' + show(by), f.where)
                    c.ob('accidentals', 'note in range', p == mod_l(NOTE_), 'a note outside the scale moves the list by ' + show_poly(p, show), f.where)
                else:
                    B = self.algebra(defs=defs)
                    els = self.elements(I, v)
                    p = B.poly(els[0].args[1])
                    c.ob('accidentals', 'rotation', not residue(add(p, add(atom(I_), NOTE_, -1), -1)), 'note i gets the accidental of step ' + show_poly(p, show), f.where)
                    c.ob('accidentals', 'note in range', p == mod_l(add(atom(I_), NOTE_, -1)), 'a note outside the scale is not brought into it', f.where)
            for x in self.elements(I, lst):
                for lits, (y,) in split([no_int(x)]):
                    given = [p for g, p in known([(k, b) for k, b in lits.items()]).items() if mode in list(subterms(g))] if lits else []
                    A = self.algebra(defs=defs)
                    p = A.poly(y)
                    # the mode given, or no alterations for major
                    own = [a for mm in p for a in mm if isinstance(a, tuple) and a[0] == 'elem' and a[1] is mode]
                    want = add(scale(self.altered(atom(I_), NOTE_), -1), ALTER)
                    if own:
                        want = add(want, atom(('elem', mode, freeze(atom(I_)))))
                    else:
                        none_ = any(g.op in ('is', 'cmp', 'truth') and mode in list(subterms(g)) for g in lits)
                        if not none_:
                            c.ob('accidentals', 'mode', False, 'the mode does not count', f.where)
                    self.equal('accidentals', 'formula', p, want, 'the accidental of a note is {}'.format(show_poly(p, show)), f.where)

    # the chromatic scale

    def chromatic(self):
        c = self.c
        f, I, r = self.run('chromatic_scale')
        ps = f.params()
        note, alter = param(ps[0]), param(ps[1])
        NOTE_, ALTER = atom(('note',)), atom(('alter',))
        defs = {note: NOTE_, alter: ALTER}
        shift = add(add(ALTER, self.height(NOTE_)), self.height({}), -1)
        for v, conds in leaves(r.value):
            lst, by = self.rotation('chromatic', I, v, f)
            if lst is None:
                c.unknown('chromatic', 'rotation', 'gives ' + show(v))
                continue
            if isinstance(by, T):
                A = self.algebra(defs=defs, index=atom(I_))
                n, mod12 = semitones(A, by)
                if n is None:
                    c.unknown('chromatic', 'rotation', 'the list is moved by ' + show(by))
                else:
                    k = const_of(add(n, shift, 2))
                    c.ob('chromatic', 'rotation', k is not None and k % 12 == 0, 'the list is moved by ' + show_poly(n, show), f.where)
                    c.ob('chromatic', 'in range', mod12, 'the list is not moved if the key is more than an octave away', f.where)
            for x in self.elements(I, lst):
                if x.op != 'tuple' or len(x.args) != 2:
                    c.unknown('chromatic', 'semitones', 'an element is ' + show(x))
                    continue
                # the semitone: the position in the range
                A = self.algebra(defs=defs, index=atom(I_))
                h = add(self.height(residue(A.poly(x.args[0]))), A.poly(x.args[1]))
                want = add(shift, scale(atom(I_), Fraction(1, 2)))
                self.equal('chromatic', 'semitones', h, want, 'semitone i of the scale has height ' + show_poly(h, show), f.where)
                ranges = {t.args[0] for t in subterms(x) if t.op == 'elem' and t.args[0].op == 'call' and callee_name(t.args[0].args[0]) == 'range'}
                for t in ranges:
                    c.ob('chromatic', 'twelve', t.args[1] == (const(12),), 'the semitones run over ' + show(t), f.where)
        # the natural notes
        for t, (init, nxt) in I.mu.items():
            steps = [(v, cs) for v, cs in leaves(nxt)]
            if not (any(v is t for v, cs in steps) and is_const(init) and init.args[0] == 0):
                continue
            A = self.algebra(defs=defs)
            cmps = {x for v, cs in steps for g, p in cs for x in subterms(g) if x.op == 'cmp' and x.args[0] == '==' and
                    any(y.op == 'item' and self.is_scale(y.args[0]) and A.poly(y.args[1]) == add(A.poly(t), num(1)) for y in x.args[1:])}
            # comparisons of the note with the length: {term: (true if there is a next note, the number is right)}
            bounds = {}
            for x in {x for v, cs in steps for g, p in cs for x in subterms(g) if x.op == 'cmp' and x.args[0] in ('<', '<=')}:
                d = add(A.poly(x.args[2]), A.poly(x.args[1]), -1)
                strict = x.args[0] == '<'
                for sign in (1, -1):
                    k = const_of(add(d, scale(add(L, A.poly(t), -1), sign), -1))
                    if k is not None:
                        bounds[x] = sign > 0, k == ((-1 if strict else -2) if sign > 0 else (2 if strict else 1))
            for v, cs in steps:
                if v is t:
                    assume = [(x, True) for x in cmps] + [(x, up) for x, (up, right) in bounds.items()]
                    c.ob('chromatic', 'natural notes', bool(cmps) and not consistent(list(cs) + assume),
                         'a natural note of the scale does not get its own note', f.where)
                else:
                    c.ob('chromatic', 'one note up', A.poly(v) == add(A.poly(t), num(1)), 'the note becomes ' + show(v), f.where)
            for x, (up, right) in bounds.items():
                c.ob('chromatic', 'last note', right, 'the number of notes is not right in ' + show(x), f.where)
            if not bounds:
                c.unknown('chromatic', 'last note', 'no comparison with the number of notes')

    # the circle of fifths

    def tonic(self):
        c = self.c
        f, I, r = self.run('tonic')
        sf = param(f.params()[0])
        fifth = add(self.height(num(4)), self.height({}), -1)
        # a perfect fifth has seven semitones
        for v, conds in leaves(r.value):
            if v.op != 'tuple' or len(v.args) != 2:
                c.unknown('tonic', 'tonic', 'gives ' + show(v))
                continue
            n, a = v.args
            if n.op != 'mu' or a.op != 'mu':
                A = self.algebra(defs={sf: atom(('sf',))})
                p = A.poly(n)
                if conds and is_const(n):
                    continue
                c.ob('tonic', 'note', not residue(add(p, atom(('sf',)), -4)), 'the note is ' + show(n), f.where)
                h = add(add(self.height(residue(p)), A.poly(a)), self.height({}), -1)
                self.equal('tonic', 'height', h, scale(atom(('sf',)), Fraction(7, 2)), 'the height is ' + show_poly(h, show), f.where)
                c.ob('tonic', 'fifths', True)
                continue
            for t, what in ((n, 'note'), (a, 'alteration')):
                c.ob('tonic', 'start ' + what, is_const(I.mu[t][0]) and I.mu[t][0].args[0] == 0, 'the {} starts at {}'.format(what, show(I.mu[t][0])), f.where)
            loops = [e.args[0] for e in r.events if e.kind == 'call' and e.args[0].op == 'builtin' and e.args[0].args[0] == 'range']
            counts = [t for t, (i, x) in I.mu.items() for t in subterms(x) if t.op == 'call' and callee_name(t.args[0]) == 'range' and len(t.args[1]) == 1]
            count = counts[0].args[1][0] if counts else None
            terms = [I.mu[n][1], I.mu[a][1]] + ([count] if count is not None else [])
            for lits, ts in split(terms):
                A = self.algebra(defs={sf: atom(('sf',))})
                kn = known(list(lits.items()) + list(conds))
                sign = signof(kn, sf)
                if sign is None:
                    c.unknown('tonic', 'sign', 'depends on ' + ', '.join(show(x) for x in lits))
                    continue
                N = A.poly(n)
                if sign:
                    p = A.poly(ts[0])
                    c.ob('tonic', 'fifths', not residue(add(add(p, N, -1), num(4 * sign), -1)), 'the next note is ' + show_poly(p, show), f.where)
                    c.ob('tonic', 'note in range', p == mod_l(add(N, num(4 * sign))), 'the next note is not in the scale: ' + show_poly(p, show), f.where)
                    before, after = add(self.height(N), A.poly(a)), add(self.height(residue(p)), A.poly(ts[1]))
                    self.equal('tonic', 'height', add(after, before, -1), num(Fraction(7, 2) * sign), 'the next height is ' + show_poly(after, show), f.where)
                if len(ts) > 2:
                    k = A.poly(ts[2])
                    c.ob('tonic', 'count', k == scale(atom(('sf',)), sign) or list(k) == [(('call', 'abs', ('sf',)),)] and list(k.values()) == [1], 'the number of fifths is ' + show_poly(k, show), f.where)
                else:
                    c.unknown('tonic', 'count', 'the number of fifths is not known')

    # the key signature

    def signature(self):
        c, m = self.c, self.m
        k = m.cls('key.KeySignature')
        f = k.lookup('__init__')[2]
        c.unit('function')
        I = node_interp(m, opaque={'alterations', 'accidentals'})
        r = I.run(f, cls=k)
        ps = f.params()
        me = param(ps[0])
        for n in ('note', 'alter', 'mode'):
            v = r.state.heap.get((me, n))
            c.ob('signature', n, v is param(n), 'the {} is {}'.format(n, show(v) if v is not None else 'not set'), f.where)
        v = r.state.heap.get((me, 'accidentals'))
        if v is None:
            raise AnalysisBroken('KeySignature.accidentals is not set')
        acc = self.mod.funcs['accidentals']
        alt = self.mod.funcs['alterations']
        for x, conds in leaves(v):
            if x.op != 'call' or callee_name(x.args[0]) != 'accidentals':
                c.unknown('signature', 'accidentals', 'is ' + show(x))
                continue
            args = bind(acc, x)
            for n in ('note', 'alter'):
                c.ob('signature', 'accidentals ' + n, args.get(n) is param(n), 'the {} is {}'.format(n, show(args[n]) if n in args else 'left out'), f.where)
            c.ob('signature', 'accidentals scale', 'scale' in args and self.is_scale(args['scale']), 'the scale is not the scale of the key', f.where)
            for y, cs in leaves(args.get('mode', const(None))):
                if y is param('mode'):
                    fs = known(list(conds) + list(cs))
                    c.ob('signature', 'mode list', any(t.op == 'isinstance' and not p for t, p in fs.items()), 'the name of the mode is used as a list', f.where)
                elif y.op == 'call' and callee_name(y.args[0]) == 'alterations':
                    a = bind(alt, y)
                    o = a.get('offset')
                    ok = o is not None and any(t.op == 'global' and t.args[1] == 'mode_offset' for t in subterms(o)) and param('mode') in list(subterms(o))
                    c.ob('signature', 'mode name', ok, 'the offset of the mode is ' + (show(o) if o is not None else 'left out'), f.where)
                    c.ob('signature', 'mode scale', 'scale' in a and self.is_scale(a['scale']), 'the alterations of the mode are those of another scale', f.where)
                else:
                    c.unknown('signature', 'mode', 'the mode is ' + show(y))

    def reader(self):
        c, m = self.c, self.m
        k = m.cls('key.KeySignature')
        f = k.lookup('pitch')[2]
        c.unit('function', 2)
        I = node_interp(m, opaque={'chromatic_scale'})
        r = I.run(f, cls=k)
        self.heap = r.state.heap
        ps = f.params()
        me, key = param(ps[0]), param(ps[1])
        attr = {n: mk('attr', me, n) for n in ('note', 'alter', 'scale', 'accidentals', 'flats')}
        calls = {t for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'chromatic_scale' for t in [e]}
        chrom = self.mod.funcs['chromatic_scale']
        for e in calls:
            args = dict(zip(chrom.params(), [a for a in e.args[1]]))
            args.update({n: v for n, v in (e.args[2] or ())} if len(e.args) > 2 else {})
            for n in ('note', 'alter', 'scale'):
                got = args.get(n)
                c.ob('reader', 'scale ' + n, got is not None and got.op == 'attr' and got.args == (me, n), 'the {} of the chromatic scale is {}'.format(n, show(got) if got is not None else 'left out'), e.where)
            got = args.get('flats')
            c.ob('reader', 'scale flats', got is not None and all(any(y in (param(ps[2]),) or y.op == 'attr' and y.args[1] == 'flats' for y in subterms(x)) for x, cs in leaves(got)),
                 'the flats are ' + (show(got) if got is not None else 'left out'), e.where)
        c.ob('reader', 'chromatic scale', bool(calls), 'the altered notes are not known', f.where)
        # the notes of the key
        sets = [e for e in r.events if e.kind == 'setitem']
        A = self.algebra()
        for e in sets:
            n, mod12 = semitones(A, e.args[1])
            v = e.args[2]
            acc = atom(('elem', attr['accidentals'], freeze(atom(I_))))
            if n is None or v.op != 'tuple' or len(v.args) != 2:
                c.unknown('reader', 'own notes', 'sets {} at {}'.format(show(v), show(e.args[1])))
                continue
            c.ob('reader', 'own notes', n == scale(add(self.height(atom(I_)), acc), 2) and mod12, 'the note is set at ' + show(e.args[1]), e.where)
            c.ob('reader', 'own note', A.poly(v.args[0]) == atom(I_), 'the note is ' + show(v.args[0]), e.where)
            c.ob('reader', 'own alteration', A.poly(v.args[1]) == acc, 'the alteration is ' + show(v.args[1]), e.where)
        if not sets:
            c.unknown('reader', 'own notes', 'the notes of the key are not set one by one')
        # octave
        for e in r.events:
            if e.kind != 'new' or e.args[0].args[0].op != 'cls' or e.args[0].args[0].args[0].name != 'Pitch' or len(e.args[1]) != 3:
                continue
            o, n, a = (self.through(I, x) for x in e.args[1])
            if not (n.op == a.op == 'item' and n.args[0] is a.args[0] and n.args[1] is const(0) and a.args[1] is const(1)):
                c.ob('reader', 'pitch', n.op == a.op == 'item' and n.args[0] is not a.args[0] and None, 'the note and alteration are {} and {}'.format(show(n), show(a)), e.where) \
                    if is_const(n) or is_const(a) else c.unknown('reader', 'pitch', 'the note and alteration are {} and {}'.format(show(n), show(a)))
                continue
            bad, unk = [], None
            for i in range(7):
                for j in range(-3, 4):
                    if abs(j) == 3 and i not in (0, 6):
                        continue
                    A = Algebra({n: num(i), a: num(Fraction(j, 2)), key: atom(('key',))})
                    p = add(A.poly(o), floordiv(atom(('key',)), num(12)), -1)
                    k_ = const_of(p)
                    if k_ is None:
                        unk = show(o)
                    elif not 0 <= 6 * (k_ + 5) + SCALE[i] + Fraction(j, 2) < 6:
                        bad.append((i, Fraction(j, 2)))
            if unk:
                c.unknown('reader', 'octave', 'the octave is ' + unk)
            else:
                c.ob('reader', 'octave', not bad, 'the octave is wrong for {}'.format(', '.join('note {} alter {}'.format(i, j) for i, j in bad[:4])), e.where)
            idx = [t.args[1] for t in subterms(e.args[1][1]) if t.op == 'item' and not is_const(t.args[1])]
            A = Algebra({key: atom(('key',))})
            for t in idx:
                want = add(atom(('key',)), scale(floordiv(atom(('key',)), num(12)), 12), -1)
                c.ob('reader', 'semitone', A.poly(t) == want, 'the note is looked up at ' + show(t), e.where)
        # the cache needs a hashable value
        for e in r.events:
            if e.kind == 'call' and callee_name(e.args[0]) == '_midi_reader' and e.args[1:] and e.args[1]:
                for x, cs in leaves(e.args[1][0]):
                    if x is param(ps[2]):
                        c.ob('reader', 'list of flats', False, 'a list of flats can not be looked up in the cache', e.where)
        cached = k.lookup('_midi_reader')
        if cached and any('cached' in ast_name(d) for d in cached[2].node.decorator_list):
            I2 = node_interp(m, opaque={'_midi_reader'})
            for e in I2.run(f, cls=k).events:
                if e.kind == 'call' and callee_name(e.args[0]) == '_midi_reader':
                    for x in e.args[1]:
                        for y, cs in leaves(x):
                            c.ob('reader', 'list of flats', y is not param(ps[2]), 'a list of flats can not be looked up in the cache', e.where)

    def through(self, I, t):
        """Look through the list made from another list."""
        if t.op == 'item' and is_const(t.args[1]) and t.args[0].op == 'item' and t.args[0].args[0].op == 'new':
            els = self.elements(I, t.args[0].args[0])
            if len(els) == 1 and els[0].op == 'tuple' and 0 <= t.args[1].args[0] < len(els[0].args):
                return els[0].args[t.args[1].args[0]]
        if t.op == 'bin':
            return mk('bin', t.args[0], *[self.through(I, x) if isinstance(x, T) else x for x in t.args[1:]])
        return t

    def midi(self):
        c, m = self.c, self.m
        k = m.cls('pitch.Pitch')
        f = k.lookup('to_midi')[2]
        c.unit('function', 2)
        I = node_interp(m)
        r = I.run(f, cls=k)
        me = param(f.params()[0])
        at = {n: mk('attr', me, n) for n in ('octave', 'note', 'alter')}
        for v, conds in leaves(r.value):
            while v.op == 'call' and callee_name(v.args[0]) in ('int', 'round') and len(v.args[1]) == 1:
                v = v.args[1][0]
            A = self.algebra(defs={t: atom((n,)) for n, t in at.items()})
            A.rewrite = whole(A.rewrite)
            want = add(add(scale(atom(('octave',)), 12), num(60)), scale(add(self.height(atom(('note',))), atom(('alter',))), 2))
            self.equal('midi', 'to_midi', A.poly(v), want, 'the key number is ' + show(v), f.where)
        f = k.lookup('from_midi')[2]
        I = node_interp(m)
        r = I.run(f, cls=k)
        key = param([p for p in f.params() if p not in ('cls', 'self')][0])
        for v, conds in leaves(r.value):
            if v.op != 'new':
                c.unknown('midi', 'from_midi', 'gives ' + show(v))
                continue
            o, n, a = (r.state.heap.get((v, x)) for x in ('octave', 'note', 'alter'))
            if None in (o, n, a):
                raise AnalysisBroken('from_midi does not set the pitch')
            A = self.algebra(defs={key: atom(('key',)), n: atom(('n',))})
            h = add(add(scale(A.poly(o), 6), self.height(atom(('n',)))), A.poly(a))
            want = add(scale(atom(('key',)), Fraction(1, 2)), num(-30))
            self.equal('midi', 'from_midi', h, want, 'the height of the pitch is ' + show_poly(h, show), f.where)
            # natural notes, else the note below, or the note above for flats
            B = Algebra({key: atom(('key',))})
            half = scale(add(atom(('key',)), scale(floordiv(atom(('key',)), num(12)), 12), -1), Fraction(1, 2))
            tests = [t for t in subterms(n) if t.op == 'cmp' and t.args[0] == 'in']
            c.ob('midi', 'flats', bool(tests), 'the flats do not count', f.where)
            for x, cs in leaves(n):
                calls = [t for t in subterms(x) if t.op == 'call' and (callee_name(t.args[0]) or '').startswith('bisect') and len(t.args[1]) == 2]
                if len(calls) != 1:
                    c.unknown('midi', 'from_midi note', 'the note is ' + show(x))
                    continue
                t, = calls
                right = callee_name(t.args[0]) != 'bisect_left'
                at = B.poly(t.args[1][1])
                k = const_of(add(B.poly(x), B.poly(t), -1))
                flat = [p for g, p in known(list(cs) + list(conds)).items() if g.op == 'cmp' and g.args[0] == 'in']
                ok = self.is_scale(t.args[1][0]) and at == half and k == (-1 if right else 0) and (flat == [not right] or right and not flat)
                c.ob('midi', 'from_midi note', ok, 'the note is {}{}'.format(show(x), ', for flats' if True in flat else ''), f.where)

    def command(self):
        """The key signature of a \\key command."""
        c, m = self.c, self.m
        k = m.cls('dom.lily.Key')
        f = k.lookup('key_signature')
        if not f:
            raise AnalysisBroken('Key.key_signature not found')
        f = f[2]
        c.unit('function')
        I = node_interp(m, opaque={'read_node', 'get_value_with_scope', '__init__', 'KeySignature'})
        r = I.run(f, cls=k)
        init = m.cls('key.KeySignature').lookup('__init__')[2]
        for e in r.events:
            if e.kind in ('new', 'call') and any(x.op == 'cls' and x.args[0].name == 'KeySignature' for x in (subterms(e.args[0]) if isinstance(e.args[0], T) else ())):
                args = [x for x in e.args[1]]
                names = [p for p in init.params() if p != 'self'][:len(args)]
                got = dict(zip(names, args))
                for n in ('note', 'alter'):
                    v = got.get(n)
                    ok = v is not None and all(x.op == 'attr' and x.args[1] == n or is_const(x) for x, cs in leaves(v))
                    c.ob('command', n, ok, 'the {} of the key is {}'.format(n, show(v) if v is not None else 'left out'), e.where)
                v = got.get('mode')
                c.ob('command', 'mode', v is not None, 'the mode of the key is left out', e.where)
                break


def ast_name(d):
    import ast
    return ast.unparse(d)


def bind(f, call):
    """The arguments of a call by name."""
    ps = [p for p in f.params() if p not in ('self', 'cls')]
    out = dict(zip(ps, call.args[1]))
    kws = call.args[2]
    out.update(dict(kws) if kws else {})
    return out


def no_int(t, memo=None):
    """The term without conversions to int of values that are integer."""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return tuple(no_int(x, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    r = None
    if t.op == 'ite' and t.args[0].op == 'cmp' and t.args[0].args[0] == '==' and set(t.args[1:]) == set(t.args[0].args[1:]):
        r = no_int(t.args[2] if is_int(t.args[1]) else t.args[1], memo)
    if r is None:
        args = tuple(no_int(x, memo) if isinstance(x, (T, tuple)) else x for x in t.args)
        r = t if args == t.args else mk(t.op, *args)
    memo[t] = r
    return r


def whole(rw):
    """A rewriting that also ignores conversions to int."""
    def rewrite(al, t):
        if is_int(t) and len(t.args[1]) == 1:
            return al.poly(t.args[1][0])
        return rw(al, t)
    return rewrite


def none(t):
    return is_const(t) and t.args[0] is None


def is_int(t):
    return t.op == 'call' and callee_name(t.args[0]) in ('int', 'round')


def residue(p):
    """What is left of a note number apart from whole octaves."""
    return {mm: k for mm, k in p.items() if ('l',) not in mm}


def mod_l(p):
    return add(p, mul(L, floordiv(p, L)), -1)


def semitones(A, t):
    """(the number of semitones, whether it is taken modulo twelve) of -int(x) % 12."""
    mod12 = False
    sign = 1
    while True:
        if t.op == 'neg':
            t, sign = t.args[0], -sign
        elif t.op == 'bin' and t.args[0] == '%' and t.args[2] is const(12):
            t, mod12 = t.args[1], True
        elif is_int(t) and len(t.args[1]) == 1:
            t = t.args[1][0]
        else:
            break
    return scale(A.poly(t), sign), mod12


def signof(kn, x):
    """The sign of x by comparisons with zero, or None if it is not known."""
    s = {-1, 0, 1}
    for t, p in kn.items():
        if t.op == 'truth' and t.args[0] is x:
            s &= {-1, 1} if p else {0}
        elif t.op == 'cmp' and x in t.args[1:] and any(is_const(y) and y.args[0] == 0 for y in t.args[1:]):
            op, a, b = t.args
            f = {'<': lambda u, v: u < v, '<=': lambda u, v: u <= v, '==': lambda u, v: u == v}.get(op)
            if f:
                s = {k for k in s if f(k if a is x else 0, k if b is x else 0) == p}
    return s.pop() if len(s) == 1 else None
