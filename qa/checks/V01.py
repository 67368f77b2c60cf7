"""V01: lengths and positions in time follow the music.

Time, TimeContext and the music elements are interpreted on abstract music of known shape: the
types of the elements and how they are nested are known, durations, scalings and factors are
unknown. Every length, position and duration is an expression in these unknowns; it is compared
with the meaning of the music: sums where music is played in sequence, maxima where it sounds
together, scaled by all enclosing tuplets.
"""
from fractions import Fraction as F
from itertools import permutations

from ..lib import *
from ..shape import World
from ..algebra import Algebra, add, mul, num, const_of, freeze

TECHNIQUE = ('Abstract interpretation of Time, TimeContext and the time methods of the music elements on music of known shape '
             'with symbolic durations, scalings and factors; results are normalised to polynomials with maxima and compared '
             'with the sum/max/scale meaning of the music; what music arguments an element type takes is read from its '
             'interpreted signatures.')
NOTE = ('Walking backward through the tree, finding the node at a text position and resolving a reference are given by their '
        'meaning (checked by T, E and S properties); repeats are not expanded and notes inside a chord have no length of '
        'their own, by design; shift_duration() is checked by D01.')

# music arguments that are not played where they stand
NOT_PLAYED = {
    'AddQuote': 'declares music that is quoted elsewhere',
    'StringTuning': 'the chord is a value',
}
# the time of these is not the time of their arguments, see below or the notes
OWN_TIME = {'Grace', 'AfterGrace', 'Repeat', 'Alternative', 'PushToTag', 'AppendToTag', 'Skip'}


def check(c):
    m = c.model
    c.guard('length', 'Time', lambda: trees(c, m))
    c.guard('takes', 'signatures', lambda: takes(c, m))
    c.guard('value', 'add_argument', lambda: values(c, m))
    c.guard('previous', 'duration_getter', lambda: previous(c, m))
    c.guard('remote', 'TimeContext.remote_length', lambda: remote(c, m))
    c.guard('cursor', 'Time', lambda: cursors(c, m))
    c.floor('length', 60)
    c.floor('position', 60)
    c.floor('duration', 200)
    c.floor('takes', 35)
    c.floor('value', 10)
    c.floor('previous', 40)
    c.floor('remote', 6)
    c.floor('cursor', 20)


# ------------------------------------------------------------------- the world

class Song:
    """Abstract music and what it means."""

    def __init__(self, m, spec, more=()):
        self.m = m
        self.w = World(m, on_call=self.on_call)
        self.w.oracle = general
        self.by = {}        # name of a node -> term
        self.spec = {}      # term -> spec
        self.up = {}        # spec id -> spec of the parent
        self.refs = {}      # reference term -> (value term or None, scope term)
        self.asked = []
        self.k = 0
        self.factors = {}
        self.found = {}
        self.replace = {}
        self.roots = [self.build(s) for s in (spec,) + tuple(more)]
        self.root = self.roots[0]
        self.doc = self.w.node(self.cls('Document'), *reversed(self.roots))
        self.time = self.w.new(m.cls('time.Time'), param('scope'), param('wait'))
        self.w.types[self.time] = m.cls('time.Time')
        self.w.facts.append((mk('cmp', 'is', param('scope'), NONE), False))
        self.w.facts.append((truth(param('scope')), True))

    def cls(self, name):
        return self.m.cls('dom.lily.' + name)

    # -- building
    def sym(self, p):
        self.k += 1
        return param('{}{}'.format(p, self.k))

    def build(self, s):
        """s: dict(k=kind, ch=[...], name=...)"""
        k = s['k']
        w = self.w
        ch = []
        if s.get('dur', k in ('Note', 'Rest')):
            s['d'] = self.sym('d')
            sc = []
            if s.get('scaling'):
                s['s'] = self.sym('s')
                sc = [w.node(self.cls('DurationScaling'), head=s['s'])]
            ch.append(w.node(self.cls('Duration'), *sc, head=s['d']))
        if k in ('Times', 'Tuplet', 'ScaleDurations') and 'by' not in s:
            f = w.node(self.cls('Fraction'), head=mk('tuple', const(2), const(3)))
            s['f'] = self.sym('f')
            self.factors[f] = s['f']
            ch.insert(0, f)
        if 'by' in s:
            ch.extend(self.value(x) for x in s['by'])
        if k == 'Chord':
            body = w.node(self.cls('ChordBody'), *[w.node(self.cls('Note'), head=self.sym('h')) for i in range(s.get('notes', 2))],
                          *[w.node(self.cls(x), head=self.sym('h')) for x in s.get('more', ())])
            s['inner'] = list(kids(w.heap, body))
            ch.insert(0, body)
        for x in s.get('ch', ()):
            ch.append(self.build(x))
            self.up[id(x)] = s
        for x in s.get('tail', ()):
            ch.append(self.extra(x))
        kw = {}
        if self.cls(k).issub('dom.element.TextElement') if False else k in ('Note', 'IdentifierRef', 'MusicFunction', 'Context'):
            kw = dict(head=self.sym('h'))
        t = w.node(self.cls(k), *ch, **kw)
        s['t'] = t
        self.spec[t] = s
        return t

    def value(self, v):
        """A number, as Int or as scheme."""
        w = self.w
        if isinstance(v, tuple):
            return w.node(self.cls('Scheme'), w.node(self.m.cls('dom.scm.Number'), head=const(v[0])), head=const('#'))
        if isinstance(v, int):
            return w.node(self.cls('Int'), head=const(v))
        return w.node(self.cls(v))

    def extra(self, k):
        return self.w.node(self.cls(k))

    # -- hooks
    def on_call(self, I, st, fn, args, kws, nd):
        if fn.op != 'bound':
            if fn.op == 'global' and fn.args[1] == 'Result' and len(args) + len(kws) == 2:
                d = dict(zip(('node', 'time'), args), **dict(kws))
                t = mk('new', mk('ext', 'Result'), I.site(nd))
                for k, v in d.items():
                    st.heap[t, k] = v
                return t
            if fn.op == 'func' and fn.args[0].name == 'shift_duration':
                a = list(args) + [v for k, v in kws]
                return mk('shifted', *(a + [const(0)] if len(a) < 3 else a))
            if fn.op == 'func' and fn.args[0].name == 'convert_duration_to_int' and self.replace:
                return self.replace.get(args[0])
            return None
        f, obj = fn.args
        if f.name == 'backward' and f.cls.name == 'Node':
            return mk('tuple', *backward(I, st, obj))
        if f.name == 'descendants' and f.cls.name == 'Node' and (obj, '[]') in st.heap:
            rev = args[0] if args else dict(kws).get('reverse', FALSE)
            return mk('tuple', *walk(st.heap, obj, rev is TRUE))
        if f.name == 'fraction' and obj in self.factors:
            return self.factors[obj]
        if f.name == 'get_value_with_scope':
            a = list(args) + [NONE] * 2
            d = dict(kws)
            self.asked.append((obj, d.get('scope', a[0]), d.get('wait', a[1])))
            r = self.refs.get(obj)
            return NONE if r is None else mk('tuple', *r)
        if f.name in ('find_descendant_right', 'find_descendant_left') and args and args[0] in self.found:
            return self.found[args[0]]
        return None



def kids(heap, n):
    return [x[1] for x in heap.get((n, '[]'), ())]


def walk(heap, n, rev):
    for x in (reversed(kids(heap, n)) if rev else kids(heap, n)):
        yield x
        yield from walk(heap, x, rev)


def backward(I, st, n):
    while True:
        p = I.getattr(n, 'parent', st, None)
        if p is NONE:
            return
        ks = kids(st.heap, p)
        for x in reversed(ks[:ks.index(n)]):
            yield x
            yield from walk(st.heap, x, True)
        n = p


# ---------------------------------------------------------------- normal forms

def maximum(ps):
    """The maximum of lengths (which are not negative)."""
    flat = set()
    for p in ps:
        p = {k: v for k, v in p.items() if v}
        if len(p) == 1:
            (k, v), = p.items()
            if len(k) == 1 and isinstance(k[0], tuple) and k[0][:1] == ('max',) and v == 1:
                flat |= set(k[0][1])
                continue
        if p:
            flat.add(freeze(p))
    if not flat:
        return {}
    # what is certainly not the greatest, as lengths are not negative
    flat = {p for p in flat if not any(q != p and all(v >= 0 for v in add(dict(q), dict(p), -1).values()) for q in flat)}
    if len(flat) == 1:
        return dict(next(iter(flat)))
    return {(('max', frozenset(flat)),): F(1)}


def sums(t):
    """A length as polynomial over the unknowns and maxima."""
    return Algebra(rewrite=rewrite).poly(t)


def rewrite(alg, t):
    if t.op == 'maxof':
        if all(x[0] == 'one' and not x[-1] for x in t.args[0]):
            return maximum(alg.poly(x[1]) for x in t.args[0])
    elif t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'max' and len(t.args[1]) > 1 and not t.args[2]:
        return maximum(alg.poly(x) for x in t.args[1])
    elif t.op == 'shifted':
        return {(('shifted',) + tuple(freeze(alg.poly(x)) for x in t.args),): F(1)}
    elif t.op == 'ite' and t.args[0].op == 'cmp' and t.args[0].args[0] in ('<', '<='):
        # the greater one of two
        p, q = (alg.poly(x) for x in t.args[0].args[1:3])
        a, b = alg.poly(t.args[1]), alg.poly(t.args[2])
        if same(p, {}) and same(q, a) and same(b, p):
            return a
        if same(p, b) and same(q, a):
            return maximum([p, q])
    return None


def P(x):
    return {(x,): F(1)} if isinstance(x, T) else num(x)


def same(p, q):
    return freeze({k: v for k, v in p.items() if v}) == freeze({k: v for k, v in q.items() if v})


# ---------------------------------------------------------------- what music means

SETS_PREVIOUS = {'Note', 'Rest', 'Chord', 'Space', 'Q'}
DURABLE = SETS_PREVIOUS | {'Skip'}
ID = (F(1), 0, 0)


class Meaning:
    def __init__(self, song):
        self.song = song

    def order(self):
        """All specs in document order; what defines a variable comes first."""
        def rec(s):
            yield s
            for x in s.get('ch', ()):
                yield from rec(x)
        for t in reversed(self.song.roots):
            yield from rec(self.song.spec[t])

    def duration(self, s):
        """(duration, scaling) as the pair of polynomials."""
        if 'd' in s:
            return P(s['d']), P(s['s']) if 's' in s else num(1)
        last = num(F(1, 4)), num(1)
        for x in self.order():
            if x is s:
                return last
            if x['k'] in SETS_PREVIOUS and 'd' in x:
                last = P(x['d']), P(x['s']) if 's' in x else num(1)
        raise AnalysisBroken('not in the music')

    def transform(self, s):
        k = s['k']
        if k in ('Grace', 'Acciaccatura', 'Appoggiatura', 'SlashedGrace'):
            return {}, 0, 0
        if k == 'ShiftDurations':
            a = [x[0] if isinstance(x, tuple) else x for x in s['by']]
            return num(1), a[0], a[1]
        if k in ('Times', 'Tuplet', 'ScaleDurations'):
            if 'by' in s:
                a = s['by'][0]
                return num(a[0] if isinstance(a, tuple) else a), 0, 0
            return (Algebra().poly(mk('bin', '/', const(1), s['f'])) if k == 'Tuplet' else P(s['f'])), 0, 0
        return num(1), 0, 0

    def enter(self, ctx, s):
        t = self.transform(s)
        return mul(ctx[0], t[0]), ctx[1] + t[1], ctx[2] + t[2]

    def within(self, s):
        """The transform of what encloses s."""
        chain = []
        while id(s) in self.song.up:
            s = self.song.up[id(s)]
            chain.append(s)
        ctx = num(1), 0, 0
        for x in reversed(chain):
            ctx = self.enter(ctx, x)
        return ctx

    def length(self, s, ctx=None):
        k = s['k']
        if ctx is None:
            ctx = self.within(s)
        if k == 'IdentifierRef':
            r = self.song.refs.get(s['t'])
            if r is None or r[0] not in self.song.spec:
                return {}
            return self.length(self.song.spec[r[0]], ctx)
        if k == 'Chord' and not s.get('notes', 2):
            return {}
        if k in DURABLE and not (k == 'Skip' and s.get('ch')):
            d, sc = self.duration(s)
            if ctx[1] or ctx[2]:
                d = {(('shifted', freeze(d), freeze(num(ctx[1])), freeze(num(ctx[2]))),): F(1)}
            return mul(mul(d, sc), ctx[0])
        inner = self.enter(ctx, s)
        ls = [self.length(x, inner) for x in s.get('ch', ())]
        if k == 'AfterGrace':
            ls = ls[:1]
        if self.sequential(s):
            out = {}
            for x in ls:
                out = add(out, x)
            return out
        return maximum(ls)

    def sequential(self, s):
        if s['k'] != 'MusicList':
            return False
        p = self.song.up.get(id(s))
        return p is None or p['k'] != 'Simultaneous'

    def position(self, s):
        out = {}
        while id(s) in self.song.up:
            p = self.song.up[id(s)]
            if self.sequential(p):
                ctx = self.enter(self.within(p), p)
                for x in p['ch']:
                    if x is s:
                        break
                    out = add(out, self.length(x, ctx))
            s = p
        return out


def n(**kw):
    return dict(k='Note', **kw)


def N(k, *ch, **kw):
    return dict(kw, k=k, ch=list(ch))


def ml(*ch, **kw):
    return N('MusicList', *ch, **kw)


def sim(*ch, **kw):
    return N('SimultaneousMusicList', *ch, **kw)


def songs():
    nd = dict(dur=False)
    yield 'empty', ml()
    yield 'sequence', ml(n(), n(scaling=True), n(**nd), N('Rest', **nd), n())
    yield 'start without duration', ml(n(**nd), n(**nd), n(), n(**nd))
    yield 'kinds', ml(N('Chord', dur=True), N('Chord', notes=0, dur=True), n(**nd), N('Skip', dur=True), N('Chord', notes=1, more=('SinglelineComment',)), N('Chord', notes=0, more=('MultilineComment',), dur=True), N('Clef'), N('Q', **nd))
    yield 'simultaneous', ml(n(), sim(ml(n(), n()), ml(n(**nd)), n()), n(**nd))
    yield 'commands', ml(N('Simultaneous', ml(n(), n(scaling=True))), N('Sequential', ml(n(), n(**nd))), N('Simultaneous', sim(n(), n())), n(**nd))
    yield 'tuplet', ml(n(), N('Tuplet', ml(n(), n(**nd), N('Times', ml(n(), n(**nd))))), n(**nd))
    yield 'simultaneous tuplets', sim(N('Tuplet', ml(n(), n())), N('Times', n()), ml(n(), N('ScaleDurations', ml(n(scaling=True))), n()))
    yield 'scaled', ml(N('ScaleDurations', ml(n(), n(**nd)), by=[3]), N('ScaleDurations', n(), by=[(2,)]), n(**nd))
    yield 'shifted', ml(N('ShiftDurations', ml(n(), N('Tuplet', ml(n(), n())), n(**nd)), by=[1, 1]), n(**nd))
    yield 'shifted twice', ml(N('ShiftDurations', ml(N('ShiftDurations', ml(n(), n(**nd)), by=[(-1,), (0,)]), n(**nd)), by=[2, 1]), n())
    yield 'shifted dots', N('ShiftDurations', ml(n(), N('ShiftDurations', n(scaling=True), by=[-1, 1])), by=[0, 1])
    for g in ('Grace', 'Acciaccatura', 'Appoggiatura', 'SlashedGrace'):
        yield g, ml(n(), N(g, ml(n(), n())) if g != 'Grace' else N(g, ml(n(), N('Tuplet', n()), n())), n(**nd))
    yield 'after grace', ml(n(), N('AfterGrace', n(), ml(n(), n())), n(**nd))
    yield 'after grace in tuplet', ml(N('Tuplet', ml(N('AfterGrace', ml(n(), n()), N('Chord', dur=True)), n())), n())
    yield 'skip', ml(n(), N('Skip', ml(n(), n())), n(**nd))
    yield 'voices', sim(ml(n(), sim(ml(n()), ml(n(), n())), n()), N('Relative', ml(n(), n(**nd))))
    yield 'wrapped', N('Relative', N('Times', N('Transpose', ml(n(), N('Tuplet', N('Grace', n())), n()))))


# ------------------------------------------------------------------------ rules

def where_of(m, name):
    return m.cls('time.Time').lookup(name)[2].where


def sole(r):
    """The values a run can return."""
    return [] if r.value is None else [x for x, _ in leaves(r.value)]


def trees(c, m):
    for name, spec in songs():
        song = Song(m, spec)
        mean = Meaning(song)
        w = song.w
        specs = list(mean.order())
        c.unit('music')
        label = {id(s): '{} {}'.format(s['k'], i) for i, s in enumerate(specs)}
        for s in specs:
            lab = '{}: {}'.format(name, label[id(s)])
            r = w.method(song.time, 'length', (s['t'],))
            compare(c, 'length', lab, r, None, mean.length(s), where_of(m, 'length'))
            for inc in (False, True):
                r = w.method(song.time, 'position', (s['t'], const(inc)))
                want = mean.position(s)
                if inc:
                    want = add(want, mean.length(s))
                compare(c, 'position', lab + (' with its length' if inc else ''), r, song.root, want, where_of(m, 'position'))
        if len(specs) > 7:
            pairs = [(a, b) for i, a in enumerate(specs) for j, b in enumerate(specs) if (i * 7 + j * 3) % 5 == 0 or abs(i - j) <= 1]
        else:
            pairs = [(a, b) for a in specs for b in specs]
        for a, b in pairs:
            r = w.method(song.time, 'duration', (a['t'], b['t']))
            want = add(add(mean.position(b), mean.length(b)), mean.position(a), -1)
            compare(c, 'duration', '{}: {} to {}'.format(name, label[id(a)], label[id(b)]), r, song.root, want, where_of(m, 'duration'))
    # different expressions
    song = Song(m, ml(n(), n()), (ml(n()),))
    a, b = (song.spec[t]['ch'][0]['t'] for t in song.roots)
    for x, y in ((a, b), (b, a)):
        r = song.w.method(song.time, 'duration', (x, y))
        c.ob('duration', 'different expressions', r.value is NONE, 'is {}'.format(show(r.value) if r.value is not None else 'an exception'),
             where_of(m, 'duration'))


def general(c):
    """Unknown numbers are different from each other and from any constant, and positive."""
    if c.op == 'truth' and numeric(c.args[0]):
        return bool(sums(c.args[0]))
    if c.op == 'truth' and c.args[0].op == 'new' and c.args[0].args[0] is mk('ext', 'Result'):
        return True
    if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE and numeric(c.args[1]):
        return False
    if c.op == 'cmp' and c.args[0] == '==' and numeric(c.args[1]) and numeric(c.args[2]):
        return same(sums(c.args[1]), sums(c.args[2]))
    if c.op == 'cmp' and c.args[0] in ('<', '<=') and numeric(c.args[1]) and numeric(c.args[2]):
        d = add(sums(c.args[2]), sums(c.args[1]), -1)
        if not d:
            return c.args[0] == '<='
        if all(v > 0 for v in d.values()):
            return True
        if all(v < 0 for v in d.values()):
            return False
    return None


def numeric(t):
    if t.op == 'const':
        return isinstance(t.args[0], (int, float, F)) and not isinstance(t.args[0], bool)
    if t.op == 'param':
        return t.args[0][:1] in 'dsf' and t.args[0][1:].isdigit()
    if t.op == 'neg':
        return numeric(t.args[0])
    if t.op == 'bin':
        return t.args[0] in '+-*/' and numeric(t.args[1]) and numeric(t.args[2])
    if t.op == 'maxof':
        return all(x[0] == 'one' and not x[-1] and numeric(x[1]) for x in t.args[0])
    if t.op == 'shifted':
        return all(numeric(x) for x in t.args)
    if t.op == 'ite':
        return numeric(t.args[1]) and numeric(t.args[2]) and not any(
            isinstance(a, tuple) and a[:1] == ('ite',) for k in sums(t) for a in k)
    return False


def compare(c, kind, label, r, node, want, where):
    if r.value is None:
        c.ob(kind, label, False, 'there is no result', where)
        return
    v = r.value
    if node is not None:
        parts = fields(v, r.state)
        if parts is None:
            c.unknown(kind, label, 'the result is {}'.format(show(v)[:100]))
            return
        c.ob(kind, label + ' (expression)', parts[0] is node, 'the expression is {}'.format(show(parts[0])[:80]), where)
        v = parts[1]
    got = sums(v)
    c.ob(kind, label, same(got, want), 'is {} instead of {}'.format(text(got), text(want)), where)


def fields(v, st):
    if v.op == 'tuple' and len(v.args) == 2:
        return v.args
    if v.op == 'new' and (v, 'node') in st.heap and (v, 'time') in st.heap:
        return st.heap[v, 'node'], st.heap[v, 'time']
    return None


def text(p):
    def at(a):
        if isinstance(a, T):
            return show(a)
        if isinstance(a, tuple) and a[:1] == ('max',):
            return 'max({})'.format(', '.join(sorted(text(dict(x)) for x in a[1])))
        if isinstance(a, tuple) and a[:1] == ('shifted',):
            return 'shift({})'.format(', '.join(text(dict(x)) for x in a[1:]))
        return str(a)[:60]
    return ' + '.join('{}{}'.format('' if v == 1 else '{}*'.format(v), '*'.join(map(at, k)) or '1') for k, v in sorted(p.items(), key=str)) or '0'


# ------------------------------------------------------------------- arguments

def signatures(m, k):
    """The argument lists of an element type: lists of slots, that are lists of classes; None if it has none."""
    got = k.lookup('signatures')
    if not got or got[1] != 'method' or got[0] is m.cls('dom.element.Element'):
        return None
    r = node_interp(m).run(got[2], cls=k)

    def flat(t):
        if t.op == 'cls':
            yield t.args[0]
        elif t.op == 'tuple':
            for x in t.args:
                yield from flat(x)
    return [[list(flat(x)) for x in e.args[0].args] for e in r.events if e.kind == 'yield' and e.args[0].op == 'tuple']


def types(m):
    for k in m.subclasses(m.cls('dom.element.Element')):
        sigs = signatures(m, k) if k.module.name.endswith('dom.lily') else None
        if sigs:
            yield k, sigs


def takes(c, m):
    """Music that is an argument takes time."""
    music, mlist = m.cls('dom.lily.Music'), m.cls('dom.lily.MusicList')
    for k, sigs in types(m):
        if k.name in NOT_PLAYED or not any(music in x or mlist in x for sig in sigs for x in sig):
            continue
        c.unit('element type')
        where = k.where
        c.ob('takes', k.name, k.issub(music), 'the music in a {} has no length, it is no music'.format(k.name), where)
        own = any(k.issub(m.cls('dom.lily.' + x)) for x in ('Times', 'Tuplet', 'ScaleDurations', 'ShiftDurations', *OWN_TIME))
        if not k.issub(music) or own:
            continue
        for sig in sigs:
            ch = []
            song = Song(m, dict(k='MusicList', ch=[]))
            for slot in sig:
                if music in slot or mlist in slot:
                    ch.append(ml(n(), n()))
                else:
                    ch.append(N(next((x.name for x in slot if not x.issub(music)), slot[0].name)))
            if not any(x['k'] == 'MusicList' for x in ch):
                continue
            song = Song(m, N(k.name, *ch))
            mean = Meaning(song)
            r = song.w.method(song.time, 'length', (song.root,))
            want = maximum([mean.length(x, (num(1), 0, 0)) for x in ch if x['k'] == 'MusicList'])
            compare(c, 'takes', '{} of {}'.format(k.name, ' '.join(x['k'] for x in ch)), r, None, want, where)


def values(c, m):
    """A number or a pitch that is an argument takes no time."""
    music, durable = m.cls('dom.lily.Music'), m.cls('dom.lily.Durable')
    unp, pitchable = m.cls('dom.lily.Unpitched'), m.cls('dom.lily.Pitchable')
    for k, sigs in types(m):
        if not k.issub(music):
            continue
        got = k.lookup('add_argument')
        where = got[2].where if got and got[1] == 'method' else k.where
        if any(unp in x and music not in x for sig in sigs for x in sig):
            song = Song(m, ml())
            w = song.w
            d = w.node(song.cls('Duration'), head=param('d1'))
            u = w.node(unp, d)
            t = w.node(k)
            song.replace = {d: w.node(song.cls('Int'), head=param('i1'))}
            added(c, k, 'a number', w, t, u, durable, where)
        if any(pitchable in sig[0] and music not in sig[0] for sig in sigs if sig):
            song = Song(m, ml())
            w = song.w
            t = w.node(k)
            added(c, k, 'a pitch', w, t, w.node(song.cls('Note'), w.node(song.cls('Octave'), head=const(1)), head=param('h1')), durable, where)


def added(c, k, what, w, t, node, durable, where):
    r = w.method(t, 'add_argument', (node,))
    if r.state is None:
        c.ob('value', '{}: {}'.format(k.name, what), False, '{} can not be added'.format(what), where)
        return
    segs = r.state.heap.get((t, '[]'), ())
    bad = [x[1] for x in segs if x[1].op != 'new' or not isinstance(x[1].args[0].args[0], Class) or x[1].args[0].args[0].issub(durable)]
    c.ob('value', '{}: {}'.format(k.name, what), bool(segs) and not bad,
         '{} that is an argument of {} counts as music: {}'.format(what, k.name, ', '.join(show(x)[:60] for x in bad) or 'nothing is added'), where)


# ---------------------------------------------------------- the previous duration

def previous(c, m):
    """The duration of a durable does not depend on what was asked before."""
    nd = dict(dur=False)
    for name, spec in (
            ('notes', ml(n(**nd), n(), n(**nd), N('Rest', **nd), n(scaling=True), n(**nd), n(**nd))),
            ('lists', ml(ml(n(**nd), n()), sim(ml(n(**nd)), ml(n(), n(**nd))), n(**nd))),
            ('skip', ml(n(), N('Skip', dur=True), n(**nd), N('Skip', dur=True), n(**nd), n(**nd), N('Rest'), n(**nd)))):
        song = Song(m, spec)
        mean = Meaning(song)
        specs = [s for s in mean.order() if s['k'] in DURABLE]
        label = {id(s): '{} {}'.format(s['k'], i) for i, s in enumerate(specs)}
        where = m.func('dom.lily.duration_getter').where
        for s in specs:
            if 'd' not in s:
                r = song.w.run(m.func('dom.lily.previous_duration'), None, (s['t'],))
                got = fields(r.value, r.state) if r.value is not None else None
                want = mean.duration(s)
                c.ob('previous', '{}: before {}'.format(name, label[id(s)]), got is not None and all(same(sums(x), y) for x, y in zip(got, want)),
                     'is {} instead of {}'.format(show(r.value)[:80] if r.value is not None else 'an exception', ' and '.join(map(text, want))),
                     m.func('dom.lily.previous_duration').where)
        orders = [(a, b) for a in specs for b in specs if 'd' not in b] + [
            (specs[i], specs[j], specs[k]) for i, j, k in permutations(range(len(specs)), 3)
            if 'd' not in specs[i] and 'd' not in specs[j] and 'd' not in specs[k]]
        for order in orders:
            w = song.w.copy()
            w.types = song.w.types
            ok, why = True, ''
            for s in order:
                r = w.method(song.time, 'length', (s['t'],))
                if r.state is None:
                    ok, why = False, 'an exception'
                    break
                w.adopt(r.state)
                got, want = sums(r.value), mean.length(s)
                if not same(got, want):
                    ok, why = False, '{} is {} instead of {}'.format(label[id(s)], text(got), text(want))
                    break
            c.ob('previous', '{}: {}'.format(name, ', '.join(label[id(s)] for s in order)), ok, why, where)


# ------------------------------------------------------------------- references

def remote(c, m):
    nd = dict(dur=False)
    where = m.cls('time.TimeContext').lookup('remote_length')[2].where
    ref = lambda: N('IdentifierRef')
    for kind in ('IdentifierRef',):
        for name, spec, value in (
                ('in a list', lambda r: ml(n(), r, n(**nd)), ml(n(**nd), n(), n(**nd))),
                ('in a tuplet', lambda r: ml(n(), N('Tuplet', ml(r, n()))), ml(n(), n(scaling=True))),
                ('of a tuplet', lambda r: ml(n(), r, n(**nd)), N('Tuplet', ml(n(), N('Rest', **nd)))),
                ('at once', lambda r: sim(r, ml(n(), n())), ml(n(**nd), n())),
                ('shifted', lambda r: N('ShiftDurations', ml(n(), r), by=[1, 1]), N('Times', n())),
                ('before grace notes', lambda r: ml(N('AfterGrace', r, ml(n())), n()), ml(n(), n())),
                ('grace notes', lambda r: ml(N('Grace', r), n()), ml(n(), n())),
                ('alone', lambda r: r, sim(n(), n()))):
            r1 = N(kind)
            song = Song(m, spec(r1), (value,))
            song.refs[r1['t']] = (song.roots[1], param('scope 2'))
            ask(c, m, song, '{} {}'.format(kind, name), [(r1['t'], param('scope'))], where)
    # references to references
    r1, r2 = ref(), ref()
    song = Song(m, ml(n(), r1), (N('Assignment', r2), ml(n(), n())))
    song.refs = {r1['t']: (r2['t'], param('scope 2')), r2['t']: (song.roots[2], param('scope 3'))}
    ask(c, m, song, 'of a reference', [(r1['t'], param('scope')), (r2['t'], param('scope 2'))], where)
    # references in what is referred to
    r1, r2 = ref(), ref()
    song = Song(m, ml(n(), r1), (ml(n(), r2, n(**nd)), ml(n(), n())))
    song.refs = {r1['t']: (song.roots[1], param('scope 2')), r2['t']: (song.roots[2], param('scope 3'))}
    ask(c, m, song, 'in a referenced expression', [(r1['t'], param('scope')), (r2['t'], param('scope 2'))], where)
    # nothing, or no music
    for name, value in (('without a value', None), ('of no music', 'String')):
        r1 = ref()
        song = Song(m, ml(n(), r1, n(**nd)), (N('Assignment'),))
        if value:
            song.refs[r1['t']] = (song.w.node(song.cls(value)), param('scope 2'))
        ask(c, m, song, name, [(r1['t'], param('scope'))], where)


def ask(c, m, song, name, asked, where):
    c.unit('music')
    mean = Meaning(song)
    r = song.w.method(song.time, 'length', (song.root,))
    compare(c, 'remote', name, r, None, mean.length(song.spec[song.root]), where)
    for t, scope in asked:
        got = [x for x in song.asked if x[0] is t]
        c.ob('remote', '{}: {}'.format(name, show(scope)), bool(got) and all(x[1] is scope and x[2] is param('wait') for x in got),
             'the value is looked up with {}'.format(', '.join('{}, {}'.format(show(x[1]), show(x[2])) for x in got) or 'nothing'), where)


# ---------------------------------------------------------------------- cursors

CURSOR = param('cursor')


class Edited(Song):
    """A song in a text document with a cursor."""
    ready = selected = True

    def __init__(self, *args):
        super().__init__(*args)
        self.waits = []

    def on_call(self, I, st, fn, args, kws, nd):
        if fn.op == 'attr' and fn.args[0] is CURSOR:
            if fn.args[1] == 'document':
                return param('text document')
            if fn.args[1] == 'has_selection':
                return const(self.selected)
            if fn.args[1] == 'selection':
                return mk('tuple', param('at start'), param('at end'))
        if fn.op == 'attr' and fn.args[0] is param('text document') and fn.args[1] == 'get_transform':
            self.waits.append(args[0] if args else dict(kws).get('wait'))
            return self.doc if self.ready else NONE
        return super().on_call(I, st, fn, args, kws, nd)


def cursors(c, m):
    nd = dict(dur=False)
    T_ = m.cls('time.Time')
    spec = ml(n(), N('Tuplet', ml(n(), N('Chord', dur=True))), sim(ml(n(**nd), n()), n()), N('Rest', **nd))
    song = Edited(m, spec)
    # what is attached to a note
    w = song.w
    first = spec['ch'][0]

    tag = w.node(song.cls('Tag'), w.node(song.cls('Symbol'), head=param('h90')))
    for a in (w.node(song.cls('Articulation'), head=param('h91')), w.node(song.cls('Direction'), tag, head=const(0)), ):
        art = w.node(song.cls('Articulations'), a)
        r = w.method(first['t'], 'append', (art,))
        w.adopt(r.state)
    mean = Meaning(song)
    w.heap[CURSOR, 'pos'] = param('at cursor')

    def music(t):
        while t is not NONE and t not in song.spec:
            t = parent(w, t)
        return None if t is NONE else song.spec[t]
    nodes = [t for t in walk(w.heap, song.doc, False) if music(t)]
    f = T_.lookup('cursor_position')[2]
    for i, t in enumerate(nodes):
        song.found = {param('at cursor'): t}
        song.waits = []
        r = w.method(song.time, 'cursor_position', (CURSOR,))
        lab = 'at node {}, a {}'.format(i, w.types[t].name)
        if r.value is NONE or r.value is None:
            c.ob('cursor', lab, False, 'there is no position', f.where)
            continue
        compare(c, 'cursor', lab, r, song.root, mean.position(music(t)), f.where)
        c.ob('cursor', lab + ': waiting', song.waits == [param('wait')], 'the setting to wait is not used', f.where)
    for lab, t, ready in (('without node', NONE, True), ('without transform', nodes[0], False), ('outside music', song.doc, True)):
        song.found = {param('at cursor'): t}
        song.ready = ready
        r = w.method(song.time, 'cursor_position', (CURSOR,))
        c.ob('cursor', lab, r.value is NONE, 'is {}'.format(show(r.value) if r.value is not None else 'an exception'), f.where)
    song.ready = True
    f = T_.lookup('cursor_duration')[2]
    # a selection ends behind an element; or inside a chord, that then counts completely
    ends = [t for t in nodes if t in song.spec or music(t)['k'] == 'Chord']
    pairs = [(a, b) for i, a in enumerate(nodes) for j, b in enumerate(ends) if (i + j) % 3 == 0]
    for a, b in pairs:
        song.found = {param('at start'): a, param('at end'): b}
        r = w.method(song.time, 'cursor_duration', (CURSOR,))
        lab = 'selection from {} to {}'.format(w.types[a].name, w.types[b].name) + ' {} {}'.format(nodes.index(a), nodes.index(b))
        x, y = music(a), music(b)
        want = add(add(mean.position(y), mean.length(y)), mean.position(x), -1)
        if r.value is None:
            c.ob('cursor', lab, False, 'there is no result', f.where)
            continue
        some = [v for v, _ in leaves(r.value) if v is not NONE]
        if not want or all(v > 0 for v in want.values()):
            c.ob('cursor', lab, len(some) == 1 and r.value is some[0], 'there may be no result for {}'.format(text(want)), f.where)
        elif all(v < 0 for v in want.values()):
            c.ob('cursor', lab, not some, 'there is a result, but the time is {}'.format(text(want)), f.where)
        for v in some:
            part = fields(v, r.state)
            if part is None:
                c.unknown('cursor', lab, 'the result is ' + show(v)[:80])
            else:
                c.ob('cursor', lab + ' (value)', part[0] is song.root and same(sums(part[1]), want),
                     'is {} in {} instead of {}'.format(text(sums(part[1])), show(part[0])[:40], text(want)), f.where)
    song.found = {param('at start'): nodes[0], param('at end'): nodes[0]}
    song.selected = False
    r = w.method(song.time, 'cursor_duration', (CURSOR,))
    song.selected = True
    c.ob('cursor', 'without selection', r.value is NONE, 'is {}'.format(show(r.value) if r.value is not None else 'an exception'), f.where)
    for lab, found in (('selection without start', {param('at start'): NONE, param('at end'): nodes[0]}),
                       ('selection without end', {param('at start'): nodes[0], param('at end'): NONE}),
                       ('selection starting outside', {param('at start'): song.doc, param('at end'): nodes[0]}),
                       ('selection ending outside', {param('at start'): nodes[0], param('at end'): song.doc})):
        song.found = found
        r = w.method(song.time, 'cursor_duration', (CURSOR,))
        c.ob('cursor', lab, r.value is NONE, 'is {}'.format(show(r.value) if r.value is not None else 'an exception'), f.where)


def parent(w, t):
    for k, v in w.heap.items():
        if k[1] == '[]' and any(x[1] is t for x in v):
            return k[0]
    return NONE
