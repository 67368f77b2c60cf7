"""R02: parts of a note, rest or chord land at a legal place.

The order of the parts that every element declares is compared with the input language.
Then add() and all properties are interpreted for elements with every relevant combination
of parts, as abstract objects of a known type with unknown head values; the children that
result are compared with what the property means.
"""
from itertools import combinations

from ..lib import *

TECHNIQUE = ('Evaluation of the declared child orders against the grammar; abstract interpretation of Element.add() and of the property '
             'getters, setters and deleters over all shapes of the element (which parts are present, which kind of value is set).')
NOTE = 'Only elements for which a child order is needed; \\after and \\partial have no other parts to order.'

# the place of each part in the input language
RANK = (('ChordBody', 0), ('Scheme', 0), ('String', 0), ('Symbol', 0), ('Markup', 0), ('List', 0), ('IdentifierRef', 0), ('Etc', 0), ('Fraction', 0),
        ('Octave', 1), ('Accidental', 2), ('OctCheck', 3), ('Duration', 4), ('RestModifier', 5), ('EqualSign', 5), ('Int', 6), ('ChordModifiers', 6),
        ('Articulations', 7), ('Music', 8), ('Comment', 9))
WITH_ARTICULATIONS = ('Note', 'Chord', 'Unpitched', 'Rest', 'MultiMeasureRest', 'PitchedRest', 'Space', 'Q', 'Drum')


def check(c):
    m = c.model
    for k in sorted(m.all_classes(), key=lambda k: k.name):
        if k.module.name.endswith('lily') and k.issub(m.cls('dom.element.Element')):
            c.guard('order', k.name, lambda: order(c, m, k))
    c.guard('add', 'Element.add', lambda: add(c, m))
    c.guard('property', 'properties', lambda: properties(c, m))
    c.guard('property', 'scaling', lambda: scaled(c, m))
    c.floor('order', 30)
    c.floor('add', 200)
    c.floor('property', 300)


# ------------------------------------------------------------------- the order

def flat(t):
    if t.op == 'tuple':
        return [y for x in t.args for y in flat(x)]
    return [t.args[0]] if t.op == 'cls' else [None]


def rank(m, k):
    for name, r in RANK:
        got = [x for x in (m.classes_named(name) if hasattr(m, 'classes_named') else [y for y in m.all_classes() if y.name == name])
               if not x.module.name.endswith(('htm', 'tex'))]
        if any(k.issub(x) for x in got):
            return r
    return None


def order(c, m, k):
    lily = lambda n: m.cls('dom.lily.' + n)
    need = []
    if k.issub(lily('Pitchable')) and k is not lily('Pitchable'):
        need += ['Octave', 'Accidental', 'OctCheck']
    if k.issub(lily('Durable')) and k not in (lily('Durable'), lily('RestType')) or k.name in ('Tempo', 'Tuplet'):
        need.append('Duration')
    if k.name in WITH_ARTICULATIONS:
        need.append('Articulations')
    f = k.lookup('child_order')[2]
    r = node_interp(m).run(f, cls=k)
    orders = []
    for e in r.events:
        if e.kind == 'yield':
            orders.append(e.args[0])
    if r.value is not None and not orders:
        for z in contents(r.value, r.state.heap):
            orders.append(z[1])
    if not orders:
        if need:
            c.ob('order', k.name, False, 'declares no place for {}'.format(', '.join(need)), k.where)
        return
    c.unit('class')
    for t in orders:
        if t.op != 'tuple':
            c.unknown('order', k.name, 'order is {}'.format(show(t)))
            continue
        ranks = []
        for x in t.args:
            rs = {rank(m, y) for y in flat(x) if y is not None} - {None}
            # (a list of alternatives with music in it is a place for music)
            ranks.append(max(rs) if 8 in rs else min(rs) if rs else None)
        known_ = [x for x in ranks if x is not None]
        ok = known_ == sorted(known_)
        c.ob('order', k.name, ok, 'declares its parts in another order than the language has', f.where)
    have = {y for t in orders for y in flat(t) if y is not None}
    for n in need:
        c.ob('order', '{} {}'.format(k.name, n), any(lily(n).issub(y) for y in have), 'declares no place for {}'.format(n), f.where)


# ------------------------------------------------------------------- the shapes

PARTS = {'octave': 'Octave', 'accidental': 'Accidental', 'oct_check': 'OctCheck'}
V, W = param('value'), param('scaling')
FRAC = 'ext:fractions.Fraction'


class Shape:
    """An element with parts, in a heap."""
    count = 0

    def __init__(self, m, k, parts):
        self.m, self.k, self.heap, self.types = m, k, {}, {}
        self.self = self.obj(k)
        self.parts = [self.part(p, sub) for p, sub in parts]
        self.heap[self.self, '[]'] = tuple(('one', o, ()) for o in self.parts)

    def obj(self, k):
        Shape.count += 1
        t = mk('new', mk('cls', k), 900000 + Shape.count % 1000)
        self.types[t] = k
        self.heap[t, '[]'] = ()
        return t

    def part(self, k, sub=()):
        o = self.obj(k)
        self.heap[o, '_head'] = HEADS.get(k.name, param('head of ' + k.name))
        self.heap[o, '[]'] = tuple(('one', self.part(x), ()) for x in sub)
        return o

    def run(self, f, args=(), facts=()):
        I = node_interp(self.m, trace_states=True)
        I.types.update(self.types)
        I.fresh_lists = True
        return I.run(f, self_term=self.self, cls=self.k, args=args, heap=self.heap, facts=facts)


HEADS = {'Octave': const(3), 'OctCheck': const(4), 'Accidental': const('forced')}


def tree(m, t, heap, facts):
    """(class, head, children, object) of the element t; None if it can't be told."""
    if t.op != 'new' or t.args[0].op != 'cls':
        return None
    segs = heap.get((t, '[]'), ())
    if not all(s[0] == 'one' and not s[-1] for s in segs):
        return None
    h = heap.get((t, '_head'))
    if h is not None:
        vs = {x for x, lits in leaves(h) if consistent(facts, lits)}
        h = vs.pop() if len(vs) == 1 else h
    return t.args[0].args[0], h, [tree(m, s[1], heap, facts) for s in segs], t


def outcomes(r):
    """The states in which the function ends."""
    return [(st, v) for st, v in r.returns if not st.dead]


def value_ok(t, want):
    """Whether t is the value, possibly converted to a fraction."""
    if t is want:
        return True
    if t is None:
        return False
    if t.op == 'call' and any(y is want for y in subterms(t)):
        return not [y for y in subterms(t) if y.op in ('bin', 'neg', 'unary')]
    if t.op == 'ite':
        x = t.args[0]
        if x.op == 'cmp' and x.args[0] == '==' and t.args[1] in x.args[1:]:
            # equal in that case
            other = x.args[2] if x.args[1] is t.args[1] else x.args[1]
            return (value_ok(other, want) or value_ok(t.args[1], want)) and value_ok(t.args[2], want)
        return value_ok(t.args[1], want) and value_ok(t.args[2], want)
    return t.op == 'const' and want.op == 'const' and t.args[0] == want.args[0]


def same(got, want):
    """Whether the children are those wanted: [(class name, head, children)]."""
    if len(got) != len(want):
        return 'has {} instead of {}'.format(names(got), ', '.join(w[0] for w in want) or 'nothing')
    for g, w in zip(got, want):
        if g is None:
            return None
        if g[0].name != w[0]:
            return 'has {} instead of {}'.format(names(got), ', '.join(w[0] for w in want))
        if g[0].name != 'Articulations' and w[1] is not None and not value_ok(g[1], w[1]):
            return 'has the {} {}'.format(g[0].name, show(g[1]) if g[1] is not None else None)
        x = same(g[2], w[2])
        if x != '':
            return x
    return ''


def names(got):
    return ', '.join('something' if g is None else g[0].name for g in got) or 'nothing'


# ------------------------------------------------------------- the insertion

def parts_of(m, k):
    """The parts an element of class k can have in notes, in order."""
    lily = lambda n: m.cls('dom.lily.' + n)
    out = []
    if k.issub(lily('Chord')):
        out.append('ChordBody')
    if k.issub(lily('LyricItem')):
        out.append('String')
    if k.issub(lily('Pitchable')):
        out += ['Octave', 'Accidental', 'OctCheck']
    if k.issub(lily('HandleDuration')):
        out.append('Duration')
    if k.issub(lily('PitchedRest')):
        out.append('RestModifier')
    if k.name in WITH_ARTICULATIONS:
        out.append('Articulations')
    return out


def elements(m):
    lily = lambda n: m.cls('dom.lily.' + n)
    for k in sorted(m.all_classes(), key=lambda k: k.name):
        if k.module.name.endswith('lily') and (k.issub(lily('Durable')) or k.issub(lily('Pitchable'))) \
                and k.name not in ('Durable', 'Pitchable', 'RestType'):
            yield k


def add(c, m):
    f = m.cls('dom.element.Element').lookup('add')[2]
    for k in elements(m):
        parts = parts_of(m, k)
        kinds = [m.cls('dom.lily.' + n) for n in parts]
        for new in kinds:
            rest = [x for x in kinds if x is not new]
            for n in range(len(rest) + 1):
                for have in combinations(rest, n):
                    if n not in (0, 1, len(rest) - 1, len(rest)) and k.name not in ('Note', 'PitchedRest'):
                        continue
                    sh = Shape(m, k, [(x, ()) for x in have])
                    o = sh.part(new)
                    g = k.lookup('add')[2]
                    r = sh.run(g, args=(o,))
                    c.unit('shape')
                    what = '{} with {} add {}'.format(k.name, ', '.join(x.name for x in have) or 'nothing', new.name)
                    want = [(x.name, None, []) for x in kinds if x in have or x is new]
                    judge(c, 'add', what, m, sh, r, want, g.where)


def judge(c, rule, what, m, sh, r, want, where):
    """The children must be those wanted in the end."""
    outs = outcomes(r)
    if not outs:
        c.ob(rule, what, False, 'raises an error', where)
        return
    for st, v in outs:
        segs = st.heap.get((sh.self, '[]'), ())
        if not all(s[0] == 'one' and not s[-1] for s in segs):
            c.unknown(rule, what, 'children are not known: {}'.format(', '.join(show(s[1]) for s in segs)))
            continue
        x = same([tree(m, s[1], st.heap, st.facts) for s in segs], want)
        if x is None:
            c.unknown(rule, what, 'children are not known')
        else:
            c.ob(rule, what, not x, x, where)


# ------------------------------------------------------------- the properties

def shapes(m, k, part, scaled=False):
    """The parts present: with and without the part, with and without all others."""
    kinds = [m.cls('dom.lily.' + n) for n in parts_of(m, k)]
    for there in (True, False):
        for others in (True, False):
            yield there, [(x, ()) for x in kinds if x.name == part and there or x.name != part and others]


def want_of(parts, sub=None):
    return [(x.name, HEADS.get(x.name, param('head of ' + x.name)), [('DurationScaling', param('head of DurationScaling'), [])] if sub and x.name == 'Duration' else [])
            for x, _ in parts]


def changed(want, part, value, m, k):
    """The parts with one of them set to value, None to remove it."""
    order_ = parts_of(m, k)
    out = [w for w in want if w[0] != part]
    old = [w for w in want if w[0] == part]
    if value is not None:
        i = len([w for w in out if order_.index(w[0]) < order_.index(part)])
        out.insert(i, (part, value, old[0][2] if old else []))
    return out


def values(name):
    """(value, facts, what the part must have as head)"""
    if name == 'octave':
        return [(const(0), (), None), (const(1), (), const(1)), (const(-2), (), const(-2))]
    if name == 'accidental':
        return [(NONE, (), None), (const('cautionary'), (), const('cautionary')), (const('forced'), (), const('forced'))]
    if name == 'oct_check':
        return [(NONE, (), None), (const(0), (), const(0)), (const(-1), (), const(-1))]
    return [(NONE, (), None)] + [(V, given(V, frac), V) for frac in (True, False)]


def given(v, frac, head='Duration'):
    """Facts about a number that is not None, 0 or 1 or the current value."""
    h = param('head of ' + head)
    out = [(mk('cmp', 'is', *sorted((v, NONE), key=id)), False), (mk('cmp', 'is', v, NONE), False), (mk('cmp', 'is', NONE, v), False), (truth(v), True),
           (mk('isinstance', v, (FRAC,)), frac), (mk('isinstance', v, ('Element',)), False)]
    for x in (h, const(1), const(0), NONE):
        out += [(mk('cmp', '==', v, x), False), (mk('cmp', '==', x, v), False)]
    return out


def properties(c, m):
    element = m.cls('dom.element.Element')
    for k in elements(m):
        for name in ('octave', 'accidental', 'oct_check', 'duration'):
            part = PARTS.get(name, 'Duration')
            if part not in parts_of(m, k):
                continue
            setter, deleter, getter = k.lookup_setter(name), k.lookup_deleter(name), k.lookup(name)
            if setter is None or deleter is None or getter is None:
                c.ob('property', '{}.{}'.format(k.name, name), False, 'can not be set and deleted', k.where)
                continue
            for there, parts in shapes(m, k, part):
                said = '{} {}'.format('present' if there else 'absent', 'with others' if len(parts) > there else 'alone')
                for v, facts, head in values(name):
                    facts = [(a, b) for a, b in facts if not (a.op == 'isinstance' and a.args[1] == ('Element',))] + [
                        (mk('isinstance', V, (element,)), False)] if facts else []
                    sh = Shape(m, k, parts)
                    r = sh.run(setter, (v,), facts)
                    c.unit('shape')
                    judge(c, 'property', '{}.{} = {}, {}'.format(k.name, name, show(v), said), m, sh, r,
                          changed(want_of(parts), part, head, m, k), setter.where)
                sh = Shape(m, k, parts)
                r = sh.run(deleter)
                judge(c, 'property', 'del {}.{}, {}'.format(k.name, name, said), m, sh, r, changed(want_of(parts), part, None, m, k), deleter.where)
                sh = Shape(m, k, parts)
                r = sh.run(getter[2])
                want = (HEADS.get(part, param('head of ' + part)) if there else ZERO if name == 'octave' else NONE)
                vals = {t for st, v in outcomes(r) for t, lits in leaves(v) if consistent(st.facts, lits)}
                c.ob('property', 'get {}.{}, {}'.format(k.name, name, said), vals == {want}, 'is {}'.format(', '.join(show(t) for t in vals)), getter[2].where)


def scaled(c, m):
    """The scaling, and duration and scaling together."""
    D, S = m.cls('dom.lily.Duration'), m.cls('dom.lily.DurationScaling')
    element = m.cls('dom.element.Element')
    hd, hs = param('head of Duration'), param('head of DurationScaling')
    for k in (m.cls('dom.lily.Note'), m.cls('dom.lily.Rest'), m.cls('dom.lily.Tuplet')):
        kinds = [m.cls('dom.lily.' + n) for n in parts_of(m, k)]
        for dur, sca, others in ((1, 1, 1), (1, 1, 0), (1, 0, 1), (1, 0, 0), (0, 0, 1), (0, 0, 0)):
            parts = [(x, (S,) if sca and x is D else ()) for x in kinds if (dur if x is D else others)]
            base = [(x.name, HEADS.get(x.name, param('head of ' + x.name)), [('DurationScaling', hs, [])] if sub else []) for x, sub in parts]

            def with_scaling(w, s):
                return [(n, h, ([('DurationScaling', s, [])] if s is not None else []) if n == 'Duration' else ch) for n, h, ch in w]
            said = '{}{}'.format('scaled ' if sca else 'duration ' if dur else 'no duration ', 'with others' if others else 'alone')

            def facts_for(frac):
                out = given(V, frac) + given(W, frac, 'DurationScaling')
                return [x for x in out if not (x[0].op == 'isinstance' and x[0].args[1] == ('Element',))] + [
                    (mk('isinstance', V, (element,)), False), (mk('isinstance', W, (element,)), False)]
            f = k.lookup_setter('scaling')
            for v, frac in ((NONE, None), (const(1), None), (W, True), (W, False)):
                sh = Shape(m, k, parts)
                r = sh.run(f, (v,), facts_for(frac) if v is W else ())
                c.unit('shape')
                what = '{}.scaling = {}, {}'.format(k.name, show(v), said)
                if v is W and not dur:
                    c.ob('property', what, not outcomes(r) and bool(r.raises), 'is silently ignored', f.where)
                else:
                    judge(c, 'property', what, m, sh, r, with_scaling(base, W if v is W else None) if dur else base, f.where)
            f = k.lookup_deleter('scaling')
            sh = Shape(m, k, parts)
            judge(c, 'property', 'del {}.scaling, {}'.format(k.name, said), m, sh, sh.run(f), with_scaling(base, None), f.where)
            f = k.lookup_setter('duration_scaling')
            for v, frac, s in ((NONE, None, None), (mk('tuple', V, W), True, W), (mk('tuple', V, W), False, W), (mk('tuple', V, const(1)), True, None)):
                sh = Shape(m, k, parts)
                r = sh.run(f, (v,), facts_for(frac) if v is not NONE else ())
                c.unit('shape')
                want = changed(base, 'Duration', None if v is NONE else V, m, k)
                judge(c, 'property', '{}.duration_scaling = {}, {}'.format(k.name, show(v), said), m, sh, r, with_scaling(want, s), f.where)
            f = k.lookup_deleter('duration_scaling')
            sh = Shape(m, k, parts)
            judge(c, 'property', 'del {}.duration_scaling, {}'.format(k.name, said), m, sh, sh.run(f), changed(base, 'Duration', None, m, k), f.where)
            f = k.lookup('duration_scaling')[2]
            r = Shape(m, k, parts).run(f)
            vals = {t for st, v in outcomes(r) for t, lits in leaves(v) if consistent(st.facts, lits)}
            ok = vals == {NONE} if not dur else len(vals) == 1 and all(
                t.op == 'tuple' and len(t.args) == 2 and t.args[0] is hd and (any(y is hs for y in subterms(t.args[1])) if sca else t.args[1] is const(1)) for t in vals)
            c.ob('property', 'get {}.duration_scaling, {}'.format(k.name, said), ok, 'is {}'.format(', '.join(show(t) for t in vals)), f.where)
            f = k.lookup('scaling')[2]
            r = Shape(m, k, parts).run(f)
            vals = {t for st, v in outcomes(r) for t, lits in leaves(v) if consistent(st.facts, lits)}
            ok = vals == {NONE} if not dur else any(y is hs for t in vals for y in subterms(t)) if sca else vals == {const(1)}
            c.ob('property', 'get {}.scaling, {}'.format(k.name, said), ok, 'is {}'.format(', '.join(show(t) for t in vals)), f.where)
