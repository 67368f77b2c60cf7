"""R01: rhythm operations keep explicit what the music needs to be explicit.

One step of every operation (the processing of one durable element) is interpreted for
each combination of: the element has a duration or not, its duration sets the previous
duration or not, a previous duration is known or not, both are equal or not, the duration
may be removed or not, same line or not. What is written and what is remembered is
compared with what the music means; by induction the meaning of a whole line is kept.
"""
from itertools import product

from ..lib import *

TECHNIQUE = ('Interpretation of one step of each rhythm operation per scenario of the durations involved, compared with the meaning of '
             'durations in the music (an inductive invariant over the elements); scenario analysis of may_remove(), durables() and '
             'previous_duration().')
NOTE = 'The element after the end of a selection is not looked at when the operation is meant to change durations (remove, paste, transform).'

FLAGS = {'duration', 'scaling', 'duration_scaling', 'duration_required', 'duration_sets_previous'}
OPQ = FLAGS | {'may_remove', 'find_block', 'previous_duration', 'add', 'durables', 'nodes', 'copy', 'from_duration', 'document'}
SCEN = ('has', 'sets', 'known', 'equal', 'length', 'removable', 'line', 'block', 'pasted')


def check(c):
    m = c.model
    base = m.cls('rhythm.EditRhythm')
    for name, spec in (('RhythmExplicit', explicit), ('RhythmImplicit', implicit), ('RhythmImplicitPerLine', per_line), ('Remove', remove)):
        c.guard('step', name, lambda: process(c, m, m.cls('rhythm.' + name), spec))
    for name, spec in (('CopyRhythm', copy), ('PasteRhythm', paste)):
        c.guard('step', name, lambda: loop(c, m, m.cls('rhythm.' + name), spec))
    c.guard('chain', 'EditRhythm', lambda: chain(c, m, base))
    c.guard('scaling', 'RemoveFractionScaling', lambda: scaling(c, m))
    c.guard('transform', 'RhythmTransform', lambda: transform(c, m))
    c.guard('remove', 'may_remove', lambda: may_remove(c, m, base))
    c.guard('durables', 'durables', lambda: durables(c, m, base))
    c.guard('previous', 'previous_duration', lambda: previous(c, m))
    c.guard('kinds', 'Durable', lambda: kinds(c, m))
    for rule, n in (('step', 30), ('chain', 1), ('remove', 5), ('durables', 4), ('previous', 3), ('kinds', 5)):
        c.floor(rule, n)


# ---------------------------------------------------------------------- terms

class Step:
    """What the terms mean in one step of an operation."""
    def __init__(self, m, node, prev, heap=None, pasted=None):
        self.m, self.node, self.prev, self.heap, self.pasted = m, node, prev, heap, pasted
        self.Duration = m.cls('dom.lily.Duration')
        self.loops = {}

    def duration_child(self, t):
        """Whether t is node / Duration."""
        if t.op == 'bin' and t.args[0] == '/' and t.args[1] is self.node:
            return any(y.op == 'cls' and y.args[0] is self.Duration for y in subterms(t.args[2]))
        if t.op == 'call' and callee_name(t.args[0]) in ('_get_predicate_iterator', 'instances_of_children') and callee_base(t.args[0]) is self.node:
            return any(isinstance(a, T) and any(y.op == 'cls' and y.args[0] is self.Duration for y in subterms(a)) for a in t.args[1])
        return False

    def own(self, t):
        """'full' for the duration with scaling, 'part' for another thing of it."""
        if t.op == 'attr' and t.args[0] is self.node and t.args[1] in ('duration', 'scaling', 'duration_scaling'):
            return 'full' if t.args[1] == 'duration_scaling' else 'part'
        if t.op in ('elem', 'next', 'firstof') and any(isinstance(a, T) and self.duration_child(a) for a in t.args):
            return 'full'
        return None

    def tags(self, t, depth=0):
        """Where a duration comes from."""
        out = set()
        todo = [t]
        seen = set()
        while todo:
            x = todo.pop()
            if not isinstance(x, T) or x in seen:
                if isinstance(x, (tuple, frozenset)):
                    todo.extend(x)
                continue
            seen.add(x)
            o = self.own(x)
            if o:
                out.add('own' if o == 'full' else 'part')
            elif x is self.prev:
                out.add('prev')
            elif self.pasted is not None and x is self.pasted:
                out.add('pasted')
            elif x.op == 'mu' and self.prev is not None and self.prev.op == 'mu':
                out.add('prev' if x is self.prev else 'other')
            elif x.op == 'call' and callee_name(x.args[0]) == 'previous_duration':
                out.add('lookup' if x.args[1] and x.args[1][0] is self.node else 'other')
            elif x.op == 'call' and callee_name(x.args[0]) == 'find_block':
                out.add('block')
            elif x is NONE:
                out.add('none')
            elif x.op == 'new' and self.heap is not None:
                got = contents(x, self.heap)
                todo.extend(z[1] for z in got)
                todo.extend(x.args)
            else:
                todo.extend(x.args)
        return out

    def decide(self, a, s):
        """The truth of the atom a in the scenario s, None if it is not known."""
        if a.op == 'truth' and a.args[0].op == 'brk':
            a = a.args[0]
        if a.op == 'brk':
            # a loop over the duration that is left
            info = self.loops.get(a.args[0]) or {}
            return s['has'] if isinstance(info.get('key'), T) and self.duration_child(info['key']) else None
        if a.op == 'truth':
            return self.exists(a.args[0], s)
        if a.op == 'more':
            return s['has'] if any(isinstance(y, T) and self.duration_child(y) for y in subterms(a)) else None
        if a.op == 'cmp':
            op, x, y = a.args
            if op == 'is' and NONE in (x, y):
                v = self.exists(x if y is NONE else y, s)
                return None if v is None else not v
            if op == '==':
                if NONE in (x, y):
                    v = self.exists(x if y is NONE else y, s)
                    return None if v is None else not v
                return self.equal(x, y, s)
        if a.op == 'call' and callee_name(a.args[0]) == 'any' and a.args[1]:
            return self.exists(a, s)
        return None

    def equal(self, x, y, s):
        tx, ty = self.tags(x), self.tags(y)
        if 'prev' not in tx:
            x, y, tx, ty = y, x, ty, tx
        if tx != {'prev'}:
            return None
        part = self.part(y)
        if part is not None and ty == {'own'}:
            # durations that are not equal can have the length or the scaling in common
            return s['known'] and s['has'] and (s['equal'] or s['length'] is (part == 0))
        if ty == {'own'}:
            return s['known'] and s['has'] and s['equal']
        if ty == {'block'}:
            return s['known'] and s['line']
        if ty == {'part'} and part is not None:
            return s['known'] and s['has'] and (s['equal'] or s['length'] is (part == 0))
        if ty == {'own', 'block'}:
            return s['known'] and s['has'] and s['equal'] and s['line']
        return None

    def part(self, x):
        """0 for the length, 1 for the scaling of the duration of the element."""
        if x.op == 'attr' and x.args[0] is self.node and x.args[1] in ('duration', 'scaling'):
            return 0 if x.args[1] == 'duration' else 1
        if x.op in ('index', 'item') and self.own(x.args[0]) == 'full':
            k = x.args[1].args[0] if isinstance(x.args[1], T) and x.args[1].op == 'const' else x.args[1]
            return k if k in (0, 1) else None
        return None

    def exists(self, x, s):
        if x.op == 'attr' and x.args[0] is self.node and x.args[1] == 'duration_sets_previous':
            return s['sets']
        if self.own(x):
            return s['has']
        if x.op == 'call':
            n = callee_name(x.args[0])
            if n == 'may_remove':
                return s['removable'] if x.args[1] and x.args[1][-1] is self.node else None
            if n == 'find_block':
                return s['block']
            if n == 'any' and x.args[1] and self.duration_child(x.args[1][0]):
                return s['has']
        if x is self.prev:
            return s['known']
        if self.pasted is not None and x is self.pasted:
            return s['pasted']
        return None

    def atoms(self, t, out):
        """All conditions in the term t."""
        for y in subterms(t):
            if y.op == 'ite':
                self.conds(y.args[0], out)
            elif y.op == 'firstof':
                for z in y.args:
                    if isinstance(z, tuple):
                        for w in z:
                            if isinstance(w, tuple):
                                for q in w:
                                    if isinstance(q, tuple) and q and isinstance(q[0], T):
                                        self.conds(q[0], out)

    def conds(self, c, out):
        c = lit(c)[0]
        if c.op in ('and', 'or', 'not'):
            for x in c.args:
                self.conds(x, out)
        elif c.op == 'ite':
            for x in c.args:
                self.conds(x, out)
        else:
            out.add(c)


def scenarios(names):
    for vs in product((True, False), repeat=len(names)):
        s = dict.fromkeys(SCEN, True)
        s.update(zip(names, vs))
        if s['equal'] and not (s['known'] and s['has']) and 'equal' in names:
            continue
        if 'length' in names and not s['length'] and s['equal']:
            continue
        if s['line'] and not (s['known'] and s['block']) and 'line' in names:
            continue
        yield s


def said(s, names):
    words = dict(has=('its own duration', 'no duration'), sets=('sets previous', 'does not set previous'), known=('previous known', 'nothing before'),
                 equal=('equal', 'other duration'), length=('equal length', 'equal scaling'), removable=('removable', 'not removable'), line=('same line', 'new line'),
                 block=('document', 'no document'), pasted=('a duration to paste', 'None to paste'))
    return ', '.join(words[n][0 if s[n] else 1] for n in names)


class Outcome:
    """What is done in a scenario."""
    def __init__(self, step, events, value, heap):
        self.removed, self.set, self.other = [], [], []
        node = step.node
        step.heap = heap
        for e in events:
            k, a = e.kind, e.args
            if k == 'delattr' and a[0] is node:
                (self.removed if a[1] in ('duration', 'duration_scaling') else self.other).append((e, a[1]))
            elif k in ('store', 'setprop') and a[0] is node and a[1] in FLAGS:
                if a[2] is NONE:
                    self.removed.append((e, a[1]))
                elif a[1] == 'duration_scaling':
                    self.set.append((e, step.tags(a[2])))
                else:
                    self.other.append((e, a[1]))
            elif k == 'mutate' and a[0] is node:
                if a[1] == 'add':
                    step.heap = e.state.heap if e.state is not None else heap
                    tags = step.tags(a[2][0]) if a[2] else {'none'}
                    # a Duration node that is in the music already is not moved
                    x = a[2][0] if a[2] else NONE
                    if not any(y.op == 'call' and callee_name(y.args[0]) == 'copy' or y.op == 'new' for y in subterms(x)):
                        tags = tags | {'moved'}
                    self.set.append((e, tags))
                elif a[1] == 'remove':
                    self.removed.append((e, a[1]))
                else:
                    self.other.append((e, a[1]))
        step.heap = heap
        self.value = value
        self.tags = [step.tags(t) for t in value] if value is not None else None


def facts_for(step, run, s, base=()):
    """The facts of the scenario, found by running until no new condition turns up."""
    facts = {}
    for _ in range(6):
        I, r, terms = run(list(base) + list(facts.items()))
        step.loops = I.loopinfo
        found = set()
        for e in r.events:
            for f in e.facts:
                step.conds(f, found)
        for t in terms:
            step.atoms(t, found)
        for info in I.mu.values():
            for t in info:
                step.atoms(t, found)
        new = {}
        step.heap = r.state.heap if r.state is not None else None
        for a in found:
            v = step.decide(a, s)
            if v is not None and a not in facts:
                new[a] = v
        if not new:
            break
        facts.update(new)
    return I, r, terms, facts


def decided(step, I, r, terms, s):
    step.loops = I.loopinfo
    found = set()
    for e in r.events:
        for f in e.facts:
            step.conds(f, found)
    for t in list(terms) + [x for v in I.mu.values() for x in v]:
        step.atoms(t, found)
    step.heap = r.state.heap if r.state is not None else None
    facts = {a: step.decide(a, s) for a in found}
    return {a: v for a, v in facts.items() if v is not None}


def possible(t, facts):
    """The values t can have."""
    return [x for x, lits in leaves(t) if consistent(facts, lits)]


def process(c, m, cls, spec):
    f = cls.lookup('process')[2]
    self_, node, prev = (param(x) for x in f.params()[:3])
    names = spec.__defaults__[0]

    def run(facts):
        I = node_interp(m, opaque=OPQ, trace_states=True)
        r = I.run(f, cls=cls, facts=facts)
        return I, r, [r.value] if r.value is not None else []
    for s in scenarios(names):
        step = Step(m, node, prev)
        I, r, terms, facts = facts_for(step, run, s)
        c.unit('scenario')
        what = '{}: {}'.format(cls.name, said(s, names))
        if not r.returns:
            c.ob('step', what, False, 'raises an error', f.where)
            continue
        out = Outcome(step, r.events, possible(r.value, facts), r.state.heap)
        for ok, why in spec(s, out):
            c.ob('step', what, ok, why, f.where)


def loop(c, m, cls, spec):
    """Operations that have their own loop over the elements."""
    f = cls.lookup('edit_range')[2]
    names = spec.__defaults__[0]
    for explicit_ in (True, False) if cls.name == 'CopyRhythm' else (None,):
        def run(facts):
            I = node_interp(m, opaque=OPQ, trace_states=True)
            if explicit_ is not None:
                facts = list(facts) + [(truth(mk('attr', param('self'), 'explicit')), explicit_)]
            r = I.run(f, cls=cls, facts=facts)
            return I, r, [r.value] if r.value is not None else []
        I, r, terms = run([])
        got = [(l, i) for l, i in I.loopinfo.items() if isinstance(i['key'], T) and any(
            y.op == 'call' and callee_name(y.args[0]) == 'durables' for y in subterms(i['key']))]
        seen = set()
        for lid, info in got:
            key = info['key']
            if key in seen:
                continue
            seen.add(key)
            node, pasted = items(key)
            mus = [t for t in I.mu if t.args[0] == lid and t.args[1] not in ('$',)]
            if explicit_ is False:
                mus = []
            prevs = [t for t in mus if I.mu[t][0] is NONE] or [None]
            for prev in prevs:
                for s in scenarios(names):
                    step = Step(m, node, prev, pasted=pasted)
                    # (not interpreted with the facts: they hold in one iteration only)
                    facts = decided(step, I, r, terms, s)
                    c.unit('scenario')
                    what = '{}{}: {}'.format(cls.name, '' if explicit_ is None else ' explicit' if explicit_ else '', said(s, names))
                    nxt = possible(I.mu[prev][1], facts) if prev is not None else None
                    out = Outcome(step, [e for e in r.events if any(I.loopinfo[l]['key'] is key for l in e.loops if l in I.loopinfo)
                                         and consistent(facts, e.facts)], nxt, r.state.heap)
                    out.given = given(step, I, r, facts, node, s)
                    for ok, why in spec(s, out, explicit=explicit_):
                        c.ob('step', what, ok, why, f.where)
        c.ob('step', cls.name + ' loop', bool(seen), 'does not visit all elements with a duration', f.where)


def items(key):
    """(node, other) of a loop over key, where key may be a zip."""
    e = mk('elem', key, '')
    if key.op == 'lazy' and key.args[0] == 'zip':
        a, b = key.args[1][:2]
        return mk('elem', a, ''), mk('elem', b, '')
    return e, None


def given(step, I, r, facts, node, s):
    """The values yielded or listed."""
    out = []
    for e in r.events:
        if e.kind == 'yield' and consistent(facts, e.facts):
            out += possible(e.args[0], {**e.facts, **facts})
    if r.value is not None:
        for t in possible(r.value, facts):
            if t.op in ('new', 'lazy', 'gen', 'call'):
                for z in contents(t, r.state.heap):
                    found = set()
                    for k, v in z[2]:
                        step.conds(k, found)
                    known_ = {a: step.decide(a, s) for a in found}
                    if consistent({**facts, **{a: v for a, v in known_.items() if v is not None}}, z[2]):
                        out += possible(z[1], facts)
    return [(t, step.tags(t)) for t in out]


# ------------------------------------------------------- what a step should do

def remembers(s, out):
    """What must be remembered for the next element."""
    if out.tags is None:
        return
    for t in out.tags:
        t = t - {'block', 'other'} | (t & {'other'})
        if s['has'] and s['sets']:
            ok = t == {'own'} or t <= {'prev'} and s['equal'] and s['known']
            yield ok, 'does not remember the duration of the element'
        elif s['has']:
            yield t <= {'prev', 'none'} and bool(t) or t == {'own'} and s['equal'] and s['known'], 'remembers a duration that is not the previous duration'
        elif s['known']:
            yield t == {'prev'}, 'does not remember the previous duration'
        else:
            yield t <= {'prev', 'none', 'lookup'} and bool(t), 'remembers a duration that is not the previous duration'


def only(s, out, removed=False, added=False):
    yield bool(out.removed) is removed, 'removes the duration' if not removed else 'does not remove the duration'
    yield bool(out.set) is added, 'sets the duration' if not added else 'does not set the duration'
    yield not out.other, 'changes ' + ', '.join(str(x) for e, x in out.other)


def explicit(s, out, names=('has', 'sets', 'known', 'equal', 'length')):
    yield from only(s, out, added=not s['has'])
    for e, t in out.set:
        yield t <= ({'prev'} if s['known'] else {'lookup'}) and bool(t), 'sets another duration than the previous one'
    yield from remembers(s, out)


def implicit(s, out, names=('has', 'sets', 'known', 'equal', 'length', 'removable')):
    yield from only(s, out, removed=s['has'] and s['known'] and s['equal'] and s['removable'])
    yield from remembers(s, out)


def per_line(s, out, names=('has', 'sets', 'known', 'equal', 'length', 'removable', 'line', 'block')):
    add = not s['has'] and s['known'] and s['block'] and not s['line']
    if s['block']:
        yield from only(s, out, removed=s['has'] and s['known'] and s['equal'] and s['removable'] and s['line'], added=add)
    else:
        # without a document all is on one line
        yield not (out.removed and not (s['has'] and s['known'] and s['equal'] and s['removable'])), 'removes the duration'
        yield not out.set, 'sets the duration'
    for e, t in out.set:
        yield t == {'prev'}, 'sets another duration than the previous one'
    yield from remembers(s, out)


def remove(s, out, names=('has', 'sets', 'known', 'removable')):
    if s['has']:
        yield from only(s, out, removed=s['removable'])
    else:
        yield not out.set and not out.other, 'sets a duration'


def copy(s, out, names=('has', 'sets', 'known', 'equal', 'length'), explicit=None):
    yield not (out.set or out.removed or out.other), 'changes the music'
    yield bool(out.given), 'returns nothing'
    for x, t in out.given:
        if s['has']:
            yield t == {'own'} and x.op == 'attr' or t == {'own'}, 'does not return the duration of the element'
        elif not explicit:
            yield t <= {'own', 'none'}, 'returns a duration for an element that has none'
        else:
            yield t == ({'prev'} if s['known'] else {'lookup'}), 'does not return the previous duration'
    if explicit:
        yield from remembers(s, out)


def paste(s, out, names=('pasted', 'sets', 'known', 'removable'), explicit=None):
    if s['pasted']:
        yield from only(s, out, added=True)
        for e, t in out.set:
            yield t == {'pasted'}, 'does not set the duration to paste'
    else:
        yield from only(s, out, removed=s['removable'], added=s['known'] and not s['removable'])
        for e, t in out.set:
            yield t == {'prev'}, 'sets another duration than the previous one'
    for t in out.tags or ():
        if s['pasted'] and s['sets']:
            yield t == {'pasted'}, 'does not remember the pasted duration'
        elif s['pasted']:
            yield t == {'prev'}, 'remembers a duration that is not the previous duration'
        else:
            yield t <= {'prev', 'own'} and bool(t), 'does not remember the previous duration'


# -------------------------------------------------------------------- the rest

def chain(c, m, base):
    """Each step gets what the step before returned."""
    f = base.lookup('edit_range')[2]
    I = node_interp(m, opaque=OPQ | {'process'}, trace_states=True)
    r = I.run(f, cls=base)
    calls = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'process']
    c.ob('chain', 'EditRhythm.edit_range', bool(calls), 'does not process the elements', f.where)
    for e in calls:
        args = dict(zip(('node', 'prev'), e.args[1]))
        args.update(dict(e.args[2]))
        node, prev = args.get('node'), args.get('prev')
        key = node.args[0] if node is not None and node.op == 'elem' else None
        c.ob('chain', 'EditRhythm.edit_range', key is not None and key.op == 'call' and callee_name(key.args[0]) == 'durables',
             'processes {}'.format(show(node) if node is not None else 'nothing'), e.where)
        ok = prev is not None and prev.op == 'mu' and I.mu[prev][0] is NONE and all(
            t.op == 'call' and callee_name(t.args[0]) == 'process' for t, _ in leaves(I.mu[prev][1]))
        c.ob('chain', 'EditRhythm.edit_range prev', ok, 'does not give what the previous step returned', e.where)


def scaling(c, m):
    cls = m.cls('rhythm.RemoveFractionScaling')
    f = cls.lookup('process')[2]
    node = param(f.params()[1])
    I = node_interp(m, opaque=OPQ, trace_states=True)
    r = I.run(f, cls=cls)
    s = mk('attr', node, 'scaling')
    dels = [e for e in r.events if e.kind == 'delattr' and e.args[0] is node]
    c.ob('scaling', cls.name, bool(dels) and all(e.args[1] == 'scaling' for e in dels), 'does not remove the scaling', f.where)
    for e in dels:
        facts = real_facts(e.facts)
        good = False
        for k, v in facts.items():
            if k.op == 'cmp' and k.args[0] == '==' and not v:
                x, y = k.args[1:]
                ints = [z for z in (x, y) if z.op == 'call' and callee_name(z.args[0]) in ('int', 'floor', 'round', 'trunc')]
                dens = [z for z in (x, y) if z.op == 'attr' and z.args[1] == 'denominator'] or [z for z in (x, y) if z.op == 'bin' and z.args[0] == '%']
                good = good or bool(ints or dens)
            if k.op == 'truth' and v and k.args[0].op == 'bin' and k.args[0].args[0] == '%':
                good = True
            if k.op == 'cmp' and k.args[0] in ('>', '<', '!=') and any(y.op == 'attr' and y.args[1] == 'denominator' for y in subterms(k)):
                good = True
            if k.op == 'truth' and not v and k.args[0].op == 'call' and callee_name(k.args[0].args[0]) == 'is_integer':
                good = True
        c.ob('scaling', cls.name + ' fraction', good, 'removes the scaling when it is no fraction', e.where)
    # the plain one
    cls = m.cls('rhythm.RemoveScaling')
    f = cls.lookup('process')[2]
    node = param(f.params()[1])
    r = node_interp(m, opaque=OPQ, trace_states=True).run(f, cls=cls)
    ch = [e for e in r.events if e.kind in ('delattr', 'store', 'setprop') and e.args[0] is node]
    c.ob('scaling', cls.name, bool(ch) and all(e.args[1] == 'scaling' for e in ch), 'does not only remove the scaling', f.where)


def transform(c, m):
    """Every duration is transformed once; \\tempo gets no scaling."""
    cls = m.cls('rhythm.RhythmTransform')
    f = cls.lookup('edit_range')[2]
    for tempo in (True, False):
        I = node_interp(m, opaque=OPQ, trace_states=True)
        r = I.run(f, cls=cls)
        keys = [i['key'] for i in I.loopinfo.values()]
        for key in {k for k in keys if isinstance(k, T)}:
            n = mk('elem', key, '')
            isa = {y for e in r.events for k in e.facts for y in subterms(k) if y.op == 'isinstance' and y.args[0] is n}
            cs = {a: a.args[1] if isinstance(a.args[1], (tuple, frozenset)) else (a.args[1],) for a in isa}
            k = m.cls('dom.lily.' + ('Tempo' if tempo else 'Note'))
            I2 = node_interp(m, opaque=OPQ, trace_states=True)
            q = I2.run(f, cls=cls, facts=[(a, any(isinstance(y, Class) and k.issub(y) for y in v)) for a, v in cs.items()])
            ws = [e for e in q.events if e.kind in ('store', 'setprop') and e.args[0] is n and e.args[1] in FLAGS]
            what = 'Tempo' if tempo else 'other elements'
            c.ob('transform', what, len(ws) == 1, 'sets the duration {} times'.format(len(ws)), f.where)
            for e in ws:
                want = 'duration' if tempo else 'duration_scaling'
                c.ob('transform', what + ' attribute', e.args[1] == want, 'sets the {}'.format(e.args[1]), e.where)
                v = e.args[2]
                calls = [y for y in subterms(v) if y.op == 'call' and callee_name(y.args[0]) in ('_transform', 'transform')]
                full = [y for y in calls if any(z.op == 'attr' and z.args[0] is n and z.args[1] == 'duration_scaling' for z in subterms(y))]
                c.ob('transform', what + ' value', bool(full) and (not tempo or v.op in ('index', 'item') and v.args[1] in (0, const(0))),
                     'sets {}'.format(show(v)), e.where)


def may_remove(c, m, base):
    f = base.lookup('may_remove')[2]
    node = param(f.params()[-1])
    con = 'may_remove'

    def run(facts=()):
        I = node_interp(m, opaque=FLAGS | {'right_siblings', 'right_sibling', 'ancestors', 'tail', 'forward', 'is_root'}, trace_states=True)
        r = I.run(f, cls=base, facts=facts)
        return I, r

    def results(r):
        out = []
        for st, v in r.returns:
            for t, lits in leaves(v):
                if consistent(st.facts, lits):
                    out.append((t, {**st.facts, **dict(lits)}))
        return out
    I, r = run()
    req = truth(mk('attr', node, 'duration_required'))
    pool = set()
    for e in r.events:
        for k in e.facts:
            pool |= set(subterms(k))
    for st, v in r.returns:
        for k in st.facts:
            pool |= set(subterms(k))
        pool |= set(subterms(v))
    isa = {y for y in pool if y.op == 'isinstance'}

    def classes(a):
        return a.args[1] if isinstance(a.args[1], (tuple, frozenset)) else (a.args[1],)

    def kind(name):
        k = m.cls(name)
        return [(a, any(isinstance(y, Class) and k.issub(y) for y in classes(a))) for a in isa if a.args[0] is not node]
    arts = {y for y in pool if y.op in ('more', 'truth', 'choice') and any(
        z.op == 'cls' and z.args[0].name == 'Articulations' for z in subterms(y))}
    c.ob('remove', con + ' required', all(t is FALSE for t, _ in results(run([(req, True)])[1])), 'may remove a required duration', f.where)
    _, q = run([(req, False)])
    c.ob('remove', con + ' other', any(t is not FALSE for t, _ in results(q)), 'never removes a duration', f.where)
    # the elements that follow are those of which the type is checked
    heaps = [st.heap for st, v in r.returns]
    nexts = {a.args[0] for a in isa if a.args[0] is not node and not (a.args[0].op == 'attr' and a.args[0].args[1] == 'parent')}
    follow = [n for n in nexts if any(y.op == 'call' and callee_name(y.args[0]) in ('right_siblings', 'right_sibling', 'forward')
                                      for y in subterms(expand(n, I, heaps)))]
    if not follow:
        c.ob('remove', con + ' next', False, 'does not look at the next element', f.where)
        return

    def about(n, facts):
        """The results that are found looking at n, with the facts given."""
        facts = dict(facts)
        out = []
        for t, fs in results(r):
            if consistent(facts, fs) and (any(y is n for y in subterms(t)) or any(y is n for k in fs for y in subterms(lit(k)[0]))):
                got = t
                if t not in (TRUE, FALSE):
                    yes, no = (consistent({**fs, **facts}, [(lit(t)[0], lit(t)[1] is v)]) for v in (True, False))
                    got = TRUE if yes and not no else FALSE if no and not yes else t
                out.append(got)
        return out
    noart = [(req, False)] + [(a, False) for a in arts]
    for what, name in (('Unpitched', 'dom.lily.Unpitched'), ('empty LyricItem', 'dom.lily.LyricItem')):
        k = m.cls(name)
        found = []
        for n in follow:
            fs = noart + [(a, any(isinstance(y, Class) and k.issub(y) for y in classes(a))) for a in isa if a.args[0] is n]
            found += about(n, fs + [(truth(mk('attr', n, 'duration_required')), True)])
        c.unit('scenario')
        c.ob('remove', '{} before {}'.format(con, what), bool(found) and all(t is FALSE for t in found),
             'may remove a duration when the next one is that of {}'.format(what), f.where)
    # a comment or an enclosing element does not separate two durations
    k = m.cls('dom.lily.SinglelineComment')
    for n in follow:
        fs = noart + [(a, any(isinstance(y, Class) and k.issub(y) for y in classes(a))) for a in isa if a.args[0] is n]
        got = about(n, fs + [(truth(mk('attr', n, 'duration_required')), False)])
        c.ob('remove', con + ' comment', not got, 'does not look at what comes after a comment', f.where)
    k = m.cls('dom.lily.Note')
    found = []
    for n in follow:
        fs = noart + [(a, any(isinstance(y, Class) and k.issub(y) for y in classes(a))) for a in isa if a.args[0] is n]
        found += about(n, fs + [(truth(mk('attr', n, 'duration_required')), False)])
    c.ob('remove', con + ' before Note', all(t is TRUE for t in found), 'never removes the duration of an element before a note', f.where)
    ups = [n for n in follow if outward(expand(n, I, heaps))]
    c.ob('remove', con + ' last', len(ups) == len(follow), 'does not look at what comes after the enclosing element', f.where)


def expand(n, I, heaps=()):
    """n together with the values the variables in it can have, as one term."""
    seen, todo, built = [], [n], []
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y.op == 'mu' and y in I.mu and y not in seen:
                seen.append(y)
                todo.extend(v for v in I.mu[y] if isinstance(v, T))
            elif y.op == 'new' and y not in seen:
                seen.append(y)
                for h in heaps:
                    more = [z[1] for z in contents(y, h)]
                    built += more
                    todo.extend(more)
    return mk('tuple', n, *built, *[v for y in seen for v in I.mu.get(y, ()) if isinstance(v, T)])


def outward(t):
    return any(y.op == 'call' and callee_name(y.args[0]) in ('ancestors', 'forward', '_parent') or
               y.op == 'attr' and y.args[1] == 'parent' for y in subterms(t))


def durables(c, m, base):
    """Which elements are visited."""
    f = base.lookup('durables')[2]
    rng = param(f.params()[-1])
    lily = lambda n: m.cls('dom.lily.' + n)

    def run(facts=()):
        I = node_interp(m, opaque=FLAGS | {'nodes', 'parent'}, trace_states=True)
        return I, I.run(f, cls=base, facts=facts)
    I, r = run()
    con = 'durables'
    ys = [e for e in r.events if e.kind == 'yield']
    c.ob('durables', con, bool(ys), 'yields nothing', f.where)
    ns = {e.args[0] for e in ys}
    for n in ns:
        key = n.args[0] if n.op == 'elem' else None
        ok = key is not None and any(y.op == 'call' and callee_name(y.args[0]) == 'nodes' and callee_base(y.args[0]) is rng for y in subterms(key))
        c.ob('durables', con + ' all', ok, 'yields {}'.format(show(n)), f.where)
    if len(ns) != 1:
        return
    n, = ns
    pool = {y for e in r.events for k in e.facts for y in subterms(k)}
    isa = {y for y in pool if y.op == 'isinstance'}
    inner = {y for y in pool if y.op in ('more', 'truth', 'choice') and any(z.op == 'cls' and z.args[0].name == 'Duration' for z in subterms(y))
             or y.op == 'truth' and y.args[0].op == 'attr' and y.args[0].args[1] in ('duration', 'duration_scaling')
             or y.op == 'cmp' and y.args[0] == 'is' and y.args[1].op == 'attr' and y.args[1].args[1] in ('duration', 'duration_scaling')}

    def facts(k, parent, has):
        out = []
        for a in isa:
            cs = a.args[1] if isinstance(a.args[1], (tuple, frozenset)) else (a.args[1],)
            k2 = k if a.args[0] is n else parent
            if a.args[0] is not n and not (a.args[0].op == 'attr' and a.args[0].args[1] == 'parent'):
                if any(isinstance(y, Class) and y.name == 'Duration' for y in cs):
                    out.append((a, has))
                continue
            out.append((a, any(isinstance(y, Class) and k2.issub(y) for y in cs)))
        return out + [(y, has if y.op != 'cmp' else not has) for y in inner]
    notes = sorted((k for k in m.subclasses(lily('Durable')) if k.module.name.endswith('lily')), key=lambda k: k.name)
    for k in notes:
        for parent, has in ((lily('MusicList'), True), (lily('MusicList'), False), (lily('ChordBody'), False)):
            _, q = run(facts(k, parent, has))
            c.unit('scenario')
            got = len([e for e in q.events if e.kind == 'yield'])
            if parent.name == 'ChordBody':
                if k.name in ('Note', 'Drum'):
                    c.ob('durables', '{} in a chord'.format(k.name), got == 0, 'notes inside a chord are given a duration', f.where)
            elif k.issub(lily('Skip')) and not has:
                c.ob('durables', 'Skip with music', got == 0, 'a skip with music is given a duration', f.where)
            else:
                c.ob('durables', '{}{}'.format(k.name, ' with duration' if has else ''), got == 1, 'is yielded {} times'.format(got), f.where)
    _, q = run(facts(lily('Tempo'), lily('MusicList'), True))
    c.ob('durables', 'Tempo', not [e for e in q.events if e.kind == 'yield'], 'elements that are no music are visited', f.where)


def previous(c, m):
    """The previous duration is that of the last element that sets it."""
    f = m.func('dom.lily.previous_duration')
    node = param(f.params()[0])

    def run(facts=()):
        I = node_interp(m, opaque=FLAGS | {'backward'}, trace_states=True)
        return I, I.run(f, facts=facts)
    I, r = run()
    D = m.cls('dom.lily.Durable')
    loops = [(l, i) for l, i in I.loopinfo.items() if isinstance(i['key'], T) and any(y is node for y in subterms(i['key']))
             and not any(y.op == 'elem' for y in subterms(i['key']))]
    c.ob('previous', 'previous_duration', bool(loops), 'looks at no other elements', f.where)
    for lid, info in loops:
        key = info['key']
        back = any(y.op == 'call' and callee_name(y.args[0]) == 'backward' or y.op in ('cmp', 'bin') and y.args[0] == '<' and y.args[1] is node for y in subterms(key))
        c.ob('previous', 'previous_duration order', back, 'does not search backwards', f.where)
        n = mk('elem', key, '')
        sp = truth(mk('attr', n, 'duration_sets_previous'))
        for v in (True, False):
            J, q = run([(sp, v)])
            out = [(t, st.facts) for st, val in q.returns for t, lits in leaves(val) if consistent(st.facts, lits)]
            mine = [t for t, fs in out if any(y is n for y in subterms(t))]
            c.unit('scenario')
            if v:
                c.ob('previous', 'previous_duration of an element', bool(mine), 'does not return the duration of the preceding element', f.where)
            else:
                c.ob('previous', 'previous_duration of a skip', not mine, 'returns the duration of an element that does not set it', f.where)
        rest = [t for st, val in r.returns for t, lits in leaves(val) if not any(y is n for y in subterms(t))]
        for t in rest:
            ok = t.op == 'tuple' and len(t.args) == 2 and t.args[1] is const(1) and any(y.op in ('call', 'new', 'const') for y in subterms(t.args[0])) \
                and quarter(t.args[0])
            c.ob('previous', 'previous_duration default', ok, 'is {} when there is no previous duration'.format(show(t)), f.where)


def quarter(t):
    if t.op == 'call' and callee_name(t.args[0]) == 'Fraction' or t.op == 'call' and 'Fraction' in show(t.args[0]):
        a = [x.args[0] for x in t.args[1] if x.op == 'const']
        return a in ([1, 4], ['1/4'], [0.25])
    return t.op == 'const' and t.args[0] == 0.25


def kinds(c, m):
    """The kinds of elements of which the duration is special."""
    lily = lambda n: m.cls('dom.lily.' + n)
    for k in sorted(m.subclasses(lily('Durable')), key=lambda k: k.name):
        if not k.module.name.endswith('lily'):
            continue
        for attr, want in (('duration_sets_previous', k.name != 'Skip'), ('duration_required', True if k.name in ('Skip', 'Unpitched') else None)):
            got = k.lookup(attr)
            if want is None or got[1] != 'assign':
                continue
            try:
                v = m.literal(got[0].module, got[2], got[0])
            except ValueError:
                c.unknown('kinds', '{}.{}'.format(k.name, attr), 'not a constant')
                continue
            c.ob('kinds', '{}.{}'.format(k.name, attr), bool(v) is want, 'is {}'.format(v), k.where)
    f = lily('LyricItem').lookup('duration_required')[2]
    if hasattr(f, 'params'):
        r = node_interp(m).run(f, cls=lily('LyricItem'))
        c.ob('kinds', 'LyricItem.duration_required', r.value is not None and {t for t, _ in leaves(r.value)} != {FALSE}, 'is never required', f.where)
    else:
        c.ob('kinds', 'LyricItem.duration_required', False, 'is always {}'.format(f), lily('LyricItem').where)
