"""M05: note names are read and written in the language in force.

PitchProcessor.find_language() and follow_language() are interpreted for each
combination of the conditions in them. The operations are analysed with their closures
(qa/walks.py): where the language search starts, that everything is visited through
follow_language() and that nothing that can hold a language command is passed over.
"""
from itertools import product

from ..walks import *

TECHNIQUE = ('Symbolic interpretation of the language search per scenario of its conditions; provenance of every visited node and of the '
             'start of the search; coverage of language commands by dispatch on the exact element types and their signatures.')
NOTE = ('Languages set in included files other than the language definition files are not read by design. A language command '
        'inside markup inside a chord is not followed.')

OPQ = (OPAQUE - {'find_language', 'follow_language'}) | {'octave', 'oct_check', 'head', 'descendants', 'children', 'backward', 'language'}
USE = OPAQUE | {'octave', 'oct_check', 'head', 'descendants', 'children', 'start_node', 'skip_language'}


def check(c):
    m = c.model
    P = m.cls('pitch.PitchProcessor')
    c.guard('follow', 'find_language', lambda: search(c, m, P))
    c.guard('follow', 'follow_language', lambda: follow(c, m, P))
    c.guard('name', 'language', lambda: setter(c, m, P))
    c.guard('name', 'Language and Include', lambda: names(c, m))
    for name in ('relative.Rel2abs', 'relative.Abs2rel', 'transpose.Transpose'):
        cls = m.cls(name)
        for meth in ('edit_range', 'make_relative'):
            f = cls.lookup(meth)
            if f and f[0] is cls:
                Use(c, m, P, cls, f[2]).all()
    for rule, n in (('follow', 8), ('name', 6), ('use', 10), ('skip', 10), ('start', 3)):
        c.floor(rule, n)


def show_facts(facts):
    return ' and '.join('{}{}'.format('' if v else 'not ', show(k)) for k, v in facts.items())[:200]


def is_lang(t, n):
    return t.op == 'attr' and t.args[1] == 'language' and t.args[0] is n


def known_atoms(events, I, n):
    """(isinstance literals, membership literals) about the item n."""
    A, B = set(), set()
    pool = [f for e in events for f in e.facts] + [x for k in I.mu for x in I.mu[k]]
    for t in pool:
        for y in subterms(t):
            if y.op == 'isinstance' and y.args[0] is n:
                A.add(y)
            if y.op == 'cmp' and y.args[0] == 'in' and (is_lang(y.args[1], n) or y.args[1] is NONE) and table(y.args[2]):
                B.add(y)
    return A, B


def kinds(a):
    cs = a.args[1]
    return {k.name for k in (cs if isinstance(cs, (tuple, frozenset)) else (cs,)) if hasattr(k, 'name')}


def table(t):
    return any(y.op == 'global' and 'pitch_names' in [str(z) for z in y.args] for y in subterms(t)) or 'pitch_names' in show(t)


def sets(events, n):
    """Events that set the language."""
    return [e for e in events if e.kind in ('store', 'setprop') and e.args[0] is param('self') and e.args[1] in ('language', '_language')]


def loops_of(r, I, func):
    return [(l, i) for l, i in I.loopinfo.items() if isinstance(i['key'], T)]


def search(c, m, P):
    f = P.lookup('find_language')[2]
    con = 'find_language'

    def run(facts=()):
        I = node_interp(m, opaque=OPQ, trace_states=True)
        return I, I.run(f, cls=P, facts=facts)
    I, r = run()
    node = param(f.params()[1])
    ls = [(l, i) for l, i in loops_of(r, I, f) if any(e for e in sets(r.events, None) if l in e.loops)]
    c.ob('follow', con, bool(ls), 'no language is searched', f.where)
    for lid, info in ls:
        key = info['key']
        back = [y for y in subterms(key) if y.op == 'call' and callee_name(y.args[0]) == 'backward' and callee_base(y.args[0]) is node
                or y.op in ('cmp', 'bin') and y.args[0] == '<' and y.args[1] is node]
        c.ob('follow', con + ' order', bool(back), 'searches {} and not backwards from the node'.format(show(key)), f.where)
        n = mk('elem', key, '')
        A, B = known_atoms(r.events, I, n)
        c.ob('follow', con + ' known', bool(B) and all(table(b.args[2]) for b in B), 'a language that is not known is set', f.where)
        want = [k for a in A for k in kinds(a)] + [y.args[0].name for y in subterms(key) if y.op == 'cls']
        c.ob('follow', con + ' kinds', set(want) >= {'Language', 'Include'}, 'looks for {}'.format(', '.join(sorted(set(want))) or 'nothing'), f.where)
        for good in (True, False):
            facts = [(a, True) for a in A] + [(b, good) for b in B]
            J, q = run(facts)
            c.unit('scenario')
            st = sets(q.events, n)
            info2 = [i for l, i in J.loopinfo.items() if i['key'] is key]
            goes_on = bool(info2) and info2[0]['end'] is not None and not info2[0]['end'].dead
            if good:
                ok = bool(st) and all(is_lang(e.args[2], n) for e in st)
                c.ob('follow', con + ' set', ok, 'does not set the language that is found', f.where)
                c.ob('follow', con + ' nearest', not goes_on, 'an earlier language command is used instead of the nearest', f.where)
            else:
                c.ob('follow', con + ' unknown', not st, 'sets a language that is not known', f.where)
                c.ob('follow', con + ' unknown', goes_on, 'does not search further when a language is not known', f.where)
            bad = raised(q)
            c.ob('follow', con + ' error', not bad, 'raises {}'.format(', '.join(bad)), f.where)
        # a command that is no language command
        for a in A:
            J, q = run([(a, False)])
            c.ob('follow', con + ' kinds', not sets(q.events, n), 'sets the language from another element', f.where)


def raised(r):
    return sorted({x.args[0].name if hasattr(x.args[0], 'name') else show(x) for e in r.events if e.kind == 'raise' for x in e.args if isinstance(x, T)}
                  - {'StopIteration', 'AttributeError'})


def follow(c, m, P):
    f = P.lookup('follow_language')[2]
    con = 'follow_language'

    def run(facts=()):
        I = node_interp(m, opaque=OPQ, trace_states=True)
        return I, I.run(f, cls=P, facts=facts)
    I, r = run()
    nodes = param(f.params()[1])
    n = mk('elem', nodes, '')
    A, B = known_atoms(r.events, I, n)
    c.ob('follow', con + ' kinds', {k for a in A for k in kinds(a)} >= {'Language', 'Include'}, 'does not follow every language command', f.where)
    for name in ('Language', 'Include', 'Note'):
        k = m.cls('dom.lily.' + name)
        isa = [(a, any(isinstance(y, Class) and k.issub(y) for y in (a.args[1] if isinstance(a.args[1], (tuple, frozenset)) else (a.args[1],)))) for a in A]
        J, q = run(isa)
        _, B = known_atoms(q.events, J, n)
        la = name != 'Note'
        if la:
            c.ob('follow', con + ' known', bool(B) and all(table(b.args[2]) for b in B), 'a language that is not known is set', f.where)
        for good in (True, False) if la else (False,):
            J, q = run(isa + [(b, good and b.args[1] is not NONE) for b in B])
            c.unit('scenario')
            what = '{} {}'.format('known' if good else 'unknown', name)
            st = sets(q.events, n)
            if la and good:
                c.ob('follow', con + ' set', bool(st) and all(is_lang(e.args[2], n) for e in st), 'does not set the language', f.where)
                ends = [i['end'] for i in J.loopinfo.values() if i['key'] is nodes]
                c.ob('follow', con + ' rest', all(e is not None and not e.dead for e in ends), 'stops at a language command', f.where)
            else:
                c.ob('follow', con + ' unknown', not st, 'sets the language at an {}'.format(what), f.where)
                ys = [e for e in q.events if e.kind == 'yield' and e.args[0] is n or e.kind == 'yield_from' and e.args[0] is nodes]
                c.ob('follow', con + ' yield', len(ys) == 1, 'yields an {} {} times'.format(what, len(ys)), f.where)
            bad = raised(q)
            c.ob('follow', con + ' error', not bad, 'raises {}'.format(', '.join(bad)), f.where)


def setter(c, m, P):
    got = P.lookup_setter('language')
    f = got[1] if isinstance(got, tuple) else got
    if f is None:
        raise AnalysisBroken('setter of PitchProcessor.language not found')
    I = node_interp(m, trace_states=True)
    r = I.run(f, cls=P)
    v = param(f.params()[1])
    B = {y for e in r.events for k in e.facts for y in subterms(k) if y.op == 'cmp' and y.args[0] == 'in' and y.args[1] is v and table(y.args[2])}
    c.ob('name', 'language setter', bool(B), 'does not test whether a language is known', f.where)
    for good in (True, False):
        I = node_interp(m, trace_states=True)
        q = I.run(f, cls=P, facts=[(b, good) for b in B])
        st = [e for e in q.events if e.kind == 'store' and e.args[0] is param('self') and e.args[1] == '_language']
        if good:
            c.ob('name', 'language setter', bool(st) and all(e.args[2] is v for e in st), 'a known language is not set', f.where)
            c.ob('name', 'language setter', bool(q.returns), 'raises for a known language', f.where)
        else:
            c.ob('name', 'language setter', not q.returns and not st, 'an unknown language is set', f.where)


def names(c, m):
    """The language attributes of the commands."""
    for name in ('Language', 'Include'):
        k = m.cls('dom.lily.' + name)
        for attr in ('language',) if name == 'Language' else ('language', 'filename'):
            f = k.lookup(attr)[2]
            I = node_interp(m, opaque={'head'}, trace_states=True)
            r = I.run(f, cls=k)
            con = '{}.{}'.format(name, attr)
            vals = [(t, {**real_facts(st.facts), **dict(lits)}) for st, v in r.returns for t, lits in leaves(v) if consistent(st.facts, lits)]
            heads = [(t, lits) for t, lits in vals if t is not NONE]
            c.ob('name', con, bool(heads), 'is always None', f.where)
            for t, lits in heads:
                hd = [y for y in subterms(t) if y.op == 'attr' and y.args[1] == 'head' and y.args[0] is not param('self')]
                c.ob('name', con, bool(hd), 'is {} and not what the string says'.format(show(t)), f.where)
                if name == 'Include' and attr == 'language':
                    ok = t.op == 'slice' and t.args[0] in hd and t.args[2] is const(-3) and t.args[1] in (None, NONE, ZERO)
                    end = any(y.op == 'call' and callee_name(y.args[0]) == 'endswith' and const('.ly') in y.args[1] for f2 in lits for y in subterms(f2)
                              if lits[f2]) or any(y.op == 'slice' and y.args[1] is const(-3) for f2 in lits for y in subterms(f2))
                    rem = t.op == 'call' and callee_name(t.args[0]) == 'removesuffix'
                    c.ob('name', con, ok and end or rem, 'is {} when {}'.format(show(t), show_facts(lits)), f.where)
                elif t.op != 'attr':
                    c.ob('name', con, False, 'is {} and not what the string says'.format(show(t)), f.where)


class Use:
    """How an operation finds and follows the language."""
    def __init__(self, c, m, P, cls, f):
        self.c, self.m, self.P, self.cls, self.f = c, m, P, cls, f
        self.name = cls.name + '.' + f.name
        self.procs = procedures(m, cls, f, opaque=USE, trace_states=True)
        self.lily = lambda n: m.cls('dom.lily.' + n)

    def all(self):
        self.c.guard('start', self.name, self.start)
        self.c.guard('use', self.name, self.reads)
        self.c.guard('skip', self.name, self.skips)

    def calls(self, p, name):
        return [e for e in p.events if e.kind == 'call' and callee_name(e.args[0]) == name]

    # ------------------------------------------------------------------ start
    def start(self):
        c = self.c
        p = self.procs[0]
        finds = [(e, e.args[1][0] if e.args[1] else dict(e.args[2]).get('node')) for e in self.calls(p, 'find_language')]
        walks = [e for e in self.calls(p, 'follow_language')]
        c.ob('start', self.name, bool(finds), 'the language in force at the start is not looked for', self.f.where)
        for w in walks:
            a = w.args[1][0] if w.args[1] else dict(w.args[2]).get('nodes')
            if a is None or any(y.op in ('elem', 'mu', 'item', 'index', 'slice') for y in self.deep(a, w.state.heap)):
                continue    # inside something that is visited
            origin = self.origin(a, w.state.heap)
            c.unit('walk')
            before = [(e, s) for e, s in finds if e.seq < w.seq]
            c.ob('start', self.name, bool(before), 'music is visited before the language is looked for', w.where)
            for e, s in before:
                for t, lits in leaves(s):
                    if not consistent(e.facts, lits):
                        continue
                    ok = self.covers(origin, t, dict(lits))
                    if ok is None:
                        c.unknown('start', self.name, 'where the walk over {} starts'.format(show(a)))
                        continue
                    c.ob('start', self.name, ok, 'the language is looked for from {}, the music is visited from {}'.format(
                        show(t), 'the start of the range' if origin and origin[0] == 'range' else show(a)), e.where)
                base = callee_base(e.args[0]), callee_base(w.args[0])
                c.ob('start', self.name, base[0] is base[1], 'the language is looked for with another processor', e.where)
            # not looked for only at the root
            for e, s in before:
                here = real_facts(w.facts)
                for k, v in real_facts(e.facts).items():
                    if here.get(k) is not v:
                        c.ob('start', self.name, self.root(k, v, s), 'the language is not looked for when {}{}'.format('not ' if v else '', show(k)), w.where)

    def origin(self, a, heap):
        """('range', range) or ('node', node) where a walk starts."""
        for y in subterms(a):
            if y.op == 'call' and callee_base(y.args[0]) is param('r') and callee_name(y.args[0]) not in ('ancestor', 'start_node', 'is_full'):
                return 'range', param('r')
        for y in [a] + [z[1] for x in subterms(a) if x.op == 'new' for z in contents(x, heap)]:
            if y.op == 'tuple' and len(y.args) == 1:
                return 'node', y.args[0]
            if y.op in ('param', 'attr', 'call'):
                return 'node', y
        return None

    def covers(self, origin, s, lits):
        """Whether a search from s finds what is in force at the origin."""
        if origin is None:
            return None
        if origin[0] == 'node':
            return s is origin[1] or (False if any(y is origin[1] or y is param('r') for y in subterms(s)) else None)
        start = s.op == 'call' and callee_base(s.args[0]) is origin[1] and callee_name(s.args[0]) == 'start_node'
        if start:
            return True
        if s.op == 'call' and callee_base(s.args[0]) is origin[1] and callee_name(s.args[0]) == 'ancestor':
            # only when the range has no start
            return any(y.op == 'call' and callee_name(y.args[0]) == 'start_node' or y.op == 'attr' and y.args[1] == 'start_trail'
                       for k in lits for y in subterms(k))
        return None

    def root(self, k, v, s):
        """Whether the fact k only fails when s has nothing before it."""
        k, w = lit(k)
        v = v if w else not v
        k = k.args[0] if k.op == 'truth' else k
        if k.op == 'call' and callee_name(k.args[0]) == 'is_root':
            return not v and callee_base(k.args[0]) is s
        if k.op == 'attr' and k.args[1] == 'parent':
            return v and k.args[0] is s
        if k.op == 'cmp' and k.args[0] == 'is' and NONE in k.args[1:]:
            x = k.args[1] if k.args[2] is NONE else k.args[2]
            return not v and (x.op == 'attr' and x.args[1] == 'parent' and x.args[0] is s
                              or x.op == 'call' and callee_name(x.args[0]) == '_parent' and callee_base(x.args[0]) is s)
        return False

    # ------------------------------------------------------------------ use
    def reads(self):
        c = self.c
        for p in self.procs:
            for e in p.events:
                if e.kind == 'yield' and p.name != self.f.name and e.args[0].op == 'elem':
                    self.provenance(p, e, e.args[0])
                if e.kind != 'call' or callee_name(e.args[0]) not in ('read_node', 'process', 'write_node'):
                    continue
                x = e.args[1][0] if e.args[1] else None
                if x is None:
                    continue
                c.unit('note')
                heap = e.state.heap
                self.provenance(p, e, x)
                follows = {callee_base(y.args[0]) for y in self.deep(x, heap) if y.op == 'call' and callee_name(y.args[0]) == 'follow_language'}
                base = callee_base(e.args[0])
                c.ob('use', '{} {} processor'.format(self.cls.name, p.name), not follows or base in follows,
                     'the note is read with another processor than the one that follows the language', e.where)

    def provenance(self, p, e, x):
        bad = self.raw(x, e.facts, p)
        for l in e.loops:
            key = p.interp.loopinfo[l]['key'] if l in p.interp.loopinfo else None
            if isinstance(key, T):
                bad += [y for y in self.raw(mk('elem', key, ''), e.facts, p) if y not in bad]
        self.c.ob('use', '{} {}'.format(self.cls.name, p.name), not bad,
                  'the language is not followed when visiting ' + ', '.join(map(show, bad)), e.where)

    def deep(self, x, heap, seen=None, part=True):
        """All terms in x and in the lists in it; without those of which only a part is used if part is False."""
        seen = set() if seen is None else seen
        todo = [x]
        while todo:
            y = todo.pop()
            if not isinstance(y, T):
                if isinstance(y, (tuple, frozenset)):
                    todo.extend(y)
                continue
            if y in seen:
                continue
            seen.add(y)
            yield y
            if y.op == 'new':
                todo.extend(z[1] for z in contents(y, heap))
            elif part or y.op not in ('slice', 'index', 'item') or y.op == 'slice' and y.args[2] in (None, NONE):
                todo.extend(y.args)

    def raw(self, x, facts, p, depth=0):
        """The nodes that are visited without following the language to find x."""
        if depth > 8 or not isinstance(x, T):
            return []
        if x.op == 'from' or x.op != 'elem':
            return []
        K = x.args[0]
        if K.op == 'new':
            return []
        if K.op == 'elem':
            return self.inside(K, facts, p, x, depth)
        if K.op == 'call':
            name = callee_name(K.args[0])
            if name in ('follow_language', 'skip_language') or K.args[0].op == 'closure':
                return []
            base = callee_base(K.args[0])
            if name in ('children', 'descendants', 'instances_of', 'instances_of_children') and isinstance(base, T):
                return self.inside(base, facts, p, x, depth)
            inner = list(K.args[1])
            if K.args[0].op in ('builtin', 'func') and inner and isinstance(inner[-1], T):
                return self.raw(mk('elem', inner[-1], ''), facts, p, depth + 1) if not self.once(K, p) else []
            return []
        if K.op in ('bin', 'cmp'):
            return self.inside(K.args[1], facts, p, x, depth)
        return [] if self.once(K, p) else [K]

    def inside(self, n, facts, p, x, depth):
        """As raw() for x in the node n."""
        for k, v in facts.items():
            if k.op == 'isinstance' and v and k.args[0] is n:
                cs = k.args[1]
                cs = cs if isinstance(cs, (tuple, frozenset)) else (cs,)
                if all(isinstance(y, Class) and any(y.issub(self.lily(z)) for z in ('Chord', 'OctaveCheck', 'Pitchable')) for y in cs):
                    return self.raw(n, facts, p, depth + 1)
        return [] if self.once(x.args[0], p) else [n]

    def once(self, key, p):
        """Whether only the first item is used."""
        got = [i for i in p.interp.loopinfo.values() if i['key'] is key]
        if any(i['end'] is None or i['end'].dead for i in got):
            return True
        # the rest of a generator is used up in the loop
        return self.iterator(key) and any(e.kind == 'call' and e.args[0].op == 'closure' and any(a is key for a in e.args[1])
                           and any(p.interp.loopinfo[l]['key'] is key for l in e.loops if l in p.interp.loopinfo) for e in p.events)

    def iterator(self, t):
        if t.op in ('gen', 'lazy'):
            return True
        if t.op != 'call':
            return False
        g = t.args[0]
        if g.op == 'func':
            f = g.args[0]
            return f.is_generator or all(x.op in ('gen', 'lazy') for x, _ in leaves(node_interp(self.m).run(f).value))
        return g.op == 'builtin' and g.args[0] in ('iter', 'filter', 'map')

    # ------------------------------------------------------------------ skip
    def skips(self):
        c = self.c
        # (the music of \stringTuning is a chord with pitches only)
        elements = [k for k in self.m.all_classes() if k.module.name.endswith('dom.lily') and k.issub(self.m.cls('dom.element.Element'))]
        elements = [k for k in elements if not any(k.issub(self.lily(x)) for x in ('Language', 'Include', 'StringTuning'))]
        holders = [k for k in elements if self.holds(k) or k.name in ('Document', 'Score', 'Book', 'BookPart', 'Assignment')]
        for p in self.procs:
            for lid, info in list(p.interp.loopinfo.items()):
                key = info['key']
                if not (isinstance(key, T) and key.op == 'call' and callee_name(key.args[0]) == 'follow_language'):
                    continue
                n = mk('elem', key, '')
                evs = [e for e in p.events if lid in e.loops]
                entry = real_facts(info['pre'].facts)
                atoms = {t for e in evs for f in e.facts for t in subterms(f) if t.op == 'isinstance' and t.args[0] is n}
                wanted = {y.args[0] for t in subterms(key) if t.op == 'call' and callee_name(t.args[0]) == 'instances_of'
                          for a in t.args[1] for y in subterms(a) if y.op == 'cls'}
                filtered = any(t.op == 'call' and callee_name(t.args[0]) == 'instances_of' for t in subterms(key))
                if filtered:
                    c.ob('skip', '{} {}'.format(self.cls.name, p.name), {k.name for k in wanted} >= {'Language', 'Include'},
                         'language commands are not looked for among {}'.format(', '.join(sorted(k.name for k in wanted))), p.where)
                groups = {}
                for k in sorted(holders, key=lambda k: k.name):
                    if filtered and not any(k.issub(w) for w in wanted):
                        continue
                    f = tuple(sorted(((a.id, any(isinstance(y, Class) and k.issub(y) for y in (
                        a.args[1] if isinstance(a.args[1], (tuple, frozenset)) else (a.args[1],)))) for a in atoms)))
                    groups.setdefault(f, []).append(k)
                for f, ks in sorted(groups.items()):
                    c.unit('kind')
                    byid = {a.id: a for a in atoms}
                    given = [(byid[i], v) for i, v in f]
                    why = self.passed(p, n, evs, given, entry)
                    c.ob('skip', '{} {} {}'.format(self.cls.name, p.name, ks[0].name), why is None,
                         'a language command in {} is missed{}'.format(', '.join(k.name for k in ks[:4]), why or ''), p.where)

    def holds(self, k):
        """Whether a language command can be in an element of the class."""
        MUSIC = self.lily('Music')
        got = k.lookup('signatures')
        if not got or not got[0].issub(self.m.cls('dom.element.Element')) or got[0] is self.m.cls('dom.element.Element'):
            return k.issub(self.lily('Music')) and k.issub(self.m.cls('dom.element.BlockElement'))
        r = node_interp(self.m).run(got[2], cls=k)
        found = {t.args[0] for e in r.events if e.kind == 'yield' for t in subterms(e.args[0]) if t.op == 'cls'}
        return any(isinstance(x, Class) and (x is MUSIC or x is self.lily('MusicList')) for x in found)

    def passed(self, p, n, evs, given, entry):
        """None when what is in n is visited, else when it is not."""
        hits = []
        for e in evs:
            facts = real_facts(e.facts)
            if not consistent(facts, given):
                continue
            heap = e.state.heap
            hit = False
            if e.kind in ('yield', 'yield_from'):
                hit = n in set(self.deep(e.args[0], heap, part=False))
            elif e.kind == 'call' and (e.args[0].op == 'closure' or callee_name(e.args[0]) in ('follow_language', 'skip_language')):
                args = [a for a in e.args[1]] + [v for k, v in e.args[2]] if len(e.args) > 2 else list(e.args[1])
                hit = any(y is n or y is param('r') for a in args for y in self.deep(a, heap, part=False)) or e.args[0].op == 'closure' and not args
            if hit:
                k = known(given)
                hits.append({a: v for a, v in facts.items()
                             if k.get(a) is not v and a not in entry and not a.op == 'more' and consistent(k, [(a, not v)])})
        if not hits:
            return ''
        for h in hits:
            if not h:
                return None
        # there is no case without a visit
        atoms = sorted({x for h in hits for a in h for x in self.atoms(a)}, key=lambda x: x.id)
        for vs in product((True, False), repeat=len(atoms)):
            case = list(zip(atoms, vs))
            if consistent(given, case, entry) and not any(consistent(given, case, h) for h in hits):
                k = known(given)
                return ' when ' + ' and '.join('{}{}'.format('' if v else 'not ', show(a)[:60]) for a, v in case if k.get(a) is not v)
        return None

    def atoms(self, a):
        a = lit(a)[0]
        if a.op in ('and', 'ite', 'not', 'or'):
            return {y for x in a.args for y in self.atoms(x)}
        return {a} if a.op != 'const' else set()
