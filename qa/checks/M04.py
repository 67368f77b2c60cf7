"""M04: operations that follow pitches treat chords, references and exempt music alike.

Rel2abs, Abs2rel and Transpose are analysed with their closures (qa/walks.py). A
Pitch that is read from a node is an object with the symbolic fields of that node; the
arithmetic of Pitch and everything else is inlined, transposing is a function without
meaning. So every note that is written has a formula, from which the pitch it is made
relative to can be read; that pitch is followed through loop variables and lists.
"""
from ..walks import *
from ..algebra import Algebra, add, split, show_poly

TECHNIQUE = ('Gated value flow of pitches through the walkers with symbolic pitch fields; the octave formula of every written note '
             'is compared algebraically with the defining one, its reference pitch followed through loop variables and lists; '
             'dispatch on the exact element types.')
NOTE = ('What is inside markup is not compared. How a pitch name is read and written is M06, which language M05, the arithmetic of '
        'transposing M02.')

FIELDS = ('octave', 'note', 'alter')
OPQ = (OPAQUE - {'make_absolute', 'make_relative', 'process', 'copy'}) | {'octave', 'oct_check', 'head', 'descendants', 'children'}


class Form:
    """A pitch as a function of the note x it was read from.

    base: 'same' the pitch itself, 'absolute' made absolute from the pitch prev
    moved: whether it was transposed then
    how: 'plain', 'keep' the octave of the note, 'less' without the octaves of the
    transposer, 'relative' to the pitch rel
    """
    def __init__(self, base, prev, moved, how, rel, lits):
        self.base, self.prev, self.moved, self.how, self.rel, self.lits = base, prev, moved, how, rel, lits

    def __repr__(self):
        s = {'same': 'as read', 'absolute': 'made absolute'}[self.base]
        if self.moved:
            s += ', transposed'
        return s + {'plain': '', 'keep': ', octave kept', 'less': ', without the octaves of the transposer',
                    'relative': ', made relative'}[self.how]


class Pitches:
    """The hooks that give pitches symbolic fields."""
    def __init__(self, m):
        self.m = m
        self.pitch = m.cls('pitch.Pitch')
        self.process = m.cls('pitch.PitchProcessor').lookup('process')[2]
        self.al = Algebra(defs=None)

    def hook(self, I, st, fn, args, kws, nd):
        if fn.op in ('closure', 'func', 'cls'):
            return None
        name = callee_name(fn)
        kw = dict(kws)
        if name == 'read_node':
            x = args[0] if args else kw.get('node')
            o = mk('new', mk('cls', self.pitch), I.site(nd))
            for k in [k for k in st.heap if k[0] is o]:
                del st.heap[k]
            for f in FIELDS:
                st.heap[(o, f)] = mk('attr', mk('read', x), f)
            I.event('read', (o, x), st, nd)
            return o
        if name == 'process' and callee_base(fn) is not None and fn.op != 'bound':
            return I.call_method(self.process, callee_base(fn), args, kws, st, nd)
        if name == 'write_node':
            x = args[0] if args else kw.get('node')
            o = args[1] if len(args) > 1 else kw.get('pitch')
            I.event('write', (x, o), st, nd)
            return NONE
        if name == 'transpose' and (args or kw):
            o = args[0] if args else kw.get('pitch')
            v = tuple(field(st, o, f) for f in FIELDS)
            for f in FIELDS:
                st.heap[(o, f)] = mk('tr', f, *v)
            I.event('move', (o,), st, nd)
            return NONE
        return None

    # -------------------------------------------------------------- formulas
    def same(self, a, b):
        return self.al.poly(a) == self.al.poly(b)

    def minus(self, a, b):
        return add(self.al.poly(a), self.al.poly(b), -1)

    def step(self, oct_, note, prev, x, sign):
        """The octave after making (oct_, note) absolute (1) or relative (-1)."""
        R = mk('read', x)
        d = mk('bin', '-', mk('attr', R, 'octave'), mk('attr', x, 'octave'))
        po, pn = prev
        t = mk('bin', '//', mk('bin', '+', mk('bin', '-', note, pn), const(3)), const(7))
        return mk('bin', '+' if sign > 0 else '-', oct_, mk('bin', '-', mk('bin', '-', po, t), d))

    def candidates(self, o, x):
        out = []
        for t in subterms(o):
            if t.op == 'attr' and t.args[1] == 'octave':
                b = t.args[0]
                if b is x or b.op in ('read', 'tr') or b.op == 'attr' and b.args[1] in ('transposer', 'from_pitch', 'to_pitch'):
                    continue
                if b not in out:
                    out.append(b)
        return out

    def refs(self, triple, x):
        """(prev term, octave, note) that the formula can be relative to."""
        out = [(P, (mk('attr', P, 'octave'), mk('attr', P, 'note'))) for P in self.candidates(triple[0], x)]
        return out

    def base(self, v, x, extra=()):
        """(base, prev) of an untransposed pitch, else None."""
        R = mk('read', x)
        if not (self.same(v[1], mk('attr', R, 'note')) and self.same(v[2], mk('attr', R, 'alter'))):
            return None
        ro = mk('attr', R, 'octave')
        if self.same(v[0], ro):
            return 'same', None, 'plain', None
        for P, pr in self.refs(v, x) + list(extra):
            if self.same(v[0], self.step(ro, v[1], pr, x, 1)):
                return 'absolute', P, 'plain', None
            if self.same(v[0], self.step(ro, v[1], pr, x, -1)):
                return 'same', None, 'relative', P
        return None

    def forms(self, v, x, extra=()):
        """The Forms of a pitch (octave, note, alter), None for a formula that is none."""
        X = mk('X')
        names = {}
        for lits, u in split(tuple(hide(subst(t, x, X), names) for t in v)):
            fm = self.form(u, X, lits, extra)
            if fm is not None:
                back = {n: t for t, n in names.items()}
                fm.lits = {shown(k, back): v for k, v in fm.lits.items()}
                fm.prev, fm.rel = (q and shown(q, back) for q in (fm.prev, fm.rel))
            yield fm

    def form(self, v, x, lits, extra):
        o, n, a = v
        if n.op == 'tr' and a.op == 'tr' and n.args[0] == 'note' and a.args[0] == 'alter' and n.args[1:] == a.args[1:]:
            b = self.base(n.args[1:], x, extra)
            if b is None or b[2] != 'plain':
                return None
            to = mk('tr', 'octave', *n.args[1:])
            if self.same(o, to):
                return Form(b[0], b[1], True, 'plain', None, lits)
            if self.same(o, mk('attr', mk('read', x), 'octave')):
                return Form(b[0], b[1], True, 'keep', None, lits)
            d = self.minus(o, to)
            if len(d) == 1 and list(d.values()) == [-1]:
                (k,), = d
                if isinstance(k, T) and k.op == 'attr' and k.args[1] == 'octave' and k.args[0].op == 'attr' and k.args[0].args[1] == 'transposer' \
                        or isinstance(k, tuple) and k[0] == 'attr' and k[2] == 'octave' and 'transposer' in str(k):
                    return Form(b[0], b[1], True, 'less', None, lits)
            for P, pr in self.refs(v, x) + list(extra):
                if self.same(o, self.step(to, n, pr, x, -1)):
                    return Form(b[0], b[1], True, 'relative', P, lits)
            return None
        b = self.base(v, x, extra)
        return b and Form(b[0], b[1], False, b[2], b[3], lits)


def subst(t, x, y, memo=None):
    """t with x replaced by y."""
    memo = {} if memo is None else memo
    if t is x:
        return y
    if isinstance(t, tuple):
        return tuple(subst(a, x, y, memo) for a in t)
    if not isinstance(t, T):
        return t
    if t not in memo:
        args = tuple(subst(a, x, y, memo) if isinstance(a, (T, tuple)) else a for a in t.args)
        memo[t] = t if args == t.args else mk(t.op, *args)
    return memo[t]


def hide(t, names, memo=None):
    """t with the outermost loop items replaced by names."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(hide(a, names, memo) for a in t)
    if not isinstance(t, T):
        return t
    if t.op == 'elem':
        return names.setdefault(t, mk('Elem', len(names)))
    if t not in memo:
        args = tuple(hide(a, names, memo) if isinstance(a, (T, tuple)) else a for a in t.args)
        memo[t] = t if args == t.args else mk(t.op, *args)
    return memo[t]


def shown(t, back, memo=None):
    """The reverse of hide()."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(shown(a, back, memo) for a in t)
    if not isinstance(t, T):
        return t
    if t in back:
        return back[t]
    if t not in memo:
        args = tuple(shown(a, back, memo) if isinstance(a, (T, tuple)) else a for a in t.args)
        memo[t] = t if args == t.args else mk(t.op, *args)
    return memo[t]


def field(st, o, f):
    v = st.heap.get((o, f))
    if v is None and o.op == 'ite':
        return ite(o.args[0], field(st, o.args[1], f), field(st, o.args[2], f))
    return mk('attr', o, f) if v is None else v


def triple(st, o):
    return tuple(under(field(st, o, f), st) for f in FIELDS)



# ------------------------------------------------------------------ facts
def classes_of(lit_):
    """(term, class names) of an isinstance literal."""
    cs = lit_.args[1]
    cs = cs if isinstance(cs, (tuple, frozenset)) else (cs,)
    return lit_.args[0], cs


def depth_in(x, n):
    """How deep n lies inside x, None when it does not."""
    best, todo, seen = None, [(x, 0)], set()
    while todo:
        t, d = todo.pop(0)
        if t is n:
            return d
        if t in seen or not isinstance(t, T):
            continue
        seen.add(t)
        for a in t.args:
            if isinstance(a, T):
                todo.append((a, d + 1))
            elif isinstance(a, tuple):
                todo.extend((b, d + 1) for b in a if isinstance(b, T))
    return best


class Kinds:
    """What the facts say about the kinds of nodes."""
    def __init__(self, m):
        self.m = m

    def cls(self, name):
        return self.m.cls('dom.lily.' + name)

    def governing(self, x, facts, names):
        """(node, name) of the innermost node around x known to be of one of the kinds."""
        best = None
        ks = {n: self.cls(n) for n in names}
        for f, v in facts.items():
            if f.op == 'isinstance' and v is True:
                n, cs = classes_of(f)
                if n is x:
                    continue
                d = depth_in(x, n)
                if d is None:
                    continue
                hit = [k for k, cl in ks.items() if cs and all(isinstance(y, Class) and y.issub(cl) for y in cs)]
                some = [k for k, cl in ks.items() if any(isinstance(y, Class) and y.issub(cl) for y in cs)]
                if hit or some:
                    if best is None or d < best[0] or d == best[0] and hit and not best[3]:
                        best = (d, n, hit or some, bool(hit))
        return best and (best[1], tuple(best[2]))

    def children(self, name):
        """The classes that child_order() names, none when anything may be a child."""
        f = self.cls(name).lookup('child_order')
        if not f or not f[0].issub(self.cls(name)):
            return []
        r = node_interp(self.m).run(f[2], cls=self.cls(name))
        return [t.args[0] for e in r.events if e.kind == 'yield' for t in subterms(e.args[0]) if t.op == 'cls']

    def assign(self, atoms, n, k):
        """Truth of the isinstance atoms about n when its exact class is k."""
        return [(f, any(isinstance(y, Class) and k.issub(y) for y in classes_of(f)[1])) for f in atoms if f.args[0] is n]


GOVERN = ('Key', 'Inversion', 'Absolute', 'Relative', 'Fixed', 'Transpose', 'Transposition', 'StringTuning')
EXEMPT = ('Transposition', 'StringTuning')
OWN = ('Key', 'Inversion', 'Absolute', 'Relative', 'Fixed', 'Transpose')
NOTES = ('Pitchable', 'Chord', 'OctaveCheck')


# ------------------------------------------------------------------ loops
class Loops:
    """Values of loop variables, by iteration."""
    def __init__(self, p):
        self.p = p
        self.I = p.interp

    def mus(self, t):
        return t.op == 'mu' and t in self.I.mu

    def state(self, lid):
        info = self.I.loopinfo.get(lid)
        return info and info.get('end')

    def value(self, t, k, lid, facts, late=False, depth=0):
        """Value of t at the start (late: end) of iteration k of the loop: ('out', term) or ('N', iteration, term)."""
        if depth > 12:
            return None
        t = under(t, facts)
        if t.op == 'ite':
            g, pol = lit(t.args[0])
            if g.op == 'cmp' and g.args[0] == 'is' and g.args[2] is NONE:
                v = self.value(g.args[1], k, lid, facts, late, depth + 1)
                if v is None:
                    return None
                isn = v == ('out', NONE) if v[0] == 'out' and (v[1] is NONE) else False if v[0] == 'N' else None
                if isn is None:
                    return None
                return self.value(t.args[1] if isn == pol else t.args[2], k, lid, facts, late, depth + 1)
            if g.op in ('more', 'brk'):
                return None
            if g.op == 'truth' and g.args[0].op == 'new':
                l = self.listed(g.args[0], k, lid, facts, late, depth + 1)
                if l is not None:
                    return self.value(t.args[1] if bool(l) == pol else t.args[2], k, lid, facts, late, depth + 1)
            a = self.value(t.args[1], k, lid, facts, late, depth + 1)
            b = self.value(t.args[2], k, lid, facts, late, depth + 1)
            if a is not None and b is not None and a[0] == b[0] and a[:2] == b[:2]:
                return a[:2] + (t,) if a[0] == 'N' else a
            return None
        if self.mus(t) and t.args[0] == lid:
            init, nxt = self.I.mu[t]
            if late:
                k, late = k + 1, False
            if k == 0:
                return self.value(init, 0, None, facts, False, depth + 1) if init.op != 'mu' else ('out', init)
            v = self.value(nxt, k - 1, lid, facts, False, depth + 1)
            if v is not None and v[0] == 'out' and v[1].op == 'new' and self.inside(v[1], lid):
                return 'N', k - 1, v[1]
            return v
        if t.op in ('index', 'item') and t.args[0].op in ('new', 'slice'):
            l = self.listed(t.args[0], k, lid, facts, late, depth + 1)
            i = t.args[1]
            i = i.args[0] if isinstance(i, T) and i.op == 'const' else i
            if l is None or not isinstance(i, int) or not -len(l) <= i < len(l):
                return None
            return l[i]
        if lid is not None and t.op == 'new' and self.inside(t, lid):
            return 'N', k, t
        return 'out', t

    def values(self, t, k, lid, facts, depth=0):
        """All values t can have after k iterations, None among them when one is not known."""
        t = under(t, facts)
        v = self.value(t, k, lid, facts)
        if v is None and k > 0 and self.mus(t) and t.args[0] == lid and depth < 7:
            vs = self.values(self.p.interp.mu[t][1], k - 1, lid, facts, depth + 1)
            return [('N', k - 1, v[1]) if v is not None and v[0] == 'out' and self.inside(v[1], lid) else v for v in vs]
        if v is not None or t.op != 'ite' or depth > 6:
            return [v]
        g, pol = lit(t.args[0])
        if any(x.op in ('more', 'brk', 'mu') and x.args and x.args[0] == lid and x.op != 'mu' for x in subterms(g)):
            return [None]
        d = self.decide(g, k, lid, facts)
        out = []
        for a, b in ((t.args[1], True), (t.args[2], False)):
            if d is None or (d == pol) is b:
                f = dict(facts)
                if d is None:
                    w = self.value(g.args[1], k, lid, facts) if g.op == 'cmp' and g.args[0] == 'is' and g.args[2] is NONE else None
                    if w is not None and w[0] == 'out':
                        if f.setdefault(is_none(w[1]), b is pol) is not (b is pol):
                            continue
                    elif any(self.counter(x, lid) for x in self.operands(g)):
                        return [None]
                    f[g] = b if pol else not b
                out += self.values(a, k, lid, f, depth + 1)
        return out

    def operands(self, g):
        return [x for x in g.args if isinstance(x, T)] + [y for x in g.args if isinstance(x, T) and x.op == 'bin' for y in x.args if isinstance(y, T)]

    def counter(self, x, lid):
        """Whether x counts iterations, or is a flag that depends on them."""
        if self.mus(x) and x.args[0] == lid:
            return True
        return x.op in ('index', 'count') or x.op == 'item' and x.args[0].op == 'elem' or x.op == 'len'

    def decide(self, g, k, lid, facts):
        """Truth of a condition about lists and loop variables after k iterations, when known."""
        if g.op == 'cmp' and g.args[0] == 'is' and g.args[2] is NONE:
            v = self.value(g.args[1], k, lid, facts)
            return None if v is None else True if v == ('out', NONE) else False if v[0] == 'N' else None
        if g.op == 'truth' and g.args[0].op in ('new', 'slice'):
            l = self.listed(g.args[0], k, lid, facts)
            return None if l is None else bool(l)
        if g.op == 'truth':
            v = self.value(g.args[0], k, lid, facts)
            if v is not None and v[0] == 'out' and v[1].op == 'const':
                return bool(v[1].args[0])
        if g.op == 'cmp' and g.args[0] in ('<', '==', 'is'):
            ns = []
            for a in g.args[1:3]:
                if self.mus(a) and a.args[0] == lid:
                    v = self.value(a, k, lid, facts)
                    a = v[1] if v and v[0] == 'out' else a
                if a.op == 'const' and type(a.args[0]) is int:
                    ns.append(a.args[0])
                elif a.op == 'index' and a.args[0].op == 'elem' and a.args[0].args[0] is (self.p.interp.loopinfo.get(lid) or {}).get('key') \
                        and a.args[1].op == 'const' and type(a.args[1].args[0]) is int:
                    ns.append(k + a.args[1].args[0])
                elif a.op == 'len' and a.args[0].op in ('new', 'slice'):
                    l = self.listed(a.args[0], k, lid, facts)
                    ns.append(None if l is None else len(l))
                else:
                    ns.append(None)
            if None not in ns:
                return ns[0] < ns[1] if g.args[0] == '<' else ns[0] == ns[1]
        return None

    def inside(self, o, lid):
        """Whether the object is made in the loop."""
        info = self.I.loopinfo.get(lid)
        return info is not None and not any(h[0] is o for h in info['pre'].heap)

    def listed(self, b, k, lid, facts, late=False, depth=0):
        """The values in a list at the start (end) of iteration k."""
        if b.op == 'slice':
            l = self.listed(b.args[0], k, lid, facts, late, depth + 1)
            if l is None:
                return None
            ix = [None if a is None or a is NONE else a.args[0] if isinstance(a, T) and a.op == 'const' else '?' for a in b.args[1:4]]
            return None if '?' in ix else l[slice(*ix)]
        info = self.I.loopinfo.get(lid)
        if info is None:
            return None
        key = (b, '[]')
        base = info['pre'].heap.get(key)
        if base is None:
            return None
        out = []
        for kind, v, lits in base:
            if kind != 'one' or lits:
                return None
            out.append(('out', v))
        added = info['modified'].get(('h', key))
        if added is None:
            return out
        more = added[len(base):]
        st = State()
        st.facts = facts
        for i in range(k + (1 if late else 0)):
            for kind, v, lits in more:
                if kind == 'some' or any(st.query(c) is not pol for c, pol in lits):
                    return None
                out.append(('N', i, v))
        return out


# ------------------------------------------------------------------ operations
def check(c):
    m = c.model
    P = Pitches(m)
    K = Kinds(m)
    for name in ('relative.Rel2abs', 'relative.Abs2rel', 'transpose.Transpose'):
        cls = m.cls(name)
        f = cls.lookup('edit_range')
        if not f:
            raise AnalysisBroken(name + '.edit_range not found')
        procs = procedures(m, cls, f[2], opaque=OPQ, hook=P.hook, trace_states=True)
        for p in procs:
            c.unit('procedure')
            op = Op(c, P, K, cls.name, p, procs)
            c.guard('formula', cls.name + ' ' + p.name, op.formulas)
            c.guard('reference', cls.name + ' ' + p.name, op.references)
            c.guard('dispatch', cls.name + ' ' + p.name, op.dispatch)
    for rule, n in (('formula', 5), ('reference', 20), ('start', 5), ('dispatch', 20)):
        c.floor(rule, n)


class Op:
    def __init__(self, c, P, K, name, p, procs):
        self.c, self.P, self.K, self.name, self.p, self.procs = c, P, K, name, p, procs
        self.con = '{} {}'.format(name, p.name)
        self.L = Loops(p)
        self.writes = [e for e in p.events if e.kind == 'write']
        self.reads = [e for e in p.events if e.kind == 'read']

    def forms(self, st, o, x, facts):
        """The Forms of a pitch object that the facts allow."""
        X = mk('X')
        out = []
        vs = [self.P.forms(tuple(under(v, self.st(facts)) for v in triple(st, o)), x)]
        for fm in vs[0]:
            if fm is None:
                out.append(None)
                continue
            fm.lits = {subst(k, X, x): v for k, v in fm.lits.items()}
            fm.prev = fm.prev and subst(fm.prev, X, x)
            fm.rel = fm.rel and subst(fm.rel, X, x)
            if consistent(facts, fm.lits):
                out.append(fm)
        return out

    def st(self, facts):
        s = State()
        s.facts = dict(facts)
        return s

    # -------------------------------------------------------------- formulas
    def formulas(self):
        c = self.c
        for e in self.writes:
            x, o = e.args
            facts = real_facts(e.facts)
            fs = self.forms(e.state, o, x, e.facts)
            c.unit('written note')
            ok = bool(fs) and None not in fs
            c.ob('formula', self.con, ok, 'writes octave {} to a note'.format(show(triple(e.state, o)[0])[:200]), e.where)
            for fm in fs:
                if fm is None:
                    continue
                why = self.wrong(e, x, fm, facts)
                if why is None:
                    c.unknown('formula', self.con, 'which part of the transposed music is ' + show(x))
                else:
                    c.ob('formula', self.con, not why, 'writes a note ' + str(fm) + (': ' + why if why else ''), e.where)
        for e in self.reads:
            x = e.args[1]
            w = [w for w in self.writes if w.args[0] is x and w.seq < e.seq and w.loops == e.loops
                 and consistent(real_facts(e.facts), real_facts(w.facts))]
            c.ob('formula', self.con + ' read', not w, 'reads a note that is already changed', e.where)
        if self.name == 'Transpose':
            self.octave_checks()

    def wrong(self, e, x, fm, facts):
        """Why a note is not to be written with this form; '' when it is, None when not known."""
        if self.name == 'Rel2abs':
            return '' if (fm.base, fm.moved, fm.how) == ('absolute', False, 'plain') else 'a note is made absolute'
        if self.name == 'Abs2rel':
            return '' if (fm.base, fm.moved, fm.how) == ('same', False, 'relative') else 'a note is made relative'
        if not fm.moved:
            return 'it is not transposed'
        g = self.K.governing(x, facts, GOVERN)
        kinds = g[1] if g else ()
        if kinds and all(k in ('Key', 'Inversion') for k in kinds):
            return '' if fm.how == 'keep' and fm.base == 'same' else 'the octave in a \\key or of an inversion stays the same'
        if fm.how == 'keep':
            return 'only in a \\key or of an inversion the octave stays the same'
        if kinds == ('Fixed',):
            return self.fixed(e, x, fm, g[0])
        if kinds == ('Transpose',):
            sl = [t for t in subterms(x) if t.op == 'slice' and t.args[0] is g[0]]
            if not sl:
                return None
            lo, hi = [None if a is None or a is NONE else a.args[0] if isinstance(a, T) and a.op == 'const' else a for a in sl[0].args[1:3]]
            if (lo or 0, hi) == (0, 2):
                return '' if fm.how == 'less' else 'the interval of \\transpose keeps the octave'
            return '' if (lo, hi, fm.how) == (2, None, 'plain') else 'the music inside \\transpose is absolute'
        if fm.how == 'less':
            return 'the octave is not stored elsewhere'
        if fm.how == 'relative' or fm.base == 'absolute':
            return '' if fm.how == 'relative' and fm.base == 'absolute' and (kinds == ('Relative',) or self.consumer(e)) else 'it is not in relative music'
        if kinds == ('Relative',) or self.consumer(e):
            # absolute: the start pitch and octave checks
            if self.unit(e, x) != 'check' and x.op not in ('index', 'item'):
                return 'the notes in \\relative are relative'
        return ''

    def consumer(self, e):
        """Whether the loop carries a reference pitch."""
        return any(self.reference_vars(l) for l in e.loops)

    def fixed(self, e, x, fm, n):
        """Octaves that the reference pitch of \\fixed takes over."""
        inner = any(t.op == 'call' and t.args[0].op == 'closure' for t in subterms(x)
                    if depth_in(t, n) is not None)
        if not inner:
            return '' if fm.how == 'plain' else 'the reference pitch takes the octave'
        refs = [w for w in self.writes if w is not e and depth_in(w.args[0], n) is not None
                and not any(t.op == 'call' and t.args[0].op == 'closure' for t in subterms(w.args[0]) if depth_in(t, n) is not None)]
        if not refs:
            return 'the reference pitch of \\fixed is never written'
        facts = real_facts(e.facts)
        for w in refs:
            cond = [(k, v) for k, v in real_facts(w.facts).items() if facts.get(k) is not v]
            if fm.how == 'less':
                bad = [k for k, v in cond if consistent(facts, fm.lits, [(k, not v)])]
                if bad:
                    return 'the reference pitch of \\fixed does not take the octave when not ' + show(bad[0])
            elif fm.how == 'plain':
                if consistent(facts, fm.lits, cond):
                    return 'the reference pitch of \\fixed has taken the octave'
            else:
                return 'notes in \\fixed are not relative'
        return ''

    def octave_checks(self):
        """oct_check of a note in relative music is the transposed octave."""
        c = self.c
        got = False
        for e in self.p.events:
            if e.kind not in ('setprop', 'store') or e.args[1] != 'oct_check':
                continue
            got = True
            x, v = e.args[0], e.args[2]
            X = mk('X')
            facts = real_facts(e.facts)
            for lits, (u,) in split((under(subst(v, x, X), self.st(e.facts)),)):
                R = mk('read', X)
                d = mk('bin', '-', mk('attr', R, 'octave'), mk('attr', X, 'octave'))
                mv = [t for t in subterms(u) if t.op == 'tr' and t.args[0] == 'octave']
                ok = False
                for t in mv:
                    b = self.P.base(t.args[1:], X)
                    if b and b[0] == 'absolute' and b[2] == 'plain' and self.P.same(u, mk('bin', '-', t, d)):
                        ok = True
                c.ob('formula', self.con + ' octave check', ok, 'sets the octave check to ' + show(v)[:200], e.where)
            ks = [is_none(mk('attr', x, 'oct_check'))] + [
                f for f in facts if f.op == 'cmp' and f.args[0] == 'is' and f.args[2] is NONE and f.args[1].op == 'mu' and f.args[1].args[1:] == ('oct_check', x)]
            k = next((k for k in ks if k in facts), ks[0])
            c.ob('formula', self.con + ' octave check', facts.get(k) is False or not consistent(facts, [(k, True)]),
                 'adds an octave check to a note without one', e.where)
            # and on every note with one that is written
            for w in self.writes:
                if w.args[0] is x:
                    extra = [f for f in facts if f is not k and w.facts.get(f) is not facts[f]]
                    c.ob('formula', self.con + ' octave check', not extra,
                         'an octave check is only changed when ' + ' and '.join(map(show, extra))[:200], e.where)
        for w in self.writes:
            x = w.args[0]
            if any(fm and fm.how == 'relative' for fm in self.forms(w.state, w.args[1], x, w.facts)):
                ok = any(e.kind in ('setprop', 'store') and e.args[1] == 'oct_check' and e.args[0] is x for e in self.p.events)
                c.ob('formula', self.con + ' octave check', ok, 'the octave check of a note is not changed with the note', w.where)

    # -------------------------------------------------------------- references
    def unit(self, e, x):
        """What a note that is read belongs to: 'note', 'chord', 'check' or None."""
        for f, v in reversed(list(e.facts.items())):
            if f.op == 'isinstance' and v is True and f.args[0] is not x:
                n, cs = classes_of(f)
                if depth_in(x, n) is None:
                    continue
                names = {y.name for y in cs if isinstance(y, Class)}
                if names == {'Chord'}:
                    return 'chord'
                if names == {'OctaveCheck'}:
                    return 'check'
        for f, v in e.facts.items():
            if f.op == 'isinstance' and v is True and f.args[0] is x and any(
                    isinstance(y, Class) and y.name == 'Pitchable' for y in classes_of(f)[1]):
                return 'note'
        return None

    def reference_vars(self, lid):
        """Loop variables of the loop that carry a pitch that others are relative to."""
        if not hasattr(self, '_refs'):
            self._refs = {}
            for e in self.writes:
                for fm in self.forms(e.state, e.args[1], e.args[0], e.facts):
                    for q in (fm.prev, fm.rel) if fm else ():
                        if q is None:
                            continue
                        if q.op == 'attr' and q.args[1] == 'transposed':
                            q = q.args[0]
                        for t in self.origins(q, e):
                            self._refs.setdefault(t.args[0], [])
                            if t not in self._refs[t.args[0]]:
                                self._refs[t.args[0]].append(t)
        return self._refs.get(lid, ())

    def origins(self, q, e):
        """The loop variables of the units that q comes from."""
        for _ in range(4):
            if self.L.mus(q):
                init = self.p.interp.mu[q][0]
                up = [l for l in e.loops if l != q.args[0]]
                if init.op == 'mu' and init in self.p.interp.mu and init.args[0] in up and self.unit(e, e.args[0]) in ('chord', 'check') \
                        and q.args[0] == e.loops[-1]:
                    q = init
                    continue
                return [q]
            if q.op in ('index', 'item') and q.args[0].op == 'new':
                v = self.L.value(q, 0, e.loops[-1], e.facts) if e.loops else None
                if v and v[0] == 'out' and v[1] is not q:
                    q = v[1]
                    continue
            return []
        return []

    def references(self):
        c = self.c
        units = set()
        seen = set()
        for e in self.reads:
            x = e.args[1]
            kind = self.unit(e, x)
            if kind is None or not e.loops:
                continue
            lid = e.loops[-1] if kind == 'note' else e.loops[-2] if len(e.loops) > 1 else None
            vars_ = self.reference_vars(lid)
            if not vars_:
                continue
            units.add((lid, kind))
            c.unit('unit')
            for M in vars_:
                if kind == 'note':
                    self.note(e, M, lid)
                elif kind == 'chord':
                    self.chord(e, M, lid)
                else:
                    self.check_(e, M, lid)
        lids = {l for e in self.writes for l in e.loops if self.reference_vars(l)}
        for lid in lids:
            for kind in ('note', 'chord', 'check'):
                c.ob('reference', '{} {}'.format(self.con, kind), (lid, kind) in units,
                     'the {} does not become the reference'.format({'note': 'note', 'chord': 'first note of a chord', 'check': 'octave check'}[kind]),
                     self.p.where)
            for M in self.reference_vars(lid):
                self.kept(M, lid)
                self.started(M, lid)

    def prevs(self, e):
        """The Forms written to the note of a read event."""
        out = []
        for w in self.writes:
            if w.args[0] is e.args[1] and w.loops == e.loops:
                out += [(w, fm) for fm in self.forms(w.state, w.args[1], e.args[1], w.facts) if fm]
        return out

    def predecessor(self, e, good, con):
        """The pitches that the note is made absolute from or relative to."""
        c = self.c
        for w, fm in self.prevs(e):
            if self.name == 'Transpose' and fm.how != 'relative':
                continue
            P = fm.rel if self.name == 'Abs2rel' else fm.prev
            lits = dict(real_facts(w.facts))
            lits.update(fm.lits)
            if P.op == 'new' and self.name == 'Abs2rel':
                M = [k.args[1] for k, v in lits.items() if k.op == 'cmp' and k.args[0] == 'is' and k.args[2] is NONE and v is True]
                ok = any(good(k, lits) for k in M)
                c.ob('reference', con, ok, 'a note is made relative to a start pitch although there is a note before', w.where)
                self.start_pitch(P, lits, w)
                continue
            ok = good(P, lits)
            if ok is None:
                c.unknown('reference', con, 'what pitch is ' + show(P))
                continue
            c.ob('reference', con, ok, 'a note is relative to {}'.format(show(P)), w.where)
            if self.name == 'Abs2rel':
                k = is_none(P)
                ok = not consistent(lits, [(k, True)])
                c.ob('reference', con, ok, 'a note is relative to no pitch', w.where)
            if self.name == 'Transpose':
                # the transposed pitch of the same note, when it was transposed
                has = mk('has', P, 'transposed')
                want = mk('attr', P, 'transposed') if lits.get(has) is True else P if lits.get(has) is False else None
                c.ob('reference', con + ' transposed', fm.rel is want,
                     'a note is made relative to {} when {}'.format(show(fm.rel), 'the pitch before was transposed' if lits.get(has) else 'the pitch before was not transposed'), w.where)

    def is_ref(self, e, o, M, st, facts, con, absolute=False):
        """The object is the pitch that the next note follows."""
        c = self.c
        x = e.args[1]
        fs = self.forms(st, o, x, facts)
        want = 'same' if absolute or self.name == 'Abs2rel' else 'absolute'
        ok = bool(fs) and all(fm is not None and fm.base == want and not fm.moved and fm.how == 'plain' for fm in fs)
        if ok and want == 'absolute':
            prevs = {fm.prev for w, fm in self.prevs(e)}
            ok = all(fm.prev in prevs for fm in fs) or not prevs
        c.ob('reference', con + ' next', ok, 'the next note follows {}'.format(
            ', '.join('the pitch ' + str(fm) if fm else 'another pitch' for fm in fs) or 'nothing'), e.where)
        if self.name != 'Transpose':
            return
        # the transposed pitch goes with it exactly when the note was transposed
        tr = under(st.heap.get((o, 'transposed'), mk('attr', o, 'transposed')), self.st(facts))
        writes = [w for w in self.writes if w.args[0] is x and w.loops == e.loops]
        base = [real_facts(w.facts) for w in writes]
        for t, lits in leaves(tr):
            al = dict(real_facts(facts))
            if not consistent(al, lits):
                continue
            if t.op == 'attr' and t.args[1] == 'transposed' or t.op == 'unbound':
                ok = not any(consistent(al, lits, b) for b in base)
                c.ob('reference', con + ' transposed', ok, 'the transposed pitch is not kept for the next note', e.where)
                continue
            g = dict(facts)
            g.update(dict(lits))
            fs = self.forms(st, t, x, g)
            self.got = True
            ok = bool(fs) and all(fm is not None and fm.base == want and fm.moved and fm.how == 'plain' for fm in fs)
            c.ob('reference', con + ' transposed', ok, 'keeps {} as the transposed pitch'.format(', '.join(str(fm or 'another pitch') for fm in fs)), e.where)
            ok = any(not consistent(al, lits, [(k, not v)]) for b in base for k, v in b.items() if al.get(k) is not v) \
                or any(all(al.get(k) is v for k, v in b.items()) for b in base)
            c.ob('reference', con + ' transposed', ok, 'keeps a transposed pitch of a note that is not transposed', e.where)

    def was_kept(self, e, con):
        """Whether a transposed pitch was kept for the note that was read, asked after is_ref()."""
        if self.name == 'Transpose' and any(w.args[0] is e.args[1] and w.loops == e.loops for w in self.writes):
            self.c.ob('reference', con + ' transposed', self.got, 'the transposed pitch is never kept', e.where)

    def next_leaves(self, M, facts):
        nxt = under(self.p.interp.mu[M][1], self.st(facts))
        return [(t, lits) for t, lits in leaves(nxt) if consistent(facts, lits)]

    def note(self, e, M, lid):
        con = self.con + ' note'
        self.predecessor(e, lambda P, lits: P is M, con)
        st = self.L.state(lid)
        self.got = False
        for t, lits in self.next_leaves(M, real_facts(e.facts)):
            f = dict(e.facts)
            f.update(dict(lits))
            self.is_ref(e, t, M, st, f, con)
        self.was_kept(e, con)

    def chord(self, e, M, lid):
        c, con, L = self.c, self.con + ' chord', self.L
        inner = e.loops[-1]
        x = e.args[1]
        if x.op == 'elem' and e.facts.get(isinst(x.args[0], self.K.cls('Chord'))) is True:
            kids = self.K.children('Chord')
            P = self.K.cls('Pitchable')
            c.ob('reference', con, not kids or any(k.issub(P) or P.issub(k) for k in kids),
                 'the notes of a chord are looked for among its children, which are {}'.format(', '.join(k.name for k in kids)), e.where)

        def good(P, lits):
            for k in (0, 1, 2):
                # an item that is looked up after the own pitch was added
                v = L.value(P, k, inner, e.facts, late=self.after(P, e))
                if v is None:
                    return None
                if v[:2] != (('out', M) if k == 0 else ('N', k - 1)):
                    return False
            return True
        self.predecessor(e, good, con)
        st = L.state(inner)
        # the pitches in the chord that are followed
        heads = set()
        for w, fm in self.prevs(e):
            P = fm.rel if self.name == 'Abs2rel' else fm.prev
            if P is None or P.op == 'new':
                continue
            v = L.value(P, 1, inner, e.facts, late=self.after(P, e))
            if v and v[0] == 'N':
                heads.add(v[2])
        self.got = False
        for h in heads:
            for t, lits in leaves(under(h, self.st(e.facts))):
                f = dict(e.facts)
                f.update(dict(lits))
                if consistent(e.facts, lits):
                    self.is_ref(e, t, M, st, f, con)
        self.was_kept(e, con)
        # the next note follows the first note
        f = self.outer_facts(e)
        nxt = self.p.interp.mu[M][1]
        for k in (0, 1, 2):
            for v in L.values(nxt, k, inner, f):
                if v is None:
                    c.unknown('reference', con + ' first', 'what pitch is ' + show(nxt))
                    continue
                want = ('out', M) if k == 0 else ('N', 0)
                c.ob('reference', con + ' first', v[:2] == want, 'after a chord of {} notes the next note follows {}'.format(
                    k, 'the pitch before the chord' if v == ('out', M) else 'note {}'.format(v[1] + 1) if v[0] == 'N' else show(v[1])), e.where)

    def outer_facts(self, e):
        """The facts that hold for the unit, not for the note in it only."""
        x = e.args[1]
        return {k: v for k, v in real_facts(e.facts).items()
                if not any(t is x for t in subterms(k)) or k.op == 'isinstance' and k.args[0] is x and v is True}

    def after(self, P, e):
        """Whether the item is looked up after the own pitch was added to the list."""
        if P.op not in ('index', 'item'):
            return False
        add_ = [w.seq for w in self.p.events if w.kind == 'mutate' and w.args[0] is P.args[0] and w.loops == e.loops and w.seq > e.seq]
        get = [w.seq for w in self.p.events if w.kind == 'getitem' and w.args[0] is P.args[0] and w.loops == e.loops]
        return bool(add_ and get) and min(get) > max(add_)

    def check_(self, e, M, lid):
        con, L = self.con + ' check', self.L
        inner = e.loops[-1]
        f = self.outer_facts(e)
        st = L.state(inner)
        self.got = got = False
        nxt = self.p.interp.mu[M][1]
        for v in L.values(nxt, 1, inner, f):
            if v is None:
                self.c.unknown('reference', con, 'what pitch is ' + show(nxt))
                continue
            got = True
            self.c.ob('reference', con + ' next', v[0] == 'N', 'the note after an octave check does not follow it', e.where)
            if v[0] != 'N':
                continue
            for u, ul in leaves(under(v[2], self.st(e.facts))):
                if consistent(e.facts, ul):
                    h2 = dict(e.facts)
                    h2.update(dict(ul))
                    self.is_ref(e, u, M, st, h2, con, absolute=True)
        for v in L.values(nxt, 0, inner, f):
            self.c.ob('reference', con + ' none', v is None or v == ('out', M), 'an octave check without pitch changes the reference', e.where)
        if got:
            self.was_kept(e, con)

    def kept(self, M, lid):
        """Other music leaves the reference alone."""
        c = self.c
        info = self.p.interp.loopinfo.get(lid)
        nxt = self.p.interp.mu[M][1]
        atoms = {}
        for t in subterms(nxt):
            if t.op == 'isinstance':
                atoms.setdefault(t.args[0], set()).add(t)
        out = {f.args[0] for e in self.p.events if lid not in e.loops for f in e.facts if f.op == 'isinstance'}
        for n in atoms:
            if n in out:
                continue
            for name in GOVERN:
                k = self.K.cls(name)
                f = dict(self.K.assign(atoms[n], n, k))
                for t, lits in self.next_leaves(M, f):
                    own = t is M or t.op == 'mu' and t in self.p.interp.mu and self.p.interp.mu[t][0] is M
                    c.ob('reference', '{} after {}'.format(self.con, name), own,
                         'the note after {} follows {}'.format(name, show(t)), self.p.where)
            f = dict(self.K.assign(atoms[n], n, self.K.cls('MusicList')))
            for t, lits in self.next_leaves(M, f):
                ok = t is M or t.op == 'mu' and t in self.p.interp.mu and self.p.interp.mu[t][0] is M \
                    or t.op == 'call' and (M in t.args[1] or M in dict(t.args[2]).values())
                if self.name == 'Abs2rel' and t is M:
                    ok = False      # goes on after the notes in it
                if t.op == 'call' and t.args[0].op == 'closure' and t.args[0].args[0] is self.p.func:
                    r = self.p.result.value
                    c.ob('reference', self.con + ' after other music', r is M, 'the reference after other music is {}'.format(show(r)), self.p.where)
                c.ob('reference', self.con + ' after other music', ok, 'the note after other music follows ' + show(t), self.p.where)

    def started(self, M, lid):
        """What the first note is relative to."""
        c, con = self.c, self.con + ' start'
        init = self.p.interp.mu[M][0]
        st = self.p.interp.loopinfo[lid]['pre']
        if self.name == 'Abs2rel':
            for t, lits in leaves(init):
                ok = t is NONE or t.op == 'param' or t.op == 'mu'
                c.ob('start', con, ok, 'the first note follows {}'.format(show(t)), self.p.where)
            return
        if init.op == 'mu' and init in self.p.interp.mu:
            return          # the loop of a nested generator
        for t, lits in leaves(init):
            lits = dict(lits)
            if not consistent(lits, st.facts):
                continue
            if t.op != 'new':
                c.ob('start', con, False, 'the first note follows {}'.format(show(t)), self.p.where)
                continue
            rd = [e for e in self.reads if e.args[0] is t]
            if rd:
                self.start_note(rd[0], t, lits, st, con)
            else:
                self.default_start(t, lits, st, con)
                # only without a start pitch
                first = [e for e in self.reads if not e.loops or e.loops == (self.p.interp.loopinfo[lid].get('loops') or ())]

    def start_note(self, e, t, lits, st, con):
        c = self.c
        x = e.args[1]
        ok = x.op in ('index', 'item') and x.args[1] in (0, ZERO) and any(
            y.op == 'call' and callee_name(y.args[0]) == 'skip_comments' for z in contents(x.args[0], e.state.heap) for y in subterms(z[1]))
        c.ob('start', con, ok, 'the start pitch is {}'.format(show(x)), e.where)
        facts = real_facts(e.facts)
        facts.update(lits)
        k = isinst(x, self.K.cls('Pitchable'))
        c.ob('start', con, not consistent(facts, [(k, False)]), 'anything counts as start pitch', e.where)
        if x.op in ('index', 'item'):
            more = [f for f in facts if any(y.op == 'len' and y.args[0] is x.args[0] for y in subterms(f))]
            c.ob('start', con, bool(more), 'a note alone counts as start pitch', e.where)
        fs = self.forms(st, t, x, dict(e.facts, **{}))
        ok = bool(fs) and all(fm and fm.base == 'same' and not fm.moved and fm.how == 'plain' for fm in fs)
        c.ob('start', con, ok, 'the first note follows a changed start pitch', e.where)
        if self.name == 'Transpose':
            self.got = False
            self.is_ref(e, t, None, st, {**e.facts, **lits}, con, absolute=True)
            self.was_kept(e, con)

    def default_start(self, t, lits, st, con):
        c = self.c
        pool = list(triple(st, t)) + list(lits)

        def value(facts):
            v = tuple(under(a, self.st(facts)) for a in triple(st, t))
            return tuple(a.args[0] if a.op == 'const' else None for a in v) if not any(a.op == 'unbound' for a in v) else None
        setting = [y for f in pool for y in subterms(f) if y.op == 'attr' and y.args[0].op == 'param' and y.args[0].args[0] == 'self'
                   and y.args[1].endswith('first_pitch_absolute')]
        old = [y for f in pool for y in subterms(f) if y.op == 'cmp' and any(
            z.op == 'call' and callee_name(z.args[0]) == 'lilypond_version' for z in subterms(y))]
        if not setting or not old:
            c.ob('start', con, False, 'the first note follows {} whatever the settings'.format(value(lits)), self.p.where)
            return
        a = setting[0]
        b = old[0]
        okb = b.args[0] == '<' and b.args[2].op == 'tuple' and tuple(y.args[0] for y in b.args[2].args if y.op == 'const') == (2, 18)
        c.ob('start', con, okb, 'the default is from version {}'.format(show(b)), self.p.where)
        for case, new in (([(is_none(a), False), (truth(a), True)], True), ([(is_none(a), False), (truth(a), False)], False),
                          ([(is_none(a), True), (truth(a), False), (b, False)], True), ([(is_none(a), True), (truth(a), False), (b, True)], False)):
            if self.name == 'Abs2rel':
                case = [(truth(mk('attr', param('self'), 'start_pitch')), False)] + case
            if consistent(lits, case):
                want = (-1, 3, 0) if new else (0, 0, 0)
                val = value({**lits, **dict(case)})
                if val is not None:
                    c.ob('start', con, val == want, 'the first note follows {} when it is {}'.format(val, 'absolute' if new else 'relative'), self.p.where)

    def start_pitch(self, o, lits, w):
        """The start pitch of Abs2rel is the one that is written."""
        c, con = self.c, self.con + ' start'
        sp = truth(mk('attr', param('self'), 'start_pitch'))
        if lits.get(sp) is True or not consistent(lits, [(sp, False)]):
            ok = False
            for e in self.p.events:
                if e.seq < w.seq and e.kind in ('call', 'mutate'):
                    for t in terms_of(e):
                        if t.op == 'call' and callee_name(t.args[0]) == 'pitchable' and o in t.args[1]:
                            ok = True
            c.ob('start', con, ok, 'the first note is relative to a start pitch that is not written', w.where)
            return
        st = w.state
        self.default_start(o, lits, st, con)

    # -------------------------------------------------------------- dispatch
    def dispatch(self):
        c = self.c
        I = self.p.interp
        P = self.K.cls('Pitchable')
        for e in self.reads:
            bad = [y.name for f, v in e.facts.items() if f.op == 'isinstance' and v is True and f.args[0] is e.args[1]
                   for y in classes_of(f)[1] if isinstance(y, Class) and not y.issub(P)]
            bad = bad if e.facts.get(isinst(e.args[1], P)) is not True else []
            c.ob('dispatch', self.con + ' read', not bad, 'reads the pitch of {}'.format(', '.join(bad) or 'notes'), e.where)
        for lid, info in list(I.loopinfo.items()):
            key = info['key']
            if not (isinstance(key, T) and key.op == 'call' and callee_name(key.args[0]) == 'follow_language'):
                continue
            evs = [e for e in self.p.events if lid in e.loops]
            n = mk('elem', key, '')
            atoms = {t for e in evs for f in e.facts for t in subterms(f) if t.op == 'isinstance' and t.args[0] is n}
            names = {y.name for a in atoms for y in classes_of(a)[1] if isinstance(y, Class)}
            if 'Pitchable' not in names:
                if self.name == 'Abs2rel':
                    self.entry(n, key, evs, atoms)
                continue        # looks for other things than notes
            self.kinds(n, evs, atoms, lid)

    def entry(self, n, key, evs, atoms):
        """Music in relative or fixed music is not made relative (again)."""
        wanted = {y.args[0] for t in subterms(key) if t.op == 'call' and callee_name(t.args[0]) == 'instances_of'
                  for a in t.args[1] for y in subterms(a) if y.op == 'cls'}
        if not wanted:
            return
        for name in ('Relative', 'Fixed'):
            k = self.K.cls(name)
            con = '{} entry {}'.format(self.con, name)
            self.c.ob('dispatch', con, any(k.issub(y) for y in wanted), 'music in {} is made relative'.format(name), self.p.where)
            f = self.K.assign(atoms, n, k)
            bad = [e for e in evs if consistent(real_facts(e.facts), f) and (
                e.kind in ('read', 'write') or e.kind == 'call' and e.args[0].op == 'closure')]
            self.c.ob('dispatch', con, not bad, 'music in {} is made relative'.format(name), bad[0].where if bad else self.p.where)

    def kinds(self, n, evs, atoms, lid):
        c = self.c
        lily = [k for k in self.K.m.all_classes() if k.module.name.endswith('dom.lily') and k.issub(self.K.m.cls('dom.element.Element'))]
        groups = {}
        for k in sorted(lily, key=lambda k: k.name):
            kind = next((x for x in GOVERN + NOTES if k.issub(self.K.cls(x))), 'music')
            if k.issub(self.K.cls('Language')) or k.issub(self.K.cls('Include')):
                continue
            f = self.K.assign(atoms, n, k)
            groups.setdefault((kind, tuple(sorted((a.id, v) for a, v in f))), (k, f, []))[2].append(k.name)
        for (kind, _), (k, f, members) in sorted(groups.items(), key=lambda x: x[1][0].name):
            c.unit('kind')
            act = self.actions(n, evs, f)
            names = members[0] if len(members) == 1 else '{} kinds such as {}'.format(len(members), members[0])
            for bad in self.misdone(kind, act, n, evs, f):
                c.ob('dispatch', self.con + ' ' + kind, not bad, '{}: {}'.format(names, bad or 'well treated'),
                     next(iter(act.values())).where if act else self.p.where)

    def misdone(self, kind, act, n, evs, f):
        """What is wrong with the actions for an element of the kind ('' when nothing)."""
        done = '/'.join(sorted(act))
        if kind in EXEMPT or self.name == 'Abs2rel' and kind in OWN or self.name == 'Rel2abs' and kind in OWN and kind != 'Relative':
            yield act and 'its pitches are not exempt ({})'.format(done)
            return
        yield not act and 'nothing is done with the pitches in it'
        if kind == 'Pitchable' or self.name != 'Transpose' and kind in ('Chord', 'OctaveCheck'):
            yield not ('yield' in act or 'read' in act) and 'the note or chord is not visited'
        if kind in OWN and not (kind == 'Transpose' and not self.relative(evs)):
            yield bool({'yield', 'walk'} & set(act) and self.p.func.is_generator) and 'its notes are treated like the notes around it'
        if self.name == 'Transpose' and kind in ('Chord', 'OctaveCheck') and self.relative(evs):
            yield 'yield' not in act and 'the notes in it are treated like notes in relative music'
        if kind not in OWN and 'walk' in act and 'call' in act:
            # in the same mode
            fn, args, kws = act['call'].args[:3]
            if fn.op == 'closure' and fn.args[0] is self.p.func:
                names = [a.arg for a in fn.args[0].node.args.args]
                given = dict(zip(reversed(names), reversed(fn.args[2])))
                given.update(zip(names, args))
                given.update(kws)
                bad = [k for k, v in self.p.args.items() if v.op == 'const' and given.get(k) is not v]
                yield bad and 'the music in it is visited with another {}'.format(bad[0])
        if kind == 'music':
            yield not {'walk', 'call', 'read'} & set(act) and 'it is not visited'

    def relative(self, evs):
        """Whether chords are yielded as a whole."""
        return any(e.kind == 'yield' and any(f.op == 'isinstance' and v is True and f.args[0] is e.args[0] and any(
            isinstance(y, Class) and y.name == 'Chord' for y in classes_of(f)[1]) for f, v in e.facts.items()) for e in evs)

    def touches(self, t, n, heap):
        """Whether n or something in it is in t, or in a list in t."""
        if depth_in(t, n) is not None:
            return True
        return any(y.op == 'new' and any(depth_in(z[1], n) is not None for z in contents(y, heap))
                   for y in subterms(t))

    def actions(self, n, evs, assigned):
        """What is done with the node n: {name of action: event}."""
        acts = {}
        for e in evs:
            if not consistent(real_facts(e.facts), assigned):
                continue
            heap = e.state.heap
            if e.kind == 'yield':
                if e.args[0] is n:
                    acts.setdefault('yield', e)
                elif self.touches(e.args[0], n, heap):
                    acts.setdefault('walk', e)
            elif e.kind == 'yield_from':
                if self.touches(e.args[0], n, heap):
                    acts.setdefault('walk', e)
            elif e.kind in ('write', 'read'):
                if self.touches(e.args[0 if e.kind == 'write' else 1], n, heap):
                    acts.setdefault(e.kind, e)
            elif e.kind == 'call' and e.args[0].op == 'closure':
                if any(self.touches(a, n, heap) for a in e.args[1]):
                    acts.setdefault('call', e)
            elif e.kind in ('mutate', 'setitem', 'setprop', 'store', 'delitem'):
                if any(self.touches(a, n, heap) for a in terms_of(e)):
                    acts.setdefault('change', e)
        return acts
