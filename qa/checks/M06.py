"""M06: every pitch language writes names that it reads as the same pitch.

Decided with value flow, by following the rows of the pitch name table: reading
a name gives the octave, step and alteration of its row; the reversed table
files each name under the step, alteration and octave of its own row, in its
own language; the name chosen for a pitch is one of the names filed under the
step and alteration of that pitch, and the octave given with it is the octave
of the pitch less that of the name. Choosing by preference only selects from
the names offered. A node is rewritten only with such a pair, or keeps its name
when it has that step and alteration already.
"""
from ..lib import *
from ..algebra import *

TECHNIQUE = ('Value-flow from the rows of the pitch name table through the reversed table and the preference handlers to '
             'the stores of head and octave; membership and normal-form arguments on the resulting terms.')
NOTE = ('The name table itself belongs to the parser library. That it is keyed by name makes names unique within a '
        'language; the rest is decided on the code for all languages at once.')

ROW = ('octave', 'note', 'alter')


def check(c):
    m = c.model
    k = m.cls('pitch.Pitch')
    pp = m.cls('pitch.PitchProcessor')

    def method(cls, name):
        f = cls.lookup(name)
        if not f or f[1] != 'method':
            raise AnalysisBroken('{}.{} not found'.format(cls.name, name))
        c.unit('function')
        return f[2]
    c.guard('pitch', '__init__', lambda: pitch_fields(c, m, k, method(k, '__init__')))
    c.guard('pitch', 'copy', lambda: copied(c, m, k, method(k, 'copy')))
    c.guard('pitch', 'compare', lambda: compared(c, m, k))
    c.guard('reversed', 'table', lambda: reverse_table(c, m))
    c.guard('read', 'pitch', lambda: read(c, m, k, pp, method(pp, 'pitch')))
    c.guard('read', 'read_node', lambda: read_node(c, m, k, pp, method(pp, 'read_node')))
    c.guard('chosen', 'name_octave', lambda: chosen(c, m, pp, method(pp, 'name_octave')))
    c.guard('preferred', 'handlers', lambda: preferred(c, m, pp))
    c.guard('write', 'write_node', lambda: write_node(c, m, pp, method(pp, 'write_node')))
    c.guard('write', 'process', lambda: process(c, m, pp, method(pp, 'process')))
    c.guard('write', 'pitchable', lambda: pitchable(c, m, pp, method(pp, 'pitchable')))
    c.guard('write', 'to_string', lambda: to_string(c, m, pp, method(pp, 'to_string')))
    c.guard('marks', 'octave', lambda: marks(c, m))
    c.guard('guess', 'determine_language', lambda: guess(c, m))
    c.floor('pitch', 7)
    c.floor('reversed', 4)
    c.floor('read', 6)
    c.floor('chosen', 4)
    c.floor('preferred', 10)
    c.floor('write', 7)
    c.floor('marks', 3)


def field(r, t, n):
    return r.state.heap.get((t, n)) if r.state else None


def pitch_fields(c, m, k, f):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=k)
    for n, p in zip(ROW, ps[1:]):
        v = field(r, param(ps[0]), n)
        c.ob('pitch', '__init__ ' + n, v is param(p), 'the {} is {}'.format(n, show(v) if v is not None else 'not set'), f.where)


def copied(c, m, k, f):
    I = node_interp(m)
    r = I.run(f, cls=k)
    A = Algebra()
    me = param(f.params()[0])
    for v, conds in leaves(r.value):
        if v.op != 'new':
            c.ob('pitch', 'copy', v is not me, 'a copy is the pitch itself', f.where)
            continue
        for n in ROW:
            x = field(r, v, n)
            ok = x is not None and x.op == 'attr' and x.args[0] is me and x.args[1] == n
            c.ob('pitch', 'copy ' + n, ok, 'the {} of a copy is {}'.format(n, show(x) if x is not None else 'not set'), f.where)


def compared(c, m, k):
    """Equality looks at all three values of both."""
    f = k.lookup('__eq__')
    if not f or f[1] != 'method':
        c.ob('pitch', '__eq__', False, 'pitches cannot be compared', k.name)
        return
    f = f[2]
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=k)
    seen = {p: set() for p in ps}
    for t in subterms(r.value):
        if t.op == 'attr' and t.args[0].op == 'param' and t.args[1] in ROW:
            seen[t.args[0].args[0]].add(t.args[1])
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[0].op == 'param' and not t.args[1]:
            g = k.lookup(t.args[0].args[1])
            if g and g[1] == 'method':
                J = node_interp(m)
                w = J.run(g[2], cls=k)
                for x in subterms(w.value):
                    if x.op == 'attr' and x.args[1] in ROW:
                        seen[t.args[0].args[0].args[0]].add(x.args[1])
    c.ob('pitch', '__eq__', all(s == set(ROW) for s in seen.values()),
         'comparing looks at ' + ', '.join(sorted(set.intersection(*seen.values()))), f.where)


# -- the tables
def table(t):
    return t.op == 'global' and t.args[1] == 'pitch_names'


def row_of(t):
    """(language, name) when t is a row of the name table."""
    if t.op == 'item' and t.args[0].op == 'item' and table(t.args[0].args[0]):
        return t.args[0].args[1], t.args[1]
    return None


def at(t):
    """(row, index) when t is a value of a row."""
    if t.op == 'item' and is_const(t.args[1]) and row_of(t.args[0]):
        i = t.args[1].args[0]
        return t.args[0], i if i >= 0 else i + 3
    return None


def reverse_table(c, m):
    mod = m.module('quickly.pitch')
    a = mod.assigns.get('pitch_names_reversed')
    if not a:
        raise AnalysisBroken('pitch_names_reversed not found')
    f = None
    for n in ast.walk(a[0][0]):
        if isinstance(n, ast.Name) and n.id in mod.funcs:
            f = mod.funcs[n.id]
    if f is None:
        c.unknown('reversed', 'table', 'not made by a function')
        return
    I = node_interp(m)
    I.trace_states = True
    r = I.run(f)
    home = None
    for e in r.events:
        if e.kind != 'mutate' or e.args[1] not in ('append', 'add', 'insert'):
            continue
        name = e.args[2][-1]
        base = e.args[0]
        path = []
        while base.op == 'item':
            path.insert(0, base.args[1])
            base = base.args[0]
        if len(path) != 2:
            continue
        c.unit('construct')
        home = base
        na, octv = path
        lang = [t for t in subterms(name) if row_lang(t)]
        row = None
        pos = []
        for t in (octv,) + (na.args if na.op == 'tuple' else (na,)):
            x = at(t)
            pos.append(x[1] if x else None)
            row = x[0] if x and (row is None or row is x[0]) else False
        c.ob('reversed', 'order', pos == [0, 1, 2], 'names are filed under the values {} of their row as octave, step and alteration'.format(pos), e.where)
        ok = row not in (None, False) and row_of(row)[1] is name and name.op == 'elem' and row_name_source(name, row)
        c.ob('reversed', 'own row', ok, '{} is filed under the values of another row'.format(show(name)), e.where)
        fs = real_facts(e.facts)
        fs = {k: v for k, v in fs.items() if not (k.op == 'more' or k.op == 'has')}
        c.ob('reversed', 'every name', not fs, 'only names with {} are filed'.format(', '.join(show(x) for x in fs)), e.where)
    if home is None:
        c.unknown('reversed', 'table', 'the construction of the table is not recognised')
        return
    got = []
    for e in r.yields:
        v = e.args[0]
        if v.op == 'tuple' and len(v.args) == 2:
            got.append((v.args[0], v.args[1], e))
    for lang, d, e in got:
        ok = row_lang_term(lang, r.events)
        c.ob('reversed', 'own language', ok, 'the names are given under ' + show(lang), e.where)
        # the finished table has the same keys
        same(c, d, home, I.made, e.state.heap, 2, e.where)
    if not got:
        c.unknown('reversed', 'result', 'no result recognised')


def same(c, t, src, made, heap, depth, where):
    if t is src or depth == 0:
        if depth == 0:
            x = t
            while x.op in ('tupleof', 'iter') or x.op == 'new' and len(contents(x, heap)) == 1 and contents(x, heap)[0][0] == 'some':
                x = x.args[0] if x.op != 'new' else contents(x, heap)[0][1]
            c.ob('reversed', 'all kept', x is src or x.op == 'call' and x.args[1] and x.args[1][0] is src and callee_name(x.args[0]) in ('tuple', 'list', 'sorted', 'set', 'frozenset'),
                 'the names become ' + show(t), where)
        return
    if t.op == 'call' and callee_name(t.args[0]) == 'dict' and t.args[1] and t.args[1][0] is src:
        return
    vals = made.get(t, ())
    if t.op != 'new' or not vals:
        c.unknown('reversed', 'kept {}'.format(depth), 'the table becomes ' + show(t))
        return
    x = vals[-1]
    segs = heap.get((t, '[]'))
    if segs and any(s[2] for s in segs):
        c.ob('reversed', 'kept {}'.format(depth), False, 'only part of the table is kept', where)
    if x.op != 'tuple' or len(x.args) != 2:
        c.unknown('reversed', 'kept {}'.format(depth), 'the table becomes ' + show(t))
        return
    key, val = x.args
    ok = key.op == 'elem' and key.args[0] is src
    c.ob('reversed', 'kept {}'.format(depth), ok, 'the keys become ' + show(key), where)
    if ok:
        same_val(c, val, src, key, made, heap, depth - 1, where)


def same_val(c, val, src, key, made, heap, depth, where):
    """Go on with the item of src under key, whatever its version."""
    def is_item(t):
        return t.op == 'item' and t.args[0] is src and t.args[1] is key
    cand = [t for t in subterms(val) if is_item(t)]
    if val.op == 'new':
        for s in made.get(val, ()):
            cand += [t for t in subterms(s) if is_item(t)]
    if not cand:
        c.ob('reversed', 'kept {}'.format(depth), False, 'the entry becomes ' + show(val), where)
        return
    same(c, val, cand[0], made, heap, depth, where)


def row_lang(t):
    return t.op == 'item' and table(t.args[0])


def row_name_source(name, row):
    return row_of(row) and name.args[0] is row.args[0]


def row_lang_term(lang, events):
    return lang.op == 'elem' and table(lang.args[0])


# -- reading
def entry(I, v, r):
    return {n: field(r, v, n) for n in ROW}


def lang_attr(t, me):
    """Whether t is the language of the processor."""
    return t.op == 'attr' and t.args[0] is me and t.args[1] in ('_language', 'language')


def read(c, m, k, pp, f):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=pp)
    me, name = param(ps[0]), param(ps[1])
    for v, conds in leaves(r.value):
        if v.op != 'new':
            c.unknown('read', 'pitch', 'gives ' + show(v))
            continue
        for i, n in enumerate(ROW):
            x = field(r, v, n)
            a = x is not None and at(x)
            ok = a and a[1] == i and row_of(a[0])[1] is name and lang_attr(row_of(a[0])[0], me)
            c.ob('read', 'pitch ' + n, ok, 'the {} read is {}'.format(n, show(x) if x is not None else 'not set'), f.where)


def read_node(c, m, k, pp, f):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f, cls=pp)
    me, node = param(ps[0]), param(ps[1])
    A = Algebra()
    for v, conds in leaves(r.value):
        if v.op != 'new':
            c.unknown('read', 'read_node', 'gives ' + show(v))
            continue
        for i, n in enumerate(ROW):
            x = field(r, v, n)
            rows = [t for t in subterms(x) if at(t)] if x is not None else []
            ok = len(set(rows)) == 1
            if ok:
                row, j = at(rows[0])
                lang, name = row_of(row)
                ok = j == i and lang_attr(lang, me) and is_attr(name, node, 'head')
                rest = add(A.poly(x), A.poly(rows[0]), -1)
                octs = [t for t in subterms(x) if is_attr(t, node, 'octave')]
                want = A.poly(octs[0]) if octs else None
                ok = ok and (rest == {} if i else want is not None and rest == want)
            c.ob('read', 'read_node ' + n, ok, 'the {} read from a node is {}'.format(n, show(x) if x is not None else 'not set'), f.where)


def is_attr(t, base, name):
    return t.op == 'attr' and t.args[0] is base and t.args[1] == name


# -- choosing a name
def chosen(c, m, pp, f):
    I = node_interp(m, opaque={'_suitable'})
    ps = f.params()
    r = I.run(f, cls=pp)
    me, pitch = param(ps[0]), param(ps[1])
    A = Algebra()
    n = 0
    for v, conds in leaves(r.value):
        if v is NONE:
            continue
        if v.op != 'tuple' or len(v.args) != 2:
            c.unknown('chosen', 'result', 'gives ' + show(v))
            continue
        name, octave = v.args
        for w, cs in leaves(name):
            cs = settled(tuple(cs) + tuple(conds))
            if cs is None:
                continue
            n += 1
            c.unit('path')
            offered = w
            how = 'picked'
            if w.op == 'call' and callee_name(w.args[0]) == '_suitable':
                how = 'preferred'
                if len(w.args[1]) != 2:
                    c.unknown('chosen', how, 'handler called with ' + show(w))
                    continue
                lang, offered = w.args[1]
                c.ob('chosen', how + ' language', lang_attr(lang, me), 'the preference of {} is used'.format(show(lang)), f.where)
                sure = any(p and (t is truth(w) or t is w) or not p and t is is_none(w) for t, p in cs)
                c.ob('chosen', how + ' found', sure, 'the name may be None', f.where)
            elif w.op in ('item', 'elem', 'next'):
                offered = w.args[0]
                if offered.op == 'iter':
                    offered = offered.args[0]
            elif w.op == 'call' and callee_name(w.args[0]) in ('min', 'max', 'next') and w.args[1]:
                offered = w.args[1][0]
            else:
                c.unknown('chosen', how, 'the name is ' + show(w))
                continue
            path = item_path(offered)
            ok = path is not None and len(path) == 3
            if not ok:
                c.ob('chosen', how + ' names', False, 'the name comes from ' + show(offered), f.where)
                continue
            lang, na, k = path
            ok = na.op == 'tuple' and len(na.args) == 2 and is_attr(na.args[0], pitch, 'note') and is_attr(na.args[1], pitch, 'alter')
            c.ob('chosen', how + ' names', ok and lang_attr(lang, me), 'the name comes from ' + show(offered), f.where)
            octs = [t for t in subterms(octave) if is_attr(t, pitch, 'octave')]
            p = A.poly(octave)
            ok = bool(octs) and p == add(A.poly(octs[0]), A.poly(k), -1)
            c.ob('chosen', how + ' octave', ok, 'the octave is {}'.format(show(octave)), f.where)


def settled(cs):
    """The literals that follow from the conditions; None if contradictory."""
    if not consistent(cs):
        return None
    out = known(cs)
    for t, p in list(out.items()):
        if t.op == 'truth' and t.args[0].op == 'ite':
            x = under(t.args[0], {k: v for k, v in out.items() if k is not t})
            if is_const(x):
                if bool(x.args[0]) != p:
                    return None
            else:
                out[truth(x)] = p
    return tuple(out.items())


def item_path(t):
    """The keys under which t is found in the reversed table."""
    path = []
    while t.op == 'item' or t.op == 'elem' and t.args[0].op == 'item':
        path.insert(0, t.args[1])
        t = t.args[0]
    return path if t.op == 'global' and t.args[1] == 'pitch_names_reversed' else None


def drawn(t, names, heap, depth=0):
    """Whether every value of t is among the items of names."""
    if depth > 8:
        return False
    if t.op == 'ite':
        return drawn(t.args[1], names, heap, depth + 1) and drawn(t.args[2], names, heap, depth + 1)
    if t.op in ('item', 'elem', 'next', 'each'):
        return within(t.args[0], names, heap, depth + 1)
    if t.op == 'call' and callee_name(t.args[0]) in ('min', 'max', 'next') and t.args[1]:
        return within(t.args[1][0], names, heap, depth + 1)
    return False


def within(t, names, heap, depth):
    """Whether every item of t is an item of names."""
    if depth > 10:
        return False
    if t is names:
        return True
    if t.op == 'ite':
        return within(t.args[1], names, heap, depth + 1) and within(t.args[2], names, heap, depth + 1)
    if t.op in ('iter', 'tupleof', 'slice'):
        return within(t.args[0], names, heap, depth + 1)
    if t.op == 'call' and callee_name(t.args[0]) in ('sorted', 'list', 'tuple', 'reversed') and t.args[1]:
        return within(t.args[1][0], names, heap, depth + 1)
    if t.op == 'call' and callee_name(t.args[0]) == 'filter' and len(t.args[1]) == 2:
        return within(t.args[1][1], names, heap, depth + 1)
    if t.op == 'new':
        segs = heap.get((t, '[]'))
        return segs is not None and all(
            drawn(s[1], names, heap, depth + 1) if s[0] in ('one', 'each') else within(s[1], names, heap, depth + 1) for s in segs)
    return False


def preferred(c, m, pp):
    hs = {}
    for f in pp.registered:
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and len(f.params()) == 2:
                hs[d.args[0].value] = f
    if not hs:
        raise AnalysisBroken('no preference handlers found')
    for lang, f in sorted(hs.items()):
        c.unit('function')
        I = node_interp(m)
        r = I.run(f, cls=pp)
        names = param(f.params()[1])
        for v, conds in leaves(r.value):
            if v is NONE:
                continue
            if v.op in ('lazy', 'unknown'):
                c.unknown('preferred', lang, 'gives ' + show(v))
                continue
            # the lists are those of the state at the return
            c.ob('preferred', lang, drawn(v, names, r.state.heap), 'prefers {}, which may be none of the names offered'.format(show(v)), f.where)


# -- writing
def pair_of(t):
    """(call, index) when t is a part of what name_octave returns."""
    if t.op == 'item' and is_const(t.args[1]) and t.args[0].op == 'call' and callee_name(t.args[0].args[0]) == 'name_octave':
        return t.args[0], t.args[1].args[0]
    return None


def write_node(c, m, pp, f):
    I = node_interp(m, opaque={'name_octave'})
    ps = f.params()
    r = I.run(f, cls=pp)
    me, node, pitch = (param(x) for x in ps[:3])
    A = Algebra()
    heads, octs = [], []
    for e in r.events:
        if e.kind == 'store' and e.args[0] is node:
            if e.args[1] == 'head':
                heads.append(e)
            elif e.args[1] == 'octave':
                octs.append(e)
            else:
                c.ob('write', 'write_node ' + str(e.args[1]), False, 'changes the {} of the node'.format(e.args[1]), e.where)
    c.ob('write', 'write_node stores', bool(octs), 'does not set the octave', f.where)
    for e in heads:
        for v, conds in leaves(e.args[2]):
            if is_attr(v, node, 'head'):
                continue
            x = pair_of(v)
            c.ob('write', 'write_node head', x and x[1] == 0 and x[0].args[1] == (pitch,), 'the head becomes ' + show(v), e.where)
    for e in octs:
        for v, conds in leaves(e.args[2]):
            x = pair_of(v)
            if x:
                mine = [h for h in heads if h.facts == e.facts or consistent(h.facts, e.facts)]
                ok = x[1] == 1 and x[0].args[1] == (pitch,) and bool(mine)
                c.ob('write', 'write_node octave', ok, 'the octave becomes {} without the name that belongs to it'.format(show(v)), e.where)
                continue
            # the name is kept
            rows = [t for t in subterms(v) if at(t) and at(t)[1] == 0]
            own = [t for t in subterms(v) if is_attr(t, pitch, 'octave')]
            ok = bool(rows) and bool(own) and is_attr(row_of(at(rows[0])[0])[1], node, 'head') \
                and A.poly(v) == add(A.poly(own[0]), A.poly(rows[0]), -1)
            c.ob('write', 'write_node kept octave', ok, 'the octave with the same name becomes ' + show(v), e.where)
            k = known(e.facts, conds)
            eq = {n: False for n in ('note', 'alter')}
            for t, p in k.items():
                if t.op == 'cmp' and t.args[0] in ('==', 'is') and p:
                    a, b = t.args[1:]
                    for x, y in zip(a.args, b.args) if a.op == 'tuple' and b.op == 'tuple' else ((a, b),):
                        for i, n in enumerate(ROW):
                            if n in eq and any(at(s) and at(s)[1] == i and is_attr(o, pitch, n) for s, o in ((x, y), (y, x))):
                                eq[n] = True
            c.ob('write', 'write_node kept name', all(eq.values()), 'the name is kept though the {} may differ'.format(
                ' and '.join(n for n in eq if not eq[n])), e.where)


def process(c, m, pp, f):
    I = node_interp(m, opaque={'read_node', 'write_node'})
    ps = f.params()
    I.trace_states = True
    r = I.run(f, cls=pp)
    node, write = param(ps[1]), param(ps[2])
    reads = list(calls_to(r.events, 'read_node'))
    writes = list(calls_to(r.events, 'write_node'))
    ok = len(reads) == 1 and reads[0].args[1][:1] == (node,)
    c.ob('write', 'process reads', ok, 'does not read the given node once', f.where)
    ok = len(writes) >= 1 and all(e.args[1][:1] == (node,) and len(e.args[1]) == 2 and callee_name(e.args[1][1].args[0]) == 'read_node'
                                  for e in writes if len(e.args[1]) == 2 and e.args[1][1].op == 'call') and all(len(e.args[1]) == 2 and e.args[1][1].op == 'call' for e in writes)
    c.ob('write', 'process writes', ok, 'does not write the pitch that was read to the same node', f.where)
    for e in writes:
        fs = {k: v for k, v in real_facts(e.facts).items() if not mentions_term(k, write)}
        sure = any(mentions_term(k, write) and v is True and k in (truth(write), write) for k, v in e.facts.items())
        c.ob('write', 'process when', not fs and sure, 'writes under the condition ' + ', '.join(show(x) for x in real_facts(e.facts)), e.where)


def mentions_term(t, x):
    return any(y is x for y in subterms(t))


def pitchable(c, m, pp, f):
    I = node_interp(m, opaque={'name_octave'})
    ps = f.params()
    r = I.run(f, cls=pp)
    pitch = param(ps[1])
    n = 0
    for e in r.events:
        if e.kind == 'new' and len(e.args) > 2 or e.kind == 'call' and e.args[0] is param(ps[2]):
            args, kws = (e.args[1], e.args[2])
            d = dict(kws) if kws else {}
            if not args:
                continue
            a, b = pair_of(args[0]), d.get('octave')
            if a is None and b is None:
                continue
            b = b is not None and pair_of(b)
            n += 1
            ok = a and b and a[1] == 0 and b[1] == 1 and a[0].args[1] == (pitch,) and b[0].args[1] == (pitch,)
            c.ob('write', 'pitchable', ok, 'made with ' + ', '.join([show(x) for x in args] + ['{}={}'.format(x, show(y)) for x, y in d.items()]), e.where)
    if not n:
        c.unknown('write', 'pitchable', 'construction not recognised')


def to_string(c, m, pp, f):
    I = node_interp(m, opaque={'name_octave', 'octave_to_string'})
    ps = f.params()
    r = I.run(f, cls=pp)
    pitch = param(ps[1])
    for v, conds in leaves(r.value):
        parts = concat(v)
        ok = len(parts) == 2
        if ok:
            a = pair_of(parts[0])
            b = parts[1]
            ok = a and a[1] == 0 and a[0].args[1] == (pitch,) and b.op == 'call' and callee_name(b.args[0]) == 'octave_to_string' \
                and pair_of(b.args[1][0]) and pair_of(b.args[1][0])[1] == 1
        c.ob('write', 'to_string', ok, 'gives ' + show(v), f.where)


def concat(t):
    if t.op == 'bin' and t.args[0] == '+':
        return concat(t.args[1]) + concat(t.args[2])
    if t.op == 'fmt':
        return [x for x in t.args if not (is_const(x) and x.args[0] == '')]
    return [t]


def marks(c, m):
    """Octave marks: one sign for each octave, the same sign both ways."""
    w, rd = m.func('pitch.octave_to_string'), m.func('pitch.octave_from_string')
    I = node_interp(m)
    n = param(w.params()[0])
    A = Algebra()
    got = {}
    v = I.run(w).value
    for t, conds in leaves(v):
        p = None
        if t.op == 'bin' and t.args[0] == '*':
            for s, x in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if is_const(s) and isinstance(s.args[0], str) and len(s.args[0]) == 1:
                    p = A.poly(x)
                    k = known(conds)
                    lower = any(bound(f, q, n) < 0 for f, q in k.items())
                    upper = any(bound(f, q, n) > 0 for f, q in k.items())
                    sign = 1 if p == atom(n) else -1 if p == scale(atom(n), -1) else 0
                    if x.op == 'call' and callee_name(x.args[0]) == 'abs' and x.args[1] == (n,):
                        sign = -1 if lower else 1 if upper else 0
                    ok = sign and (sign > 0 and not lower or sign < 0 and not upper)
                    c.ob('marks', 'written ' + ('up' if upper else 'down' if lower else 'always'), ok, 'writes {} for the octave'.format(show(t)), w.where)
                    got[s.args[0]] = sign
        elif is_const(t) and t.args[0] == '':
            continue
        if p is None:
            c.unknown('marks', 'written', 'writes ' + show(t))
    r = node_interp(m).run(rd).value
    p = A.poly(r)
    back = {}
    for mm, k in p.items():
        a = mm[0] if len(mm) == 1 else None
        t = a if isinstance(a, T) else None
        if t is not None and t.op == 'call' and callee_name(t.args[0]) == 'count' and len(t.args[1]) == 1 and is_const(t.args[1][0]):
            back[t.args[1][0].args[0]] = int(k)
        else:
            c.unknown('marks', 'read', 'reads ' + show(r))
            return
    c.ob('marks', 'read', back == got, 'reads {} and writes {}'.format(back, got), rd.where)


def bound(f, p, n):
    """-1 if the fact says n < 0 (or n <= 0), 1 if it says n >= 0, 0 if nothing."""
    if f.op == 'cmp' and f.args[0] in ('<', '<='):
        a, b = f.args[1:]
        if a is n and is_const(b) and b.args[0] in (0, 1):
            return -1 if p else 1
        if b is n and is_const(a) and a.args[0] in (0, -1):
            return 1 if p else -1
    return 0


def guess(c, m):
    """Only languages that know all names are yielded."""
    f = m.func('pitch.determine_language')
    I = node_interp(m)
    I.trace_states = True
    r = I.run(f)

    def names_of_lang(t, v, heap):
        if t.op == 'new':
            return any(names_of_lang(x, v, heap) for kind, x, lits in contents(t, heap) if x is not t)
        return any(x.op == 'item' and table(x.args[0]) and x.args[1] is v for x in subterms(t))

    for e in r.yields:
        v = e.args[0]
        ok = False
        for t, p in e.facts.items():
            d = t.args[0] if t.op == 'truth' else t
            if d.op == 'bin' and d.args[0] == '-' and names_of_lang(d.args[2], v, e.state.heap) and not names_of_lang(d.args[1], v, e.state.heap):
                ok = ok or not p                # nothing left after removing the known names
            elif d.op == 'cmp' and d.args[0] == '<=' and names_of_lang(d.args[2], v, e.state.heap):
                ok = ok or p
            elif d.op == 'call' and callee_name(d.args[0]) == 'issubset' and d.args[1] and names_of_lang(d.args[1][0], v, e.state.heap):
                ok = ok or p
            elif d.op == 'call' and callee_name(d.args[0]) in ('all', 'any', 'difference', 'issuperset'):
                ok = None if not ok else ok
        if ok is None:
            c.unknown('guess', 'determine_language', 'yields {} under a condition that is not understood'.format(show(v)))
        else:
            c.ob('guess', 'determine_language', ok, 'yields {} though a name may be unknown'.format(show(v)), e.where)
