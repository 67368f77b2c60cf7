"""Flow of positions and texts in the list of edits.

Every edit that is handed out is classified by where its two positions and its
text come from; rewriting an existing piece of text must use that piece's own
start, end and text and happen exactly when it is marked as modified, inserting
must happen at the place reached so far, and deleting must stop before the next
surviving piece.  The pieces themselves must be reported head first, then the
children in order, then the tail, and applying must pass on all edits in one
transaction.
"""
from ..lib import *
from .E01 import point_fields

TECHNIQUE = 'gated value flow and path conditions of every yielded edit and point; loop-carried variable recurrences'
NOTE = ('Every yield of the edit and point generators with its path condition; the recurrence of the position reached so '
        'far; every assignment to the document.')


def names_of(m):
    v = point_names(m)
    return v


def point_names(m):
    t = m.modules['quickly.dom.element'].assigns.get('Point')
    t = t[0] if isinstance(t, list) else t
    t = t[0] if isinstance(t, tuple) else t
    a = t.args[1] if isinstance(t, ast.Call) and len(t.args) > 1 else None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value.replace(',', ' ').split()
    if isinstance(a, (ast.Tuple, ast.List)):
        return [x.value for x in a.elts]
    raise AnalysisBroken('fields of Point not found')


class Points:
    """Recognises fields of the generic point of an iteration over points()."""

    def __init__(self, names):
        self.names = names

    def src(self, t):
        x = t
        for _ in range(4):
            if x.op in ('elem', 'iter', 'tupleof', 'from') and isinstance(x.args[0], T):
                x = x.args[0]
            elif x.op == 'new':
                return False
            else:
                break
        return t.op in ('elem', 'from') and x.op == 'call' and callee_name(x.args[0]) == 'points'

    def field(self, t):
        if t.op == 'attr' and self.src(t.args[0]):
            return t.args[1]
        if t.op == 'item' and self.src(t.args[0]) and is_const(t.args[1]) and isinstance(t.args[1].args[0], int):
            i = t.args[1].args[0]
            return self.names[i] if -len(self.names) <= i < len(self.names) else None
        return None

    def text(self, t):
        return t.op == 'call' and not t.args[1] and self.field(t.args[0]) == 'text'


def q(facts, pred):
    """Known truth value of conditions matching pred."""
    for f, v in facts.items():
        r = pred(f)
        if r is not None:
            return v if r else not v
    return None


def check_edits(c, m):
    el = m.cls('dom.element.Element')
    f = el.lookup('edits')[2]
    P = Points(point_names(m))
    I = node_interp(m, opaque={'points', 'collapse_whitespace', 'combine_text'})
    r = I.run(f, cls=el)
    con = 'Element.edits'
    ps = f.params()
    S, ctx = param(ps[0]), param(ps[1])
    if r.state is None:
        c.ob('edits', con, False, 'never finishes', f.where)
        return
    kinds = {'rewrite': 0, 'insert': 0, 'delete': 0, 'space': 0, 'rest': 0}

    def posnone(fct):
        if fct.op == 'cmp' and fct.args[0] == 'is' and fct.args[2] is NONE and P.field(fct.args[1]) == 'pos':
            return True
    cursor = None
    ys = [e for e in r.events if e.kind == 'yield']
    for y in ys:
        v = under(y.args[0], y.facts)
        if v.op == 'tuple' and len(v.args) == 3 and v.args[0] is v.args[1] and v.args[0].op == 'mu' \
                and any(P.text(x) for x in subterms(v.args[2])):
            cursor = v.args[0]
    c.ob('edits', con + ': insert', cursor is not None,
         'no text is inserted at the position reached so far for new elements', f.where)
    if cursor is None:
        return
    rest = None
    for y in ys:
        c.unit('yields')
        v = under(y.args[0], y.facts)
        if v.op != 'tuple' or len(v.args) != 3:
            c.ob('edits', con + ': shape', False, 'yields {} instead of position, end and text'.format(show(v)), y.where)
            continue
        st = State()
        st.facts = dict(y.facts)
        a, b, text = (under(x, st) for x in v.args)
        has_text = any(P.text(x) for x in subterms(text))
        isnew = q(y.facts, posnone)
        others = {k: w for k, w in real_facts(y.facts).items() if posnone(k) is None}
        if has_text and P.field(a) == 'pos':
            kinds['rewrite'] += 1
            c.ob('edits', con + ': rewrite end', P.field(b) == 'end', 'rewrites from its position up to {}'.format(show(b)), y.where)
            c.ob('edits', con + ': rewrite text', P.text(text), 'rewrites with {}'.format(show(text)), y.where)
            mod = q(others, lambda k: True if k.op == 'truth' and P.field(k.args[0]) == 'modified' or P.field(k) == 'modified' else None)
            c.ob('edits', con + ': rewrite modified', mod is True, 'rewrites text of an element that is not known to be modified', y.where)
            c.ob('edits', con + ': rewrite existing', isnew is False, 'rewrites an element without position', y.where)
            more = {k: w for k, w in others.items() if not any(P.field(x) == 'modified' for x in subterms(k))}
            c.ob('edits', con + ': rewrite always', not more, 'a modified element is only rewritten when {}'.format(
                ' and '.join(('' if w else 'not ') + show(k) for k, w in more.items())), y.where)
        elif has_text:
            kinds['insert'] += 1
            c.ob('edits', con + ': insert new', isnew is True, 'inserts the text of an element that already exists', y.where)
            c.ob('edits', con + ': insert place', a is cursor and b is cursor, 'inserts at {} .. {}'.format(show(a), show(b)), y.where)
            parts = concat_parts(text)
            c.ob('edits', con + ': insert text', P.text(parts[-1]) and len([x for x in parts if P.text(x)]) == 1,
                 'inserts {}'.format(show(text)), y.where)
            more = {k: w for k, w in others.items() if not any(P.text(x) for x in subterms(k))}
            c.ob('edits', con + ': insert always', not more, 'a new element is only inserted when {}'.format(
                ' and '.join(('' if w else 'not ') + show(k) for k, w in more.items())), y.where)
        elif y.loops:
            c.ob('edits', con + ': delete existing', isnew is False, 'text is deleted for an element that has no position', y.where)
            if P.field(a) == 'pos':
                kinds['space'] += 1
                c.ob('edits', con + ': space', P.field(b) == 'pos', 'deletes from the start of an element up to {}'.format(show(b)), y.where)
                continue
            kinds['delete'] += 1
            c.ob('edits', con + ': delete from', a is cursor, 'deletes from {}, not from the place reached so far'.format(show(a)), y.where)
            ahead = q(others, lambda k: True if k.op == 'cmp' and k.args[0] == '<' and k.args[1] is cursor
                      and P.field(k.args[2]) == 'pos' else None)
            c.ob('edits', con + ': delete ahead', ahead is True, 'deletes although the element is not known to lie ahead', y.where)
            for x, lits in leaves(b):
                c.ob('edits', con + ': delete up to', token_bound(I, P, x, cursor), 'deletes up to {}, which may be behind the next '
                     'surviving element'.format(show(x)), y.where)
        else:
            kinds['rest'] += 1
            rest = y
            lv = leaves(b)
            ok = all(x is param('end') or x.op == 'attr' and x.args[0] is ctx and x.args[1] == 'end' for x, _ in lv)
            for x, lits in lv:
                if x.op == 'attr':
                    ok = ok and any(k is is_none(param('end')) and w for k, w in lits)
            c.ob('edits', con + ': rest up to', ok and any(x is param('end') for x, _ in lv), 'deletes the rest up to {}'.format(show(b)), y.where)
            c.ob('edits', con + ': rest from', last_cursor(a, cursor), 'deletes the rest from {}'.format(show(a)), y.where)
            c.ob('edits', con + ': rest text', text is const(''), 'replaces the rest by {}'.format(show(text)), y.where)
            more = [k for k, w in real_facts(y.facts).items() if not (k.op == 'cmp' and k.args[0] in ('<', '==') and a in k.args and b in k.args)]
            c.ob('edits', con + ': rest always', not more, 'the rest is only deleted when {}'.format(' and '.join(map(show, more))), y.where)
    for k, n in kinds.items():
        if k != 'space':
            c.ob('edits', con + ': has ' + k, n > 0, 'there is no {} edit'.format(k), f.where)
    # the place reached so far
    init, nxt = I.mu[cursor][:2]
    ok = all(x is param('start') or x.op == 'attr' and x.args[0] is ctx and x.args[1] == 'pos' for x, _ in leaves(init))
    for x, lits in leaves(init):
        none = [w for k, w in lits if k is is_none(param('start'))]
        ok = ok and (none == [True] if x.op == 'attr' else none != [True])
    c.ob('edits', con + ': starts', ok, 'starts at {}'.format(show(init)), f.where)
    conds = {k for k in subterms(nxt) if posnone(k)}
    for isnew in (True, False):
        st = State()
        for k in conds:
            st.facts[k] = isnew
        for x, lits in leaves(under(nxt, st)):
            ok = x is cursor if isnew else P.field(x) == 'end'
            c.ob('edits', '{}: place after {}'.format(con, 'new' if isnew else 'existing'), ok,
                 'after {} element the place reached is {}'.format('a new' if isnew else 'an existing', show(x)), f.where)
    # tokens are consumed once, from the context
    for e in r.events:
        if e.kind == 'consume' and e.args[0].op == 'call' and callee_name(e.args[0].args[0]) == 'tokens':
            c.ob('edits', con + ': tokens', callee_base(e.args[0].args[0]) is ctx, 'looks at the tokens of {}'.format(
                show(callee_base(e.args[0].args[0]))), e.where)


def last_cursor(a, cursor):
    return a is cursor


def concat_parts(t):
    if t.op == 'bin' and t.args[0] == '+':
        return concat_parts(t.args[1]) + concat_parts(t.args[2])
    if t.op == 'fmt':
        return [x for x in t.args if isinstance(x, T)] or [t]
    return [t]


def token_elem(t):
    return t.op == 'elem' and any(x.op == 'call' and callee_name(x.args[0]) == 'tokens' for x in subterms(t))


def token_bound(I, P, x, cursor):
    """x is the end of a token before the point, the start of the token that stopped the search, or the cursor."""
    if x is cursor or P.field(x) == 'pos':
        return True
    if x.op == 'mu' and x in I.mu:
        init, nxt = I.mu[x][:2]
        return (init is cursor or init.op == 'unbound' or P.field(init) == 'pos') and all(
            y is x or y.op == 'attr' and y.args[1] == 'end' and token_elem(y.args[0]) for y, _ in leaves(nxt)) and stops(I, P)
    if x.op == 'attr' and token_elem(x.args[0]):
        return x.args[1] == 'pos' and stops(I, P)
    return False


def stops(I, P):
    """The search over the tokens stops at the first token at or behind the point."""
    found = False
    for brk, facts in I.breakfacts.items():
        for fs in facts:
            for k, v in fs.items():
                if k.op == 'cmp' and k.args[0] == '<' and any(token_elem(x.args[0]) for x in k.args[1:] if x.op == 'attr'):
                    a, b = k.args[1], k.args[2]
                    if a.op == 'attr' and a.args[1] == 'pos' and token_elem(a.args[0]) and P.field(b) == 'pos' and v is False:
                        found = True
    return found


def check_points(c, m):
    el = m.cls('dom.element.Element')
    seen = set()
    for cls in [el] + m.subclasses(el):
        hit = cls.lookup('points')
        if not hit or hit[1] != 'method' or hit[2] in seen:
            continue
        f = hit[2]
        seen.add(f)
        I = node_interp(m, opaque={'head_point', 'tail_point', 'concat_space', 'collapse_whitespace'})
        r = I.run(f, cls=hit[0])
        con = '{}.points'.format(hit[0].name)
        S = param(f.params()[0])
        order = []
        bases = set()
        for e in r.events:
            if e.kind != 'yield':
                continue
            c.unit('yields')
            v = under(e.args[0], e.facts)
            for x, lits in leaves(v):
                x = mu_next(I, x)
                kind = None
                y = x
                if y.op == 'call' and callee_name(y.args[0]) == '_replace':
                    keys = [k for k, _ in y.args[2]]
                    c.ob('points', con + ': adjusted', not y.args[1] and all(k in ('space_after', 'space_before') for k in keys),
                         'the {} of a point is changed'.format(', '.join(map(str, keys))), e.where)
                    y = mu_next(I, callee_base(y.args[0]))
                if y.op == 'call' and callee_name(y.args[0]) in ('head_point', 'tail_point') and callee_base(y.args[0]) is S:
                    kind = callee_name(y.args[0])
                    facts = real_facts(e.facts)
                    more = [k for k in facts if not any(z is y for z in subterms(k)) and not about_point(k)]
                    c.ob('points', '{}: {}'.format(con, kind), not more, 'the {} is only reported when {}'.format(
                        kind, ' and '.join(map(show, more))), e.where)
                elif child_point(y):
                    kind = 'child'
                    b = child_point(y)
                    bases.add(b)
                    k = [z for z in subterms(b) if z.op in ('reversed', 'slice') or z.op == 'builtin' and z.args[0] in ('reversed', 'sorted')]
                    ok = b.op == 'elem' and b.args[1] == '' and not k or b.op == 'mu'
                    c.ob('points', con + ': children', ok and any(z is S for z in subterms(b)),
                         'the points of {} are reported'.format(show(b)), e.where)
                else:
                    c.ob('points', con + ': source', False, 'reports {}'.format(show(x)), e.where)
                if kind:
                    order.append((kind, e))
        ks = [k for k, e in order]
        for need in ('head_point', 'child', 'tail_point'):
            c.ob('points', '{}: has {}'.format(con, need), need in ks, 'the {} is never reported'.format(
                {'head_point': 'head', 'child': 'contents', 'tail_point': 'tail'}[need]), f.where)
        rank = {'head_point': 0, 'child': 1, 'tail_point': 2}
        c.ob('points', con + ': order', [rank[k] for k in ks] == sorted(rank[k] for k in ks),
             'reports {} in this order'.format(', '.join(ks)), f.where)
        for k, e in order:
            if k != 'child':
                c.ob('points', '{}: {} once'.format(con, k), not e.loops, 'is reported in a loop', e.where)
            else:
                more = [z for z in real_facts(e.facts) if not about_point(z)]
                c.ob('points', con + ': children always', not more, 'contents are only reported when {}'.format(
                    ' and '.join(map(show, more))), e.where)
        # every child taken from the list has its points reported
        elems = set()
        for e in r.events:
            if e.kind == 'consume' and (e.args[0] is S or e.args[0].op in ('iter', 'elem') and e.args[0].args[0] is S):
                elems.add(e.args[0])
        c.ob('points', con + ': walks', bool(elems), 'the children are not walked over', f.where)


def about_point(k):
    return any(x.op == 'call' and callee_name(x.args[0]) in ('head_point', 'tail_point') for x in subterms(k)) \
        or any(x.op in ('choice', 'more', 'brk') for x in subterms(k))


def child_point(y):
    """y is an element of <child>.points(); returns the child term."""
    x = y
    for _ in range(5):
        if x.op in ('elem', 'from', 'iter', 'tupleof', 'next') and isinstance(x.args[0], T):
            x = x.args[0]
        else:
            break
    if x is not y and x.op == 'call' and callee_name(x.args[0]) == 'points':
        return callee_base(x.args[0])
    return None


def check_edit(c, m):
    el = m.cls('dom.element.Element')
    f = el.lookup('edit')[2]
    ps = f.params()
    S, doc, ctx = param(ps[0]), param(ps[1]), param(ps[2])
    I = node_interp(m, opaque={'edits'})
    r = I.run(f, cls=el)
    con = 'Element.edit'
    if r.state is None:
        c.ob('apply', con, False, 'never returns', f.where)
        return

    def edits_item(t, i):
        if t.op == 'item' and t.args[1] is const(i):
            x = t.args[0]
            y = listed(x, r.state.heap)
            return y is not x and y.op == 'call' and callee_name(y.args[0]) == 'edits'
        return False

    def counts(t):
        if t.op == 'len':
            y = listed(t.args[0], r.state.heap)
            return y.op == 'call' and callee_name(y.args[0]) == 'edits'
        return t.op == 'mu' and t in I.mu and I.mu[t][0] is ZERO \
            and I.mu[t][1] in (mk('bin', '+', t, const(1)), mk('bin', '+', const(1), t))
    sets = [e for e in r.events if e.kind == 'setitem' and e.args[0] is doc]
    c.ob('apply', con + ': writes', len(sets) == 1, 'the edits are applied at {} places'.format(len(sets)), f.where)
    for e in sets:
        k, v = e.args[1], e.args[2]
        ok = k.op == 'sl' and edits_item(k.args[0], 0) and edits_item(k.args[1], 1) and k.args[2] is NONE and edits_item(v, 2)
        c.ob('apply', con + ': edit', ok, 'document[{}] = {} does not apply the edit as listed'.format(show(k), show(v)), e.where)
        ent = [x for x in r.events if x.kind == 'enter' and x.args[0] is doc]
        c.ob('apply', con + ': transaction', len(ent) == 1 and ent[0].seq < e.seq and not ent[0].loops
             and all(x.seq > e.seq for x in r.events if x.kind == 'exit' and x.args[0] is doc),
             'the edits are not applied in one transaction', e.where)
        c.ob('apply', con + ': all', not real_facts(e.facts), 'an edit is only applied when {}'.format(
            ' and '.join(map(show, real_facts(e.facts)))), e.where)
        t = r.value
        ok = counts(t)
        c.ob('apply', con + ': count', ok, 'returns {} instead of the number of edits'.format(show(t)), f.where)
    for e in calls_to(r.events, 'edits'):
        a, kw = list(e.args[1]), dict(e.args[2])
        g = el.lookup('edits')[2].params()[1:]
        amap = dict(zip(g, a))
        amap.update(kw)
        c.ob('apply', con + ': start', amap.get('start') is param('start'), 'passes {} as start'.format(amap.get('start')), e.where)
        c.ob('apply', con + ': end', amap.get('end') is param('end'), 'passes {} as end'.format(amap.get('end')), e.where)
        t = amap.get(g[0])
        ok = t is not None and all(x is ctx or (x.op == 'attr' and x.args[1] == 'root' and any(y is doc for y in subterms(x))
                                                and any(k is is_none(ctx) and w for k, w in lits)) for x, lits in leaves(t))
        c.ob('apply', con + ': context', ok, 'uses the context {}'.format(t), e.where)


def check(c):
    m = c.model
    c.guard('edits', 'Element.edits', lambda: check_edits(c, m))
    c.guard('points', 'Element.points', lambda: check_points(c, m))
    c.guard('apply', 'Element.edit', lambda: check_edit(c, m))
    c.floor('edits', 20)
    c.floor('points', 10)
    c.floor('apply', 6)
