"""Editing a text document: one operation, one write-back, no reference left.

The attribute that document() hands out is followed through edit_cursor() as a
typestate, on normal and on exceptional exits; the range passed to the
operation, the region passed to the write-back and the value of changes() are
followed to the cursor and its document by value flow.
"""
from ..lib import *

TECHNIQUE = 'typestate of the document reference over all normal and exceptional exits; gated value flow of the range, region and results'
NOTE = ('All implementations of edit(), edit_cursor(), edit_document(), edit_node() and edit_range() in the package; every call they '
        'make may fail. Whether Range.from_nodes() makes the right range is not part of this.')

OPAQUE = {'edit_range', 'from_nodes', 'find_descendant_right', 'find_descendant_left', '__init__', 'edits'}


def attr_of(m, cls, name):
    f = cls.lookup(name)
    if not f or f[1] != 'method':
        raise AnalysisBroken('{} not found'.format(name))
    r = Interp(m).run(f[2], cls=cls)
    S = param(f[2].params()[0])
    found = {x.args[1] for x in subterms(r.value) if x.op == 'attr' and x.args[0] is S}
    if len(found) != 1:
        raise AnalysisBroken('attribute behind {}() not found'.format(name))
    return found.pop()


def new_args(I, r, t):
    for e in r.events:
        if e.kind == 'new' and e.args[0] is t:
            return e.args[1], dict(e.args[2]) if len(e.args) > 2 and e.args[2] else {}
    return None


def amap(call, names):
    d = dict(zip(names, call.args[1]))
    d.update(dict(call.args[2]))
    return d


def check_cursor(c, m, cls, f):
    base = m.cls('dom.edit.Edit')
    doc_attr, chg_attr = attr_of(m, base, 'document'), attr_of(m, base, 'changes')
    con = '{}.{}'.format(f.cls.name, f.name)
    ps = f.params()
    S, cur = param(ps[0]), param(ps[1])
    I = node_interp(m, opaque=OPAQUE | {'edit'})
    r = I.run(f, cls=cls)
    if r.state is None:
        c.ob('cursor', con, False, 'never returns', f.where)
        return

    def is_doc(t):
        return t.op == 'call' and callee_name(t.args[0]) == 'document' and callee_base(t.args[0]) is cur and not t.args[1]

    def is_tree(t):
        if t.op != 'call' or callee_name(t.args[0]) != 'get_transform' or not is_doc(callee_base(t.args[0])):
            return False
        a = list(t.args[1]) + [v for k, v in t.args[2]]
        return a == [TRUE]

    def from_cursor(t, side):
        """t is the node at a side of the selection."""
        name, at = (('find_descendant_right', 'pos') if side == 'start' else ('find_descendant_left', 'end'))
        if t.op != 'call' or callee_name(t.args[0]) != name:
            return False
        a = list(t.args[1]) + [v for k, v in t.args[2]]
        want = mk('attr', cur, at)
        ok = a == [want] or side == 'start' and len(a) == 1 and a[0].op == 'attr' and a[0].args[0] is cur
        return is_tree(callee_base(t.args[0])) and ok

    def below(I, t):
        """t is the last node below the end node."""
        return t.op == 'mu' and t in I.mu and from_cursor(I.mu[t][0], 'end')

    def selected(facts):
        return q1(facts, lambda k: k.op == 'truth' and k.args[0].op == 'call' and callee_name(k.args[0].args[0]) == 'has_selection'
                  and callee_base(k.args[0].args[0]) is cur)

    def q1(facts, p):
        for k, v in (facts.items() if isinstance(facts, dict) else facts):
            if p(k):
                return v

    # the operation
    ops = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'edit_range' and callee_base(e.args[0]) is S]
    c.ob('cursor', con + ': operation', len(ops) == 1 and not ops[0].loops and not real_facts(ops[0].facts),
         'the operation is not performed exactly once in every case', f.where)
    if len(ops) != 1:
        return
    op = ops[0]
    opval = mk_call(I, r, op)
    for x, lits in leaves(r.value):
        c.ob('cursor', con + ': result', opval is x or x.op == 'call' and callee_name(x.args[0]) == 'edit_range',
             'returns {} instead of the result of the operation'.format(show(x)), f.where)
    # the reference during the operation
    before = [e for e in r.events if e.kind == 'store' and e.args[0] is S and e.args[1] == doc_attr and e.seq < op.seq]
    c.ob('document', con + ': available', bool(before) and is_doc(before[-1].args[2]) and not real_facts(before[-1].facts),
         'document() does not return the document during the operation', f.where)

    def let_go(st):
        v = st.heap.get((S, doc_attr))
        if v is None:
            return True
        v = under(v, st)
        return all(x is NONE or x.op == 'unbound' or x.op == 'attr' and x.args[0] is S and x.args[1] == doc_attr
                   for x, _ in leaves(v))
    n = 0
    for s, x in r.raises:
        n += 1
        c.unit('exceptional exits')
        if not let_go(s):
            c.ob('document', con + ': failing', False, 'still refers to the document when {} is raised'.format(show(x)), f.where)
            break
    else:
        c.ob('document', con + ': failing', True, '', f.where)
    c.ob('document', con + ': finished', let_go(r.state), 'still refers to the document afterwards', f.where)
    # the range
    rng = op.args[1][0] if op.args[1] else dict(op.args[2]).get('r')
    if rng is None:
        c.ob('range', con, False, 'no range is passed to the operation', op.where)
        return
    kinds = set()
    rooted = 0
    for x, lits in leaves(under(rng, r.state)):
        if x is NONE or x.op == 'unbound':
            continue
        c.unit('ranges')
        if x.op == 'new':
            a = new_args(I, r, x)
            args = list(a[0]) if a else []
            if len(args) + len(a[1]) > 1 and selected(flat(lits)) is True:
                continue        # the range for a selection without nodes, see M03
            if len(args) + len(a[1]) > 1:
                c.ob('range', con + ': whole', False, 'passes a range with boundaries of its own', op.where)
                continue
            c.ob('range', con + ': whole', bool(args) and is_tree(args[0]),
                 'the range is not one over the current document tree', op.where)
            kinds.add('whole')
        elif x.op == 'call' and callee_name(x.args[0]) == 'from_nodes':
            d = amap(x, ('start_node', 'end_node', 'from_root'))
            s, e, root = d.get('start_node', NONE), d.get('end_node', NONE), d.get('from_root', FALSE)
            st = State()
            st.facts = dict(lits)
            ok = from_cursor(s, 'start') and (from_cursor(e, 'end') or e is NONE or below(I, e))
            c.ob('range', con + ': selection', ok, 'the range goes from {} up to {}'.format(show(s), show(e)), op.where)
            if e is NONE:
                kinds.add('from')
                c.ob('range', con + ': open', any(k.op == 'truth' and k.args[0] is mk('attr', S, 'range_from_cursor') and v for k, v in flat(lits)),
                     'the operation reaches behind the selection', op.where)
            else:
                kinds.add('selection')
                ok = root is mk('attr', S, 'range_from_root')
                if root is TRUE:
                    # a selection that is one node needs a range that starts above it
                    ok = any(v and k.op == 'cmp' and k.args[0] in ('is', '==') and any(
                        x.op == 'call' and callee_name(x.args[0]) == 'ancestor' for x in k.args[1:]) and any(
                        from_cursor(x, 'start') for x in k.args[1:]) for k, v in flat(lits))
                else:
                    rooted += 1
                c.ob('range', con + ': root', ok, 'does not observe range_from_root', op.where)
        else:
            c.ob('range', con + ': source', False, 'the range is {}'.format(show(x)), op.where)
    c.ob('range', con + ': rooted', rooted > 0, 'does not observe range_from_root', op.where)
    c.ob('range', con + ': kinds', kinds >= {'whole', 'selection'}, 'no range is made for {}'.format(
        ' or '.join(sorted({'whole', 'selection'} - kinds))), op.where)
    # the write-back
    ws = [e for e in r.events if e.kind == 'call' and callee_name(e.args[0]) == 'edit' and e.args[0].op != 'param']
    c.ob('write', con + ': once', len(ws) == 1 and not ws[0].loops, 'the changes are written back at {} places'.format(len(ws)), f.where)
    for w in ws:
        facts = real_facts(w.facts)
        ro = [v for k, v in facts.items() if k.op == 'truth' and k.args[0] is mk('attr', S, 'readonly')]
        c.ob('write', con + ': readonly', ro == [False], 'writes although the edit is read-only', w.where)
        more = [k for k in facts if not (k.op == 'truth' and k.args[0] is mk('attr', S, 'readonly'))]
        c.ob('write', con + ': always', not more, 'only writes when {}'.format(' and '.join(map(show, more))), w.where)
        c.ob('write', con + ': order', w.seq > op.seq, 'writes before the operation', w.where)
        b = callee_base(w.args[0])
        ok = is_tree(b) or b is not None and b.op == 'call' and callee_name(b.args[0]) in ('ancestor', 'root')
        c.ob('write', con + ': tree', ok, 'writes the changes of {}'.format(show(b)), w.where)
        d = dict(zip(('document', 'context', 'start', 'end'), w.args[1]))
        d.update(dict(w.args[2]))
        c.ob('write', con + ': document', is_doc(d.get('document', NONE)), 'writes to {}'.format(show(d.get('document', NONE))), w.where)
        c.ob('write', con + ': context', d.get('context', NONE) is NONE, 'passes a context', w.where)
        for side, at in (('start', 'pos'), ('end', 'end')):
            seen = False
            for x, lits in leaves(d.get(side, NONE)):
                if x.op == 'unbound':
                    continue
                fl = flat(lits)
                sel = selected(fl)
                if x is NONE:
                    # no limit: only without selection or when no node was found at this side
                    found = [v for k, v in fl if k.op == 'truth' and from_cursor(k.args[0], side)]
                    both = []
                    for k, v in fl:
                        for y in subterms(k):
                            if from_cursor(y, 'start') or from_cursor(y, 'end'):
                                both += [(truth(y), True), (is_none(y), False)]
                            if from_cursor(y, side):
                                found += [v2 for k2, v2 in fl if k2 is truth(y)] + [not v2 for k2, v2 in fl if k2 is is_none(y)]
                    if both and not consistent(fl, both):
                        found.append(False)     # no range of nodes is selected
                    c.ob('write', '{}: {} open'.format(con, side), sel is False or False in found,
                         'the {} is not limited to the selection'.format(side), w.where)
                else:
                    seen = True
                    ok = x.op == 'attr' and x.args[1] == at and from_cursor(x.args[0], side) or x is mk('attr', cur, at)
                    c.ob('write', '{}: {}'.format(con, side), ok, 'the {} is limited to {}'.format(side, show(x)), w.where)
            c.ob('write', '{}: {} limited'.format(con, side), seen, 'the {} is never limited to the selection'.format(side), w.where)
    # the number of changes
    v = r.state.heap.get((S, chg_attr))
    if v is None:
        c.ob('changes', con, False, 'the number of changes is not recorded', f.where)
    else:
        for x, lits in leaves(under(v, r.state)):
            ok = x is ZERO or x.op == 'call' and callee_name(x.args[0]) == 'edit'
            if x is ZERO:
                ok = any(k.op == 'truth' and k.args[0] is mk('attr', S, 'readonly') and val for k, val in flat(lits)) \
                    or q1(r.state.facts, lambda k: k.op == 'truth' and k.args[0] is mk('attr', S, 'readonly')) is True
            c.ob('changes', con, ok, 'records {} as the number of changes'.format(show(x)), f.where)


def flat(lits, *more):
    return list(known(lits, *more).items())


def mk_call(I, r, e):
    for x in subterms(r.value):
        if x.op == 'call' and x.args[0] is e.args[0] and x.args[1] == e.args[1]:
            return x


def check_simple(c, m, cls, name, f):
    """edit_document(), edit_node() and edit()."""
    con = '{}.{}'.format(f.cls.name, f.name)
    ps = f.params()
    S, arg = param(ps[0]), param(ps[1])
    kinds = {'edit_range', 'edit_node', 'edit_document', 'edit_cursor'}
    I = node_interp(m, opaque=kinds | {'__init__'})
    r = I.run(f, cls=cls)
    if r.state is None or r.value is None:
        c.ob('delegate', con, False, 'never returns', f.where)
        return
    calls = [e for e in r.events if e.kind == 'call' and callee_base(e.args[0]) is S and callee_name(e.args[0]) in kinds]
    for x, lits in returned(r):
        if x.op == 'call' and x.args[0] is NONE:
            continue        # fails
        c.unit('results')
        c.ob('delegate', con + ': result', x.op == 'call' and callee_base(x.args[0]) is S and callee_name(x.args[0]) in kinds,
             'returns {} instead of the result of the operation'.format(show(x)), f.where)
        if x.op != 'call' or callee_name(x.args[0]) not in kinds:
            continue
        target = callee_name(x.args[0])
        a = list(x.args[1]) + [v for k, v in x.args[2]]
        if len(a) != 1:
            c.ob('delegate', con + ': argument', False, 'passes {} arguments'.format(len(a)), f.where)
            continue
        a = a[0]
        if name == 'edit':
            want = {'edit_cursor': 'Cursor', 'edit_document': 'AbstractDocument', 'edit_range': 'Range', 'edit_node': 'Element'}[target]
            kn = [k for k, v in flat(lits) if v and k.op == 'isinstance' and k.args[0] is arg]
            cls_names = {n.name if isinstance(n, Class) else str(n).split('.')[-1].rstrip("'>") for k in kn
                         for n in (k.args[1] if isinstance(k.args[1], tuple) else (k.args[1],))}
            cls_names = {w.args[0].split('.')[-1] if isinstance(w, T) and w.args and isinstance(w.args[0], str) else w for w in cls_names}
            c.ob('delegate', '{}: {}'.format(con, target), a is arg and any(want in str(w) for w in cls_names),
                 'calls {} for {}'.format(target, ', '.join(map(str, cls_names)) or 'any object'), f.where)
        elif name == 'edit_document':
            ok = target == 'edit_cursor' and a.op in ('call', 'new') and whole_cursor(I, r, a, arg) or target == 'edit_document'
            c.ob('delegate', con + ': argument', ok, 'calls {} with {}'.format(target, show(a)), f.where)
        elif name == 'edit_node':
            na = new_args(I, r, a) if a.op == 'new' else None
            ok = target == 'edit_range' and na is not None and list(na[0]) == [arg] and not na[1] or target == 'edit_node' and a is arg
            c.ob('delegate', con + ': argument', ok, 'calls {} with {}'.format(target, show(a)), f.where)
    for e in calls:
        c.ob('delegate', con + ': once', not e.loops, 'performs the operation in a loop', e.where)
    n = max_calls(calls)
    c.ob('delegate', con + ': one', n <= 1, 'performs the operation more than once', f.where)
    if name == 'edit_node':
        no_writes(c, con, r, f)


def returned(r):
    for st, v in r.returns:
        for x, lits in leaves(under(v, st)):
            yield x, known(st.facts, lits)


def max_calls(calls):
    """Two operations on one path?"""
    for i, a in enumerate(calls):
        for b in calls[i + 1:]:
            if not any(b.facts.get(k) is (not v) for k, v in a.facts.items() if b.facts.get(k) is not None):
                return 2
    return 1


def whole_cursor(I, r, a, arg):
    if a.op == 'call' and callee_name(a.args[0]) == 'Cursor':
        x = list(a.args[1]) + [v for k, v in a.args[2]]
    else:
        x = new_args(I, r, a)
        if x is None or a.op != 'new' or getattr(a.args[0], 'name', str(a.args[0])).split('.')[-1] != 'Cursor':
            return False
        x = list(x[0]) + list(x[1].values())
    return x[:1] == [arg] and all(y is ZERO for y in x[1:])


def no_writes(c, con, r, f):
    for e in r.events:
        bad = e.kind == 'call' and callee_name(e.args[0]) in ('edit_cursor', 'edit_document') \
            or e.kind == 'call' and callee_name(e.args[0]) in ('edit', 'edits') and e.args[1] \
            or e.kind in ('setitem', 'delitem') and from_document(e.args[0])
        c.ob('nowrite', con, not bad, 'writes to a document', e.where)


def from_document(t):
    return t.op == 'call' and callee_name(t.args[0]) == 'document' or t.op == 'attr' and t.args[1] in ('_document', 'document')


def check_range(c, m, cls, f):
    """Implementations of edit_range() leave writing to edit_cursor()."""
    import ast as _ast
    con = '{}.{}'.format(f.cls.name, f.name)
    for n in _ast.walk(f.node):
        if isinstance(n, _ast.Call) and isinstance(n.func, _ast.Attribute):
            c.unit('calls')
            bad = n.func.attr in ('edit_cursor', 'edit_document') or n.func.attr == 'edit' and not isinstance(n.func.value, _ast.Name)
            doc = n.func.attr in ('edit', 'edits') and any(
                isinstance(x, _ast.Call) and isinstance(x.func, _ast.Attribute) and x.func.attr == 'document'
                or isinstance(x, _ast.Attribute) and x.attr == '_document' for a in list(n.args) + [k.value for k in n.keywords] for x in _ast.walk(a))
            c.ob('nowrite', con, not (bad or doc), 'writes to a document', '{}:{}'.format(f.module.path, n.lineno))
        if isinstance(n, (_ast.Assign, _ast.AugAssign, _ast.Delete)):
            for t in getattr(n, 'targets', None) or [n.target]:
                if isinstance(t, _ast.Subscript):
                    src = _ast.dump(t.value)
                    c.ob('nowrite', con, "attr='document'" not in src and "attr='_document'" not in src,
                         'writes to a document', '{}:{}'.format(f.module.path, n.lineno))


def check(c):
    m = c.model
    base = m.cls('dom.edit.Edit')
    seen = set()
    for cls in [base] + m.subclasses(base):
        for name in ('edit', 'edit_cursor', 'edit_document', 'edit_node', 'edit_range'):
            hit = cls.lookup(name)
            if not hit or hit[1] != 'method' or hit[2] in seen:
                continue
            f = hit[2]
            seen.add(f)
            if name == 'edit_cursor':
                c.guard('cursor', f.qualname, lambda: check_cursor(c, m, cls, f))
            elif name == 'edit_range':
                c.guard('nowrite', f.qualname, lambda: check_range(c, m, cls, f))
            else:
                c.guard('delegate', f.qualname, lambda: check_simple(c, m, cls, name, f))
    c.floor('cursor', 2)
    c.floor('document', 3)
    c.floor('range', 4)
    c.floor('write', 8)
    c.floor('delegate', 8)
