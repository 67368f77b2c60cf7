"""M03: music edits change only what lies inside the selected range.

Every operation (a class with an edit_range method) is analysed with its closures
(qa/walks.py). Each event that writes to a node must be under a condition from which
it follows that this node lies in the range; it must be of the kind the operation is
about; and what leads to the write may not exclude nodes the operation applies to.
"""
from ..walks import *

TECHNIQUE = ('Value-flow of every edit operation with its closures to the write events; propositional entailment of '
             'membership in the range from the guards of each write, and of the guards from the kind of node.')
NOTE = ('Which nodes a range contains is decided by Range itself (see Q01); pitch reading and writing is M06, '
        'how pitches follow each other M04.')

PITCH = frozenset('process write_node head octave oct_check'.split())
RHYTHM = frozenset('duration scaling duration_scaling'.split())
STRUCTURE = frozenset('append insert extend remove pop clear replace_with node [] del[] take'.split())
MUTATES = frozenset('append insert extend remove pop clear replace_with take sort reverse add'.split())
OPQ = OPAQUE | {'octave', 'oct_check', 'head'}


class Write:
    def __init__(self, event, target, kind, cond=TRUE, value=None, args=()):
        self.event = event
        self.target = target
        self.kind = kind
        self.cond = cond
        self.value = value
        self.args = args


def check(c):
    m = c.model
    base = m.cls('dom.edit.Edit')
    rhythm = m.cls('rhythm.EditRhythm')
    for cls in sorted(m.all_classes(), key=lambda x: x.qualname):
        if not cls.issub(base) or cls in (base, rhythm):
            continue
        f = cls.lookup('edit_range')
        if not f or f[1] != 'method' or f[0] is base:
            continue
        c.unit('operation')
        c.guard('inside', cls.name, lambda: operation(c, m, cls, f[2], cls.issub(rhythm)))
    c.guard('written back', 'PitchProcessor', lambda: processor(c, m))
    c.guard('selection', 'Edit', lambda: entry(c, m, base))
    c.guard('selection', 'Range.nodes', lambda: empty(c, m))
    c.floor('inside', 20)
    c.floor('kind', 20)
    c.floor('complete', 9)
    c.floor('selection', 6)


# ------------------------------------------------------------------ writes
def fresh(p, t, procs, depth=0):
    """Whether t is an object of the operation itself, not a node of the music."""
    if depth > 8:
        return False
    for x, _ in leaves(t):
        if x.op in ('new', 'entered', 'const', 'tuple', 'closure', 'cls'):
            continue
        if x.op == 'param' and x.args[0] == 'self':
            continue
        if x.op == 'attr' and x.args[0].op == 'param' and x.args[0].args[0] == 'self':
            continue
        if x.op == 'attr' and x.args[1] == 'transposed' or x.op == 'call' and callee_name(x.args[0]) in ('read_node', 'copy', 'pitchable'):
            continue
        if x.op == 'mu' and x in p.interp.mu:
            if all(y is x or y.op == 'mu' and y.args[0] == x.args[0] or fresh(p, y, procs, depth + 1)
                   for z in p.interp.mu[x] for y in parts(z)):
                continue
            return False
        if x.op == 'elem' and x.args[0].op == 'call' and x.args[0].args[0].op == 'closure':
            ys = yields_of(x.args[0].args[0], procs)
            if ys and all(fresh(q, y, procs, depth + 1) for q, y in ys):
                continue
            return False
        if x.op in ('index', 'item', 'elem') and x.args[0].op == 'new':
            seg = p.result.state.heap.get((x.args[0], '[]')) if p.result.state else None
            vals = [s[1] for s in seg] if seg else p.interp.made.get(x.args[0], ())
            if vals and all(isinstance(v, T) and fresh(p, v, procs, depth + 1) for v in vals):
                continue
        return False
    return True


def parts(t):
    """The values t can have, also through merges after a loop."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo.extend(y for y in x.args[0] if isinstance(y, T)) if isinstance(x.args[0], tuple) else todo.extend(y for y in x.args if isinstance(y, T))
        elif x.op == 'ite':
            todo.extend(x.args[1:])
        else:
            out.append(x)
    return out


def yields_of(closure, procs):
    """What a generator closure yields: (proc, value)."""
    out = []
    for q in procs:
        if q.closure is not None and q.closure.args[0] is closure.args[0]:
            for e in q.events:
                if e.kind == 'yield' and not e.loops[:-1]:
                    out.append((q, e.args[0]))
                elif e.kind == 'yield':
                    out.append((q, e.args[0]))
    return out


def writes(p, procs, m):
    """The Write events of a procedure."""
    out = []
    for e in p.events:
        if e.kind == 'call':
            fn, args, kws = e.args[:3]
            name, kw = callee_name(fn), dict(kws)
            base = callee_base(fn)
            if name == 'process' and base is not None and is_processor(p, base):
                cond = kw.get('write') or (args[1] if len(args) > 1 else TRUE)
                out.append(Write(e, kw.get('node') or (args[0] if args else NONE), name, cond))
            elif name == 'write_node':
                out.append(Write(e, kw.get('node') or (args[0] if args else NONE), name))
            elif name in MUTATES and base is not None and not fresh(p, base, procs):
                if fn.op == 'attr' and base.op in ('builtin', 'ext'):
                    continue
                out.append(Write(e, base, name, args=args))
        elif e.kind == 'mutate':
            if not fresh(p, e.args[0], procs):
                out.append(Write(e, e.args[0], e.args[1], args=e.args[2] if len(e.args) > 2 else ()))
        elif e.kind in ('store', 'setprop'):
            t, name = e.args[:2]
            if name == '_parent' or fresh(p, t, procs):
                continue
            out.append(Write(e, t, name, value=e.args[2]))
        elif e.kind == 'delattr':
            if not fresh(p, e.args[0], procs):
                out.append(Write(e, e.args[0], e.args[1]))
        elif e.kind in ('setitem', 'delitem'):
            if not fresh(p, e.args[0], procs):
                out.append(Write(e, e.args[0], '[]' if e.kind == 'setitem' else 'del[]', value=e.args[2] if len(e.args) > 2 else None))
        elif e.kind == 'setattr_dyn':
            if not fresh(p, e.args[0], procs):
                out.append(Write(e, e.args[0], show(e.args[1])))
    # a call that was understood as a change of a list gives two events
    seen, res = set(), []
    for w in out:
        k = (w.target, w.kind, id(w.event.node), w.event.stack, w.event.loops)
        if w.kind in MUTATES and k in seen:
            continue
        seen.add(k)
        res.append(w)
    return res


def is_processor(p, t):
    """Whether t is the pitch processor (not e.g. self, for rhythm operations)."""
    return not (t.op == 'param' and t.args[0] == 'self')


# ------------------------------------------------------------------ ranges
def full_atoms(facts, *terms):
    """Conditions that say that the range is full."""
    out = []
    for t in list(facts) + list(terms):
        for x in subterms(t):
            if x.op == 'truth' and x.args[0].op == 'call' and callee_name(x.args[0].args[0]) == 'is_full':
                if x not in out and is_range(callee_base(x.args[0].args[0])):
                    out.append(x)
    return out


def is_range(t):
    return t is not None and t.op == 'param'


def member(x, facts, *terms):
    """Conditions that say that x is in the range."""
    out = []
    for t in list(facts) + list(terms):
        for y in subterms(t):
            if y.op == 'cmp' and y.args[0] == 'in' and y.args[1] is x and is_range(y.args[2]) and y not in out:
                out.append(y)
            if y.op == 'truth' and y.args[0].op == 'call' and callee_name(y.args[0].args[0]) == '__contains__' \
                    and y.args[0].args[1][:1] == (x,) and is_range(callee_base(y.args[0].args[0])) and y not in out:
                out.append(y)
    return out


def entails_member(w):
    """Whether the guards of the write say that its target is in the range."""
    facts = real_facts(w.event.facts)
    cond = truth(w.cond)
    full = full_atoms(facts, cond)
    inn = member(w.target, facts, cond)
    neg = [(x, False) for x in full + inn]
    return not consistent(facts, [(cond, True)], neg) if w.cond is not FALSE else True


def in_range_fact(facts):
    for f, v in facts.items():
        if v and f.op == 'truth' and f.args[0].op == 'call' and callee_name(f.args[0].args[0]) == 'in_range' \
                and is_range(callee_base(f.args[0].args[0])):
            return True
    return False


def from_range(p, t, depth=0):
    """The walk over the range from which t directly comes: 'nodes' etc., or None."""
    if t.op == 'ite':
        found = {from_range(p, x, depth + 1) for x, _ in leaves(t) if x is not NONE}
        return found.pop() if len(found) == 1 else None
    while t.op in ('elem', 'item', 'index', 'each', 'next') and isinstance(t.args[0], T) and depth < 8:
        depth += 1
        if t.op == 'item' and t.args[0].op == 'elem':
            z = t.args[0].args[0]
            if z.op in ('zip', 'enumerate'):
                return None
        t = t.args[0]
        while t.op in ('tupleof', 'iter', 'lazy', 'seq') and isinstance(t.args[0], T):
            t = t.args[0]
        if t.op == 'call' and is_range(callee_base(t.args[0])):
            return callee_name(t.args[0])
        if t.op == 'gen':
            found = {from_range(q, y) for q, y in generated(p, t)}
            return found.pop() if len(found) == 1 else None
    return None


def generated(p, t):
    """What the generator t yields: (proc, value)."""
    return [(q, e.args[0]) for q in [generator(p, t)] for e in q.result.yields]


_gens = {}


def generator(p, t):
    """The procedure of a generator that is passed on unconsumed."""
    func, key = t.args[:2]
    k = (id(p.interp), t)
    if k not in _gens:
        I = p.interp
        env = dict(I.genenv[key])
        J = node_interp(I.model, opaque=I.opaque)
        r = J.run(func, args=[env.get(n, param(n)) for n in func.params()
                              if not (func.kind in ('function', 'property') and func.cls is not None and n == func.params()[0])],
                  self_term=env.get(func.params()[0]) if func.kind == 'function' and func.cls is not None else None)
        _gens[k] = Proc(func.name, func, J, r, env)
    return _gens[k]


def operation(c, m, cls, func, rhythm):
    opq = OPQ
    if rhythm:
        opq = OPAQUE - {'process'} | {'octave'}
    procs = procedures(m, cls, func, opaque=opq)
    for p in procs:
        c.unit('procedure')
    allowed = set(RHYTHM | {'add'} if rhythm else PITCH)
    relative = cls.module.name.endswith('relative')
    # closures of which all calls are under in_range, directly or from such closures
    trusted = {p.closure.args[0] for p in procs if p.closure is not None}
    for _ in range(len(procs) + 1):
        ok = {}
        for p in procs:
            mine = p.closure is not None and (p.closure.args[0] in trusted)
            for call, facts in called(p):
                ok.setdefault(call[0].args[0], []).append(mine or in_range_fact(facts))
        new = {f for f, v in ok.items() if all(v)} & trusted
        if new == trusted:
            break
        trusted = new
    n = 0
    for p in procs:
        mine = p.closure is not None and p.closure.args[0] in trusted
        for w in writes(p, procs, m):
            n += 1
            what = '{} of {} in {}'.format(w.kind, brief(w.target), p.name)
            where = w.event.where
            kinds = allowed | (STRUCTURE if relative else set())
            c.ob('kind', '{} {}'.format(cls.name, what), w.kind in kinds, '{} changes {} of the music'.format(cls.name, w.kind), where)
            if rhythm and w.kind == 'add':
                ok = bool(w.args) and is_duration(p, w.args[0])
                c.ob('kind', '{} {} what'.format(cls.name, what), ok, '{} adds something else than a duration'.format(cls.name), where)
            if relative and w.kind in STRUCTURE:
                c.ob('kind', '{} {} what'.format(cls.name, what), structural(p, w), '{} removes or moves music'.format(cls.name), where)
            inside = (mine or in_range_fact(w.event.facts) or entails_member(w)
                      or rhythm and from_range(p, w.target) in ('nodes', 'instances_of'))
            c.ob('inside', '{} {}'.format(cls.name, what), inside,
                 '{} writes to {} without knowing that it is in the range'.format(cls.name, brief(w.target)), where)
    ro = cls.lookup('readonly')
    readonly = bool(ro) and m.literal(ro[2].module if hasattr(ro[2], 'module') else cls.module, ro[2], cls) is True if ro and ro[1] == 'assign' else False
    if readonly:
        c.ob('kind', cls.name + ' readonly', n == 0, '{} is read-only but changes music'.format(cls.name), func.where)
    else:
        c.ob('complete', cls.name, n > 0, '{} changes nothing'.format(cls.name), func.where)
    if rhythm:
        complete_rhythm(c, m, cls, procs)
    else:
        complete_pitch(c, m, cls, procs)


def called(p):
    """Closure calls left standing in a procedure, with the facts under which they are made."""
    out = {}
    for e in p.events:
        for t in terms_of(e):
            if t.op == 'call' and t.args[0].op == 'closure' and t.args[:3] not in out:
                out[t.args[:3]] = e.facts
    return out.items()


def brief(t):
    s = show(t)
    return s if len(s) < 40 else '…' + s[-38:]


def is_duration(p, t):
    """Whether t is a (copy of a) duration element."""
    def ok(x, depth=0):
        if depth > 6:
            return False
        if x.op == 'call' and callee_name(x.args[0]) == 'copy':
            return ok(callee_base(x.args[0]), depth + 1)
        if x.op == 'call' and callee_name(x.args[0]) == 'from_duration':
            return True
        if x.op == 'new':
            return x.args[0].args[0].name == 'Duration' if isinstance(x.args[0], T) else 'Duration' in show(x)
        if x.op == 'ite':
            return all(ok(y, depth + 1) for y, _ in leaves(x))
        if x.op == 'mu' and x in p.interp.mu:
            return all(y is x or y is NONE or ok(y, depth + 1)
                       for z in p.interp.mu[x] for y, _ in leaves(z))
        if x.op == 'firstof':
            return all(v.op != 'elem' and ok(v, depth + 1) or any(
                y.op == 'isinstance' and pol and y.args[0] is v and {getattr(k, 'name', '') for k in (
                    y.args[1] if isinstance(y.args[1], (tuple, frozenset)) else [y.args[1]])} == {'Duration'} for y, pol in lits)
                for kind, v, lits in x.args[0])
        if x.op in ('next', 'elem', 'each', 'index', 'item'):
            return 'Duration' in show(x.args[0])
        return x is NONE
    return ok(t)


def isinstance_facts(facts):
    """{(term, class name)} that hold, from positive isinstance facts."""
    out = []
    for f, v in facts.items():
        if f.op == 'isinstance' and v:
            out.append((f.args[0], {k.name for k in f.args[1] if hasattr(k, 'name')}))
    return out


def structural(p, w):
    """Structure changes of the relative operations keep the music."""
    if w.kind == 'node':
        return w.value is not None and w.value.op == 'new'
    facts = real_facts(w.event.facts)
    if w.kind == 'remove':
        x = w.args[0] if w.args else NONE
        return any(t is x and names <= {'OctaveCheck', 'Relative'} for t, names in isinstance_facts(facts))
    if w.kind == '[]':
        return w.value is not None
    return w.kind in ('append',) and w.target.op == 'new'


# ------------------------------------------------------------------ completeness
def scenario(facts, true=(), false=()):
    """Facts that do not follow from the scenario."""
    k = known([(x, True) for x in true], [(x, False) for x in false])
    out = []
    for f, v in facts.items():
        f, pol = lit(f)
        v = v if pol else not v
        if k.get(f) is v:
            continue
        if not consistent(k, [(f, not v)]):
            continue
        out.append((f, v))
    return out


def walked(t):
    """The range walk elements in t."""
    return [x for x in subterms(t) if x.op == 'elem' and isinstance(x.args[0], T) and x.args[0].op == 'call'
            and is_range(callee_base(x.args[0].args[0]))]


def early(p, m):
    """Statements that end a for loop of the operation before all nodes are seen."""
    funcs = {f for e in p.events for f in e.stack if f.module is p.func.module}
    out = []

    def rec(stmts, inner, loop):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if loop and (isinstance(s, ast.Return) or isinstance(s, ast.Break) and not inner):
                out.append(s)
            here = isinstance(s, ast.For)
            for n in ('body', 'orelse', 'finalbody'):
                rec(getattr(s, n, None) or [], (inner or isinstance(s, ast.While)) and not here,
                    loop or here and n == 'body')
            for h in getattr(s, 'handlers', ()):
                rec(h.body, inner, loop)
    for f in sorted(funcs, key=lambda f: f.qualname):
        rec(f.node.body, False, False)
    return out


def complete_rhythm(c, m, cls, procs):
    durable, skip, handle = (m.cls('dom.lily.' + n) for n in ('Durable', 'Skip', 'HandleDuration'))
    todo = [procs[0]]
    for e in procs[0].events:
        for t in terms_of(e):
            if t.op == 'gen' and isinstance(t.args[0], Func) and t.args[1] in procs[0].interp.genenv:
                q = generator(procs[0], t)
                if q not in todo:
                    todo.append(q)
    target = handle if cls.name == 'RhythmTransform' else durable
    n = 0
    for p in todo:
        xs = []
        for e in p.events:
            for t in terms_of(e):
                for x in walked(t):
                    if x not in xs:
                        xs.append(x)
        for x in xs:
            n += 1
            c.ob('complete', cls.name + ' walk', callee_name(x.args[0].args[0]) == 'nodes',
                 '{} walks over {}'.format(cls.name, brief(x)), p.where)
            # the first thing done with a node of the kind the operation applies to
            best = False
            for e in p.events:
                if e.kind not in ('call', 'delattr', 'store', 'setprop', 'getprop', 'yield', 'getattr'):
                    continue
                if e.kind == 'call' and callee_name(e.args[0]) != 'process':
                    continue
                if e.kind in ('getprop', 'getattr') and e.args[1] not in RHYTHM:
                    continue
                if not any(y is x for t in terms_of(e) for y in subterms(t)):
                    continue
                facts = {f: v for f, v in real_facts(e.facts).items() if any(y is x for y in subterms(f))}
                if not scenario(facts, [isinst(x, target)], [isinst(x, skip)]):
                    best = True
                    break
            c.ob('complete', cls.name + ' kinds', best,
                 '{} leaves out some {} nodes in the range'.format(cls.name, target.name), p.where)
        stops = early(p, m)
        c.ob('complete', cls.name + ' to the end', not stops,
             '{} stops before the end of the range, in line {}'.format(cls.name, stops and stops[0].lineno), p.where)
    c.ob('complete', cls.name + ' range', n > 0, '{} does not walk over the range'.format(cls.name), procs[0].where)


def complete_pitch(c, m, cls, procs):
    for p in procs:
        stops = early(p, m)
        c.ob('complete', '{} to the end in {}'.format(cls.name, p.name), not stops,
             '{} stops before the end of the music, in line {}'.format(cls.name, stops and stops[0].lineno), p.where)
    if cls.name == 'Transpose':
        return
    p = procs[0]
    # what is done under in_range: nothing but the kind of node may restrict it
    done = [e for e in p.events if in_range_fact(e.facts)]
    c.ob('complete', cls.name + ' conversion', bool(done), '{} converts nothing'.format(cls.name), p.where)


# ------------------------------------------------------------------ processor
def processor(c, m):
    k = m.cls('pitch.PitchProcessor')
    f = k.lookup('write_node')[2]
    r = node_interp(m, opaque={'pitch', 'name_octave'}).run(f, cls=k)
    node = param(f.params()[1])
    for e in r.events:
        if e.kind == 'store':
            c.ob('written back', 'write_node ' + e.args[1], e.args[0] is node and e.args[1] in ('head', 'octave'),
                 'write_node() changes {} of {}'.format(e.args[1], brief(e.args[0])), e.where)
        elif e.kind in ('delattr', 'setitem', 'delitem', 'mutate', 'setattr_dyn'):
            c.ob('written back', 'write_node ' + e.kind, False, 'write_node() changes {}'.format(brief(e.args[0])), e.where)
    f = k.lookup('process')[2]
    r = node_interp(m, opaque={'read_node', 'write_node'}).run(f, cls=k)
    ps = f.params()
    n = 0
    for e in calls_to(r.events, 'write_node'):
        n += 1
        ok = e.args[1] and e.args[1][0] is param(ps[1]) and not consistent(real_facts(e.facts), [(truth(param(ps[2])), False)])
        c.ob('written back', 'process', ok, 'process() writes although told not to', e.where)
    c.ob('written back', 'process writes', n > 0, 'process() never writes', f.where)
    for e in r.events:
        if e.kind in ('store', 'delattr', 'setitem', 'delitem', 'mutate') and any(x is param(ps[1]) for x in subterms(e.args[0])):
            c.ob('written back', 'process ' + e.kind, False, 'process() changes {}'.format(brief(e.args[0])), e.where)


# ------------------------------------------------------------------ selection
def entry(c, m, base):
    f = base.lookup('edit_cursor')[2]
    I = node_interp(m, opaque={'edit_range', 'from_nodes', '_Level'})
    r = I.run(f, cls=base)
    cursor = param(f.params()[1])

    def call(t, name):
        return t.op == 'call' and callee_name(t.args[0]) == name
    sel = []
    for e in r.events:
        for fct in e.facts:
            for x in subterms(fct):
                if x.op == 'truth' and call(x.args[0], 'has_selection') and x not in sel:
                    sel.append(x)
    c.ob('selection', 'asked', bool(sel), 'the selection of the cursor is not used', f.where)
    if not sel:
        return
    selected = [(x, True) for x in sel]
    n = 0
    for e in calls_to(r.events, 'from_nodes'):
        facts = dict(real_facts(e.facts))
        args = list(e.args[1])
        kw = dict(e.args[2])
        start = args[0] if args else kw.get('start_node', NONE)
        end = args[1] if len(args) > 1 else kw.get('end_node', NONE)
        if consistent(facts, selected):
            n += 1
            s = [x for x in subterms(start) if call(x, 'find_descendant_right')]
            d = [x for x in subterms(end) if call(x, 'find_descendant_left')]
            ok = len(s) == 1 and start is s[0] and s[0].args[1] and s[0].args[1][0] is mk('attr', cursor, 'pos')
            c.ob('selection', 'start', ok, 'the range does not start with the first node in the selection', e.where)
            if end.op == 'mu' and end in I.mu:
                d = [x for x in subterms(I.mu[end][0]) if call(x, 'find_descendant_left')]
                last = I.mu[end][1]
                ok = last.op in ('index', 'item') and last.args[0] is end and (last.args[1] in (-1, const(-1)) or last_index(last.args[1], end))
                c.ob('selection', 'last child', ok, 'the range ends with {}'.format(show(last)), e.where)
            ok = len(d) == 1 and d[0].args[1] and d[0].args[1][0] is mk('attr', cursor, 'end')
            c.ob('selection', 'end', ok, 'the range does not end with the last node in the selection', e.where)
            for x, what in ((s, 'start'), (d, 'end')):
                ok = bool(x) and not consistent(facts, selected + [(truth(x[0]), False)])
                c.ob('selection', 'no ' + what, ok, 'the range has no {} when no node is in the selection'.format(what), e.where)
            c.ob('selection', 'children of the end', bool(d) and end is not d[0],
                 'the children of the last selected node are not in the range', e.where)
    c.ob('selection', 'range', n > 0, 'a selection gives no range', f.where)
    # a full range only without selection
    for e in r.events:
        if e.kind == 'new' and e.args[0].op == 'new' and show(e.args[0]).startswith('new Range'):
            args = e.args[1] if len(e.args) > 1 and isinstance(e.args[1], tuple) else ()
            full = len(args) < 2 or all(a is NONE for a in args[1:])
            if full:
                made = [(is_none(x), False) for x in known_calls(r, 'from_nodes')]
                ok = not consistent(real_facts(e.facts), selected, made)
                c.ob('selection', 'all', ok, 'everything is edited although there is a selection', e.where)
            else:
                c.ob('selection', 'nothing', len(args) > 2 and not contents(args[2], r.state.heap), 'the empty selection gives {}'.format(', '.join(map(show, args))), e.where)
    for e in calls_to(r.events, 'edit'):
        facts = real_facts(e.facts)
        kw = dict(e.args[2])
        ok = not consistent(facts, [(truth(mk('attr', param('self'), 'readonly')), True)])
        c.ob('selection', 'readonly', ok, 'a read-only operation writes to the document', e.where)
    f = base.lookup('edit_node')[2]
    r = node_interp(m, opaque={'edit_range'}).run(f, cls=base)
    es = list(calls_to(r.events, 'edit_range'))
    c.ob('selection', 'edit_node', len(es) == 1, 'edit_node() does not edit', f.where)
    for e in r.events:
        if e.kind == 'store' and e.args[1] in ('start_trail', 'end_trail'):
            c.ob('selection', 'edit_node ' + e.args[1], e.args[2] is NONE, 'edit_node() leaves out part of the node', e.where)


def last_index(t, base):
    return t.op == 'bin' and t.args[0] == '-' and t.args[1].op == 'len' and t.args[1].args[0] is base and t.args[2] is const(1)


def known_calls(r, name):
    out = []
    for e in r.events:
        for f in e.facts:
            for x in subterms(f):
                if x.op == 'call' and callee_name(x.args[0]) == name and x not in out:
                    out.append(x)
    return out


def empty(c, m):
    """A range that ends before it starts yields nothing."""
    k = m.cls('node.Range')
    f = k.lookup('nodes')[2]
    I = node_interp(m, opaque={'descendants', 'forward', '_goto_trail'})
    r = I.run(f, cls=k)
    n = 0
    for e in r.yields:
        n += 1
        facts = real_facts(e.facts)
        if not any(v and x.op == 'truth' and x.args[0].op == 'attr' and x.args[0].args[1] == 'start_trail' for x, v in facts.items()):
            continue
        ok = any(y.op == 'attr' and y.args[1] == 'end_trail' and x.op != 'truth' for x in facts for y in subterms(x)) \
            or any(x.op == 'truth' and x.args[0] is param('self') for x in facts)
        c.ob('selection', 'empty', ok, 'the start node is yielded although the range may be empty', e.where)
    c.ob('selection', 'empty start', n > 0, 'the start node is not yielded', f.where)
