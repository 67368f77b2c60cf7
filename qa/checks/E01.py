"""Constant propagation through the modification marks of elements.

The head and tail setters, the methods that report the text pieces of an element
and the method that copies an origin are evaluated symbolically with every
constant value of the modification mask, so the bit that a setter sets, the bit
that the report tests and the bits that are transferred are compared by value.
Position, text and spacing reported for a head or tail must flow from the head's
or tail's own origin, writer and spacing attributes.  Nothing else in the package
may write these fields.
"""
from ..lib import *

TECHNIQUE = 'gated value flow with constant propagation over the modification mask; field provenance of every reported point'
NOTE = ('All setters, point reporters and origin keeping constructors of every element class, for every value of the mask; '
        'raw writes to the tracked fields are searched in all functions of the package.')


def fields_of(m):
    """(value attribute, mask attribute) of the head and the tail."""
    el = m.cls('dom.element.Element')
    out = {}
    for name in ('head', 'tail'):
        hit = el.lookup(name)
        I = node_interp(m)
        r = I.run(hit[2], cls=el)
        if r.value.op != 'attr':
            raise AnalysisBroken('the attribute behind Element.{} not found'.format(name))
        out[name] = r.value.args[1]
    return out


def setter(cls, name):
    f = cls.lookup_setter(name)
    return f[-1] if isinstance(f, tuple) else f


def same_facts(x, y, pol):
    a, b = mk('cmp', '==', x, y), mk('cmp', '==', y, x)
    return [(a, pol), (b, pol)]


def subst_eq(t, x, y, equal):
    """Resolve comparisons of x and y in t."""
    st = State()
    for c, p in same_facts(x, y, equal):
        st.facts[c] = p
    return under(t, st)


def check_setters(c, m, vals):
    el = m.cls('dom.element.Element')
    bits, mask = {}, {}
    seen = set()
    for cls in [el] + m.subclasses(el):
        for name in ('head', 'tail'):
            f = setter(cls, name)
            if f is None or f in seen:
                continue
            seen.add(f)
            S = param(f.params()[0])
            new = param(f.params()[1])
            old = mk('attr', S, vals[name])
            I = node_interp(m)
            r = I.run(f, cls=cls)
            con = f.qualname + ' ({} setter)'.format(name)
            c.unit('functions')
            if r.state is None:
                c.ob('setter', con, False, 'the setter never returns', f.where)
                continue
            v = r.state.heap.get((S, vals[name]))
            c.ob('setter', con + ': value', v is not None and subst_eq(v, new, old, False) is new,
                 'a new {} value is not stored as given: {}'.format(name, show(v) if v else 'nothing stored'), f.where)
            marks = [n for (o, n), x in r.state.heap.items() if o is S and n != vals[name] and n != '[]']
            if len(marks) != 1:
                c.ob('setter', con + ': mark', False, 'a new {} value is not marked as modified (writes {})'.format(
                    name, ', '.join(marks) or 'nothing'), f.where)
                continue
            mk_attr = marks[0]
            mask.setdefault('name', mk_attr)
            M = mk('attr', S, mk_attr)
            got = {}
            for k in range(4):
                I = node_interp(m)
                r2 = I.run(f, cls=cls, heap={(S, mk_attr): const(k)})
                t = r2.state.heap.get((S, mk_attr)) if r2.state else None
                got[k] = (subst_eq(t, new, old, False) if t is not None else None,
                          subst_eq(t, new, old, True) if t is not None else None)
            d, e = got[0]
            bit = d.args[0] if d is not None and is_const(d) and isinstance(d.args[0], int) else None
            ok = bit is not None and bit not in (0, False) and bit & (bit - 1) == 0
            c.ob('setter', con + ': mark', ok, 'a different value must mark one part as modified, but sets {}'.format(
                show(d) if d is not None else None), f.where)
            if not ok:
                continue
            if name in bits and bits[name] != bit:
                c.ob('setter', con + ': same mark', False, 'marks with bit {} while others use {}'.format(bit, bits[name]), f.where)
            bits.setdefault(name, bit)
            for k in range(4):
                d, e = got[k]
                c.ob('setter', con + ': mark kept', d is const(k | bit),
                     'a different value turns mask {} into {} instead of {}'.format(k, show(d) if d else d, k | bit), f.where)
                c.ob('setter', con + ': equal value', e is const(k),
                     'setting an equal value turns mask {} into {}'.format(k, show(e) if e else e), f.where)
    c.ob('setter', 'head and tail marks differ', bits.get('head') != bits.get('tail') or not bits,
         'head and tail use the same mark {}'.format(bits.get('head')), el.where)
    return bits, mask.get('name')


def point_fields(m, v):
    """Field name -> value of a Point construction."""
    names = None
    mod = m.modules['quickly.dom.element']
    t = mod.assigns.get('Point')
    if isinstance(t, list):
        t = t[0]
    if isinstance(t, tuple):
        t = t[0]
    if isinstance(t, ast.Call) and len(t.args) > 1:
        a = t.args[1]
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            names = a.value.replace(',', ' ').split()
        elif isinstance(a, (ast.Tuple, ast.List)):
            names = [x.value for x in a.elts]
    if not names:
        raise AnalysisBroken('fields of Point not found')
    if v.op != 'call' or callee_name(v.args[0]) != 'Point':
        return None
    out = dict(zip(names, v.args[1]))
    out.update({k: x for k, x in v.args[2] if isinstance(k, str)})
    return out


def mentions(t, name):
    return any(x.op in ('attr', 'has') and name in x.args[1:] for x in subterms(t))


def check_point(c, m, cls, name, f, bits, mask):
    part = name.split('_')[0]
    origin = part + '_origin'
    S = param(f.params()[0])
    con = f.qualname
    A = lambda n: mk('attr', S, n)
    O = A(origin)
    want = {'pos': mk('attr', mk('item', O, const(0)), 'pos'), 'end': mk('attr', mk('item', O, const(-1)), 'end')}
    results = {}
    for k in range(4):
        I = node_interp(m)
        r = I.run(f, cls=cls, heap={(S, mask): const(k)})
        vals = []
        if r.state is not None:
            for x, lits in leaves(r.value):
                vals.append((point_fields(m, x), lits, x))
        results[k] = vals
    c.unit('functions')
    base = results[0]
    ok = bool(base) and all(p is not None and len(p) == 6 for p, l, x in base)
    c.ob('point', con + ': reported', ok, 'does not report a point on every path', f.where)
    if not ok:
        return
    for p, lits0, x in base:
        for fld in ('pos', 'end'):
            for t, lits in leaves(p[fld]):
                lits = tuple(lits0) + tuple(lits)
                good = t is want[fld]
                if t is NONE:
                    good = any(mentions(cnd, origin) and (not pol or cnd.op in ('not', 'cmp')) for cnd, pol in lits)
                c.ob('point', '{}: {}'.format(con, fld), good, 'the {} of the {} is {}, not from the {}'.format(
                    'position' if fld == 'pos' else 'end', part, show(t), origin), f.where)
            c.ob('point', '{}: {} known'.format(con, fld), any(t is want[fld] for t, _ in leaves(p[fld])),
                 'the {} origin is never used'.format(part), f.where)
        t = p['text']
        good = t.op == 'bound' and t.args[1] is S and t.args[0].name == 'write_' + part or \
            t.op == 'attr' and t.args[0] is S and t.args[1] == 'write_' + part
        c.ob('point', con + ': text', good, 'the text of the {} is written by {}'.format(part, show(t)), f.where)
        t = p['space_before']
        w = A('space_before' if part == 'head' else 'space_before_tail')
        c.ob('point', con + ': space before', all(x is w for x, _ in leaves(t)),
             'the space before the {} is {}'.format(part, show(t)), f.where)
        t = p['space_after']
        if part == 'tail':
            c.ob('point', con + ': space after', all(x is A('space_after') for x, _ in leaves(t)),
                 'the space after the tail is {}'.format(show(t)), f.where)
        else:
            atoms = {y.args[0] for y in subterms(t) if y.op == 'ite'}
            atoms = {z for y in atoms for z in subterms(y) if content_kind(z, S)}
            for kids in (True, False):
                for tail in (True, False):
                    st = State()
                    for y in atoms:
                        kind, pol = content_kind(y, S)
                        v = kids if kind == 'children' else tail
                        st.facts[y] = v if pol else not v
                    w = A('space_after_head' if kids or tail else 'space_after')
                    got = under(t, st)
                    c.ob('point', con + ': space after', got is w, 'the space after the head is {} {} children and {} tail'.format(
                        show(got), 'with' if kids else 'without', 'with' if tail else 'without'), f.where)
    for k in range(4):
        for p, lits, x in results[k]:
            if p is None:
                continue
            t = p['modified']
            good = is_const(t) and bool(t.args[0]) == bool(k & bits.get(part, 0))
            c.ob('point', '{}: modified'.format(con), good,
                 'with mask {} the {} is reported as {}modified'.format(
                     k, part, '' if is_const(t) and t.args[0] else 'not ' if is_const(t) else show(t) + ' '), f.where)


def content_kind(t, S):
    """('children'|'tail', polarity) for an elementary test for contents."""
    def what(x):
        if x.op == 'len' and x.args[0] is S:
            return 'children'
        if x.op == 'attr' and x.args[0] is S and x.args[1] in ('_tail', 'tail') \
                or x.op == 'call' and callee_name(x.args[0]) == 'write_tail':
            return 'tail'
    if t is mk('truth', S):
        return 'children', True
    if t.op == 'truth' and what(t.args[0]):
        return what(t.args[0]), True
    if t.op == 'cmp':
        op, x, y = t.args[:3]
        if op == '<' and x is ZERO and what(y):
            return what(y), True
        if op == '==' and (x is ZERO and what(y) or y is ZERO and what(x)):
            return what(x) or what(y), False
        if op == 'is' and y is NONE and what(x):
            return what(x), False
    return None


def check_origin(c, m, cls, bits, mask):
    """with_origin keeps the tokens, from_origin does not; the head is read from the head tokens."""
    slots = set()
    for k in cls.mro():
        if isinstance(k, Class):
            slots |= set(k.slots() or ())
    for name in ('with_origin', 'from_origin'):
        hit = cls.lookup(name)
        if not hit or hit[1] != 'method':
            continue
        f = hit[2]
        I = node_interp(m, opaque={'read_head'})
        r = I.run(f, cls=cls)
        con = '{}.{}'.format(cls.qualname, name)
        c.unit('functions')
        if r.state is None:
            c.ob('origin', con, False, 'never returns', f.where)
            continue
        for v, lits in leaves(r.value):
            if v.op != 'new':
                c.ob('origin', con, False, 'does not return a new element but {}'.format(show(v)), f.where)
                continue
            for part in ('head_origin', 'tail_origin'):
                if part not in slots:
                    continue
                got = r.state.heap.get((v, part))
                if name == 'with_origin':
                    c.ob('origin', '{}: {}'.format(con, part), got is not None and under(got, dict(lits)) is param(part),
                         'the {} is not kept: {}'.format(part, show(got) if got else 'not set'), f.where)
                else:
                    c.ob('origin', '{}: {}'.format(con, part), got is None or got is UNBOUND,
                         'an element that should not know its origin keeps its {}'.format(part), f.where)
            if mask in slots:
                got = r.state.heap.get((v, mask))
                c.ob('origin', con + ': unmodified', got is const(0),
                     'a new element is not marked as unmodified: {}'.format(show(got) if got else got), f.where)
                vattr = [x for k, x in r.state.heap.items() if k[0] is v and k[1] == '_head']
                good = bool(vattr) and any(y.op == 'call' and callee_name(y.args[0]) == 'read_head'
                                           and y.args[1] == (param('head_origin'),) for y in subterms(vattr[0]))
                c.ob('origin', con + ': head', good,
                     'the head value is not read from the head tokens: {}'.format(show(vattr[0]) if vattr else None), f.where)


def check_transfer(c, m, cls, bits, mask):
    hit = cls.lookup('copy_origin_from')
    f = hit[2]
    ps = f.params()
    S, O = param(ps[0]), param(ps[1])
    H, Tl = mk('has', O, 'head_origin'), mk('has', O, 'tail_origin')
    con = f.qualname
    for how in (True, False, None):
        for k in range(4):
            I = node_interp(m)
            r = I.run(f, cls=cls, kwargs={ps[2]: const(how)}, heap={(O, mask): const(k)})
            if r.state is None:
                c.ob('transfer', con, False, 'never returns', f.where)
                return
            for hh in (True, False):
                for ht in (True, False):
                    if ht and not hh:
                        continue
                    st = State()
                    for t, v in ((H, hh), (Tl, ht)):
                        st.facts[t] = v
                    t = r.state.heap.get((S, mask))
                    t = deep_under(t, st) if t is not None else None
                    alts = [x for x in (t.args if t is not None and t.op == 'phi' else [t])]
                    if t is not None and t.op == 'phi':
                        alts = [x for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args)]
                    alts = [deep_under(x, st) for x in alts if isinstance(x, T) and not (x.op == 'attr' and x.args[0] is S)]
                    if how is None:
                        want = k
                    elif how is False:
                        want = 0
                    else:
                        want = (bits.get('head', 0) if hh else 0) | (bits.get('tail', 0) if ht else 0)
                    c.ob('transfer', '{}: modified={}'.format(con, how), bool(alts) and all(x is const(want) for x in alts),
                         'from mask {} with {} the mask becomes {} instead of {}'.format(
                             k, 'head and tail origin' if ht else 'head origin' if hh else 'no origin',
                             ', '.join(map(show, alts)) or 'nothing', want), f.where)
    for part, h in (('head_origin', H), ('tail_origin', Tl)):
        I = node_interp(m)
        r = I.run(f, cls=cls)
        t = r.state.heap.get((S, part))
        st = State()
        st.facts[H] = True
        st.facts[Tl] = True
        t = under(t, st) if t is not None else None
        c.ob('transfer', '{}: {}'.format(con, part), t is mk('attr', O, part),
             'the {} is taken from {}'.format(part, show(t) if t else 'nowhere'), f.where)


def deep_under(t, st):
    t = under(t, st)
    return t


def check_raw(c, m, vals, mask):
    """Nobody else writes the tracked fields."""
    el = m.cls('dom.element.Element')
    tracked = set(vals.values()) | {mask, 'head_origin', 'tail_origin'}
    n = 0
    for f in m.all_funcs():
        hits = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in tracked:
                hits.append(x)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') \
                    and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value in tracked:
                hits.append(x)
        n += 1
        if not hits:
            continue
        if f.cls is not None and f.cls.issub(el) and (f.name in ('__init__', '__new__', 'with_origin', 'from_origin', 'copy_origin_from')
                                                      or f.prop_role == 'setter' and f.name in ('head', 'tail')):
            continue
        I = node_interp(m, max_depth=6)
        try:
            r = I.run(f, cls=f.cls)
        except (Budget, RecursionError):
            c.unknown('raw', f.qualname, 'analysis limit')
            continue
        for e in r.events:
            if e.kind not in ('store', 'delattr') or e.args[1] not in tracked or f.name not in e.where:
                continue
            b = e.args[0]
            ty = I.typeof(b)
            if isinstance(ty, Class) and not ty.issub(el):
                continue
            ok = b.op == 'new' and e.kind == 'store'
            if b.op == 'param' and b.args[0] == f.params()[0] and f.cls is not None and only_from(m, f, el):
                ok = True
            c.ob('raw', '{}: {}'.format(f.qualname, e.args[1]), ok,
                 '{} of an existing element is {} behind the back of the modification tracking'.format(
                     e.args[1], 'deleted' if e.kind == 'delattr' else 'written'), e.where)
    c.unit('functions searched', n)


def only_from(m, f, el):
    """A private helper used only by constructors and setters of elements."""
    if not f.name.startswith('_'):
        return False
    users = []
    for g in m.all_funcs():
        if g is not f and any(isinstance(x, ast.Attribute) and x.attr == f.name for x in ast.walk(g.node)):
            users.append(g)
    return bool(users) and all(g.cls is not None and g.cls.issub(el) and (
        g.name in ('__init__', '__new__', 'with_origin', 'from_origin', 'copy_origin_from')
        or g.prop_role == 'setter' and g.name in ('head', 'tail')) for g in users)


def check_extent(c, m, cls):
    """pos and end of an element: own origin first."""
    for name, part, idx, fld in (('pos', 'head_origin', 0, 'pos'), ('end', 'tail_origin', -1, 'end')):
        hit = cls.lookup(name)
        f = hit[2]
        S = param(f.params()[0])
        I = node_interp(m)
        r = I.run(f, cls=cls)
        want = mk('attr', mk('item', mk('attr', S, part), const(idx)), fld)
        lv = leaves(r.value) if r.state is not None else []
        good = any(x is want for x, l in lv)
        c.ob('extent', f.qualname, good, 'the {} of an element is not taken from its own {}'.format(name, part), f.where)
        O = mk('attr', S, part)
        I = node_interp(m)
        r = I.run(f, cls=cls, facts=[(mk('has', S, part), True), (mk('ok', 'item', O, const(idx)), True), (mk('truth', O), True),
                                        (mk('has', mk('item', O, const(idx)), fld), True)])
        lv = leaves(r.value) if r.state is not None else []
        for x, l in lv:
            if x is want or any(cnd.op == 'ok' and not pol for cnd, pol in l):
                continue
            c.ob('extent', f.qualname + ': own first', False,
                 '{} is answered although the element has its own {}'.format(show(x), part), f.where)
        I = node_interp(m)
        r = I.run(f, cls=cls)
        w = mk('attr', mk('item', mk('attr', S, 'head_origin'), const(idx)), fld)
        for x, l in leaves(r.value) if r.state is not None else []:
            own = [y for y in subterms(x) if y.op == 'attr' and y.args[0] is S and y.args[1] in ('head_origin', 'tail_origin')]
            if own and x is not want:
                c.ob('extent', f.qualname + ': head', x is w, 'the {} is {}'.format(name, show(x)), f.where)


def check(c):
    m = c.model
    el = m.cls('dom.element.Element')
    vals = fields_of(m)
    bits, mask = check_setters(c, m, vals)
    if not mask or set(bits) != {'head', 'tail'}:
        if not c.violations:
            raise AnalysisBroken('modification marks not found')
        return
    seen = set()
    groups = {}
    for cls in [el] + m.subclasses(el):
        for name in ('head_point', 'tail_point'):
            hit = cls.lookup(name)
            if not hit or hit[1] != 'method' or hit[2] in seen:
                continue
            seen.add(hit[2])
            if hit[0] is el:
                continue
            c.guard('point', hit[2].qualname, lambda: check_point(c, m, cls, name, hit[2], bits, mask))
        key = tuple(cls.lookup(n)[2].qualname if cls.lookup(n) and cls.lookup(n)[1] == 'method' else None for n in (
            'with_origin', 'from_origin', '__init__', '__new__', '_factory', 'read_head'))
        groups.setdefault(key, cls)
    for cls in groups.values():
        c.guard('origin', cls.qualname, lambda: check_origin(c, m, cls, bits, mask))
    c.guard('transfer', 'copy_origin_from', lambda: check_transfer(c, m, m.cls('dom.element.BlockElement'), bits, mask))
    c.guard('extent', 'pos, end', lambda: check_extent(c, m, m.cls('dom.element.BlockElement')))
    c.guard('raw', 'writes', lambda: check_raw(c, m, vals, mask))
    # the kinds of element report what they have
    for base, names in (('HeadElement', ('head_point',)), ('BlockElement', ('head_point', 'tail_point'))):
        b = m.cls('dom.element.' + base)
        for cls in [b] + m.subclasses(b):
            for n in names:
                hit = cls.lookup(n)
                c.ob('reports', '{}.{}'.format(cls.qualname, n), hit is not None and hit[0] is not el,
                     'elements of this type do not report their {}'.format(n.split('_')[0]), cls.where)
    c.floor('point', 15)
    c.floor('origin', 20)
    c.floor('setter', 10)
