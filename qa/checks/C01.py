"""Element types with a fixed text cannot get out of shape.

Every class definition of the dom is read: the storage it declares, the texts
and tables it has for the kind of element it is, the argument patterns and
child orders its methods yield, the spacing defaults.
"""
from ..lib import *
from ..elements import Elements

TECHNIQUE = 'class structure audit over the resolved class hierarchy, with value flow for yielded type patterns'
NOTE = ('All element types of the dom. Types nobody makes instances of and that have subtypes count as base classes '
        'and need no text. Texts computed at run time are not judged.')

SPACES = {'space_before', 'space_after_head', 'space_between', 'space_before_tail', 'space_after'}


def check(c):
    m = c.model
    E = Elements(m)
    c.unit('element types', len(E.all))
    meta(c, m, E)
    made = instances(m, E)
    reads = attribute_reads(m)
    for k in sorted(E.all, key=lambda k: k.qualname):
        storage(c, m, E, k)
        shape(c, m, E, k, made)
        spacing(c, m, E, k, reads)
        for name in ('signatures', 'child_order'):
            f = k.methods.get(name)
            if f:
                c.guard('patterns', '{}.{}'.format(k.qualname, name), lambda: patterns(c, m, E, k, f, name))
    headcheck(c, m, E)
    c.floor('storage', 250)
    c.floor('shape', 200)
    c.floor('patterns', 60)


# ---- storage
def metaclass(m, E):
    for k in E.base.node.keywords:
        if k.arg == 'metaclass':
            return m.resolve_expr(E.base.module, k.value)
    return None


def meta(c, m, E):
    """The metaclass gives every type that declares no storage an empty declaration."""
    k = metaclass(m, E)
    if not isinstance(k, Class) or not k.lookup('__new__') or k.lookup('__new__')[1] != 'method':
        E.auto = False
        return
    f = k.lookup('__new__')[2]
    I = node_interp(m)
    r = I.run(f, cls=k)
    ns = param(f.params()[3]) if len(f.params()) > 3 else None
    E.auto = False
    stored = False
    for e in r.events:
        if e.kind == 'setitem' and e.args[0] is ns and is_const(e.args[1]) and e.args[1].args[0] == '__slots__':
            facts = [f for f in real_facts(e.facts)]
            v = e.args[2]
            empty = v.op == 'tuple' and not v.args or is_const(v) and not v.args[0]
            only = all("__slots__" in str(x) for x in map(show, facts))
            c.ob('storage', 'types without declaration', empty and only and not e.loops,
                 'the metaclass does not give every type without storage declaration an empty one', e.where)
            stored = True
        elif e.kind == 'call' and callee_name(e.args[0]) == 'setdefault' and any(is_const(a) and a.args[0] == '__slots__' for a in e.args[1]):
            stored = True
    if not stored:
        c.ob('storage', 'types without declaration', False, 'the metaclass gives no empty storage declaration to types without one', f.where)
    E.auto = True


def storage(c, m, E, k):
    bad = None
    for x in k.mro():
        if isinstance(x, Class):
            s = x.slots()
            if s is None and not x.issub(E.base):
                bad = '{} declares no __slots__'.format(x.name)
            elif s is not None and '__dict__' in s:
                bad = '{} has a __dict__'.format(x.name)
            elif s is None and not E.auto:
                bad = '{} declares no __slots__ and no metaclass adds one'.format(x.name)
    c.ob('storage', k.qualname, bad is None, 'instances get a dictionary: {}'.format(bad), k.where)
    own = [x for x in k.mro() if isinstance(x, Class) and x.slots()]
    seen = {}
    for x in own:
        for s in x.slots():
            if s in seen and seen[s] is not x:
                c.ob('storage', '{}.{}'.format(k.qualname, s), False, 'storage declared twice, in {} and {}'.format(seen[s].name, x.name), k.where)
            seen[s] = x
        for s in x.slots():
            if s in x.assigns:
                c.ob('storage', '{}.{}'.format(k.qualname, s), False, 'both storage and class value', k.where)
    if not k.issub(E.text):
        for s in ('_head', '_tail', 'head', 'tail'):
            c.ob('fixed', '{}.{}'.format(k.qualname, s), s not in seen, 'the text of the type can be assigned per instance', k.where)
    if k.issub(E.headed):
        c.ob('storage', k.qualname + '.head_origin', 'head_origin' in seen, 'no room for the origin of the head', k.where)
    for s in ('head', 'tail'):
        r = k.lookup(s)
        st = k.lookup_setter(s)
        if r and r[1] == 'method' and st is not None and r[0] is not E.base and not k.issub(E.text):
            c.ob('fixed', '{}.{}'.format(k.qualname, s), False, 'the text of the type can be assigned', r[2].where)


# ---- shape
def instances(m, E):
    """Classes the package makes instances of by name."""
    out = set()
    for mo in m.own_modules:
        for n in ast.walk(mo.tree):
            if isinstance(n, ast.Call):
                cand = [n.func] + (n.args[:1] if ast.unparse(n.func).split('.')[-1] == 'factory' else [])
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('from_origin', 'with_origin', 'from_mapping', '_factory'):
                    cand.append(n.func.value)
                for e in cand:
                    if isinstance(e, (ast.Name, ast.Attribute)):
                        k = m.resolve_expr(mo, e)
                        if isinstance(k, Class):
                            out.add(k)
    return out


def shape(c, m, E, k, made):
    base = k in (E.base, E.headed, E.block, E.text, E.mapped)
    abstract = not E.leaf(k) and k not in made
    q = k.qualname
    if k.issub(E.text):
        r = k.lookup('head')
        c.ob('shape', q + ': head', r and r[1] == 'method', 'the fixed text hides the head value of a type with free text', k.where)
        for n in ('read_head', 'write_head'):
            r = k.lookup(n)
            c.ob('shape', '{}: {}'.format(q, n), r and r[1] == 'method', 'not a method', k.where)
            if r and r[1] == 'method' and not abstract and not base:
                c.ob('shape', '{}: {}'.format(q, n), not only_raises(r[2]), 'the type has no {} of its own'.format(n), k.where)
        if k.issub(E.mapped) and not base:
            p = E.pairs(k)
            if p is None:
                c.unknown('shape', q + ': mapping', 'the table is not understood')
            else:
                if not abstract:
                    c.ob('shape', q + ': mapping', len(p) >= 2 or len(p) == 1, 'the table of texts is empty', k.where)
                ks = [a for a, b in p]
                vs = [b for a, b in p]
                c.ob('shape', q + ': texts', len(set(map(repr, ks))) == len(ks) and all(isinstance(x, str) and x for x in ks),
                     'a text is missing or occurs twice', k.where)
                c.ob('shape', q + ': values', len(set(vs)) == len(vs), 'a value occurs twice, its first text can never be written', k.where)
                if not abstract:
                    c.ob('shape', q + ': placeholder', not any(x.startswith('<') and x.endswith('>') and len(x) > 2 for x in ks),
                         'a text was never given', k.where)
        return
    h, t = E.head(k), E.tail(k)
    if k.issub(E.headed):
        own = k.lookup('write_head')[0] is not E.base
        if not abstract and not base:
            c.ob('shape', q + ': head', bool(h) or own, 'a type with text of its own has no head text', k.where)
        rh = k.lookup('head')
        c.ob('shape', q + ': head kind', rh[0] is E.base or rh[1] == 'method' or isinstance(h, str), 'the head text is not a text', k.where)
    else:
        r = k.lookup('head')
        v = E.value(k, 'head') if r and r[1] == 'assign' else None
        c.ob('shape', q + ': head', not v, 'a head text on a type that never writes one', k.where)
    rt = k.lookup('tail')
    tailed = rt and rt[1] == 'assign' and t
    if k.issub(E.block):
        if not abstract and not base:
            c.ob('shape', q + ': tail', bool(t), 'a block type without tail text', k.where)
    else:
        c.ob('shape', q + ': tail', not tailed or k.lookup('tail_point')[0] is not E.base,
             'a tail text on a type that never writes one', k.where)


def only_raises(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


# ---- class level names
def attribute_reads(m):
    out = set()
    for mo in m.own_modules:
        for n in ast.walk(mo.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr', 'setattr') \
                    and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def spacing(c, m, E, k, reads):
    names = {n.id for s in k.node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for n in k.assigns:
        if n.startswith('__'):
            continue
        if n.startswith('space_'):
            v = E.value(k, n)
            c.ob('names', '{}.{}'.format(k.qualname, n), n in SPACES and isinstance(v, str) and not v.strip(),
                 'not one of the spacing properties, or not white space', k.where)
        elif isinstance(k.assigns[n], ast.Constant) and isinstance(k.assigns[n].value, str):
            c.ob('names', '{}.{}'.format(k.qualname, n), n in reads or n in names, 'a class value that nothing reads', k.where)


# ---- patterns
def patterns(c, m, E, k, f, name):
    I = node_interp(m)
    r = I.run(f, cls=k)
    ys = [e for e in r.events if e.kind == 'yield']
    q = '{}.{}'.format(k.qualname, name)
    if r.value is not None and not f.is_generator:
        c.unknown('patterns', q, 'not a generator')
        return

    def element(t):
        if t.op == 'cls':
            return isinstance(t.args[0], Class) and (t.args[0].issub(E.base) or any(x.issub(t.args[0]) for x in E.all))
        return None

    def types(t):
        if t.op == 'tuple':
            out = [types(x) for x in t.args]
            return False if False in out or not out else None if None in out else True
        return element(t) if t.op == 'cls' else False if is_const(t) else None
    for e in ys:
        v = e.args[0]
        for x, _ in leaves(v):
            if x.op != 'tuple' and not (x.op in ('cls', 'const')):
                c.unknown('patterns', q, 'the pattern is computed')
                continue
            ok = x.op == 'tuple' and len(x.args) > 0 and types(x)
            if ok is None:
                c.unknown('patterns', q, 'the pattern is computed')
            else:
                c.ob('patterns', '{}: {}'.format(q, show(x)), ok, 'the pattern is not a tuple of element types: {}'.format(show(x)), e.where)
            if ok and name == 'child_order':
                flat = [y for z in x.args for y in (z.args if z.op == 'tuple' else (z,))]
                c.ob('patterns', q + ': distinct', len(set(flat)) == len(flat), 'a type occurs twice in the order', e.where)
                ks = [y.args[0] for y in flat if y.op == 'cls']
                for i, a in enumerate(ks):
                    for b in ks[i + 1:]:
                        c.ob('patterns', '{}: {} before {}'.format(q, a.name, b.name), a is b or not b.issub(a),
                             'a type comes after its own base type and is never reached', e.where)
    if not ys:
        c.ob('patterns', q, f.is_generator, 'yields no pattern', f.where)


# ---- values are checked at construction
def headcheck(c, m, E):
    r = E.text.lookup('__new__')
    f = r[2] if r and r[1] == 'method' else None
    if f is None:
        c.ob('checked', 'TextElement', False, 'head values are not checked at construction', E.text.where)
        return
    I = node_interp(m, opaque={'check_head'})
    res = I.run(f, cls=E.text)
    calls = [e for e in res.events if e.kind == 'call' and callee_name(e.args[0]) == 'check_head']
    ps = f.params()
    good = any(e.args[1] and e.args[1][-1] is param(ps[1]) and not real_facts(e.facts) for e in calls)
    c.ob('checked', 'TextElement', good and bool(res.raises), 'head values are not checked at construction', f.where)
    for k in E.all:
        r = k.lookup('__new__')
        if k.issub(E.text) and r and r[1] == 'method' and r[0] is not E.text:
            c.unknown('checked', k.qualname, 'has its own constructor')
    r = E.mapped.lookup('check_head')
    if r and r[1] == 'method':
        I = node_interp(m)
        res = I.run(r[2], cls=E.mapped)
        v = res.value
        ok = v is not None and not is_const(v)
        c.ob('checked', 'MappingElement', ok and r[0] is not E.text, 'head values are not compared with the table', r[2].where)
