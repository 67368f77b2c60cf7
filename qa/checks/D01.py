"""D01: duration names, values and dots convert back and forth.

The formulas of the duration module are brought into a normal form that knows
powers of two and the splitting of a number into mantissa and exponent. Decided
on it: the value made from a length and dots is that length times 2 - 1/2**dots;
splitting that value again gives the same length and dots; shifts add to both;
the denominators are exact for the longest name; names and numbers read and
written are inverse (shared with the tables of X06), and scalings multiply.
"""
from ..lib import *
from ..algebra import *
from . import X06

TECHNIQUE = ('Value-flow of the duration functions to a normal form with powers of two and mantissa/exponent splitting, '
             'composed symbolically; table checks on the duration names; value-flow on the scaling products.')
NOTE = ('Decided for all lengths and dots at once, as long as a float holds the value exactly (up to fifty dots). '
        'The reading of a number text by int() is taken for granted.')


def check(c):
    m = c.model
    mod = m.module('quickly.duration')

    def func(name):
        f = mod.funcs.get(name)
        if f is None:
            raise AnalysisBroken('duration.{} not found'.format(name))
        c.unit('function')
        return f
    c.guard('names', 'table', lambda: names(c, m, mod))
    c.guard('value', 'duration', lambda: value(c, m, func('duration')))
    c.guard('split', 'log_dotcount', lambda: split_value(c, m, func('log_dotcount')))
    c.guard('shift', 'shift_duration', lambda: shifted(c, m, func('shift_duration')))
    c.guard('writable', 'is_writable', lambda: writable(c, m, mod, func('is_writable')))
    c.guard('duration', 'text', lambda: X06.durations(c, m))
    c.guard('transform', 'Transform', lambda: transform(c, m))
    c.guard('scaling', 'Duration', lambda: elements(c, m))
    c.floor('names', 2)
    c.floor('value', 1)
    c.floor('split', 2)
    c.floor('shift', 2)
    c.floor('duration', 3)
    c.floor('transform', 5)
    c.floor('scaling', 3)


def table(m, mod):
    a = mod.assigns.get('NAMED_DURATIONS')
    if not a:
        raise AnalysisBroken('NAMED_DURATIONS not found')
    return tuple(m.literal(mod, a[0][0]))


def names(c, m, mod):
    t = table(m, mod)
    c.ob('names', 'distinct', len(set(t)) == len(t), 'the names are {}'.format(', '.join(t)), mod.name)
    # the lexer knows exactly these commands
    for n in ('breve', 'longa', 'maxima'):
        c.ob('names', n, n in t, '{} is no duration name'.format(n), mod.name)
    c.ob('names', 'order', list(t) == sorted(t, key=lambda n: ('breve', 'longa', 'maxima').index(n) if n in ('breve', 'longa', 'maxima') else 9),
         'the names are in the order ' + ', '.join(t), mod.name)


LOG, DOT = ('log',), ('dot',)


def duration_value():
    """2**-log * (2 - 2**-dot)"""
    a = Algebra()
    l = a.exp2(scale(atom(LOG), -1))
    d = a.exp2(add(scale(atom(LOG), -1), atom(DOT), -1))
    return add(scale(l, 2), d, -1)


def value(c, m, f):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f)
    A = Algebra({param(ps[0]): atom(LOG), param(ps[1]): atom(DOT)})
    for v, conds in leaves(r.value):
        p = A.poly(v)
        c.ob('value', 'duration', p == duration_value(), 'the value is {}'.format(show(v)), f.where)
    # the exponents of the powers of two must not become negative for the longest name
    longest = len(table(m, m.module('quickly.duration')))
    for lits, (v,) in split([r.value]):
        if any(x is param(ps[0]) for g in lits for x in subterms(g)):
            continue
        for t in subterms(v):
            if t.op != 'bin' or t.args[0] not in ('<<', '>>'):
                continue
            e = A.poly(t.args[2])
            k = e.get(ONE, 0)
            if e.get((LOG,)):
                c.ob('value', 'shift by length', e[(LOG,)] == 1 and k >= longest, 'shifts by {} bits, which is negative for the longest name'.format(
                    show(t.args[2])), f.where)


def frexp_rewrite(model):
    """item(frexp(x), i) for the values that are known symbolically."""
    def rw(al, t):
        if t.op == 'item' and is_const(t.args[1]) and t.args[1].args[0] in (0, 1) and t.args[0].op == 'call' \
                and callee_name(t.args[0].args[0]) == 'frexp' and len(t.args[0].args[1]) == 1:
            p = al.poly(t.args[0].args[1][0])
            got = frexp(al, p)
            if got:
                return got[t.args[1].args[0]]
        return None
    return rw


def frexp(al, p):
    """(mantissa, exponent) of c * 2**a, and of 2**a * (2 - 2**-d) with d >= 0."""
    if len(p) == 1:
        (mm, k), = p.items()
        if all(isinstance(a, tuple) and a[0] == '2^' for a in mm) and len(mm) <= 1 and k > 0:
            e = thaw(mm[0][1]) if mm else {}
            # k = n * 2**x
            x = 0
            while k >= 1:
                k /= 2
                x += 1
            while k < Fraction(1, 2):
                k *= 2
                x -= 1
            return num(k), add(e, num(x))
    v = duration_value()
    if p == v:
        one = al.exp2(add(scale(atom(DOT), -1), num(1), -1))
        return add(num(1), one, -1), add(num(1), atom(LOG), -1)
    return None


def split_value(c, m, f):
    I = node_interp(m)
    ps = f.params()
    r = I.run(f)
    truncated(c, f, r, param(ps[0]))
    A = Algebra({param(ps[0]): duration_value()}, rewrite=frexp_rewrite(m))
    for v, conds in leaves(r.value):
        if v.op != 'tuple' or len(v.args) != 2:
            c.unknown('split', 'log_dotcount', 'gives ' + show(v))
            continue
        for what, t, want in (('length', v.args[0], LOG), ('dots', v.args[1], DOT)):
            p = A.poly(t)
            if p != atom(want) and any(isinstance(a, T) for mm in p for a in mm):
                c.unknown('split', what, 'the {} is {}'.format(what, show(t)))
                continue
            c.ob('split', what, p == atom(want), 'the {} of a duration is read as {}'.format(what, show_poly(p, show)), f.where)


def truncated(c, f, r, x):
    """Other values: 1 - mantissa is k * 2**e with k from 1/2 up to 1.

    The longest duration with dots that is not longer has 1 - mantissa rounded
    up to a power of two: 2**e, or 2**(e - 1) if k is exactly 1/2.
    """
    E, X, MU = atom(('rest exponent',)), atom(('exponent',)), ('mantissa',)

    def rewrite(k):
        def rw(al, t):
            if t.op == 'item' and is_const(t.args[1]) and t.args[1].args[0] in (0, 1) and t.args[0].op == 'call' \
                    and callee_name(t.args[0].args[0]) == 'frexp' and len(t.args[0].args[1]) == 1:
                i = t.args[1].args[0]
                p = al.poly(t.args[0].args[1][0])
                if p == atom(('value',)):
                    return X if i else atom(MU)
                if p == add(num(1), atom(MU), -1):
                    return E if i else num(k)
            return None
        return rw
    for k, dots in ((Fraction(1, 2), 0), (Fraction(5, 8), -1), (Fraction(15, 16), -1)):
        A = Algebra({x: atom(('value',))}, rewrite=rewrite(k))
        for v, conds in leaves(r.value):
            if any(A.decide(t) == (not p) for t, p in conds):
                continue
            if v.op != 'tuple' or len(v.args) != 2:
                continue
            got = A.poly(v.args[1])
            if any(isinstance(a, T) or a not in (('rest exponent',), ('exponent',), MU) for mm in got for a in mm):
                c.unknown('split', 'truncation', 'the dots are ' + show(v.args[1]))
                continue
            c.ob('split', 'truncation', got == add(num(dots), E, -1), 'a value between two durations gets {} dots'.format(show_poly(got, show)), f.where)
            got = A.poly(v.args[0])
            if not any(isinstance(a, T) for mm in got for a in mm):
                c.ob('split', 'length', got == add(num(1), X, -1), 'the length is read as ' + show_poly(got, show), f.where)


def shifted(c, m, f):
    I = node_interp(m, opaque={'log_dotcount', 'duration'})
    ps = f.params()
    r = I.run(f)
    A = Algebra()
    for v, conds in leaves(r.value):
        if v.op != 'call' or callee_name(v.args[0]) != 'duration':
            c.unknown('shift', 'shift_duration', 'gives ' + show(v))
            continue
        args = list(v.args[1]) + [x for k, x in sorted(dict(v.args[2]).items(), key=lambda x: x[0] != 'log')]
        if len(args) != 2:
            c.unknown('shift', 'shift_duration', 'gives ' + show(v))
            continue
        for i, (what, t) in enumerate(zip(('length', 'dots'), args)):
            vals = []
            # the maximum with zero
            for w, cs in leaves(t):
                if w.op == 'call' and callee_name(w.args[0]) == 'max':
                    vals += [x for x in w.args[1] if not (is_const(x) and x.args[0] == 0)]
                    c.ob('shift', 'not below zero', i == 1 and any(is_const(x) and x.args[0] == 0 for x in w.args[1]), 'limited to ' + show(w), f.where)
                elif is_const(w) and w.args[0] == 0 and cs:
                    continue
                else:
                    vals.append(w)
                    if i:
                        low, other = False, None
                        for t, p in known(list(cs) + list(conds)).items():
                            if t.op == 'cmp' and t.args[0] in ('<', '<='):
                                a, b = t.args[1:] if p else t.args[:0:-1]
                                low |= is_const(a) and a.args[0] >= (0 if p == (t.args[0] == '<=') else -1) and A.poly(b) == A.poly(w)
                            other = t
                        if not low and other:
                            c.unknown('shift', 'not below zero', 'depends on ' + show(other))
                        else:
                            c.ob('shift', 'not below zero', low, 'the number of dots can become negative', f.where)
            for w in vals:
                parts = [x for x in subterms(w) if x.op == 'item' and x.args[0].op == 'call' and callee_name(x.args[0].args[0]) == 'log_dotcount']
                ok = len(parts) == 1 and parts[0].args[1] is const(i) and parts[0].args[0].args[1] == (param(ps[0]),) \
                    and A.poly(w) == add(A.poly(parts[0]), A.poly(param(ps[i + 1])))
                c.ob('shift', what, ok, 'the {} become {}'.format(what, show(w)), f.where)


def writable(c, m, mod, f):
    """Only positive values up to the longest name, and only exact ones."""
    I = node_interp(m)
    ps = f.params()
    r = I.run(f)
    longest = len(table(m, mod))
    x = param(ps[0])
    for v, conds in leaves(r.value):
        if is_const(v) and not v.args[0]:
            continue
        k = known(list(conds) + ([(v, True)] if not is_const(v) else []))
        hi = lo = exact = positive = None
        other = []
        for t, p in k.items():
            if t.op == 'truth':
                y = t.args[0]
                if p and (y is x or mantissa(y, x)):
                    positive = True
                continue
            if t.op != 'cmp':
                if t.op not in ('and', 'or', 'not'):
                    other.append(t)
                continue
            op, a, b = t.args
            if not any(is_const(y) and (y2 is x or y2.op == 'item' and y2.args[0].op == 'call' and callee_name(y2.args[0].args[0]) == 'frexp')
                       for y, y2 in ((a, b), (b, a))):
                other.append(t)
            if op == '==' and p and any(is_const(y) and y.args[0] == 0.5 for y in (a, b)):
                o = a if is_const(b) else b
                if o.op == 'item' and o.args[1] is const(0) and o.args[0].op == 'call' and callee_name(o.args[0].args[0]) == 'frexp':
                    exact = True
            if op == '==' and not p and any(y is x or mantissa(y, x) for y in (a, b)) and any(is_const(y) and y.args[0] == 0 for y in (a, b)):
                positive = True
            if op in ('<', '<='):
                if not p:
                    a, b, op = b, a, '<=' if op == '<' else '<'
                if is_const(a) and (b is x or mantissa(b, x)) and (a.args[0] > 0 or a.args[0] == 0 and op == '<'):
                    positive = True
                if is_const(b) and exponent(a, x):
                    hi = b.args[0] - (op == '<')
                if is_const(a) and exponent(b, x):
                    lo = a.args[0] + (op == '<')
        def ob(what, good, got, text):
            if not got and other:
                c.unknown('writable', what, 'depends on ' + show(other[0]))
            else:
                c.ob('writable', what, good, text, f.where)
        ob('longest', hi == longest + 1, hi is not None, 'values up to 2**{} count as writable, but the longest name has 2**{}'.format(hi, longest))
        ob('shortest', lo is not None and lo <= -9, lo is not None, 'short values do not count as writable')
        ob('exact', exact, exact, 'values between two durations count as writable')
        ob('positive', positive, positive, 'zero counts as writable')


def exponent(t, x):
    return t.op == 'item' and t.args[1] is const(1) and t.args[0].op == 'call' and callee_name(t.args[0].args[0]) == 'frexp' and t.args[0].args[1] == (x,)


def mantissa(t, x):
    return t.op == 'item' and t.args[1] is const(0) and t.args[0].op == 'call' and callee_name(t.args[0].args[0]) == 'frexp' and t.args[0].args[1] == (x,)


def transform(c, m):
    k = m.cls('duration.Transform')

    def run(name, **kw):
        f = k.lookup(name)
        if not f or f[1] != 'method':
            raise AnalysisBroken('Transform.{} not found'.format(name))
        c.unit('function')
        I = node_interp(m, opaque={'shift_duration'})
        return f[2], I, I.run(f[2], cls=k)
    names = ('log', 'dotcount', 'scale')
    f, I, r = run('__init__')
    me = param(f.params()[0])
    for n, p in zip(names, f.params()[1:]):
        c.ob('transform', '__init__ ' + n, r.state.heap.get((me, n)) is param(p), 'the {} is not set from its argument'.format(n), f.where)
    f, I, r = run('__add__')
    ps = f.params()
    A = Algebra({param(p): atom(('p', i)) for i, p in enumerate(ps)})
    for v, conds in leaves(r.value):
        if v.op != 'new':
            continue
        for n in names:
            t = r.state.heap.get((v, n))
            a, b = (atom(('attr', ('p', i), n)) for i in (0, 1))
            want = mul(a, b) if n == 'scale' else add(a, b)
            c.ob('transform', '__add__ ' + n, t is not None and A.poly(t) == want, 'the {} of a sum is {}'.format(n, show(t) if t is not None else 'not set'), f.where)
    f, I, r = run('__bool__')
    seen = {t.args[1] for t in subterms(r.value) if t.op == 'attr'}
    c.ob('transform', '__bool__', seen >= set(names), 'only {} decide whether anything is transformed'.format(', '.join(sorted(seen))), f.where)
    f, I, r = run('transform')
    ps = f.params()
    A = Algebra({param(p): atom(('p', i)) for i, p in enumerate(ps)})
    for v, conds in leaves(r.value):
        if v.op != 'tuple' or len(v.args) != 2:
            c.unknown('transform', 'transform', 'gives ' + show(v))
            continue
        for w, cs in leaves(v.args[0]):
            if w.op == 'call' and callee_name(w.args[0]) == 'shift_duration':
                got = [A.key(x) for x in w.args[1]]
                c.ob('transform', 'shifted', got == [('p', 1), ('attr', ('p', 0), 'log'), ('attr', ('p', 0), 'dotcount')], 'shifted by ' + show(w), f.where)
            elif w is param(ps[1]):
                kn = known(list(cs) + list(conds))
                zero = {t.args[0].args[1] for t, p in kn.items() if t.op == 'truth' and not p and t.args[0].op == 'attr'} | {
                    a.args[1] for t, p in kn.items() if t.op == 'cmp' and t.args[0] == '==' and p for a in t.args[1:] if a.op == 'attr'}
                c.ob('transform', 'unshifted', zero >= {'log', 'dotcount'}, 'the duration stays the same though there may be a shift', f.where)
            else:
                c.ob('transform', 'shifted', False, 'the duration becomes ' + show(w), f.where)
        got = A.poly(v.args[1])
        want = mul(atom(('p', 2)), atom(('attr', ('p', 0), 'scale')))
        c.ob('transform', 'scaled', got == want, 'the scaling becomes ' + show(v.args[1]), f.where)
    f = k.lookup('length')[2]
    c.unit('function')
    I = node_interp(m, opaque={'transform'})
    r = I.run(f, cls=k)
    A = Algebra()
    for v, conds in leaves(r.value):
        calls = [t for t in subterms(v) if t.op == 'call' and callee_name(t.args[0]) == 'transform']
        ok = len(set(calls)) == 1 and A.poly(v) == mul(A.poly(mk('item', calls[0], const(0))), A.poly(mk('item', calls[0], const(1)))) \
            and calls[0].args[1] == tuple(param(p) for p in f.params()[1:3]) if calls else None
        if ok is None:
            c.unknown('transform', 'length', 'gives ' + show(v))
        else:
            items = {t.args[1].args[0] for t in subterms(v) if t.op == 'item' and t.args[0] is calls[0] and is_const(t.args[1])}
            c.ob('transform', 'length', ok or prod_of_items(v, calls[0]), 'the length is ' + show(v), f.where)


def prod_of_items(v, call):
    if v.op == 'bin' and v.args[0] == '*':
        return {x.args[1].args[0] for x in v.args[1:] if x.op == 'item' and x.args[0] is call and is_const(x.args[1])} == {0, 1}
    return False


def elements(c, m):
    k = m.cls('dom.lily.Duration')
    sc = m.cls('dom.lily.DurationScaling')
    # the scaling is the product of all scaling children
    f = k.lookup('duration')[2]
    c.unit('function')
    I = node_interp(m)
    r = I.run(f, cls=k)
    for v, conds in leaves(r.value):
        if v.op != 'tuple' or len(v.args) != 2:
            c.unknown('scaling', 'duration', 'gives ' + show(v))
            continue
        h, s = v.args
        c.ob('scaling', 'duration value', h.op == 'attr' and h.args[1] in ('head', '_head'), 'the value is ' + show(h), f.where)
        product(c, I, s, 'duration', lambda x: x.op == 'attr' and x.args[1] in ('head', '_head'), f.where)
    f = k.lookup('from_string')[2]
    c.unit('function')
    I = node_interp(m, opaque={'from_duration', 'duration', 'from_string'})
    r = I.run(f, cls=k)
    for v, conds in leaves(r.value):
        if v.op != 'call' or callee_name(v.args[0]) != 'from_duration' or len(v.args[1]) < 2:
            c.unknown('scaling', 'from_string', 'gives ' + show(v))
            continue
        product(c, I, v.args[1][1], 'from_string', lambda x: x.op == 'call' and callee_name(x.args[0]) == 'Fraction', f.where)
    f = k.lookup('from_duration')[2]
    c.unit('function')
    I = node_interp(m)
    r = I.run(f, cls=k)
    ps = f.params()
    dur, scaling = param(ps[-2]), param(ps[-1])
    for e in r.events:
        if e.kind == 'new' and e.args[0].args[0].op == 'cls':
            cls = e.args[0].args[0].args[0]
            if cls.issub(sc):
                c.ob('scaling', 'from_duration scaling', e.args[1] == (scaling,), 'the scaling is ' + ', '.join(show(x) for x in e.args[1]), e.where)
                fs = {t: p for t, p in real_facts(e.facts).items() if any(x is scaling for x in subterms(t)) and t.op != 'isinstance'}
                for t, p in fs.items():
                    one = t.op == 'cmp' and t.args[0] == '==' and not p and {scaling, const(1)} == set(t.args[1:])
                    c.ob('scaling', 'from_duration when', one, 'the scaling is left out unless ' + show(t), e.where)
            elif cls.issub(k):
                c.ob('scaling', 'from_duration value', e.args[1] == (dur,), 'the value is ' + ', '.join(show(x) for x in e.args[1]), e.where)
    # both heads are exact
    for cls in (k, sc):
        f = cls.lookup('__init__')
        if f and f[1] == 'method':
            f = f[2]
            c.unit('function')
            r = node_interp(m).run(f, cls=cls)
            h = param(f.params()[1])
            v = r.state.heap.get((param(f.params()[0]), '_head')) if r.state else None
            if v is None:
                continue
            for w, cs in leaves(v):
                ok = w is h or w.op == 'call' and h in subterms(w)
                c.ob('scaling', cls.name + ' head', ok, 'the value becomes ' + show(w), f.where)
                for x in subterms(w):
                    # the shortest duration with eight dots
                    if x.op == 'call' and callee_base(x.args[0]) is not None and callee_name(x.args[0]) == 'limit_denominator' and x.args[1] and is_const(x.args[1][0]):
                        c.ob('scaling', cls.name + ' exact', x.args[1][0].args[0] >= 2 ** 18, 'the value is rounded to ' + show(x), f.where)


def product(c, I, t, name, factor, where):
    """t starts with 1 and is multiplied by every factor once."""
    if t.op == 'call' and callee_name(t.args[0]) == 'prod':
        c.ob('scaling', name + ' product', True)
        return
    if t.op != 'mu' or t not in I.mu:
        c.unknown('scaling', name + ' product', 'the scaling is ' + show(t))
        return
    init, nxt = I.mu[t]
    for x in subterms(nxt):
        if x.op in ('each', 'elem') and x.args[0].op == 'slice':
            got, first = x.args[0], 0
            while got.op == 'slice' and first is not None:
                a, b, step = got.args[1:4]
                whole = all(is_const(y) for y in (a, b, step)) and b.args[0] is None and step.args[0] in (None, 1)
                first = first + (a.args[0] or 0) if whole else None
                got = got.args[0]
            if first is None or got.op == 'call' and (callee_name(got.args[0]) or '').endswith('split'):
                c.ob('scaling', name + ' factors', first == 1, 'not every factor is multiplied: ' + show(x.args[0]), where)
    c.ob('scaling', name + ' start', Algebra().poly(init) == num(1), 'the scaling starts with ' + show(init), where)
    for v, conds in leaves(nxt):
        if v is t:
            continue
        ok = v.op == 'bin' and v.args[0] == '*' and t in v.args[1:] and any(factor(x) for x in v.args[1:])
        c.ob('scaling', name + ' product', ok, 'the scaling becomes ' + show(v), where)
