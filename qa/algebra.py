"""Polynomial normal forms of the terms of the value-flow interpreter.

poly(t) gives a canonical dict {monomial: Fraction}; a monomial is a sorted
tuple of atoms. Atoms are terms, or tuples for compound terms whose parts are
themselves normalised: ('//', p, q), ('idx', base, p), ('call', name, ps...).
Two terms with the same normal form are equal for all numbers, where integer
division is concerned for all integers.
"""
from fractions import Fraction

from .gvf import T, is_const

ONE = ()


def order(a):
    return (0, a.id) if isinstance(a, T) else (1, repr_key(a))


def repr_key(a):
    if isinstance(a, T):
        return 'T%09d' % a.id
    if isinstance(a, (tuple, frozenset)):
        return '(' + ','.join(repr_key(x) for x in (sorted(a, key=repr_key) if isinstance(a, frozenset) else a)) + ')'
    return repr(a)


def freeze(p):
    return tuple(sorted(p.items(), key=repr_key))


def thaw(f):
    return dict(f)


def const_of(p):
    """The value of a constant polynomial, else None."""
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k, e = merge_powers(m + n)
            r[k] = r.get(k, 0) + c * d * e
            if not r[k]:
                del r[k]
    return r


def merge_powers(atoms):
    """A sorted monomial with its powers of two combined, and a factor."""
    pw = [a for a in atoms if isinstance(a, tuple) and a[0] == '2^']
    if len(pw) < 2:
        return tuple(sorted(atoms, key=repr_key)), 1
    e = {}
    for a in pw:
        e = add(e, thaw(a[1]))
    rest = tuple(a for a in atoms if a not in pw)
    if e:
        rest += (('2^', freeze(e)),)
    return tuple(sorted(rest, key=repr_key)), 1


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def num(x):
    return {ONE: Fraction(x)} if x else {}


def atom(a):
    return {(a,): Fraction(1)}


def integral(p):
    return all(c.denominator == 1 for c in p.values())


def floordiv(p, q):
    """Canonical p // q for integers p, q."""
    l = const_of(q)
    if l is not None and l and const_of(p) is not None:
        return num(const_of(p) // l)
    if not integral(p) or not q:
        return atom(('//', freeze(p), freeze(q)))
    out, rest = {}, {}
    if l is not None and l.denominator == 1 and l > 0:
        for m, c in p.items():
            k = (c + (l - 1) // 2) // l         # symmetric residue
            out = add(out, {m: Fraction(k)} if k else {})
            if c - k * l:
                rest[m] = c - k * l
    elif len(q) == 1 and list(q.values()) == [1]:
        div = list(q)[0]
        for m, c in p.items():
            left = list(m)
            try:
                for a in div:
                    left.remove(a)
            except ValueError:
                rest[m] = c
            else:
                out = add(out, {tuple(left): c})
    else:
        return atom(('//', freeze(p), freeze(q)))
    if not rest:
        return out
    lead = min((m for m in rest if m != ONE), key=repr_key, default=None)
    if lead is None:
        if l is not None:
            return add(out, num(rest[ONE] // l))
        return add(out, atom(('//', freeze(rest), freeze(q))))
    if rest[lead] < 0:
        # p // l == -1 - (-p - 1) // l
        inner = floordiv(add(scale(rest, -1), num(1), -1), q)
        return add(add(out, num(1), -1), inner, -1)
    return add(out, atom(('//', freeze(rest), freeze(q))))


class Algebra:
    """Normal forms; defs maps terms to other terms first."""
    def __init__(self, defs=None, facts=None, rewrite=None):
        self.defs = defs or {}
        self.facts = facts
        self.rewrite = rewrite
        self.memo = {}

    def poly(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._poly(t)
        self.memo[t] = r
        return r

    def key(self, t):
        """Canonical form of any term."""
        p = self.poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1:
                return m[0]
        return ('poly', freeze(p))

    def _poly(self, t):
        if t in self.defs:
            d = self.defs[t]
            return self.poly(d) if isinstance(d, T) else d
        if self.rewrite:
            d = self.rewrite(self, t)
            if d is not None:
                return d if isinstance(d, dict) else self.poly(d)
        if is_const(t):
            v = t.args[0]
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                return num(Fraction(v))
            return atom(t)
        if t.op == 'neg':
            return scale(self.poly(t.args[0]), -1)
        if t.op == 'inv':
            return add(scale(self.poly(t.args[0]), -1), num(1), -1)
        if t.op == 'bin':
            op, a, b = t.args[:3]
            if op in '+-*':
                p, q = self.poly(a), self.poly(b)
                return add(p, q) if op == '+' else add(p, q, -1) if op == '-' else mul(p, q)
            p, q = self.poly(a), self.poly(b)
            k = const_of(q)
            if op == '/':
                if k:
                    return scale(p, 1 / k)
                return self.power(p, q, -1)
            if op == '//':
                return floordiv(p, q)
            if op == '%':
                if const_of(q) is None and len(q) != 1:
                    return atom(('%', freeze(p), freeze(q)))
                return add(p, mul(q, floordiv(p, q)), -1)
            if op == '<<':
                return mul(p, self.exp2(q))
            if op == '>>':
                return floordiv(p, self.exp2(q))
            if op == '**':
                b = const_of(p)
                if b == 2:
                    return self.exp2(q)
                if b is not None and k is not None and k.denominator == 1 and abs(k) < 64:
                    return num(b ** int(k))
                if k is not None and k.denominator == 1 and 0 <= k <= 8:
                    r = num(1)
                    for _ in range(int(k)):
                        r = mul(r, p)
                    return r
            return atom((op, freeze(p), freeze(q)))
        if t.op in ('cmp', 'not'):
            v = self.decide(t)
            if v is not None:
                return num(int(v))
        if t.op == 'item':
            base, i = t.args[:2]
            d = self.divmod_of(base)
            if d is not None and is_const(i) and i.args[0] in (0, 1):
                p, q = d
                f = floordiv(p, q)
                return f if i.args[0] == 0 else add(p, mul(q, f), -1)
            b = self.key(base)
            return atom(('idx', b, self.key(i))) if not is_const(i) or b is not base else atom(t)
        if t.op == 'ite':
            v = self.decide(t.args[0])
            if v is not None:
                return self.poly(t.args[1 if v else 2])
            a, b = self.poly(t.args[1]), self.poly(t.args[2])
            if a == b:
                return a
            return atom(('ite', self.cond(t.args[0]), freeze(a), freeze(b)))
        if t.op == 'call':
            fn, args, kws = t.args[:3]
            name = fn.args[0] if fn.op in ('builtin', 'ext') else fn.args[0].name if fn.op == 'cls' else None
            if name in ('Fraction', 'fractions.Fraction') and not kws and len(args) in (1, 2):
                p = self.poly(args[0])
                if len(args) == 1:
                    return p
                q = self.poly(args[1])
                k = const_of(q)
                return scale(p, 1 / k) if k else self.power(p, q, -1)
            if name is not None and not kws and all(isinstance(x, T) for x in args):
                return atom(('call', name) + tuple(self.key(x) for x in args))
        if t.op in ('attr', 'len') and isinstance(t.args[0], T):
            b = self.key(t.args[0])
            return atom(t) if b is t.args[0] else atom((t.op, b) + tuple(t.args[1:2] if t.op == 'attr' else ()))
        if t.op == 'tuple':
            return atom(('tuple',) + tuple(self.key(x) for x in t.args))
        return atom(t)

    def decide(self, t):
        """The truth of a condition on constants, or None."""
        if t.op == 'not':
            v = self.decide(t.args[0])
            return None if v is None else not v
        if t.op == 'cmp' and t.args[0] in ('<', '<=', '=='):
            a, b = const_of(self.poly(t.args[1])), const_of(self.poly(t.args[2]))
            if a is not None and b is not None:
                return a < b if t.args[0] == '<' else a <= b if t.args[0] == '<=' else a == b
        if t.op == 'truth':
            v = const_of(self.poly(t.args[0]))
            return None if v is None else bool(v)
        return None

    def power(self, p, q, e):
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == '2^':
                return mul(scale(p, 1 / c), self.exp2(scale(thaw(m[0][1]), -1)))
        return atom(('/', freeze(p), freeze(q)))

    def exp2(self, q):
        k = q.get(ONE, Fraction(0))
        rest = {m: c for m, c in q.items() if m != ONE}
        if k.denominator != 1 or abs(k) > 64:
            k, rest = Fraction(0), q
        c = Fraction(2) ** int(k)
        if not rest:
            return num(c)
        return scale(atom(('2^', freeze(rest))), c)

    def cond(self, t):
        if t.op == 'not':
            return ('not', self.cond(t.args[0]))
        if t.op == 'cmp':
            return ('cmp', t.args[0], self.key(t.args[1]), self.key(t.args[2]))
        return t

    def divmod_of(self, t):
        if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'divmod' and len(t.args[1]) == 2:
            return self.poly(t.args[1][0]), self.poly(t.args[1][1])
        return None

    def equal(self, a, b):
        return self.poly(a) == self.poly(b)


def show_poly(p, show):
    def at(a):
        if isinstance(a, T):
            return show(a)
        if a[0] == '//':
            return '({}) // ({})'.format(show_poly(thaw(a[1]), show), show_poly(thaw(a[2]), show))
        if a[0] == 'idx':
            return '{}[{}]'.format(at(a[1]), at(a[2]))
        if a[0] == 'attr':
            return '{}.{}'.format(at(a[1]), a[2])
        if a[0] == 'p':
            return 'argument {}'.format(a[1]) if a[1] else 'self'
        if a[0] == 'poly':
            return show_poly(thaw(a[1]), show)
        return '{}(..)'.format(a[0])
    out = []
    for m, c in sorted(p.items(), key=repr_key):
        s = '*'.join(at(a) for a in m)
        out.append('{}{}'.format(c if not s or c not in (1, -1) else '-' if c < 0 else '', ('*' if s and c not in (1, -1) else '') + s))
    return ' + '.join(out) or '0'


def split(terms, limit=64):
    """The terms on every combination of their gates: [(literals, terms)]."""
    from .gvf import lit

    def resolve(t, lits, memo):
        if not isinstance(t, T):
            return tuple(resolve(x, lits, memo) for x in t) if isinstance(t, tuple) else t
        if t in memo:
            return memo[t]
        if t.op == 'ite':
            g, p = lit(t.args[0])
            v = lits.get(g)
            if v is not None:
                r = resolve(t.args[1] if v == p else t.args[2], lits, memo)
                memo[t] = r
                return r
        from .gvf import mk
        args = tuple(resolve(x, lits, memo) if isinstance(x, (T, tuple)) else x for x in t.args)
        r = t if args == t.args else mk(t.op, *args)
        memo[t] = r
        return r

    def gate(ts):
        for t in ts:
            stack, seen = [t], set()
            while stack:
                x = stack.pop()
                if not isinstance(x, T) or x in seen:
                    if isinstance(x, tuple):
                        stack.extend(x)
                    continue
                seen.add(x)
                if x.op == 'ite' and not any(isinstance(y, T) and y.op == 'ite' for y in _subs(x.args[0])):
                    return lit(x.args[0])[0]
                stack.extend(x.args)
        return None
    out, todo = [], [({}, tuple(terms))]
    while todo:
        lits, ts = todo.pop()
        g = gate(ts)
        if g is None or len(out) + len(todo) > limit:
            out.append((lits, ts))
            continue
        for v in (True, False):
            n = dict(lits)
            n[g] = v
            todo.append((n, tuple(resolve(t, n, {}) for t in ts)))
    return out


def _subs(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def equalities(lits):
    """Terms that the literals fix to a constant."""
    out = {}
    for g, v in lits.items():
        if v and g.op == 'cmp' and g.args[0] == '==':
            a, b = g.args[1:]
            if is_const(b) and not is_const(a):
                out[a] = b
            elif is_const(a) and not is_const(b):
                out[b] = a
    return out
