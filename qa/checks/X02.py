"""Delimited constructs lose and duplicate no token.

All functions of the transformation modules that get a list of items are run
through the value flow analysis.  Where the last item is taken off, it must have
been compared with the closing text of the element made; the tokens of the head
and the rest of the items must fit together without gap or overlap; whatever is
taken off or cut off is used; and loops that step through items by index move on
by exactly the items they looked at.
"""
from ..lib import *
from ..handlers import Handlers

TECHNIQUE = 'symbolic accounting of item positions (slices, pops, deletions, index steps) by value flow'
NOTE = ('All functions with a list of items in the four language modules. Whether a lexicon ends a context with a given '
        'token is decided by the parser library. Items handed on as a whole are accounted for in the function that gets them.')


def check(c):
    m = c.model
    H = Handlers(m)
    done = set()
    for f, cls in H.functions():
        def one():
            I, r = H.run(f, cls)
            c.unit('functions')
            Account(c, H, f, I, r, done).check()
        c.guard('close', f.qualname, one)
    c.floor('close', 18)
    c.floor('seam', 18)


# ---- what a condition says about the text of an item
def texts(cond, val, x):
    """The texts of x allowed by a condition; None when it does not restrict x."""
    if cond.op == 'not':
        return texts(cond.args[0], not val, x)
    if cond.op == 'truth' and cond.args[0].op in ('and', 'or', 'not', 'cmp'):
        return texts(cond.args[0], val, x)
    if cond.op in ('and', 'or'):
        parts = [texts(a, val, x) for a in cond.args]
        if (cond.op == 'and') == val:
            known_ = [p for p in parts if p is not None]
            return set.intersection(*known_) if known_ else None
        return None if any(p is None for p in parts) else set().union(*parts)
    if cond.op == 'cmp' and cond.args[0] in ('==', 'is') and val:
        for a, b in ((1, 2), (2, 1)):
            if same_item(cond.args[a], x):
                y = cond.args[b]
                return {y.args[0]} if is_const(y) else {y}
    if cond.op == 'cmp' and cond.args[0] == '!=' and not val:
        for a, b in ((1, 2), (2, 1)):
            if same_item(cond.args[a], x):
                y = cond.args[b]
                return {y.args[0]} if is_const(y) else {y}
    if cond.op in ('cmp', 'in') and val and (cond.op == 'in' or cond.args[0] == 'in'):
        a, b = cond.args[-2:]
        if same_item(a, x):
            if b.op == 'tuple' and all(is_const(z) for z in b.args):
                return {z.args[0] for z in b.args}
    return None


def same_item(t, x):
    if t.op == 'attr' and t.args[1] == 'text':
        t = t.args[0]
    return t is x


def allowed(facts, x):
    out = None
    for f, v in facts.items():
        t = texts(f, v, x)
        if t is not None:
            out = t if out is None else out & t
    return out


def at_least_two(facts, obj):
    """Whether the facts say that there is more than one item."""
    def says(cond, val):
        if cond.op == 'not':
            return says(cond.args[0], not val)
        if cond.op in ('and', 'or'):
            parts = [says(a, val) for a in cond.args]
            return any(parts) if (cond.op == 'and') == val else all(parts)
        if cond.op == 'truth':
            if cond.args[0].op in ('and', 'or', 'not', 'cmp'):
                return says(cond.args[0], val)
            t = cond.args[0]     # a non-empty rest
            return val and t.op == 'slice' and t.args[0] is obj and is_const(t.args[1]) and isinstance(t.args[1].args[0], int) and t.args[1].args[0] >= 1
        if cond.op == 'cmp':
            op, a, b = cond.args
            if not val:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}.get(op)
            if b.op == 'len' and is_const(a):
                a, b = b, a
                op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            if a.op == 'len' and a.args[0] is obj and is_const(b) and isinstance(b.args[0], int):
                n = b.args[0]
                return op == '>' and n >= 1 or op == '>=' and n >= 2 or op == '==' and n >= 2 or op == '!=' and n == 1
        return False
    return any(says(f, v) for f, v in facts.items())


def const_int(t):
    return t.args[0] if is_const(t) and isinstance(t.args[0], int) and not isinstance(t.args[0], bool) else None


class Account:
    def __init__(self, c, H, f, I, r, done):
        self.c, self.H, self.f, self.I, self.r, self.done = c, H, f, I, r, done
        self.E = H.E
        self.made = H.made(r)

    def name(self, e):
        return e.where.split('(')[-1].rstrip(')').replace('quickly.lang.', '')

    def own(self):
        return self.f.qualname.replace('quickly.lang.', '')

    def terms(self):
        """All terms that show up in events and results."""
        if not hasattr(self, '_terms'):
            out = set()
            for e in self.r.events:
                for a in e.args:
                    for t in flat(a):
                        out.update(subterms(t))
            if self.r.value is not None:
                out.update(subterms(self.r.value))
            for y in self.r.yields or ():
                for t in flat(y):
                    out.update(subterms(t))
            self._terms = out
        return self._terms

    def check(self):
        for x in self.made:
            if x.how == 'factory':
                self.closing(x)
                self.seam(x)
        self.cut()
        self.steps()

    # -- the closing token
    def closing(self, x):
        if x.tail is None:
            return
        for t, conds in leaves(x.tail):
            for p in {p for p in subterms(t) if p.op == 'popped'}:
                obj, how, args = p.args[0], p.args[1], p.args[2]
                k = (x.where, p)
                if k in self.done:
                    continue
                self.done.add(k)
                con = '{}: {}'.format(self.name(x.event), show(x.cls)[:60])
                last = how == 'pop' and (not args or const_int(args[0]) == -1)
                self.c.ob('close', con + ': end', last, 'the token taken off is not the last one', x.where)
                facts = self.pop_facts(p, conds, x)
                item = [y for y in self.terms() if y.op == 'item' and y.args[0] is obj and const_int(y.args[1]) == -1]
                got = None
                for y in item:
                    a = allowed(facts, y)
                    if a is not None:
                        got = a if got is None else got & a
                self.c.ob('close', con, got is not None, 'the last token is taken as the closing one without looking at it', x.where)
                if got is None:
                    continue
                strs = {g for g in got if isinstance(g, str)}
                opaque = got - strs
                ks = [k for k, _ in x.classes()]
                tails = {self.E.tail(k) for k in ks if k is not None}
                own = {o for o in opaque if o.op == 'attr' and o.args[0] is x.cls and o.args[1] == 'tail'}
                if opaque and not strs:
                    self.c.ob('close', con + ': text', opaque == own or not all(o.op == 'attr' for o in opaque),
                              'compared with {}, which is not the closing text'.format(', '.join(show(o) for o in opaque)), x.where)
                if None not in ks and None not in tails and not opaque:
                    self.c.ob('close', con + ': text', strs == tails or strs <= tails and len(tails) > 1 and not (tails - strs),
                              'compared with {} but the closing text is {}'.format(' '.join(sorted(strs)) or 'nothing', ' '.join(sorted(tails))), x.where)
                same = [k for k in ks if k is not None and self.E.head(k) is not None and self.E.head(k) == self.E.tail(k)]
                if same:
                    self.c.ob('close', con + ': lone', at_least_two(facts, obj) or self.later(obj),
                              'a lone opening token is taken for the closing one', x.where)

    @staticmethod
    def later(obj):
        """Whether these items do not include the opening token."""
        return obj.op == 'slice' and (const_int(obj.args[1]) or 0) >= 1

    def pop_facts(self, p, conds, x):
        facts = dict(x.event.facts)
        facts.update(conds)
        for e in self.r.events:
            if e.kind == 'mutate' and e.args[0] is p.args[0] and e.args[1] == p.args[1]:
                if all(facts.get(k, v) == v for k, v in e.facts.items()):
                    facts.update(e.facts)
        return facts

    # -- head and contents
    def seam(self, x):
        E = self.E
        head = x.head
        if head is None:
            return
        k = (x.where, 'seam')
        obj, n = None, None
        if head.op == 'slice' and const_int(head.args[2]) is not None and (head.args[1] is NONE or const_int(head.args[1]) == 0):
            obj, n = head.args[0], const_int(head.args[2])
        elif head.op == 'tuple' and head.args and all(y.op == 'item' and const_int(y.args[1]) == i for i, y in enumerate(head.args)):
            obj, n = head.args[0].args[0], len(head.args)
        if obj is None or n < 0 or (k, show(x.cls)) in self.done:
            return
        ks = [q for q, _ in x.classes()]
        if None in ks or not any(q.issub(E.headed) for q in ks):
            return
        self.done.add((k, show(x.cls)))
        con = '{}: {}'.format(self.name(x.event), show(x.cls)[:60])
        heads = {E.head(q) for q in ks}
        if None not in heads:
            words = {len(h.split()) for h in heads}
            self.c.ob('seam', con + ': head', words == {n}, 'the head is {} token(s) long, but the text {} consists of {}'.format(
                n, ' or '.join(sorted(heads)), ' or '.join(map(str, sorted(words)))), x.where)
        # all rests of the same items that are used
        rests = [t for t in self.terms() if t.op == 'slice' and t.args[0] is obj and (t.args[2] is NONE or (const_int(t.args[2]) or 0) < 0)
                 and const_int(t.args[1]) is not None and const_int(t.args[1]) >= 0]
        if any(q.issub(E.block) for q in ks) or rests:
            for t in rests:
                self.c.ob('seam', con + ': contents', const_int(t.args[1]) == n,
                          'the contents start at item {}, but the head ends at {}'.format(const_int(t.args[1]), n), x.where)
            if not rests and any(q.issub(E.block) for q in ks):
                whole = self.whole(obj)
                self.c.ob('seam', con + ': contents', whole is not False, 'nothing reads the items after the head' if whole is None else '', x.where)
        pops = [p for p in subterms(x.tail) if p.op == 'popped' and p.args[0] is obj] if x.tail is not None else []
        for p in pops:
            for t in rests:
                self.c.ob('seam', con + ': order', ver(t) >= ver(p), 'the contents are taken before the closing token is taken off', x.where)

    def whole(self, obj):
        """Whether the items are handed on as a whole; None if not at all."""
        for e in self.r.events:
            if e.kind == 'call' and any(a is obj for a in e.args[1]):
                return True
            if e.kind in ('loop_var', 'consume', 'next') and any(t is obj for a in e.args for t in flat(a)):
                return True
        return True if any(t.op in ('each', 'iter') and t.args[0] is obj for t in self.terms()) else None

    # -- what is cut off is used
    def cut(self):
        params = {param(p) for p in self.f.params()}
        for e in self.r.events:
            if e.kind == 'mutate' and e.args[0] in params and e.args[1] == 'pop':
                k = (e.where, 'cut')
                if k in self.done or self.name(e) != self.own():
                    continue
                self.done.add(k)
                used = any(t.op == 'popped' and t.args[0] is e.args[0] for t in self.used())
                con = '{}: pop'.format(self.name(e))
                self.c.ob('used', con, used, 'a token is taken off and not used', e.where)
            elif e.kind == 'delitem' and e.args[0] in params:
                k = (e.where, 'cut')
                if k in self.done:
                    continue
                self.done.add(k)
                idx = e.args[1]
                con = '{}: del {}'.format(self.name(e), show(idx))
                blank = any('isspace' in show(f) for f in e.facts)
                if idx.op == 'const' and blank:
                    self.c.ob('used', con, True, '', e.where)
                elif idx.op in ('sl', 'slice') and len(idx.args) >= 2 and idx.args[-2] is NONE or idx.op == 'sl':
                    lo = const_int(idx.args[0])
                    if lo is None or lo >= 0 or idx.args[1] is not NONE:
                        self.c.unknown('used', con, 'deletion not understood')
                    else:
                        self.covered(con, e.args[0], -lo, e)
                else:
                    self.c.ob('used', con, False, 'an item is deleted', e.where)
        seen = set()
        for t in sorted(self.terms(), key=lambda t: t.id if hasattr(t, 'id') else 0):
            if t.op == 'slice' and t.args[0] in params and (const_int(t.args[2]) or 0) < 0 and (t.args[1] is NONE or const_int(t.args[1]) == 0):
                n = -const_int(t.args[2])
                if (t.args[0], n) in seen or ('slice', self.f, t.args[0], n) in self.done:
                    continue
                seen.add((t.args[0], n))
                self.done.add(('slice', self.f, t.args[0], n))
                self.covered('{}: [:{}]'.format(self.f.qualname.replace('quickly.lang.', ''), -n), t.args[0], n, None, ver(t))

    def used(self):
        out = set()
        for x in self.made:
            for t in [x.head, x.tail] + x.children:
                if t is not None:
                    out.update(subterms(t))
        if self.r.value is not None:
            out.update(subterms(self.r.value))
        for e in self.r.events:
            if e.kind in ('mutate', 'store', 'getitem', 'setitem', 'yield'):
                args = e.args[2:] if e.kind == 'mutate' else e.args
                for a in args:
                    for t in flat(a):
                        out.update(subterms(t))
            elif e.kind == 'call' and callee_name(e.args[0]) not in ('pop',):
                for t in e.args[1]:
                    for y in flat(t):
                        out.update(subterms(y))
        return out

    def covered(self, con, obj, n, e, version=0):
        """The last n items are used, each once."""
        where = e.where if e is not None else self.f.where
        count = [0] * n
        over = set()
        args = []
        for x in self.made:
            for t in [x.head, x.tail]:
                if t is not None:
                    args.extend((x, y) for y in {y for y in subterms(t) if y.op in ('slice', 'item') and y.args[0] is obj})
        for x, y in args:
            if y.op == 'slice':
                lo, hi = const_int(y.args[1]), const_int(y.args[2])
                if lo is None or lo >= 0:
                    continue
                hi = 0 if y.args[2] is NONE else hi
                if hi is None or hi > 0:
                    continue
                rng = range(lo, hi)
            else:
                i = const_int(y.args[1])
                if i is None or i >= 0:
                    continue
                rng = (i,)
            if x.how == 'factory':
                for i in rng:
                    if -n <= i < 0:
                        count[i + n] += 1
                    elif i < -n and e is None and (y.op == 'item' or ver(y) == version):
                        over.add(i)
        if e is None:
            self.c.ob('used', con + ': rest', not over, 'the token nr. {} is used, but it is also part of the rest'.format(
                ', '.join(map(str, sorted(over)))), where)
        self.c.ob('used', con, all(v == 1 for v in count),
                  'of the last {} tokens, {}'.format(n, ', '.join('nr. {} is used {} times'.format(i - n, v) for i, v in enumerate(count) if v != 1)), where)

    # -- stepping through items by index
    def steps(self):
        I = self.I
        for mu, (init, nxt) in list(I.mu.items()):
            obj = self.indexed(mu)
            if obj is None:
                continue
            for adv, lits in offsets(nxt, mu):
                if adv is None:
                    continue
                facts = {}
                ok = True
                for k, v in lits:
                    if facts.get(k, v) != v:
                        ok = False
                    facts[k] = v
                if not ok or not consistent(facts):
                    continue
                need, seen, peeked = 1, 1, False
                for k, v in facts.items():
                    while k.op in ('truth', 'not') and hasattr(k.args[0], 'op'):
                        v = v != (k.op == 'not')
                        k = k.args[0]
                    if k.op == 'call' and callee_name(k.args[0]) == 'peek' and callee_base(k.args[0]) is obj:
                        at = self.offset(k.args[1][0], mu, lits) if v else None
                        if at is not None:
                            need = max(need, at + len(k.args[1]) - 1)
                            peeked = True
                    else:
                        at = self.looked(k, obj, mu, lits)
                        if at is not None:
                            seen = max(seen, at + 1)
                seen = max(seen, need)
                con = '{}: step after {}'.format(self.f.qualname.replace('quickly.lang.', ''), need if peeked else 'one')
                key = (con, adv, self.f, tuple(sorted(str(show(k))[:200] + str(v) for k, v in facts.items())))
                if key in self.done:
                    continue
                self.done.add(key)
                self.c.ob('step', con, need <= adv <= seen if peeked else adv >= need,
                          'moves on {} items after having looked at {}'.format(adv, need), self.f.where)

    def looked(self, k, obj, mu, lits):
        """The distance of the item a condition is about."""
        at = [self.offset(t.args[1], mu, lits) for t in subterms(k) if t.op == 'item' and t.args[0] is obj]
        at = [x for x in at if x is not None]
        return max(at) if at else None

    def indexed(self, mu):
        """The items that are stepped through with a loop variable."""
        for t in self.terms():
            if t.op == 'item' and t.args[1] is mu and t.args[0].op in ('param', 'slice') and t.args[0] in {param(p) for p in self.f.params()}:
                return t.args[0]
        return None

    def offset(self, t, mu, lits):
        r = [a for a, l in offsets(t, mu) if compatible(l, lits)]
        return r[0] if r and all(x == r[0] for x in r) else None


def compatible(a, b):
    d = dict(b)
    return all(d.get(k, v) == v for k, v in a)


def offsets(t, mu, depth=0):
    """[(constant distance from mu or None, literals)]"""
    if depth > 40:
        return [(None, ())]
    if t is mu:
        return [(0, ())]
    if t.op == 'ite':
        out = []
        for v, x in ((True, t.args[1]), (False, t.args[2])):
            for a, l in offsets(x, mu, depth + 1):
                if compatible(((t.args[0], v),), l):
                    out.append((a, l + ((t.args[0], v),)))
        return out
    if t.op == 'bin' and t.args[0] == '+':
        a, b = t.args[1], t.args[2]
        if const_int(a) is not None:
            a, b = b, a
        if const_int(b) is not None:
            return [(None if x is None else x + const_int(b), l) for x, l in offsets(a, mu, depth + 1)]
    return [(None, ())]


def ver(t):
    v = t.args[-1]
    return v if isinstance(v, int) else const_int(v) or 0


def flat(a):
    if hasattr(a, 'op'):
        yield a
    elif isinstance(a, (tuple, list)):
        for x in a:
            yield from flat(x)
