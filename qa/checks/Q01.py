"""Q01: Range iteration covers exactly the fragment between its boundaries.

The methods of Range are interpreted on abstract trees of every shape up to a certain size,
made by the interpreted methods of Node, with every pair of boundaries. What a walk yields, and
what membership, intersection and extraction answer, is compared with the set of nodes from
the start node up to the end node in document order; and after changes through the range it
must still have the same nodes, as far as they are not removed.
"""
import ast
from itertools import product

from ..lib import *
from ..shape import World

TECHNIQUE = ('Abstract interpretation of Range and its levels on abstract trees of all shapes up to a size, with all boundaries; '
             'yielded nodes and answers are compared with the document order between the boundaries, also in the heap that '
             'results from (interpreted) changes through the range.')
NOTE = ('The shape of the tree is known and bounded, the nodes themselves are unknown; sending False to a walk is decided by T04; '
        'a Range whose tree is changed behind its back is outside of the property.')


def check(c):
    m = c.model
    c.guard('walk', 'Range', lambda: reading(c, m))
    c.guard('edit', 'Range', lambda: editing(c, m))
    c.guard('change', 'Range', lambda: iterating(c, m))
    c.floor('walk', 300)
    c.floor('answer', 300)
    c.floor('edit', 300)
    c.floor('change', 40)


def shapes(n):
    """All ordered forests with n nodes."""
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for a in shapes(k - 1):
            for b in shapes(n - k):
                yield (a,) + b


class Tree:
    """An abstract tree, and what is known of it."""

    def __init__(self, m, shape, more=0):
        self.m = m
        self.k = m.cls('node.Node')
        self.w = World(m)
        self.w.sent = NONE
        self.shape = shape
        self.kids, self.parent, self.nodes = {}, {}, []
        self.root = self.build(shape)
        self.nodes = list(self.order(self.root))
        self.index = {t: i for i, t in enumerate(self.nodes)}
        self.new = []
        for i in range(more):
            t = self.w.node(self.k)
            self.index[t] = 'new'
            self.new.append(t)

    def build(self, shape):
        ch = [self.build(s) for s in shape]
        t = self.w.node(self.k, *ch)
        self.kids[t] = ch
        for x in ch:
            self.parent[x] = t
        return t

    def order(self, t):
        yield t
        for x in self.kids[t]:
            yield from self.order(x)

    def mirror(self, t):
        yield t
        for x in reversed(self.kids[t]):
            yield from self.mirror(x)

    def above(self, t):
        while t in self.parent:
            t = self.parent[t]
            yield t

    def name(self, t):
        return self.index.get(t, show(t)[:40]) if t in self.index else show(t)[:40]


class Case:
    """A range on a tree."""

    def __init__(self, tree, si, ei, root):
        self.t = tree
        self.w = tree.w.copy()
        N = tree.nodes
        s = NONE if si is None else N[si]
        e = NONE if ei is None else N[ei]
        R = tree.m.cls('node.Range')
        self.cls = R
        f = R.lookup('from_nodes')[2]
        r = self.w.run(f, mk('cls', R), (s, e, const(root)), cls=R)
        if r.value is None:
            self.r = None
            return
        self.r = r.value
        self.w.types[self.r] = R
        self.w.adopt(r.state)
        self.label = '{} from {} to {}{}'.format(brackets(tree.shape), si, ei, ' (root)' if root else '')
        # what it means
        if si is None or ei is None or root:
            self.anc = tree.root
        else:
            up = [s] + list(tree.above(s))
            self.anc = next(x for x in [e] + list(tree.above(e)) if x in up)
        i0 = 0 if si is None else si
        i1 = len(N) if ei is None else ei
        self.below = [x for x in tree.order(self.anc)][1:]
        self.want = [x for x in self.below if i0 <= tree.index[x] <= i1]
        self.set = set(self.want)
        self.end = None if ei is None else e
        self.part = {x for x in self.below if any(y in self.set for y in tree.order(x))}
        self.full = {x for x in self.part if all(y in self.set for y in tree.order(x) if not tree.kids[y])}

    def fork(self):
        c = object.__new__(Case)
        c.__dict__.update(self.__dict__)
        c.w = self.w.copy()
        return c

    def call(self, name, *args):
        """Interpret a method; the changes persist."""
        got = self.cls.lookup(name)
        if not got:
            raise AnalysisBroken('Range has no {}()'.format(name))
        r = self.w.run(got[2], self.r, args, cls=self.cls, kwargs=defaults(got[2], len(args)))
        if r.state is not None:
            self.w.adopt(r.state)
        return r

    def prop(self, name):
        return self.call(name)


def defaults(f, n):
    """The constant default values of the parameters after the first n."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    d = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    out = {k: const(v.value) for k, v in list(zip(names, d))[n:] if isinstance(v, ast.Constant)}
    out.update((k.arg, const(v.value)) for k, v in zip(a.kwonlyargs, a.kw_defaults) if isinstance(v, ast.Constant))
    return out


def brackets(shape):
    return '({})'.format(''.join(brackets(s) for s in shape))


def yields(r):
    """The yielded terms of a walk or None."""
    if r.state is None:
        return None
    return [e.args[0] for e in r.yields]


def cases(tree):
    n = len(tree.nodes)
    for si, ei, root in product([None] + list(range(n)), [None] + list(range(n)), (False, True)):
        if si is None and ei is None or root and (si is None or ei is None):
            continue
        yield Case(tree, si, ei, root)


def where(c, name):
    got = c.cls.lookup(name)
    return got[2].where if got and got[1] == 'method' else 'quickly/node.py'


def verdict(v):
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    return bool(v.args[0]) if v is not None and is_const(v) else None


# -------------------------------------------------------------------- reading

def reading(ck, m):
    tell(ck, m)
    for n in (1, 2, 3, 4):
        for shape in shapes(n):
            tree = Tree(m, shape)
            for c in cases(tree):
                if n == 4 and c.r is not None and c.anc is not tree.root:
                    continue        # the same as a smaller tree
                one(ck, tree, c, n < 4)


def tell(ck, m):
    """Boundaries in different trees, or none."""
    t = Tree(m, ((), ()))
    other = t.w.node(t.k)
    R = m.cls('node.Range')
    f = R.lookup('from_nodes')[2]
    for a, b, root in ((t.nodes[1], other, False), (t.nodes[1], other, True), (NONE, NONE, False)):
        r = t.w.run(f, mk('cls', R), (a, b, const(root)), cls=R)
        ck.ob('answer', 'range without a tree of its own', r.value is None and any(x for x in r.raises),
              'is not refused with a ValueError', f.where)


def one(ck, tree, c, deep):
    if c.r is None:
        ck.ob('walk', 'from_nodes', False, 'there is no range for {}'.format(tree.shape), 'quickly/node.py')
        return
    name = tree.name

    def walk(case, method, want, what='', args=()):
        r = case.call(method, *args)
        got = yields(r)
        if got is None:
            ck.ob('walk', '{}: {}{}'.format(c.label, method, what), False, 'there is no answer', where(c, method))
            return
        ck.ob('walk', '{}: {}{}'.format(c.label, method, what), got == want,
              'yields {} in stead of {}'.format([name(x) for x in got], [name(x) for x in want]), where(c, method))

    def answer(case, method, want, what='', args=()):
        r = case.call(method, *args)
        got = verdict(r.value) if r.value is not None else None
        label = '{}: {}{}'.format(c.label, method, what)
        if got is None and r.value is not None:
            ck.unknown('answer', label, show(r.value)[:100])
            return
        ck.ob('answer', label, got is want, 'is {} in stead of {}'.format(got, want), where(c, method))

    order = list(tree.order(c.anc))
    mirror = list(tree.mirror(c.anc))
    walk(c.fork(), 'nodes', c.want)
    answer(c.fork(), '__bool__', bool(c.want))
    for x in tree.nodes:
        if x is c.anc:
            continue
        what = ' {}'.format(name(x))
        answer(c.fork(), '__contains__', x in c.full or x is c.end and x in c.set, what, (x,))
        if c.want:
            answer(c.fork(), 'intersects', x in c.part, what, (x,))
    if not c.want:
        return
    walk(c.fork(), 'descendants', [x for x in order if x in c.part])
    walk(c.fork(), 'descendants', [x for x in mirror if x in c.part], ' reversed', (TRUE,))
    walk(c.fork(), 'children', [x for x in tree.kids[c.anc] if x in c.part])
    walk(c.fork(), 'children', [x for x in reversed(tree.kids[c.anc]) if x in c.part], ' reversed', (TRUE,))
    extract(ck, tree, c)
    for x in tree.nodes:
        if x is c.anc:
            continue
        what = ' {}'.format(name(x))
        d = c.fork()
        r = d.call('goto', x)
        got = verdict(r.value)
        ck.ob('answer', '{}: goto{}'.format(c.label, what), got is (x in c.part), 'is {}'.format(got), where(c, 'goto'))
        if not got:
            continue
        v = d.fork().prop('node').value
        ck.ob('answer', '{}: node{}'.format(c.label, what), v is x, 'is {}'.format(v is not None and name(v)), where(c, 'goto'))
        answer(d.fork(), 'in_range', x in c.full, what)
        if not deep:
            continue
        below = [y for y in tree.order(x)][1:]
        walk(d.fork(), 'children', [y for y in tree.kids[x] if y in c.part], ' of' + what)
        walk(d.fork(), 'descendants', [y for y in below if y in c.part], ' of' + what)
        walk(d.fork(), 'descendants', [y for y in tree.mirror(x) if y is not x and y in c.part], ' reversed of' + what, (TRUE,))
        up = set(tree.above(x))
        walk(d.fork(), 'forward', [y for y in order[order.index(x) + 1:] if y in c.part and y not in below], ' from' + what)
        walk(d.fork(), 'backward', [y for y in mirror[mirror.index(x) + 1:] if y in c.part and y not in below and y not in up], ' from' + what)
        a = [y for y in tree.above(x)]
        walk(d.fork(), 'ancestors', a[:a.index(c.anc) + 1], ' of' + what)
        # going on with a range of its own
        e = d.fork()
        r = e.call('from_here')
        if r.value is None:
            ck.ob('walk', '{}: from_here{}'.format(c.label, what), False, 'there is no range', where(c, 'from_here'))
            continue
        e.r = r.value
        e.w.types[e.r] = c.cls
        walk(e, 'descendants', [y for y in below if y in c.part], ' of from_here' + what)


def extract(ck, tree, c):
    d = c.fork()
    r = d.call('extract_tree')
    label = '{}: extract_tree'.format(c.label)
    if r.value is None:
        ck.ob('walk', label, False, 'there is no tree', where(c, 'extract_tree'))
        return

    def got(t):
        segs = d.w.heap.get((t, '[]'))
        if segs is None or any(s[0] != 'one' or s[-1] for s in segs):
            return None
        return tuple(got(s[1]) for s in segs)

    def want(t):
        return tuple(want(x) for x in tree.kids[t] if x in c.part)
    g = got(r.value)
    ck.ob('walk', label, g == want(c.anc), 'has the shape {} in stead of {}'.format(brackets(g) if g is not None else None, brackets(want(c.anc))),
          where(c, 'extract_tree'))
    new = set()

    def collect(t):
        new.add(t)
        for s in d.w.heap.get((t, '[]'), ()):
            collect(s[1])
    collect(r.value)
    ck.ob('walk', label + ' copies', not new & set(tree.nodes), 'a node of the tree itself is in the extracted tree', where(c, 'extract_tree'))


# -------------------------------------------------------------------- editing

def interpret(c, name, args):
    """Interpret a changing method of the range; False if it fails."""
    r = c.call(name, *args)
    return r.state is not None and (r.value is not None or bool(r.returns))


def after(ck, tree, c, label, gone, w):
    """The range has the same nodes as before, without those that are gone."""
    want = [x for x in c.want if x not in gone]
    for how in ('copy', 'reset'):
        d = c.fork()
        if how == 'copy':
            r = d.call('copy')
            if r.value is None:
                ck.ob('edit', '{}, then copy'.format(label), False, 'there is no copy', w)
                continue
            d.r = r.value
            d.w.types[d.r] = d.cls
        elif d.call('reset').state is None:
            ck.ob('edit', '{}, then reset'.format(label), False, 'fails', w)
            continue
        got = yields(d.call('nodes'))
        if got is None:
            ck.ob('edit', '{}, then {}: nodes'.format(label, how), False, 'the range can not be iterated any more', w)
            continue
        old = [x for x in got if x not in tree.new]
        ck.ob('edit', '{}, then {}: nodes'.format(label, how), old == want,
              'are {} in stead of {}'.format([tree.name(x) for x in old], [tree.name(x) for x in want]), w)
        yield how, got


def editing(ck, m):
    for shape in ((), (), ()), (((), ()), ()), ((), ((), ())), ((((),),), ()):
        tree = Tree(m, shape, 2)
        for c in cases(tree):
            if c.r is None or not c.want or c.anc is not tree.root:
                continue
            for p in [c.anc] + [x for x in c.below if x in c.part]:
                edits(ck, m, tree, c, p)


def edits(ck, m, tree, c, p):
    d = c.fork()
    if p is not c.anc:
        if verdict(d.call('goto', p).value) is not True or d.call('enter').value is None:
            ck.ob('edit', '{}: enter {}'.format(c.label, tree.name(p)), False, 'fails', where(c, 'enter'))
            return
    kids = tree.kids[p]
    n = len(kids)
    at = '{}: in {}'.format(c.label, tree.name(p))
    w = where(c, '__setitem__')
    for a in range(n + 1):
        for b in range(a, n + 1):
            gone = {y for x in kids[a:b] for y in tree.order(x)}
            for k in (0, 1, 2):
                e = d.fork()
                label = '{} [{}:{}] = {} nodes'.format(at, a, b, k)
                if not interpret(e, '__setitem__', (mk('sl', const(a), const(b), NONE), mk('tuple', *tree.new[:k]))):
                    ck.ob('edit', label, False, 'fails', w)
                    continue
                if k and not n and p in c.full and p is not c.end:
                    # in a node that was empty
                    f, seen = e.fork(), []
                    while len(seen) <= k:
                        v = f.call('__next__').value
                        if v is None:
                            break
                        seen.append(v)
                    ck.ob('edit', '{}: iterating them'.format(label), seen == tree.new[:k], 'visits {} nodes'.format(len(seen)), w)
                for how, got in after(ck, tree, e, label, gone, w):
                    new = [x for x in got if x in tree.new]
                    inside = [x in c.part for x in kids]
                    if k and (0 < a and b < n and inside[a - 1] and inside[b] or gone and any(y in c.set for y in gone)):
                        ck.ob('edit', '{}: {} the new nodes'.format(label, how), new == tree.new[:k],
                              'are not in the range, they are put at a place inside of it', w)
                    elif k and b < n and any(inside) and not any(inside[:b]) and not inside[b]:
                        ck.ob('edit', '{}: {} the new nodes'.format(label, how), not new,
                              'are in the range, they are put at a place outside of it', w)
    for a in range(n):
        gone = set(tree.order(kids[a]))
        e = d.fork()
        label = '{} del [{}]'.format(at, a)
        if not interpret(e, '__delitem__', (const(a),)):
            ck.ob('edit', label, False, 'fails', where(c, '__delitem__'))
        else:
            list(after(ck, tree, e, label, gone, where(c, '__delitem__')))
        e = d.fork()
        label = '{} [{}] = a node'.format(at, a)
        if not interpret(e, '__setitem__', (const(a), tree.new[0])):
            ck.ob('edit', label, False, 'fails', w)
            continue
        for how, got in after(ck, tree, e, label, gone, w):
            # the node at a boundary stays in the range
            ck.ob('edit', '{}: {} the new node'.format(label, how), (tree.new[0] in got) == any(y in c.set for y in gone),
                  'is {}in the range'.format('' if tree.new[0] in got else 'not '), w)


# -------------------------------------------------- changes during an iteration

def iterating(ck, m):
    """Every node of a level is visited once when nodes are removed or replaced on the way."""
    R = m.cls('node.Range')
    nxt = R.lookup('__next__')
    if not nxt or nxt[1] != 'method':
        ck.unknown('change', 'Range', 'has no __next__()')
        return
    for n in (1, 2, 3):
        tree = Tree(m, ((),) * n)
        for c in cases(tree):
            if c.r is None or not c.want or c.anc is not tree.root:
                continue
            for ops in product('kdr2bx', repeat=len(c.want)):
                if n == 3 and len(set(ops) - {'k'}) > 2:
                    continue
                change(ck, tree, c, ops)


def change(ck, tree, c, ops):
    d = c.fork()
    label = '{}: {} while iterating'.format(c.label, ''.join(ops))
    seen = []
    w = where(c, '__setitem__')
    for i in range(len(c.want) + 2):
        r = d.call('__next__')
        if r.value is None or r.state is None:
            break
        if not isinstance(r.value, T) or r.value.op != 'new':
            ck.unknown('change', label, show(r.value)[:80])
            return
        seen.append(r.value)
        if i >= len(c.want):
            break
        op = ops[i]
        if op == 'k':
            continue
        index = d.prop('index').value
        if index is None or not is_const(index):
            ck.unknown('change', label, 'the index is not known')
            return
        j = index.args[0]
        if op == 'x' and not j:
            continue
        new = [d.w.node(tree.k) for _ in range(2)]
        args = {'d': ('__delitem__', (index,)),
                'r': ('__setitem__', (index, new[0])),
                '2': ('__setitem__', (mk('sl', index, const(j + 1), NONE), mk('tuple', *new))),
                'b': ('__setitem__', (mk('sl', index, index, NONE), mk('tuple', *new))),
                'x': ('__delitem__', (const(j - 1),))}[op]
        if not interpret(d, *args):
            ck.ob('change', label, False, '{}() fails'.format(args[0]), w)
            return
    ck.ob('change', label, seen == c.want, 'visits {} in stead of {}'.format(
        [tree.name(x) for x in seen], [tree.name(x) for x in c.want]), w)
