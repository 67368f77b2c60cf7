"""I01: indenting a document leaves nothing behind, and levels close where they were opened.

The Indenter is interpreted on abstract trees: the shape of the tree, its white space and what
indents are known, the texts and the settings are unknown. The result is an expression that
consists of the unknown texts and of amounts of spaces that are sums of the unknown settings and
the lengths of the texts; it is compared with the meaning of the indent levels.
"""
import ast
from itertools import product

from ..lib import *
from ..shape import World
from ..algebra import Algebra, add, num, const_of, freeze

TECHNIQUE = ('Abstract interpretation of Indenter.write() on trees of known shape with unknown texts and settings; '
             'the resulting text expression (texts, and polynomial amounts of spaces, for every outcome of the comparisons '
             'with max_align_indent) is compared with the meaning of the nested levels; '
             'repeated from an arbitrary state of the working attributes.')
NOTE = 'Texts are taken as one line each; leading white space of the whole output is removed by design.'

WIDTH, START, MAX = param('width'), param('start'), param('max')
SIGNS = (-1, 0, 1)


def check(c):
    m = c.model
    c.guard('layout', 'Indenter.write', lambda: layouts(c, m))
    c.guard('fresh', 'Indenter.write', lambda: fresh(c, m))
    c.guard('settings', 'write_indented', lambda: settings(c, m))
    c.guard('levels', 'indent_align_indices', lambda: levels(c, m))
    c.floor('layout', 150)
    c.floor('text', 150)
    c.floor('fresh', 20)
    c.floor('settings', 4)
    c.floor('levels', 4)


# ---------------------------------------------------------------------- trees

def N(head='', *ch, tail='', **kw):
    return dict(kw, head=head, ch=ch, tail=tail)


def block(*ch, open='{', close='}', **kw):
    return N(open, *ch, tail=close, indent=True, **kw)


def trees():
    """(name, tree): all combinations of where lines end, for a number of shapes."""
    S, L = ' ', '\n'
    out = []

    def add(name, t):
        out.append((name, t))
    ends = (S, L)
    for x, y, z in product(ends, repeat=3):
        lab = ''.join('/' if q == L else '_' for q in (x, y, z))
        kw = dict(after_head=x, between=y, before_tail=z)
        for al in ((), (0,), (1, 0)):
            n = ' align {}'.format(' '.join(map(str, al))) if al else ''
            add('block {}{}'.format(lab, n), block(N('a'), N('b'), N('c'), align=al, **kw))
            add('block with children {}{}'.format(lab, n), block(N('a', N('x'), N('y'), after_head=S, between=S), N('b', N('z'), after_head=S), N('c'), align=al, **kw))
            add('nested {}{}'.format(lab, n), block(block(N('a'), N('b'), open='[', close=']', align=al, **kw), N('c'), align=al, **kw))
            add('nested, on one line {}{}'.format(lab, n), block(block(N('a'), N('b'), open='[', close=']', align=al, **kw), N('c'),
                                                                 after_head=S, between=L, before_tail=S, align=al))
        add('three levels ' + lab, block(block(block(N('a'), open='(', close=')', **kw), open='[', close=']', **kw), N('b'), N('c'), **kw))
        add('text before ' + lab, N('p', block(N('a'), N('b'), **kw), N('q'), block(N('c'), open='[', close=']', **kw),
                                    after_head=S, between=x))
        add('without tail ' + lab, block(block(N('a'), N('b'), open='[', close='', **kw), N('c'), **kw))
        add('without head ' + lab, block(block(N('a'), N('b'), open='', close=']', **kw), N('c'), **kw))
        add('without text ' + lab, block(block(N('a'), N('b'), open='', close='', **kw), N('c'), **kw))
        add('override ' + lab, block(N('a'), N('b', override=0), block(N('x'), open='[', close=']', **kw), **kw))
        add('override, aligned ' + lab, N('', block(N('a', override=0), block(N('x'), N('y'), open='[', close=']', align=(0,), **kw), align=(0,), **kw), N('q'), between=L))
        add('headless ' + lab, block(N('', N('a'), N('b'), between=y), N('', N('c')), align=(0,), **kw))
        add('empty inside ' + lab, block(N(), block(open='[', close=']', after_head=x), N('a'), N(), **kw))
        add('siblings ' + lab, N('', block(N('a'), **kw), block(N('b'), open='[', close=']', **kw), N('c'), between=y))
        add('own white space ' + lab, block(N('a', before=x, after=y), N('b', before=z), between=S))
        add('closing and opening ' + lab, block(N('p', block(N('a'), close='}', open='(', after_head=L, before_tail=x), N('q'),
                                                   block(N('b'), N('c'), open='[', close=']', align=(0,), after_head=y, between=L), after_head=S, between=S),
                                                 after_head=L, before_tail=z))
        add('lines closing many ' + lab, block(block(block(N('a'), open='(', close=')', before_tail=x), open='[', close=']', before_tail=y),
                                                N('b'), after_head=L, between=z))
        add('closing together ' + lab, block(N('p'), block(block(N('a'), open='(', close=')', before_tail=x, after_head=L), open='[', close=']', before_tail=y), before_tail=z))
        add('closing two together ' + lab, N('', block(block(N('a'), open='[', close=']', before_tail=x, after_head=y), before_tail=z), N('q'), between=L))
        add('inner without tail ' + lab, block(N('p'), block(N('a'), open='[', close='', after_head=x), before_tail=y, between=z))
        add('inner without tail, two ' + lab, N('', block(N('p'), block(block(N('a'), open='(', close='', after_head=x), open='[', close='', after_head=L), before_tail=y, between=z), N('q'), between=L))
        add('closing over one without tail ' + lab, N('', block(block(block(N('a'), open='(', close=')', before_tail=L, after_head=x), open='[', close='', after_head=L), after_head=L, before_tail=y), N('q'), between=z))
        add('aligned inside aligned ' + lab, block(N('a'), block(N('x'), N('y'), open='[', close=']', align=(0,), after_head=S, between=z),
                                                    N('b'), align=(1,), after_head=x, between=y))
    add('lines', N('', N('a'), N('b'), N('c'), between=L))
    add('empty lines', block(N('a'), N('b'), after_head='\n\n', between='\n\n\n'))
    add('one', N('a'))
    add('nothing', N())
    add('space first', N('a', before=S, after=L))
    add('newline first', block(N('a'), before=L))
    return out


class Trees:
    """Abstract trees, and an interpreter that knows what their nodes say."""

    def __init__(self, m):
        self.m = m
        self.spec = {}
        self.texts = {}
        self.fails = None       # a text that can not be written
        self.cls = m.cls('dom.element.Element')
        self.w = World(m, on_call=self.on_call)
        for t in (WIDTH, START, MAX):
            self.w.facts.append((mk('cmp', 'is', t, NONE), False))

    def text(self, name):
        if not name:
            return const('')
        t = param('text ' + name)
        if t not in self.texts:
            self.texts[t] = name
            self.w.facts.append((truth(t), True))
            self.w.facts.append((mk('cmp', 'is', t, NONE), False))
        return t

    def node(self, spec):
        t = self.w.node(self.cls, *[self.node(s) for s in spec['ch']])
        self.text(spec['head']), self.text(spec['tail'])
        self.spec[t] = spec
        for a in ('before', 'after_head', 'between', 'before_tail', 'after'):
            self.w.heap[t, 'space_' + a] = const(spec.get(a, ''))
        return t

    def indenter(self, *args):
        return self.w.new(self.m.cls('dom.indent.Indenter'), *args)

    def on_call(self, I, st, fn, args, kws, nd):
        if fn.op == 'attr' and fn.args[0] in self.texts:
            # a text contains more than white space
            if fn.args[1] == 'isspace':
                return FALSE
            if fn.args[1] in ('strip', 'lstrip', 'rstrip') and not args:
                return fn.args[0]
        if fn.op == 'bound' and fn.args[1] in self.spec:
            s = self.spec[fn.args[1]]
            n = fn.args[0].name
            if n in ('write_head', 'write_tail'):
                t = self.text(s[n[6:]])
                if t is self.fails:
                    I.do_raise(st, mk('exc', 'Interrupted'))
                    return UNBOUND
                return t
            if n == 'indent_children':
                return const(bool(s.get('indent')))
            if n == 'indent_override':
                return const(s.get('override'))
            if n == 'indent_align_indices':
                return mk('tuple', *(const(i) for i in s.get('align', ())))
            if n == 'concat_space':
                return const(s.get('between', ''))
        return None


# --------------------------------------------------------------- the meaning

class Level:
    def __init__(self, parent, spec, line):
        self.parent, self.spec, self.line, self.column = parent, spec, line, {}


def meaning(tree, sign):
    """The lines: (amount of spaces as a polynomial, pieces of text).

    sign(poly) is the sign of a polynomial.
    """
    alg = Algebra()
    width, start, limit = (alg.poly(t) for t in (WIDTH, START, MAX))
    lines = [[]]        # the pieces; a text is a term
    first = [None]      # the level a line belongs to
    over = [None]
    only_tails = [False]
    spaces = []
    state = dict(level=None)

    def outer(level, line):
        while level is not None and level.line == line:
            level = level.parent
        return level

    def white():
        w = max(spaces, key=lambda t: (t.count('\n'), t.count(' ')), default='')
        spaces.clear()
        for ch in w:
            if ch == '\n':
                lines.append([])
                first.append(state['level'])
                over.append(None)
                only_tails.append(True)
            else:
                lines[-1].append(ch)

    def walk(s, owner, index):
        spaces.append(s.get('before', ''))
        if s['head']:
            white()
            now = len(lines) - 1
            if not lines[-1] and s.get('override') is not None:
                over[-1] = s['override']
            only_tails[-1] = False
            if owner is not None and owner.line == now and index in owner.spec.get('align', ()):
                owner.column[index] = list(lines[-1])
            lines[-1].append(param('text ' + s['head']))
            if s['tail'] or s['ch']:
                spaces.append(s.get('after_head', ''))
        level = None
        if s.get('indent'):
            level = Level(state['level'], s, None)
            level.open = len(lines) - 1
            level.line = len(lines) - 1
            state['level'] = level
        for i, ch in enumerate(s['ch']):
            if i:
                spaces.append(s.get('between', ''))
            if level is not None:
                walk(ch, level, i)
            else:
                # the first child of something without text is seen in its place
                walk(ch, None if s['head'] or i else owner, index)
        if level is not None:
            state['level'] = level.parent
        if s['tail']:
            spaces.append(s.get('before_tail', ''))
            white()
            if only_tails[-1]:
                # a line that begins with closing belongs to the outer level
                first[-1] = outer(state['level'], len(lines) - 1)
            lines[-1].append(param('text ' + s['tail']))
        spaces.append(s.get('after', ''))

    walk(tree, None, -1)

    memo = {}

    def line_indent(i):
        return num(over[i]) if over[i] is not None else value(first[i])

    def value(level):
        if level is None:
            return start
        if level not in memo:
            v = add_(value(level.parent), width)
            for i in level.spec.get('align', ()):
                if i in level.column:
                    offset = length(level.column[i])
                    if sign(add(offset, limit, -1)) <= 0:
                        v = add_(line_indent(level.line), offset)
                    break
            memo[level] = v
        return memo[level]

    def length(pieces):
        p = num(0)
        for x in pieces:
            p = add_(p, num(1) if isinstance(x, str) else alg.poly(mk('len', x)))
        return p

    def add_(a, b):
        return add(a, b)

    # white space at the start of the output is removed
    k = 0
    while k < len(lines) and all(isinstance(x, str) for x in lines[k]):
        k += 1
    out = []
    for i in range(k, len(lines)):
        l = list(lines[i])
        while i == k and l and isinstance(l[0], str):
            del l[0]
        out.append((freeze(line_indent(i)), tuple(l)))
    return out


# --------------------------------------------------------------- the result

class Unclear(Exception):
    pass


def pieces(t, sign, alg):
    """Strings of length 1, text terms and ('spaces', poly)."""
    if is_const(t) and isinstance(t.args[0], str):
        return list(t.args[0])
    if t.op == 'param':
        return [t]
    if t.op == 'bin' and t.args[0] == '+':
        return pieces(t.args[1], sign, alg) + pieces(t.args[2], sign, alg)
    if t.op == 'bin' and t.args[0] == '*':
        for a, b in (t.args[1:3], t.args[2:0:-1]):
            if is_const(a) and a.args[0] == ' ':
                return [('spaces', alg.poly(resolve(b, sign, alg)))]
    if t.op == 'joined':
        out = []
        for i, x in enumerate(t.args[1]):
            if i:
                out += list(t.args[0].args[0])
            out += pieces(x, sign, alg)
        return out
    if t.op == 'fmt':
        out = []
        for x in t.args[0]:
            out += pieces(x, sign, alg)
        return out
    if t.op == 'ite':
        return pieces(t.args[1] if holds(t.args[0], sign, alg) else t.args[2], sign, alg)
    raise Unclear(show(t))


def holds(cond, sign, alg):
    cond, pol = lit(cond)
    if is_const(cond):
        return bool(cond.args[0]) == pol
    if cond.op in ('and',):
        return all(holds(x, sign, alg) for x in cond.args) == pol
    if cond.op == 'ite':
        return holds(cond.args[1] if holds(cond.args[0], sign, alg) else cond.args[2], sign, alg) == pol
    if cond.op == 'cmp' and cond.args[0] in ('<', '<=', '>', '>=', '==', '!='):
        s = sign(add(alg.poly(resolve(cond.args[1], sign, alg)), alg.poly(resolve(cond.args[2], sign, alg)), -1))
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[cond.args[0]] == pol
    raise Unclear(show(cond))


def resolve(t, sign, alg):
    """A term without undecided conditions."""
    if not isinstance(t, T):
        return t
    if t.op == 'ite':
        return resolve(t.args[1] if holds(t.args[0], sign, alg) else t.args[2], sign, alg)
    if t.op in ('bin', 'neg'):
        return mk(t.op, *(resolve(x, sign, alg) for x in t.args))
    if t.op == 'len':
        return measure(t.args[0], sign, alg)
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] in ('min', 'max') and len(t.args[1]) == 2:
        a, b = (resolve(x, sign, alg) for x in t.args[1])
        s = sign(add(alg.poly(a), alg.poly(b), -1))
        return a if (s <= 0) == (t.args[0].args[0] == 'min') else b
    return t


def measure(t, sign, alg):
    if t.op == 'param':
        return mk('len', t)
    out = ZERO
    for x in pieces(t, sign, alg):
        out = mk('bin', '+', out, const(1) if isinstance(x, str) else mk('len', x) if isinstance(x, T) else _spaces(x))
    return out


def _spaces(x):
    raise Unclear('length of an indent')


def lines_of(t, sign):
    """The lines of a text expression, as by meaning()."""
    alg = Algebra()
    out, indent, line, began = [], num(0), [], False
    for x in pieces(t, sign, alg):
        if x == '\n':
            out.append((freeze(indent), tuple(line)))
            indent, line, began = num(0), [], False
        elif isinstance(x, tuple) and not line:
            indent = add(indent, x[1])
        elif isinstance(x, tuple):
            k = const_of(x[1])
            if k is None:
                raise Unclear('spaces inside a line')
            line += ' ' * int(k)
        else:
            line.append(x)
    return out + ([('unfinished', tuple(line))] if line else [])


class Signs:
    """Assumes signs of unknown differences, all combinations in turn."""
    def __init__(self):
        self.order = []
        self.value = {}

    def __call__(self, p):
        k = const_of(p)
        if not p:
            return 0
        if k is not None:
            return (k > 0) - (k < 0)
        key = freeze(p)
        minus = freeze({m: -c for m, c in p.items()})
        if minus in self.value:
            return -self.value[minus]
        if key not in self.value:
            self.value[key] = -1
            self.order.append(key)
        return self.value[key]

    def advance(self):
        while self.order:
            k = self.order[-1]
            if self.value[k] < 1:
                self.value[k] += 1
                return True
            self.order.pop()
            del self.value[k]
        return False


def cases(fn):
    """Run fn(sign) for all assumptions."""
    s = Signs()
    while True:
        yield fn(s)
        if not s.advance():
            return


def picture(lines):
    """Readable form of lines."""
    def amount(f):
        if f == 'unfinished':
            return '(no line end) '
        out = []
        for mono, k in f:
            n = '*'.join(str(x.args[0]) if isinstance(x, T) and x.op == 'param' else show(x) if isinstance(x, T) else str(x) for x in mono)
            out.append((n if k == 1 else '{}*{}'.format(k, n)) if n else str(k))
        return '+'.join(out) or '0'
    return ' | '.join('<{}>{}'.format(amount(f), ''.join(x if isinstance(x, str) else x.args[0][5:] for x in l)) for f, l in lines)


def differs(r, tree):
    """The first difference between the result and the meaning, None if there is none, and the number of cases."""
    if r.value is None:
        return 'has no result', 0
    n = 0

    def one(sign):
        return lines_of(r.value, sign), meaning(tree, sign)
    for got, want in cases(one):
        n += 1
        if normal(got) != normal(want):
            return 'writes {} instead of {}'.format(picture(got), picture(want)), n
    return None, n


def normal(lines):
    """Spaces at the start of a line count as indent; of an empty line the indent is not seen."""
    return [('blank',) if all(isinstance(x, str) for x in l) and f != 'unfinished' else (f, l) for f, l in lines]


def problems(r):
    out = ['can raise {}'.format(x.args[0]) for st, x in r.raises if x.args[0] not in ('Exception',)]
    out += ['runs on forever' for e in r.events if e.kind == 'endless']
    out += ['breaks at line {}'.format(getattr(e.node, 'lineno', 0)) for e in r.events if e.kind == 'crash']
    return out


def layouts(c, m):
    """Lines are indented by the levels that are open, for every setting and every text."""
    where = m.cls('dom.indent.Indenter').lookup('write')[2].where
    for name, tree in trees():
        T_ = Trees(m)
        node = T_.node(tree)
        ind = T_.indenter(WIDTH, START, MAX)
        r = T_.w.method(ind, 'write', (node,))
        try:
            d, n = differs(r, tree)
        except Unclear as e:
            c.unknown('layout', name, 'not clear: {}'.format(str(e)[:200]))
            continue
        bad = problems(r)
        c.ob('layout', name, d is None and not bad, d or ', '.join(bad), where)
        got = [x for _, l in lines_of(r.value, lambda p: -1) for x in l if not isinstance(x, str)]
        want = list(texts(tree))
        c.ob('text', name, got == want, 'writes {} instead of {}'.format(' '.join(show(x) for x in got), ' '.join(show(x) for x in want)), where)
        c.unit('tree')


def texts(s):
    """The texts of a tree, as they are written without indent."""
    if s['head']:
        yield param('text ' + s['head'])
    for ch in s['ch']:
        yield from texts(ch)
    if s['tail']:
        yield param('text ' + s['tail'])


def fresh(c, m):
    """An indenter that was used before, or interrupted at any node, writes the same."""
    cls = m.cls('dom.indent.Indenter')
    f = cls.lookup('write')[2]
    chosen = [(n, t) for n, t in trees() if n.startswith(('nested', 'closing and', 'headless', 'three')) and n.endswith(('_//', '/_/', '//_', '_/_ align 0'))]
    chosen.append(('override first', N('a', block(N('b'), after_head='\n', before_tail='\n'), override=0, after_head=' ')))
    L = '\n'
    other = block(N('o'), block(N('r', after=' '), N('s'), open='[', close=']', after_head=L, between=L, align=(0,)), N('u'),
                  block(N('v'), N('w'), open='<', close='>', between=' ', align=(0,)), after_head=L, before_tail=' ', after=' ', between=' ')
    count = sum(1 for _ in texts(other))
    for name, tree in chosen:
        for history in ['used before', 'twice'] + ['interrupted at text {}'.format(i) for i in range(count)]:
            T_ = Trees(m)
            node = T_.node(tree)
            ind = T_.indenter(WIDTH, START, MAX)
            first = T_.node(tree if history == 'twice' else other)
            if history.startswith('interrupted'):
                T_.fails = list(texts(other))[int(history.split()[-1])]
            r = T_.w.method(ind, 'write', (first,))
            label = '{}: {}'.format(name, history)
            if T_.fails is None:
                states = [st for st, v in r.returns]
            else:
                states = [st for st, x in r.raises if x.args[0] == 'Interrupted']
            T_.fails = None
            if not states:
                c.unknown('fresh', label, 'the first document is not written')
                continue
            for st in states:
                T_.w.heap = dict(st.heap)
                r = T_.w.run(f, ind, (node,), facts=[(k, v) for k, v in st.facts.items()])
                try:
                    d, n = differs(r, tree)
                except Unclear as e:
                    d = 'the output depends on {}'.format(str(e)[:120])
                c.ob('fresh', label, d is None, d, f.where)


def defaults(f):
    """The default values of the parameters of a function, as arguments."""
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return tuple((k.arg, const(d.value) if isinstance(d, ast.Constant) else param('default ' + ast.unparse(d))) for k, d in out)


def settings(c, m):
    """write_indented() hands over its arguments, and has the same defaults."""
    cls = m.cls('dom.indent.Indenter')
    init = cls.lookup('__init__')[2]
    tree = block(block(N('a'), N('b'), open='[', close=']', align=(0,), after_head=' ', between='\n'), N('c'), N('d'), align=(0,), after_head='\n', between='\n')
    methods = {}
    for k in m.all_classes():
        got = k.lookup('write_indented')
        if got and got[1] == 'method':
            methods[got[2]] = k
    if not methods:
        raise AnalysisBroken('no write_indented()')
    for f, k in sorted(methods.items(), key=lambda x: x[0].qualname):
        for how in ('positional', 'by name'):
            T_ = Trees(m)
            node = T_.node(tree)
            if how == 'positional':
                r = T_.w.run(f, node, (WIDTH, START, MAX))
            else:
                r = T_.w.run(f, node, (), kwargs=(('max_align_indent', MAX), ('start_indent', START), ('indent_width', WIDTH)))
            try:
                d, n = differs(r, tree)
            except Unclear as e:
                c.unknown('settings', '{} {}'.format(f.qualname, how), 'not clear: {}'.format(str(e)[:200]))
                continue
            c.ob('settings', '{} {}'.format(f.qualname, how), d is None, d, f.where)
        # defaults
        T_ = Trees(m)
        node = T_.node(tree)
        r = T_.w.run(f, node, (), kwargs=defaults(f))
        ind = T_.w.new(cls, **dict(defaults(init)))
        r2 = T_.w.method(ind, 'write', (node,))
        try:
            for a, b in cases(lambda sign: (lines_of(r.value, sign), lines_of(r2.value, sign))):
                if a != b:
                    break
            c.ob('settings', '{} defaults'.format(f.qualname), a == b, 'writes for some texts {} and the indenter {}'.format(picture(a), picture(b)), f.where)
        except Unclear as e:
            c.unknown('settings', '{} defaults'.format(f.qualname), 'not clear: {}'.format(str(e)[:200]))
    # by attribute
    for name, term in (('indent_width', WIDTH), ('start_indent', START), ('max_align_indent', MAX)):
        T_ = Trees(m)
        node = T_.node(tree)
        args = [t for t in (WIDTH, START, MAX)]
        i = args.index(term)
        args[i] = param('something else')
        ind = T_.indenter(*args)
        T_.w.set(ind, name, term)
        r = T_.w.method(ind, 'write', (node,))
        try:
            d, n = differs(r, tree)
        except Unclear as e:
            c.unknown('settings', 'attribute ' + name, 'not clear: {}'.format(str(e)[:200]))
            continue
        c.ob('settings', 'attribute ' + name, d is None, d, init.where)


def levels(c, m):
    """Elements that indent: the indices to align with are numbers of children."""
    base = m.cls('dom.element.Element')
    seen = set()
    for k in m.all_classes():
        if not k.issub(base):
            continue
        got = k.lookup('indent_align_indices')
        if not got or got[1] != 'method' or got[2] in seen:
            continue
        seen.add(got[2])
        r = node_interp(m).run(got[2], self_term=param('self'), cls=k)
        ok = True
        for e in r.yields:
            v = e.args[0]
            ok = ok and all(is_const(x) and isinstance(x.args[0], int) and x.args[0] >= 0 for x, _ in leaves(v))
        c.ob('levels', got[2].qualname, ok, 'yields something else than a number of a child', got[2].where)
        ind = k.lookup('indent_children')
        c.ob('levels', got[2].qualname + ' is used', got[0] is base or ind is not None and ind[0] is not base,
             'has indices to align with, but does not indent', got[2].where)
